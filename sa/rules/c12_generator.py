"""C12: generator."""
from .base import *
from .comp import *

G = "coro::generator"
PR, IT = "coro::detail::generator_promise", "coro::detail::generator_iterator"
MC, IC = G + "::m_coroutine", IT + "::m_coroutine"
VAL, EXP = PR + "::m_value", PR + "::m_exception"


def is_store(a):
    return isinstance(a, tuple) and a[0] == "addr" and bool(a[2]) and a[2][-1] == EXP


def of(v, h):
    """address inside the promise of one of the handles"""
    return isinstance(v, tuple) and any(contains(v, ("op", "promiseof", x)) for x in h)


@rule("C12.suspend", "C12", "a generator runs only when the next value is asked for: it suspends at start, after every value and at its end")
def r_suspend(ctx):
    suspends(ctx, PR + "::initial_suspend", True, "the body must not run before the first value is asked for")
    suspends(ctx, PR + "::final_suspend", True, "a finished generator keeps its frame until its owner frees it")
    suspends(ctx, PR + "::yield_value", True, "the generator stops after each value")


@rule("C12.value", "C12", "the iterator refers to exactly the value most recently yielded")
def r_value(ctx):
    for f in ctx.fns(PR + "::yield_value", least=2):
        p = ("arg", f["pn"][0])

        def final(seq, ev):
            if ev.q == "ret" and ev.mem.get(this(VAL)) != p:
                yield "the yielded value is not the one the consumer will see"
        ctx.paths(f, lambda ev, seq: None, final, "publishes the yielded value")

    def got(ev, seq):
        if ev.k == "load" and F(ev) == VAL:
            return ("value", ev.a[0], ev.r)
        if ev.k == "store" and F(ev) == VAL or ev.k in ("resume", "destroy"):
            return ("bad",)
        if ev.k == "load" and F(ev) == IC:
            return ("mine", ev.r)

    def final(seq, ev):
        if ev.q != "ret":
            return
        v = [x for x in seq if x[0] == "value"]
        if count(seq, "bad"):
            yield "reading the value changes the generator"
        if not v or ev.r != v[-1][2]:
            yield "something other than the value most recently yielded is given"
        mine = [x[1] for x in seq if x[0] == "mine"]
        if mine and v and not of(v[-1][1], mine):
            yield "the value of another generator is given"
    for q in (PR + "::value", IT + "::operator*", IT + "::operator->"):
        for f in ctx.fns(q):
            ctx.paths(f, got, final, "gives the value most recently yielded")


@rule("C12.exception", "C12", "an exception that ends the body is kept and thrown to whoever asked for the next value")
def r_exception(ctx):
    store_exception_rule(ctx, PR + "::unhandled_exception", is_store, "the exception is kept")
    result_rule(ctx, PR + "::rethrow_if_exception", is_store, "a kept exception is thrown, nothing otherwise", False)


@rule("C12.advance", "C12", "asking for the next value resumes the body exactly once, and an exception that ended it reaches the caller")
def r_advance(ctx):
    for q, mem, it in ((IT + "::operator++", IC, True), (G + "::begin", MC, False)):
        for f in ctx.fns(q):
            def cl(ev, seq):
                if ev.k == "resume":
                    return ("resume", ev.a[0])
                if ev.k == "done":
                    return ("done", ev.a[0], ev.r)
                if ev.k == "destroy":
                    return ("bad",)
                if ev.k == "store" and F(ev) == mem and root_of(loc_of(ev.a[0])) == ("arg", "this"):
                    return ("bad",)
                if ev.k == "load" and F(ev) == mem:
                    return ("mine", ev.r)
                if ev.k == "br" and ev.x and ev.x[0][0] == "eq" and ev.x[0][2] == ZERO and ev.x[0][1][0] == "ld" and contains(ev.x[0][1], this(mem)):
                    return ("null", ev.x[1])
                return exc_letter(ev, is_store)

            def final(seq, ev):
                n = names(seq)
                null = [x[1] for x in seq if x[0] == "null"]
                null = null[-1] if null else None
                mine = [x[1] for x in seq if x[0] == "mine"]
                re = [k for k, x in enumerate(seq) if x[0] == "resume"]
                if "bad" in n:
                    yield "the generator's coroutine is destroyed or replaced"
                if not re:
                    fin = [x for x in seq if x[0] == "done"]
                    if null is True:
                        if not it and ev.q == "ret" and ev.r is not None and ev.r not in mine and nulls(ctx, ev, ev.r) is not True:
                            yield "the iterator does not belong to this generator"
                        return
                    if fin and nulls(ctx, ev, fin[-1][2]) is False:
                        return    # a finished generator has nothing to run
                    yield "the next value is not asked for"
                    return
                if len(re) != 1:
                    yield "the body is resumed more than once"
                    return
                if not it and null is not False:
                    yield "resumes a generator that may have no coroutine"
                if seq[re[0]][1] not in mine:
                    yield "a coroutine other than the generator's is resumed"
                d = [x for x in seq[re[0] + 1:] if x[0] == "done"]
                e = [x for x in seq[re[0] + 1:] if x[0] == "exc?"]
                fin = nulls(ctx, ev, d[-1][2]) if d else None
                if ev.q == "ret":
                    has = None
                    if e:
                        t = nulls(ctx, ev, e[-1][1])
                        has = None if t is None else (not t) if e[-1][2] else t
                    if has is True:
                        yield "an exception that ended the body is lost"
                    elif not e and fin is not True:
                        # fin: done() == 0
                        yield "never looks whether the body ended with an exception"
                    if not it and ev.r is not None and ev.r not in mine:
                        yield "the iterator does not belong to this generator"
                    if it and ev.r is not None and ev.r != ("arg", "this"):
                        yield "something other than the iterator is given"
                elif ev.q == "unwind":
                    if not count(seq, "rethrow"):
                        yield "throws something other than the exception of the body"
            ctx.paths(f, cl, final, "resumes once, exception reaches the caller", cap=6)


@rule("C12.end", "C12", "an iterator equals the end exactly when there is no coroutine or the body has ended")
def r_end(ctx):
    n = 0
    for q, neg in (("coro::detail::operator==", False), ("coro::detail::operator!=", True),
                   (IT + "::operator==", False), (IT + "::operator!=", True)):
        for f in ctx.P.byq.get(q, []):
            if "generator_iterator" not in (f.get("dem") or ""):
                continue
            n += 1

            def cl(ev, seq):
                if ev.k == "done":
                    return ("done", ev.a[0], ev.r)
                if ev.k in ("resume", "destroy"):
                    return ("bad",)
                if ev.k == "load" and F(ev) == IC:
                    return ("mine", ev.r)
                if ev.k == "br" and ev.x and ev.x[0][0] == "eq" and ev.x[0][2] == ZERO and ev.x[0][1][0] == "ld" and F(ev.x[0][1][1]) == IC:
                    return ("null", ev.x[1])

            def final(seq, ev):
                if ev.q != "ret":
                    return
                if count(seq, "bad"):
                    yield "comparing changes the generator"
                null = [x[1] for x in seq if x[0] == "null"]
                null = null[-1] if null else None
                d = [x for x in seq if x[0] == "done"]
                if d and null is not False:
                    yield "asks a missing coroutine whether it has ended"
                r = truth(ctx.E, ev.r, ev.facts)
                if null is True:
                    if r is not (not neg):
                        yield "an iterator without a coroutine is not the end"
                elif not d:
                    yield "never looks whether the body has ended"
                else:
                    want = truth(ctx.E, d[-1][2], ev.facts)
                    v = d[-1][2]
                    same = (ev.r in (("op", "not", v), ctx.E.icmp("eq", v, ZERO))) if neg else ev.r == v
                    if not same and (want is None or r is None or r != (want != neg)):
                        yield "an iterator is the end exactly when the body has ended"
            ctx.paths(f, cl, final, "end iff finished")
    if n < 2:
        raise AnalysisError("generator end comparison not found")


@rule("C12.frame", "C12 C24", "a generator frees its frame exactly once, moving transfers it")
def r_frame(ctx):
    check_owner(ctx, Owner(G, (MC,), destroys, ZERO, "coroutine frame"), least=3)
    no_copy(ctx, G, "a coroutine frame has one owner")
    for f in ctx.fns(PR + "::get_return_object"):
        def final(seq, ev):
            if ev.q == "ret" and ev.r is not None and ev.r != ("op", "frameof", ("arg", "this")):
                yield "the generator does not own the new frame"
        ctx.paths(f, lambda ev, seq: None, final, "owns the new frame")
    for c, m in ((G, MC), (IT, IC)):
        for f in ctx.fns(c + "::$ctor", lambda f: f.get("sm") not in ("movector", "copyctor") and f.get("pn")):
            p = ("arg", f["pn"][0])

            def final2(seq, ev):
                if ev.mem.get(this(m)) != p:
                    yield "the coroutine is not taken over"
            ctx.paths(f, lambda ev, seq: None, final2, "takes over the coroutine")

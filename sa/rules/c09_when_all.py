"""C09: when_all."""
from .base import *
from .comp import *

D = "coro::detail::"
L, A, P, T = D + "when_all_latch", D + "when_all_ready_awaitable", D + "when_all_task_promise", D + "when_all_task"
CNT, HND = L + "::m_count", L + "::m_awaiting_coroutine"
PL, PV, PE = P + "::m_latch", P + "::m_return_value", P + "::m_exception_ptr"
TM = T + "::m_coroutine"
AL, AT = A + "::m_latch", A + "::m_tasks"
NOTE = P + "::final_suspend::completion_notifier"


def started(ev):
    """element whose wrapper is resumed: the task object holding the handle"""
    if ev.k == "resume":
        h = ev.a[0]
        while h[0] == "op" and h[1] in ("frameof", "promiseof"):
            h = h[2]
        o, m = handle_of(h)
        return o if m == TM else h
    return None


@rule("C09.latch", "C09 C24", "the latch counts the tasks and the awaiter: whoever takes the last count continues the awaiter, exactly once")
def r_latch(ctx):
    ctx.need_field(L, "m_count")
    for f in ctx.fns(L + "::$ctor"):
        if f.get("sm") in ("movector", "copyctor"):
            o = (f.get("pn") or ["p0"])[0]

            def cl(ev, seq):
                if ev.k == "atomic" and ev.q == "load" and ev.a[0] == arg(o, CNT):
                    return ("count", ev.r)
                if ev.k == "atomic" and ev.q in ("init", "store") and ev.a[0] == this(CNT):
                    return ("init", ev.a[1])

            def final(seq, ev):
                c = [x[1] for x in seq if x[0] == "count"]
                i = [x[1] for x in seq if x[0] == "init"]
                if not i or i[-1] not in c:
                    yield "moving a latch does not carry its count"
            ctx.paths(f, cl, final, "moving carries the count")
            continue
        p = ("arg", f["pn"][0])

        def final(seq, ev):
            i = [x[1] for x in seq]
            if len(i) != 1 or evalc(i[0], {p: 5}) != 6 or evalc(i[0], {p: 0}) != 1:
                yield "the count does not start at the number of tasks plus one for the awaiter"
        ctx.paths(f, lambda ev, seq: ("init", ev.a[1]) if ev.k == "atomic" and F(ev) == CNT and ev.q in ("init", "store") else None, final, "counts the tasks and the awaiter")

    def cl(ev, seq):
        if ev.k == "atomic" and F(ev) == CNT:
            if ev.q == "load":
                return None
            if ev.q in ("sub", "add"):
                n = ev.a[1]
                ok = n == ONE and ev.q == "sub" or ev.q == "add" and n in (("c", -1), ("c", (1 << 64) - 1))
                return ("dec", ev.r, ok, ev.x)
            return ("dec", ev.r, False, "relaxed")
        if ev.k == "resume":
            return ("resume", ev.a[0])
        if ev.k == "store" and F(ev) == HND:
            return ("hnd", ev.a[1])
        if ev.k in ("load", "store", "atomic") and ev.a and ev.a[0][0] == "addr" and ev.a[0][1] == ("arg", "this"):
            return ("touch",)
    for f in ctx.fns(L + "::try_await"):
        p = ("arg", f["pn"][0])

        def final(seq, ev):
            n = names(seq)
            d = [x for x in seq if x[0] == "dec"]
            h = [x[1] for x in seq if x[0] == "hnd"]
            if len(d) != 1 or not d[0][2]:
                yield "the awaiter does not give back its own count exactly once"
                return
            if not h or h[-1] != p or n.index("dec") < len(n) - 1 - n[::-1].index("hnd"):
                yield "the awaiter's handle is not stored before its count is given back"
            if d[0][3] not in ("acq_rel", "seq_cst"):
                yield "the awaiter's count is given back without publishing its handle"
            if "touch" in n[n.index("dec"):]:
                yield "the latch is touched after the awaiter may already have been continued"
            for c in (1, 2, 3, 7):
                env = {d[0][1]: c}
                if possible(ev.facts, env):
                    r = evalc(ev.r, env)
                    if "resume" in n:
                        yield "the awaiter is resumed while it is suspending"
                    elif r is None or bool(r) != (c > 1):
                        yield "with %d task(s) still running the awaiter %s" % (c - 1, "goes on" if c > 1 else "goes to sleep")
        ctx.paths(f, cl, final, "suspends iff tasks are still running")
    for f in ctx.fns(L + "::notify_awaitable_completed"):
        def final(seq, ev):
            n = names(seq)
            d = [x for x in seq if x[0] == "dec"]
            if len(d) != 1 or not d[0][2]:
                yield "a finished task is not counted exactly once"
                return
            if d[0][3] not in ("acq_rel", "seq_cst"):
                yield "a finished task is counted without publishing its result"
            for c in (1, 2, 3, 7):
                if possible(ev.facts, {d[0][1]: c}):
                    if n.count("resume") != (1 if c == 1 else 0):
                        yield "the awaiter is %s with %d count(s) left" % ("resumed" if "resume" in n else "not resumed", c - 1)
                    if c > 1 and "touch" in n[n.index("dec"):]:
                        yield "the latch is touched after the last task may have continued the awaiter"
            r = [x[1] for x in seq if x[0] == "resume"]
            for x in r:
                o, m = handle_of(x)
                if (o, m) != (("arg", "this"), HND):
                    yield "something other than the awaiter is resumed"
        ctx.paths(f, cl, final, "the last one continues the awaiter")


@rule("C09.start", "C09 C24", "awaiting starts every task once, with the latch in place, before giving up the awaiter's own count; the latch counts all tasks")
def r_start(ctx):
    # the latch is made for exactly the tasks held
    n = 0
    for f in ctx.fns(A + "::$ctor"):
        if f.get("sm") in ("movector", "copyctor") or "tuple<>" in f["dem"]:
            continue
        n += 1
        dem = f["dem"]
        tup = targs(dem, A)[0].startswith("std::tuple<") if targs(dem, A) else False
        k = len(targs(targs(dem, A)[0], "std::tuple")) if tup else None

        def cl(ev, seq):
            if ev.k == "atomic" and F(ev) == CNT and ev.q == "init":
                return ("init", ev.a[1])
            if ev.k == "call" and ev.q in ("std::size", "std::ssize", "std::ranges::size") or ev.k == "call" and short(ev.q) == "size":
                return ("size", ev.r, ev.a[0] if ev.a else ANY)
            if ev.k == "call" and short(ev.q) == "$ctor" and ev.a and ev.a[0] == this(AT):
                return ("take", ev.a[1:])
            if ev.k == "copy" and ev.a[0] == this(AT):
                return ("take", ev.a[1:])

        def final(seq, ev):
            if ev.q != "ret":
                return
            i = [x[1] for x in seq if x[0] == "init"]
            if len(i) != 1:
                yield "the latch is not made exactly once"
                return
            if k is not None:
                if evalc(i[0], {}) != k + 1:
                    yield "the latch does not count all %d tasks" % k
                return
            s = [x for x in seq if x[0] == "size"]
            if not s or evalc(i[0], {s[-1][1]: 5}) != 6:
                yield "the latch does not count the tasks held"
            elif "take" in names(seq) and names(seq).index("take") < names(seq).index("size") and s[-1][2] != this(AT):
                yield "the tasks are counted after they were moved away"
        ctx.paths(f, cl, final, "the latch counts the tasks held")
    if n < 4:
        raise AnalysisError("when_all awaitable constructors not found")

    for f in ctx.fns(A + "::try_await", least=3):
        dem = f["dem"]
        tup = targs(dem, A)[0].startswith("std::tuple<")
        k = len(targs(targs(dem, A)[0], "std::tuple")) if tup else None
        ctx.ob("%s: every task is started once, then the latch is awaited" % dem)
        ctx.monitor(f, EachMon(ctx.E, started, lambda ev: ev.k == "atomic" and ev.q in ("sub", "add") and F(ev) == CNT and ev.a[0] == this(AL, CNT),
                               "starting the tasks", n=k))

        def cl(ev, seq):
            if ev.k == "store" and F(ev) == PL:
                return ("latch", ev.a[0], ev.a[1])
            if ev.k == "resume":
                h = ev.a[0]
                l = [x for x in seq if x[0] == "latch"]
                pr = h[2] if h[0] == "op" and h[1] == "frameof" else ("op", "promiseof", h)
                if not l or l[-1][1] != addr(pr, (PL,)) or l[-1][2] != this(AL):
                    raise Violation("a task runs before it knows the latch to notify", ev)
                return ("$reset",)
            if ev.k == "atomic" and F(ev) == CNT and ev.q in ("sub", "add"):
                return ("dec", ev.r)
            if ev.k == "call" and short(ev.q) in ("begin", "cbegin") and ev.a and ev.a[0] != this(AT):
                raise Violation("something other than the tasks is iterated over", ev)

        def final(seq, ev):
            if ev.q != "ret":
                return
            d = [x[1] for x in seq if x[0] == "dec"]
            if len(d) != 1:
                yield "the latch is not awaited exactly once"
                return
            for c in (1, 2, 3):
                if possible(ev.facts, {d[0]: c}) and evalc(ev.r, {d[0]: c}) != int(c > 1):
                    yield "whether to suspend is not what the latch says"
        ctx.paths(f, cl, final, "the latch decides whether to suspend")
    for q in (A + "::operator co_await::awaiter::await_suspend",):
        for f in ctx.fns(q):
            p = ("arg", f["pn"][0])

            def cl(ev, seq):
                if ev.k == "atomic" and F(ev) == CNT and ev.q in ("sub", "add"):
                    return ("dec", ev.r)
                if ev.k == "store" and F(ev) == HND:
                    return ("hnd", ev.a[1])

            def final(seq, ev):
                d = [x[1] for x in seq if x[0] == "dec"]
                h = [x[1] for x in seq if x[0] == "hnd"]
                if len(d) != 1 or h != [p]:
                    yield "the awaiting coroutine is not handed to the latch"
                    return
                for c in (1, 2, 3):
                    if possible(ev.facts, {d[0]: c}) and evalc(ev.r, {d[0]: c}) != int(c > 1):
                        yield "whether to suspend is not what the latch says"
            ctx.paths(f, cl, final, "suspension is decided by the latch")
    for f in ctx.fns(A + "::operator co_await::awaiter::await_ready"):
        def cl(ev, seq):
            if ev.k == "done":
                return ("done", ev.r)
            if ev.k == "atomic" and ev.q == "load" and F(ev) == CNT:
                return ("count", ev.r)

        def final(seq, ev):
            if ev.r == ZERO:
                return
            t = truth(ctx.E, ev.r, ev.facts)
            if t is False:
                return
            for x in seq:
                if x[0] == "done" and (ev.r == x[1] or truth(ctx.E, x[1], ev.facts)):
                    return
                if x[0] == "count" and eq_fact(ctx.E, ev.facts, x[1], ZERO):
                    return
            yield "an awaitable whose tasks may not have finished counts as ready"
        ctx.paths(f, cl, final, "ready only when finished")
    for f in ctx.fns(A + "::operator co_await::awaiter::await_resume"):
        def final(seq, ev):
            if ev.r is None or ev.r[0] not in ("addr",) or ev.r[2][-1:] != (AT,):
                yield "the awaiter does not get the tasks it waited for"
        ctx.paths(f, lambda ev, seq: None, final, "gives the finished tasks")


@rule("C09.finish", "C09 C24", "each task notifies the latch exactly once, when its result or exception is in place and its wrapper is suspended")
def r_finish(ctx):
    suspends(ctx, P + "::initial_suspend", True, "a wrapper must not run before it is started")
    for f in ctx.fns(NOTE + "::await_ready"):
        ctx.paths(f, lambda ev, seq: None, lambda seq, ev: () if ev.r == ZERO else ("the wrapper ends without notifying the latch",), "always notifies")
    for f in ctx.fns(NOTE + "::await_suspend"):
        def cl(ev, seq):
            if ev.k == "load" and F(ev) == PL:
                return ("latch", ev.r)
            if ev.k == "atomic" and F(ev) == CNT and ev.q in ("sub", "add"):
                return ("dec", ev.a[0])
            if count(seq, "dec") and ev.k in ("load", "store") and ev.a[0][0] == "addr" and contains(ev.a[0], ("arg", f["pn"][0])) and not contains(ev.a[0], CNT):
                r = root_of(ev.a[0])
                if r[0] == "op" and r[1] == "promiseof":
                    raise Violation("the wrapper is touched after the latch was notified (it may be gone)", ev)

        def final(seq, ev):
            d = [x[1] for x in seq if x[0] == "dec"]
            l = [x[1] for x in seq if x[0] == "latch"]
            if len(d) != 1 or not l or d[0] != addr(l[-1], (CNT,)):
                yield "the latch is not notified exactly once"
            if f.get("crt") == "bool" and ev.r != ONE:
                yield "the wrapper goes on after it notified the latch"
        ctx.paths(f, cl, final, "notifies the latch once")
    vals = [f for f in ctx.fns(P + "::yield_value")]
    for f in vals:
        p = ("arg", f["pn"][0])

        def final(seq, ev):
            if ev.q == "ret" and ev.mem.get(this(PV)) != p:
                yield "the result of the task is not kept"
        ctx.paths(f, lambda ev, seq: None, final, "keeps the result")
        if not (f.get("crt") or "").endswith("completion_notifier"):
            ctx.violate(f, f.get("loc"), "giving the result does not notify the latch")
    # the wrapper gives its value by suspending at the co_yield, so the value outlives it
    n = 0
    for f in ctx.fns(D + "make_when_all_task"):
        n += 1
        void = f["crt"].endswith("when_all_task<void>")

        def cl(ev, seq):
            if ev.k in ("enter", "call") and short(ev.q) in ("yield_value", "return_void", "unhandled_exception") and ev.q.startswith(P):
                return (short(ev.q),) + tuple(ev.a[1:2])
            if ev.k == "await":
                return ("await", ev.q)
            if ev.k == "suspend":
                return ("suspend",)
            if ev.k == "throw":
                return ("throw",)

        def final(seq, ev, void=void):
            nn = names(seq)
            if ev.q not in ("ret", "coroend"):
                return
            if "await" not in nn:
                yield "the task is not awaited"
            elif "unhandled_exception" in nn:
                pass
            elif not void and "yield_value" not in nn:
                yield "the task's result is not given to the latch"
        ctx.paths(f, cl, final, "gives the result of the task it awaits")
    if n < 2:
        raise AnalysisError("make_when_all_task instances not found")


def is_exc_member(a):
    return isinstance(a, tuple) and a[0] == "addr" and a[2] and a[2][-1] == PE


@rule("C09.result", "C09", "reading an entry gives its task's value or rethrows its exception")
def r_result(ctx):
    result_rule(ctx, P + "::result", is_exc_member, "value or stored exception", False)
    store_exception_rule(ctx, P + "::unhandled_exception", is_exc_member, "the exception is kept")
    for f in ctx.fns(P + "::result"):
        if "<void>" in f["dem"]:
            continue

        def cl(ev, seq):
            if ev.k == "load" and F(ev) == PV:
                return ("val", ev.r)

        def final(seq, ev):
            if ev.q == "ret" and ev.r not in [x[1] for x in seq]:
                yield "something other than the task's value is given"
        ctx.paths(f, cl, final, "gives the stored value")
    for f in ctx.fns(T + "::return_value"):
        def cl(ev, seq):
            if ev.k in ("enter", "call") and ev.q == P + "::result":
                return ("result", ev.a[0])
            if ev.k == "load" and ev.a[0] == this(TM):
                return ("mine", ev.r)
            if ev.k == "load" and F(ev) == PV:
                return ("val", ev.r)

        def final(seq, ev):
            r = [x[1] for x in seq if x[0] == "result"]
            m = [x[1] for x in seq if x[0] == "mine"]
            if not r or any(x not in [("op", "promiseof", y) for y in m] for x in r):
                yield "the entry does not give its own task's result"
            elif ev.q == "ret" and "when_all_task<void>" not in f["dem"] and ev.r not in [x[1] for x in seq if x[0] == "val"]:
                yield "the entry gives something other than its task's value"
        ctx.paths(f, cl, final, "gives its own task's result")


@rule("C09.order", "C09", "when_all wraps every awaitable it is given once, in the order given")
def r_order(ctx):
    vec = [f for f in ctx.fns("coro::when_all") if "std::vector" in f["crt"]]
    tup = [f for f in ctx.fns("coro::when_all") if "std::vector" not in f["crt"]]
    if not vec or not tup:
        raise AnalysisError("when_all instances not found")

    def made(ev):
        return ev.a[1] if ev.k == "corocall" and ev.q == D + "make_when_all_task" and len(ev.a) > 1 else None
    for f in vec:
        def appended(ev):
            if ev.k == "call" and ev.q in ("std::vector::emplace_back", "std::vector::push_back"):
                return ev.a[1] if len(ev.a) > 1 else ANY
            return None
        ctx.ob("%s: every awaitable is wrapped once" % f["dem"])
        fin = lambda ev: ev.k == "atomic" and ev.q == "init" and F(ev) == CNT
        ctx.monitor(f, EachMon(ctx.E, made, fin, "wrapping the awaitables"))
        ctx.monitor(f, EachMon(ctx.E, appended, fin, "collecting the wrapped awaitables"))

        def cl(ev, seq):
            if ev.k == "call" and ev.q.startswith("std::vector::") and short(ev.q) in ("insert", "emplace", "pop_back", "erase", "clear", "resize", "swap"):
                return ("bad", short(ev.q))
            if ev.k == "call" and short(ev.q) in ("rbegin", "reverse", "sort", "crbegin"):
                return ("bad", short(ev.q))

        def final(seq, ev):
            if ev.q == "ret" and seq:
                yield "the order or number of results is changed (%s)" % seq[0][1]
        ctx.paths(f, cl, final, "order kept")
    for f in tup:
        n = len(f["pn"])
        k = len(f["pt"])

        def cl(ev, seq):
            e = made(ev)
            if e is not None:
                return ("made%d" % len(seq), root_of(loc_of(e)) if e[0] == "addr" else e, ev.a[0])
            if ev.k == "call" and short(ev.q) == "make_tuple":
                return ("tuple",) + tuple(ev.a)
        ctx.paths(f, cl, lambda seq, ev, k=k: () if ev.q != "ret" or sum(1 for x in seq if x[0].startswith("made")) == k else
                  ("not every awaitable is wrapped exactly once",), "every awaitable is wrapped once")


@rule("C09.frame", "C09 C24", "an entry frees the frame of its wrapper exactly once; moving transfers it, copying is impossible")
def r_frame(ctx):
    check_owner(ctx, Owner(T, (TM,), destroys, ZERO, "wrapper frame"), least=4)
    for c in (T, A, L):
        no_copy(ctx, c, "it is shared with running tasks")

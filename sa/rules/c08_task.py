"""C08: task."""
from .base import *
from .comp import *

T = "coro::task"
PB, PR = "coro::detail::promise_base", "coro::detail::promise"
MC, CONT = T + "::m_coroutine", PB + "::m_continuation"
AB = T + "::awaitable_base"
AC = AB + "::m_coroutine"


def is_store(a):
    return isinstance(a, tuple) and a[0] == "addr" and a[2] and a[2][-1] in (PR + "::m_storage", PR + "::m_exception_ptr")


@rule("C08.frame", "C08 C24", "a task frees the coroutine frame it owns exactly once, moving transfers it, copying is impossible")
def r_frame(ctx):
    check_owner(ctx, Owner(T, (MC,), destroys, ZERO, "coroutine frame"), least=3)
    no_copy(ctx, T, "a coroutine frame has one owner")
    for f in ctx.fns(T + "::destroy"):
        def cl(ev, seq):
            if ev.k == "destroy":
                return ("destroy", ev.a[0])
            if ev.k == "load" and ev.a[0] == this(MC) and not count(seq, "own"):
                return ("own", ev.r)
            if ev.k == "store" and ev.a[0] == this(MC):
                return ("set", ev.a[1])

        def final(seq, ev):
            if ev.q != "ret":
                return
            d = [x[1] for x in seq if x[0] == "destroy"]
            s = [x[1] for x in seq if x[0] == "set"]
            if d:
                if len(d) > 1:
                    yield "the frame is destroyed twice"
                if not s or nulls(ctx, ev, s[-1]) is not True:
                    yield "the task still refers to the frame it destroyed"
                if ev.r != ONE:
                    yield "a destroyed frame is not reported"
            else:
                n = [b for p, b in ev.facts.items() if p == ("eq", ev.mem.get(this(MC)), ZERO)] or \
                    [b for p, b in ev.facts.items() if p[0] == "eq" and p[2] == ZERO and p[1][0] == "ld" and p[1][1] == this(MC)]
                if not n or n[-1] is not True:
                    yield "the frame of a task that has one is not destroyed"
                if ev.r != ZERO:
                    yield "reports a frame as destroyed that was not"
        ctx.paths(f, cl, final, "destroys its frame once and forgets it")


@rule("C08.lazy", "C08", "a task's coroutine always suspends before its body runs, and is resumed only while it has not finished")
def r_lazy(ctx):
    suspends(ctx, PB + "::initial_suspend", True, "the body must not run before the task is awaited or resumed")
    suspends(ctx, PB + "::final_suspend", True, "a finished task keeps its frame until its owner frees it")
    for f in ctx.fns(T + "::resume"):
        def cl(ev, seq):
            if ev.k == "resume":
                return ("resume", ev.a[0])
            if ev.k == "done":
                return ("done", ev.r)

        def final(seq, ev):
            if ev.q != "ret":
                return
            n = names(seq)
            if n.count("resume") > 1:
                yield "the coroutine is resumed more than once"
            first = [x[1] for x in seq if x[0] == "done"]
            if not first:
                yield "never looks whether the coroutine has finished"
                return
            t = nulls(ctx, ev, first[0])
            if n.count("resume") and (n[0] != "done" or t is not True):
                yield "resumes a coroutine that may have finished"
            if not n.count("resume") and t is not False:
                yield "a coroutine that has not finished is not resumed"
            want = truth(ctx.E, ("op", "not", first[-1]), ev.facts)
            got = truth(ctx.E, ev.r, ev.facts)
            if ev.r not in (("op", "not", first[-1]), ctx.E.icmp("eq", first[-1], ZERO)) and (got is None or got != want):
                yield "does not tell whether the coroutine can be resumed again"
        ctx.paths(f, cl, final, "resumes at most once, only an unfinished coroutine")
    for q, extra in ((AB + "::await_ready", AC), (T + "::is_ready", MC)):
        for f in ctx.fns(q):
            def cl(ev, seq):
                if ev.k == "done":
                    return ("done", ev.a[0], ev.r)
                if ev.k in ("resume", "destroy"):
                    return ("bad",)
                if ev.k == "br" and ev.x and ev.x[0][0] == "eq" and ev.x[0][2] == ZERO and contains(ev.x[0][1], this(extra)) and ev.x[0][1][0] == "ld":
                    return ("null", ev.x[1])

            def final(seq, ev):
                if ev.q != "ret":
                    return
                null = [x[1] for x in seq if x[0] == "null"]
                null = null[-1] if null else None
                d = [x[2] for x in seq if x[0] == "done"]
                if count(seq, "bad"):
                    yield "asking whether the task is ready changes it"
                if null is not False and d:
                    yield "asks a task without a coroutine whether it has finished"
                r = truth(ctx.E, ev.r, ev.facts)
                dt = truth(ctx.E, d[-1], ev.facts) if d else None
                if null is True:
                    ok = r is True
                elif d:
                    ok = ev.r == d[-1] or r is not None and r == dt
                else:
                    ok = False
                if not ok:
                    yield "a task counts as ready exactly when it has no coroutine or its coroutine has finished"
            ctx.paths(f, cl, final, "ready iff empty or finished")


@rule("C08.continue", "C08 C24", "awaiting records who awaits before the task runs; the finished task continues exactly its awaiter")
def r_continue(ctx):
    for f in ctx.fns(AB + "::await_suspend"):
        p = ("arg", f["pn"][0])

        def cl(ev, seq):
            if ev.k == "store" and F(ev) == CONT:
                return ("cont", ev.a[0], ev.a[1])
            if ev.k == "resume":
                return ("resume", ev.a[0])
            if ev.k in ("load",) and ev.a[0] == this(AC):
                return ("mine", ev.r)

        def final(seq, ev):
            if ev.q != "ret":
                return
            mine = [x[1] for x in seq if x[0] == "mine"]
            c = [x for x in seq if x[0] == "cont"]
            if len(c) != 1 or c[0][2] != p or not any(contains(c[0][1], ("op", "promiseof", m)) for m in mine):
                yield "the awaiting coroutine is not recorded as the task's continuation"
                return
            re = [x[1] for x in seq if x[0] == "resume"]
            if re:
                if names(seq).index("resume") < names(seq).index("cont"):
                    yield "the task runs before its continuation is recorded"
                if len(re) != 1 or re[0] not in mine:
                    yield "the awaited task is not started exactly once"
            elif ev.r not in mine:
                yield "the awaited task is not started"
        ctx.paths(f, cl, final, "continuation recorded, then the task starts")
    for f in ctx.fns(PB + "::final_awaitable::await_suspend"):
        p = ("arg", f["pn"][0])

        def cl(ev, seq):
            if ev.k == "load" and F(ev) == CONT:
                return ("cont", ev.r)
            if ev.k == "store" and F(ev) == CONT:
                return ("set",)
            if ev.k == "resume":
                return ("resume", ev.a[0])
            if ev.k == "destroy":
                return ("destroy",)
            if ev.k == "call" and ev.q == "std::noop_coroutine":
                return ("noop", ev.r)

        def final(seq, ev):
            if ev.q != "ret":
                return
            c = [x[1] for x in seq if x[0] == "cont"]
            re = [x[1] for x in seq if x[0] == "resume"]
            if count(seq, "destroy"):
                yield "the frame is destroyed while its owner still refers to it"
            if not c:
                yield "never looks who awaits the finished task"
                return
            nl = nulls(ctx, ev, c[-1])
            if nl is None and ev.r in c:
                yield "continues without having looked whether anybody awaits the task"
            elif nl is True:
                if re or ev.r is not None and ev.r not in [x[1] for x in seq if x[0] == "noop"]:
                    yield "a task nobody awaits continues somewhere"
            elif nl is False:
                if re and re not in [[x] for x in c]:
                    yield "the awaiter is not continued exactly once"
                elif not re and ev.r not in c:
                    yield "the awaiter of the finished task is not continued"
        ctx.paths(f, cl, final, "continues its awaiter iff there is one")
    for f in ctx.fns(PB + "::continuation"):
        p = ("arg", f["pn"][0])

        def final(seq, ev):
            if ev.mem.get(this(CONT)) != p:
                yield "the continuation is not recorded"
        ctx.paths(f, lambda ev, seq: None, final, "records the continuation")


@rule("C08.result", "C08", "the awaiter gets the value the body returned or the exception that ended it, never neither")
def r_result(ctx):
    def void(f):
        return "promise<void>" in (f.get("dem") or "")
    for nm, hv in ((PR + "::result", None),):
        vs = [f for f in ctx.fns(nm) if not void(f)]
        vo = [f for f in ctx.fns(nm) if void(f)]
        if not vs or not vo:
            raise AnalysisError("promise::result instances missing")
        sub = {nm: None}
        for group, has in ((vs, True), (vo, False)):
            saved = ctx.P.byq[nm]
            ctx.P.byq[nm] = group
            try:
                result_rule(ctx, nm, is_store, "value, stored exception, or an error", has)
            finally:
                ctx.P.byq[nm] = saved
    store_exception_rule(ctx, PR + "::unhandled_exception", is_store, "the exception is kept")
    store_value_rule(ctx, PR + "::return_value", is_store, "the value is kept")
    n = 0
    for q in sorted(ctx.P.byq):
        if q.startswith(T + "::operator co_await") and q.endswith("::await_resume"):
            for f in ctx.fns(q):
                n += 1

                def cl(ev, seq):
                    if ev.k in ("enter", "call") and ev.q == PR + "::result":
                        return ("result", ev.a[0])
                    if ev.k == "leave" and ev.q == PR + "::result":
                        return ("value", ev.r)

                def final(seq, ev):
                    r = [x[1] for x in seq if x[0] == "result"]
                    if len(r) != 1 or not contains(r[0], ("op", "promiseof", ev.mem.get(this(AC), None))) and not (r[0][0] == "op" and r[0][1] == "promiseof"):
                        yield "the awaiter does not get the result of the awaited task"
                    elif ev.q == "ret" and f.get("crt") != "void" and "value" in names(seq):
                        v = [x[1] for x in seq if x[0] == "value"][-1]
                        if v is not None and ev.r is not None and ev.r != v:
                            yield "the awaiter gets something other than the task's result"
                ctx.paths(f, cl, final, "gives the task's result", opaque=DEFAULT_OPAQUE)
    if n < 2:
        raise AnalysisError("task awaiters not found")


@rule("C08.body", "C08 C13", "every coroutine type of the library ends each body path by keeping its result: a thrown exception reaches unhandled_exception and the coroutine still completes")
def r_body(ctx):
    n = 0
    for f in sorted(ctx.P.fns.values(), key=lambda f: f["m"]):
        if not f.get("coro") or not str((f.get("loc") or ("?",))[0]).startswith(("include/coro", "src/")):
            continue
        if f["q"] not in ("coro::detail::make_task_self_deleting", "coro::detail::make_when_all_task", "coro::detail::make_sync_wait_task"):
            continue
        n += 1

        def cl(ev, seq):
            if ev.k == "await":
                return ("await",)
            if ev.k == "throw":
                return ("throw",)
            if ev.k in ("enter", "call") and short(ev.q) in ("unhandled_exception", "return_value", "return_void", "yield_value"):
                return (short(ev.q),)

        def final(seq, ev):
            nn = names(seq)
            if "await" not in nn:
                if ev.q in ("ret", "coroend"):
                    yield "the wrapped task is never awaited"
                return
            if nn.count("await") != 1:
                yield "the wrapped task is awaited more than once"
            if "throw" in nn and "unhandled_exception" not in nn[nn.index("throw"):]:
                yield "an exception of the wrapped task is not kept"
        ctx.paths(f, cl, final, "awaits once, exceptions are kept")
    if n < 3:
        raise AnalysisError("wrapper coroutines not found")

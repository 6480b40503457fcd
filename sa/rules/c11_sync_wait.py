"""C11: sync_wait."""
from .base import *
from .comp import *

D = "coro::detail"
EV = D + "::sync_wait_event"
SET, MX = EV + "::m_set", EV + "::m_mutex"
PB, PR, TK = D + "::sync_wait_task_promise_base", D + "::sync_wait_task_promise", D + "::sync_wait_task"
MEV, MC = PB + "::m_event", TK + "::m_coroutine"
OPQ = set(DEFAULT_OPAQUE) | {EV + "::set", EV + "::wait", EV + "::reset"}


def is_store(a):
    return isinstance(a, tuple) and a[0] == "addr" and bool(a[2]) and a[2][-1] in (PR + "::m_storage", PR + "::m_exception")


def written(ev):
    """value written to the event's flag"""
    if ev.k == "atomic" and F(ev) == SET:
        if ev.q in ("store", "xchg", "init"):
            return ev.a[1]
        if ev.q == "cas" and ev.x[0]:
            return ev.a[2]
        if ev.q in ("or", "and", "add", "sub"):
            return ANY
    return None


@rule("C11.event", "C11", "the event releases its waiter exactly when it was set: the flag changes and is announced under the mutex, the waiter checks it under the mutex")
def r_event(ctx):
    for f in ctx.fns(EV + "::set"):
        def cl(ev, seq, held):
            h = this(MX) in held
            w = written(ev)
            if w is not None:
                return ("flag", w, h)
            if ev.k == "call" and ev.a and F(ev) == EV + "::m_cv" and short(ev.q) in ("notify_all", "notify_one"):
                return (short(ev.q), h)
            if ev.k == "unlock" and ev.a[0] == this(MX):
                return ("unlock",)
            if ev.k in ("load", "store", "atomic", "call", "lock") and ev.a and isinstance(ev.a[0], tuple) and root_of(loc_of(ev.a[0])) == ("arg", "this") and "unlock" in names(seq):
                return ("late",)

        def final(seq, ev):
            fl = [x for x in seq if x[0] == "flag"]
            no = [x for x in seq if x[0].startswith("notify")]
            if not fl or fl[-1][1] != ONE:
                yield "the event is not set"
                return
            if not no:
                yield "the waiting thread is not woken"
                return
            if not fl[-1][2] and not no[-1][1]:
                yield "neither the flag nor its announcement is covered by the mutex: the waiter can miss both"
            if not no[-1][1]:
                yield "the announcement is made without the mutex: the waiter can leave and destroy the event before it"
            if names(seq).index(fl[-1][0]) > max(k for k, x in enumerate(seq) if x[0].startswith("notify")) and not fl[-1][2]:
                yield "the event is announced before it is set"
            if count(seq, "late"):
                yield "touches the event after the waiter may have destroyed it"
        ctx.paths(f, cl, final, "sets and announces under the mutex")
    for f in ctx.fns(EV + "::wait"):
        def cl(ev, seq, held):
            h = this(MX) in held
            if ev.k == "atomic" and ev.q == "load" and F(ev) == SET:
                return ("look", ev.r, h)
            if written(ev) is not None:
                return ("write",)
            if ev.k == "cvwait":
                return ("sleep", h and bool(seq) and seq[-1][0] == "look" and seq[-1][2])
            if ev.k == "unlock" and ev.a[0] == this(MX):
                return ("unlock",)

        def final(seq, ev):
            if ev.q != "ret":
                return
            lk = [x for x in seq if x[0] == "look"]
            if count(seq, "write"):
                yield "waiting changes the event"
            if not lk or nulls(ctx, ev, lk[-1][1]) is not False:
                yield "returns although the event may not be set"
            if any(x[0] == "sleep" and not x[1] for x in seq):
                yield "sleeps without having looked at the event under the mutex it sleeps with"
        ctx.paths(f, cl, final, "returns only when set", cap=4)
    for f in ctx.fns(EV + "::wait"):
        n = 0
        for es in ctx.graph(f).edges:
            for evs, m in es:
                n += sum(1 for e in evs if e.k == "cvwait")
        if not n:
            ctx.violate(f, f.get("loc"), "never sleeps: the waiting thread is not blocked until the event is set")
    for f in ctx.fns(EV + "::$ctor", lambda f: f.get("sm") not in ("copyctor", "movector")):
        p = ("arg", f["pn"][0]) if f.get("pn") else None

        def cl(ev, seq):
            w = written(ev)
            if w is not None:
                return ("flag", w)

        def final(seq, ev):
            w = [x[1] for x in seq if x[0] == "flag"]
            if not w or p is not None and w[-1] != p or p is None and w[-1] != ZERO:
                yield "the event does not start in the requested state"
        ctx.paths(f, cl, final, "starts as requested")
    for f in ctx.fns(EV + "::reset"):
        def cl(ev, seq):
            w = written(ev)
            if w is not None:
                return ("flag", w)

        def final(seq, ev):
            w = [x[1] for x in seq if x[0] == "flag"]
            if not w or w[-1] != ZERO:
                yield "the event is not reset"
        ctx.paths(f, cl, final, "resets")


@rule("C11.start", "C11", "the wrapper task suspends at start, is started once with its event installed, and sets that event exactly once when it has ended")
def r_start(ctx):
    suspends(ctx, PB + "::initial_suspend", True, "the wrapper must not run before its event is installed")
    for f in ctx.fns(PR + "::start"):
        p = ("arg", f["pn"][0])

        def cl(ev, seq):
            if ev.k == "store" and F(ev) == MEV:
                return ("event", ev.a[1])
            if ev.k == "resume":
                return ("resume", ev.a[0])
            if ev.k in ("load", "store") and "resume" in names(seq) and root_of(loc_of(ev.a[0])) == ("arg", "this"):
                return ("late",)

        def final(seq, ev):
            n = names(seq)
            if n.count("resume") != 1:
                yield "the wrapper is not started exactly once"
                return
            if "event" not in n or n.index("event") > n.index("resume") or [x[1] for x in seq if x[0] == "event"][-1] != p:
                yield "the wrapper runs before the event it must set is installed"
            if [x[1] for x in seq if x[0] == "resume"][0] not in (("op", "frameof", ("arg", "this")),):
                yield "something other than the wrapper is started"
            if "late" in n:
                yield "touches the promise after the wrapper may have ended"
        ctx.paths(f, cl, final, "installs the event, then starts")
    A = PR + "::final_suspend"
    for f in ctx.fns(PR + "::final_suspend"):
        crt = (f.get("crt") or "").split("<")[0]
        c = [x for x in ctx.P.fns.values() if x["q"].endswith("::await_suspend") and x["q"].startswith(A + "::")]
        if crt == "std::suspend_never":
            ctx.violate(f, f.get("loc"), "the finished wrapper does not stay suspended: nobody sets the event and the result is freed")
        if not c:
            raise AnalysisError("completion notifier not found")
    suspends(ctx, A, True, "the finished wrapper stays suspended until its result was taken")
    for q in sorted(ctx.P.byq):
        if not (q.startswith(A + "::") and q.endswith("::await_suspend")):
            continue
        for f in ctx.fns(q):
            p = ("arg", f["pn"][0])

            def cl(ev, seq):
                if ev.k == "call" and ev.q == EV + "::set":
                    return ("set", ev.a[0])
                if ev.k == "load" and F(ev) == MEV and not count(seq, "set"):
                    return ("mine", ev.r, ev.a[0])
                if ev.k in ("resume", "destroy"):
                    return ("bad",)
                if count(seq, "set") and ev.k in ("load", "store", "atomic") and ev.a and not str(root_kind(loc_of(ev.a[0]))).startswith("local"):
                    if root_of(loc_of(ev.a[0])) not in (None, ANY) and "promiseof" in str(root_of(loc_of(ev.a[0]))):
                        return ("late",)

            def final(seq, ev):
                if ev.q != "ret":
                    return
                s = [x[1] for x in seq if x[0] == "set"]
                m = [x[1] for x in seq if x[0] == "mine" and contains(x[2], p)]
                if len(s) != 1:
                    yield "the waiting thread is not released exactly once"
                elif s[0] not in m:
                    yield "an event other than the one waited for is set"
                if count(seq, "bad"):
                    yield "the finished wrapper is resumed or destroyed while its result is needed"
                if count(seq, "late"):
                    yield "touches the promise after the waiting thread may have destroyed it"
                if f.get("crt") == "bool" and ev.r != ONE:
                    yield "the finished wrapper does not stay suspended"
            ctx.paths(f, cl, final, "sets its event once", opaque=OPQ)


@rule("C11.result", "C11", "the wrapper keeps the value or the exception of the awaited task and hands back exactly that")
def r_result(ctx):
    def void(f):
        return "promise<void>" in (f.get("dem") or "")
    nm = PR + "::result"
    vs = [f for f in ctx.fns(nm) if not void(f)]
    vo = [f for f in ctx.fns(nm) if void(f)]
    if not vs or not vo:
        raise AnalysisError("sync_wait_task_promise::result instances missing")
    for group, has in ((vs, True), (vo, False)):
        saved = ctx.P.byq[nm]
        ctx.P.byq[nm] = group
        try:
            result_rule(ctx, nm, is_store, "value, stored exception, or an error", has)
        finally:
            ctx.P.byq[nm] = saved
    store_exception_rule(ctx, PR + "::unhandled_exception", is_store, "the exception is kept")
    store_value_rule(ctx, PR + "::return_value", is_store, "the value is kept")


@rule("C11.wait", "C11", "sync_wait starts the wrapper once with a fresh event, blocks until that event is set, and only then takes the result")
def r_wait(ctx):
    opq = OPQ | {PR + "::start", PR + "::result", D + "::make_sync_wait_task"}
    for f in ctx.fns("coro::sync_wait"):
        def cl(ev, seq):
            if ev.k in ("call", "corocall"):
                n = ev.q
                if n == EV + "::wait":
                    return ("wait", ev.a[0])
                if n == EV + "::set":
                    return ("set", ev.a[0])
                if n == EV + "::reset":
                    return ("reset", ev.a[0])
                if n == PR + "::start":
                    return ("start", ev.a[0], ev.a[1])
                if n == PR + "::result":
                    return ("result", ev.a[0], ev.r)
                if n == D + "::make_sync_wait_task":
                    return ("make", ev.a[-1])
            w = written(ev)
            if w is not None and root_kind(loc_of(ev.a[0])) != "arg":
                return ("flag", w, loc_of(ev.a[0]))
            if ev.k == "throw":
                return ("throw",)

        def final(seq, ev):
            n = names(seq)
            if ev.q == "unwind" and "start" not in n:
                return
            if n.count("make") != 1:
                yield "the awaitable is not wrapped exactly once"
                return
            if n.count("start") != 1:
                yield "the wrapper is not started exactly once"
                return
            e = [x[2] for x in seq if x[0] == "start"][0]
            fl = [x[1] for x in seq[:n.index("start")] if x[0] == "flag" and contains(x[2], root_of(loc_of(e)))]
            if not fl or fl[-1] != ZERO or "set" in n[:n.index("start")]:
                yield "the event may be set before the wrapper starts"
            w = [k for k, x in enumerate(seq) if x[0] == "wait" and x[1] == e]
            if not w or w[0] < n.index("start"):
                yield "does not block until the event of the wrapper is set"
                return
            if "set" in n or "reset" in n:
                yield "interferes with the event of the wrapper"
            r = [k for k, x in enumerate(seq) if x[0] == "result"]
            if not r:
                yield "the result of the wrapper is not looked at: its exception is lost"
            elif min(r) < w[0]:
                yield "the result is taken before the wrapper has ended"
            elif ev.q == "ret" and f.get("crt") != "void" and ev.r is not None:
                v = seq[r[-1]][2]
                if v is not None and ev.r != v and f.get("crt", "").endswith("&"):
                    yield "something other than the wrapper's result is returned"
        ctx.paths(f, cl, final, "start, wait, result", opaque=opq, throws=lambda q, dem: q == PR + "::result")


@rule("C11.frame", "C11 C24", "the wrapper's frame is freed exactly once")
def r_frame(ctx):
    check_owner(ctx, Owner(TK, (MC,), destroys, ZERO, "coroutine frame"), least=1)
    no_copy(ctx, TK, "a coroutine frame has one owner")
    # the wrapper coroutine hands the frame it made to the task
    for f in ctx.fns(TK + "::$ctor", lambda f: f.get("sm") not in ("movector", "copyctor")):
        p = ("arg", f["pn"][0])

        def final(seq, ev):
            if ev.mem.get(this(MC)) != p:
                yield "the new frame is not taken over"
        ctx.paths(f, lambda ev, seq: None, final, "takes over the new frame")

"""C13: task_group."""
from .base import *
from .comp import *

TG = "coro::task_group"
SZ, EVT, EX = TG + "::m_size", TG + "::m_on_empty_event", TG + "::m_executor"
PSD = "coro::detail::promise_self_deleting"
OPQ = set(DEFAULT_OPAQUE) | {"coro::event::set", "coro::event::reset", "coro::thread_pool::resume", "coro::scheduler::resume", "coro::event::operator co_await",
                             "coro::event::$ctor", "coro::event::is_set"}


def on_size(ev):
    return ev.k == "atomic" and F(ev) == SZ


def executor_resume(ev):
    """the hand-over of a coroutine to the group's executor"""
    return ev.k == "call" and short(ev.q) == "resume" and len(ev.a) > 1 and ev.q.split("::")[-2] in ("thread_pool", "scheduler")


def group_letter(ev, seq):
    if on_size(ev):
        if ev.q == "add":
            return ("add", ev.a[1], ev.x)
        if ev.q == "sub":
            return ("sub", ev.a[1], ev.r, ev.x)
        if ev.q != "load":
            return ("write",)
    if ev.k == "call" and ev.a and F(ev) == EVT:
        if ev.q == "coro::event::reset":
            return ("reset",)
        if ev.q == "coro::event::set":
            return ("set",)
    return None


def counted_down(ctx, seq, ev):
    """messages about giving back one count and announcing the last one"""
    sub = [x for x in seq if x[0] == "sub"]
    if len(sub) != 1 or sub[0][1] != ONE:
        yield "the count is not taken down exactly once"
        return
    if sub[0][3] not in ("acq_rel", "seq_cst"):
        yield "the last task does not see what the others did: the count goes down without acquire and release"
    last = eq_fact(ctx.E, ev.facts, sub[0][2], ONE)
    n = count(seq, "set")
    if last is None and n == 0:
        yield "nobody announces that the group is empty"
    elif last is True and n != 1:
        yield "the group is empty but its event is not set"
    elif last is not True and n:
        yield "the event is set although tasks may remain"
    if n and names(seq).index("set") < names(seq).index("sub"):
        yield "the event is set before the count went down"


@rule("C13.start", "C13 C25 C24", "a task is counted, the event reset and its completion hooked before the executor gets it; a refusal un-counts, frees and is reported")
def r_start(ctx):
    for f in ctx.fns(TG + "::start"):
        def cl(ev, seq):
            l = group_letter(ev, seq)
            if l:
                return l
            if ev.k == "corocall":
                return ("make", ev.r, tuple(ev.a[1:]))
            if ev.k == "call" and short(ev.q) in ("operator=", "swap", "$ctor") and ev.a and F(ev) == PSD + "::m_user_final_suspend":
                return ("hook",)
            if executor_resume(ev):
                return ("kick", ev.a[0], ev.a[1], ev.r)
            if ev.k in ("resume",):
                return ("inline",)
            if ev.k == "destroy" and ev.a[0][0] == "op" and ev.a[0][1] == "frameof":
                return ("free", ev.a[0])
            if ev.k in ("load", "store") and "kick" in names(seq) and isinstance(ev.a[0], tuple) and F(ev).startswith(PSD):
                return ("late",)

        def final(seq, ev):
            n = names(seq)
            if ev.q == "unwind":
                return
            if ev.q != "ret":
                return
            if n.count("make") != 1:
                yield "the task is not wrapped exactly once"
                return
            if n.count("kick") != 1 or "inline" in n:
                yield "the task is not handed to the executor exactly once"
                return
            k = n.index("kick")
            kick = seq[k]
            if kick[2][0] != "op" or kick[2][1] != "frameof":
                yield "something other than the wrapped task is handed to the executor"
            add = [i for i, x in enumerate(seq) if x[0] == "add"]
            if len(add) != 1 or add[0] > k or seq[add[0]][1] != ONE or "write" in n:
                yield "the task is not counted exactly once before it can run"
            if "reset" not in n or n.index("reset") > k:
                yield "the event may still be set while the task runs"
            if "hook" not in n or n.index("hook") > k:
                yield "the task can end before its completion is hooked up: it is never un-counted"
            ok = nulls(ctx, ev, kick[3])
            r = truth(ctx.E, ev.r, ev.facts) if ev.r not in (ZERO, ONE) else ev.r == ONE
            if ev.r == kick[3]:
                r = None if ok is None else not ok
                if ok is None:
                    yield "a refused task is not un-counted"
                    return
            if ok is None:
                yield "nobody looks whether the executor took the task"
            elif ok is False:
                if r is not True:
                    yield "an accepted task is reported as refused"
                if "sub" in n or "set" in n:
                    yield "an accepted task is un-counted by the caller as well"
                if "free" in n:
                    yield "the frame of an accepted task is destroyed by the caller"
                if "late" in n:
                    yield "touches the task after the executor took it"
            else:
                if r is not False:
                    yield "a refused task is reported as accepted"
                for m in counted_down(ctx, seq, ev):
                    yield "refused task: " + m
                fr = [x for x in seq if x[0] == "free"]
                if len(fr) != 1 or fr[0][1] != kick[2]:
                    yield "the frame of a refused task is never freed"
        ctx.paths(f, cl, final, "counts, hooks, hands over once", opaque=OPQ)


@rule("C13.end", "C13 C24", "when a task has ended it is un-counted once, the last one sets the event, and the group is not touched after that")
def r_end(ctx):
    hooks = [f for f in ctx.P.fns.values() if f["q"].startswith(TG + "::") and "$lambda" in f["q"] and f["q"].endswith("::operator()")]
    if not hooks:
        raise AnalysisError("completion hook of task_group not found")
    good = 0
    for f in hooks:
        def cl(ev, seq):
            l = group_letter(ev, seq)
            if l:
                return l
            if ev.k in ("load", "store", "atomic") and "set" in names(seq) and isinstance(ev.a[0], tuple) and (F(ev) or "").startswith(TG + "::"):
                return ("late",)

        def final(seq, ev):
            if ev.q == "unwind":
                yield "the completion hook can throw"
                return
            yield from counted_down(ctx, seq, ev)
            if "late" in names(seq):
                yield "touches the group after its destructor may have finished"
        ctx.paths(f, cl, final, "un-counts once", opaque=OPQ)
    suspends(ctx, PSD + "::initial_suspend", True, "a detached task does not run before its completion is hooked up")
    suspends(ctx, PSD + "::final_suspend", False, "a detached task deletes itself when it ends")
    for f in ctx.fns(PSD + "::final_suspend"):
        def cl(ev, seq):
            if ev.k == "call" and ev.q == "std::function::operator()" and F(ev) == PSD + "::m_user_final_suspend":
                return ("call",)
            if ev.k == "call" and F(ev) == PSD + "::m_user_final_suspend" and ("$conv" in ev.q or ev.q.endswith("operator bool")):
                return ("has", ev.r)
            if ev.k == "call" and ev.q.split("::")[-1] in ("operator==", "operator!=") and any(isinstance(a, tuple) and a[0] == "addr" and last_field(a) == PSD + "::m_user_final_suspend" for a in ev.a):
                return ("has=" if ev.q.endswith("==") else "has", ev.r)

        def final(seq, ev):
            if ev.q != "ret":
                return
            has = [x for x in seq if x[0] in ("has", "has=")]
            h = None
            for x in has:
                t = nulls(ctx, ev, x[1])
                if t is not None:
                    h = t if x[0] == "has=" else not t
            c = count(seq, "call")
            if h is False and c:
                yield "an empty completion hook is called"
            elif h is not False and c != 1:
                yield "the completion hook is not called exactly once"
        ctx.paths(f, cl, final, "calls the completion hook once", cap=3)
    for f in ctx.fns(PSD + "::unhandled_exception"):
        def cl(ev, seq):
            if ev.k == "throw" or ev.k == "call" and ev.q in ("std::rethrow_exception", "std::terminate"):
                return ("throw",)

        def final(seq, ev):
            if ev.q == "unwind" or "throw" in names(seq):
                yield "an exception ends the detached task without its completion hook"
        ctx.paths(f, cl, final, "an exception is not thrown on")
    for f in ctx.fns(PSD + "::user_final_suspend"):
        p = f["pn"][0]

        def cl(ev, seq):
            if ev.k == "call" and F(ev) == PSD + "::m_user_final_suspend" and short(ev.q) in ("operator=", "swap"):
                return ("keep", root_of(loc_of(ev.a[1])) == ("arg", p) or contains(ev.a[1], ("arg", p)))

        def final(seq, ev):
            if not any(x[1] for x in seq):
                yield "the completion hook is dropped"
        ctx.paths(f, cl, final, "keeps the hook")
    for f in ctx.fns("coro::detail::task_self_deleting::handle"):
        def cl(ev, seq):
            return None

        def final(seq, ev):
            r = ev.r
            if r is not None and not contains(r, "coro::detail::task_self_deleting::m_promise") and r[0] != "op":
                yield "the handle is not that of the owned coroutine"
        ctx.paths(f, cl, final, "denotes the wrapped coroutine")


@rule("C13.dtor", "C13 C24", "the destructor returns only after the count was seen at zero and the event of the last task was seen set")
def r_dtor(ctx):
    for f in ctx.fns(TG + "::$dtor"):
        def cl(ev, seq):
            if on_size(ev) and ev.q == "load":
                return ("size", ev.r, ev.x)
            if ev.k == "call" and ev.q == "coro::event::is_set" and F(ev) == EVT:
                return ("is", ev.r)
            if on_size(ev) or ev.k == "call" and F(ev) == EVT and ev.q in ("coro::event::set", "coro::event::reset"):
                return ("write",)

        def final(seq, ev):
            if ev.q != "ret":
                return
            s = [x for x in seq if x[0] == "size"]
            i = [x for x in seq if x[0] == "is"]
            if count(seq, "write"):
                yield "the destructor changes the accounting"
            if not s or nulls(ctx, ev, s[-1][1]) is not True:
                yield "returns while tasks may still run"
            if not i or nulls(ctx, ev, i[-1][1]) is not False:
                yield "returns while the last task may still be about to set the event"
            if s and s[-1][2] not in ACQ:
                yield "what the tasks did is not visible after waiting: the count is read without acquire"
        ctx.paths(f, cl, final, "waits for every task", cap=3, opaque=OPQ)


@rule("C13.wait", "C13", "a new group is empty, has an executor and its event set; awaiting it awaits that event; size and empty tell the count")
def r_wait(ctx):
    for f in ctx.fns(TG + "::$ctor", lambda f: f.get("sm") not in ("copyctor", "movector")):
        def cl(ev, seq):
            if ev.k == "store" and F(ev) == EX:
                return ("exec", ev.a[1])
            if on_size(ev) and ev.q == "init":
                return ("size", ev.a[1])
            if ev.k == "call" and ev.q == "coro::event::$ctor" and F(ev) == EVT:
                return ("event", ev.a[1] if len(ev.a) > 1 else ZERO)

        def final(seq, ev):
            if ev.q != "ret":
                return
            e = [x[1] for x in seq if x[0] == "exec"]
            s = [x[1] for x in seq if x[0] == "size"]
            v = [x[1] for x in seq if x[0] == "event"]
            if not e or e[-1] != ANY and nulls(ctx, ev, e[-1]) is not False and e[-1] not in (("arg", "this"),):
                yield "a group without an executor can be made"
            if s and s[-1] != ZERO:
                yield "a new group has a count"
            if not v or v[-1] != ONE:
                yield "waiting for a group that never had a task never ends: its event does not start set"
        ctx.paths(f, cl, final, "starts empty", opaque=OPQ | {TG + "::start"}, cap=1)
    for f in ctx.fns(TG + "::operator co_await"):
        def cl(ev, seq):
            if ev.k == "call" and ev.q == "coro::event::operator co_await":
                return ("await", ev.a[0] if F(ev) == EVT or any(isinstance(a, tuple) and last_field(a) == EVT for a in ev.a if a[0] == "addr") else None)

        def final(seq, ev):
            if [x for x in seq if x[0] == "await" and x[1] is not None] == []:
                yield "awaiting the group does not await its event"
        ctx.paths(f, cl, final, "awaits the event", opaque=OPQ)
    for n, want in (("size", None), ("empty", 0)):
        for f in ctx.fns(TG + "::" + n):
            def cl(ev, seq):
                if on_size(ev) and ev.q == "load":
                    return ("load", ev.r)

            def final(seq, ev):
                l = [x[1] for x in seq if x[0] == "load"]
                if not l:
                    yield "does not read the count"
                elif want is None and ev.r != l[-1]:
                    yield "does not tell the count"
                elif want == 0:
                    t = truth(ctx.E, ev.r, ev.facts)
                    z = nulls(ctx, ev, l[-1])
                    if t is None and ev.r[0] != "op" or t is not None and t is not z:
                        yield "does not tell whether the count is zero"
                    elif t is None:
                        for c, w in ((0, 1), (1, 0), (2, 0)):
                            if evalc(ev.r, {l[-1]: c}) != w:
                                yield "does not tell whether the count is zero"
                                break
            ctx.paths(f, cl, final, "tells the count", opaque=OPQ)


@rule("C13.race", "C13", "taking the count to zero and setting the event is one step for whoever counts up and resets the event")
def r_race(ctx):
    """The two pairs (count up, reset) and (count down to zero, set) change two variables that must agree; without a lock around
    both, or a re-check of the count after the second variable was changed, they can interleave."""
    ctx.ob("task_group: count and event change together")

    def locked(f, a, b):
        bad = []

        def cl(ev, seq, held):
            l = group_letter(ev, seq)
            if l and l[0] in (a, b):
                return (l[0], frozenset(held))
            if on_size(ev) and ev.q == "load" and b in names(seq):
                return ("recheck",)

        def final(seq, ev):
            s = {x[0]: x for x in seq}
            if a in s and b in s and not (s[a][1] & s[b][1]) and "recheck" not in s:
                bad.append(ev)
            return ()
        ctx.paths(f, cl, final, "count and event change in one step", opaque=OPQ)
        return bad
    for f in [f for f in ctx.P.fns.values() if f["q"].startswith(TG + "::") and "$lambda" in f["q"] and f["q"].endswith("::operator()")]:
        if locked(f, "sub", "set"):
            ctx.violate(TG, f.get("loc"), "the event is set for a count that may have grown again since it was seen at zero")

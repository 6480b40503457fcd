"""C10: when_any."""
from .base import *
from .comp import *

D = "coro::detail::"
TASKS = (D + "make_when_any_tuple_task", D + "make_when_any_task", D + "make_when_any_task_return_void")
CTRL = (D + "make_when_any_tuple_controller_task", D + "make_when_any_controller_task", D + "make_when_any_controller_task_return_void")
OPQ = set(DEFAULT_OPAQUE) | {"coro::when_all"}


def params(f):
    """parameters by role: flag, notify, value"""
    r = {}
    for n, t in zip(f["pn"], f["pt"]):
        # unnamed parameters have no role
        if "atomic<bool>" in t:
            r["flag"] = ("arg", n)
        elif t.replace(" ", "") == "coro::event&":
            r["notify"] = ("arg", n)
        elif t.startswith("std::optional<") and t.rstrip().endswith("&"):
            r["value"] = ("arg", n)
        elif "stop_source" in t:
            r["stop"] = ("arg", n)
    return r


def claim(ev, flag):
    """('claim', won?, old value) when an atomic operation tries to become the first finisher"""
    if ev.k != "atomic" or loc_of(ev.a[0]) != loc_of(flag):
        return None
    if ev.q == "cas":
        return ("claim", bool(ev.x[0]), ev.a[1], ev.a[2])
    if ev.q == "xchg":
        return ("claim", None, ev.r, ev.a[1])
    if ev.q == "load":
        return ("peek", ev.r)
    if ev.q in ("store",):
        return ("bad", "the winner is not decided by one atomic step")
    return None


@rule("C10.winner", "C10 C24", "the first finisher is decided by one atomic step; only it stores its own result, completely, and then notifies once; nothing shared is touched afterwards")
def r_winner(ctx):
    n = 0
    for q in TASKS:
        for f in ctx.fns(q):
            n += 1
            pr = params(f)
            if "flag" not in pr or "notify" not in pr:
                ctx.violate(f, f.get("loc"), "the task does not share the flag and the event with the others")
                continue
            idx = targs(f["dem"], "make_when_any_tuple_task")

            def cl(ev, seq, pr=pr, f=f, idx=idx):
                if ev.k == "await":
                    return ("await",)
                if ev.k == "throw":
                    return ("throw",)
                c = claim(ev, pr["flag"])
                if c is not None:
                    return c
                if ev.k == "call" and "value" in pr and ev.a and loc_of(ev.a[0]) == loc_of(pr["value"]):
                    if ev.x == "set":
                        t = ev.dem
                        k = t.find("in_place_index_t<")
                        if idx and k >= 0 and t[k + 17:t.find(">", k)].rstrip("ul") != idx[0].rstrip("ul"):
                            raise Violation("the result is stored as the result of another task", ev)
                        return ("value",)
                    if count(seq, "notify"):
                        raise Violation("the result storage is touched after the awaiter was notified (it may be gone)", ev)
                    return ("value?",)
                if ev.k in ("enter", "call") and ev.q == "coro::event::set" and ev.a and loc_of(ev.a[0]) == loc_of(pr["notify"]):
                    return ("notify",)
                if ev.k == "leave" and ev.q == "coro::event::set":
                    return ("notified",)
                if count(seq, "notified") and ev.k in ("load", "store", "atomic", "enter", "call") and ev.a and \
                        any(isinstance(a, tuple) and a[0] in ("arg", "addr") and root_of(a) in (pr["notify"], pr.get("value")) for a in ev.a):
                    raise Violation("state of the awaiter is touched after it was notified (it may be gone)", ev)

            def final(seq, ev, pr=pr):
                if ev.q not in ("ret", "coroend"):
                    return
                nn = names(seq)
                for x in seq:
                    if x[0] == "bad":
                        yield x[1]
                if nn.count("await") != 1:
                    yield "the task is not awaited exactly once"
                    return
                a = nn.index("await")
                pos = [k for k, x in enumerate(seq) if x[0] == "claim"]
                if "throw" in nn and not pos:
                    if "value" in nn or "notify" in nn:
                        yield "a task that failed reports a result"
                    return
                if any(k < a for k in pos) or "value" in nn[:a] or "notify" in nn[:a]:
                    yield "a task reports before it has finished"
                if "throw" in nn and nn.index("throw") > min(pos):
                    return      # storing the result failed
                wins = losses = 0
                for k in pos:
                    x = seq[k]
                    won = x[1]
                    if won is None:
                        won = nulls(ctx, ev, x[2])
                        if x[3] != ONE:
                            won = None
                    elif won and (x[2] != ZERO or x[3] != ONE):
                        yield "the flag does not go from 'nobody' to 'somebody'"
                    if won is None:
                        yield "does not look whether it was the first to finish"
                        return
                    wins += bool(won)
                    losses += not won
                if not pos:
                    pk = [x[1] for x in seq if x[0] == "peek"]
                    if any(nulls(ctx, ev, y) is False for y in pk):
                        if "value" in nn or "notify" in nn:
                            yield "a task that did not finish first reports its result"
                        return
                    yield "a task that has finished does not try to be the first"
                    return
                if wins:
                    w = min(pos)
                    if "value" in pr and nn.count("value") != 1:
                        yield "the first finisher does not store its result exactly once"
                    elif "value" in pr and nn.index("value") < w:
                        yield "a result is stored before knowing that it is the first"
                    if nn.count("notify") != 1:
                        yield "the first finisher does not notify the awaiter exactly once"
                    elif "value" in pr and "value" in nn and nn.index("notify") < nn.index("value"):
                        yield "the awaiter is notified before the result is in place"
                    elif nn.index("notify") < w:
                        yield "the awaiter is notified by a task that may not be the first"
                else:
                    if "value" in nn:
                        yield "a task that did not finish first overwrites the result"
                    if "notify" in nn:
                        yield "a task that did not finish first notifies the awaiter"
            ctx.paths(f, cl, final, "only the first finisher reports, once")
    if n < 6:
        raise AnalysisError("when_any tasks not found")


@rule("C10.controller", "C10 C24", "the state shared by the racing tasks belongs to a controller that lives until all of them have finished; every task is started in the race")
def r_controller(ctx):
    for q in CTRL:
        for f in ctx.fns(q):
            pr = params(f)
            if "notify" not in pr:
                ctx.violate(f, f.get("loc"), "the controller does not know whom to notify")
                continue
            tup = "tuple" in short(q)

            def cl(ev, seq, pr=pr):
                if ev.k == "corocall" and ev.q in TASKS:
                    fl = [a for a in ev.a[1:] if isinstance(a, tuple) and a[0] == "alloca" and "atomic" in str(a[3])]
                    if len(fl) != 1:
                        raise Violation("the flag of the race does not live in the controller", ev)
                    if pr["notify"] not in ev.a:
                        raise Violation("a task of the race does not notify the awaiter's event", ev)
                    if "value" in pr and ev.q != TASKS[2] and pr["value"] not in ev.a:
                        raise Violation("a task of the race does not store its result for the awaiter", ev)
                    return [("task",), ("flag", fl[0])]
                if ev.k == "atomic" and ev.q in ("init", "store") and ev.a[0][0] in ("alloca", "addr") and ev.a[1][0] == "c" and "atomic" in str(root_of(ev.a[0])):
                    return ("init", root_of(loc_of(ev.a[0])), ev.a[1])
                if ev.k == "call" and ev.q == "coro::when_all":
                    return ("all",)
                if ev.k == "enter" and ev.q == D + "when_all_ready_awaitable::operator co_await::awaiter::await_resume":
                    return ("awaited",)
                if ev.k == "throw":
                    return ("throw",)

            def final(seq, ev, tup=tup):
                if ev.q not in ("ret", "coroend"):
                    return
                nn = names(seq)
                if "throw" in nn:
                    return
                if nn.count("all") != 1 or nn.count("awaited") != 1:
                    yield "the controller ends without having waited for all tasks of the race"
                    return
                if "task" in nn and nn.index("all") < len(nn) - 1 - nn[::-1].index("task"):
                    yield "a task is created after the race was started"
                fl = {x[1] for x in seq if x[0] == "flag"}
                if len(fl) > 1:
                    yield "the tasks of one race do not share one flag"
                for x in fl:
                    i = [y[2] for y in seq if y[0] == "init" and y[1] == x]
                    if i != [ZERO]:
                        yield "the flag does not start as 'nobody has finished'"
            ctx.paths(f, cl, final, "waits for all tasks of the race", opaque=OPQ)
            if tup:
                k = len(f["pt"]) - 2 - (1 if "integer_sequence" in f["pt"][0] else 0)

                def cl2(ev, seq):
                    if ev.k == "corocall" and ev.q in TASKS:
                        return ("task%d" % len(seq), targs(ev.dem, "make_when_any_tuple_task")[:1] and targs(ev.dem, "make_when_any_tuple_task")[0])
                    if ev.k == "throw":
                        return ("throw",)

                def final2(seq, ev, k=k):
                    if ev.q != "coroend" or "throw" in names(seq):
                        return
                    if len(seq) != k or len({x[1] for x in seq}) != k:
                        yield "not every awaitable takes part in the race under its own index"
                ctx.paths(f, cl2, final2, "every awaitable takes part", opaque=OPQ)
            else:
                made = lambda ev: ev.a[1] if ev.k == "corocall" and ev.q in TASKS else None
                app = lambda ev: ev.a[1] if ev.k == "call" and ev.q in ("std::vector::emplace_back", "std::vector::push_back") and len(ev.a) > 1 else None
                fin = lambda ev: ev.k == "call" and ev.q == "coro::when_all"
                ctx.ob("%s: every awaitable takes part" % f["dem"])
                ctx.monitor(f, EachMon(ctx.E, made, fin, "making the tasks of the race"), opaque=OPQ)
                ctx.monitor(f, EachMon(ctx.E, app, fin, "collecting the tasks of the race"), opaque=OPQ)


@rule("C10.await", "C10", "when_any starts its controller once, waits for the winner, then asks the others to stop and gives the winner's result")
def r_await(ctx):
    fs = ctx.fns("coro::when_any", least=4)
    for f in fs:
        pr = params(f)
        void = f["crt"] == "coro::task<void>"
        if not f.get("coro"):
            def cl(ev, seq):
                if ev.k in ("corocall", "call", "enter") and ev.q == "coro::when_any":
                    return ("delegate", ev.a)
            ctx.paths(f, cl, lambda seq, ev: () if ev.q != "ret" or len(seq) == 1 else ("does not wait for a winner",), "delegates")
            continue

        def cl(ev, seq, pr=pr):
            if ev.k == "corocall" and ev.q in CTRL:
                e = [a for a in ev.a if isinstance(a, tuple) and a[0] == "alloca" and "event" in str(a[3])]
                v = [a for a in ev.a if isinstance(a, tuple) and a[0] == "alloca" and "optional" in str(a[3])]
                return ("ctrl", ev.a[0], e[0] if e else ANY, v[0] if v else ANY)
            if ev.k == "corocall" and ev.q == "coro::when_any":
                return ("delegate",)
            if ev.k == "resume":
                return ("start", ev.a[0])
            if ev.k == "enter" and ev.q == "coro::event::operator co_await":
                return ("wait", ev.a[-1])
            if ev.k == "enter" and ev.q == "coro::event::awaiter::await_resume":
                return ("waited",)
            if ev.k == "call" and ev.q == "std::stop_source::request_stop":
                return ("stop",)
            if ev.k == "enter" and short(ev.q) in ("return_value", "return_void"):
                return ("return", ev.a[1] if len(ev.a) > 1 else ANY)
            if ev.k == "throw":
                return ("throw",)
            if ev.k == "atomic" and ev.q == "init" and F(ev) == "coro::event::m_state":
                return ("init", root_of(loc_of(ev.a[0])), ev.a[1])

        def final(seq, ev, pr=pr, void=void):
            if ev.q != "coroend":
                return
            nn = names(seq)
            if "throw" in nn or "return" not in nn or "delegate" in nn:
                if "delegate" not in nn and "throw" not in nn:
                    yield "ends without a result"
                return
            c = [x for x in seq if x[0] == "ctrl"]
            if len(c) != 1:
                yield "the race is not set up exactly once"
                return
            c = c[0]
            if c[2] == ANY or not void and c[3] == ANY:
                yield "the event and the result of the race do not live in the awaiting call"
                return
            if nn.count("start") != 1 or nn.index("start") < nn.index("ctrl"):
                yield "the race is not started exactly once"
            w = [x for x in seq if x[0] == "wait"]
            if len(w) != 1 or loc_of(w[0][1]) != loc_of(c[2]) or "waited" not in nn or nn.index("return") < nn.index("waited"):
                yield "does not wait for the winner before it gives the result"
            elif "start" in nn and nn.index("start") > nn.index("waited"):
                yield "the race is started only after waiting for its winner"
            i = [x[2] for x in seq if x[0] == "init" and x[1] == root_of(loc_of(c[2]))]
            if i and i[-1] != ZERO:
                yield "the event of the race does not start as 'not set'"
            if "stop" in pr:
                if "stop" not in nn:
                    yield "the other tasks are not asked to stop"
                elif "waited" in nn and nn.index("stop") < nn.index("waited"):
                    yield "the tasks are asked to stop before there is a winner"
                elif nn.index("stop") > nn.index("return"):
                    yield "the other tasks are not asked to stop as soon as there is a winner"
            r = [x[1] for x in seq if x[0] == "return"]
            if not void and not any(contains(x, c[3]) or x == c[3] for x in r):
                yield "something other than the winner's result is given"
        ctx.paths(f, cl, final, "waits for the winner, then gives its result")


@rule("C10.nowinner", "C10", "when every task of the race has ended and none has won, the awaiter is resumed as well")
def r_nowinner(ctx):
    for q in CTRL:
        for f in ctx.fns(q):
            def cl(ev, seq):
                if ev.k == "corocall" and ev.q in TASKS:
                    return [("flag", a) for a in ev.a[1:] if isinstance(a, tuple) and a[0] == "alloca" and "atomic" in str(a[3])]
                if ev.k == "enter" and ev.q == D + "when_all_ready_awaitable::operator co_await::awaiter::await_resume":
                    return ("awaited",)
                if ev.k == "atomic" and ev.q in ("load", "xchg", "cas") and ("flag", root_of(loc_of(ev.a[0]))) in seq:
                    return ("peek", ev.r)
                if ev.k in ("enter", "call") and ev.q == "coro::event::set":
                    return ("notify",)
                if ev.k == "throw":
                    return ("throw",)

            def final(seq, ev):
                nn = names(seq)
                if ev.q not in ("ret", "coroend") or "throw" in nn or "awaited" not in nn:
                    return
                nn = nn[nn.index("awaited"):]
                if "peek" not in nn and "notify" not in nn:
                    yield "when no task of the race succeeds (all end by exception, or there is none) the awaiter is never resumed"
            ctx.paths(f, cl, final, "the awaiter is resumed even when nobody wins", opaque=OPQ)

"""C16: timers."""
from engine import SCALARS
from .base import *
from .comp import *
from .c14_thread_pool import guard_rule, single, mutex_held
from .c15_scheduler import S, IO, SZ, HND, OPQ as OPQ15, OP

TE, TM, TIMER, NOTIFIER = S + "::m_timed_events", S + "::m_timed_events_mutex", S + "::m_timer", S + "::m_io_notifier"
PI = "coro::detail::poll_info"
TH = "coro::detail::timer_handle"
ADD, REM, FIRE, UPD = S + "::add_timer_token", S + "::remove_timer_token", S + "::process_timeout_execute", S + "::update_timeout"
OPQ = OPQ15 | {IO + "::"}
FIRST, SECOND = "std::pair::first", "std::pair::second"
KEEP = "coro::detail::poll_info::poll_awaiter::"


def units(ctx):
    return {q for q in (ADD, REM, FIRE) if ctx.has(q)}


def is_now(v):
    return isinstance(v, tuple) and v[0] == "r" and v[1].startswith("std::chrono::") and short(v[1]) == "now"


def deadline_of(v):
    """iterator whose deadline v is"""
    if isinstance(v, tuple) and v[0] == "ld" and v[1][0] == "addr" and v[1][2][:1] == (FIRST,) and v[1][1][:2] == ("r", "$elem"):
        return v[1][1][2][0]


def poll_of(v):
    """iterator whose poll info v is (or refers to)"""
    if isinstance(v, tuple) and v[0] == "addr" and v[2] == (SECOND,) and v[1][:2] == ("r", "$elem"):
        return v[1][2][0]
    if isinstance(v, tuple) and v[0] == "ld" and v[1][0] == "addr" and v[1][2] == (SECOND,) and v[1][1][:2] == ("r", "$elem"):
        return v[1][1][2][0]


def content(ev, a):
    """value stored at a, also as part of an object copied as a whole"""
    if not isinstance(a, tuple) or a[0] not in ("alloca", "addr", "arg"):
        return a
    l = loc_of(a)
    m = ev.mem or {}
    if l in m:
        return m[l]
    for p in SCALARS:
        if addr(l, p) in m:
            return m[addr(l, p)]
    for n in range(len(l[2]) - 1, -1, -1):
        w = m.get(("addr", l[1], l[2][:n]))
        if w is not None and w[0] == "ld":
            return ("ld", addr(w[1], l[2][n:]), w[2])
    return a


def te_call(ev):
    if ev.k == "call" and ev.a and F(ev) == TE:
        return short(ev.q)


INS, CHG = ("emplace", "insert", "emplace_hint"), ("erase", "clear", "extract", "merge", "swap", "operator=")


class ArmMon(Monitor):
    """Whenever the set of deadlines may have changed at its front, the timer is armed for the (then) first deadline, or disarmed
    when there is none, all with the mutex held, before the function returns."""

    def __init__(self, ctx, fired):
        self.ctx, self.E = ctx, ctx.E
        # held, what changed, current first iterators, emptiness values, facts about them
        self.init = (False, ("fired",) if fired else None, frozenset(), frozenset(), frozenset())

    def nonempty(self, fx, emp, beg):
        for (k, a, b), pol in (fx or {}).items():
            if k == "eq":
                for x, y in ((a, b), (b, a)):
                    if x in beg and isinstance(y, tuple) and y[0] == "r" and short(y[1]) in ("end", "cend"):
                        return not pol
        for e in emp:
            t = eq_fact(self.E, fx, e, ZERO)
            if t is not None:
                return (t is True) if short(e[1]) in ("empty",) else (t is False)
        return None

    def step(self, st, ev):
        held, dirty, beg, emp, known = st
        if ev.k in ("lock", "unlock") and ev.a and ev.a[0][0] == "addr" and ev.a[0][2] and ev.a[0][2][-1] == TM:
            return (ev.k == "lock", dirty, frozenset(), frozenset(), frozenset())
        if ev.k == "br" and ev.x:
            (k, a, b), pol = ev.x
            if k == "eq" and dirty and not pol:
                if dirty[0] == "ins" and (a == dirty[1] and b in beg or b == dirty[1] and a in beg):
                    dirty = None
                elif dirty[0] == "del" and (a == dirty[1] and b in dirty[2] or b == dirty[1] and a in dirty[2]):
                    dirty = None
            if a in emp or b in emp or a in beg or b in beg:
                known = known | {ev.x}
            return (held, dirty, beg, emp, known)
        if ev.k == "age":
            x = ev.a[0] if ev.a else None
            if x is not None and (x in beg or x in emp):
                beg, emp = beg - {x}, emp - {x}
                known = frozenset(k for k in known if not contains(k[0], x))
                return (held, dirty, beg, emp, known)
            return st
        m = te_call(ev)
        if m in ("begin", "cbegin"):
            known = frozenset(k for k in known if not contains(k[0], ev.r))
            return (held, dirty, beg | {ev.r}, emp, known)
        if m in ("empty", "size"):
            known = frozenset(k for k in known if not contains(k[0], ev.r))
            return (held, dirty, beg, emp | {ev.r}, known)
        if m in INS:
            return (held, ("ins", ev.r) if dirty is None else ("more",), frozenset(), frozenset(), frozenset())
        if m in CHG:
            if m == "erase" and len(ev.a) == 2:
                fx = with_facts(ev, known).facts
                if any(eq_fact(self.E, fx, b, ev.a[1]) is False for b in beg):
                    return (held, dirty, beg, frozenset(), known)
                return (held, ("del", ev.a[1], beg) if dirty is None else ("more",), frozenset(), frozenset(), frozenset())
            return (held, ("more",), frozenset(), frozenset(), frozenset())
        if ev.k == "call" and ev.q in (IO + "::watch_timer", IO + "::unwatch_timer"):
            if not held:
                raise Violation("the timer is set without the mutex of the deadlines", ev)
            if len(ev.a) < 2 or ev.a[1][0] != "addr" or ev.a[1][2][-1] != TIMER:
                raise Violation("something other than the scheduler's timer is set", ev)
            fx = with_facts(ev, known).facts
            ne = self.nonempty(fx, emp, beg)
            if ev.q.endswith("unwatch_timer"):
                if ne is not False:
                    raise Violation("the timer is disarmed although deadlines may be pending", ev)
                return (held, None, beg, emp, known)
            v = ev.a[2]
            if v[0] == "c" and isinstance(v[1], int) and v[1] <= 0:
                return (held, None, beg, emp, known)      # fires at once and is set again then
            b = deadline_of(v[2]) if v[0] == "op" and v[1] == "sub" else None
            if b is None or b not in beg or not is_now(v[3]):
                raise Violation("the timer is armed for something other than the earliest deadline", ev)
            if ne is not True and (dirty or ("",))[0] != "ins":
                raise Violation("the first deadline is read although there may be none", ev)
            return (held, None, beg, emp, known)
        if ev.k == "exit" and ev.q in ("ret", "coroend") and dirty is not None:
            raise Violation("the deadlines changed but the timer is not set for the earliest one", ev)
        return st


@rule("C16.arm", "C16", "whenever the pending deadlines change, the timer is armed for the earliest one left, or disarmed when there is none, under their mutex")
def r_arm(ctx):
    U = units(ctx)
    opq = OPQ | U
    for q in sorted(U):
        for f in ctx.fns(q):
            ctx.ob(f["dem"] + ": re-arms")
            ctx.monitor(f, ArmMon(ctx, q == FIRE), opaque=opq - {q})
    n = 0
    for f in others(ctx):
        n += 1
        ctx.ob(f["dem"] + ": re-arms")
        ctx.monitor(f, ArmMon(ctx, False), opaque=opq)


def others(ctx):
    """further functions of the scheduler that change the deadlines themselves"""
    U = units(ctx)
    out = []
    for f in ctx.P.fns.values():
        if f.get("cls") == S and f["q"] not in U and f["q"] != UPD and f.get("sm") is None and f["q"] in (
                S + "::poll", S + "::yield_until", S + "::yield_for_internal", S + "::process_event_execute", S + "::process_events_execute"):
            g = ctx.graph(f, opaque=OPQ | U | ({S + "::process_event_execute", S + "::process_scheduled_execute_inline"} - {f["q"]}))
            if any(te_call(e) in INS + CHG for es in g.edges for evs, m in es for e in evs):
                out.append(f)
    return out


@rule("C16.add", "C16 C17", "a deadline is added once, with the time and the poll given, and the entry made is what the caller gets to remove it")
def r_add(ctx):
    if not ctx.has(ADD):
        return
    for f in ctx.fns(ADD):
        tp, pi = ("arg", f["pn"][0]), ("arg", f["pn"][1])

        def cl(ev, seq):
            m = te_call(ev)
            if m in INS:
                return ("ins", tuple(content(ev, a) for a in ev.a[1:]), ev.r)
            if m in CHG:
                return ("chg",)

        def final(seq, ev):
            if ev.q != "ret":
                return
            ins = [x for x in seq if x[0] == "ins"]
            if len(ins) != 1 or "chg" in names(seq):
                yield "the deadline is not added exactly once"
                return
            a = ins[0][1]
            if len(a) >= 2:
                if a[-2] != tp:
                    yield "the deadline added is not the one asked for"
                if a[-1] != pi:
                    yield "the deadline is added for another poll"
            if (f.get("crt") or "void") != "void" and ev.r != ins[0][2] and not contains(ev.r, ins[0][2]):
                yield "the caller gets another entry than the one added"
        ctx.paths(f, cl, final, "adds a deadline", opaque=OPQ)


@rule("C16.remove", "C16 C17", "removing a deadline removes exactly the entry given")
def r_remove(ctx):
    if not ctx.has(REM):
        return
    for f in ctx.fns(REM):
        pos = ("arg", f["pn"][0])

        def cl(ev, seq):
            m = te_call(ev)
            if m in INS + CHG:
                return (m, ev.a[1] if len(ev.a) > 1 else None, len(ev.a))

        def final(seq, ev):
            if ev.q == "ret" and (len(seq) != 1 or seq[0][0] != "erase" or seq[0][1] != pos or seq[0][2] != 2):
                yield "something other than the entry given is removed"
        ctx.paths(f, cl, final, "removes a deadline", opaque=OPQ)


def due(E, facts, it):
    """a fact says that the deadline of the entry has come"""
    vals = {x for (k, a, b), pol in facts.items() for y in (a, b) for x in terms(y)}
    tps, nows = [x for x in vals if deadline_of(x) == it], [x for x in vals if is_now(x)]
    return any(not_after(E, facts, t, n) for t in tps for n in nows)


def diff(a, b):
    return ("op", "sub", a, b)


def terms(v):
    return [v] + [x for a in v[2:] for x in terms(a)] if isinstance(v, tuple) and v and v[0] == "op" and v[1] in ("add", "sub") else [v]


def not_after(E, facts, a, b):
    """a <= b is known"""
    fx = _S(facts)
    for d in (("slt", b, a), ("slt", ZERO, diff(a, b)), ("ult", b, a)):
        if E.query(fx, d) is False:
            return True
    for d in (("slt", a, b), ("eq", a, b), ("slt", diff(a, b), ("c", 1)), ("eq", diff(a, b), ZERO)):
        if E.query(fx, d) is True:
            return True
    return E.query(fx, ("slt", diff(b, a), ZERO)) is False


class DueMon(Monitor):
    """Only entries whose deadline has come are taken, and the poll of each one taken is kept for resumption once."""
    init = (None, None)       # ("erased" / "kept", entry)

    def __init__(self, ctx):
        self.ctx = ctx

    def step(self, st, ev):
        what, it = st
        if ev.k == "age" and ev.a and it is not None and contains(it, ev.a[0]):
            return (what, ANY)
        m = te_call(ev)
        if m in INS:
            raise Violation("a deadline is added while expired ones are taken", ev)
        if m in CHG:
            if m != "erase":
                raise Violation("deadlines are dropped without being looked at", ev)
            if len(ev.a) == 3:
                e = ev.a[2]
                if not (isinstance(e, tuple) and e[0] == "r" and short(e[1]) in ("upper_bound", "lower_bound")):
                    raise Violation("deadlines are dropped without being looked at", ev)
                return (None, None)
            if ev.a[1][0] == "addr" or ev.a[1][0] == "alloca":
                raise Violation("deadlines are removed by their time: others with the same time are dropped", ev)
            if not due(self.ctx.E, ev.facts, ev.a[1]) and not contains(ev.a[1], ANY):
                raise Violation("a coroutine is taken before its time has come", ev)
            if what == "erased":
                raise Violation("a coroutine whose time has come is dropped", ev)
            if what == "kept":
                if it != ev.a[1] and not contains(it, ANY) and not contains(ev.a[1], ANY):
                    raise Violation("the entry removed is not the one taken", ev)
                return (None, None)
            return ("erased", ev.a[1])
        if ev.k == "call" and short(ev.q) in ("emplace_back", "push_back") and len(ev.a) > 1 and F(ev) != HND:
            v = content(ev, ev.a[1])
            i = poll_of(v)
            if i is None:
                return st
            if what == "kept":
                raise Violation("a coroutine whose time has come is taken twice", ev)
            if what == "erased":
                if i != it and not contains(it, ANY) and not contains(i, ANY):
                    raise Violation("the coroutine taken is not the one whose deadline was removed", ev)
                return (None, None)
            return ("kept", i)
        if (ev.k == "unlock" and ev.a[0][0] == "addr" and ev.a[0][2] and ev.a[0][2][-1] == TM or ev.k == "exit" and ev.q == "ret") and what is not None:
            raise Violation("a coroutine whose time has come is dropped" if what == "erased" else "the deadline of a coroutine taken stays pending", ev)
        return st


@rule("C16.due", "C16", "when the timer fires only entries whose deadline has passed are taken, each of them once")
def r_due(ctx):
    q = FIRE if ctx.has(FIRE) else S + "::process_events_execute"
    opq = OPQ | {S + "::process_event_execute", S + "::process_scheduled_execute_inline"} | (units(ctx) - {FIRE})
    for f in ctx.fns(q):
        ctx.ob(f["dem"] + ": takes what is due")
        ctx.monitor(f, DueMon(ctx), opaque=opq)
        g = ctx.graph(f, opaque=opq)
        if not any(te_call(e) == "erase" for es in g.edges for evs, m in es for e in evs):
            ctx.violate(f, f.get("loc"), "coroutines whose time has come are never taken")


@rule("C16.guard", "C16 C23", "the pending deadlines are only used with their mutex held")
def r_guard(ctx):
    """every function of the scheduler (its coroutines' bodies and lambdas too) on its own: a helper that is only called with the
    mutex held is looked at in its callers"""
    U = units(ctx)
    fs = [f for f in ctx.P.fns.values() if (f.get("cls", "") == S or f["q"].startswith(S + "::")) and f.get("sm") not in ("ctor", "dtor", "copyctor", "movector") and not f["q"].startswith(S + "::options")]
    calls = {}
    for f in fs:
        g = ctx.graph(f, opaque=(OPQ | {x["q"] for x in fs}) - {f["q"]})
        calls[f["m"]] = ({e.q for es in g.edges for evs, m in es for e in evs if e.k in ("call", "corocall", "enter")},
                         any(uses(e) for es in g.edges for evs, m in es for e in evs))
    n = 0
    for f in fs:
        if not calls[f["m"]][1]:
            continue
        n += 1
        callers = [g for g in fs if g["m"] != f["m"] and f["q"] in calls[g["m"]][0]]
        roots = callers if callers and f.get("acc") != "public" and f["q"] not in U else [f]
        for r in roots:
            def cl(ev, seq, held):
                if uses(ev) and not mutex_held(held, TM):
                    raise Violation("%s is used without the mutex that guards it" % short(TE), ev)

            ctx.paths(r, cl, lambda s, e: (), "deadlines under their mutex", opaque=(OPQ | {g["q"] for g in fs}) - {r["q"], f["q"]})
    if not n:
        raise AnalysisError("no user of the deadlines found")


def uses(ev):
    return ev.k in ("call", "load", "store", "atomic") and any(isinstance(a, tuple) and a[0] == "addr" and TE in fields(a) for a in (ev.a or ())[:2])


@rule("C16.sleep", "C16 C15", "sleeping adds one deadline, not before the time asked for, and waits for it; only a time known to have come is not waited for")
def r_sleep(ctx):
    E = ctx.E
    opq = OPQ | units(ctx) | {S + "::schedule_operation::await_suspend"}
    fs = [f for q in (S + "::yield_until", S + "::yield_for_internal") if ctx.has(q) for f in ctx.fns(q) if f.get("coro")]
    if not fs:
        raise AnalysisError("no sleeping coroutine found")
    for f in fs:
        p = ("arg", f["pn"][0])
        until = "time_point" in f["pt"][0]

        def cl(ev, seq):
            if ev.fn.endswith("::unhandled_exception"):
                return ("exc",)
            if ev.k == "atomic" and F(ev) == SZ and ev.q != "load":
                return ("size", ev.q, ev.a[1])
            if ev.k == "call" and ev.q == ADD:
                return ("timer", ev.a[1], ev.a[2])
            if te_call(ev) in INS:
                return ("timer",) + tuple(content(ev, a) for a in ev.a[1:3])
            if ev.k in ("enter", "call") and ev.q == KEEP + "await_suspend":
                return ("wait", ev.a[0], (ev.mem or {}).get(addr(loc_of(ev.a[0]), ("coro::detail::poll_info::poll_awaiter::m_pi",))))
            if ev.k == "store" and ev.a[0][0] == "addr" and ev.a[0][2][-1:] == ("coro::detail::poll_info::poll_awaiter::m_pi",):
                return ("pi", ev.a[1])
            if ev.k in ("enter", "call") and ev.q == OP + "::await_suspend":
                return ("yield",)
            if ev.k == "call" and is_now(ev.r):
                return ("now", ev.r)
            if ev.k == "corocall" and ev.q in (S + "::yield_until", S + "::yield_for_internal", S + "::schedule_at") or ev.k == "corocall" and ev.q in (S + "::yield_for", S + "::schedule_after"):
                return ("sleep", ev.q, ev.a)

        def late_enough(v, ev, seq):
            nows = [x[1] for x in seq if x[0] == "now"]
            if until:
                if v == p:
                    return True
            elif v[0] == "op" and v[1] == "add" and (v[2] in nows and v[3] == p or v[3] in nows and v[2] == p):
                return True
            return False

        def final(seq, ev):
            n = names(seq)
            if ev.q != "coroend" or "exc" in n:
                return
            if "sleep" in n:
                return
            t = [x for x in seq if x[0] == "timer"]
            net = sum(1 if x[2] == ONE else 99 for x in seq if x[:2] == ("size", "add")) - sum(1 if x[2] == ONE else 99 for x in seq if x[:2] == ("size", "sub")) if all(
                x[1] in ("add", "sub") for x in seq if x[0] == "size") else 99
            if t:
                if len(t) > 1 or "wait" not in n or n.count("wait") > 1:
                    yield "a deadline is added but not waited for"
                    return
                if not late_enough(t[0][1], ev, seq):
                    yield "the deadline added is not the one asked for"
                w = [x[1] for x in seq if x[0] == "pi"]
                if not w or w[-1] != t[0][2] and loc_of(w[-1]) != loc_of(t[0][2]):
                    yield "something other than the poll the deadline was added for is waited for"
                if n.index("wait") < n.index("timer"):
                    yield "a deadline is added but not waited for"
                if net != 1 or n.index("size") > n.index("timer"):
                    yield "a sleeping coroutine is not counted exactly once before its deadline is added"
            else:
                if "wait" in n:
                    yield "waits for a deadline that was never added"
                if net != 0:
                    yield "a coroutine that does not sleep is counted as if it did"
                if until:
                    come = any(not_after(E, ev.facts, p, x[1]) for x in seq if x[0] == "now")
                else:
                    come = E.query(_S(ev.facts), ("slt", ZERO, p)) is False or E.query(_S(ev.facts), ("slt", p, ("c", 1))) is True
                if not come:
                    yield "goes on although the time asked for may not have come"
        ctx.paths(f, cl, final, "sleeps", opaque=opq, cap=2)
    # the public names hand their argument on
    n = 0
    for q in (S + "::schedule_at", S + "::schedule_after", S + "::yield_for"):
        for f in (ctx.fns(q) if ctx.has(q) else []):
            if f.get("coro"):
                continue
            n += 1
            p = ("arg", f["pn"][0])

            def cl2(ev, seq):
                if ev.k == "corocall" and ev.q.startswith(S + "::"):
                    return ("call", ev.q, tuple(x for x in ev.a if not (isinstance(x, tuple) and x == ("arg", "this"))))

            def final2(seq, ev):
                if ev.q != "ret":
                    return
                if len(seq) != 1 or p not in seq[0][2] or ("until" in seq[0][1] or seq[0][1].endswith("_at")) != ("time_point" in f["pt"][0]):
                    yield "the time asked for is not handed on"
            ctx.paths(f, cl2, final2, "hands its time on", opaque=OPQ)


class _S:
    def __init__(self, facts):
        self.facts = facts or {}


SYSCALLS = {"close", "epoll_ctl", "timerfd_create", "timerfd_settime", "epoll_create1", "epoll_wait", "pipe", "write", "read"}
SEC, NSEC = "itimerspec::it_value", ("timespec::tv_sec", "timespec::tv_nsec")


def spec(ev, a):
    """(seconds, nanoseconds) of the timer specification at a"""
    out = []
    for m in NSEC:
        v = None
        for k, x in (ev.mem or {}).items():
            if k[1] == loc_of(a)[1] and k[2] and k[2][-1] == m and any(str(y).endswith("it_value") for y in k[2]):
                v = x
        out.append(v)
    return out


@rule("C16.set", "C16", "the kernel's timer is set to the whole length of time given; a length that is not positive fires at once and never disarms it")
def r_set(ctx):
    E = ctx.E
    for f in ctx.fns(IO + "::watch_timer"):
        d = ("arg", f["pn"][1])
        tr = ("op", "trunc:1000000000", d)
        rem = ("op", "sub", d, tr)
        whole = ("op", "count:1000000000", tr)

        def cl(ev, seq):
            if ev.k == "call" and ev.q == "timerfd_settime":
                return ("set", ev.a[0], ev.a[1], tuple(spec(ev, ev.a[2])), ev.r)

        def sign(ev, v):
            """(lo, hi) bounds of the sign: 1 positive, 0 zero, -1 negative"""
            fx = _S(ev.facts)
            if E.query(fx, ("slt", ZERO, v)) is True:
                return (1, 1)
            lo, hi = -1, 1
            if E.query(fx, ("slt", ZERO, v)) is False:
                hi = 0
            if E.query(fx, ("slt", v, ZERO)) is False:
                lo = 0
            if E.query(fx, ("slt", v, ZERO)) is True:
                hi = -1
            return (lo, hi)

        def final(seq, ev):
            if ev.q != "ret":
                return
            if len(seq) != 1 or seq[0][0] != "set":
                yield "the timer is not set exactly once"
                return
            _, fd, flags, (s, n), r = seq[0]
            if not (fd[0] == "ld" and fd[1] == addr(("arg", f["pn"][0]), (TH + "::m_fd",))):
                yield "another descriptor than the timer's is set"
            if flags != ZERO:
                yield "the length of time is taken for a point in time"
            if s is None or n is None:
                yield "the timer is not set to the length of time given"
                return
            ds, ts, rs = sign(ev, d), sign(ev, tr), sign(ev, rem)
            # what follows from one another: d = tr + rem, all of the same sign
            lo = max(ds[0], -1)
            if ts[0] == 1 or rs[0] == 1:
                lo = 1
            hi = ds[1]
            if ts[1] <= 0 and rs[1] <= 0:
                hi = min(hi, 0)
            if ts[1] == -1 or rs[1] == -1:
                hi = -1
            pos = lo == 1
            if s == whole and n == rem or s[0] == "op" and s[2] == d and s[1].startswith("count:") and n == rem:
                if not pos:
                    yield "a length of time that is not positive disarms the timer or is refused"
            elif s == ZERO and n == rem or s == ZERO and n == d:
                if n == rem and ts[1] > 0 or n == d and ts[1] > 0:
                    yield "the timer fires before the length of time has passed"
                if rs[0] < 1 and not (pos and ts[1] <= 0):
                    yield "a length of time that is not positive disarms the timer or is refused"
            elif s[0] == "c" and n[0] == "c":
                if s[1] < 0 or n[1] < 0 or s[1] == 0 and n[1] == 0:
                    yield "a length of time that is not positive disarms the timer or is refused"
                if hi > 0:
                    yield "the timer is not set to the length of time given"
                if s[1] > 0 or n[1] > 1000000:
                    yield "a length of time that is not positive does not fire at once"
            else:
                yield "the timer is not set to the length of time given"
        ctx.paths(f, cl, final, "sets the timer", opaque=OPQ - {IO + "::", TH + "::", "coro::detail::timer_handle::"} | set())
        result_ok(ctx, f)
    for f in ctx.fns(IO + "::unwatch_timer"):
        def cl3(ev, seq):
            if ev.k == "call" and ev.q == "timerfd_settime":
                return ("set", ev.a[0], tuple(spec(ev, ev.a[2])))

        def final3(seq, ev):
            if ev.q == "ret":
                if len(seq) != 1 or not (seq[0][1][0] == "ld" and seq[0][1][1] == addr(("arg", f["pn"][0]), (TH + "::m_fd",))) or any(x not in (ZERO, None) for x in seq[0][2]):
                    yield "the timer is not disarmed"
        ctx.paths(f, cl3, final3, "disarms the timer", opaque=OPQ - {IO + "::", "coro::detail::timer_handle::"})


def result_ok(ctx, f):
    """true is returned exactly when the system call succeeded"""
    E = ctx.E

    def cl(ev, seq):
        if ev.k == "call" and ev.q in ("timerfd_settime", "epoll_ctl"):
            return ("sys", ev.r)

    def final(seq, ev):
        if ev.q == "ret" and seq:
            r = seq[-1][1]
            t = truth(E, ev.r, ev.facts)
            ok = eq_fact(E, ev.facts, r, ("c", -1))
            if ok is None:
                z = eq_fact(E, ev.facts, r, ZERO)
                ok = None if z is None else not z
            if t is None:
                good = ev.r in (("op", "not", ("op", "eq", r, ("c", -1))), ("op", "ne", r, ("c", -1)), ("op", "eq", r, ZERO), ("op", "not", ("op", "slt", r, ZERO)))
            else:
                good = ok is not None and t is not ok
            if not good:
                yield "a failure of the system call is not reported"
    ctx.paths(f, cl, final, "reports failures", opaque=OPQ - {IO + "::", "coro::detail::timer_handle::"})


@rule("C16.timer", "C16 C18 C25", "the timer descriptor is registered to wake the event loop every time it fires; a failure is reported and leaks nothing")
def r_timer(ctx):
    E = ctx.E
    for f in ctx.fns(TH + "::$ctor", lambda f: f.get("sm") not in ("copyctor", "movector")):
        def cl(ev, seq):
            if ev.k == "call" and ev.q == "timerfd_create":
                return ("create", ev.r)
            if ev.k == "enter" and ev.q == IO + "::watch":
                return ("watch", ev.a)
            if ev.k == "call" and ev.q == "epoll_ctl":
                return ("ctl", ev.r)
            if ev.k == "call" and ev.q == "close" and ev.x != "throws":
                return ("close", ev.a[0])

        def final(seq, ev):
            n = names(seq)
            c = [x[1] for x in seq if x[0] == "create"]
            w = [x for x in seq if x[0] == "watch"]
            if ev.q == "ret":
                if not c or eq_fact(E, ev.facts, c[0], ("c", -1)) is not False and E.query(_S(ev.facts), ("slt", c[0], ZERO)) is not False:
                    yield "a timer that could not be created is used"
                    return
                r = [x[1] for x in seq if x[0] == "ctl"]
                if not w or not r or eq_fact(E, ev.facts, r[-1], ("c", -1)) is not False and eq_fact(E, ev.facts, r[-1], ZERO) is not True:
                    yield "a timer that could not be registered is used"
                    return
                a = w[-1][1]
                if a[1] != c[0]:
                    yield "something other than the timer is registered"
                if len(a) < 5 or truth(E, a[4], ev.facts) is not True:
                    yield "the timer wakes the event loop only once"
                if "close" in n:
                    yield "the timer is closed although it is in use"
            elif ev.q == "unwind" and c and eq_fact(E, ev.facts, c[0], ("c", -1)) is not True and E.query(_S(ev.facts), ("slt", c[0], ZERO)) is not True:
                if n.count("close") != 1 or ("close", c[0]) not in seq:
                    yield "a timer that could not be registered is leaked"
        ctx.paths(f, cl, final, "creates and registers", opaque=OPQ - {"coro::detail::timer_handle::", IO + "::"}, throws=lambda q, d: q not in SYSCALLS)

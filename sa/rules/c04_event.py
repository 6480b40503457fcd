"""C04: event and latch."""
from .base import *

EV = "coro::event"
ST = EV + "::m_state"
AW = "coro::event::awaiter"
NXT, HND, EVT = AW + "::m_next", AW + "::m_awaiting_coroutine", AW + "::m_event"
EXECUTORS = ("coro::thread_pool::resume", "coro::scheduler::resume")
OPQ = DEFAULT_OPAQUE | set(EXECUTORS)


def change(ctx, ev):
    """('set', old) / ('clear',) / ('push', element, old, order) / ('bad', text) for a write to the event state"""
    E = ctx.E
    if ev.k != "atomic" or F(ev) != ST or ev.q in ("load", "init"):
        return None
    me = ev.a[0][1] if len(ev.a[0][2]) == 1 else ("addr", ev.a[0][1], ev.a[0][2][:-1])
    if ev.q == "cas":
        if not ev.x[0]:
            return ("lost", ev.r)
        old, new, o = ev.a[1], ev.a[2], ev.x[1]
    elif ev.q == "xchg":
        old, new, o = ev.r, ev.a[1], ev.x
    elif ev.q == "store":
        old, new, o = None, ev.a[1], ev.x
    else:
        return ("bad", "arithmetic on the event state")
    if new == me:
        if old is None:
            return ("bad", "the event is set without taking the waiters it had")
        if o not in REL:
            return ("bad", "the event is set without release ordering (%s)" % o)
        if o not in ACQ:
            return ("bad", "the waiters are taken without acquire ordering (%s)" % o)
        return ("set", old)
    if eq_fact(E, ev.facts, new, ZERO) is True:
        if old is None or eq_fact(E, ev.facts, old, me) is not True:
            return ("bad", "the event is cleared although coroutines may be waiting in it")
        return ("clear",)
    if old is None:
        return ("bad", "the event state is overwritten")
    return ("push", new, old, o)


@rule("C04.await", "C04 C24", "awaiting continues when the event is set, otherwise it is queued completely written in one step and stays suspended")
def r_await(ctx):
    f = ctx.fn(AW + "::await_suspend")
    me = ("arg", "this")
    hn = (f.get("pn") or ["awaiting_coroutine"])[0]
    E = ctx.E

    def cl(ev, seq):
        c = change(ctx, ev)
        if count(seq, "push") and ev.k in ("load", "store", "atomic") and ev.a and ev.a[0][0] == "addr" and ev.a[0][1] == me:
            raise Violation("the awaiter is touched after it was queued (its coroutine may already have resumed)", ev)
        if ev.k == "atomic" and F(ev) == ST and ev.q == "load":
            if ev.x not in ACQ:
                raise Violation("the event is seen set without acquire ordering", ev)
            return ("saw", ev.r, ev.a[0])
        if c is None:
            return None
        if c[0] == "lost":
            if ev.x[2] not in ACQ:
                raise Violation("the event is seen set without acquire ordering", ev)
            return ("saw", c[1], ev.a[0])
        if c[0] == "push":
            if c[1] != me:
                raise Violation("queues something other than this awaiter", ev)
            if c[3] not in REL:
                raise Violation("the awaiter is queued without release ordering (%s)" % c[3], ev)
            if ev.mem.get(this(NXT)) != c[2]:
                raise Violation("the awaiter is queued without linking the waiters before it", ev)
            h = ev.mem.get(this(HND))
            if h is None or not contains(h, ("arg", hn)):
                raise Violation("the awaiter is queued before its coroutine handle is stored", ev)
            evt = ev.a[0][1] if len(ev.a[0][2]) == 1 else None
            if evt is not None and eq_fact(E, ev.facts, c[2], evt) is not False:
                raise Violation("the awaiter is queued on an event that may be set already", ev)
            return ("push",)
        raise Violation(c[1] if c[0] == "bad" else "awaiting changes the event", ev)

    def final(seq, ev):
        t = truth(E, ev.r, ev.facts)
        n = count(seq, "push")
        if t is None:
            yield "result does not tell whether the awaiter was queued"
        elif t and n != 1:
            yield "stays suspended without being queued exactly once: no set would resume it"
        elif not t:
            if n:
                yield "is queued and continues as well: it would be resumed twice"
            s = [x for x in seq if x[0] == "saw"]
            if not s or not any(eq_fact(E, ev.facts, x[1], x[2][1] if len(x[2][2]) == 1 else ("addr", x[2][1], x[2][2][:-1])) is True for x in s):
                yield "continues although the event was not seen set"
    ctx.paths(f, cl, final, "queued xor set", cap=2)
    for q in (AW + "::await_ready", EV + "::is_set"):
        for f in ctx.fns(q):
            def cl2(ev, seq):
                if ev.k == "atomic" and F(ev) == ST:
                    if ev.q != "load":
                        raise Violation("looking at the event changes it", ev)
                    if ev.x not in ACQ:
                        raise Violation("the event is seen set without acquire ordering", ev)
                    return ("saw", ev.r, ev.a[0])

            def final2(seq, ev):
                if len(seq) != 1:
                    yield "does not look at the event"
                    return
                l = seq[0][2]
                me2 = l[1] if len(l[2]) == 1 else ("addr", l[1], l[2][:-1])
                n = E.norm(ev.r) if ev.r is not None else None
                want = E.norm(E.icmp("eq", seq[0][1], me2))
                t = truth(E, ev.r, ev.facts)
                if n != want and not (t is not None and eq_fact(E, ev.facts, seq[0][1], me2) is t):
                    yield "does not report exactly whether the event is set"
            ctx.paths(f, cl2, final2, "true iff set")
    for f in ctx.fns(AW + "::$ctor", lambda f: f.get("sm") == "ctor"):
        nm = (f.get("pn") or ["e"])[0]

        def final3(seq, ev):
            if ev.mem.get(this(EVT)) != ("arg", nm):
                yield "the awaiter does not refer to the event it was made from"
        ctx.paths(f, lambda e, s: None, final3, "awaiter bound to its event")
    for f in ctx.fns(EV + "::operator co_await"):
        def final4(seq, ev):
            if ev.mem.get(addr(("arg", "$ret"), (EVT,))) != ("arg", "this"):
                yield "co_await does not wait for this event"
        ctx.paths(f, lambda e, s: None, final4, "awaiter of this event")


@rule("C04.set", "C04 C24", "set takes all waiters in one step and resumes each exactly once in the order of the policy")
def r_set(ctx):
    E = ctx.E
    en = dict(ctx.P.enums.get("coro::resume_order_policy") or [])
    if set(en) != {"lifo", "fifo"}:
        raise AnalysisError("resume_order_policy changed")
    fs = ctx.fns(EV + "::set", least=2)
    for f in fs:
        pol = ("arg", f["pn"][-1])

        def take(ev):
            c = change(ctx, ev)
            if c and c[0] == "set":
                if eq_fact(E, ev.facts, c[1], ("arg", "this")) is True:
                    return ZERO
                return c[1]

        def sink(ev):
            if ev.k in ("call", "enter") and ev.q in EXECUTORS:
                for a in ev.a[1:]:
                    for c in (a, ev.mem.get(loc_of(a)) if ev.mem and a[0] != "c" else None):
                        if c is not None and handle_of(c)[1] == HND:
                            return handle_of(c)[0]
                raise Violation("hands something to the executor that is not a waiter", ev)

        def order(ev, rev, straight, pol=pol):
            p = eq_fact(E, ev.facts, pol, ("c", en["fifo"]))
            q = eq_fact(E, ev.facts, pol, ("c", en["lifo"]))
            fifo = True if p is True or q is False else False if p is False or q is True else None
            if fifo is True and not rev:
                return "waiters are resumed in reverse order although first-in-first-out was asked for"
            if fifo is False and not straight:
                return "waiters are resumed in order of arrival although last-in-first-out was asked for"
            if fifo is None and not (rev and straight):
                return "the order of resumption does not depend on the policy"

        def after(ev):
            if ev.k in ("load", "store", "atomic") and ev.a and ev.a[0][0] == "addr" and ev.a[0][1] == ("arg", "this"):
                return "the event is touched after a waiter was resumed (it may be gone)"
        ctx.ob("%s: walk" % f["dem"])
        wm = WalkMon(ctx, take, NXT, HND, sink, order, after)
        step0 = wm.step

        class M(Monitor):
            init = (wm.init, False, frozenset())

            def step(self, st, ev):
                w, t, known = st
                if ev.k == "br" and ev.x and (("arg", "this") in ev.x[0][1:] or pol_in(ev.x[0])):
                    known = known | {ev.x}
                if ev.k in ("resume", "call", "exit", "enter") and known:
                    ev = with_facts(ev, known)
                # the exchange may have found the event already set: nothing to walk
                if ev.k == "br" and ev.x and ev.x[0][0] == "eq" and ev.x[1] and w[0] is not None and set(ev.x[0][1:]) == {w[0], ("arg", "this")}:
                    w = (ZERO,) + w[1:]
                w = step0(w, ev)
                c = change(ctx, ev)
                if c:
                    if c[0] == "bad":
                        raise Violation(c[1], ev)
                    if c[0] in ("push", "clear"):
                        raise Violation("set changes the event to something other than set", ev)
                    t = t or c[0] == "set"
                if ev.k == "exit" and ev.q == "ret" and not t:
                    raise Violation("set returns without having set the event", ev)
                return (w, t, known)

        def pol_in(p, pol=pol):
            return any(contains(x, pol) for x in p[1:])
        ctx.monitor(f, M(), opaque=OPQ)


@rule("C04.reset", "C04", "reset only turns a set event into an empty one; every other write of the state is set or queueing")
def r_reset(ctx):
    E = ctx.E
    for f in ctx.fns(EV + "::reset"):
        def cl(ev, seq):
            c = change(ctx, ev)
            if c is None:
                if ev.k == "atomic" and F(ev) == ST and ev.q == "load":
                    return ("lost", ev.r)
                return None
            if c[0] == "bad":
                raise Violation(c[1], ev)
            if c[0] in ("set", "push"):
                raise Violation("reset does something other than clearing a set event", ev)
            return c

        def final(seq, ev):
            if count(seq, "clear"):
                return
            l = [x for x in seq if x[0] == "lost"]
            if not l or eq_fact(E, ev.facts, l[-1][1], ("arg", "this")) is not False:
                yield "returns although the event may still be set"
        ctx.paths(f, cl, final, "clear iff set")
    n = 0
    for f in ctx.P.fns.values():
        if touching(f, {ST}) and not f["q"].endswith(("$ctor", "$dtor")):
            n += 1
            if f["q"] in (EV + "::set", EV + "::reset", AW + "::await_suspend"):
                continue

            def cl2(ev, seq):
                c = change(ctx, ev)
                if c and c[0] == "bad":
                    raise Violation(c[1], ev)
            ctx.paths(f, cl2, lambda s, e: (), "state transitions", opaque=OPQ)
    if n < 4:
        raise AnalysisError("event state is used nowhere")
    for f in ctx.fns(EV + "::$ctor"):
        nm = ("arg", (f.get("pn") or ["initially_set"])[0])

        def final2(seq, ev):
            v = ev.mem.get(this(ST))
            t = truth(E, nm, ev.facts)
            ok = False
            if v is not None and t is not None:
                ok = v == (("arg", "this") if t else ZERO)
            elif v is not None and v[0] == "op" and v[1] == "select":
                n = E.norm(v[2])
                a, b = (v[3], v[4]) if n not in (True, False) and n[1] else (v[4], v[3])
                p = n[0] if n not in (True, False) else None
                if p == ("eq", nm, ZERO):
                    ok = a == ZERO and b == ("arg", "this")
                elif p == E.norm(nm)[0]:
                    ok = (a, b) == (("arg", "this"), ZERO) if E.norm(nm)[1] else (a, b) == (ZERO, ("arg", "this"))
            if not ok:
                yield "a new event is not in the state asked for"
        ctx.paths(f, lambda e, s: None, final2, "initial state")
    for r in ctx.recs(EV):
        for k in ("copyctor", "copyassign", "movector", "moveassign"):
            ctx.ob("%s %s deleted" % (r["ty"], k))
            if r["sm"].get(k) not in ("deleted", "none", None):
                ctx.violate(r["q"], r.get("loc"), "%s of an event is possible: waiters refer to it by address" % k)


@rule("C04.latch", "C04", "the latch opens exactly when its count reaches zero or below; waiting on it waits for that")
def r_latch(ctx):
    E = ctx.E
    L = "coro::latch"
    CNT, LEV = L + "::m_count", L + "::m_event"
    for f in ctx.fns(L + "::count_down", least=2):
        nm = ("arg", f["pn"][-1])

        def cl(ev, seq):
            if ev.k == "atomic" and F(ev) == CNT:
                if ev.q == "load":
                    return ("load", ev.r)
                if ev.q == "sub" and ev.a[1] == nm:
                    if ev.x not in REL or ev.x not in ACQ:
                        raise Violation("counting down has no acquire-release ordering (%s)" % ev.x, ev)
                    return ("dec", ev.r)
                if ev.q == "cas" and not ev.x[0]:
                    return None
                if ev.q == "cas" and ev.a[2] == E.arith(None, "sub", ev.a[1], nm, None):
                    if ev.x[1] not in REL or ev.x[1] not in ACQ:
                        raise Violation("counting down has no acquire-release ordering (%s)" % ev.x[1], ev)
                    return ("dec", ev.a[1])
                raise Violation("the count is not lowered by the given amount", ev)
            if ev.k in ("call", "enter") and ev.q == EV + "::set":
                if loc_of(ev.a[0]) != this(LEV):
                    raise Violation("sets some other event", ev)
                return ("set",)
            if ev.k in ("call", "enter") and ev.q == EV + "::reset":
                raise Violation("counting down closes the latch", ev)
            if count(seq, "set") and ev.k in ("load", "store", "atomic") and ev.a and ev.a[0][0] == "addr" and ev.a[0][1] == ("arg", "this"):
                raise Violation("the latch is touched after it opened (it may be gone)", ev)

        def final(seq, ev):
            d = [x[1] for x in seq if x[0] == "dec"]
            if len(d) != 1:
                yield "does not lower the count exactly once"
                return
            # old <= n, i.e. not n < old
            open_ = truth(E, ("op", "slt", nm, d[0]), ev.facts)
            eq = eq_fact(E, ev.facts, d[0], nm)
            lt = truth(E, ("op", "slt", d[0], nm), ev.facts)
            reached = True if open_ is False or eq is True or lt is True else False if open_ is True or (eq is False and lt is False) else None
            r = E.arith(None, "sub", d[0], nm, None)
            if reached is None:
                p = truth(E, ("op", "slt", ZERO, r), ev.facts)
                reached = None if p is None else not p
            s = count(seq, "set")
            if reached is None:
                yield "does not find out whether the count reached zero from its own decrement"
            elif reached and s != 1:
                yield "brings the count to zero without opening the latch"
            elif not reached and s:
                yield "opens the latch although the count is above zero"
        ctx.paths(f, cl, final, "open iff zero reached", opaque=OPQ | {EV + "::set", EV + "::reset"})
    for f in ctx.fns(L + "::$ctor", lambda f: f.get("sm") == "ctor"):
        nm = ("arg", f["pn"][0])

        def cl2(ev, seq):
            if ev.k in ("call", "enter") and ev.q == EV + "::$ctor":
                return ("ev", ev.a[1] if len(ev.a) > 1 else None)

        def final2(seq, ev):
            if ev.mem.get(this(CNT)) != nm:
                yield "the latch does not start with the given count"
            e = [x[1] for x in seq if x[0] == "ev"]
            want = E.norm(("op", "slt", ZERO, nm))
            if len(e) != 1:
                yield "the latch does not start with the given count"
            else:
                g = E.norm(e[0])
                t, u = truth(E, e[0], ev.facts), truth(E, ("op", "slt", ZERO, nm), ev.facts)
                if not (g not in (True, False) and g == (want[0], not want[1])) and not (t is not None and u is not None and t != u):
                    yield "a latch with nothing to wait for is not open, or one with something to wait for is"
        ctx.paths(f, cl2, final2, "initially open iff count <= 0")
    for f in ctx.fns(L + "::is_ready"):
        def cl3(ev, seq):
            if ev.k in ("call", "enter") and ev.q == EV + "::is_set" and loc_of(ev.a[0]) == this(LEV):
                return ("set", ev.r)

        def final3(seq, ev):
            t = truth(E, ev.r, ev.facts)
            if not (seq and (ev.r == seq[-1][1] or t is not None and truth(E, seq[-1][1], ev.facts) is t)):
                yield "is_ready does not report whether the latch opened"
        ctx.paths(f, cl3, final3, "ready iff open", opaque=OPQ | {EV + "::is_set"})
    for f in ctx.fns(L + "::operator co_await"):
        def final4(seq, ev):
            if ev.mem.get(addr(("arg", "$ret"), (EVT,))) != this(LEV):
                yield "awaiting the latch does not wait for its event"
        ctx.paths(f, lambda e, s: None, final4, "awaits the latch's event")
    n = 0
    for f in ctx.P.fns.values():
        if touching(f, {LEV}):
            n += 1

            def cl5(ev, seq):
                if ev.k in ("call", "enter") and ev.q == EV + "::reset" and F(ev) == LEV:
                    raise Violation("an opened latch is closed again", ev)
                if ev.k in ("call", "enter") and ev.q == EV + "::set" and F(ev) == LEV and fq != L + "::count_down":
                    raise Violation("the latch is opened by something other than counting down", ev)
            fq = f["q"]
            ctx.paths(f, cl5, lambda s, e: (), "latch event use", opaque=OPQ | {EV + "::set", EV + "::reset"})
    if n < 3:
        raise AnalysisError("the latch's event is used nowhere")

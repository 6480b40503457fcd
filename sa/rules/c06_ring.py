"""C06: ring buffer."""
from .base import *

R = "coro::ring_buffer"
MX, EL, FRONT, BACK, USED, ST = (R + "::" + x for x in ("m_mutex", "m_elements", "m_front", "m_back", "m_used", "m_running_state"))
PW, CW = R + "::m_produce_waiters", R + "::m_consume_waiters"
PO, CO = R + "::produce_operation", R + "::consume_operation"
SIDE = {PW: PO, CW: CO}
N = 5    # capacity of the instance in driver/drv_sync.cpp
MEMBERS = {EL, FRONT, BACK, USED, ST, PW, CW}


def enum(ctx, q, want):
    e = dict(ctx.P.enums.get(q) or [])
    if not set(want) <= set(e):
        raise AnalysisError("enumeration %s changed" % q)
    return e


def held_mx(held):
    return any(F(l) == MX for l in held)


def slot_of(l):
    """index value of an address inside m_elements, or None"""
    if not (isinstance(l, tuple) and l and l[0] == "addr" and EL in l[2]):
        return None
    for x in l[2]:
        if isinstance(x, tuple) and x and x[0] == "idx":
            return x[1]
    return ANY


def slot_reg(v):
    """r when v is r modulo the capacity"""
    if isinstance(v, tuple) and v[:2] == ("op", "urem") and v[3] == ("c", N):
        return v[2]
    return None


def elem_owner(l, cls):
    """operation whose m_e lives at l"""
    if isinstance(l, tuple) and l and l[0] == "addr" and cls + "::m_e" in l[2]:
        p = l[2][:l[2].index(cls + "::m_e")]
        return ("addr", l[1], p) if p else l[1]
    return None


def classify(ctx):
    E = ctx.E

    def guard(ev, held, what):
        if not held_mx(held):
            raise Violation("%s without the buffer's mutex" % what, ev)

    def c(ev, seq, held):
        if ev.k == "lock" and F(ev) == MX:
            if held_mx(held):
                raise Violation("locks the buffer's mutex twice", ev)
            return ("lock",)
        if ev.k == "unlock" and F(ev) == MX:
            if not held_mx(held):
                raise Violation("unlocks the buffer's mutex without holding it", ev)
            for x in seq:
                if x[0] == "push":
                    o = loc_of(x[1])
                    if ev.mem.get(addr(o, (x[3] + "::m_next",))) != x[2]:
                        raise Violation("a waiter is queued without linking the waiters already queued", ev)
                    h = ev.mem.get(addr(o, (x[3] + "::m_awaiting_coroutine",)))
                    if h is None or h == ZERO:
                        raise Violation("a waiter is queued without its coroutine handle", ev)
            return ("unlock",)
        f = F(ev)
        if ev.k == "atomic" and ev.q != "init" and f in MEMBERS:
            if f == ST:
                if ev.q == "load" or ev.q == "cas" and not ev.x[0]:
                    return ("state", ev.r, held_mx(held))
                guard(ev, held, "the running state is changed")
                if ev.q == "cas":
                    return ("setstate", ev.a[1], ev.a[2])
                return ("setstate", ev.r if ev.q == "xchg" else None, ev.a[1])
            if f == USED:
                if ev.q == "load":
                    return ("used", ev.r, held_mx(held))
                guard(ev, held, "the element count is changed")
                if ev.q in ("add", "sub") and ev.a[1] == ONE:
                    return ("inc" if ev.q == "add" else "dec",)
                raise Violation("the element count is changed by something other than one", ev)
            if f in (FRONT, BACK):
                if ev.q == "load":
                    return None
                guard(ev, held, "a buffer position is moved")
                if ev.q != "add" or ev.a[1] != ONE:
                    raise Violation("a buffer position is moved by something other than one step", ev)
                return ("front" if f == FRONT else "back", ev.r)
            side = SIDE[f]
            if ev.q == "load":
                return ("head", ev.r, held_mx(held), side)
            guard(ev, held, "a list of waiters is changed")
            if ev.q == "xchg":
                if eq_fact(E, ev.facts, ev.a[1], ZERO) is True:
                    return ("popall", ev.r, None, side)
                return ("push", ev.a[1], ev.r, side)
            r = listop(ctx, ev, f, side + "::m_next")
            if r is None:
                return ("head", ev.r, held_mx(held), side)
            if r[0] == "bad":
                raise Violation(r[1], ev)
            return (r[0], r[1], r[2], side)
        if ev.k == "call" and ev.a and ("optional" in ev.q or ev.q.startswith("drv::") or "operator=" in ev.q):
            d, s = slot_of(ev.a[0]), slot_of(ev.a[1]) if len(ev.a) > 1 else None
            if d is not None or s is not None:
                guard(ev, held, "an element is touched")
            if s is not None:
                return ("take", slot_reg(s), elem_owner(ev.a[0], CO))
            if d is not None and len(ev.a) > 1 and ("operator=" in ev.q or "emplace" in ev.q):
                return ("put", slot_reg(d), elem_owner(ev.a[1], PO))
            if d is not None and (ev.x == "clear" or "reset" in ev.q):
                return ("clear", slot_reg(d))
        if ev.k == "resume":
            if held_mx(held):
                raise Violation("a waiter is resumed while the buffer's mutex is held", ev)
            o, m = handle_of(ev.a[0])
            return ("resume", o if m and m.endswith("::m_awaiting_coroutine") else ev.a[0])
        if ev.k == "suspend":
            return ("suspend",) if seq else None
        if ev.k == "corocall" and ev.q.startswith(R + "::"):
            if held_mx(held):
                raise Violation("calls %s while holding the buffer's mutex" % short(ev.q), ev)
            return ("corocall", ev.q)
        if ev.k == "await":
            return ("await",)
        v = coreturn(ev)
        if v is not None:
            return ("value", v)
        return None
    return c


def moved(seq, kind):
    """complaints about the element movement(s) in seq: kind 'put' or 'take'"""
    pos, other, cnt, ocnt = ("front", "back", "inc", "dec") if kind == "put" else ("back", "front", "dec", "inc")
    n = names(seq)
    if other in n or ocnt in n or ("take" if kind == "put" else "put") in n:
        yield "moves the wrong end of the buffer"
    if n.count(pos) != 1 or n.count(cnt) != 1 or n.count(kind) != 1:
        yield "position, element and count do not change together exactly once"
        return
    r = [x[1] for x in seq if x[0] == pos][0]
    m = [x for x in seq if x[0] == kind][0]
    if m[1] is None or m[1] != r:
        yield "the element is moved at a slot other than the one claimed (position modulo capacity)"
    if m[2] is None:
        yield "the element is not moved between the slot and the operation"
    k = max(n.index(x) for x in (pos, cnt, kind))
    for x in seq:
        if x[0] == "clear" and x[1] != r:
            yield "a slot other than the claimed one is emptied"
    if "unlock" in n and n.index("unlock") < k:
        yield "an element is moved after the mutex was released"


def room(ctx, seq, ev, kind):
    """truth of 'there is room' / 'there is an element' as seen under the mutex"""
    u = [x for x in seq if x[0] == "used" and x[2]]
    if not u:
        return None
    if kind == "put":
        t = truth(ctx.E, ("op", "ult", u[-1][1], ("c", N)), ev.facts)
        if t is None:
            e = eq_fact(ctx.E, ev.facts, u[-1][1], ("c", N))
            return None if e is None else not e
        return t
    t = truth(ctx.E, ("op", "ult", ZERO, u[-1][1]), ev.facts)
    if t is None:
        e = eq_fact(ctx.E, ev.facts, u[-1][1], ZERO)
        return None if e is None else not e
    return t


def state_is(ctx, seq, ev, val, locked=True):
    """True/False/None: the last state seen (under the mutex) equals val"""
    s = [x for x in seq if x[0] == "state" and (x[2] or not locked)]
    if not s:
        return None
    return eq_fact(ctx.E, ev.facts, s[-1][1], ("c", val))


def op_paths(ctx, q, kind, opcls, waiters, helper, states, results):
    running, draining, stopped = states
    done, stop = results
    for f in ctx.fns(q):
        cc = classify(ctx)

        def cl(ev, seq, held):
            if count(seq, "push") and count(seq, "unlock") and not count(seq, "suspend") and ev.k in ("load", "store", "atomic") and ev.a:
                if ev.a[0][1] == loc_of([x[1] for x in seq if x[0] == "push"][0])[1]:
                    raise Violation("the operation is touched after it was queued and the mutex released", ev)
            if ev.k == "load" and ev.a and ev.a[0][2] and ev.a[0][2][-1] == opcls + "::m_result":
                return ("result", ev.r)
            if ev.k == "call" and ev.q.endswith("::expected::$ctor") and len(ev.a) > 1:
                a = ev.a[1]
                if elem_owner(a, opcls):
                    return ("expected",)
                return None
            if ev.k == "call" and ev.q.endswith("::unexpected::$ctor") and len(ev.a) > 1 and ev.a[1][0] == "addr" and opcls + "::m_result" in ev.a[1][2]:
                return ("unexpected", ev.mem.get(loc_of(ev.a[1]), ANY))
            return cc(ev, seq, held)

        def final(seq, ev):
            n = names(seq)
            if ev.q == "unwind" or "lock" not in n:
                return
            if n.count("lock") != 1 or n.count("unlock") != 1:
                yield "the buffer's mutex is not locked and unlocked exactly once"
                return
            tr, push = n.count(kind), n.count("push")
            if tr and push:
                yield "transfers an element and waits as well"
            if tr or {"front", "back", "inc", "dec"} & set(n):
                yield from moved(seq, kind)
                if room(ctx, seq, ev, kind) is not True:
                    yield "an element is put into a buffer not known to have room" if kind == "put" else "an element is taken from a buffer not known to hold one"
                ok = state_is(ctx, seq, ev, running) if kind == "put" else {True: False, False: True}.get(state_is(ctx, seq, ev, stopped))
                if ok is not True:
                    yield "an element is accepted although the buffer may be shut down" if kind == "put" else "an element is taken although the buffer may be stopped"
                if "suspend" in n:
                    yield "suspends after transferring its element"
            elif push:
                p = [x for x in seq if x[0] == "push"][0]
                if p[3] != opcls:
                    yield "waits in the wrong list"
                if room(ctx, seq[:index(seq, "push")], ev, kind) is not False:
                    yield "goes to sleep without having seen under the mutex that the buffer is %s" % ("full" if kind == "put" else "empty")
                sl = seq[:index(seq, "push")]
                ok = state_is(ctx, sl, ev, running) if kind == "put" else {True: False, False: True}.get(state_is(ctx, sl, ev, stopped))
                if ok is not True:
                    yield "goes to sleep although the buffer may be shut down"
                if "suspend" not in n[n.index("push"):] or n.index("unlock") < n.index("push"):
                    yield "is queued but does not suspend, or is queued after the mutex was released"
            else:
                if "suspend" in n:
                    yield "suspends without being queued: nobody would resume it"
                ok = state_is(ctx, seq, ev, running) if kind == "put" else {True: False, False: True}.get(state_is(ctx, seq, ev, stopped))
                if ok is not False:
                    yield "completes without transferring an element although the buffer was not seen shut down"
            # what the caller is told
            if kind == "put":
                v = [x[1] for x in seq if x[0] == "value"]
                want = ("c", done) if tr else ("c", stop) if not push else None
                if not v:
                    if not ("throw" in n):
                        yield "returns nothing"
                elif want is not None and v[-1] != want:
                    yield "the reported result does not tell what happened to the element"
                elif push:
                    res = [x[1] for x in seq if x[0] == "result"]
                    if not res or v[-1] != res[-1]:
                        yield "the result set by whoever resumed the operation is not what is returned"
            else:
                if not tr and not push:
                    u = [x[1] for x in seq if x[0] == "unexpected"]
                    if "expected" in n or not u or u[-1] != ("c", stop):
                        yield "a consumer of a stopped buffer is not told so"
            # the transfer lets a matching waiter proceed
            if "corocall" not in n or "await" not in n[n.index("corocall"):]:
                yield "the waiting %s are not given the chance to proceed after the operation" % ("consumers" if kind == "put" else "producers")
            else:
                k = n.index("corocall")
                if seq[k][1] != helper:
                    yield "lets the wrong side proceed"
                if n.index("unlock") > k:
                    yield "waits for other operations while holding the mutex"
                if push and "suspend" in n and n.index("suspend") > k:
                    yield "lets others proceed before its own element was transferred"
        ctx.paths(f, cl, final, "transfer xor stopped xor wait", cap=3, skip_exc=True)


def consts(ctx):
    st = enum(ctx, R + "::running_state_t", ("running", "draining", "stopped"))
    pr = enum(ctx, "coro::ring_buffer_result::produce", ("produced", "notified", "stopped"))
    co = enum(ctx, "coro::ring_buffer_result::consume", ("notified", "stopped"))
    return (st["running"], st["draining"], st["stopped"]), pr, co


@rule("C06.produce", "C06 C23 C24", "produce stores its element in the claimed free slot, or sees shutdown, or waits queued after seeing the buffer full, all under the mutex")
def r_produce(ctx):
    st, pr, co = consts(ctx)
    op_paths(ctx, R + "::produce", "put", PO, PW, R + "::try_resume_consumers", st, (pr["produced"], pr["stopped"]))


@rule("C06.consume", "C06 C23 C24", "consume takes the oldest element, or sees the stop, or waits queued after seeing the buffer empty, all under the mutex")
def r_consume(ctx):
    st, pr, co = consts(ctx)
    op_paths(ctx, R + "::consume", "take", CO, CW, R + "::try_resume_producers", st, (None, co["stopped"]))
    for f in ctx.fns(CO + "::await_resume"):
        def cl(ev, seq):
            if ev.k == "br" and ev.x and ev.x[0][0] == "eq" and contains(ev.x[0][1], "$has") and ev.x[0][2] == ZERO:
                return ("has", ev.x[1])
            if ev.k == "call" and ev.q.endswith("expected::$ctor"):
                if any(elem_owner(a, CO) for a in ev.a[1:]):
                    return ("element",)
                if any(a[0] == "addr" and CO + "::m_result" in a[2] for a in ev.a[1:]):
                    return ("result",)

        def final(seq, ev):
            has = [x[1] for x in seq if x[0] == "has"]
            n = names(seq)
            if ev.q == "ret":
                if "element" not in n and "result" not in n:
                    yield "the result of consume is neither the element nor the reason why there is none"
                elif has and ("element" in n) == has[-1]:
                    yield "an element that was transferred is dropped, or an absent one is returned"
        ctx.paths(f, cl, final, "element iff transferred")


@rule("C06.handoff", "C06 C23 C24", "a freed slot or a new element is given to exactly one waiter of the other side, until none is left or it does not fit")
def r_handoff(ctx):
    for q, kind, opc in ((R + "::try_resume_producers", "put", PO), (R + "::try_resume_consumers", "take", CO)):
        for f in ctx.fns(q):
            cc = classify(ctx)

            def round_(seq, ev):
                n = names(seq)
                if "popall" in n or "push" in n or "setstate" in n or "corocall" in n:
                    yield "does something other than handing one slot or element to one waiter"
                po = [x for x in seq if x[0] == "pop"]
                if len(po) > 1:
                    yield "takes more than one waiter in a round"
                if n.count("unlock") != n.count("lock"):
                    yield "the buffer's mutex is not released"
                if not po:
                    if {"front", "back", "inc", "dec", "put", "take"} & set(n):
                        yield "moves an element although no waiter was taken"
                    if "resume" in n:
                        yield "resumes a waiter it did not take"
                    r = room(ctx, seq, ev, kind)
                    hd = [x for x in seq if x[0] == "head" and x[3] == opc]
                    if r is not False and not (hd and truth(ctx.E, hd[-1][1], ev.facts) is False):
                        yield "stops although a waiter could proceed"
                    return
                if po[0][3] != opc:
                    yield "takes a waiter of the wrong side"
                if room(ctx, seq[:n.index("pop")], ev, kind) is not True:
                    yield "takes a waiter although %s" % ("there may be no room" if kind == "put" else "there may be no element")
                yield from moved(seq, kind)
                m = [x for x in seq if x[0] == kind]
                if m and m[0][2] is not None and m[0][2] != po[0][1]:
                    yield "the element of another operation is moved"
                re = [x[1] for x in seq if x[0] == "resume"]
                if re != [po[0][1]]:
                    yield "the waiter that was served is not resumed exactly once"
                elif n.index("resume") < n.index("unlock"):
                    yield "resumes the waiter before releasing the mutex"

            def cl(ev, seq, held, known):
                if count(seq, "resume") and ev.k in ("load", "store", "atomic", "call") and ev.a:
                    w = [x[1] for x in seq if x[0] == "resume"][0]
                    if w != ANY and any(isinstance(a, tuple) and len(a) > 1 and a[1] == w for a in ev.a[:2]):
                        raise Violation("the waiter is touched after it was resumed", ev)
                r = cc(ev, seq, held)
                if r == ("lock",) and seq:
                    for m in round_(seq, with_facts(ev, known)):
                        raise Violation(m, ev)
                    if "pop" not in names(seq):
                        raise Violation("tries again although nobody can proceed", ev)
                    return [("$reset",), r]
                if r and r[0] in ("await", "value"):
                    return None
                return r

            def final(seq, ev):
                if ev.q == "unwind" or "lock" not in names(seq):
                    return
                yield from round_(seq, ev)
                if "pop" in names(seq):
                    yield "stops after one waiter although another could proceed"
            ctx.paths(f, cl, final, "one slot, one waiter, again", cap=3, skip_exc=True)


def quiet(cc, drop=("resume", "suspend", "value")):
    """the classifier without the letters a walk produces over and over"""
    def c(ev, seq, held):
        r = cc(ev, seq, held)
        return None if r and r[0] in drop else r
    return c


def walks(ctx, q, side, res, what):
    """every detached waiter of a side is resumed once with the given result"""
    for f in ctx.fns(q):
        ctx.ob("%s: walk of %s" % (f.get("dem") or f["q"], short(side)))

        def take(ev):
            if ev.k == "atomic" and F(ev) == {PO: PW, CO: CW}[side] and ev.q == "xchg" and ev.a[1] == ZERO:
                return ev.r
            r = listop(ctx, ev, {PO: PW, CO: CW}[side], side + "::m_next")
            return r[1] if r and r[0] == "popall" else None

        class W(WalkMon):
            def step(self, st, ev):
                if ev.k == "resume":
                    o, m = handle_of(ev.a[0])
                    if m == side + "::m_awaiting_coroutine":
                        if o is not None and not contains(o, ANY) and ev.mem.get(addr(loc_of(o), (side + "::m_result",))) != ("c", res):
                            raise Violation("a waiter that got nothing is resumed without being told %s" % what, ev)
                    else:
                        return st
                return WalkMon.step(self, st, ev)
        ctx.monitor(f, W(ctx, take, side + "::m_next", side + "::m_awaiting_coroutine"))


@rule("C06.notify", "C06 C23 C24", "notify takes all waiters of its side under the mutex and resumes each once with the result 'notified'")
def r_notify(ctx):
    st, pr, co = consts(ctx)
    for q, side, res in ((R + "::notify_producers", PO, pr["notified"]), (R + "::notify_consumers", CO, co["notified"])):
        for f in ctx.fns(q):
            cc = quiet(classify(ctx))

            def final(seq, ev):
                n = names(seq)
                if ev.q == "unwind":
                    return
                if {"front", "back", "inc", "dec", "put", "take", "push", "setstate", "pop"} & set(n):
                    yield "does something other than waking the waiters"
                if n.count("lock") != n.count("unlock"):
                    yield "the buffer's mutex is not released"
                if "popall" in n:
                    if any(x[3] != side for x in seq if x[0] == "popall"):
                        yield "wakes the wrong side"
                elif "lock" in n or "state" in n:
                    if state_is(ctx, seq, ev, st[2], False) is not True and \
                            not any(x[0] == "head" and x[3] == side and truth(ctx.E, x[1], ev.facts) is False for x in seq):
                        yield "returns without waking the waiters although the buffer was not seen stopped"
            ctx.paths(f, cc, final, "wake one side", cap=2, skip_exc=True)
        walks(ctx, q, side, res, "'notified'")


@rule("C06.shutdown", "C06 C23", "shutdown sets the state under the mutex, then takes both sides' waiters and resumes each with 'stopped'; it gives up only when already stopped")
def r_shutdown(ctx):
    st, pr, co = consts(ctx)
    for f in ctx.fns(R + "::shutdown"):
        cc = quiet(classify(ctx))

        def final(seq, ev):
            n = names(seq)
            if ev.q == "unwind" or not ("lock" in n or "state" in n):
                return
            if {"front", "back", "inc", "dec", "put", "take", "push", "pop"} & set(n):
                yield "does something other than stopping the buffer"
            if n.count("lock") != n.count("unlock"):
                yield "the buffer's mutex is not released"
            if "setstate" in n:
                k = n.index("setstate")
                s = seq[k]
                if s[2] != ("c", st[2]):
                    yield "the state is set to something other than stopped"
                already = s[1] is not None and eq_fact(ctx.E, ev.facts, s[1], ("c", st[2])) is True
                for side in (PO, CO):
                    if not already and not any(x[0] == "popall" and x[3] == side or x[0] == "head" and x[3] == side and truth(ctx.E, x[1], ev.facts) is False
                                               for x in seq[k:]):
                        yield "waiting %s are not taken after the state was set" % ("producers" if side == PO else "consumers")
            elif state_is(ctx, seq, ev, st[2], False) is not True and \
                    not any(x[0] == "state" and eq_fact(ctx.E, ev.facts, x[1], ("c", st[2])) is True for x in seq):
                yield "returns without stopping the buffer although it was not seen stopped"
        ctx.paths(f, cc, final, "set, take all, wake all", cap=3, skip_exc=True)
    walks(ctx, R + "::shutdown", PO, pr["stopped"], "'stopped'")
    walks(ctx, R + "::shutdown", CO, co["stopped"], "'stopped'")


@rule("C06.drain", "C06 C23", "shutdown_drain refuses producers first, wakes waiting ones with 'stopped', waits until empty and then shuts down")
def r_drain(ctx):
    st, pr, co = consts(ctx)
    for f in ctx.fns(R + "::shutdown_drain"):
        cc = classify(ctx)

        def cl(ev, seq, held):
            r = quiet(cc)(ev, seq, held)
            if ev.k == "throw":
                return ("throw",)      # the executor refuses to yield: the caller gets its exception
            if r and r[0] in ("used", "state") and any(x[0] == "setstate" for x in seq):
                return (r[0] + "2",) + r[1:]
            return r

        def final(seq, ev):
            n = names(seq)
            if ev.q == "unwind" or "lock" not in n or "throw" in n:
                return
            if {"front", "back", "inc", "dec", "put", "take", "push", "pop"} & set(n):
                yield "does something other than draining the buffer"
            if n.count("lock") != n.count("unlock"):
                yield "the buffer's mutex is not released"
            if "setstate" in n:
                k = n.index("setstate")
                if seq[k][1] != ("c", st[0]) and eq_fact(ctx.E, ev.facts, seq[k][1], ("c", st[0])) is not True or seq[k][2] != ("c", st[1]):
                    yield "drains from a state other than running, or into one other than draining"
                if not any(x[0] == "popall" and x[3] == PO or x[0] == "head" and x[3] == PO and truth(ctx.E, x[1], ev.facts) is False for x in seq[k:]):
                    yield "waiting producers are not taken although nothing may be produced any more"
                u = [x for x in seq if x[0] == "used2"]
                s = [x for x in seq if x[0] == "state2"]
                empty = u and eq_fact(ctx.E, ev.facts, u[-1][1], ZERO) is True
                left = s and eq_fact(ctx.E, ev.facts, s[-1][1], ("c", st[1])) is False
                if not empty and not left:
                    yield "stops waiting although elements are left"
                cs = [x for x in seq if x[0] == "corocall"]
                if len(cs) != 1 or cs[0][1] != R + "::shutdown" or "await" not in n[n.index("corocall"):]:
                    yield "does not shut the buffer down after it was drained"
                elif u and n.index("corocall") < max(i for i, x in enumerate(n) if x == "used2"):
                    yield "shuts the buffer down before it was drained"
            elif eq_fact(ctx.E, ev.facts, ([x[1] for x in seq if x[0] == "state"] or [ZERO])[-1], ("c", st[0])) is not False:
                yield "returns without draining although the buffer may be running"
        ctx.paths(f, cl, final, "refuse, wake, wait, stop", cap=2, skip_exc=True)
    walks(ctx, R + "::shutdown_drain", PO, pr["stopped"], "'stopped'")


@rule("C06.state", "C06", "a new buffer is empty and running; its state is used nowhere else; destroying it shuts it down")
def r_state(ctx):
    st, pr, co = consts(ctx)
    for f in ctx.fns(R + "::$ctor", lambda f: f.get("sm") in ("ctor", "defctor", None) or True):
        def final(seq, ev):
            for m in (FRONT, BACK, USED, PW, CW):
                if ev.mem.get(this(m)) != ZERO:
                    yield "a new buffer does not start empty (%s)" % short(m)
            if ev.mem.get(this(ST)) != ("c", st[0]):
                yield "a new buffer does not start running"
        ctx.paths(f, lambda e, s: None, final, "initial state")
    for f in ctx.fns(R + "::$dtor"):
        def cl2(ev, seq):
            if ev.k in ("call", "corocall", "enter") and ev.q == R + "::shutdown":
                return ("shutdown",)
            if ev.k in ("call", "enter") and ev.q == "coro::sync_wait":
                return ("wait",)

        def final2(seq, ev):
            if ev.q == "ret" and names(seq)[:2] != ["shutdown", "wait"]:
                yield "the destructor does not shut down and wake the waiters"
        ctx.paths(f, cl2, final2, "destructor shuts down", opaque=DEFAULT_OPAQUE | {"coro::sync_wait"})
    checked = {R + "::" + x for x in ("produce", "consume", "try_resume_producers", "try_resume_consumers", "notify_producers", "notify_consumers",
                                      "shutdown", "shutdown_drain", "$ctor", "$dtor")}
    n = 0
    for f in list(ctx.P.fns.values()):
        if touching(f, MEMBERS) and f["q"] not in checked and not f["q"].startswith((PO, CO)):
            n += 1
            ctx.ob("uses in %s" % f["dem"])
            cc = classify(ctx)
            # helpers entered from the checked operations with the mutex held only read or are judged there; a public one must be clean by itself
            if f.get("acc") == "private" or not f["q"].startswith(R):
                continue
            ctx.monitor(f, SeqMon(lambda ev, seq, held, cc=cc: cc(ev, seq, held), lambda s, e: (), 3))
    for f in ctx.fns(PO + "::$ctor"):
        def final3(seq, ev):
            if ev.mem.get(this(PO + "::m_result")) != ("c", pr["produced"]):
                yield "an operation whose element was transferred would not report 'produced'"
        ctx.paths(f, lambda e, s: None, final3, "default result")
    for f in ctx.fns(CO + "::$ctor"):
        def final4(seq, ev):
            if ev.mem.get(this(CO + "::m_result")) is None:
                yield "the default result is not set"
        ctx.paths(f, lambda e, s: None, final4, "default result")

"""C07: queue."""
from .base import *
from .c06_ring import enum, quiet

Q = "coro::queue"
MX, EL, WT, ST = (Q + "::" + x for x in ("m_mutex", "m_elements", "m_waiters", "m_running_state"))
AW = Q + "::awaiter"
NXT, HND, ELM = AW + "::m_next", AW + "::m_awaiting_coroutine", AW + "::m_element"
MEMBERS = {EL, WT, ST}


def held_mx(held):
    return any(F(l) == MX for l in held)


def owner(l):
    if isinstance(l, tuple) and l and l[0] == "addr" and ELM in l[2]:
        p = l[2][:l[2].index(ELM)]
        return ("addr", l[1], p) if p else l[1]
    return None


def classify(ctx):
    E = ctx.E

    def guard(ev, held, what):
        if not held_mx(held):
            raise Violation("%s without the queue's mutex" % what, ev)

    def c(ev, seq, held):
        if ev.k == "lock" and F(ev) == MX:
            if held_mx(held):
                raise Violation("locks the queue's mutex twice", ev)
            return ("lock",)
        if ev.k == "unlock" and F(ev) == MX:
            if not held_mx(held):
                raise Violation("unlocks the queue's mutex without holding it", ev)
            for x in seq:
                if x[0] == "push":
                    o = loc_of(x[1])
                    if ev.mem.get(addr(o, (NXT,))) != x[2]:
                        raise Violation("a consumer is queued without linking the consumers already queued", ev)
                    h = ev.mem.get(addr(o, (HND,)))
                    if h is None or h == ZERO:
                        raise Violation("a consumer is queued without its coroutine handle", ev)
            return ("unlock",)
        f = F(ev)
        if ev.k == "atomic" and f == ST and ev.q != "init":
            if ev.q == "load" or ev.q == "cas" and not ev.x[0]:
                return ("state", ev.r, held_mx(held))
            guard(ev, held, "the running state is changed")
            if ev.q == "cas":
                return ("setstate", ev.a[1], ev.a[2])
            return ("setstate", ev.r if ev.q == "xchg" else None, ev.a[1])
        if ev.k == "load" and f == WT:
            guard(ev, held, "the list of waiting consumers is read")
            return ("head", ev.r)
        if ev.k == "store" and f == WT:
            guard(ev, held, "the list of waiting consumers is changed")
            v = ev.a[1]
            hd = [x[1] for x in seq if x[0] == "head"]
            if eq_fact(E, ev.facts, v, ZERO) is True:
                if not hd:
                    raise Violation("the list of waiting consumers is emptied without taking them", ev)
                return ("popall", hd[-1])
            if v[0] == "ld" and v[1][2] and v[1][2][-1] == NXT:
                o = v[1]
                o = ("addr", o[1], o[2][:-1]) if len(o[2]) > 1 else o[1]
                if not hd or o != hd[-1]:
                    raise Violation("an element other than the head is unlinked from the list of waiting consumers", ev)
                return ("pop", o)
            return ("push", v, hd[-1] if hd else None)
        if ev.k == "call" and ev.a and f == EL:
            n = short(ev.q)
            if n.startswith("$"):
                return None
            guard(ev, held, "the stored elements are %s" % ("read" if n in ("size", "empty", "front") else "changed"))
            if n in ("push", "emplace"):
                return ("store", ev.a[1] if len(ev.a) > 1 else None) if ev.x != "throws" else None
            if n == "front":
                return ("front", ev.r)
            if n == "pop":
                return ("popfront",)
            if n in ("size", "empty"):
                return ("size", ev.r, n)
            raise Violation("the stored elements are accessed through %s: not first-in first-out" % n, ev)
        if ev.k == "call" and ev.a and owner(ev.a[0]) is not None and ("operator=" in ev.q or "emplace" in ev.q) and ev.x != "throws":
            return ("give", owner(ev.a[0]), ev.a[1] if len(ev.a) > 1 else None, held_mx(held))
        if ev.k == "resume":
            if held_mx(held):
                raise Violation("a consumer is resumed while the queue's mutex is held", ev)
            o, m = handle_of(ev.a[0])
            return ("resume", o if m == HND else ev.a[0])
        if ev.k == "suspend":
            return ("suspend",) if seq else None
        if ev.k == "throw":
            return ("throw",)
        if ev.k == "corocall" and ev.q.startswith(Q + "::"):
            if held_mx(held):
                raise Violation("calls %s while holding the queue's mutex" % short(ev.q), ev)
            return ("corocall", ev.q)
        if ev.k == "await":
            return ("await",)
        v = coreturn(ev)
        if v is not None:
            return ("value", v)
        return None
    return c


def empty(ctx, seq, ev):
    s = [x for x in seq if x[0] == "size"]
    if not s:
        return None
    t = eq_fact(ctx.E, ev.facts, s[-1][1], ZERO)
    if t is None:
        return None
    return t if s[-1][2] == "size" else not t


def state_is(ctx, seq, ev, val, locked=True):
    s = [x for x in seq if x[0] == "state" and (x[2] or not locked)]
    return eq_fact(ctx.E, ev.facts, s[-1][1], ("c", val)) if s else None


def consts(ctx):
    st = enum(ctx, Q + "::running_state_t", ("running", "draining", "stopped"))
    pr = enum(ctx, "coro::queue_produce_result", ("produced", "stopped"))
    co = enum(ctx, "coro::queue_consume_result", ("stopped", "try_lock_failure", "empty"))
    return st, pr, co


@rule("C07.push", "C07 C23 C24", "push and emplace hand the element to exactly one waiting consumer, or store it when none waits, or refuse it when not running")
def r_push(ctx):
    st, pr, co = consts(ctx)
    for f in ctx.fns(Q + "::push") + ctx.fns(Q + "::emplace"):
        cc = classify(ctx)

        def cl(ev, seq, held):
            if count(seq, "resume") and ev.k in ("load", "store", "call") and ev.a:
                w = [x[1] for x in seq if x[0] == "resume"][0]
                if w != ANY and any(isinstance(a, tuple) and len(a) > 1 and a[1] == w for a in ev.a[:2]):
                    raise Violation("the consumer is touched after it was resumed", ev)
            return cc(ev, seq, held)

        def final(seq, ev):
            n = names(seq)
            if "lock" not in n:
                return
            if n.count("lock") != 1 or n.count("unlock") != 1:
                yield "the queue's mutex is not locked and unlocked exactly once"
                return
            if {"popall", "push", "front", "popfront", "setstate", "suspend"} & set(n):
                yield "does something other than handing over or storing one element"
            po = [x for x in seq if x[0] == "pop"]
            re = [x[1] for x in seq if x[0] == "resume"]
            if "throw" in n[n.index("lock"):]:
                if po and re != [po[0][1]]:
                    yield "when transferring the element throws, the consumer taken from the list is never resumed"
                return
            run = state_is(ctx, seq, ev, st["running"])
            v = [x[1] for x in seq if x[0] == "value"]
            gi, sto = [x for x in seq if x[0] == "give"], n.count("store")
            if len(po) + sto > 1 or len(gi) > 1:
                yield "the element is handed out or stored more than once"
            if po or sto:
                if run is not True:
                    yield "an element is accepted although the queue may be shut down"
                if not v or v[-1] != ("c", pr["produced"]):
                    yield "an accepted element is not reported as produced"
            else:
                if gi:
                    yield "an element is given to a consumer that stays in the list"
                if run is not False:
                    yield "the element is dropped although the queue may be running"
                if not v or v[-1] != ("c", pr["stopped"]):
                    yield "a refused element is not reported as refused"
            if po:
                if len(gi) != 1 or gi[0][1] != po[0][1]:
                    yield "the consumer taken from the list is not given the element"
                elif gi[0][2] is not None and not (gi[0][2][0] in ("arg",) or contains(gi[0][2], "element") or contains(gi[0][2], "args") or root_kind(loc_of(gi[0][2])) in ("arg", "alloca")):
                    yield "the consumer is given something other than the pushed element"
                if re != [po[0][1]]:
                    yield "the consumer taken from the list is not resumed exactly once"
                else:
                    if n.index("resume") < n.index("unlock"):
                        yield "resumes the consumer before releasing the mutex"
                    if "give" in n and n.index("give") > n.index("resume"):
                        yield "resumes the consumer before it was given the element"
                if eq_fact(ctx.E, ev.facts, po[0][1], ZERO) is not False:
                    yield "takes a consumer although none may be waiting"
            elif re:
                yield "resumes a consumer it did not take from the list"
            if sto:
                h = [x[1] for x in seq if x[0] == "head"]
                if not h or eq_fact(ctx.E, ev.facts, h[-1], ZERO) is not True:
                    yield "the element is stored although a consumer may be waiting"
        ctx.paths(f, cl, final, "hand over xor store xor refuse", cap=2, skip_exc=True)
        ctx.paths(f, cl, final, "the same when transferring the element throws", cap=2, skip_exc=True,
                  throws=lambda q, d: q.startswith(("std::optional::", "std::queue::", "std::deque::")))


@rule("C07.pop", "C07 C23 C24", "pop takes the oldest element, or sees the stop, or waits queued after seeing the queue empty, all under the mutex")
def r_pop(ctx):
    st, pr, co = consts(ctx)
    for f in ctx.fns(Q + "::pop"):
        cc = classify(ctx)

        def cl(ev, seq, held):
            if count(seq, "push") and count(seq, "unlock") and not count(seq, "suspend") and ev.k in ("load", "store", "atomic") and ev.a:
                if ev.a[0][1] == loc_of([x[1] for x in seq if x[0] == "push"][0])[1]:
                    raise Violation("the operation is touched after it was queued and the mutex released", ev)
            return cc(ev, seq, held)

        def final(seq, ev):
            n = names(seq)
            if ev.q == "unwind" or "lock" not in n:
                return
            if n.count("lock") != 1 or n.count("unlock") != 1:
                yield "the queue's mutex is not locked and unlocked exactly once"
                return
            if {"popall", "pop", "store", "setstate", "resume"} & set(n):
                yield "does something other than taking one element or waiting"
            k = n.index("unlock")
            run = state_is(ctx, seq, ev, st["stopped"])
            e = empty(ctx, seq, ev)
            if "popfront" in n or "front" in n or "give" in n:
                if n.count("popfront") != 1 or n.count("front") != 1 or n.count("give") != 1 or not n.index("front") < n.index("give") < n.index("popfront") < k:
                    yield "the oldest element is not moved out and removed exactly once under the mutex"
                elif seq[n.index("give")][2] != seq[n.index("front")][1] and not contains(seq[n.index("give")][2], seq[n.index("front")][1]):
                    yield "the consumer is given something other than the oldest element"
                if e is not False:
                    yield "an element is taken although the queue may be empty"
                if run is not False:
                    yield "an element is taken although the queue may be stopped"
                if "push" in n or "suspend" in n:
                    yield "waits although it took an element"
            elif "push" in n:
                if run is not False:
                    yield "goes to sleep although the queue may be stopped"
                if e is not True:
                    yield "goes to sleep without having seen under the mutex that the queue is empty"
                if "suspend" not in n[n.index("push"):] or k < n.index("push"):
                    yield "is queued but does not suspend, or is queued after the mutex was released"
            else:
                if "suspend" in n:
                    yield "suspends without being queued: nobody would resume it"
                if run is not True:
                    yield "completes without an element although the queue was not seen stopped"
        ctx.paths(f, cl, final, "take xor stopped xor wait", cap=2, skip_exc=True)
    for f in ctx.fns(AW + "::await_resume"):
        def cl2(ev, seq):
            if ev.k == "br" and ev.x and ev.x[0][0] == "eq" and contains(ev.x[0][1], "$has") and ev.x[0][2] == ZERO:
                return ("has", ev.x[1])
            if ev.k == "call" and ev.q.endswith("::unexpected::$ctor"):
                return ("reason", ev.mem.get(loc_of(ev.a[1]), ANY))
            if ev.k == "call" and ev.q.endswith("::expected::$ctor") and any(owner(a) is not None for a in ev.a[1:]):
                return ("element",)

        def final2(seq, ev):
            n = names(seq)
            has = [x[1] for x in seq if x[0] == "has"]
            if ev.q != "ret":
                return
            if "element" not in n and "reason" not in n:
                yield "the result is neither the element nor the reason why there is none"
            elif has and ("element" in n) == has[-1]:
                yield "an element that was transferred is dropped, or an absent one is returned"
            for x in seq:
                if x[0] == "reason" and x[1] != ("c", co["stopped"]):
                    yield "a consumer without an element is not told that the queue stopped"
        ctx.paths(f, cl2, final2, "element iff transferred")


@rule("C07.trypop", "C07 C23", "try_pop takes the oldest element under the mutex, or names the true reason why it did not")
def r_trypop(ctx):
    st, pr, co = consts(ctx)
    for f in ctx.fns(Q + "::try_pop"):
        cc = classify(ctx)

        def cl(ev, seq, held):
            if ev.k == "call" and ev.q.endswith("::unexpected::$ctor"):
                return ("reason", ev.mem.get(loc_of(ev.a[1]), ANY) if len(ev.a) > 1 else ANY)
            if ev.k == "call" and ("expected::operator=" in ev.q or ev.q.endswith("::expected::$ctor")) and len(ev.a) > 1 and \
                    any(x[0] == "front" and (ev.a[1] == x[1] or contains(ev.a[1], x[1])) for x in seq):
                return ("give",)
            return cc(ev, seq, held)

        def final(seq, ev):
            n = names(seq)
            if ev.q != "ret":
                return
            if n.count("lock") != n.count("unlock"):
                yield "the queue's mutex is not released"
            if {"popall", "pop", "push", "store", "setstate", "resume", "suspend"} & set(n):
                yield "does something other than taking one element"
            rs = [x[1] for x in seq if x[0] == "reason"]
            if "lock" not in n:
                if rs != [("c", co["try_lock_failure"])]:
                    yield "a failed lock is not reported as such"
                return
            stp, e = state_is(ctx, seq, ev, st["stopped"]), empty(ctx, seq, ev)
            if "popfront" in n or "front" in n:
                if not (n.count("front") == n.count("popfront") == n.count("give") == 1 and n.index("front") < n.index("give") < n.index("popfront") < n.index("unlock")):
                    yield "the oldest element is not moved out and removed exactly once under the mutex"
                if e is not False:
                    yield "an element is taken although the queue may be empty"
                if stp is not False:
                    yield "an element is taken although the queue may be stopped"
                if rs:
                    yield "an element was taken but a reason for failure is returned"
            elif rs == [("c", co["stopped"])]:
                if stp is not True:
                    yield "reports stopped although the queue was not seen stopped"
            elif rs == [("c", co["empty"])]:
                if e is not True or stp is not False:
                    yield "reports empty although the queue was not seen running and empty"
            else:
                yield "neither an element nor the true reason is returned"
        ctx.paths(f, cl, final, "element xor reason", cap=2)


def walk(ctx, q):
    for f in ctx.fns(q):
        ctx.ob("%s: walk of the waiting consumers" % (f.get("dem") or f["q"]))
        last = {}

        class W(WalkMon):
            def step(self, st, ev):
                # the head read most recently is what an assignment of nullptr detaches
                hd, inner = st if len(st) == 2 else (None, st)
                if ev.k == "load" and F(ev) == WT:
                    hd = ev.r
                if ev.k == "unlock" and F(ev) == MX:
                    pass
                self.take = lambda e: hd if e.k == "store" and F(e) == WT and e.a[1] == ZERO else None
                return (hd, WalkMon.step(self, inner, ev))
            init = (None, WalkMon.init)
        w = W(ctx, None, NXT, HND)
        base_init = WalkMon.init
        w.init = (None, base_init)
        ctx.monitor(f, w)


@rule("C07.shutdown", "C07 C23", "shutdown sets the state under the mutex, takes every waiting consumer and resumes each once; it gives up only when already stopped")
def r_shutdown(ctx):
    st, pr, co = consts(ctx)
    for f in ctx.fns(Q + "::shutdown"):
        cc = quiet(classify(ctx))

        def final(seq, ev):
            n = names(seq)
            if ev.q == "unwind" or not ("lock" in n or "state" in n):
                return
            if {"pop", "push", "store", "front", "popfront", "give"} & set(n):
                yield "does something other than stopping the queue"
            if n.count("lock") != n.count("unlock"):
                yield "the queue's mutex is not released"
            if "setstate" in n:
                k = n.index("setstate")
                s = seq[k]
                if s[2] != ("c", st["stopped"]):
                    yield "the state is set to something other than stopped"
                already = s[1] is not None and eq_fact(ctx.E, ev.facts, s[1], ("c", st["stopped"])) is True
                if not already and not any(x[0] == "popall" or x[0] == "head" and eq_fact(ctx.E, ev.facts, x[1], ZERO) is True for x in seq[k:]):
                    yield "waiting consumers are not taken after the state was set"
            elif not any(x[0] == "state" and eq_fact(ctx.E, ev.facts, x[1], ("c", st["stopped"])) is True for x in seq):
                yield "returns without stopping the queue although it was not seen stopped"
        ctx.paths(f, cc, final, "set, take all, wake all", cap=3, skip_exc=True)
    walk(ctx, Q + "::shutdown")
    for f in ctx.fns(Q + "::$dtor"):
        def cl2(ev, seq):
            if ev.k in ("call", "corocall", "enter") and ev.q == Q + "::shutdown":
                return ("shutdown",)
            if ev.k in ("call", "enter") and ev.q == "coro::sync_wait":
                return ("wait",)

        def final2(seq, ev):
            if ev.q == "ret" and names(seq)[:2] != ["shutdown", "wait"]:
                yield "the destructor does not shut down and wake the waiters"
        ctx.paths(f, cl2, final2, "destructor shuts down", opaque=DEFAULT_OPAQUE | {"coro::sync_wait"})


@rule("C07.drain", "C07", "shutdown_drain refuses producers first, waits until the queue is empty and then shuts down")
def r_drain(ctx):
    st, pr, co = consts(ctx)
    for f in ctx.fns(Q + "::shutdown_drain"):
        def cl(ev, seq, held):
            if ev.k == "lock" and F(ev) == MX:
                return ("lock",)
            if ev.k == "unlock" and F(ev) == MX:
                return ("unlock",)
            if ev.k == "throw":
                return ("throw",)
            if ev.k == "call" and F(ev) == EL and short(ev.q) in ("size", "empty"):
                return ("size", ev.r, short(ev.q)) if count(seq, "setstate") else None
            if ev.k == "corocall" and ev.q.startswith(Q + "::"):
                return ("corocall", ev.q)
            if ev.k == "await":
                return ("await",)
            if ev.k == "atomic" and F(ev) == ST and ev.q != "init":
                if ev.q == "load" or ev.q == "cas" and not ev.x[0]:
                    return ("state2" if count(seq, "setstate") else "state", ev.r, held_mx(held))
                if not held_mx(held):
                    raise Violation("the running state is changed without the queue's mutex", ev)
                return ("setstate", ev.a[1] if ev.q == "cas" else None, ev.a[2] if ev.q == "cas" else ev.a[1])

        def final(seq, ev):
            n = names(seq)
            if ev.q == "unwind" or "lock" not in n or "throw" in n:
                return
            if n.count("lock") != n.count("unlock"):
                yield "the queue's mutex is not released"
            if "setstate" in n:
                s = seq[n.index("setstate")]
                if s[2] != ("c", st["draining"]) or s[1] is None or s[1] != ("c", st["running"]) and eq_fact(ctx.E, ev.facts, s[1], ("c", st["running"])) is not True:
                    yield "drains from a state other than running, or into one other than draining"
                e = empty(ctx, seq, ev)
                s2 = [x for x in seq if x[0] == "state2"]
                left = s2 and eq_fact(ctx.E, ev.facts, s2[-1][1], ("c", st["draining"])) is False
                if e is not True and not left:
                    yield "stops waiting although elements are left"
                cs = [x for x in seq if x[0] == "corocall"]
                if len(cs) != 1 or cs[0][1] != Q + "::shutdown" or "await" not in n[n.index("corocall"):]:
                    yield "does not shut the queue down after it was drained"
            elif eq_fact(ctx.E, ev.facts, ([x[1] for x in seq if x[0] == "state"] or [ZERO])[-1], ("c", st["running"])) is not False:
                yield "returns without draining although the queue may be running"
        ctx.paths(f, cl, final, "refuse, wait, stop", cap=2, skip_exc=True)


@rule("C07.state", "C07 C23", "the queue's elements, waiting consumers and state are touched only under its mutex")
def r_state(ctx):
    n = 0
    for f in list(ctx.P.fns.values()):
        if not touching(f, MEMBERS) or f["q"].startswith(AW) or f["q"].endswith(("::$ctor", "::$dtor")):
            continue
        n += 1
        ctx.ob("uses in %s" % f["dem"])
        cc = quiet(classify(ctx), ("resume", "suspend", "value", "state", "setstate", "head", "size", "await"))
        ctx.monitor(f, SeqMon(lambda ev, seq, held, cc=cc: cc(ev, seq, held) if F(ev) in (EL,) or ev.k in ("lock", "unlock") else None, lambda s, e: (), 2))
    if n < 5:
        raise AnalysisError("queue state is used nowhere")

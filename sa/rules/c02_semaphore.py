"""C02: semaphore."""
from .base import *

S = "coro::semaphore"
CNT, WL, MX, SHD = S + "::m_counter", S + "::m_acquire_waiters", S + "::m_mutex", S + "::m_shutdown"
OP = "coro::detail::acquire_operation"
NXT, HND = OP + "::m_next", OP + "::m_awaiting_coroutine"


def held_sem(held):
    return any(F(l) == MX for l in held)


def classify(ctx):
    E = ctx.E

    def c(ev, seq, held):
        if ev.k == "lock" and F(ev) == MX:
            if held_sem(held):
                raise Violation("locks the semaphore's mutex twice", ev)
            return ("lock",)
        if ev.k == "unlock" and F(ev) == MX:
            if not held_sem(held):
                raise Violation("unlocks the semaphore's mutex without holding it", ev)
            return ("unlock",)
        if ev.k == "atomic" and F(ev) == CNT and ev.q not in ("init",):
            l = ev.a[0]
            if ev.q == "load":
                return ("value", ev.r, held_sem(held))
            if ev.q == "cas":
                if not ev.x[0]:
                    return ("value", ev.r, held_sem(held))
                exp, des = ev.a[1], ev.a[2]
                if des != E.arith(None, "add", exp, ("c", -1), None):
                    raise Violation("the permit count is changed by something other than one", ev)
                if truth(E, ("op", "slt", ZERO, exp), ev.facts) is not True:
                    raise Violation("a permit is taken although the count is not known to be positive", ev)
                if ev.x[1] not in ACQ:
                    raise Violation("taking a permit has no acquire ordering", ev)
                return ("take",)
            if ev.q == "add" and ev.a[1] == ONE:
                if ev.x not in REL:
                    raise Violation("giving back a permit has no release ordering", ev)
                if not held_sem(held):
                    raise Violation("the permit count is raised without the semaphore's mutex", ev)
                return ("give",)
            raise Violation("the permit count is changed by something other than taking or giving one permit", ev)
        if ev.k == "atomic" and F(ev) == SHD and ev.q != "init":
            if ev.q == "load" or ev.q == "cas" and not ev.x[0]:
                if ev.q == "load" and ev.x not in ACQ:
                    raise Violation("the shutdown flag is read without acquire ordering", ev)
                return ("shut", ev.r, held_sem(held))
            new = ev.a[2] if ev.q == "cas" else ev.a[1]
            if new != ONE:
                raise Violation("the shutdown flag is set back", ev)
            if (ev.x[1] if ev.q == "cas" else ev.x) not in REL:
                raise Violation("the shutdown flag is set without release ordering", ev)
            return ("setshut", ev.a[1] if ev.q == "cas" else None, held_sem(held))
        r = listop(ctx, ev, WL, NXT)
        if r:
            if r[0] == "bad":
                raise Violation(r[1], ev)
            if not held_sem(held):
                raise Violation("the list of waiting acquirers is changed without the semaphore's mutex", ev)
            if r[0] == "push" and r[3] not in REL or r[0] != "push" and r[2] not in ACQ:
                raise Violation("waiter list operation without the needed ordering", ev)
            if r[0] == "push":
                o = loc_of(r[1])
                if ev.mem.get(addr(o, (NXT,))) != r[2]:
                    raise Violation("the waiter is queued without linking the waiters already queued", ev)
                h = ev.mem.get(addr(o, (HND,)))
                if h is None or h == ZERO or not (h[0] in ("frame", "arg") or contains(h, ("arg", "awaiting_coroutine"))):
                    raise Violation("the waiter is queued before its coroutine handle is stored", ev)
            return (r[0], r[1])
        if ev.k == "atomic" and F(ev) == WL and ev.q == "load":
            return ("head", ev.r, held_sem(held))
        if ev.k == "atomic" and F(ev) == WL and ev.q == "cas":
            return ("head", ev.r, held_sem(held))
        if ev.k == "resume":
            o, m = handle_of(ev.a[0])
            if held_sem(held):
                raise Violation("a waiter is resumed while the semaphore's mutex is held", ev)
            return ("resume", o if m == HND else ev.a[0])
        if ev.k == "suspend":
            return ("suspend",) if seq else None
        if ev.k == "throw":
            return ("throw",)
        return None
    return c


def result_value(ctx, ev):
    """enumerator returned by a coroutine or function: the value stored into the promise, or the returned register"""
    return ev.r


@rule("C02.acquire", "C02 C24", "acquire takes one permit, or sees shutdown, or is queued under the mutex after seeing that no permit is free")
def r_acquire(ctx):
    for f in ctx.fns(S + "::acquire"):
        cc = classify(ctx)

        def cl(ev, seq, held):
            r = cc(ev, seq, held)
            if ev.k == "unlock" and count(seq, "push"):
                return ("unlock",)
            if count(seq, "push") and count(seq, "unlock") and not count(seq, "suspend") and ev.k in ("load", "store", "atomic") and ev.a:
                p = [x[1] for x in seq if x[0] == "push"][0]
                if ev.a[0][1] == p:
                    raise Violation("the operation is touched after it was queued and the mutex released", ev)
            if ev.k == "corocall" and not r:
                return ("corocall", ev.q)
            if (ev.k == "call" and ev.q.endswith("variant::emplace") or ev.k == "enter" and ev.q.endswith("::return_value")) and not count(seq, "res"):
                v = None
                if len(ev.a) > 1:
                    v = ev.mem.get(loc_of(ev.a[1])) if ev.mem else None
                return ("res", v) if ev.k == "call" else None
            return r

        def final(seq, ev):
            if ev.q == "unwind" or count(seq, "throw"):
                return
            n = names(seq)
            if not count(seq, "lock"):
                return    # the part before the first suspension of the lazy coroutine
            if n.count("lock") != 1 or n.count("unlock") != 1:
                yield "the semaphore's mutex is not locked and unlocked exactly once"
            took, push = count(seq, "take"), count(seq, "push")
            if took > 1 or push > 1 or took and push:
                yield "takes more than one permit, or takes one and waits as well"
            if push:
                k = index(seq, "push")
                v = [x for x in seq[:k] if x[0] == "value"]
                sh = [x for x in seq[:k] if x[0] == "shut"]
                if not any(x[2] for x in v):
                    yield "goes to sleep without having seen under the mutex that no permit is free"
                elif truth(ctx.E, ("op", "slt", ZERO, v[-1][1]), ev.facts) is not False:
                    yield "goes to sleep although a permit may be free"
                if not any(x[2] for x in sh):
                    yield "goes to sleep without having checked for shutdown under the mutex"
                elif truth(ctx.E, sh[-1][1] if sh[-1] in seq[:k] else ZERO, ev.facts) is True:
                    yield "goes to sleep although the semaphore was shut down"
                if "suspend" not in n[k:]:
                    yield "is queued but does not suspend"
                if "unlock" in n[:k] or "unlock" not in n[k:]:
                    yield "is queued without holding the mutex"
            elif "suspend" in n:
                yield "suspends without being queued: nobody would resume it"
            elif not took:
                sh = [x for x in seq if x[0] == "shut"]
                if not sh or not any(truth(ctx.E, x[1], ev.facts) is True for x in sh):
                    yield "completes without a permit although the semaphore was not seen shut down"
        ctx.paths(f, cl, final, "take xor shutdown xor queue", cap=3)


@rule("C02.result", "C02", "the result of acquire is shutdown exactly when the semaphore is seen shut down")
def r_result(ctx):
    en = dict(ctx.P.enums.get("coro::semaphore_acquire_result") or [])
    if set(en) != {"acquired", "shutdown"}:
        raise AnalysisError("semaphore_acquire_result changed")
    for f in ctx.fns(OP + "::await_resume"):
        def cl(ev, seq):
            if ev.k == "atomic" and F(ev) == SHD and ev.q == "load":
                return ("shut", ev.r)

        def final(seq, ev):
            r = ev.r
            for val, t in (("shutdown", True), ("acquired", False)):
                pass
            s = [x[1] for x in seq if x[0] == "shut"]
            if not s:
                yield "result does not depend on the shutdown state"
                return
            t = truth(ctx.E, s[-1], ev.facts)
            if r[0] == "op" and r[1] == "select":
                n = ctx.E.norm(r[2])
                want = (("c", en["shutdown"]), ("c", en["acquired"]))
                if n is True or n is False or n[0] != ("eq", s[-1], ZERO):
                    yield "result does not depend on the shutdown state"
                elif (r[3], r[4]) != (want if not n[1] else want[::-1]):
                    yield "shutdown and acquired are mixed up"
                return
            if t is None:
                yield "result does not depend on the shutdown state"
            elif r != ("c", en["shutdown"] if t else en["acquired"]):
                yield "reports %s although the semaphore was seen %s" % ("acquired" if t else "shutdown", "shut down" if t else "running")
        ctx.paths(f, cl, final, "shutdown iff flag")


@rule("C02.release", "C02 C24", "release gives its permit to exactly one waiter or raises the count by one below the maximum, or does nothing at the maximum")
def r_release(ctx):
    for f in ctx.fns(S + "::release"):
        cc = classify(ctx)

        def cl(ev, seq, held):
            if count(seq, "resume") and ev.k in ("load", "store", "atomic") and ev.a:
                w = [x[1] for x in seq if x[0] == "resume"][0]
                if w != ANY and ev.a[0][1] == w:
                    raise Violation("the waiter is touched after it was resumed", ev)
            return cc(ev, seq, held)

        def final(seq, ev):
            if ev.q == "unwind" or not count(seq, "lock"):
                return
            n = names(seq)
            if n.count("lock") != 1 or n.count("unlock") != 1:
                yield "the semaphore's mutex is not locked and unlocked exactly once"
            po, gi, re = n.count("pop"), n.count("give"), n.count("resume")
            if "popall" in n or "push" in n or "take" in n:
                yield "release does something other than giving back one permit"
            full = [x for x in seq if x[0] == "value" and x[2]]
            if po + gi > 1:
                yield "one release gives out more than one permit"
            mx = [truth(ctx.E, ("op", "eq", x[1], ("c", 7)), ev.facts) is True or truth(ctx.E, ("op", "slt", x[1], ("c", 7)), ev.facts) is False for x in full]
            below = [truth(ctx.E, ("op", "eq", x[1], ("c", 7)), ev.facts) is False or truth(ctx.E, ("op", "slt", x[1], ("c", 7)), ev.facts) is True for x in full]
            if po + gi == 0:
                if not any(mx):
                    yield "the permit vanishes: neither handed to a waiter nor counted, below the maximum"
            if gi:
                if not any(below):
                    yield "the count is raised without having been seen below the maximum under the mutex"
                hd = [x for x in seq if x[0] == "head" and x[2]]
                if not hd or truth(ctx.E, hd[-1][1], ev.facts) is not False:
                    yield "the count is raised without having seen that nobody waits"
            if po and re != 1 or not po and re:
                yield "the popped waiter is not resumed exactly once"
            elif po and [x[1] for x in seq if x[0] == "resume"] != [x[1] for x in seq if x[0] == "pop"]:
                yield "resumes something other than the waiter it popped"
            elif po and n.index("unlock") > n.index("resume"):
                yield "resumes the waiter before releasing the mutex"
        ctx.paths(f, cl, final, "hand over xor count xor full")


@rule("C02.shutdown", "C02", "the first shutdown sets the flag under the mutex, takes every waiter and resumes each of them once")
def r_shutdown(ctx):
    for f in ctx.fns(S + "::shutdown"):
        cc = classify(ctx)

        def cl(ev, seq, held):
            r = cc(ev, seq, held)
            if r and r[0] == "setshut" and not r[2]:
                raise Violation("the shutdown flag is set without the semaphore's mutex: an acquirer may go to sleep afterwards", ev)
            return r

        def final(seq, ev):
            n = names(seq)
            if ev.q == "unwind":
                return
            if "lock" not in n:
                if "shut" in n and not any(truth(ctx.E, x[1], ev.facts) is True for x in seq if x[0] == "shut"):
                    yield "returns without shutting down although the semaphore was running"
                return
            if n.count("lock") != n.count("unlock"):
                yield "the semaphore's mutex is not released"
            if "give" in n or "take" in n or "push" in n or "pop" in n and False:
                yield "shutdown changes permits"
            if "setshut" in n:
                k = n.index("setshut")
                if not any(x in ("popall", "head") for x in n[k:]):
                    yield "waiters are not woken by shutdown"
                if "popall" in n[:k]:
                    yield "waiters are taken before the flag is set: a later acquirer would sleep forever"
                if "popall" not in n[k:] and not any(truth(ctx.E, x[1], ev.facts) is False for x in seq[k:] if x[0] == "head"):
                    yield "waiters may remain queued after shutdown"
                if "unlock" in n and "resume" in n and n.index("unlock") > n.index("resume"):
                    yield "resumes waiters before releasing the mutex"
            elif not any(x[0] == "shut" and truth(ctx.E, x[1], ev.facts) is True for x in seq):
                yield "returns without shutting down although the semaphore was running"
        ctx.paths(f, cl, final, "flag then wake all", cap=3)
        ctx.ob("%s: walk" % f["q"])
        ctx.monitor(f, WalkMon(ctx, lambda ev: (listop(ctx, ev, WL, NXT) or (0, None))[1] if (listop(ctx, ev, WL, NXT) or (0,))[0] == "popall" else None,
                               NXT, HND))
    for f in ctx.fns(S + "::$dtor"):
        def cl2(ev, seq):
            if ev.k in ("call", "corocall", "enter") and ev.q == S + "::shutdown":
                return ("shutdown",)
            if ev.k in ("call", "enter") and ev.q == "coro::sync_wait":
                return ("wait",)

        def final2(seq, ev):
            if ev.q == "ret" and names(seq)[:2] != ["shutdown", "wait"]:
                yield "the destructor does not shut down and wake the waiters"
        ctx.paths(f, cl2, final2, "destructor shuts down", opaque=DEFAULT_OPAQUE | {"coro::sync_wait"})


@rule("C02.count", "C02", "try_acquire succeeds exactly when it took one permit; the count starts at the given value; no other code changes it")
def r_count(ctx):
    for f in ctx.fns(S + "::try_acquire"):
        cc = classify(ctx)

        def final(seq, ev):
            t = truth(ctx.E, ev.r, ev.facts)
            n = count(seq, "take")
            if ev.q != "ret":
                return
            if t is None or t != (n == 1) or n > 1:
                yield "reports success without having taken exactly one permit, or failure after taking one"
            elif not t:
                v = [x for x in seq if x[0] == "value"]
                if not v or truth(ctx.E, ("op", "slt", ZERO, v[-1][1]), ev.facts) is not False:
                    yield "reports failure although a permit may be free"
        ctx.paths(f, lambda ev, seq, held: cc(ev, seq, held), final, "success iff one permit taken", cap=3)
    for f in ctx.fns(S + "::$ctor", lambda f: f.get("sm") == "ctor"):
        nm = (f.get("pn") or ["starting_value"])[0]

        def final2(seq, ev):
            if ev.mem.get(this(CNT)) != ("arg", nm):
                yield "the count does not start at the given value"
            if ev.mem.get(this(WL)) != ZERO or ev.mem.get(this(SHD)) != ZERO:
                yield "a new semaphore is not empty and running"
        ctx.paths(f, lambda e, s: None, final2, "initial state")
    n = 0
    for f in list(ctx.P.fns.values()):
        if touching(f, {CNT, WL, SHD}) and not f["q"].endswith(("$ctor", "$dtor")):
            n += 1
            ctx.ob("writes in %s" % f["dem"])
            lk = f["q"].startswith(OP)   # called by acquire with the mutex held; checked there
            if not lk:
                cc = classify(ctx)
                ctx.monitor(f, SeqMon(lambda ev, seq, held, cc=cc: cc(ev, seq, held), lambda s, e: (), 3))
    if n < 5:
        raise AnalysisError("semaphore state is used nowhere")

"""C01: async mutex and its guard."""
from .base import *

MS = "coro::mutex::m_state"
LOB = "coro::detail::lock_operation_base"
HND = LOB + "::m_awaiting_coroutine"
NXT = LOB + "::m_next"


def kind(E, v, l, facts):
    """what a value of mutex::m_state stands for: unlocked / null / waiter / unknown"""
    if eq_fact(E, facts, v, l) is True:
        return "unlocked"
    if eq_fact(E, facts, v, ZERO) is True:
        return "null"
    if eq_fact(E, facts, v, l) is False and eq_fact(E, facts, v, ZERO) is False:
        return "waiter"
    if eq_fact(E, facts, v, l) is False:
        return "held"
    if v == ("arg", "this"):
        return "self"
    return "?"


def transition(ctx, ev):
    """classify an atomic write to mutex::m_state"""
    E = ctx.E
    if ev.k != "atomic" or F(ev) != MS or ev.q in ("load", "init"):
        return None
    l = ev.a[0]
    if ev.q == "cas":
        if not ev.x[0]:
            return None
        exp, des = ev.a[1], ev.a[2]
        so, fo = ev.x[1], ev.x[2]
        fx = ev.facts
    elif ev.q == "xchg":
        exp, des, so, fo, fx = ev.r, ev.a[1], ev.x, ev.x, ev.facts
    elif ev.q == "store":
        exp, des, so, fo, fx = ANY, ev.a[1], ev.x, ev.x, ev.facts
    else:
        return ("bad", "arithmetic on the mutex state")
    k = kind(E, exp, l, fx)
    d = "unlocked" if eq_fact(E, fx, des, l) is True else "null" if eq_fact(E, fx, des, ZERO) is True else None
    if d is None:
        if des[0] == "ld" and des[1] == addr(exp if exp[0] != "addr" else exp, (NXT,)):
            d = "rest"
        else:
            d = ("op", des)
    # an exchange that finds the state unlocked and writes null, etc., is judged by the facts after it: not used in this code
    if k == "unlocked" and d == "null":
        return ("acquire", exp, so)
    if k == "null" and d == "unlocked":
        return ("free", exp, so)
    if d == "rest" and k in ("waiter", "held", "?"):
        return ("pop", exp, so, fo)
    if k in ("null", "waiter", "held") and isinstance(d, tuple):
        return ("push", exp, so, d[1], ev)
    return ("bad", "mutex state changed from %s to %s" % (k, d if isinstance(d, str) else vstr(d[1])))


def classify(ctx):
    def c(ev, seq):
        t = transition(ctx, ev)
        if t is not None:
            if t[0] == "bad":
                raise Violation("illegal transition: " + t[1], ev)
            if t[0] == "acquire" and t[2] not in ACQ:
                raise Violation("taking the mutex has no acquire ordering (%s)" % t[2], ev)
            if t[0] == "free" and t[2] not in REL:
                raise Violation("freeing the mutex has no release ordering (%s)" % t[2], ev)
            if t[0] == "push":
                if t[2] not in REL:
                    raise Violation("queueing the waiter has no release ordering (%s)" % t[2], ev)
                return ("push", t[1], t[3])
            if t[0] == "pop":
                return ("pop", t[1])
            return (t[0],)
        if ev.k == "resume":
            o, m = handle_of(ev.a[0])
            return ("resume", o if m == HND else ev.a[0])
        return None
    return c


@rule("C01.try", "C01", "try_lock and await_ready report ownership exactly when the state went from unlocked to locked")
def r_try(ctx):
    ctx.need_field("coro::mutex", "m_state")
    for q in ("coro::mutex::try_lock", LOB + "::await_ready"):
        for f in ctx.fns(q):
            def final(seq, ev):
                n = count(seq, "acquire")
                if ev.q != "ret":
                    return
                t = truth(ctx.E, ev.r, ev.facts)
                if any(x[0] in ("push", "pop", "free", "resume") for x in seq):
                    yield "does more than trying to take the mutex"
                if n > 1:
                    yield "takes the mutex twice"
                if t is None:
                    yield "result is not determined by whether the mutex was taken"
                elif t and n != 1:
                    yield "reports success without having taken the mutex"
                elif not t and n:
                    yield "takes the mutex and reports failure: the lock would never be released"
            ctx.paths(f, classify(ctx), final, "success iff unlocked->locked", opaque=())


@rule("C01.suspend", "C01 C24", "suspending on the mutex either takes it and continues or queues the operation completely written and stays suspended")
def r_suspend(ctx):
    f = ctx.fn(LOB + "::await_suspend")
    me = ("arg", "this")
    hname = (f.get("pn") or ["awaiting_coroutine"])[0]

    def cl(ev, seq):
        r = classify(ctx)(ev, seq)
        if isinstance(r, tuple) and r[0] == "push":
            if r[2] != me:
                raise Violation("queues something other than this operation", ev)
            nx = ev.mem.get(this(NXT))
            if nx != r[1]:
                raise Violation("this operation is queued without linking the waiters found in the state", ev)
            h = ev.mem.get(this(HND))
            if not (h is not None and contains(h, ("arg", hname))):
                raise Violation("this operation is queued before its coroutine handle is stored", ev)
        if count(seq, "push") and ev.k in ("store", "load") and ev.a[0][1] == me:
            raise Violation("this operation is touched after it was queued (its coroutine may already have resumed)", ev)
        return r

    def final(seq, ev):
        a, p = count(seq, "acquire"), count(seq, "push")
        t = truth(ctx.E, ev.r, ev.facts)
        if ev.q != "ret":
            return
        if a + p != 1 or count(seq, "pop") or count(seq, "free") or count(seq, "resume"):
            yield "neither took the mutex exactly once nor queued exactly once"
        elif t is None:
            yield "result does not tell whether the operation was queued"
        elif t and not p:
            yield "stays suspended without being queued: nobody will resume it"
        elif not t and not a:
            yield "continues without owning the mutex"
    ctx.paths(f, cl, final, "owns xor queued", opaque=())


@rule("C01.unlock", "C01 C24", "unlock frees the mutex or hands it to exactly one popped waiter, never both")
def r_unlock(ctx):
    for q in ("coro::mutex::unlock",):
        f = ctx.fn(q)

        def cl(ev, seq):
            r = classify(ctx)(ev, seq)
            if count(seq, "resume") and ev.k in ("load", "store", "atomic"):
                w = [x[1] for x in seq if x[0] == "resume"][0]
                if ev.a and contains(ev.a[0], w):
                    raise Violation("the waiter is touched after it was resumed", ev)
                if ev.a and F(ev) == MS:
                    raise Violation("the mutex is touched after it was handed over", ev)
            if ev.k == "throw":
                return ("throw",)
            return r

        def final(seq, ev):
            fr, po, re, th = count(seq, "free"), count(seq, "pop"), count(seq, "resume"), count(seq, "throw")
            if count(seq, "push") or count(seq, "acquire"):
                yield "unlock takes or queues"
            if th:
                if fr or po or re:
                    yield "throws after having changed the mutex"
                return
            if ev.q == "unwind":
                return
            nul = [x for x in seq if x[0] == "resume" and x[1] == ZERO]
            if nul and not po and not fr:
                return   # list found empty although the caller holds the lock and saw a waiter: impossible, only the holder removes waiters
            if fr + po != 1:
                yield "returns with the mutex %s" % ("still locked and nobody resumed" if fr + po == 0 else "released more than once")
            elif po and re != 1:
                yield "a waiter was taken off the list but %s" % ("not resumed" if re == 0 else "resumed more than once")
            elif fr and re:
                yield "frees the mutex and resumes a waiter as well"
            elif po:
                w = [x[1] for x in seq if x[0] == "pop"][0]
                if [x[1] for x in seq if x[0] == "resume"][0] != w:
                    yield "resumes something other than the waiter it took off the list"
        ctx.paths(f, cl, final, "free xor hand over once", opaque=())


@rule("C01.writers", "C01", "every write to the mutex state, wherever it is, is one of take / free / queue / hand over")
def r_writers(ctx):
    seen = 0
    allowed = {"coro::mutex::try_lock", "coro::mutex::unlock", LOB + "::await_ready", LOB + "::await_suspend"}
    for f in ctx.P.fns.values():
        if not touching(f, {MS}) or f["q"].startswith("coro::mutex::$"):
            continue
        seen += 1
        ctx.ob(f["q"])
        ctx.monitor(f, SeqMon(classify(ctx), lambda s, e: (), 1), opaque=())
    if seen < 3:
        raise AnalysisError("mutex::m_state is used nowhere")


@rule("C01.init", "C01", "a new mutex is free; operations and guards refer to the mutex they were made from")
def r_init(ctx):
    for f in ctx.fns("coro::mutex::$ctor"):
        l = this(MS)

        def cl(ev, seq):
            if ev.k == "atomic" and ev.a[0] == l:
                return ("init", ev.a[1] if len(ev.a) > 1 else None)

        def final(seq, ev):
            if not seq or seq[-1][1] != l:
                yield "a new mutex is not in the unlocked state"
        ctx.paths(f, cl, final, "constructed unlocked", opaque=())
    for f in ctx.fns(LOB + "::$ctor"):
        nm = f["pn"][0] if f.get("pn") else "m"

        def final2(seq, ev):
            if ev.mem.get(this(LOB + "::m_mutex")) != ("arg", nm):
                yield "the lock operation does not refer to the mutex it was made from"
        ctx.paths(f, lambda e, s: None, final2, "operation bound to its mutex", opaque=())
    for f in ctx.fns("coro::detail::lock_operation::await_resume"):
        if f["rt"] == "void" and not any(a["k"] == "sret" for a in f["args"]):
            ctx.ob(f["dem"])
            continue

        def final3(seq, ev):
            v = ev.mem.get(addr(("arg", "$ret"), ("coro::scoped_lock::m_mutex",)))
            if not (v and v[0] == "ld" and F(v[1]) == LOB + "::m_mutex" and root_of(v[1]) == ("arg", "this")):
                yield "the guard given to the new owner does not hold the locked mutex"
        ctx.paths(f, lambda e, s: None, final3, "guard holds the mutex", opaque=())
    for q in ("coro::mutex::scoped_lock", "coro::mutex::lock"):
        for f in ctx.fns(q):
            def final4(seq, ev):
                for l, v in ev.mem.items():
                    if F(l) == LOB + "::m_mutex" and v == ("arg", "this"):
                        return
                yield "does not make a lock operation on this mutex"
            ctx.paths(f, lambda e, s: None, final4, "makes an operation on this mutex", opaque=())


def guard_release(ev):
    if ev.k == "unlock" and ev.x == "coro":
        return (ev.a[0] if ev.a[0][2] else ev.a[0][1],)
    return ()


GUARD = Owner("coro::scoped_lock", ("coro::scoped_lock::m_mutex",), guard_release, ZERO, "lock")


@rule("C01.guard", "C01", "a guard releases the lock it owns exactly once over its life")
def r_guard(ctx):
    check_owner(ctx, GUARD, least=3)
    for f in ctx.fns("coro::scoped_lock::unlock"):
        m = this("coro::scoped_lock::m_mutex")

        def cl(ev, seq):
            if ev.k == "load" and ev.a[0] == m and not count(seq, "own"):
                return ("own", ev.r)
            for v in guard_release(ev):
                return ("rel", v)

        def final(seq, ev):
            own = [x[1] for x in seq if x[0] == "own"]
            rel = [x[1] for x in seq if x[0] == "rel"]
            if not own:
                yield "never looks at the lock it owns"
                return
            if eq_fact(ctx.E, ev.facts, own[0], ZERO) is True:
                if rel:
                    yield "unlocks without owning"
                return
            if rel != own:
                yield "does not release the owned lock exactly once"
            if ev.q == "ret" and ev.mem.get(m) != ZERO:
                yield "still claims the lock after unlocking it (it would be unlocked again on destruction)"
        ctx.paths(f, cl, final, "unlock releases once and forgets")
    for f in ctx.fns("coro::scoped_lock::$ctor", lambda f: f.get("sm") not in ("movector", "copyctor")):
        nm = f["pn"][0] if f.get("pn") and f["pn"][0] else "p0"

        def final5(seq, ev):
            if ev.mem.get(m) != ("arg", nm):
                yield "a new guard does not hold the given mutex"
        m = this("coro::scoped_lock::m_mutex")
        ctx.paths(f, lambda e, s: ("x",) if e.k == "unlock" else None, final5, "adopts the given mutex")


@rule("C01.types", "C01", "guards, operations and mutexes cannot be copied, and results of locking cannot be dropped silently")
def r_types(ctx):
    for q, must in (("coro::scoped_lock", ("copyctor", "copyassign")), ("coro::mutex", ("copyctor", "copyassign", "movector", "moveassign")),
                    (LOB, ("copyctor", "copyassign", "movector", "moveassign"))):
        for r in ctx.recs(q):
            for k in must:
                ctx.ob("%s %s deleted" % (r["ty"], k))
                if r["sm"].get(k) not in ("deleted", "none", None):
                    ctx.violate(r["q"], r.get("loc"), "%s of %s is possible: ownership would be duplicated" % (k, q))

"""C03: shared mutex."""
from .base import *

M = "coro::shared_mutex"
ST, USERS, EXW, HEAD, TAIL, MX, EXEC = (M + "::m_" + x for x in ("state", "shared_users", "exclusive_waiters", "head_waiter", "tail_waiter", "mutex", "executor"))
OP = "coro::detail::shared_lock_operation"
NXT, HND, EXCL = OP + "::m_next", OP + "::m_awaiting_coroutine", OP + "::m_exclusive"
EXECUTORS = ("coro::thread_pool::resume", "coro::scheduler::resume")
GRD = (ST, USERS, EXW, HEAD, TAIL)
OPQ = DEFAULT_OPAQUE | set(EXECUTORS)


def enums(ctx):
    e = dict(ctx.P.enums.get(M + "::state") or [])
    if set(e) != {"unlocked", "locked_shared", "locked_exclusive"}:
        raise AnalysisError("shared_mutex::state changed")
    return e


def delta(ev):
    """(+1/-1/other) for an arithmetic atomic event"""
    if ev.q == "add":
        return 1 if ev.a[1] == ONE else -1 if ev.a[1] == ("c", -1) else "?"
    if ev.q == "sub":
        return -1 if ev.a[1] == ONE else 1 if ev.a[1] == ("c", -1) else "?"
    return "?"


def base_cl(ctx):
    E, en = ctx.E, enums(ctx)
    byval = {v: k for k, v in en.items()}

    def c(ev, seq, held):
        own = any(F(l) == MX for l in held)
        if ev.k == "lock" and F(ev) == MX:
            if own:
                raise Violation("locks the internal mutex twice", ev)
            return ("lock",)
        if ev.k == "trylock" and F(ev) == MX:
            return ("trylock",)
        if ev.k == "unlock" and F(ev) == MX:
            if not own:
                raise Violation("unlocks the internal mutex without holding it", ev)
            return ("unlock",)
        f = F(ev)
        if ev.k == "atomic" and f in (ST, USERS, EXW, HEAD, TAIL) and ev.q != "init":
            if not own:
                raise Violation("the state of the shared mutex is %s without its internal mutex" % ("read" if ev.q == "load" else "changed"), ev)
        if ev.k == "atomic" and ev.q == "load" and f in (ST, USERS, EXW, HEAD, TAIL):
            return ("ld:" + short(f), ev.r)
        if ev.k == "atomic" and f == ST and ev.q != "init":
            if ev.q != "store" or ev.a[1][0] != "c":
                return ("set", "?")
            return ("set", byval.get(ev.a[1][1], "?"))
        if ev.k == "atomic" and f in (USERS, EXW) and ev.q != "init":
            d = delta(ev)
            if d == "?":
                raise Violation("the number of %s is changed by something other than one" % ("shared holders" if f == USERS else "waiting writers"), ev)
            return (("users" if f == USERS else "exw") + ("+" if d > 0 else "-"), ev.r)
        if ev.k == "atomic" and f in (HEAD, TAIL) and ev.q != "init":
            return ("w:" + short(f), ev.a[1])
        if ev.k == "throw":
            return None
        return None
    return c


def grant_kind(ctx, seq, facts, exclusive):
    """granted / refused-reason of one attempt; yields messages"""
    E, en = ctx.E, enums(ctx)
    sets = [x[1] for x in seq if x[0] == "set"]
    up, um, xp, xm = (count(seq, k) for k in ("users+", "users-", "exw+", "exw-"))
    sts = [x[1] for x in seq if x[0] == "ld:m_state"]

    def stis(name, val):
        return any(eq_fact(E, facts, s, ("c", en[name])) is val for s in sts)
    if exclusive:
        if um or xm or up:
            return "?", "an exclusive request changes the holder counts"
        if sets:
            if sets != ["locked_exclusive"]:
                return "?", "an exclusive grant does not mark the mutex exclusively locked"
            if not stis("unlocked", True):
                return "?", "exclusive ownership is granted although the mutex was not seen free"
            return "granted", None
        return ("busy" if stis("unlocked", False) else "unknown"), None
    if um or xm or up > 1:
        return "?", "a shared request changes the holder counts wrongly"
    if sets or up:
        if up != 1:
            return "?", "a shared grant does not count the new holder"
        if stis("unlocked", True):
            if sets != ["locked_shared"]:
                return "?", "a shared grant of a free mutex does not mark it shared"
        elif stis("locked_shared", True):
            if sets not in ([], ["locked_shared"]):
                return "?", "a shared grant changes the lock mode"
            w = [x[1] for x in seq if x[0] == "ld:m_exclusive_waiters"]
            if not any(eq_fact(E, facts, v, ZERO) is True for v in w):
                return "?", "a shared request is granted ahead of a waiting exclusive one"
        else:
            return "?", "a shared request is granted although the mutex may be exclusively locked"
        return "granted", None
    w = [x[1] for x in seq if x[0] == "ld:m_exclusive_waiters"]
    if stis("unlocked", False) and (stis("locked_shared", False) or stis("locked_exclusive", True) or any(eq_fact(E, facts, v, ZERO) is False for v in w)):
        return "busy", None
    return "unknown", None


@rule("C03.try", "C03 C23", "try_lock and try_lock_shared succeed exactly when the matching grant was made, under the internal mutex")
def r_try(ctx):
    for q, ex in ((M + "::try_lock", True), (M + "::try_lock_shared", False)):
        for f in ctx.fns(q):
            def final(seq, ev, ex=ex):
                if ev.q != "ret":
                    return
                t = truth(ctx.E, ev.r, ev.facts)
                k, msg = grant_kind(ctx, seq, ev.facts, ex)
                if msg:
                    yield msg
                    return
                if count(seq, "lock") != count(seq, "unlock"):
                    yield "the internal mutex is not released"
                if t is None:
                    yield "result does not tell whether the lock was taken"
                elif t and k != "granted":
                    yield "reports success without having taken the lock"
                elif not t and k == "granted":
                    yield "takes the lock and reports failure"
                elif not t and k == "unknown" and count(seq, "lock"):
                    yield "refuses although the lock may be available"
                if any(x[0].startswith("w:") for x in seq) or count(seq, "exw+"):
                    yield "an attempt changes the waiters"
            ctx.paths(f, base_cl(ctx), final, "success iff granted", opaque=OPQ, guarded=GRD, cap=3)


@rule("C03.lock", "C03 C24", "every lock form is granted, or queued last behind the others and completely written before the internal mutex is released")
def r_lock(ctx):
    for q, ex, scoped in ((M + "::lock", True, None), (M + "::lock_shared", False, None),
                          (M + "::scoped_lock", True, M + "::unlock"), (M + "::scoped_lock_shared", False, M + "::unlock_shared")):
        for f in ctx.fns(q):
            bc = base_cl(ctx)

            def cl(ev, seq, held, bc=bc, scoped=scoped):
                own = any(F(l) == MX for l in held)
                r = bc(ev, seq, held)
                if r:
                    if r[0] == "unlock" and any(x[0] == "w:m_tail_waiter" for x in seq):
                        o = [x[1] for x in seq if x[0] == "w:m_tail_waiter"][-1]
                        h = ev.mem.get(addr(loc_of(o), (HND,))) if ev.mem else None
                        if h is None or h == ZERO:
                            raise Violation("the waiter is made reachable before its coroutine handle is stored", ev)
                        if ev.mem.get(addr(loc_of(o), (NXT,))) not in (ZERO,):
                            raise Violation("the waiter queued last does not end the list", ev)
                    return r
                w = [x[1] for x in seq if x[0] == "w:m_tail_waiter"]
                if w and not own and not count(seq, "suspend") and ev.k in ("load", "store", "atomic") and ev.a and ev.a[0][0] == "addr" and \
                        addr(ev.a[0][1], ()) == addr(loc_of(w[-1]) if False else w[-1], ()):
                    raise Violation("the queued operation is touched after the internal mutex was released", ev)
                if ev.k == "store" and ev.a and ev.a[0][0] == "addr" and ev.a[0][2] and ev.a[0][2][-1] == NXT and own and ev.a[1] != ZERO:
                    o = ("addr", ev.a[0][1], ev.a[0][2][:-1]) if len(ev.a[0][2]) > 1 else ev.a[0][1]
                    return ("link", o, ev.a[1])
                if ev.k == "suspend" and count(seq, "lock"):
                    return ("suspend",)
                if scoped and ev.k in ("corocall", "enter", "call") and ev.q in (M + "::unlock", M + "::unlock_shared"):
                    return ("release", ev.q)
                if scoped and ev.k == "await" and count(seq, "lock"):
                    o, m = handle_of(ev.a[0]) if ev.a else (None, None)
                    return ("await",)
                if ev.k == "resume":
                    raise Violation("a lock request resumes something", ev)
                return None

            def final(seq, ev, ex=ex, scoped=scoped):
                if ev.q == "unwind":
                    return
                n = names(seq)
                if "lock" not in n:
                    return
                if n.count("unlock") != 1 or n.count("lock") != 1:
                    yield "the internal mutex is not locked and released exactly once"
                    return
                u = n.index("unlock")
                k, msg = grant_kind(ctx, [x for x in seq if x[0] not in ("exw+",)], ev.facts, ex)
                if msg:
                    yield msg
                    return
                wt = [x for x in seq if x[0] == "w:m_tail_waiter"]
                wh = [x for x in seq if x[0] == "w:m_head_waiter"]
                if k == "granted":
                    if wt or wh or "exw+" in n:
                        yield "is granted and queued as well"
                    if "suspend" in n:
                        yield "suspends although the lock was granted"
                else:
                    if len(wt) != 1:
                        yield "neither granted nor queued"
                        return
                    o = wt[0][1]
                    if k == "unknown":
                        yield "goes to sleep although the lock may be available"
                    if n.count("exw+") != (1 if ex else 0):
                        yield "a waiting %s request is %scounted as a waiting writer" % (("exclusive", "not ") if ex else ("shared", ""))
                    lt = [x[1] for x in seq if x[0] == "ld:m_tail_waiter"]
                    lh = [x[1] for x in seq if x[0] == "ld:m_head_waiter"]
                    empty = any(eq_fact(ctx.E, ev.facts, v, ZERO) is True for v in lt + lh)
                    nonempty = [v for v in lt if eq_fact(ctx.E, ev.facts, v, ZERO) is False]
                    links = [x for x in seq if x[0] == "link"]
                    if wh:
                        if not empty:
                            yield "queued as first although others may be waiting"
                        if wh[0][1] != o:
                            yield "head and tail of an empty list are set to different waiters"
                    else:
                        if not (nonempty or lt and any(x[1] == v for x in links for v in lt)) or len(links) != 1:
                            yield "queued without being linked behind the last waiter"
                        elif links[0][1] not in lt or links[0][2] != o:
                            yield "the link of the last waiter does not lead to the new one"
                    if "suspend" not in n:
                        yield "is queued but continues without owning the lock"
                if scoped and ev.q == "coroend" :
                    rel = [x[1] for x in seq if x[0] == "release"]
                    if rel != [scoped]:
                        yield "the lock taken for the scoped task is not released exactly once in the same mode"
                    elif n.count("await") < 2:
                        yield "the scoped task or the release is not awaited"
                    elif n.index("release") < n.index("await"):
                        yield "releases before the scoped task has run"
            ctx.paths(f, cl, final, "granted xor queued", opaque=OPQ, guarded=GRD, cap=3,
                      inline_coro=lambda q: q.startswith(M + "::") and q not in (M + "::unlock", M + "::unlock_shared"))


class ReleaseMon(Monitor):
    """one release: state is a tuple of
    (held, dec, mode, head, headExcl, popped, tailcleared, counted, handed, exw, npopped, resumed)"""
    init = (False, None, None, None, None, None, False, False, False, 0, 0, (), frozenset())

    def __init__(self, ctx, shared):
        self.ctx, self.shared, self.en = ctx, shared, enums(ctx)

    def step(self, S, ev):
        held, dec, mode, head, hx, popped, tailc, counted, handed, exw, np, res, known = S
        E = self.ctx.E
        f = F(ev)
        if ev.k == "br" and ev.x:
            p, pol = ev.x
            ks = [y for y in (dec, head, hx, popped) if y is not None]
            if any(contains(p[1], y) or contains(p[2], y) for y in ks):
                known = known | {(p, pol)}
        fx = dict(ev.facts or {})
        for p, pol in known:
            fx.setdefault(p, pol)

        def out():
            return (held, dec, mode, head, hx, popped, tailc, counted, handed, exw, np, res, known)

        def unclosed():
            return isinstance(tailc, tuple) and eq_fact(E, fx, tailc[1], ZERO) is not False

        def balance(why):
            if popped is None:
                return
            nx = ("ld", addr(popped, (NXT,)))
            if mode == "locked_shared":
                if not counted:
                    raise Violation("a shared waiter is woken without being counted as a holder", ev)
                if not handed:
                    raise Violation("a shared waiter is taken off the list without being woken", ev)
            elif mode == "locked_exclusive":
                if counted:
                    raise Violation("an exclusive waiter is counted as a shared holder", ev)
                if exw != -1:
                    raise Violation("waking an exclusive waiter does not take it off the count of waiting writers", ev)
            else:
                raise Violation("a waiter is taken off the list without the lock mode being set for it", ev)
        if ev.k == "lock" and f == MX:
            held = True
        elif ev.k == "unlock" and f == MX:
            if not held:
                raise Violation("unlocks the internal mutex without holding it", ev)
            balance("unlock")
            if self.shared and dec is None:
                raise Violation("a shared release does not take the holder off the count", ev)
            last = not self.shared or eq_fact(E, fx, dec, ONE) is True
            notlast = self.shared and eq_fact(E, fx, dec, ONE) is False
            if notlast:
                if mode or np:
                    raise Violation("a release that leaves other holders changes the lock", ev)
            elif not last:
                raise Violation("does not find out whether this was the last holder", ev)
            else:
                if mode is None:
                    raise Violation("the last release leaves the mutex locked: waiters and later requests would sleep forever", ev)
                if mode == "unlocked" and np:
                    raise Violation("the mutex is marked free and a waiter is woken as well", ev)
                if mode == "locked_exclusive" and np != 1:
                    raise Violation("exclusive mode is set but %s waiter is taken off the list" % ("no" if np == 0 else "more than one"), ev)
                if mode == "locked_shared":
                    if np == 0:
                        raise Violation("shared mode is set but no waiter is taken off the list", ev)
                    if not (eq_fact(E, fx, head, ZERO) is True or hx is not None and eq_fact(E, fx, hx, ZERO) is False):
                        raise Violation("shared requests directly behind the woken ones may be left asleep", ev)
            held = False
        elif ev.k == "atomic" and f in (ST, USERS, EXW, HEAD, TAIL) and ev.q != "init":
            if not held:
                raise Violation("the state of the shared mutex is touched without its internal mutex", ev)
            if f == USERS and ev.q != "load":
                d = delta(ev)
                if d == -1:
                    if dec is not None or not self.shared:
                        raise Violation("a holder is taken off the count twice" if self.shared else "an exclusive release changes the number of shared holders", ev)
                    dec = ev.r
                elif d == 1:
                    if counted:
                        raise Violation("a woken waiter is counted twice", ev)
                    counted = True
                else:
                    raise Violation("the number of shared holders is changed by something other than one", ev)
            elif f == EXW and ev.q != "load":
                d = delta(ev)
                if d != -1 or exw:
                    raise Violation("the count of waiting writers is changed wrongly by a release", ev)
                exw = -1
            elif f == HEAD and ev.q == "load":
                if popped is not None:
                    balance("next")
                    if unclosed():
                        raise Violation("the last waiter is taken off the list but stays its tail", ev)
                    popped, tailc, counted, handed = None, False, False, False
                head, hx = ev.r, None
                known = frozenset(k for k in known if dec is not None and contains(k[0], dec))
            elif f == HEAD:
                if head is None:
                    raise Violation("the head of the waiter list is overwritten without having been read", ev)
                if popped is not None:
                    raise Violation("two waiters are taken off the list at once", ev)
                v = ev.a[1] if ev.q == "store" else None
                nxv = self.nextval(ev, head)
                isnx = v is not None and nxv is not None and v == nxv
                if not isnx and not (v == ZERO and nxv is not None and eq_fact(E, fx, nxv, ZERO) is True):
                    raise Violation("the head of the waiter list does not advance to the next waiter", ev)
                if eq_fact(E, fx, head, ZERO) is not False:
                    raise Violation("takes a waiter off a list that may be empty", ev)
                if mode == "locked_shared" and (hx is None or eq_fact(E, fx, hx, ZERO) is not True):
                    raise Violation("a waiter is woken as shared without having been seen to be a shared request", ev)
                popped, np = head, min(np + 1, 2)
                if not (v == ZERO) and eq_fact(E, fx, nxv, ZERO) is not False:
                    tailc = ("need", nxv)     # next may be null: the tail must be cleared as well
                elif v == ZERO and tailc is not True:
                    tailc = ("need", nxv)
            elif f == TAIL and ev.q != "load":
                if ev.q != "store" or ev.a[1] != ZERO:
                    raise Violation("the tail of the waiter list is set to a waiter by a release", ev)
                nxv = self.nextval(ev, popped if popped is not None else head)
                if nxv is None or eq_fact(E, fx, nxv, ZERO) is not True:
                    raise Violation("the tail of the waiter list is cleared although waiters may remain", ev)
                tailc = True
            elif f == ST and ev.q != "load":
                v = ev.a[1] if ev.q == "store" else None
                nm = {("c", x): k for k, x in self.en.items()}.get(v)
                if nm is None:
                    raise Violation("the lock mode is set to something unknown", ev)
                if mode is not None and mode != nm:
                    raise Violation("a release sets two different lock modes", ev)
                if self.shared and (dec is None or eq_fact(E, fx, dec, ONE) is not True):
                    raise Violation("the lock mode is changed although other holders may remain", ev)
                if nm == "unlocked":
                    if head is None or eq_fact(E, fx, head, ZERO) is not True:
                        raise Violation("the mutex is marked free although requests may be waiting", ev)
                elif head is None or eq_fact(E, fx, head, ZERO) is not False or hx is None:
                    raise Violation("the lock mode is set without looking at the first waiter", ev)
                elif eq_fact(E, fx, hx, ZERO) is not (nm == "locked_shared"):
                    raise Violation("the lock mode does not match the first waiter's request", ev)
                mode = nm
        elif ev.k == "load" and ev.a[0][0] == "addr" and ev.a[0][2] and ev.a[0][2][-1] == EXCL:
            o, _ = handle_of(("ld", ev.a[0]))
            if o == head:
                hx = ev.r
        elif ev.k == "resume" or ev.k in ("call", "enter") and ev.q in EXECUTORS:
            v = ev.a[0] if ev.k == "resume" else None
            if v is None:
                for a in ev.a[1:]:
                    for c in ([a] if a[0] == "ld" else []) + ([ev.mem.get(loc_of(a))] if ev.mem and ev.mem.get(loc_of(a)) else []):
                        if handle_of(c)[1] == HND:
                            v = c
            o, m = handle_of(v) if v else (None, None)
            if m != HND:
                if ev.k == "resume":
                    return out()
                raise Violation("hands something to the executor that is not a waiter", ev)
            if o in res:
                raise Violation("a waiter is resumed twice", ev)
            if o != popped and not contains(o, ANY):
                raise Violation("a waiter is woken that was not taken off the list", ev)
            if held and ev.k == "resume":
                raise Violation("a waiter is resumed inline while the internal mutex is held", ev)
            res = (res + (o,))[-2:]
            handed = True
        if ev.k in ("load", "store") and ev.a and res and ev.a[0][0] == "addr" and any(ev.a[0][1] == o for o in res):
            raise Violation("a waiter is touched after it was woken", ev)
        if ev.k == "exit" and ev.q == "coroend":
            if held:
                raise Violation("returns with the internal mutex held", ev)
            if popped is not None and not handed:
                raise Violation("a waiter is taken off the list but not woken", ev)
            if popped is not None and unclosed():
                raise Violation("the last waiter is taken off the list but stays its tail", ev)
        if ev.k in ("unlock",) and f == MX and unclosed():
            raise Violation("the last waiter is taken off the list but stays its tail", ev)
        return (held, dec, mode, head, hx, popped, tailc, counted, handed, exw, np, res, known)

    def nextval(self, ev, w):
        if w is None:
            return None
        v = (ev.mem or {}).get(addr(w, (NXT,)))
        if v is not None:
            return v
        return ("ld", addr(w, (NXT,)))


@rule("C03.release", "C03 C23 C24", "the last release wakes the first waiter and the shared ones directly behind a shared one, or marks the mutex free")
def r_release(ctx):
    for q, sh in ((M + "::unlock_shared", True), (M + "::unlock", False)):
        for f in ctx.fns(q):
            ctx.ob("%s: release protocol" % f["q"])
            ctx.monitor(f, ReleaseMon(ctx, sh), opaque=OPQ, guarded=GRD, inline_coro=lambda q: q.startswith(M + "::"))


@rule("C03.init", "C03", "a new shared mutex is free, has no holders or waiters and refuses to exist without an executor; it cannot be copied")
def r_init(ctx):
    en = enums(ctx)
    for f in ctx.fns(M + "::$ctor"):
        def final(seq, ev):
            if ev.q != "ret":
                return
            for fld, v in ((ST, ("c", en["unlocked"])), (USERS, ZERO), (EXW, ZERO), (HEAD, ZERO), (TAIL, ZERO)):
                if ev.mem.get(this(fld)) != v:
                    yield "a new shared mutex starts with a wrong %s" % short(fld)
            e = ev.mem.get(this(EXEC))
            if e is None or eq_fact(ctx.E, ev.facts, e, ZERO) is not False:
                yield "a shared mutex can be made without an executor"
        ctx.paths(f, lambda e, s: None, final, "initial state", opaque=OPQ, guarded=GRD)
    for f in ctx.fns(OP + "::$ctor"):
        def final2(seq, ev):
            if ev.mem.get(this(NXT)) != ZERO:
                yield "a new lock operation does not end the list"
        ctx.paths(f, lambda e, s: None, final2, "operation initial state")
    for q in (M, OP):
        for r in ctx.recs(q):
            for k in ("copyctor", "copyassign", "movector", "moveassign"):
                ctx.ob("%s %s deleted" % (r["ty"], k))
                if r["sm"].get(k) not in ("deleted", "none", None):
                    ctx.violate(r["q"], r.get("loc"), "%s of %s is possible" % (k, q))


@rule("C03.writers", "C03 C23", "no other code changes the state of the shared mutex")
def r_writers(ctx):
    known = {M + "::" + x for x in ("try_lock", "try_lock_shared", "unlock", "unlock_shared", "lock", "lock_shared", "scoped_lock", "scoped_lock_shared")}
    n = 0
    for f in ctx.P.fns.values():
        if not touching(f, {ST, USERS, EXW, HEAD, TAIL}) or f["q"].endswith(("$ctor", "$dtor")):
            continue
        n += 1
        ctx.ob(f["dem"])
        if f.get("acc") == "public" and f["q"] not in known and f["q"].startswith(M + "::"):
            ctx.monitor(f, SeqMon(base_cl(ctx), lambda s, e: (), 2), opaque=OPQ, guarded=GRD)
    if n < 4:
        raise AnalysisError("shared mutex state is used nowhere")

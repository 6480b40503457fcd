"""C05: condition variable."""
from .base import *

CV = "coro::condition_variable"
WL, POPMX = CV + "::m_awaiters", CV + "::m_pop_mutex"
AB = CV + "::awaiter_base"
NXT, HND, CVP, LK = (AB + "::m_" + x for x in ("next", "awaiting_coroutine", "condition_variable", "lock"))
SLM = "coro::scoped_lock::m_mutex"
CD = CV + "::controller_data"
EMX, NCB, DONE, STAT, PRES, PRED, STOP = (CD + "::m_" + x for x in ("event_mutex", "notify_callback", "awaiter_completed", "status", "predicate_result", "predicate", "stop_token"))
AW = CV + "::awaiter_with_wait"
HOOK = CV + "::awaiter_with_wait_hook"
PLAIN = [CV + "::awaiter", CV + "::awaiter_with_predicate", CV + "::awaiter_with_predicate_stop_token"]
PREDCALL = "std::function::operator()"
EVSET = "coro::event::set"
OPQ = DEFAULT_OPAQUE | {EVSET, "coro::scheduler::schedule_after"}


def status(ctx):
    e = dict(ctx.P.enums.get(CV + "::notify_status_t") or [])
    if set(e) != {"ready", "not_ready", "awaiter_dead"}:
        raise AnalysisError("notify_status_t changed")
    return e


def obj(v):
    """the object an address without path denotes"""
    return v[1] if v[0] == "addr" and not v[2] else v


def which_mutex(v):
    """'w': the mutex of the waiter's lock, 'e': the event mutex of a timed wait"""
    if v[0] == "addr" and last_field(v) == EMX:
        return "e"
    if v[0] == "addr" and v[2] and v[2][-1] == "coro::mutex::m_state":
        v = addr(v[1], v[2][:-1])
    v = obj(v)
    if v[0] == "ld" and v[1][0] == "addr" and v[1][2] and v[1][2][-1] == SLM:
        return "w"
    return None


def of_this(a):
    """address inside the awaiter itself (not of what it refers to)"""
    return isinstance(a, tuple) and a and (a[0] == "addr" and a[1] == ("arg", "this") or a == ("arg", "this"))


def cl_mutex(ev):
    if ev.k in ("lock", "unlock") and ev.x == "coro" or ev.k in ("lock", "unlock") and "coro" in str(ev.x):
        w = which_mutex(ev.a[0])
        if w:
            return (ev.k + w,)
    return None


def push_letter(ctx, ev, elem):
    r = listop(ctx, ev, WL, NXT)
    if not r:
        return None
    if r[0] == "bad":
        raise Violation(r[1], ev)
    if r[0] != "push":
        return (r[0], r[1])
    if r[3] not in REL:
        raise Violation("the waiter is registered without release ordering", ev)
    o = loc_of(r[1])
    if obj(o) != elem:
        raise Violation("something other than the waiter is put into the list of waiters", ev)
    if not (ev.a[0][0] == "addr" and handle_of(ev.a[0][1])[1] == CVP and handle_of(ev.a[0][1])[0] in (("arg", "this"), elem) or
            ev.mem and ev.mem.get(addr(elem, (CVP,))) is not None and ev.a[0][1] == ev.mem.get(addr(elem, (CVP,)))):
        raise Violation("the waiter is put into the list of another condition variable", ev)
    if ev.mem.get(addr(o, (NXT,))) != r[2]:
        raise Violation("the waiter is queued without linking the waiters already queued", ev)
    return ("push",)


def has(ev, field):
    """branch on whether an optional member holds a value: True / False / None"""
    if ev.k == "br" and ev.x:
        p, pol = ev.x
        if p[0] == "eq" and p[2] == ZERO and p[1][0] == "ld" and p[1][1][0] == "addr" and p[1][1][2][-2:] == (field, "$has"):
            return not pol
    return None


def hasl(ev, letter, field):
    h = has(ev, field)
    return None if h is None else (letter, h)


def predcall(ev):
    if ev.k == "call" and ev.q == PREDCALL:
        return ("pred", ev.r)
    return None


def truthy(ctx, v, facts):
    return truth(ctx.E, v, facts)


@rule("C05.suspend", "C05 C24", "a waiter is completely written and registered before the caller's lock is released once, and not touched afterwards")
def r_suspend(ctx):
    for c in PLAIN:
        for f in ctx.fns(c + "::await_suspend"):
            h = ("arg", (f.get("pn") or ["awaiting_coroutine"])[0])

            def cl(ev, seq, held, h=h):
                p = push_letter(ctx, ev, ("arg", "this"))
                if p:
                    if p[0] != "push":
                        raise Violation("going to sleep takes other waiters off the list", ev)
                    v = ev.mem.get(this(HND))
                    if v is None or v == ZERO or not contains(v, h) and v != h:
                        raise Violation("the waiter is registered before its coroutine handle is stored", ev)
                    return p
                if count(seq, "unlockw") and ev.k in ("load", "store", "atomic") and ev.a and of_this(ev.a[0]):
                    raise Violation("the waiter is touched after the lock was released (it may be gone)", ev)
                if count(seq, "unlockw") and ev.k == "call" and any(of_this(a) for a in ev.a):
                    raise Violation("the waiter is used after the lock was released (it may be gone)", ev)
                if ev.k == "store" and ev.a[0][0] == "addr" and ev.a[0][2] and ev.a[0][2][-1] == SLM:
                    raise Violation("the caller's guard is changed while waiting: it would no longer release the lock taken again for it", ev)
                if count(seq, "push") and not count(seq, "unlockw") and ev.k == "store" and ev.a[0] == this(NXT):
                    raise Violation("the link of the waiter is changed after it was registered", ev)
                if ev.k == "resume":
                    raise Violation("going to sleep resumes a coroutine", ev)
                return cl_mutex(ev)

            def final(seq, ev):
                if ev.q != "ret":
                    return
                n = [x for x in names(seq) if x in ("push", "unlockw", "lockw")]
                if n != ["push", "unlockw"]:
                    yield "the waiter is not registered exactly once before its lock is released exactly once"
                if ev.r != ONE and truth(ctx.E, ev.r, ev.facts) is not True:
                    yield "the coroutine continues although it was registered as waiting"
            ctx.paths(f, cl, final, "register, then release the lock", opaque=OPQ)


@rule("C05.ready", "C05", "a wait without predicate always waits for a notification, one with a predicate skips waiting exactly when the predicate is true")
def r_ready(ctx):
    for c in PLAIN + [AW]:
        for f in ctx.fns(c + "::await_ready"):
            def final(seq, ev, c=c):
                if ev.q != "ret":
                    return
                t = truth(ctx.E, ev.r, ev.facts)
                p = [x[1] for x in seq if x[0] == "pred"]
                if c == PLAIN[0] or c == AW and not p:
                    if t is not False:
                        yield "a wait without predicate returns without having waited"
                    if c == AW and ("has", False) not in seq:
                        yield "the predicate is not evaluated although there may be one"
                    return
                if len(p) != 1:
                    yield "the predicate is not evaluated exactly once"
                elif not (ev.r == p[0] or t is not None and truth(ctx.E, p[0], ev.facts) is t):
                    yield "waiting is skipped without the predicate being true, or the other way round"
                if c == PLAIN[2] and ev.mem.get(this(c + "::m_predicate_result")) != p[0] or c == AW and ev.mem.get(this(AW + "::m_predicate_result")) != p[0]:
                    yield "the result of the predicate is not kept for the caller"
            ctx.paths(f, lambda ev, s: predcall(ev) or hasl(ev, "has", AW + "::m_predicate"), final, "ready iff predicate", opaque=OPQ)
    for f in ctx.fns(PLAIN[2] + "::await_resume"):
        def final2(seq, ev):
            if ev.q == "ret" and not (ev.r[0] == "ld" and ev.r[1] == this(PLAIN[2] + "::m_predicate_result")):
                yield "the caller is not told the predicate's last result"
        ctx.paths(f, lambda ev, s: None, final2, "returns the predicate's result")
    for f in ctx.fns(AW + "::await_resume"):
        def cl3(ev, seq):
            if ev.k == "load" and of_this(ev.a[0]):
                return ("ld", short(ev.a[0][2][0]))

        def final3(seq, ev):
            l = {x[1] for x in seq}
            r = {short(x) for x in fields_in(ev.r)}
            want = "m_predicate_result" if f["dem"] and "<coro::scheduler, bool>" in f["dem"] else "m_status"
            if ev.q == "ret" and want not in r | (l if want == "m_status" else set()):
                yield "the caller is not told %s" % ("the predicate's last result" if want == "m_predicate_result" else "whether the wait timed out")
        ctx.paths(f, cl3, final3, "returns the outcome")


def fields_in(v, out=None):
    out = set() if out is None else out
    if isinstance(v, str):
        if "::m_" in v:
            out.add(v)
    elif isinstance(v, tuple):
        for x in v:
            fields_in(x, out)
    return out


def retval(ctx, ev):
    """value given to the promise"""
    if ev.k == "call" and ev.q.endswith("variant::emplace") and len(ev.a) > 1 and ev.mem:
        v = ev.mem.get(loc_of(ev.a[1]))
        return v
    return None


@rule("C05.notify", "C05 C24", "a notified waiter is looked at under its lock and is then either resumed once with the lock held, or registered again before the lock is released")
def r_notify(ctx):
    st = status(ctx)
    byval = {v: k for k, v in st.items()}
    for c in PLAIN:
        for f in ctx.fns(c + "::on_notify"):
            def cl(ev, seq, held):
                gone = count(seq, "resume") or count(seq, "push") and count(seq, "unlockw")
                if gone and ev.k in ("load", "store", "atomic") and ev.a and of_this(ev.a[0]):
                    raise Violation("the waiter is touched after it was resumed or may have been notified again", ev)
                if gone and ev.k == "call" and any(of_this(a) for a in ev.a):
                    raise Violation("the waiter is used after it was resumed or may have been notified again", ev)
                m = cl_mutex(ev)
                if m:
                    return m
                p = push_letter(ctx, ev, ("arg", "this"))
                if p:
                    if p[0] != "push":
                        raise Violation("notifying one waiter takes others off the list", ev)
                    return p
                p = predcall(ev)
                if p:
                    return p
                if ev.k == "call" and ev.q.endswith("stop_token::stop_requested"):
                    return ("stop", ev.r)
                if ev.k == "resume":
                    o, m = handle_of(ev.a[0])
                    if (o, m) != (("arg", "this"), HND):
                        raise Violation("resumes something other than the waiter", ev)
                    return ("resume",)
                v = retval(ctx, ev)
                if v is not None and not count(seq, "ret"):
                    return ("ret", v)
                if ev.k == "store" and ev.a[0][0] == "addr" and ev.a[0][2] and ev.a[0][2][-1] == SLM:
                    raise Violation("the caller's guard is changed while waiting: it would no longer release the lock taken again for it", ev)
                return None

            def final(seq, ev, c=c):
                if ev.q != "coroend" or not seq:
                    return
                n = names(seq)
                if n[0] != "lockw" or n.count("lockw") != 1:
                    yield "the waiter's lock is not taken once, first"
                    return
                for k in ("pred",):
                    if k in n and n.count(k) != 1:
                        yield "the predicate is evaluated more than once"
                r = [x[1] for x in seq if x[0] == "ret"]
                r = byval.get(r[0][1]) if r and r[0][0] == "c" else None
                p = [truth(ctx.E, x[1], ev.facts) for x in seq if x[0] == "pred"]
                s = [truth(ctx.E, x[1], ev.facts) for x in seq if x[0] == "stop"]
                core = [x for x in n if x in ("lockw", "unlockw", "push", "resume")]
                if core == ["lockw", "resume"]:
                    if r != "ready":
                        yield "the waiter is resumed and reported as not ready"
                    if c != PLAIN[0] and not (p == [True] or c == PLAIN[2] and s == [True]):
                        yield "the waiter is resumed although its predicate is not known to be true%s" % (" and no stop is requested" if c == PLAIN[2] else "")
                    if "pred" in n and n.index("pred") > n.index("resume"):
                        yield "the predicate is evaluated after the waiter was resumed"
                    if c == PLAIN[2]:
                        if not p:
                            yield "stop is reported without the predicate having been evaluated"
                elif core == ["lockw", "push", "unlockw"]:
                    if r != "not_ready":
                        yield "the waiter is kept and reported as done"
                    if p != [False] or c == PLAIN[2] and s != [False]:
                        yield "a waiter that may be ready is not resumed"
                elif "push" in core and "unlockw" in core and core.index("unlockw") < core.index("push"):
                    yield "the waiter's lock is released before it is registered again: a notification in between is lost"
                elif "resume" in core:
                    yield "the waiter is not resumed exactly once with the lock held"
                else:
                    yield "the waiter is neither resumed nor registered again with its lock released"
            ctx.paths(f, cl, final, "resume with the lock xor register again", opaque=OPQ, cap=3, skip_exc=True)


class StoreRes(Monitor):
    pass


@rule("C05.predresult", "C05", "every evaluation of a predicate that the caller is told about is stored for it before the caller is resumed")
def r_predresult(ctx):
    n = 0
    for q, fld, base in ((PLAIN[2] + "::on_notify", PLAIN[2] + "::m_predicate_result", None), (AW + "::make_timeout_task", AW + "::m_predicate_result", None), (HOOK + "::on_notify", None, PRES)):
        for f in ctx.fns(q):
            n += 1

            def cl(ev, seq, held, fld=fld, base=base):
                p = predcall(ev)
                if p:
                    return p
                done = ev.k == "resume" or ev.k in ("call", "enter") and ev.q == EVSET
                if ev.k == "store" and ev.a[0][0] == "addr" and (fld and ev.a[0] == this(fld) or base and fields_in(ev.a[0]) and base in fields_in(ev.a[0]) and not ev.a[0][2]):
                    return ("keep", ev.a[1])
                if ev.k == "store" and base and ev.a[0][0] == "ld" and last_field(ev.a[0][1]) == base:
                    return ("keep", ev.a[1])
                if done and count(seq, "pred"):
                    p = [x[1] for x in seq if x[0] == "pred"][-1]
                    k = [x[1] for x in seq if x[0] == "keep"]
                    if not k or k[-1] != p and not contains(k[-1], p) and not (truth(ctx.E, p, ev.facts) is not None and truth(ctx.E, k[-1], ev.facts) is truth(ctx.E, p, ev.facts)):
                        raise Violation("the caller is woken without being told the predicate's result", ev)
                return None
            ctx.paths(f, cl, lambda s, e: (), "predicate result kept", opaque=OPQ)
    if n < 3:
        raise AnalysisError("no predicate forms")


def on_notify(ev):
    return ev.k == "corocall" and short(ev.q) == "on_notify" or ev.k == "call" and short(ev.q) == "on_notify" or ev.k == "call" and ev.q == "indirect" and len(ev.a) == 2


@rule("C05.one", "C05 C23 C24", "notify_one takes one waiter off the list under the pop mutex, notifies it once, and goes on only if that waiter was already dead")
def r_one(ctx):
    st = status(ctx)
    for f in ctx.fns(CV + "::notify_one", lambda f: not f.get("pn")):
        def cl(ev, seq, held):
            own = any(F(l) == POPMX for l in held)
            if ev.k in ("lock", "unlock") and F(ev) == POPMX:
                return (ev.k,)
            r = listop(ctx, ev, WL, NXT)
            if r:
                if r[0] == "bad":
                    raise Violation(r[1], ev)
                if not own:
                    raise Violation("a waiter is taken off the list without the pop mutex: another notifier may be resuming it", ev)
                if r[0] != "pop":
                    raise Violation("notify_one changes the list other than by taking one waiter off it", ev)
                if r[2] not in ACQ:
                    raise Violation("a waiter is taken off the list without acquire ordering", ev)
                return [("pop", r[1]), ("clear",)]
            if ev.k == "load" and ev.a[0][0] == "addr" and ev.a[0][2] and ev.a[0][2][-1] == NXT and not own:
                raise Violation("the link of a waiter is read without the pop mutex", ev)
            if ev.k == "atomic" and F(ev) == WL and ev.q == "load":
                return ("head", ev.r)
            if ev.k == "atomic" and F(ev) == WL and ev.q == "cas":
                return ("head", ev.r)
            pop = [x[1] for x in seq if x[0] == "pop"]
            if pop and ev.k in ("load", "store", "atomic") and count(seq, "notified") and ev.a and ev.a[0][0] == "addr" and ev.a[0][1] == pop[-1]:
                raise Violation("the waiter is touched after it was notified", ev)
            if on_notify(ev):
                if own:
                    raise Violation("a waiter is notified while the pop mutex is held", ev)
                a = [x for x in ev.a if x in pop] if pop else []
                if not a:
                    raise Violation("notifies something other than the waiter taken off the list", ev)
                return ("notified",)
            if ev.k == "await":
                return ("await",)
            if ev.k == "resume":
                raise Violation("notify_one resumes a coroutine itself", ev)
            return None
        ctx.ob("%s: one waiter notified" % f["q"])
        ctx.monitor(f, OneMon(ctx, cl, st), opaque=OPQ)


class OneMon(Monitor):
    """per round: pop -> notified -> awaited -> outcome read; state (phase, popped, head, known)"""
    init = (0, None, None, frozenset(), frozenset())

    def __init__(self, ctx, cl, st):
        self.ctx, self.cl, self.st = ctx, cl, st

    def step(self, S, ev):
        ph, pop, head, held, known = S
        if ph == 9:
            return S
        if awaited_throw(ev):
            return (9, None, None, frozenset(), frozenset())
        seq = ([("pop", pop)] if pop is not None else []) + ([("notified",)] if ph >= 2 else [])
        if ev.k == "br" and ev.x:
            p, pol = ev.x
            if ph >= 3 or head is not None and (contains(p[1], head) or contains(p[2], head)):
                known = known | {(p, pol)}
        l = self.cl(ev, seq, held)
        if ev.k == "lock":
            held = held | {ev.a[0]}
        elif ev.k == "unlock":
            held = held - {ev.a[0]}
        fx = dict(ev.facts or {})
        for p, pol in known:
            fx.setdefault(p, pol)
        for x in (l if isinstance(l, list) else [l] if l else []):
            if x[0] == "head":
                head = x[1]
            if x[0] == "pop":
                if ph == 1:
                    raise Violation("a second waiter is taken off the list before the first was notified", ev)
                if ph == 2:
                    raise Violation("the outcome of notifying a waiter is not awaited", ev)
                if ph == 3:
                    # only a dead waiter lets it go on
                    if not self.dead(fx):
                        raise Violation("one notification is spent on more than one waiter", ev)
                ph, pop, known = 1, x[1], frozenset()
            elif x[0] == "notified":
                if ph != 1:
                    raise Violation("the same waiter is notified twice", ev)
                ph = 2
            elif x[0] == "await" and ph == 2:
                ph, known = 3, frozenset()
        if ev.k == "exit" and ev.q == "coroend":
            if ph == 1:
                raise Violation("a waiter was taken off the list and is not notified", ev)
            if ph == 2:
                raise Violation("the outcome of notifying a waiter is not awaited", ev)
            if ph == 0 and head is None and not pop:
                pass
            if ph == 0 and head is not None and eq_fact(self.ctx.E, fx, head, ZERO) is not True:
                raise Violation("gives up although there may be a waiter", ev)
            if ph == 3 and self.dead(fx) and not (head is not None and eq_fact(self.ctx.E, fx, head, ZERO) is True):
                raise Violation("gives up after a waiter that had already timed out: the notification is lost", ev)
        return (ph, pop, head, held, known)

    def dead(self, fx):
        d = ("c", self.st["awaiter_dead"])
        neq = set()
        for (k, b) in fx.items():
            if k[0] == "eq" and k[2][0] == "c" and b is True and k[2] == d and k[1][0] != "c":
                if self.outcome(k[1]):
                    return True
            if k[0] == "eq" and k[2][0] == "c" and b is False and self.outcome(k[1]):
                neq.add(k[2][1])
        return neq >= {self.st["ready"], self.st["not_ready"]}

    def outcome(self, v):
        # a value that came out of the awaited task
        return contains(v, "coro::detail::promise::m_storage") or contains(v, "promiseof") or v[0] in ("r", "ld")


@rule("C05.all", "C05 C23 C24", "notify_all takes the whole list at once under the pop mutex and notifies each waiter once, reading its successor first")
def r_all(ctx):
    for f in ctx.fns(CV + "::notify_all", least=2):
        def take(ev):
            r = listop(ctx, ev, WL, NXT)
            if r is None:
                return None
            if r[0] != "popall":
                raise Violation("notify_all changes the list other than by taking all of it", ev)
            if r[2] not in ACQ:
                raise Violation("the waiters are taken without acquire ordering", ev)
            return r[1]
        spawn = {}

        def sink(ev):
            if on_notify(ev):
                return next((a for a in ev.a if isinstance(a, tuple) and a and a[0] in ("ld", "r", "it") or a == ANY), None)
            if ev.k == "corocall" and short(ev.q) == "make_notify_all_executor_individual_task":
                return ev.a[-1]
            return None
        ctx.ob("%s: each waiter notified once" % (f.get("dem") or f["q"]))
        ctx.monitor(f, WalkMon(ctx, take, NXT, HND, sink=sink), opaque=OPQ | {"coro::thread_pool::spawn_detached"})

        def cl(ev, seq, held):
            own = any(F(l) == POPMX for l in held)
            if listop(ctx, ev, WL, NXT) and not own:
                raise Violation("the waiters are taken without the pop mutex: another notifier may be resuming them", ev)
            if listop(ctx, ev, WL, NXT):
                return ("take",)
            if ev.k == "atomic" and F(ev) == WL:
                return ("head", ev.r)
            if on_notify(ev):
                if own:
                    raise Violation("a waiter is notified while the pop mutex is held", ev)
                return ("notify",)
            if ev.k == "await" and count(seq, "notify"):
                return ("await",)
            if ev.k == "corocall" and short(ev.q) == "make_notify_all_executor_individual_task":
                return ("task",)
            if ev.k in ("call", "enter") and short(ev.q) == "spawn_detached":
                return ("spawn",)

        def final(seq, ev):
            if ev.q not in ("ret", "coroend"):
                return
            n = names(seq)
            if n.count("notify") != n.count("await"):
                yield "the notification of a waiter is started and not awaited"
            if n.count("task") != n.count("spawn"):
                yield "the notification of a waiter is prepared and not handed to the executor"
            if "take" not in n:
                h = [x[1] for x in seq if x[0] == "head"]
                if (h or ev.q == "ret") and not any(eq_fact(ctx.E, ev.facts, v, ZERO) is True for v in h):
                    yield "returns although there may be waiters"
        ctx.paths(f, cl, final, "all waiters taken", opaque=OPQ | {"coro::thread_pool::spawn_detached"}, cap=3, skip_exc=True)
    for f in ctx.fns(CV + "::make_notify_all_executor_individual_task"):
        w = ("arg", f["pn"][0])

        def cl2(ev, seq):
            if on_notify(ev):
                if w not in ev.a:
                    raise Violation("notifies something other than the given waiter", ev)
                return ("notify",)
            if ev.k == "await" and count(seq, "notify"):
                return ("await",)
            if count(seq, "await") and ev.k in ("load", "store", "atomic") and ev.a and ev.a[0][0] == "addr" and ev.a[0][1] == w:
                raise Violation("the waiter is touched after it was notified", ev)
            if listop(ctx, ev, WL, NXT):
                raise Violation("the list of waiters is changed for a waiter that was already notified", ev)

        def final2(seq, ev):
            if ev.q == "coroend" and names(seq) != ["notify", "await"] and seq:
                yield "the waiter is not notified exactly once"
            if ev.q == "coroend" and not seq:
                yield "the waiter is not notified"
        ctx.paths(f, cl2, final2, "waiter notified once", opaque=OPQ)
    for f in ctx.fns(CV + "::notify_one", lambda f: f.get("pn")):
        def cl4(ev, seq):
            if ev.k == "corocall" and ev.q == CV + "::notify_one":
                if ev.a[-1] != ("arg", "this"):
                    raise Violation("notifies another condition variable", ev)
                return ("make",)
            if ev.k in ("call", "enter") and short(ev.q) == "spawn_detached":
                return ("spawn",)

        def final4(seq, ev):
            if ev.q == "ret" and names(seq) != ["make", "spawn"]:
                yield "the notification is not handed to the executor"
        ctx.paths(f, cl4, final4, "handed to the executor", opaque=OPQ | {"coro::thread_pool::spawn_detached"})


@rule("C05.hook", "C05 C24", "a notification of a timed wait claims it under the event mutex unless time ran out first, and wakes the callback task exactly when the wait ended")
def r_hook(ctx):
    st = status(ctx)
    byval = {v: k for k, v in st.items()}
    cvs = dict(ctx.P.enums.get("std::cv_status") or [("no_timeout", 0), ("timeout", 1)])
    for f in ctx.fns(HOOK + "::on_notify"):
        def cl(ev, seq, held):
            gone = count(seq, "cb") or count(seq, "push") and count(seq, "unlockw")
            owne = any(which_mutex(l) == "e" for l in held)
            if gone and ev.k in ("load", "store", "atomic") and ev.a and of_this(ev.a[0]):
                raise Violation("the hook is touched after the wait ended or the hook may have been notified again", ev)
            m = cl_mutex(ev) or hasl(ev, "haspred", PRED) or hasl(ev, "hasstop", STOP)
            if m:
                return m
            p = push_letter(ctx, ev, ("arg", "this"))
            if p:
                if p[0] != "push":
                    raise Violation("notifying one waiter takes others off the list", ev)
                return p
            if predcall(ev):
                if not any(which_mutex(l) == "w" for l in held):
                    raise Violation("the predicate is evaluated without the caller's lock", ev)
                return predcall(ev)
            if ev.k == "call" and ev.q.endswith("stop_token::stop_requested"):
                return ("stop", ev.r)
            if ev.k == "atomic" and F(ev) == DONE and ev.q != "init":
                if not owne:
                    raise Violation("the completion of a timed wait is %s without the event mutex" % ("read" if ev.q == "load" else "decided"), ev)
                if ev.q == "load":
                    return ("done", ev.r)
                if ev.q == "cas":
                    return ("claim", ev.a[1]) if ev.x[0] and ev.a[2] == ONE else ("done", ev.r)
                if (ev.a[1]) != ONE:
                    raise Violation("the completion of a timed wait is taken back", ev)
                return ("claim", None)
            if ev.k in ("call", "enter") and ev.q == EVSET:
                if F(loc_of(ev.a[0])) != NCB:
                    raise Violation("sets some other event", ev)
                if owne:
                    raise Violation("the callback is woken while the event mutex is held: the data it guards is freed under it", ev)
                return ("cb",)
            if ev.k == "resume":
                raise Violation("the hook resumes a coroutine itself", ev)
            v = retval(ctx, ev)
            if v is not None and not count(seq, "ret"):
                return ("ret", v)
            if ev.k == "store" and ev.a[0][0] == "addr" and ev.a[0][2] and ev.a[0][2][-1] == CD + "::m_notified":
                return ("notified", ev.a[1], owne)
            if not owne and ev.k in ("load", "store") and False:
                return None
            return None

        def final(seq, ev):
            if ev.q != "coroend" or not seq:
                return
            n = names(seq)
            core = [x for x in n if x in ("locke", "unlocke", "lockw", "unlockw", "push", "claim", "cb")]
            r = [x[1] for x in seq if x[0] == "ret"]
            r = byval.get(r[0][1]) if r and r[0][0] == "c" else None
            d = [x[1] for x in seq if x[0] == "done"]
            if core[:1] != ["locke"]:
                yield "the event mutex is not taken first"
                return
            if n.count("locke") != 1 or n.count("unlocke") != 1:
                yield "the event mutex is not taken and released exactly once"
                return
            if not d:
                yield "does not find out whether the wait had already timed out"
                return
            t = truth(ctx.E, d[0], ev.facts)
            if t is None:
                yield "does not find out whether the wait had already timed out"
            elif t:
                if "lockw" in n or "push" in n or "claim" in n:
                    yield "a wait that has timed out is treated as waiting: its caller may be gone"
                if n.count("cb") != 1:
                    yield "the callback task of a wait that timed out is never ended"
                if r != "awaiter_dead":
                    yield "a wait that has timed out is not reported as dead"
            else:
                p = [truth(ctx.E, x[1], ev.facts) for x in seq if x[0] == "pred"]
                s = [truth(ctx.E, x[1], ev.facts) for x in seq if x[0] == "stop"]
                if "lockw" not in n:
                    yield "the caller's lock is not taken for it"
                    return
                if "claim" in n:
                    if "unlockw" in n or "push" in n:
                        yield "a woken waiter does not own its lock, or stays registered"
                    if n.count("cb") != 1 or r != "ready" or n.count("claim") != 1:
                        yield "a waiter that is ready is not woken exactly once and reported ready"
                    if p and p != [True] and s != [True]:
                        yield "the waiter is woken although its predicate is not known to be true and no stop is requested"
                    if not p and ("haspred", False) not in seq:
                        yield "the waiter is woken without its predicate being evaluated"
                    nt = [x for x in seq if x[0] == "notified"]
                    if nt and (nt[-1][1] != ONE or not nt[-1][2]):
                        yield "the callback task is not told that the wait was notified"
                    if not nt and ctx.fields(CD).get("m_notified"):
                        yield "the callback task is not told that the wait was notified"
                    if not nt and not ctx.fields(CD).get("m_notified"):
                        pass
                else:
                    if [x for x in core if x in ("push", "unlockw", "cb")] != ["push", "unlockw"]:
                        yield "the waiter is neither woken nor registered again before its lock is released" if n.count("push") != 1 or "cb" in n else \
                            "the waiter's lock is released before it is registered again: a notification in between is lost"
                    if r != "not_ready":
                        yield "a waiter that stays registered is reported as done"
                    if p != [False]:
                        yield "a waiter that may be ready is not woken"
                    if s and s != [False]:
                        yield "a waiter asked to stop is not woken"
                    if not s and ("hasstop", False) not in seq:
                        yield "a waiter asked to stop is not woken"
        ctx.paths(f, cl, final, "claim xor register again xor dead", opaque=OPQ, cap=3, skip_exc=True)


@rule("C05.timeout", "C05 C24", "time running out ends a wait only if it can be claimed under the event mutex, and resumes the caller once with its lock held")
def r_timeout(ctx):
    for f in ctx.fns(AW + "::make_timeout_task", least=2):
        def cl(ev, seq, held):
            owne = any(which_mutex(l) == "e" for l in held)
            mine = count(seq, "claim")
            if ev.k == "br" and ev.x and not mine:
                x = [y[1] for y in seq if y[0] == "xchg"]
                if x and truth(ctx.E, x[-1], {ev.x[0]: ev.x[1]}) is False:
                    return ("claim",)
            if ev.k in ("load", "store", "atomic") and ev.a and of_this(ev.a[0]) and not mine:
                raise Violation("the waiting call is touched although a notification may already have ended it", ev)
            if count(seq, "resume") and ev.k in ("load", "store", "atomic") and ev.a and of_this(ev.a[0]):
                raise Violation("the waiting call is touched after its coroutine was resumed", ev)
            m = cl_mutex(ev) or hasl(ev, "haspred", PRED) or hasl(ev, "hasstop", STOP)
            if m:
                return m
            if ev.k in ("call", "corocall", "enter") and (short(ev.q) in ("schedule_after", "yield_for")) and not count(seq, "sleep"):
                return ("sleep",)
            if ev.k == "await" and count(seq, "sleep"):
                return ("await",)
            if ev.k == "atomic" and F(ev) == DONE and ev.q != "init":
                if not owne:
                    raise Violation("the completion of a timed wait is decided without the event mutex", ev)
                if ev.q == "cas":
                    if ev.x[3]:
                        raise Violation("time running out can be missed by a spurious failure", ev)
                    if ev.x[0] and (ev.a[1] != ZERO or ev.a[2] != ONE):
                        raise Violation("a wait that was already completed is completed again", ev)
                    return ("claim",) if ev.x[0] else ("lost",)
                if ev.q == "load":
                    return ("done", ev.r)
                if ev.q == "xchg" and ev.a[1] == ONE:
                    return ("xchg", ev.r)
                d = [x[1] for x in seq if x[0] == "done"]
                if ev.q == "store" and ev.a[1] == ONE and d and truth(ctx.E, d[-1], ev.facts) is False:
                    return ("claim",)
                raise Violation("a wait that was already completed is completed again", ev)
            if predcall(ev):
                if not any(which_mutex(l) == "w" for l in held):
                    raise Violation("the predicate is evaluated without the caller's lock", ev)
                return predcall(ev)
            if ev.k == "resume":
                o, m = handle_of(ev.a[0])
                if (o, m) != (("arg", "this"), HND):
                    raise Violation("resumes something other than the waiter", ev)
                return ("resume",)

        def final(seq, ev):
            if ev.q != "coroend" or "sleep" not in names(seq):
                return
            n = names(seq)
            if "await" not in n or n.index("await") > n.index("locke") if "locke" in n else False:
                yield "does not wait for the time to run out"
            core = [x for x in n if x in ("locke", "unlocke", "lockw", "unlockw", "claim", "resume")]
            if "locke" not in n:
                return                              # the clock itself failed
            if n.count("locke") != 1 or n.count("unlocke") != 1:
                yield "the event mutex is not taken and released exactly once"
            if "claim" in n:
                if n.count("resume") != 1 or "lockw" not in n or n.index("lockw") > n.index("resume") or "unlockw" in n:
                    yield "the caller is not resumed exactly once with its lock held"
                if "pred" not in n and ("haspred", False) not in seq:
                    yield "the predicate is not evaluated after time ran out"
                if "unlocke" in n and "resume" in n and n.index("unlocke") > n.index("resume"):
                    yield "the event mutex is held while the caller is resumed"
            elif "resume" in n or "lockw" in n:
                yield "a wait that was already completed by a notification is completed again"
        ctx.paths(f, cl, final, "claim before resuming", opaque=OPQ, cap=3, skip_exc=True)
    for f in ctx.fns(AW + "::make_on_notify_callback_task", least=2):
        def cl2(ev, seq):
            if ev.k == "atomic" and "coro::event::m_state" in fields_in(ev.a[0]) and NCB in fields_in(ev.a[0]):
                return ("event",)
            if ev.k == "load" and ev.a[0][0] == "addr" and ev.a[0][2] and ev.a[0][2][-1] == CD + "::m_notified":
                return ("notified", ev.r)
            if ev.k == "resume":
                o, m = handle_of(ev.a[0])
                if (o, m) != (("arg", "this"), HND):
                    raise Violation("resumes something other than the waiter", ev)
                nt = [x[1] for x in seq if x[0] == "notified"]
                if not nt or truth(ctx.E, nt[-1], ev.facts) is not True:
                    raise Violation("the caller is resumed without a notification having ended its wait: it may be gone", ev)
                return ("resume",)
            if ev.k in ("load", "store", "atomic") and ev.a and of_this(ev.a[0]):
                nt = [x[1] for x in seq if x[0] == "notified"]
                if count(seq, "resume") or not nt or truth(ctx.E, nt[-1], ev.facts) is not True:
                    raise Violation("the waiting call is touched although it may be gone", ev)

        def final2(seq, ev):
            if ev.q != "coroend" or "event" not in names(seq):
                return
            nt = [x[1] for x in seq if x[0] == "notified"]
            t = truth(ctx.E, nt[-1], ev.facts) if nt else None
            if t is None:
                yield "does not find out whether a notification ended the wait"
            elif t != (count(seq, "resume") == 1):
                yield "the notified caller is not resumed exactly once"
        ctx.paths(f, cl2, final2, "resume iff notified", opaque=OPQ)


@rule("C05.controller", "C05 C24", "a timed wait registers its hook before releasing the caller's lock, lives until both of its tasks ended, and then touches nothing of the caller")
def r_controller(ctx):
    tasks = ("make_on_notify_callback_task", "make_timeout_task")
    for f in ctx.fns(AW + "::make_controller_task", least=2):
        def cl(ev, seq, held):
            if count(seq, "unlockw") and ev.k in ("load", "store", "atomic") and ev.a and of_this(ev.a[0]):
                raise Violation("the waiting call is touched after its lock was released (a notification may have ended it)", ev)
            m = cl_mutex(ev) or hasl(ev, "haspred", PRED) or hasl(ev, "hasstop", STOP)
            if m:
                return m
            r = listop(ctx, ev, WL, NXT)
            if r:
                if r[0] != "push":
                    raise Violation("registering a timed wait does something else to the list", ev)
                o = loc_of(r[1])
                if ev.mem.get(addr(o, (NXT,))) != r[2]:
                    raise Violation("the waiter is queued without linking the waiters already queued", ev)
                if r[3] not in REL:
                    raise Violation("the waiter is registered without release ordering", ev)
                cvv = ev.mem.get(addr(o, (CVP,)))
                if cvv is None or ev.a[0][1] != cvv:
                    raise Violation("the hook is registered with another condition variable than it knows", ev)
                d = ev.mem.get(addr(o, (HOOK + "::m_data",)))
                if d is None:
                    raise Violation("the hook is registered before it knows its data", ev)
                return ("push", o, d)
            if ev.k == "corocall" and short(ev.q) in tasks:
                d = [x[2] for x in seq if x[0] == "push"]
                if d and d[0] not in ev.a and addr(d[0], ()) not in ev.a:
                    raise Violation("the tasks of a timed wait use other data than its hook", ev)
                return ("task", short(ev.q))
            if ev.k in ("call", "enter") and ev.q == "coro::when_all":
                return ("all",)
            if (ev.k in ("await", "suspend") or ev.k == "atomic" and ev.q == "sub" and F(ev) == "coro::detail::when_all_latch::m_count") and count(seq, "all") and not count(seq, "await"):
                return ("await",)
            if ev.k == "resume":
                return None
            if ev.k in ("call", "enter") and ev.q == CD + "::$dtor":
                return ("free",)

        def final(seq, ev):
            if ev.q not in ("coroend",) or "push" not in names(seq):
                return
            n = names(seq)
            if [x for x in n if x in ("push", "unlockw", "lockw")] != ["push", "unlockw"]:
                yield "the hook is not registered exactly once before the caller's lock is released exactly once"
            if sorted(x[1] for x in seq if x[0] == "task") != sorted(tasks) or "all" not in n:
                yield "the notification task and the timeout task are not both started and waited for"
            elif "await" not in n:
                yield "the data of a timed wait is freed before its tasks have ended"
        ctx.paths(f, cl, final, "hook, tasks, lifetime", opaque=OPQ, cap=3, skip_exc=True)
    for f in ctx.fns(AW + "::await_suspend", least=2):
        h = ("arg", (f.get("pn") or ["awaiting_coroutine"])[0])

        def cl2(ev, seq):
            if ev.k == "corocall" and short(ev.q) == "make_controller_task":
                return ("make",)
            if ev.k == "br" and ev.x and ev.x[0][0] == "eq" and ev.x[0][1][:2] == ("r", "done") and ev.x[0][2] == ZERO and not count(seq, "run"):
                return ("done", not ev.x[1])
            if ev.k == "store" and ev.a[0] == this(HND):
                return ("handle", ev.a[1])
            if ev.k == "resume":
                v = [x[1] for x in seq if x[0] == "handle"]
                if not v or not (v[-1] == h or contains(v[-1], h)):
                    raise Violation("the controller runs before the coroutine handle is stored", ev)
                return ("run",)
            if count(seq, "run") and ev.k in ("load", "store", "atomic") and ev.a and of_this(ev.a[0]):
                raise Violation("the waiting call is touched after the controller was started", ev)

        def final2(seq, ev):
            if ev.q == "ret":
                if ("done", True) in seq:
                    return              # a new coroutine is not done
                if [x for x in names(seq) if x in ("make", "run")] != ["make", "run"]:
                    yield "the controller of a timed wait is not started exactly once"
                if truth(ctx.E, ev.r, ev.facts) is not True:
                    yield "the coroutine continues although its wait was started"
        ctx.paths(f, cl2, final2, "controller started once", opaque=OPQ)


@rule("C05.bind", "C05", "every form of wait uses this condition variable, the caller's lock and the predicate, stop token and duration it was given")
def r_bind(ctx):
    n = 0
    for nm in ("wait", "wait_for", "wait_until"):
        for f in ctx.fns(CV + "::" + nm, least=3):
            n += 1
            pn = f["pn"]

            def cl(ev, seq):
                if ev.k == "enter" and ev.q == AB + "::$ctor":
                    return ("base", ev.a[1:])
                if ev.k == "call" and ev.q.endswith(("function::$ctor",)) and len(ev.a) > 1:
                    return ("mv", ev.a[0], ev.a[1])

            def final(seq, ev):
                if ev.q != "ret":
                    return
                b = [x[1] for x in seq if x[0] == "base"]
                if not b or b[-1][0] != ("arg", "this") or b[-1][1] != ("arg", "lock"):
                    yield "the wait is not on this condition variable with the caller's lock"
            ctx.paths(f, cl, final, "bound to its arguments", opaque=OPQ)
            # which awaiter (with predicate, with stop token) the overload builds is fixed by its constructor arguments
            ctx.ob("%s: predicate and stop token used" % f["dem"][-160:])
            used = set()
            for b in f["blocks"]:
                for i in b:
                    for a in i.get("a", []):
                        if isinstance(a, dict) and "arg" in a:
                            used.add(a["arg"])
            g = ctx.graph(f, opaque=OPQ)
            seen = set()
            for es in g.edges:
                for evs, m in es:
                    for e in evs:
                        ind = [v for a in e.a if e.mem and isinstance(a, tuple) and root_of(loc_of(a))[0] == "alloca" for k, v in e.mem.items()
                               if k[0] == "addr" and k[1] == root_of(loc_of(a))] if e.k in ("call", "enter") else []
                        for a in list(e.a) + [e.r] + ind:
                            if isinstance(a, tuple):
                                for p in pn:
                                    if contains(a, ("arg", p)):
                                        seen.add(p)
            for p in pn:
                if p not in seen:
                    ctx.violate(f, f.get("loc"), "the argument %s has no effect on the wait" % p)
    if n < 9:
        raise AnalysisError("forms of wait missing")
    for c in ["awaiter_base"]:
        for f in ctx.fns(AB + "::$ctor"):
            def final3(seq, ev, f=f):
                if ev.mem.get(this(CVP)) != ("arg", f["pn"][0]) or ev.mem.get(this(LK)) != ("arg", f["pn"][1]):
                    yield "the waiter does not refer to its condition variable and lock"
                if ev.mem.get(this(NXT)) != ZERO:
                    yield "a new waiter is linked to something"
            ctx.paths(f, lambda e, s: None, final3, "initial state")

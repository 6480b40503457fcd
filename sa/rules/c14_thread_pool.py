"""C14: thread_pool."""
from .base import *
from .comp import *

TP = "coro::thread_pool"
SZ, SD, Q, MX, CV, TH = (TP + "::" + x for x in ("m_size", "m_shutdown_requested", "m_queue", "m_wait_mutex", "m_wait_cv", "m_threads"))
PSD = "coro::detail::promise_self_deleting"
PUSH = ("emplace_back", "push_back", "emplace_front", "push_front")


def single(f):
    return bool(f.get("pt")) and f["pt"][0].replace("const ", "").startswith(("std::coroutine_handle", "coroutine_handle"))


def mutex_held(held, mx):
    return any(isinstance(h, tuple) and h[0] == "addr" and last_field(h) == mx for h in held)


def is_mx(v, mx):
    return isinstance(v, tuple) and v[0] == "addr" and last_field(v) == mx


def pool_letter(ev, seq, held):
    """what an event does to the pool's shared state"""
    if ev.k == "atomic":
        f = F(ev)
        if f == SZ:
            if ev.q in ("add", "sub"):
                return (ev.q, ev.a[1], ev.x)
            return ("size", ev.r) if ev.q == "load" else ("write",)
        if f == SD:
            return ("shut", ev.r, mutex_held(held, MX)) if ev.q == "load" else ("shut!", ev.q, ev.r, ev.a[1] if len(ev.a) > 1 else None)
    if ev.k == "call" and ev.a:
        f, n = F(ev), short(ev.q)
        if f == Q:
            if n in PUSH:
                return ("push", ev.mem.get(loc_of(ev.a[1]), ev.a[1]) if len(ev.a) > 1 else None, mutex_held(held, MX), ev.a[1] if len(ev.a) > 1 else None)
            if n in ("pop_front", "pop_back", "clear", "erase"):
                return ("pop",)
        if f == CV and n in ("notify_one", "notify_all"):
            return (n, mutex_held(held, MX))
    if ev.k == "unlock" and is_mx(ev.a[0], MX):
        return ("unlock",)
    if ev.k == "resume":
        return ("run", ev.a[0])
    return None


def accept_messages(ctx, seq, ev, p, want_net):
    """the hand-over of handle p: returns (messages, accepted)"""
    n = names(seq)
    out = []
    push = [i for i, x in enumerate(seq) if x[0] == "push"]
    net = sum(1 if x[1] == ONE else None or 99 for x in seq if x[0] == "add") - sum(1 if x[1] == ONE else 99 for x in seq if x[0] == "sub")
    if "write" in n or "pop" in n:
        out.append("the pool's accounting is overwritten")
    if "run" in n:
        out.append("the coroutine is resumed on the caller's thread")
    if len(push) > 1:
        out.append("the coroutine is queued twice")
    if push:
        k = push[0]
        x = seq[k]
        if x[1] != p and not contains(x[1], p) and x[3] != p and root_of(loc_of(x[3])) != p:
            out.append("something other than the given coroutine is queued")
        if not x[2]:
            out.append("the queue is changed without its mutex")
        sess = max([-1] + [i for i in range(k) if seq[i][0] == "unlock"])
        seen = [y for y in seq[sess + 1:k] if y[0] == "shut" and y[2]]
        if not any(nulls(ctx, ev, y[1]) is True for y in seen):
            out.append("work is queued although the workers may already have left: shutdown is not looked at under the mutex they leave with")
        after = [i for i, y in enumerate(seq) if y[0] in ("notify_one", "notify_all")]
        if not any(i > k or seq[i][1] and "unlock" not in names(seq[i:k]) for i in after):
            out.append("no worker is woken for the queued coroutine")
        if want_net and "add" in n and n.index("add") > k:
            out.append("the work becomes visible before it is counted")
        if net != want_net:
            out.append("the work queued is not counted exactly once")
    else:
        if net != want_net - 1:
            out.append("work that was refused stays counted" if net > want_net - 1 else "work that was refused is un-counted too often")
    return out, bool(push)


@rule("C14.accept", "C14 C25 C24", "a coroutine is counted before it is queued, queued once under the mutex while workers are known to be there, a worker is woken; otherwise it is un-counted and refused")
def r_accept(ctx):
    E = ctx.E
    for f in ctx.fns(TP + "::resume", lambda f: single(f)):
        p = ("arg", f["pn"][0])

        def final(seq, ev):
            if ev.q != "ret":
                return
            ms, ok = accept_messages(ctx, seq, ev, p, 1)
            yield from ms
            r = truth(E, ev.r, ev.facts)
            if r is not ok:
                yield "a coroutine that was queued is reported as refused" if ok else "a coroutine that was not queued is reported as accepted"
        ctx.paths(f, pool_letter, final, "accepts or refuses", cap=3)
    for f in ctx.fns(TP + "::schedule_operation::await_suspend"):
        p = ("arg", f["pn"][0])

        def cl(ev, seq, held):
            l = pool_letter(ev, seq, held)
            if l:
                return l
            if ev.k in ("load", "store") and isinstance(ev.a[0], tuple) and ev.a[0][0] == "addr" and ev.a[0][1] == ("arg", "this") and "push" in names(seq):
                return ("late",)

        def final(seq, ev):
            if ev.q != "ret":
                return
            ms, ok = accept_messages(ctx, seq, ev, p, 0)
            yield from ms
            if (f.get("crt") or "") == "void":
                if not ok:
                    yield "a coroutine that was not queued stays suspended forever"
                return
            r = truth(E, ev.r, ev.facts)
            if ok and r is not True:
                yield "the coroutine goes on although it was queued"
            if not ok and r is not False:
                yield "a coroutine that was not queued stays suspended forever"
            if ok and "late" in names(seq):
                yield "the operation is touched after its coroutine was queued"
        ctx.paths(f, cl, final, "queues the awaiting coroutine", cap=3)
    for f in ctx.fns(TP + "::schedule_operation::await_ready"):
        def cl(ev, seq):
            return None

        def final(seq, ev):
            if ev.q == "ret" and ev.r != ZERO:
                yield "scheduling may not move to the pool: the count taken is never given back"
        ctx.paths(f, cl, final, "always suspends")
    for f in ctx.fns(TP + "::schedule", lambda f: not f.get("pn")) + ctx.fns(TP + "::yield"):
        def final(seq, ev):
            net = sum(1 if x[1] == ONE else 99 for x in seq if x[0] == "add") - sum(1 if x[1] == ONE else 99 for x in seq if x[0] == "sub")
            if ev.q == "ret":
                if net != 1:
                    yield "scheduling is not counted exactly once"
                sh = [i for i, x in enumerate(seq) if x[0] == "shut"]
                if not sh or nulls(ctx, ev, seq[sh[-1]][1]) is not True:
                    yield "scheduling is possible after shutdown began"
                elif "add" in names(seq) and names(seq).index("add") > sh[-1]:
                    yield "the work is counted only after shutdown was looked at: the workers may have left in between"
            elif ev.q == "unwind" and net != 0:
                yield "a refused scheduling stays counted"
            if "push" in names(seq):
                yield "something is queued before there is a coroutine to resume"
        ctx.paths(f, pool_letter, final, "counts, or refuses", cap=3)


@rule("C14.range", "C14 C25", "every handle of a range is queued once under the mutex unless it is null; what was not queued is un-counted; workers are woken; the number queued is returned")
def r_range(ctx):
    E = ctx.E
    for f in ctx.fns(TP + "::resume", lambda f: not single(f)):
        ctx.ob("%s: queues each handle" % f["dem"][:120])
        a0 = ("arg", f["pn"][0])

        def lin(v):
            """v as whole*size + const"""
            if v[0] == "c":
                return (0, v[1])
            if v[0] == "r" and short(v[1]) in ("size", "ssize", "distance"):
                return (1, 0)
            if v[0] == "op" and v[1] in ("add", "sub"):
                x, y = lin(v[2]), lin(v[3])
                if x and y:
                    g = 1 if v[1] == "add" else -1
                    return (x[0] + g * y[0], x[1] + g * y[1])
            return None

        class M(EachMon):
            # extra state: counted (times the whole range, plus a number; None: unknown), pushes, nulls, held, shutdown as seen under the lock, notified
            init = (EachMon.init, 0, 0, 0, 0, False, None, 0, frozenset())

            def step(self, st, ev):
                base, whole, k, pushed, gone, held, shut, noted, known = st
                if ev.k == "br" and ev.x and isinstance(ev.x[0][1], tuple) and shut is not None and ev.x[0][1] == shut:
                    known = known | {ev.x}
                if ev.k == "lock" and is_mx(ev.a[0], MX):
                    held, shut, known = True, None, frozenset()
                elif ev.k == "unlock" and is_mx(ev.a[0], MX):
                    held = False
                    if base[0] == "more":
                        raise Violation("the handles of a range: the loop is left before the last element", ev)
                    if base[0] == "end":
                        base = ("over", 0, 0, ())
                elif ev.k == "atomic" and F(ev) == SD and ev.q == "load" and held:
                    shut = ev.r
                elif ev.k == "atomic" and F(ev) == SZ and ev.q in ("add", "sub"):
                    g = 1 if ev.q == "add" else -1
                    d = lin(ev.a[1])
                    if d is None or k is None:
                        k = None
                    else:
                        whole, k = max(-2, min(whole + g * d[0], 2)), max(-9, min(k + g * d[1], 9))
                elif ev.k == "call" and ev.a and F(ev) == CV and short(ev.q).startswith("notify"):
                    noted = 4 if short(ev.q) == "notify_all" else min(noted + 1, 4)
                elif ev.k == "call" and ev.a and F(ev) == Q and short(ev.q) in PUSH:
                    if not held:
                        raise Violation("the queue is changed without its mutex", ev)
                    if shut is None or nulls(ctx, with_facts(ev, known), shut) is not True:
                        raise Violation("work is queued although the workers may already have left: shutdown is not looked at under the mutex they leave with", ev)
                    if k is not None and whole < 1 and k <= pushed:
                        raise Violation("work becomes visible before it is counted", ev)
                    pushed = min(pushed + 1, 4)
                elif act(ev) == ("null",):
                    gone = min(gone + 1, 4)
                if ev.k == "exit" and ev.q == "ret":
                    if 0 < pushed < 4 and noted < pushed and ev.r != ("any",) and possible(ev.facts, {ev.r: pushed}):
                        raise Violation("no worker is woken for the queued coroutines" if not noted else "fewer workers are woken than coroutines were queued", ev)
                    if base[0] is None:
                        if whole or k:
                            raise Violation("work that was refused stays counted", ev)
                        if eq_fact(E, ev.facts, ev.r, ZERO) is not True:
                            raise Violation("refused work is reported as accepted", ev)
                    elif pushed < 4 and gone < 4:
                        if k is not None and (whole, k) not in ((1, -gone), (0, pushed)):
                            raise Violation("the work queued is not counted exactly once", ev)
                        r = lin(ev.r)
                        if r and r not in ((1, -gone), (0, pushed)):
                            raise Violation("the number returned is not the number queued", ev)
                return (EachMon.step(self, base, ev), whole, k, pushed, gone, held, shut, noted, known)

        def act(ev):
            if ev.k == "call" and ev.a and F(ev) == Q and short(ev.q) in PUSH:
                return ev.a[1]
            if ev.k == "br" and ev.x and ev.x[0][0] == "eq" and ev.x[0][2] == ZERO and ev.x[1] and ev.x[0][1][0] == "ld" and "operator*" in str(ev.x[0][1]):
                return ("null",)
            return None
        ctx.monitor(f, M(E, act, lambda ev: ev.k == "exit" and False, "the handles of a range"))


def hook_lambdas(ctx, fn, member):
    return [f for f in ctx.P.fns.values() if f["q"].startswith(fn + "::") and "$lambda" in f["q"] and f["q"].endswith("::operator()") and
            any(e.k == "atomic" and F(e) == member for es in ctx.graph(f).edges for evs, m in es for e in evs)]


def spawn_rule(ctx, cls, sz, resume):
    """spawn_detached of an executor: counted, completion hooked, handed over once; a refusal frees, un-counts and is reported"""
    E = ctx.E
    for f in ctx.fns(cls + "::spawn_detached"):
        def cl(ev, seq):
            if ev.k == "atomic" and F(ev) == sz and ev.q in ("add", "sub"):
                return (ev.q, ev.a[1], ev.x)
            if ev.k == "corocall":
                return ("make", ev.r)
            if ev.k == "call" and ev.a and F(ev) == PSD + "::m_user_final_suspend" and short(ev.q) in ("operator=", "swap", "$ctor"):
                return ("hook",)
            if ev.k == "call" and ev.q in resume:
                return ("kick", ev.a[1], ev.r)
            if ev.k == "destroy" and ev.a[0][0] == "op" and ev.a[0][1] == "frameof":
                return ("free", ev.a[0])
            if ev.k == "resume":
                return ("inline",)
            if ev.k in ("load", "store") and "kick" in names(seq) and isinstance(ev.a[0], tuple) and F(ev).startswith(PSD):
                return ("late",)

        def final(seq, ev):
            if ev.q != "ret":
                return
            n = names(seq)
            if n.count("kick") != 1 or "inline" in n or n.count("make") != 1:
                yield "the task is not handed to the workers exactly once"
                return
            k = n.index("kick")
            add = [i for i, x in enumerate(seq) if x[0] == "add" and x[1] == ONE]
            if len(add) != 1 or add[0] > k:
                yield "the task is not counted exactly once before it can run"
            if "hook" not in n or n.index("hook") > k:
                yield "the task can end before its completion is hooked up: it stays counted"
            if seq[k][1][0] != "op" or seq[k][1][1] != "frameof":
                yield "something other than the wrapped task is handed over"
            ok = nulls(ctx, ev, seq[k][2])
            r = truth(E, ev.r, ev.facts)
            sub = [x for x in seq if x[0] == "sub"]
            fr = [x for x in seq if x[0] == "free"]
            if ok is None:
                yield "nobody looks whether the task was accepted"
            elif ok is False:
                if r is not True:
                    yield "an accepted task is reported as refused"
                if sub:
                    yield "an accepted task is un-counted by the caller as well"
                if fr:
                    yield "the frame of an accepted task is destroyed by the caller"
                if "late" in n:
                    yield "touches the task after it was handed over"
            else:
                if r is not False:
                    yield "a refused task is reported as accepted"
                if len(sub) != 1 or sub[0][1] != ONE:
                    yield "a refused task stays counted"
                if len(fr) != 1 or fr[0][1] != seq[k][1]:
                    yield "the frame of a refused task is never freed"
        ctx.paths(f, cl, final, "counts, hooks, hands over once", opaque=set(DEFAULT_OPAQUE) | set(resume))
    ls = hook_lambdas(ctx, cls + "::spawn_detached", sz)
    if not ls:
        raise AnalysisError("completion hook of %s::spawn_detached not found" % cls)
    for f in ls:
        def cl(ev, seq):
            if ev.k == "atomic" and F(ev) == sz and ev.q != "load":
                return (ev.q, ev.a[1], ev.x)

        def final(seq, ev):
            if [x[0] for x in seq] != ["sub"] or seq[0][1] != ONE:
                yield "a task that ended is not un-counted exactly once"
            elif seq[0][2] not in REL:
                yield "what the task did is not visible to whoever sees the count drop"
        ctx.paths(f, cl, final, "un-counts the task that ended")


@rule("C14.spawn", "C14 C25 C24", "a detached task is counted, hooked and handed over once; a refusal frees it, un-counts it and is reported; a joinable task that was refused is not reported as joined")
def r_spawn(ctx):
    spawn_rule(ctx, TP, SZ, (TP + "::resume",))
    joinable_rule(ctx, TP)


def joinable_rule(ctx, cls):
    TG = "coro::task_group"
    E = ctx.E
    for f in ctx.fns(cls + "::spawn_joinable"):
        def cl(ev, seq):
            if ev.k == "call" and ev.q == TG + "::start":
                return ("start", ev.r)
            if ev.k == "call" and ev.q == TG + "::$ctor" and len(ev.a) > 2:
                return ("ignore",)
            if ev.k == "corocall":
                return ("join", tuple(ev.a))
            if ev.k == "throw":
                return ("throw",)

        def final(seq, ev):
            if ev.q != "ret":
                return
            n = names(seq)
            if "ignore" in n:
                yield "nobody looks whether the task to join was accepted"
                return
            if n.count("start") != 1:
                yield "the task to join is not started exactly once"
                return
            s = [x for x in seq if x[0] == "start"][0][1]
            t = nulls(ctx, ev, s)
            told = any(x[0] == "join" and any(a == s or contains(a, s) for a in x[1] if isinstance(a, tuple)) for x in seq)
            if t is None and not told:
                yield "nobody looks whether the task to join was accepted"
        ctx.paths(f, cl, final, "a refusal is not dropped", opaque=set(DEFAULT_OPAQUE) | {TG + "::start", TG + "::$ctor"})


class ExecMon(Monitor):
    """The worker's loop: what is taken from the queue under the mutex is resumed once without it and un-counted once after;
    it sleeps only when the queue was seen empty and shutdown not requested, and leaves only when nothing can be queued any more."""
    # held, (value of the last look at the queue in this session), last shutdown value in this session, taken: None|(r, read, popped, resumed),
    # shutdown seen since when (None / value), final look after shutdown (None / ('empty', r) / ('size', r)), facts
    init = (False, None, None, None, None, None, frozenset())

    def __init__(self, ctx):
        self.ctx = ctx

    def step(self, st, ev):
        held, look, shut, taken, down, last, known = st
        if ev.k == "br" and ev.x:
            p, pol = ev.x
            if any(v is not None and (contains(p[1], v) or contains(p[2], v)) for v in (look, shut, down, last[1] if last else None)):
                known = known | {(p, pol)}
        fx = with_facts(ev, known)
        N = lambda v: nulls(self.ctx, fx, v) if v is not None else None
        if ev.k == "lock" and is_mx(ev.a[0], MX):
            held, look, shut = True, None, None
        elif ev.k == "unlock" and is_mx(ev.a[0], MX):
            held, look, shut = False, None, None
        elif ev.k == "cvwait":
            if not held:
                raise Violation("sleeps without the mutex", ev)
            if look is None or N(look) is not False:
                raise Violation("sleeps although the queue was not seen empty", ev)
            if shut is None or N(shut) is not True:
                raise Violation("sleeps although shutdown may have been requested", ev)
            look, shut = None, None
        elif ev.k == "atomic" and F(ev) == SD and ev.q == "load":
            shut = ev.r
            if down is None or N(down) is not False:
                down, last = ev.r, None
        elif ev.k == "atomic" and F(ev) == SZ and ev.q == "load":
            if down is not None and N(down) is False:
                last = ("size", ev.r)
        elif ev.k == "call" and ev.a and F(ev) == Q:
            n = short(ev.q)
            if not held:
                raise Violation("the queue is used without its mutex", ev)
            if n in ("empty", "size"):
                look = ev.r if n == "empty" else ("op", "eq", ev.r, ZERO)
                if down is not None and N(down) is False:
                    last = ("empty", look)
            elif n in ("front", "back", "operator[]", "at"):
                if N(look) is not True and not (look is not None and look[0] == "op" and truth(self.ctx.E, look, fx.facts) is False):
                    raise Violation("takes from a queue that was not seen non-empty", ev)
                if taken is not None:
                    raise Violation("a coroutine taken from the queue is dropped", ev)
                taken = (ev.r, False, False, False)
            elif n in ("pop_front", "pop_back"):
                if taken is None:
                    raise Violation("an element is removed from the queue without having been taken", ev)
                if taken[2]:
                    raise Violation("an element is removed from the queue without having been resumed", ev)
                if not taken[1]:
                    raise Violation("the element is removed before it was read", ev)
                taken = taken[:2] + (True,) + taken[3:]
                look = None
        elif ev.k == "load" and taken is not None and not taken[2] and (ev.a[0] == taken[0] or contains(ev.a[0], taken[0])):
            taken = (taken[0], True) + taken[2:]
        elif ev.k == "call" and taken is not None and not taken[2] and short(ev.q) == "$ctor" and any(isinstance(a, tuple) and contains(a, taken[0]) for a in ev.a):
            taken = (taken[0], True) + taken[2:]
        elif ev.k == "resume":
            if taken is None or not contains(ev.a[0], taken[0]):
                raise Violation("resumes something that was not taken from the queue", ev)
            if not taken[2]:
                raise Violation("the coroutine stays in the queue while it runs", ev)
            if taken[3]:
                raise Violation("the same coroutine is resumed twice", ev)
            if held:
                raise Violation("a coroutine runs while the worker holds the pool's mutex", ev)
            taken = taken[:3] + (True,)
        elif ev.k == "atomic" and F(ev) == SZ and ev.q == "sub":
            if taken is None or not taken[3]:
                raise Violation("work is un-counted before it has run", ev)
            if ev.a[1] != ONE:
                raise Violation("one coroutine is un-counted more than once", ev)
            if ev.x not in REL:
                raise Violation("what the coroutine did is not visible to whoever sees the count drop", ev)
            taken = None
        elif ev.k == "atomic" and F(ev) == SZ and ev.q not in ("load",):
            raise Violation("the count is changed otherwise than by un-counting what has run", ev)
        if taken is not None and (ev.k == "cvwait" or ev.k == "lock" and is_mx(ev.a[0], MX) or ev.k == "exit" and ev.q == "ret"):
            raise Violation("work that ran stays counted" if taken[3] else "a coroutine taken from the queue is not resumed", ev)
        if ev.k == "exit" and ev.q == "ret":
            if down is None or N(down) is not False:
                raise Violation("a worker leaves although shutdown was not requested", ev)
            ok = last is not None and (last[0] == "size" and N(last[1]) is True or
                                       last[0] == "empty" and (N(last[1]) is False or truth(self.ctx.E, last[1], fx.facts) is True))
            if not ok:
                raise Violation("a worker leaves without having seen the queue empty after shutdown was requested", ev)
        return (held, look, shut, taken, down, last, known)


@rule("C14.worker", "C14 C23 C24", "a worker resumes what it took exactly once without the mutex, un-counts it after, sleeps only when there is nothing to do, and leaves only when nothing more can come")
def r_worker(ctx):
    for f in ctx.fns(TP + "::executor"):
        ctx.ob(f["dem"] + ": loop")
        g = ctx.monitor(f, ExecMon(ctx))
        for k, w in (("resume", "never resumes anything"), ("cvwait", "never sleeps")):
            if not any(e.k == k for es in g.edges for evs, m in es for e in evs):
                ctx.violate(f, f.get("loc"), "a worker " + w)
    ls = [f for f in ctx.P.fns.values() if f["q"].startswith(TP + "::make_unique::") and f["q"].endswith("operator()")]
    if not ls:
        raise AnalysisError("worker threads' body not found")
    for f in ls:
        def cl(ev, seq):
            if ev.k == "call" and ev.q == TP + "::executor":
                return ("work",)

        def final(seq, ev):
            if ev.q == "ret" and count(seq, "work") != 1:
                yield "a worker thread does not run the worker loop"
        ctx.paths(f, cl, final, "runs the worker loop", opaque=set(DEFAULT_OPAQUE) | {TP + "::executor"})
    for f in ctx.fns(TP + "::make_unique"):
        ctx.ob(f["dem"] + ": starts every worker")

        class W(EachMon):
            init = (EachMon.init, 0)

            def test(self, ev):
                if ev.k == "br" and ev.x and "thread_count" in str(ev.x[0]):
                    (k, a, b), pol = ev.x
                    return {"eq": not pol, "ult": pol if "thread_count" in str(b) else not pol, "slt": pol if "thread_count" in str(b) else not pol}.get(k)
                return EachMon.test(self, ev)

            def step(self, st, ev):
                base, n = st
                if act(ev):
                    n = min(n + 1, 5)
                if n < 5 and ev.k == "br" and ev.x and "thread_count" in str(ev.x[0]) and ev.x[0][0] in ("ult", "slt"):
                    c = [x[1] for x in ev.x[0][1:] if x[0] == "c"]
                    if c and c[0] != n:
                        raise Violation("starting a worker for each requested thread: the number started is not the number counted", ev)
                return (EachMon.step(self, base, ev), n)

        def act(ev):
            if ev.k == "call" and ev.a and F(ev) == TH and short(ev.q) in ("emplace_back", "push_back"):
                return ("thread",)
        ctx.monitor(f, W(ctx.E, act, lambda ev: ev.k == "exit" and ev.q == "ret", "starting a worker for each requested thread"))


@rule("C14.shutdown", "C14", "the first shutdown marks the pool, wakes every sleeping worker under the mutex and joins all of them; later ones do nothing; the destructor shuts down")
def r_shutdown(ctx):
    E = ctx.E
    for f in ctx.fns(TP + "::shutdown"):
        def cl(ev, seq, held):
            l = pool_letter(ev, seq, held)
            if l and l[0] in ("shut!", "notify_one", "notify_all"):
                return l

        def final(seq, ev):
            if ev.q != "ret":
                return
            x = [y for y in seq if y[0] == "shut!"]
            if len(x) != 1 or x[0][1] not in ("xchg", "cas", "or"):
                if not x:
                    yield "shutdown does not mark the pool"
                elif x[0][1] == "store" or len(x) > 1:
                    yield "two threads can both believe they shut the pool down first"
                return
            first = nulls(ctx, ev, x[0][2])
            if x[0][1] == "cas":
                first = None if first is None else first
            al = [y for y in seq if y[0] == "notify_all"]
            if first is True:
                if not al:
                    yield "sleeping workers are not all woken"
                elif not al[-1][1]:
                    yield "a worker between its look at the flag and its sleep misses the wake-up: it is sent without the mutex"
                elif names(seq).index("shut!") > names(seq).index("notify_all"):
                    yield "workers are woken before the pool is marked"
        ctx.paths(f, cl, final, "marks and wakes")
        ctx.ob("%s: joins every worker" % f["dem"])

        class J(EachMon):
            init = (EachMon.init, None)

            def step(self, st, ev):
                base, first = st
                if ev.k == "atomic" and F(ev) == SD and ev.q in ("xchg", "cas", "or"):
                    first = ev.r
                if ev.k == "exit" and ev.q == "ret" and base[0] is None and base[1] == 0 and first is not None and nulls(ctx, ev, first) is not True:
                    return st
                return (EachMon.step(self, base, ev), first)

        def act(ev):
            if ev.k == "call" and ev.q in ("std::thread::join",):
                return ev.a[0]
            if ev.k == "br" and ev.x and ev.x[0][1][0] == "r" and short(ev.x[0][1][1]) == "joinable" and ev.x[1]:
                return ("notjoinable",)
            if ev.k == "call" and ev.q == "std::thread::detach":
                raise Violation("a worker is detached instead of joined", ev)
            return None

        ctx.monitor(f, J(E, act, lambda ev: ev.k == "exit" and ev.q == "ret", "the workers to join"))
    for f in ctx.fns(TP + "::$dtor"):
        def cl(ev, seq):
            if ev.k == "call" and ev.q == TP + "::shutdown":
                return ("down",)
            if ev.k == "call" and ev.a and F(ev) == TH and "$dtor" in ev.q:
                return ("gone",)

        def final(seq, ev):
            if ev.q == "ret" and (not seq or seq[0][0] != "down"):
                yield "the pool is destroyed without having been shut down: its threads terminate the program"
        ctx.paths(f, cl, final, "shuts down", opaque=set(DEFAULT_OPAQUE) | {TP + "::shutdown"})


def guard_rule(ctx, cls, members, mutex, why, kw=None, skip=()):
    """members are only used with the mutex of the same object held, in every function of the class that is not itself only called
    by others of the class; construction and destruction are exclusive"""
    kw = kw or {}
    cand = [f for f in ctx.P.fns.values() if (f.get("cls", "") == cls or f.get("cls", "").startswith(cls + "::")) and not f["q"].startswith(cls + "::options") and
            f.get("sm") not in ("ctor", "dtor", "copyctor", "movector") and not f["q"].endswith(("::$ctor", "::$dtor")) and f["q"] not in skip]
    inlined = set()
    gs = {}
    for f in cand:
        g = gs[f["m"]] = ctx.graph(f, **kw)
        for es in g.edges:
            for evs, m in es:
                for e in evs:
                    if e.k == "enter" and e.q != f["q"]:
                        inlined.add((e.q, e.dem))
    n = 0
    for f in cand:
        if (f.get("acc") != "public" or "$lambda" in f["q"]) and (f["q"], f["dem"]) in inlined:
            continue
        touches = any(e.k in ("call", "load", "store", "atomic") and e.a and isinstance(e.a[0], tuple) and e.a[0][0] == "addr" and any(x in members for x in fields(e.a[0]))
                      for es in gs[f["m"]].edges for evs, m in es for e in evs)
        if not touches:
            continue
        n += 1

        def cl(ev, seq, held):
            if ev.k in ("call", "load", "store", "atomic") and ev.a:
                for a in ev.a[:2]:
                    if isinstance(a, tuple) and a[0] == "addr" and any(x in members for x in fields(a)) and not mutex_held(held, mutex):
                        raise Violation("%s is used without the mutex that guards it" % short([x for x in fields(a) if x in members][0]), ev)

        ctx.paths(f, cl, lambda s, e: (), why, **kw)
    if not n:
        raise AnalysisError("no user of %s found" % (members,))


@rule("C14.guard", "C14 C23", "the queue of the pool is only used with its mutex held")
def r_guard(ctx):
    guard_rule(ctx, TP, (Q,), MX, "queue under its mutex")
    for f in ctx.fns(TP + "::size") + ctx.fns(TP + "::empty"):
        def cl(ev, seq):
            if ev.k == "atomic" and F(ev) == SZ and ev.q == "load":
                return ("load", ev.r, ev.x)

        def final(seq, ev):
            if not seq:
                yield "does not read the count"
            elif seq[-1][2] not in ACQ:
                yield "what finished work did is not visible to whoever sees the count drop"
            elif ev.r != seq[-1][1] and f["q"].endswith("::size"):
                yield "does not tell the count"
            elif f["q"].endswith("::empty"):
                for c, w in ((0, 1), (1, 0), (2, 0)):
                    if evalc(ev.r, {seq[-1][1]: c}) not in (w, None):
                        yield "does not tell whether the count is zero"
                        break
        ctx.paths(f, cl, final, "tells the count")


def with_rule(ctx, cls, hop, pred):
    """schedule(task): moves to the executor first, then runs the given task once, and gives its result"""
    n = 0
    for f in ctx.fns(cls + "::schedule", lambda f: f.get("coro") and pred(f)):
        void = "void" in (f.get("crt") or "")
        n += 1

        def cl(ev, seq):
            if hop(ev):
                return ("hop",)
            if ev.k == "await" and "task" in ev.q:
                return ("await", ev.a[0])
            if ev.fn.endswith("::unhandled_exception"):
                return ("exc",)
            if ev.k == "call" and ev.q.endswith("variant::emplace") and ev.fn.endswith("::return_value"):
                return ("give", ev.a[1])
            if ev.k == "suspend" and not ev.a[1:2]:
                return ("suspend",)
            return None

        def final(seq, ev):
            if ev.q != "coroend" or "exc" in names(seq):
                return
            n = names(seq)
            if n.count("await") != 1:
                yield "the given task is not run exactly once"
            elif "hop" not in n or n.index("hop") > n.index("await"):
                yield "the given task runs before the coroutine moved to the executor"
            if not void and not any(x[0] == "give" and any(contains(x[1], y[1]) for y in seq if y[0] == "await") for x in seq):
                yield "the result given is not that of the given task"
        ctx.paths(f, cl, final, "hops, runs, gives the result", cap=3)
    if not n:
        raise AnalysisError("no schedule(task) in %s" % cls)


@rule("C14.with", "C14", "schedule(task) moves to the pool, then runs the task once and gives its result")
def r_with(ctx):
    with_rule(ctx, TP, lambda ev: ev.k == "atomic" and F(ev) == SZ and ev.q == "add", lambda f: True)

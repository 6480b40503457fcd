"""C15: scheduler (acceptance, event loop, shutdown)."""
from .base import *
from .comp import *
from .c14_thread_pool import spawn_rule, joinable_rule, with_rule, single

S = "coro::scheduler"
OP = S + "::schedule_operation"
SZ, SD, OPS, TRIG, SPIPE, DPIPE, HND, POOL, IOT, PROC, OPTS, RECENT = (S + "::" + x for x in (
    "m_size", "m_shutdown_requested", "m_scheduled_ops", "m_schedule_pipe_triggered", "m_schedule_pipe", "m_shutdown_pipe",
    "m_handles_to_resume", "m_thread_pool", "m_io_thread", "m_io_processing", "m_opts", "m_recent_events"))
NEXT, AWC, ALLOC = OP + "::m_next", OP + "::m_awaiting_coroutine", OP + "::m_allocated"
STRAT, TSTRAT = S + "::options::execution_strategy", S + "::options::thread_strategy"
TP = "coro::thread_pool"
IO = "coro::detail::io_notifier_epoll"
OPQ = set(DEFAULT_OPAQUE) | {TP + "::", IO + "::", "coro::detail::timer_handle::"}
PARTS = {S + "::process_timeout_execute", S + "::process_event_execute", S + "::process_scheduled_execute_inline"}
OBJ = {"timer": ("glob", S + "::m_timer_object"), "schedule": ("glob", S + "::m_schedule_object"), "shutdown": ("glob", S + "::m_shutdown_object")}


def inside(v, member):
    """address v lies in the member"""
    return isinstance(v, tuple) and v[0] == "addr" and member in v[2]


def pipe_end(v):
    """(pipe member, end) of a descriptor value loaded from a pipe"""
    if isinstance(v, tuple) and v[0] == "addr" and v[2] and "_M_elems" in str(v[2]):
        a = v
    elif isinstance(v, tuple) and v[0] == "ld":
        a = v[1]
    else:
        return (None, None)
    if a[0] != "addr":
        return (None, None)
    m = [x for x in a[2] if x in (SPIPE, DPIPE)]
    if not m:
        return (None, None)
    end = 0
    for x in a[2]:
        if x == "[1]" or isinstance(x, tuple) and x[0] == "idx" and x[1] == ONE:
            end = 1
    return (m[-1], end)


class Mode:
    """the execution strategy a value stands for: True (inline), False (on the pool), None (not known)"""

    def __init__(self, ctx):
        e = dict(ctx.P.enums.get(S + "::execution_strategy_t") or [])
        if "process_tasks_inline" not in e:
            raise AnalysisError("execution strategies not found")
        self.E = ctx.E
        self.inl = ("c", e["process_tasks_inline"])
        self.rest = [("c", v) for k, v in e.items() if k != "process_tasks_inline"]

    def __call__(self, facts, v):
        if v is None:
            return None
        t = eq_fact(self.E, facts, v, self.inl)
        if t is None:
            o = [eq_fact(self.E, facts, v, x) for x in self.rest]
            t = False if True in o else True if all(x is False for x in o) else None
        return t


def inline_mode(ctx):
    return Mode(ctx)


def work_letter(ctx, ev, seq):
    E = ctx.E
    if ev.k == "atomic":
        f = F(ev)
        if f == SZ:
            if ev.q in ("add", "sub"):
                return (ev.q, ev.a[1], ev.x)
            return None if ev.q == "load" else ("write",)
        if f == SD and ev.q == "load":
            return ("shut", ev.r)
        if f == OPS:
            l = listop(ctx, ev, OPS, NEXT)
            if l and l[0] == "push":
                ld = ev.mem.get(addr(l[1], (AWC,)))
                return ("push", l[1], ld, ev.mem.get(addr(l[1], (ALLOC,))), l[3])
            return ("list!", str(l)) if l else None
        if f == TRIG:
            if ev.q == "cas":
                return ("trig", ("c", 0 if ev.x[0] else 1)) if ev.a[2] == ONE else ("untrig",)
            if ev.q in ("xchg", "or"):
                return ("trig", ev.r) if ev.a[1] == ONE else ("untrig",)
            if ev.q == "store":
                return ("trig", ZERO) if ev.a[1] == ONE else ("untrig",)
    if ev.k == "load" and F(ev) == STRAT:
        return ("mode", ev.r)
    if ev.k == "call" and ev.q in (TP + "::resume", TP + "::schedule_operation::await_suspend"):
        return ("pool", ev.a[1] if len(ev.a) > 1 else None, ev.r)
    if ev.k == "call" and short(ev.q) == "write" and ev.a and pipe_end(ev.a[0])[0]:
        return ("pipe",) + pipe_end(ev.a[0]) + (ev.a[2] if len(ev.a) > 2 else None,)
    if ev.k == "resume":
        return ("run", ev.a[0])
    if ev.k == "call" and short(ev.q) in ("operator delete",):
        return ("free", ev.a[0])
    return None


@rule("C15.accept", "C15 C24 C25", "work handed to the event loop is counted before it is queued, queued once with its handle stored, the loop is woken unless it already was, and the operation is not touched afterwards; otherwise the pool's answer is passed on")
def r_accept(ctx):
    E = ctx.E
    INL = inline_mode(ctx)
    for f in ctx.fns(OP + "::await_suspend") + ctx.fns(S + "::resume", single):
        p = ("arg", f["pn"][0])
        mine = f["q"].startswith(OP)

        def cl(ev, seq):
            l = work_letter(ctx, ev, seq)
            if l and l[0] == "push":
                return [("fact", eq_fact(E, ev.facts, y, ZERO), eq_fact(E, ev.facts, z, ZERO)) for y, z in [(p, ("done", p))]] + [l]
            if l:
                return l
            if ev.k == "done" and ev.a[0] == p:
                return ("done", ev.r)
            if "push" in names(seq) and ev.k in ("load", "store", "atomic") and isinstance(ev.a[0], tuple) and ev.a[0][0] == "addr":
                o = [x for x in seq if x[0] == "push"][0][1]
                if root_of(loc_of(ev.a[0])) == root_of(loc_of(o)) and (ev.a[0] == o or ev.a[0][1] == o or ev.a[0][1:2] == o[1:2] and ev.a[0][1] == o):
                    return ("late",)
            return None

        def final(seq, ev):
            if ev.q != "ret":
                return
            n = names(seq)
            if "write" in n or "list!" in n:
                yield "the accounting of pending work is overwritten"
            if "run" in n:
                yield "the coroutine is resumed on the caller's thread"
            net = sum(1 if x[1] == ONE else 99 for x in seq if x[0] == "add") - sum(1 if x[1] == ONE else 99 for x in seq if x[0] == "sub")
            r = truth(E, ev.r, ev.facts)
            modes = [x[1] for x in seq if x[0] == "mode"]
            inl = None
            for m in modes:
                t = INL(ev.facts, m)
                inl = t if t is not None else inl
            if "push" in n:
                if "pool" in n or n.count("push") > 1:
                    yield "the coroutine is queued twice"
                    return
                if inl is not True:
                    yield "a coroutine that belongs on the pool is queued for the event loop"
                k = n.index("push")
                x = seq[k]
                if net != 1:
                    yield "the work queued is not counted exactly once"
                elif n.index("add") > k:
                    yield "work becomes visible before it is counted"
                if x[2] != p:
                    yield "something other than the given coroutine is queued"
                if x[4] not in REL:
                    yield "what the operation holds is not visible to the event loop"
                if mine and x[1] != ("arg", "this"):
                    yield "something other than this operation is queued"
                if not mine and eq_fact(E, ev.facts, x[3] if x[3] is not None else ZERO, ZERO) is not False:
                    yield "the operation made for the handle is never freed"
                tr = [i for i, y in enumerate(seq) if y[0] == "trig" and i > k]
                w = [i for i, y in enumerate(seq) if y[0] == "pipe" and y[1] == SPIPE and i > k]
                if not tr and not w:
                    yield "the event loop is not woken for the queued coroutine"
                elif tr and nulls(ctx, ev, seq[tr[-1]][1]) is not False and not w:
                    yield "the event loop is marked as woken but never is"
                elif w and (seq[w[-1]][2] != 1 or eq_fact(E, ev.facts, seq[w[-1]][3], ZERO) is True):
                    yield "the event loop is not woken for the queued coroutine"
                if "untrig" in n:
                    yield "the mark that the event loop was woken is cleared by a producer"
                if r is not True and (f.get("crt") or "") != "void":
                    yield "a coroutine that was queued goes on as if it was not" if mine else "a coroutine that was queued is reported as refused"
                if "late" in n or mine and "free" in n:
                    yield "the operation is touched after it was queued"
            elif "pool" in n:
                if n.count("pool") > 1:
                    yield "the coroutine is queued twice"
                if inl is not False:
                    yield "a coroutine that belongs on the event loop is given to the pool"
                x = [y for y in seq if y[0] == "pool"][0]
                if x[1] != p and not contains(x[1], p):
                    yield "something other than the given coroutine is queued"
                if net != 0:
                    yield "work given to the pool is counted by the event loop as well"
                t = truth(E, ("op", "eq", ev.r, x[2]), ev.facts)
                if ev.r != x[2] and t is not True:
                    ok = nulls(ctx, ev, x[2])
                    if ok is None or r is None or r is ok:
                        yield "the pool's answer is not passed on"
            else:
                if net != 0:
                    yield "work that was refused stays counted"
                if r is not False:
                    yield "a coroutine that nobody will resume stays suspended" if mine else "a coroutine that was not queued is reported as accepted"
        ctx.paths(f, cl, final, "accepts or refuses", opaque=OPQ)
    for f in ctx.fns(OP + "::await_ready"):
        def final(seq, ev):
            if ev.q == "ret" and ev.r != ZERO:
                yield "scheduling may not move to the event loop"
        ctx.paths(f, lambda ev, seq: None, final, "always suspends")


@rule("C15.refuse", "C15 C25", "a null or finished handle, and any handle after shutdown, is refused")
def r_refuse(ctx):
    E = ctx.E
    for f in ctx.fns(S + "::resume", single):
        p = ("arg", f["pn"][0])

        def cl(ev, seq):
            if ev.k == "done" and ev.a[0] == p:
                return ("done", ev.r)
            l = work_letter(ctx, ev, seq)
            return l if l and l[0] in ("push", "shut") else None

        def final(seq, ev):
            if ev.q == "ret" and "push" in names(seq):
                k = names(seq).index("push")
                if nulls(ctx, ev, p) is not False:
                    yield "a null handle is accepted"
                if not any(x[0] == "done" and nulls(ctx, ev, x[1]) is True for x in seq[:k]):
                    yield "a finished coroutine is accepted"
                if not any(x[0] == "shut" and nulls(ctx, ev, x[1]) is True for x in seq[:k]):
                    yield "work offered after shutdown is accepted"
        ctx.paths(f, cl, final, "refuses what cannot be resumed", opaque=OPQ)


@rule("C15.closed", "C15 C25", "work is only queued for an event loop that is known to run until it took it: shutdown is looked at after the work was counted")
def r_closed(ctx):
    E = ctx.E
    for f in ctx.fns(OP + "::await_suspend") + ctx.fns(S + "::resume", single):
        def cl(ev, seq):
            l = work_letter(ctx, ev, seq)
            return l if l and l[0] in ("push", "shut", "add") else None

        def final(seq, ev):
            n = names(seq)
            if ev.q == "ret" and "push" in n and "add" in n:
                if not any(x[0] == "shut" and i > n.index("add") and nulls(ctx, ev, x[1]) is True for i, x in enumerate(seq)):
                    yield "work is queued without knowing that the event loop still runs"
        ctx.paths(f, cl, final, "the loop still runs", opaque=OPQ)


class DrainMon(Monitor):
    """The list taken is walked once: every element's handle goes to the handles to resume, elements made for the purpose are freed
    once and nothing is read from them afterwards."""
    # current element (None: no list yet), successor of it, handed over?, allocated value, freed?, facts
    init = (None, None, False, None, False, frozenset())

    def __init__(self, ctx):
        self.ctx = ctx

    def done(self, st, ev):
        cur, nxt, put, al, freed, known = st
        fx = with_facts(ev, known)
        if not put:
            raise Violation("a scheduled coroutine is dropped", ev)
        t = nulls(self.ctx, fx, al) if al is not None else None
        if al is None or t is None:
            raise Violation("nobody looks whether the operation has to be freed", ev)
        if t is False and not freed:
            raise Violation("the operation made for a handle is never freed", ev)
        if t is True and freed:
            raise Violation("an operation that lives in a coroutine is freed", ev)

    def step(self, st, ev):
        cur, nxt, put, al, freed, known = st
        if ev.k == "br" and ev.x and cur is not None:
            p, pol = ev.x
            if any(v is not None and (contains(p[1], v) or contains(p[2], v)) for v in (cur, nxt, al)):
                known = known | {(p, pol)}
        st = (cur, nxt, put, al, freed, known)
        fx = with_facts(ev, known)
        l = listop(self.ctx, ev, OPS, NEXT)
        if l:
            if l[0] != "popall":
                raise Violation("the list of scheduled coroutines is not taken as a whole", ev)
            if l[2] not in ACQ:
                raise Violation("what the producers stored is not visible to the event loop", ev)
            return (l[1], None, False, None, False, frozenset())
        if cur is None:
            return st
        if ev.k == "call" and short(ev.q) == "awaiter_list_reverse":
            return (ev.r, None, False, None, False, known)

        def at(a):
            if isinstance(a, tuple) and a[0] == "addr" and a[2] and a[2][-1] in (NEXT, AWC, ALLOC):
                return ("addr", a[1], a[2][:-1]) if len(a[2]) > 1 else a[1]
        cand = [ev.a[0]] if ev.k in ("load", "store") else list(ev.a) if ev.k in ("call", "destroy") else []
        if ev.k == "call" and ev.a and F(ev) == HND and short(ev.q) in ("emplace_back", "push_back"):
            v = ev.mem.get(loc_of(ev.a[1]), ev.a[1])
            o = at(loc_of(ev.a[1])) if at(loc_of(ev.a[1])) is not None else handle_of(v)[0]
            if o == nxt and nxt is not None and o != cur and put:
                self.done(st, ev)
                cur, nxt, put, al, freed = nxt, None, False, None, False
            if o != cur and cur != ANY and not contains(o, ANY):
                raise Violation("something other than the next scheduled coroutine is taken", ev)
            if put:
                raise Violation("a scheduled coroutine is taken twice", ev)
            if freed:
                raise Violation("the operation is read after it was freed", ev)
            return (cur, nxt, True, al, freed, known)
        if ev.k == "load":
            o = at(ev.a[0])
            if o is not None:
                if nxt is not None and o == nxt and o != cur:
                    self.done(st, ev)
                    cur, nxt, put, al, freed = nxt, None, False, None, False
                    known = frozenset(k for k in known if contains(k[0], cur))
                if freed:
                    raise Violation("the operation is read after it was freed", ev)
                m = ev.a[0][2][-1]
                if m == NEXT:
                    nxt = ev.r
                elif m == ALLOC:
                    al = ev.r
                return (cur, nxt, put, al, freed, known)
        if ev.k == "call" and short(ev.q) == "operator delete" and (ev.a[0] == cur or cur == ANY):
            if freed:
                raise Violation("an operation is freed twice", ev)
            if nxt is None:
                raise Violation("the operation is freed before its successor was read", ev)
            return (cur, nxt, put, al, True, known)
        if ev.k == "age":
            return st
        if ev.k == "exit" and ev.q == "ret":
            if nulls(self.ctx, fx, cur) is True and not put:
                return st
            if nxt is None:
                raise Violation("scheduled coroutines are left in the list that was taken", ev)
            self.done(st, ev)
            if nulls(self.ctx, fx, nxt) is not True:
                raise Violation("scheduled coroutines are left in the list that was taken", ev)
        return st


@rule("C15.drain", "C15 C24", "the wake-up pipe is emptied, then the mark cleared, then the whole list taken; every coroutine in it is kept for resumption and operations made for handles are freed")
def r_drain(ctx):
    E = ctx.E
    q = S + "::process_scheduled_execute_inline"
    fs = ctx.fns(q) if ctx.has(q) else ctx.fns(S + "::process_events_execute")
    opq = OPQ | {"coro::detail::awaiter_list_reverse"}
    for f in fs:
        def cl(ev, seq):
            if ev.k == "call" and short(ev.q) == "read" and ev.a and pipe_end(ev.a[0])[0] == SPIPE:
                return ("read", pipe_end(ev.a[0])[1])
            if ev.k == "atomic" and F(ev) == TRIG and ev.q != "load":
                return ("clear", ev.a[1] if ev.q != "cas" else ev.a[2], ev.x)
            l = listop(ctx, ev, OPS, NEXT)
            if l:
                return ("take", l[0])

        def final(seq, ev):
            if ev.q != "ret":
                return
            n = names(seq)
            if "read" not in n or any(x[1] != 0 for x in seq if x[0] == "read"):
                yield "the wake-up pipe is not emptied"
            if "clear" not in n or any(x[1] != ZERO for x in seq if x[0] == "clear"):
                yield "the mark that the event loop was woken is never cleared"
                return
            c = n.index("clear")
            if "read" in n[c:]:
                yield "a wake-up sent after the mark was cleared is read away"
            if "take" not in n:
                # nothing to take: the list was seen empty, which must have come after the mark was cleared as well
                return
            if n.index("take") < c:
                yield "the list is taken before the mark is cleared: work queued in between waits forever"
        ctx.paths(f, cl, final, "empties, clears, takes", cap=3, opaque=opq)
        ctx.ob(f["dem"] + ": takes every operation")
        ctx.monitor(f, DrainMon(ctx), opaque=opq)


@rule("C15.dispatch", "C15 C16 C17", "every kernel event is handled once, by what its data pointer stands for")
def r_dispatch(ctx):
    E = ctx.E
    parts = {q for q in PARTS if ctx.has(q)}
    opq = OPQ | parts
    for f in ctx.fns(S + "::process_events_execute"):
        ctx.ob(f["dem"] + ": dispatch")
        want = {S + "::process_timeout_execute": "timer", S + "::process_scheduled_execute_inline": "schedule"}

        def kind(ev, v):
            """what the event's pointer is known to be: name, 'poll', or None"""
            no = 0
            for k, o in OBJ.items():
                t = eq_fact(E, ev.facts, v, o)
                if t is True:
                    return k
                no += t is False
            return "poll" if no == len(OBJ) else None

        class D(EachMon):
            # the pointer being looked at
            init = (EachMon.init, None, False, frozenset())

            def step(self, st, ev):
                base, ptr, waited, known = st
                if ev.k == "br" and ev.x and any(o in ev.x[0] for o in OBJ.values()):
                    ptr = [x for x in ev.x[0][1:] if x not in OBJ.values()][0]
                    known = known | {ev.x}
                ev = with_facts(ev, known) if known and ev.k in ("call", "br") else ev
                if ev.k == "call" and ev.q == IO + "::next_events":
                    if not any(inside(a, RECENT) for a in ev.a):
                        raise Violation("the kernel's events go somewhere else", ev)
                    waited = True
                if ev.k == "call" and ev.a and F(ev) == RECENT and short(ev.q) == "clear" and waited:
                    raise Violation("events are discarded after they were received", ev)
                if self.test(ev) is not None and base[0] == "more" and base[1] == 0 and ptr is not None and kind(ev, ptr) == "shutdown":
                    base = (base[0], 1) + base[2:]
                if self.test(ev) is not None:
                    known, b = frozenset(), EachMon.step(self, base, ev)
                    return (b, None, waited, known)
                if ev.k == "call" and ev.q in PARTS:
                    v = ptr
                    if ev.q.endswith("process_event_execute"):
                        v = ev.a[1] if len(ev.a) > 1 else ptr
                    got = kind(ev, v) if v is not None else None
                    if got is None or got != want.get(ev.q, "poll"):
                        raise Violation("an event is handled as something it is not known to be", ev)
                return (EachMon.step(self, base, ev), ptr, waited, known)

        def act(ev):
            if ev.k == "call" and ev.q in PARTS:
                return ("ev",)

        def fin(ev):
            return ev.k == "call" and ev.a and F(ev) == HND or ev.k == "exit" and ev.q == "ret"
        if parts == PARTS:
            ctx.monitor(f, D(E, act, fin, "the events received"), opaque=opq)
        # the status handed over is the one that came with the pointer
        def cl(ev, seq):
            if ev.k == "call" and ev.q == S + "::process_event_execute" and len(ev.a) > 2:
                a, b = ev.a[1], ev.a[2]
                s = lambda v: v[1][1] if v[0] == "ld" and v[1][0] == "addr" and v[1][2] and str(v[1][2][-1]).startswith("std::pair::") else None
                if s(a) is not None and s(b) is not None and s(a) != s(b):
                    return ("mixed",)

        def final(seq, ev):
            if "mixed" in names(seq):
                yield "a poll is given the outcome of another event"
        ctx.paths(f, cl, final, "status belongs to the event", opaque=opq)


class HandlesMon(EachMon):
    """The handles collected: all resumed here once, or handed to the pool, whose refusal is noticed; then un-counted by their
    number and forgotten."""
    # each-state, resumed (0..), handed (None / r), un-counted values, cleared, known empty, facts
    init = (EachMon.init, 0, None, (), False, None, frozenset(), None)

    def __init__(self, ctx, inl):
        EachMon.__init__(self, ctx.E, self.act1, lambda ev: False, "the handles to resume")
        self.ctx, self.inl = ctx, inl

    @staticmethod
    def act1(ev):
        if ev.k == "resume":
            return ("resume",)

    def over(self, v):
        return isinstance(v, tuple) and (inside(v, HND) or v[0] == "ld" and inside(v[1], HND))

    def step(self, st, ev):
        base, n, pool, sub, clr, empty, known, mode = st
        ctx, E = self.ctx, self.E
        if ev.k == "br" and ev.x:
            p, pol = ev.x
            em = empty[2] if empty is not None and empty[0] == "op" else empty
            if any(v is not None and (contains(p[1], v) or contains(p[2], v)) for v in (pool, em, mode)):
                known = known | {(p, pol)}
        fx = with_facts(ev, known)
        t = self.test(ev)
        if t is not None:
            a = ev.x[0][1]
            # loops over other containers (the events) are not looked at here
            if base[0] is None and empty is None:
                return st
        if ev.k == "load" and F(ev) == STRAT:
            mode = ev.r
        if ev.k == "call" and ev.a and F(ev) == HND:
            m = short(ev.q)
            if m == "empty":
                empty = ev.r
            elif m == "size" and n == 0 and not clr:
                empty = ("op", "eq", ev.r, ZERO)
            elif m == "begin" and empty is None:
                empty = ("any",)
            elif m in ("clear",) or m == "swap":
                if clr:
                    pass
                clr = True
        if ev.k == "resume":
            if clr:
                raise Violation("a handle is resumed after it was forgotten", ev)
            if sub:
                raise Violation("work is un-counted before it was resumed", ev)
            if pool is not None and nulls(ctx, fx, pool) is not True:
                raise Violation("a coroutine is resumed here although the pool may have taken it", ev)
            if pool is None and (mode is None or self.inl(fx.facts, mode) is not True):
                raise Violation("a coroutine that belongs on the pool is resumed on the event loop", ev)
            n = min(n + 1, 40)
        if ev.k == "call" and ev.q == TP + "::resume" and any(self.over(a) for a in ev.a[1:]):
            if pool is not None or n:
                raise Violation("the handles are handed over twice", ev)
            if mode is not None and self.inl(fx.facts, mode) is not False:
                raise Violation("coroutines that belong on the event loop are given to the pool", ev)
            if sub or clr:
                raise Violation("work is un-counted or forgotten before it was handed over", ev)
            pool = ev.r
        if ev.k == "atomic" and F(ev) == SZ and ev.q == "sub":
            if ev.x not in REL:
                raise Violation("what the coroutines did is not visible to whoever sees the count drop", ev)
            if clr and ev.a[1][0] == "r":
                raise Violation("the handles are forgotten before they are un-counted", ev)
            sub = sub + (ev.a[1],)
        if ev.k == "exit" and ev.q == "ret":
            if empty is None:
                raise Violation("nobody looks at the handles to resume", ev)
            e = truth(E, empty, fx.facts) if empty != ("any",) else None
            done = n > 0 or pool is not None or base[0] in ("end", "over")
            if e is True or not done and e is None and empty == ("any",):
                return st
            if not done:
                raise Violation("the handles collected are not resumed", ev)
            if base[0] == "more":
                raise Violation("the handles to resume: the loop is left before the last element", ev)
            if pool is not None:
                ok = nulls(ctx, fx, pool)
                if ok is None:
                    raise Violation("nobody looks whether the pool took the handles", ev)
                if ok is True and base[0] is None:
                    raise Violation("handles the pool refused are dropped", ev)
            if not clr:
                raise Violation("the handles stay collected and are resumed again", ev)
            z = sub
            if n == 0 and pool is None or n >= 8 and pool is None and not z:
                pass     # nothing was there / the counter's value is no longer followed; fewer rounds tell the same
            elif len(z) != 1:
                raise Violation("work resumed is not un-counted exactly once", ev)
            else:
                v = z[0]
                if v[0] == "c":
                    if n >= 40 or v[1] != n:
                        raise Violation("the number un-counted is not the number resumed", ev)
                elif v[0] == "r" and short(v[1]) == "size" and v[2] and inside(v[2][0], HND):
                    pass
                elif v != ANY and v[0] not in ("it",):
                    raise Violation("the number un-counted is not the number resumed", ev)
        return (EachMon.step(self, base, ev) if not (self.test(ev) is not None and empty is None) else base, n, pool, sub, clr, empty, known, mode)


@rule("C15.loop", "C15 C25", "the handles collected from the events are all resumed once or handed to the pool, a refusal of the pool is noticed, and they are un-counted by their number afterwards")
def r_loop(ctx):
    INL = inline_mode(ctx)
    opq = OPQ | {q for q in PARTS if ctx.has(q)}
    for f in ctx.fns(S + "::process_events_execute"):
        ctx.ob(f["dem"] + ": handles")
        ctx.monitor(f, HandlesMon(ctx, INL), opaque=opq)


@rule("C15.run", "C15", "the event loop's thread leaves only after shutdown was requested and nothing is pending; manual processing never overlaps it; the result is the number of pending tasks")
def r_run(ctx):
    E = ctx.E
    X = S + "::process_events_execute"
    opq = OPQ | {X}

    def cl(ev, seq):
        if ev.k == "atomic" and F(ev) == SD and ev.q == "load":
            return ("shut", ev.r)
        if ev.k == "atomic" and F(ev) == SZ and ev.q == "load":
            return ("size", ev.r)
        if ev.k == "call" and ev.q == TP + "::size":
            return ("psize", ev.r)
        if ev.k == "load" and F(ev) == STRAT:
            return ("mode", ev.r)
        if ev.k == "call" and ev.q == X:
            return [("$reset",), ("exec",)]
        if ev.k == "atomic" and F(ev) == PROC and ev.q != "load":
            if ev.q == "cas":
                return ("busy", ev.a[2], ZERO) if ev.x[0] else None
            return ("busy", ev.a[1], ev.r if ev.q == "xchg" else ANY)
        if ev.k == "call" and ev.q == "std::function::operator()":
            return ("hook", F(ev))

    INL = inline_mode(ctx)

    def total(seq, ev):
        """value of size() as read after position of the last letter 'shut'"""
        m = [x[1] for x in seq if x[0] == "mode"]
        s = [x[1] for x in seq if x[0] == "size"]
        p = [x[1] for x in seq if x[0] == "psize"]
        inl = None
        for y in m:
            t = INL(ev.facts, y)
            inl = t if t is not None else inl
        return s, p, inl

    q = S + "::process_events_dedicated_thread"
    ls = [f for f in ctx.P.fns.values() if f["q"].startswith(S + "::make_unique::") and f["q"].endswith("operator()")]
    if not ls:
        raise AnalysisError("body of the event loop's thread not found")
    for f in ls:
        def cl2(ev, seq):
            l = cl(ev, seq)
            if isinstance(l, list):      # a round of the loop: remember that the loop is marked busy
                return [("$reset",)] + [x for x in seq if x[0] == "busy"][-1:] + [("exec",)]
            return l

        def final(seq, ev):
            if ev.q != "ret":
                return
            n = names(seq)
            if "shut" not in n:
                yield "the event loop ends although shutdown was not requested"
                return
            k = max(i for i, x in enumerate(seq) if x[0] == "shut")
            if nulls(ctx, ev, seq[k][1]) is not False:
                yield "the event loop ends although shutdown was not requested"
                return
            s, p, inl = total(seq[k:], ev)
            if not s:
                yield "the event loop ends without having looked, after shutdown was requested, whether work is pending"
                return
            ok = nulls(ctx, ev, s[-1]) is True and (inl is True or p and nulls(ctx, ev, p[-1]) is True)
            if not ok and p:
                ok = any(eq_fact(E, ev.facts, v, ZERO) is True for v in (("op", "add", s[-1], p[-1]), ("op", "add", p[-1], s[-1])))
            if not ok:
                yield "the event loop ends although work may be pending"
            b = [x for x in seq if x[0] == "busy"]
            if "exec" in n and not any(x[1] == ONE for x in seq[:n.index("exec")] if x[0] == "busy"):
                yield "manual processing can run at the same time as the event loop's thread"
        ctx.paths(f, cl2, final, "leaves when all is done", cap=2, opaque=opq)
        g = ctx.graph(f, opaque=opq)
        if not any(e.k == "call" and e.q == X for es in g.edges for evs, m in es for e in evs):
            ctx.violate(f, f.get("loc"), "the event loop's thread never processes events")
    for f in ctx.fns(S + "::process_events"):
        def cl3(ev, seq):
            l = cl(ev, seq)
            if isinstance(l, list):
                l = ("exec", ev.a[1] if len(ev.a) > 1 else None)
            return l

        def final(seq, ev):
            if ev.q != "ret":
                return
            n = names(seq)
            took = [i for i, x in enumerate(seq) if x[0] == "busy" and x[1] == ONE and nulls(ctx, ev, x[2]) is True]
            if "exec" in n:
                k = n.index("exec")
                if not took or took[0] > k:
                    yield "two threads can process events at the same time"
                if not any(x[0] == "busy" and x[1] == ZERO and i > k for i, x in enumerate(seq)):
                    yield "events are never processed again after this call"
                if seq[k][1] != ("arg", f["pn"][0]) and not contains(seq[k][1] or ANY, ("arg", f["pn"][0])) and seq[k][1] is not None:
                    yield "the timeout given is not the one waited for"
            elif took:
                yield "no events are processed although nobody else does"
            elif any(x[0] == "busy" and x[1] == ZERO for x in seq):
                yield "the mark of another thread processing events is cleared"
            k = n.index("exec") if "exec" in n else 0
            s, p, inl = total(seq[k:], ev)
            want = s and (s[-1] if inl is True else None)
            if not s or ev.r not in ([s[-1]] if inl else [("op", "add", s[-1], y) for y in p] + [("op", "add", y, s[-1]) for y in p]):
                yield "the number returned is not the number of pending tasks"
        ctx.paths(f, cl3, final, "processes exclusively, tells what is pending", opaque=opq, cap=3)


@rule("C15.size", "C15", "size() is the number of tasks pending here and on the pool, read with acquire; empty() tells whether it is zero")
def r_size(ctx):
    E = ctx.E
    INL = inline_mode(ctx)
    for f in ctx.fns(S + "::size") + ctx.fns(S + "::empty"):
        def cl(ev, seq):
            if ev.k == "atomic" and F(ev) == SZ and ev.q == "load":
                return ("size", ev.r, ev.x)
            if ev.k == "call" and ev.q == TP + "::size":
                return ("psize", ev.r)
            if ev.k == "load" and F(ev) == STRAT:
                return ("mode", ev.r)

        def final(seq, ev):
            if ev.q != "ret":
                return
            s = [x for x in seq if x[0] == "size"]
            p = [x for x in seq if x[0] == "psize"]
            inl = [INL(ev.facts, x[1]) for x in seq if x[0] == "mode"]
            if not s or not p and True not in inl:
                yield "pending work is left out of the count"
                return
            if s[-1][2] not in ACQ:
                yield "what finished work did is not visible to whoever sees the count drop"
            for a, b in ((0, 0), (1, 0), (0, 1), (2, 3)):
                if not p and b:
                    continue
                env = {s[-1][1]: a}
                if p:
                    env[p[-1][1]] = b
                if not possible(ev.facts, env):
                    continue
                v = evalc(ev.r, env)
                w = a + b if f["q"].endswith("::size") else int(a + b == 0)
                if v is not None and v != w or v is None:
                    yield "does not tell the number of pending tasks" if f["q"].endswith("::size") else "does not tell whether work is pending"
                    break
        ctx.paths(f, cl, final, "tells what is pending", opaque=OPQ)
    for f in ctx.fns(S + "::is_shutdown"):
        def cl(ev, seq):
            if ev.k == "atomic" and F(ev) == SD and ev.q == "load":
                return ("shut", ev.r)

        def final(seq, ev):
            if ev.q == "ret" and not (seq and truth(E, ("op", "eq", ev.r, seq[-1][1]), ev.facts) is True or seq and ev.r == seq[-1][1] or
                                      seq and all(evalc(ev.r, {seq[-1][1]: k}) == k for k in (0, 1))):
                yield "does not tell whether shutdown was requested"
        ctx.paths(f, cl, final, "tells whether shut down")


@rule("C15.start", "C15 C25", "construction watches both wake-up pipes and fails when it cannot; a pool exists exactly when tasks run on one; the event loop's thread is started exactly when one was asked for")
def r_start(ctx):
    E = ctx.E
    INL = inline_mode(ctx)
    ts = dict(ctx.P.enums.get(S + "::thread_strategy_t") or [])
    if "spawn" not in ts:
        raise AnalysisError("thread strategies not found")
    for f in ctx.fns(S + "::$ctor", lambda f: len(f.get("pn", [])) == 2):
        def cl(ev, seq):
            if ev.k == "call" and ev.q == IO + "::watch" and len(ev.a) > 3:
                return ("watch", pipe_end(ev.mem.get(loc_of(ev.a[1]), ev.a[1])), ev.a[3], ev.a[4] if len(ev.a) > 4 else ZERO, ev.r, ev.a[2])
            if ev.k == "call" and ev.q == TP + "::make_unique":
                return ("pool",)
            if ev.k == "load" and F(ev) == STRAT:
                return ("mode", ev.r)
            if ev.k == "call" and ev.q.endswith("timer_handle::$ctor"):
                return ("timer", ev.a[1])

        def final(seq, ev):
            if ev.q != "ret":
                return
            for pipe, o, w in ((SPIPE, "schedule", "scheduled work"), (DPIPE, "shutdown", "shutdown")):
                x = [y for y in seq if y[0] == "watch" and y[1][0] == pipe]
                if not x:
                    yield "the event loop is never woken for %s" % w
                    continue
                x = x[-1]
                if x[1][1] != 0:
                    yield "the wrong end of a wake-up pipe is watched"
                if x[2] != OBJ[o]:
                    yield "a wake-up for %s is taken for something else" % w
                if x[3] == ZERO:
                    yield "the event loop is woken for %s only once" % w
                if nulls(ctx, ev, x[4]) is not False:
                    yield "a scheduler that cannot be woken for %s is handed out" % w
            if any(x[1] != OBJ["timer"] for x in seq if x[0] == "timer"):
                yield "a timer's event is taken for something else"
            t = [INL(ev.facts, x[1]) for x in seq if x[0] == "mode"]
            if "pool" in names(seq) and True in t or "pool" not in names(seq) and True not in t:
                yield "a pool exists although tasks run inline, or is missing although they do not"
        ctx.paths(f, cl, final, "watches its pipes", opaque=OPQ)
    for f in ctx.fns(S + "::make_unique"):
        def cl(ev, seq):
            if ev.k == "load" and F(ev) == TSTRAT:
                return ("ts", ev.r)
            if ev.k == "call" and ev.q == "std::thread::$ctor" and len(ev.a) > 1 and "lambda" in str(ev.a[1]):
                return ("thread", ev.a[0])
            if ev.k == "call" and ev.q in ("std::thread::operator=", "std::thread::swap") and F(ev) == IOT:
                return ("keep", ev.a[1])

        def final(seq, ev):
            if ev.q != "ret":
                return
            n = names(seq)
            t = [eq_fact(E, ev.facts, x[1], ("c", ts["spawn"])) for x in seq if x[0] == "ts"]
            if True in t and n.count("thread") != 1:
                yield "no thread runs the event loop"
            elif True not in t and "thread" in n:
                yield "a thread runs the event loop although nobody asked for one"
            if "thread" in n and n.count("keep") != 1:
                yield "the event loop's thread is not kept to be joined"
        ctx.paths(f, cl, final, "starts the event loop", opaque=OPQ)


@rule("C15.shutdown", "C15", "the first shutdown marks the scheduler, wakes the loop, joins its thread and shuts the pool down; the destructor does so, and closes the pipes only when no loop runs")
def r_shutdown(ctx):
    E = ctx.E

    def cl(ev, seq):
        if ev.k == "atomic" and F(ev) == SD and ev.q != "load":
            return ("shut!", ev.q, ev.r, ev.a[1] if ev.q != "cas" else ev.a[2])
        if ev.k == "call" and short(ev.q) == "write" and ev.a and pipe_end(ev.a[0])[0]:
            return ("pipe",) + pipe_end(ev.a[0]) + (ev.a[2],)
        if ev.k == "call" and ev.q.startswith("std::thread::") and F(ev) == IOT and short(ev.q) in ("join", "joinable", "detach"):
            return (short(ev.q), ev.r)
        if ev.k == "call" and ev.q == TP + "::shutdown":
            return ("pooldown",)
        if ev.k == "call" and ev.a and F(ev) == POOL and short(ev.q) in ("operator==", "operator!=", "$conv"):
            return ("pool?", ev.r, short(ev.q) == "operator==")
        if ev.k == "load" and isinstance(ev.a[0], tuple) and ev.a[0][0] == "addr" and POOL in ev.a[0][2]:
            return ("pool?", ev.r, True, True)
        if ev.k == "br" and ev.x and ev.x[0][0] == "eq" and ev.x[0][2] == ZERO and ev.x[1] and ev.x[0][1][0] == "ld" and POOL in ev.x[0][1][1][2]:
            return ("nopool",)
        if ev.k == "call" and short(ev.q) == "close" and ev.a and pipe_end(ev.a[0])[0]:
            return ("close",)
        return None

    def joined(seq, ev):
        return "join" in names(seq) or any(x[0] == "joinable" and nulls(ctx, ev, x[1]) is True for x in seq)

    def nopool(seq, ev):
        if "nopool" in names(seq):
            return True
        for x in seq:
            if x[0] == "pool?":
                t = nulls(ctx, ev, x[1])
                if t is not None and (t if len(x) > 3 or not x[2] else not t):
                    return True
        return False

    for f in ctx.fns(S + "::shutdown"):
        def final(seq, ev):
            if ev.q != "ret":
                return
            n = names(seq)
            x = [y for y in seq if y[0] == "shut!"]
            if not x:
                yield "shutdown does not mark the scheduler"
                return
            if x[0][1] not in ("xchg", "cas", "or") or len(x) > 1:
                yield "two threads can both believe they shut the scheduler down first"
                return
            if eq_fact(E, ev.facts, x[0][3], ONE) is not True:
                yield "shutdown does not mark the scheduler"
            if nulls(ctx, ev, x[0][2]) is not True:
                return
            w = [i for i, y in enumerate(seq) if y[0] == "pipe"]
            if not w or any(seq[i][1] != DPIPE or seq[i][2] != 1 or seq[i][3] == ZERO for i in w):
                yield "the event loop is not woken for shutdown"
            elif w[0] < n.index("shut!"):
                yield "the event loop is woken before the scheduler is marked"
            elif "join" in n and n.index("join") < w[0]:
                yield "waits for the event loop before it was woken"
            if not joined(seq, ev):
                yield "does not wait for the event loop"
            if "pooldown" not in n and not nopool(seq, ev):
                yield "the pool is not shut down"
            if "detach" in n:
                yield "does not wait for the event loop"
        ctx.paths(f, cl, final, "marks, wakes, waits", opaque=OPQ)
    for f in ctx.fns(S + "::$dtor"):
        def final(seq, ev):
            if ev.q != "ret":
                return
            n = names(seq)
            if "shut!" not in n:
                yield "the scheduler is destroyed without having been shut down"
                return
            if not joined(seq, ev):
                yield "the scheduler is destroyed while its thread may run"
            if "close" in n:
                k = n.index("close")
                if not joined(seq[:k], ev) or n.index("shut!") > k:
                    yield "the wake-up pipes are closed while the event loop may run"
        ctx.paths(f, cl, final, "shuts down", opaque=OPQ)


@rule("C15.range", "C15 C25", "every handle of a range is offered once and the number accepted is returned")
def r_range(ctx):
    E = ctx.E
    for f in ctx.fns(S + "::resume", lambda f: not single(f)):
        ctx.ob("%s: offers each handle" % f["dem"][:120])

        class M(EachMon):
            init = (EachMon.init, 0, 0, frozenset(), None)

            def step(self, st, ev):
                base, ok, bad, known, last = st
                if act(ev) is not None:
                    last = ev.r
                    known = frozenset()
                if ev.k == "br" and ev.x and last is not None and (contains(ev.x[0][1], last) or contains(ev.x[0][2], last)):
                    t = nulls(ctx, with_facts(ev, {ev.x}), last)
                    if t is True:
                        bad = min(bad + 1, 5)
                    elif t is False:
                        ok = min(ok + 1, 5)
                    last = None if t is not None else last
                if ev.k == "exit" and ev.q == "ret" and ok < 5 and bad < 5:
                    v = ev.r
                    k = 0
                    while v[0] == "op" and v[1] in ("add", "sub") and v[3][0] == "c":
                        k += v[3][1] if v[1] == "add" else -v[3][1]
                        v = v[2]
                    if not (v[0] == "r" and short(v[1]) in ("size", "ssize") and k == -bad or v[0] == "c" and k + v[1] == ok or v[0] in ("any", "it")):
                        raise Violation("the number returned is not the number accepted", ev)
                return (EachMon.step(self, base, ev), ok, bad, known, last)

        def act(ev):
            if ev.k == "call" and ev.q == S + "::resume" and len(ev.a) > 1:
                return ev.a[1]
        ctx.monitor(f, M(E, act, lambda ev: ev.k == "exit" and ev.q == "ret", "the handles of a range"), opaque=OPQ | {S + "::resume"})


@rule("C15.spawn", "C15 C25 C24", "a detached task is counted, hooked and handed over once; a refusal frees it, un-counts it and is reported; a joinable task that was refused is not reported as joined")
def r_spawn(ctx):
    spawn_rule(ctx, S, SZ, (S + "::resume",))
    joinable_rule(ctx, S)


@rule("C15.with", "C15", "schedule(task) moves to the scheduler, then runs the task once and gives its result")
def r_with(ctx):
    with_rule(ctx, S, lambda ev: ev.k in ("enter", "call") and ev.q == OP + "::await_suspend", lambda f: len(f.get("pn", [])) == 1)


@rule("C15.timed", "C15 C16", "a task with a time limit races its timeout once, is told to stop when it can be, and a timeout is reported exactly when the timeout won")
def r_timed(ctx):
    E = ctx.E
    TS = "timeout_status"
    n = 0
    for f in ctx.fns(S + "::schedule", lambda f: f.get("coro") and len(f.get("pn", [])) > 1):
        n += 1
        stop = any("stop_source" in t for t in f["pt"])

        def cl(ev, seq):
            if ev.fn.endswith("::unhandled_exception"):
                return ("exc",)
            if ev.k == "corocall" and ev.q == S + "::schedule":
                return ("plain", len(ev.a))
            if ev.k == "corocall" and ev.q == "coro::when_any":
                return ("race", "stop_source" in (ev.dem or "").split("when_any", 1)[-1], ev.r)
            if ev.k == "corocall" and ev.q == S + "::make_timeout_task":
                return ("timeout",)
            if ev.k == "await" and "task" in ev.q:
                return ("await",)
            if ev.k == "call" and ev.q in ("std::holds_alternative", "std::get_if") and "promiseof" not in str(ev.a[0]) and ev.fn.endswith("::schedule"):
                a = targs(ev.dem, "std::" + short(ev.q))
                return ("holds", TS in (a[0] if a else "") or (a[0] if a else "").rstrip("ul") == "1", ev.r)
            if ev.k == "call" and ev.q == "std::variant::index" and ev.fn.endswith("::schedule"):
                return ("index", ev.r)
            if ev.k == "call" and ev.q.startswith("tl::unexpected::$ctor"):
                return ("unexp",)

        def final(seq, ev):
            if ev.q != "coroend" or "exc" in names(seq):
                return
            n = names(seq)
            if "race" not in n:
                if n.count("plain") != 1 or "await" not in n:
                    yield "the given task is not run exactly once"
                if "unexp" in n:
                    yield "a task without a time limit is reported as timed out"
                return
            if n.count("race") != 1 or "plain" in n:
                yield "the given task is not run exactly once"
            if n.count("timeout") != 1:
                yield "the time limit is not armed exactly once"
            if stop and not [x for x in seq if x[0] == "race"][0][1]:
                yield "a task that ran out of time is not told to stop"
            won = None
            for x in seq:
                if x[0] == "holds":
                    t = nulls(ctx, ev, x[2])
                    if t is not None:
                        won = (not t) if x[1] else t
                if x[0] == "index":
                    t = eq_fact(E, ev.facts, x[1], ONE)
                    z = eq_fact(E, ev.facts, x[1], ZERO)
                    won = t if t is not None else (not z if z is not None else won)
            if won is None:
                yield "nobody looks whether the task or its time limit was first"
            elif won and "unexp" not in n:
                yield "a task that ran out of time is reported as finished"
            elif not won and "unexp" in n:
                yield "a task that finished in time is reported as timed out"
        ctx.paths(f, cl, final, "races the time limit", cap=2, opaque=OPQ | {OP + "::"})
    if n < 2:
        raise AnalysisError("no schedule with a time limit found")
    en = dict(ctx.P.enums.get("coro::timeout_status") or [])
    for f in ctx.fns(S + "::make_timeout_task"):
        def cl(ev, seq):
            if ev.fn.endswith("::unhandled_exception"):
                return ("exc",)
            if ev.k == "corocall" and ev.q in (S + "::yield_for_internal", S + "::schedule_after", S + "::yield_for", S + "::schedule_at", S + "::yield_until"):
                return ("sleep",)
            if ev.k == "await":
                return ("await",)
            r = coreturn(ev)
            if r is not None:
                return ("give", r)

        def final(seq, ev):
            if ev.q != "coroend" or "exc" in names(seq):
                return
            n = names(seq)
            if "sleep" not in n or "await" not in n:
                yield "the time limit passes at once"
            elif "give" in n and n.index("give") < n.index("await"):
                yield "the time limit passes at once"
            g = [x[1] for x in seq if x[0] == "give"]
            if g and "timeout" in en and eq_fact(E, ev.facts, g[-1], ("c", en["timeout"])) is False:
                yield "running out of time is not told"
        ctx.paths(f, cl, final, "sleeps, then tells", opaque=OPQ | {OP + "::"})

"""C17: polling a descriptor."""
from .base import *
from .comp import *
from .c15_scheduler import S, IO, SZ, HND, OPQ as OPQ15
from .c16_timers import ADD, REM, FIRE, TM, TE, PI, KEEP, _S, content, units, is_now, te_call, INS, CHG, result_ok

OPN = OPQ15 - {IO + "::"}
FD, MOP, POS, HDL, STATUS, DONE, TRIG = (PI + "::" + x for x in ("m_fd", "m_op", "m_timer_pos", "m_awaiting_coroutine", "m_poll_status", "m_processed", "m_cancel_trigger"))
EVT = S + "::process_event_execute"
ACQ = ("acquire", "acq_rel", "seq_cst")
REL = ("release", "acq_rel", "seq_cst")
IN, OUT, ERR, HUP, RDHUP, ONESHOT, ET = 1, 4, 8, 0x10, 0x2000, 1 << 30, 1 << 31
CTL_ADD, CTL_DEL, CTL_MOD = 1, 2, 3
MASK = (1 << 64) - 1


def status(ctx, name):
    for n, v in ctx.P.enums["coro::poll_status"]:
        if n == name:
            return ("c", v)
    raise AnalysisError("poll_status::%s is gone" % name)


def returns(ctx, f, ok, msg):
    """every path of f returns a value that is ok"""
    def final(seq, ev):
        if ev.q == "ret" and (ev.r is None or not ok(ev.r, ev)):
            yield msg
    ctx.paths(f, lambda ev, seq: None, final, "returns the right value")


def fld(v):
    return v[2][-1] if isinstance(v, tuple) and v and v[0] == "addr" and v[2] else None


# ---- bits -----------------------------------------------------------------------------------------------------------------

def bits(v, width, sub=None):
    """64 bits of v: 0, 1, (leaf, position) or None; width(leaf) -> bits it has; sub(leaf, position) -> replacement"""
    def leaf():
        w = width(v)
        return [((sub(v, i) if sub else (v, i)) if i < w else 0) for i in range(64)]
    if v[0] == "c" and isinstance(v[1], int):
        return [(v[1] >> i) & 1 for i in range(64)]
    if v[0] == "op":
        o = v[1]
        if o in ("and", "or", "xor"):
            a, b = bits(v[2], width, sub), bits(v[3], width, sub)
            r = []
            for x, y in zip(a, b):
                if x in (1, None) or not isinstance(x, int):
                    x, y = y, x
                if o == "and":
                    r.append(0 if 0 in (x, y) else y if x == 1 else x if y == 1 else x if x == y else None)
                elif o == "or":
                    r.append(1 if 1 in (x, y) else y if x == 0 else x if y == 0 else x if x == y else None)
                else:
                    r.append(y if x == 0 else x if y == 0 else (x ^ y) if isinstance(x, int) and isinstance(y, int) else None)
            return r
        if o in ("shl", "lshr") and v[3][0] == "c":
            a, n = bits(v[2], width, sub), v[3][1]
            return [0] * n + a[:64 - n] if o == "shl" else a[n:] + [0] * n
        if o in ("eq", "ne", "not"):
            p = onebit(v, width, sub)
            return [(p[0] if p[1] else None) if p else None] + [0] * 63
    return leaf()


def onebit(v, width, sub=None):
    """(bit, polarity) when the truth of v depends on one bit only"""
    pol = True
    while v[0] == "op" and v[1] == "not":
        v, pol = v[2], not pol
    if v[0] == "op" and v[1] in ("eq", "ne") and v[3][0] == "c":
        a = bits(v[2], width, sub)
        want = v[3][1]
        free = [(i, x) for i, x in enumerate(a) if x is None or not isinstance(x, int)]
        if len(free) == 1 and free[0][1] is not None and all(((want >> i) & 1) == x for i, x in enumerate(a) if isinstance(x, int)):
            one = ((want >> free[0][0]) & 1) == 1
            return free[0][1], (one == (v[1] == "eq")) == pol
        return None
    a = bits(v, width, sub) if not (v[0] == "op" and v[1] in ("eq", "ne", "not")) else []
    free = [x for x in a if x is None or not isinstance(x, int)]
    if len(free) == 1 and free[0] is not None and 1 not in a:
        return free[0], pol
    return None


# ---- the coroutine that polls -----------------------------------------------------------------------------------------------

def polls(ctx):
    fs = [f for f in ctx.fns(S + "::poll") if f.get("coro") and "int" in f["pt"][0]]
    if not fs:
        raise AnalysisError("no polling coroutine found")
    return fs


@rule("C17.poll", "C17 C15 C16", "a poll registers its descriptor and, if asked for, its timeout, waits once and returns the outcome; a descriptor that cannot be registered is an error and is not waited for")
def r_poll(ctx):
    E = ctx.E
    for f in polls(ctx):
        fd, op, tmo, trig = (("arg", n) for n in f["pn"][:4])

        def cl(ev, seq):
            if ev.fn.endswith("::unhandled_exception") or ev.k == "throw":
                return ("exc",)
            if ev.k == "atomic" and F(ev) == SZ and ev.q != "load":
                return ("size", ev.q, ev.a[1])
            if ev.k == "call" and ev.q == IO + "::watch":
                b = loc_of(ev.a[1]) if len(ev.a) == 2 else None
                m = ev.mem or {}
                return ("watch", b, ev.r) + tuple(m.get(addr(b, (x,))) if b else None for x in (FD, MOP, TRIG, DONE, HDL))
            if ev.k == "call" and ev.q == IO + "::unwatch":
                return ("unwatch",)
            if ev.k == "call" and ev.q == ADD:
                return ("timer", ev.a[1], ev.a[2], ev.r)
            if ev.k == "call" and ev.q == REM:
                return ("rem",)
            if ev.k in ("call", "store") and ev.a and isinstance(ev.a[0], tuple) and ev.a[0][0] == "addr" and POS in ev.a[0][2] and len(ev.a) > 1 and (ev.k == "store" or short(ev.q) in ("operator=", "emplace")):
                return ("pos", ev.a[0][1], content(ev, ev.a[1]))
            if ev.k == "atomic" and ev.q in ("store", "xchg") and F(ev) == HDL:
                return ("wait", ("addr", ev.a[0][1], ev.a[0][2][:-1]))
            if ev.k == "call" and ev.a and fld(ev.a[0]) == "coro::detail::promise::m_storage" and short(ev.q) in ("emplace", "operator="):
                return ("result", content(ev, ev.a[1]))
            if ev.k == "call" and is_now(ev.r):
                return ("now", ev.r)

        def final(seq, ev):
            n = names(seq)
            if ev.q != "coroend" or "exc" in n:
                return
            w = [x for x in seq if x[0] == "watch"]
            if len(w) != 1:
                yield "the descriptor is not registered exactly once"
                return
            w = w[0]
            _, pi, r, vfd, vop, vtrig, vdone, vhdl = w
            if vfd not in (fd, ("ld", fd)) or vop != op:
                yield "another descriptor or operation is registered"
            if vtrig is None or trig != vtrig and trig not in (vtrig[1:2] if vtrig[0] == "ld" else ()) and not contains(vtrig, trig):
                yield "the poll is registered without its cancellation"
            ok = truth(E, r, ev.facts)
            net = sum((1 if x[1] == "add" else -1) if x[2] == ONE and x[1] in ("add", "sub") else 99 for x in seq if x[0] == "size")
            res = [x[1] for x in seq if x[0] == "result"]
            if len(res) != 1:
                yield "the outcome is not returned"
                return
            t = n.count("timer")
            if ok is False:
                if "wait" in n:
                    yield "a descriptor that could not be registered is waited for"
                if res[0] != status(ctx, "error"):
                    yield "a descriptor that could not be registered is not reported as an error"
                if net != 0:
                    yield "a poll that never waited stays counted"
                if t != n.count("rem"):
                    yield "the timeout of a poll that never waited stays pending"
                return
            if ok is None:
                yield "goes on without knowing whether the descriptor was registered"
                return
            if n.count("wait") != 1 or [x[1] for x in seq if x[0] == "wait"] != [pi]:
                yield "the poll registered is not waited for exactly once"
                return
            if net != 1 or n.index("size") > n.index("watch"):
                yield "a waiting poll is not counted exactly once before it is registered"
            asked = E.query(_S(ev.facts), ("slt", ZERO, tmo))
            if asked is None:
                yield "waits without looking whether a timeout was asked for"
            elif asked != (t == 1) or t > 1:
                yield "a timeout that was asked for is not set" if asked else "a timeout nobody asked for is set"
            elif t == 1:
                x = [x for x in seq if x[0] == "timer"][0]
                nows = [y[1] for y in seq if y[0] == "now"]
                if not (x[1][0] == "op" and x[1][1] == "add" and (x[1][2] in nows and x[1][3] == tmo or x[1][3] in nows and x[1][2] == tmo)):
                    yield "the timeout set is not the one asked for"
                if loc_of(x[2]) != pi:
                    yield "the timeout is set for another poll"
                p = [y for y in seq if y[0] == "pos"]
                if not p or ("addr", p[-1][1], ()) != pi and p[-1][1] != pi or p[-1][2] != x[3] and not contains(p[-1][2], x[3]) or n.index("pos") > n.index("wait"):
                    yield "the pending timeout is not known to whoever completes the poll"
            v = res[0]
            if not (v[0] == "ld" and fld(v[1]) == STATUS and ("addr", v[1][1], ()) in (pi, ("addr", pi, ())) or v[0] == "ld" and fld(v[1]) == STATUS and v[1][1] == pi):
                yield "the result is not the outcome of the poll"
            elif n.index("result") < n.index("wait"):
                yield "the result is taken before the poll is complete"
        ctx.paths(f, cl, final, "polls", opaque=OPQ15 | {IO + "::", ADD, REM}, cap=2)
    for f in ctx.fns(KEEP + "await_suspend"):
        def cl2(ev, seq):
            if ev.k == "atomic" and F(ev) == HDL and ev.q in ("store", "xchg"):
                return ("pub", ev.a[0], ev.a[1], ev.x)
            if ev.k in ("store", "atomic", "call", "destroy") or ev.k == "load" and any(str(x).startswith(PI) for x in (fields(ev.a[0]) if ev.a and ev.a[0][0] == "addr" else ())):
                if "pub" in names(seq):
                    return ("late",)

        def final2(seq, ev):
            if ev.q not in ("ret", "coroend"):
                return
            p = [x for x in seq if x[0] == "pub"]
            if len(p) != 1 or p[0][2] not in (("arg", f["pn"][0]), ("ld", ("arg", f["pn"][0]))) and not contains(p[0][2], ("arg", f["pn"][0])):
                yield "the coroutine that waits does not become known exactly once"
                return
            if str(p[0][3][0] if isinstance(p[0][3], tuple) else p[0][3]) not in REL:
                yield "the coroutine that waits becomes known without what it did before"
            if "late" in names(seq):
                yield "the poll is used after the waiting coroutine became known: it may have been resumed and be gone"
            if (f.get("crt") or "void") == "bool" and truth(E, ev.r, ev.facts) is not True:
                yield "the coroutine goes on although it will also be resumed"
        ctx.paths(f, cl2, final2, "suspends")
    for f in ctx.fns(KEEP + "await_ready"):
        returns(ctx, f, lambda v, ev: v == ZERO, "a poll is taken for complete before it waited")
    for f in ctx.fns(KEEP + "await_resume"):
        returns(ctx, f, lambda v, ev: v[0] == "ld" and fld(v[1]) == STATUS, "the outcome returned is not that of the poll")


# ---- completing a poll ------------------------------------------------------------------------------------------------------

def presence(ev, field):
    """a branch on whether the optional member is present: its truth"""
    if ev.k == "br" and ev.x:
        (k, a, b), pol = ev.x
        if k == "eq" and b[0] == "c" and a[0] == "ld" and a[1][0] == "addr" and field in a[1][2] and a[1][2][-1] == "$has":
            return pol == (b[1] != 0)


class CompleteMon(Monitor):
    """Only a poll not complete yet is completed; it is marked, its coroutine is waited for before its timer is looked at and before
    it is resumed, everything registered for it is removed, its outcome is set and it is resumed exactly once."""
    # poll, fresh, claimed, handles read, ready, fd value, timer presence, unwatched, removed, status, resumed
    BLANK = (None, None, False, (), False, None, None, 0, 0, None, 0)
    init = (BLANK, frozenset())

    def __init__(self, ctx, want, timer):
        self.ctx, self.E, self.want, self.timer = ctx, ctx.E, want, timer

    def close(self, st, ev, known):
        pi, fresh, claimed, hv, ready, fd, has, unw, rem, stat, res = st
        if pi is None:
            return
        fx = with_facts(ev, known).facts
        if fresh is False:
            if unw or rem or stat is not None or res:
                raise Violation("a poll that is complete already is completed again", ev)
            return
        if fresh is None:
            if unw or rem or stat is not None or res:
                raise Violation("a poll is completed without looking whether it is complete already", ev)
            raise Violation("a poll whose outcome arrived is passed over", ev)
        if not claimed:
            raise Violation("a poll that is completed is not marked, it can be completed again", ev)
        if res != 1:
            raise Violation("the coroutine of a completed poll is not resumed exactly once", ev)
        if stat is None or not self.want(stat):
            raise Violation("the outcome of the poll is not the one that happened", ev)
        if unw == 0 and not any(eq_fact(self.E, fx, v, ("c", -1)) is True or self.E.query(_S(fx), ("slt", v, ZERO)) is True for v in fd or ()):
            raise Violation("a descriptor stays registered after its poll is complete", ev)
        if unw > 1:
            raise Violation("a descriptor is removed twice", ev)
        if self.timer:
            if rem == 0 and has is not False:
                raise Violation("the timeout stays pending after its poll is complete", ev)
            if rem and has is not True:
                raise Violation("a timeout is removed that may not exist", ev)
            if rem > 1:
                raise Violation("a timeout is removed twice", ev)
        elif rem:
            raise Violation("a timeout that was taken already is removed again", ev)

    def step(self, full, ev):
        st, known = full
        pi, fresh, claimed, hv, ready, fd, has, unw, rem, stat, res = st
        if known is None:
            return full
        if pi is not None and past(ev):
            self.close(st, ev, known)
            return (st, None)
        if ev.k == "exit":
            if ev.q in ("ret", "coroend"):
                self.close(st, ev, known)
            return full
        if ev.k == "call" and pi is not None and isinstance(ev.r, tuple) and ev.r[0] == "r" and contains(pi, ev.r):
            self.close(st, ev, known)           # the element is looked up anew: the next round of the loop
            return (self.BLANK, frozenset())
        if ev.k == "age" and pi is not None and ev.a and contains(pi, ev.a[0]):
            self.close(st, ev, known)
            return (self.BLANK, frozenset())
        if ev.k == "br" and ev.x and pi is not None:
            (k, a, b), pol = ev.x
            for v in list(hv) + list(fd or ()):
                if contains(a, v) or contains(b, v):
                    known = known | {ev.x}
            h = presence(ev, POS)
            if h is not None and self.base(a[1]) == pi:
                if not ready:
                    raise Violation("the timeout of a poll is looked at before its coroutine has suspended: it may not be set yet", ev)
                has = h
            if k == "eq" and b in (ZERO, ONE):
                if a[0] == "ld" and fld(a[1]) == DONE and self.base(a[1]) == pi:
                    return ((pi, (pol == (b == ZERO)) if fresh is None else fresh) + st[2:], known)
            if k == "eq" and b == ZERO:
                if a in hv and not pol:
                    ready = True
            return ((pi, fresh, claimed, hv, ready, fd, has, unw, rem, stat, res), known)
        f = F(ev) if ev.a and isinstance(ev.a[0], tuple) and ev.a[0][0] == "addr" else None
        if ev.k in ("load", "store", "atomic") and isinstance(ev.a[0], tuple) and ev.a[0][0] == "addr" and any(str(x).startswith(PI + "::") for x in ev.a[0][2]):
            b = self.base(ev.a[0])
            x = [x for x in ev.a[0][2] if str(x).startswith(PI + "::")][0]
            if x == DONE and ev.k in ("load", "atomic") and (pi is None or fresh is not None and res or fresh is False or b != pi):
                self.close(st, ev, known)
                st = (b,) + self.BLANK[1:]
                if ev.k == "atomic" and ev.q == "xchg":
                    raise AnalysisError("m_processed is exchanged: not modelled")
                return (st, frozenset())
            if pi is None:
                if ev.k != "load" or x == POS:
                    raise Violation("a poll is completed without looking whether it is complete already", ev)
                return full
            if b != pi:
                raise Violation("another poll than the one completed is used", ev)
            if x == DONE and ev.k == "store":
                if truth(self.E, ev.a[1], ev.facts) is not True:
                    raise Violation("a completed poll is marked as incomplete", ev)
                if fresh is not True:
                    raise Violation("a poll is completed without looking whether it is complete already", ev)
                claimed = True
            elif x == HDL:
                if ev.k == "atomic" and ev.q == "load":
                    o = ev.x[0] if isinstance(ev.x, tuple) else ev.x
                    if o in ACQ:
                        hv = (ev.r,)
                        if eq_fact(self.E, ev.facts, ev.r, ZERO) is False:
                            ready = True
                    elif o == "relaxed":
                        hv = hv[:0]
                else:
                    raise Violation("the waiting coroutine is changed while the poll is completed", ev)
            elif x == FD and ev.k == "load":
                fd = tuple(sorted(set(fd or ()) | {ev.r}, key=repr))[:3]
            elif x == POS and ev.k == "load":
                if not ready:
                    raise Violation("the timeout of a poll is looked at before its coroutine has suspended: it may not be set yet", ev)
            elif x == STATUS and ev.k == "store":
                if fresh is True:
                    stat = ev.a[1]
                else:
                    raise Violation("the outcome of a poll that is complete already is changed", ev)
            return ((pi, fresh, claimed, hv, ready, fd, has, unw, rem, stat, res), known)
        if ev.k == "call":
            if ev.q == IO + "::unwatch" and len(ev.a) == 2:
                if pi is None or fresh is not True:
                    raise Violation("a poll is completed without looking whether it is complete already", ev)
                if not self.same(ev, ev.a[1], pi):
                    raise Violation("another poll than the one completed is removed", ev)
                return ((pi, fresh, claimed, hv, ready, fd, has, min(unw + 1, 2), rem, stat, res), known)
            if ev.q == REM or te_call(ev) == "erase":
                if pi is None or te_call(ev):
                    return full
                v = content(ev, ev.a[1])
                if fresh is not True:
                    raise Violation("a poll is completed without looking whether it is complete already", ev)
                if not (v[0] == "ld" and v[1][0] == "addr" and POS in v[1][2] and self.base(v[1]) == pi):
                    raise Violation("another timeout than that of the poll is removed", ev)
                return ((pi, fresh, claimed, hv, ready, fd, has, unw, min(rem + 1, 2), stat, res), known)
            if f == HND and short(ev.q) in ("emplace_back", "push_back"):
                v = content(ev, ev.a[1])
                if pi is None or fresh is not True:
                    raise Violation("a coroutine is resumed without looking whether its poll is complete already", ev)
                if v not in hv or not ready:
                    raise Violation("the coroutine resumed is not known to be the one that waits", ev)
                return ((pi, fresh, claimed, hv, ready, fd, has, unw, rem, stat, min(res + 1, 2)), known)
        return full

    @staticmethod
    def base(a):
        n = [i for i, x in enumerate(a[2]) if str(x).startswith(PI + "::")]
        b = ("addr", a[1], a[2][:n[0]]) if n else a
        return b[1] if not b[2] else b

    def same(self, ev, a, pi):
        v = content(ev, a)
        return v == pi or a == pi or loc_of(v) == loc_of(pi)


@rule("C17.complete", "C17", "a poll is completed by whatever happens first, exactly once: its outcome is set, its timer and registrations are removed and its coroutine is resumed")
def r_complete(ctx):
    fs = 0
    for f in (ctx.fns(EVT) if ctx.has(EVT) else []):
        fs += 1
        ctx.ob(f["dem"] + ": completes a poll once")
        st = ("arg", f["pn"][-1])
        pv = ("arg", f["pn"][0])
        ctx.monitor(f, CompleteMon(ctx, lambda v: v == st, True), opaque=OPQ15 | {IO + "::", REM, ADD})
    for f in (ctx.fns(FIRE) if ctx.has(FIRE) else []):
        fs += 1
        ctx.ob(f["dem"] + ": completes polls once")
        t = status(ctx, "timeout")
        kw = {"opaque": OPQ15 | {IO + "::", REM, ADD, S + "::update_timeout"}}
        ctx.monitor(f, CompleteMon(ctx, lambda v: v == t, False), **kw)
        ctx.ob(f["dem"] + ": completes every poll taken")

        class Each(EachMon):
            def test(self, ev):
                if ev.k == "br" and ev.x and (mentions(ev.x[0], TE) or "_Rb_tree" in repr(ev.x[0])):
                    return None
                return EachMon.test(self, ev)
        ctx.monitor(f, Each(ctx.E, lambda ev: ev.r if ev.k == "load" and F(ev) == DONE else None, lambda ev: ev.k == "exit" and ev.q == "ret", "completing the polls that timed out"), **kw)
    if not fs:
        raise AnalysisError("no function that completes polls found")


def mentions(v, field):
    if isinstance(v, tuple):
        return field in v or any(mentions(x, field) for x in v)
    return False


# ---- registration with the kernel -----------------------------------------------------------------------------------------

def ctl_letter(ev):
    """("ctl", operation, descriptor, events value, data value, result)"""
    if ev.k == "call" and ev.q == "epoll_ctl" and len(ev.a) == 4:
        e = d = None
        if ev.a[3][0] in ("alloca", "addr"):
            b = loc_of(ev.a[3])
            m = ev.mem or {}
            for k, v in m.items():
                if k[1] == b[1] and k[2][:len(b[2])] == b[2]:
                    r = k[2][len(b[2]):]
                    if r == ("epoll_event::events",):
                        e = v
                    elif r and r[0] == "epoll_event::data":
                        d = v
        return ("ctl", ev.a[1], ev.a[2], e, d, ev.r, ev.a[0])


def flags(v):
    """(constant bits, other parts) of a value or'ed together; None when it is anything else"""
    if v is None:
        return None
    if v[0] == "c":
        return v[1] & 0xFFFFFFFF, ()
    if v[0] == "op" and v[1] == "or":
        a, b = flags(v[2]), flags(v[3])
        return None if a is None or b is None else (a[0] | b[0], a[1] + b[1])
    if v[0] == "op":
        return None
    return 0, (v,)


def assume(v, x, val):
    """v when x is known to be val"""
    if v == x:
        return ("c", int(val))
    if v is not None and v[0] == "op":
        a = tuple(assume(y, x, val) if isinstance(y, tuple) else y for y in v[2:])
        if v[1] == "select" and a[0][0] == "c":
            return a[1] if a[0][1] else a[2]
        if all(y[0] == "c" for y in a if isinstance(y, tuple)):
            r = evalint(("op", v[1]) + a, {})
            if r is not None:
                return ("c", r)
        return ("op", v[1]) + a
    return v


def check_flags(v, op, keep):
    """messages about the events registered; op: value of the operation, keep: True (stays registered) / False"""
    f = flags(v)
    if f is None:
        yield "the events registered are not those of the operation"
        return
    c, parts = f
    if op[0] == "c":
        if parts or c & (IN | OUT) != op[1] & (IN | OUT):
            yield "the events registered are not those of the operation"
    elif parts != (op,) or c & (IN | OUT):
        yield "the events registered are not those of the operation"
    if not c & RDHUP:
        yield "a peer that closes is not noticed"
    if bool(c & ONESHOT) != (not keep):
        yield "a poll can be reported again after it was completed" if not keep else "what must wake the event loop every time does so only once"
    if bool(c & ET) != keep and keep:
        yield "what stays ready keeps waking the event loop"


NB = 47           # user-space addresses


def data_layout(ctx):
    """how watch(fd, ...) packs (keep, cancel, pointer): {bit: source}, from the source of the function"""
    E = ctx.E
    out = []
    for f in ctx.fns(IO + "::watch", lambda f: len(f["pt"]) == 5):
        fd, op, data, keep, cancel = (("arg", n) for n in f["pn"])
        w = {keep: 1, cancel: 1}

        def cl(ev, seq):
            return ctl_letter(ev)

        def final(seq, ev):
            if ev.q == "ret" and len(seq) == 1 and seq[0][4] is not None:
                b = bits(seq[0][4], lambda l: w.get(l, 64))
                k = truth(E, keep, ev.facts)
                c = truth(E, cancel, ev.facts)
                # what the path knows about the flags
                out.append({i: ("keep" if x[0] == keep else "cancel" if x[0] == cancel else "data" if x[0] == data else "?", x[1]) if isinstance(x, tuple) else x for i, x in enumerate(b)})
            return ()
        ctx.paths(f, cl, final, "packs its data", opaque=OPN)
    return out


def layout(ctx):
    ls = data_layout(ctx)
    if not ls:
        raise AnalysisError("cannot see what is registered with the kernel")
    l = ls[0]
    return l if all(x == l for x in ls) else None


@rule("C17.watch", "C17 C16", "what is registered is the operation asked for, reported once unless kept; failures are reported; the data finds the poll again")
def r_watch(ctx):
    E = ctx.E
    lay = layout(ctx)
    for f in ctx.fns(IO + "::watch", lambda f: len(f["pt"]) == 5):
        fd, op, data, keep, cancel = (("arg", n) for n in f["pn"])

        def cl(ev, seq):
            return ctl_letter(ev)

        def final(seq, ev):
            if ev.q != "ret":
                return
            if len(seq) != 1 or seq[0][1] != ("c", CTL_ADD) or seq[0][2] != fd or not (seq[0][6][0] == "ld" and fld(seq[0][6][1]) == IO + "::m_fd"):
                yield "the descriptor is not registered exactly once"
                return
            k = truth(E, keep, ev.facts)
            if k is None and seq[0][3] is not None and not contains(seq[0][3], keep):
                yield "registers without looking whether the registration is to stay"
                return
            for c in ((k,) if k is not None else (False, True)):
                yield from check_flags(assume(seq[0][3], keep, c), op, c)
            if seq[0][4] is None:
                yield "registered without the data that finds the poll again"
        ctx.paths(f, cl, final, "registers", opaque=OPN)
        result_ok(ctx, f)
        if lay is None:
            ctx.violate(f, f.get("loc"), "the data registered depends on the path taken")
        else:
            ctx.ob(f["dem"] + ": the data keeps the flags and the pointer")
            src = list(lay.values())
            for i in range(NB):
                if ("data", i) not in src:
                    ctx.violate(f, f.get("loc"), "bit %d of the pointer registered is lost" % i)
                    break
            for n in ("keep", "cancel"):
                if (n, 0) not in src:
                    ctx.violate(f, f.get("loc"), "the data registered does not tell %s" % ("kept registrations from polls" if n == "keep" else "a cancellation from an event"))
            if None in src or ("?", 0) in src:
                ctx.violate(f, f.get("loc"), "the data registered mixes the pointer and the flags")
    # a whole poll
    pif = lambda f: len(f["pt"]) == 1 and "poll_info" in f["pt"][0]
    for f in ctx.fns(IO + "::watch", pif):
        pi = ("arg", f["pn"][0])

        def unpack(v):
            """(pointer, keep, cancel) packed in v"""
            if v is None or lay is None:
                return None
            w = bits(v, lambda l: 64)
            g = {s: w[i] for i, s in lay.items() if isinstance(s, tuple)}
            p = {g.get(("data", i)) for i in range(NB)}
            ptr = None
            if all(isinstance(x, tuple) for x in p) and len({x[0] for x in p}) == 1 and all(g[("data", i)][1] == i for i in range(NB)):
                ptr = next(iter(p))[0]
            return ptr, g.get(("keep", 0)), g.get(("cancel", 0))

        def cl2(ev, seq):
            h = presence(ev, TRIG)
            if h is not None:
                return ("has", h)
            return ctl_letter(ev)

        def final2(seq, ev):
            if ev.q != "ret":
                return
            adds = [x for x in seq if x[0] == "ctl" and x[1] == ("c", CTL_ADD)]
            main = [x for x in adds if x[2][0] == "ld" and fld(x[2][1]) == FD]
            trig = [x for x in adds if x[2][0] == "ld" and x[2][1][0] == "addr" and TRIG in x[2][1][2]]
            dels = [x for x in seq if x[0] == "ctl" and x[1] == ("c", CTL_DEL)]
            if len(main) != 1 or len(main) + len(trig) != len(adds) or len(trig) > 1:
                yield "the descriptor of the poll is not registered exactly once"
                return
            m = main[0]
            r = truth(E, ev.r, ev.facts)
            if r is None and ev.r == ("op", "not", ("op", "eq", m[5], ("c", -1))):
                ok = None
            else:
                ok = eq_fact(E, ev.facts, m[5], ("c", -1))
                ok = None if ok is None else not ok
                if ok is None or r is None or r and not ok:
                    yield "a failure of the registration is not reported"
                    return
            if ok is False:
                if r:
                    yield "a failure of the registration is not reported"
                if trig and not dels and eq_fact(E, ev.facts, trig[0][5], ("c", -1)) is not True:
                    yield "the cancellation stays registered for a poll that failed"
                return
            mop = [l for l in (flags(m[3]) or (0, ()))[1]]
            if not (len(mop) == 1 and mop[0][0] == "ld" and fld(mop[0][1]) == MOP):
                yield "the events registered are not those of the operation"
            else:
                yield from check_flags(m[3], mop[0], False)
            u = unpack(m[4])
            if u != (pi, 0, 0):
                yield "the event does not lead back to the poll"
            has = None
            for x in seq:
                if x[0] == "has":
                    has = x[1]
            if not trig:
                if has is not False and r is not False:
                    yield "the cancellation of the poll is not registered"
                return
            if has is not True:
                yield "a cancellation is registered that may not exist"
            t = trig[0]
            yield from check_flags(t[3], ("c", IN), False)
            if unpack(t[4]) != (pi, 0, 1):
                yield "the cancellation does not lead back to the poll"
            c = eq_fact(E, ev.facts, t[5], ("c", -1))
            if c is None:
                yield "a poll whose cancellation could not be registered waits as if it could be cancelled"
            elif c and r:
                yield "a poll whose cancellation could not be registered waits as if it could be cancelled"
            elif c and not dels:
                yield "the descriptor stays registered for a poll that failed"
        ctx.paths(f, cl2, final2, "registers a poll", opaque=OPN, throws=None)
    # removal
    for f in ctx.fns(IO + "::unwatch", lambda f: not pif(f)):
        def cl3(ev, seq):
            return ctl_letter(ev) or (("ctl", ev.a[1], ev.a[2]) if ev.k == "call" and ev.q == "epoll_ctl" else None)

        def final3(seq, ev):
            if ev.q == "ret" and (len(seq) != 1 or seq[0][1] != ("c", CTL_DEL) or seq[0][2] != ("arg", f["pn"][0])):
                yield "the descriptor is not removed"
        ctx.paths(f, cl3, final3, "removes a descriptor", opaque=OPN)
    for f in ctx.fns(IO + "::unwatch", pif):
        def cl4(ev, seq):
            h = presence(ev, TRIG)
            if h is not None:
                return ("has", h)
            if ev.k == "call" and ev.q == "epoll_ctl":
                return ("ctl", ev.a[1], ev.a[2])

        def final4(seq, ev):
            if ev.q != "ret":
                return
            cs = [x for x in seq if x[0] == "ctl"]
            if any(x[1] != ("c", CTL_DEL) for x in cs):
                yield "something is registered while a poll is removed"
            main = [x for x in cs if x[2][0] == "ld" and fld(x[2][1]) == FD]
            trig = [x for x in cs if x[2][0] == "ld" and x[2][1][0] == "addr" and TRIG in x[2][1][2]]
            if len(main) != 1:
                yield "the descriptor of the poll is not removed"
            has = None
            for x in seq:
                if x[0] == "has":
                    has = x[1]
            if has is None and not trig or has is True and len(trig) != 1:
                yield "the cancellation of the poll stays registered"
            if len(main) + len(trig) != len(cs):
                yield "a descriptor the poll does not own is removed"
        ctx.paths(f, cl4, final4, "removes a poll", opaque=OPN, throws=None)


# ---- what the kernel reports --------------------------------------------------------------------------------------------------

def evalint(v, env):
    if v[0] == "c":
        return v[1]
    if v in env:
        return env[v]
    if v[0] == "op":
        a = [evalint(x, env) for x in v[2:]]
        if any(x is None for x in a):
            return None
        o = v[1]
        if o == "and":
            return a[0] & a[1]
        if o == "or":
            return a[0] | a[1]
        if o == "xor":
            return a[0] ^ a[1]
        if o == "lshr":
            return a[0] >> a[1]
        if o == "shl":
            return (a[0] << a[1]) & MASK
        if o == "eq":
            return int(a[0] == a[1])
        if o == "ne":
            return int(a[0] != a[1])
        if o == "not":
            return int(not a[0])
        if o in ("ult", "slt"):
            return int(a[0] < a[1])
    return None


def leaves(v):
    if v[0] == "op":
        return {y for x in v[2:] if isinstance(x, tuple) for y in leaves(x)}
    return set() if v[0] == "c" else {v}


@rule("C17.truth", "C17 C20", "every event the kernel can report is taken for what it says: readiness only if there is some, an error or close only if there was one")
def r_truth(ctx):
    E = ctx.E
    rd, wr, er, cl_ = (status(ctx, n) for n in ("read", "write", "error", "closed"))
    for f in ctx.fns(IO + "::event_to_poll_status"):
        got = []

        def final(seq, ev):
            got.append((ev.q, ev.r, dict(ev.facts or {}), ev))
            return ()
        ctx.paths(f, lambda ev, seq: None, final, "names an event", throws=None)
        n = 0
        for m in range(32):
            v = sum(b for i, b in enumerate((IN, OUT, ERR, HUP, RDHUP)) if m >> i & 1)
            for q, r, facts, ev in got:
                ls = {l for (k, a, b) in facts for x in (a, b) for l in leaves(x)}
                env = {l: v for l in ls}
                ok = True
                for (k, a, b), pol in facts.items():
                    x = evalint(("op", k, a, b), env)
                    if x is not None and bool(x) != pol:
                        ok = False
                if not ok:
                    continue
                n += 1
                msg = None
                if q != "ret":
                    if v:
                        msg = "an event the kernel can report is refused"
                else:
                    if r[0] != "c":
                        x = evalint(r, {l: v for l in leaves(r)})
                        r = ("c", x) if x is not None else r
                    if v == 0:
                        continue
                    if r == rd and not v & IN or r == wr and not v & OUT:
                        msg = "a descriptor that is not ready is reported as ready"
                    elif r == er and not v & ERR:
                        msg = "an error is reported that did not happen"
                    elif r == cl_ and not v & (HUP | RDHUP):
                        msg = "a close is reported that did not happen"
                    elif r not in (rd, wr, er, cl_):
                        msg = "an event of the descriptor is reported as something else"
                if msg:
                    ctx.violate(f, ev.loc, msg + " (events 0x%x)" % v)
                    break
        if n < 31:
            ctx.violate(f, f.get("loc"), "some events the kernel can report are not decided")
    ctx.ob("poll_op: values are the kernel's")
    vals = dict(ctx.P.enums["coro::poll_op"])
    if vals.get("read") != IN or vals.get("write") != OUT or vals.get("read_write") != IN | OUT:
        ctx.violate(None, None, "the operations polled for are not the kernel's: %s" % vals)


class ReportMon(Monitor):
    """Every event the kernel returned is reported once, with the poll it was registered for; a cancellation as such, anything else as
    what it says.  What was registered to stay is not a poll and not used as one."""
    # index expected (None before the loop), reported, whether it was kept, whether it is a cancellation
    init = (None, 0, None, None)

    def __init__(self, ctx, lay):
        self.ctx, self.E = ctx, ctx.E
        self.inv = {}
        for i, s in lay.items():
            if isinstance(s, tuple):
                self.inv[i] = s
            else:
                self.inv[i] = s
        self.cancelled = status(ctx, "cancelled")

    def sub(self, idx):
        def f(l, i):
            if l[0] == "ld" and l[1][0] == "addr" and l[1][2] and "epoll_event::data" in l[1][2] and (elem(l[1]) or ("", None))[1] == idx:
                return self.inv.get(i)
            return (l, i)
        return f

    def step(self, st, ev):
        idx, n, keep, canc = st
        if ev.k == "br" and ev.x:
            if idx not in (None, "end", ANY) and ev.x[0][0] == "eq":
                p = onebit(("op",) + ev.x[0], lambda l: 64, self.sub(idx))
                if p and p[0] == ("keep", 0):
                    keep = p[1] == ev.x[1]
                elif p and p[0] == ("cancel", 0):
                    canc = p[1] == ev.x[1]
                st = (idx, n, keep, canc)
            (k, a, b), pol = ev.x
            if k in ("slt", "ult") and isinstance(b, tuple) and b[:2] == ("r", "epoll_wait") or k == "eq" and any(x[:2] == ("r", "epoll_wait") and y[0] in ("c", "any") for x, y in ((a, b), (b, a))):
                i = a if a[:2] != ("r", "epoll_wait") else b
                more = pol if k != "eq" else not pol
                if i[0] == "c" and i[1] < 0:
                    return st
                if idx is not None and idx != "end" and i != idx and n != 1:
                    raise Violation("an event is passed over" if n == 0 else "an event is reported twice", ev)
                if idx is not None and i == idx and i == ANY and n != 1:
                    raise Violation("an event is passed over" if n == 0 else "an event is reported twice", ev)
                if idx is not None and idx[0] == "c" and i[0] == "c" and i[1] > idx[1] + 1:
                    raise Violation("the loop steps over events", ev)
                if not more:
                    return ("end", 1, None, None)
                return (i, 0, None, None) if i != idx or i == ANY else st
        if ev.k == "call" and ev.a and short(ev.q) in ("emplace_back", "push_back") and self.out(ev):
            p, s = self.pair(ev)
            if idx is None or idx == "end":
                raise Violation("something is reported that the kernel did not return", ev)
            if idx != ANY:
                w = bits(p, lambda l: 64, self.sub(idx)) if p[0] != "any" else None
                if w is None or any(w[i] != ("data", i) for i in range(NB)) or any(x not in (0,) and not (isinstance(x, tuple) and x[0] == "data") for x in w[NB:]):
                    raise Violation("the event is reported for another poll than it was registered for", ev)
                c = canc
                if s == self.cancelled:
                    if c is not True:
                        raise Violation("an event is reported as a cancellation", ev)
                elif s[0] == "r" and s[1] == IO + "::event_to_poll_status":
                    if c is not False:
                        raise Violation("a cancellation is reported as an event of the descriptor", ev)
                    a = s[2][0]
                    if not (a[0] == "addr" and elem(a) == elem_of(p)):
                        raise Violation("the outcome reported is that of another event", ev)
                else:
                    raise Violation("the outcome reported is not what the kernel said", ev)
            return (idx, min(n + 1, 2), keep, canc)
        used = ev.k in ("load", "store", "atomic") and isinstance(ev.a[0], tuple) and ev.a[0][0] == "addr" and any(str(x).startswith(PI + "::") for x in ev.a[0][2]) or \
            ev.k == "call" and ev.q == IO + "::unwatch" and len(ev.a) == 2
        if used and idx != ANY and keep is not False:
            raise Violation("what was registered to stay is used as a poll", ev)
        if ev.k == "exit" and ev.q == "ret" and idx not in (None, "end"):
            raise Violation("the loop is left before the last event", ev)
        return st

    def out(self, ev):
        return ev.a[0] == ("arg", "ready_events") or ev.a[0][0] == "arg" and len(ev.a) >= 2

    def pair(self, ev):
        if len(ev.a) >= 3:
            return content(ev, ev.a[1]), content(ev, ev.a[2])
        b = loc_of(ev.a[1])
        m = ev.mem or {}
        return m.get(addr(b, ("std::pair::first",)), ANY), m.get(addr(b, ("std::pair::second",)), ANY)


def elem(a):
    """(array, index) an address lies in"""
    for n, x in enumerate(a[2]):
        if isinstance(x, tuple) and x[:1] == ("idx",):
            return (a[1], x[1])
        if isinstance(x, str) and x.startswith("["):
            return (a[1], ("c", int(x[1:-1]))) if x[1:-1].isdigit() else (a[1], x)
    return None


def elem_of(v):
    for l in leaves(v):
        if l[0] == "ld" and l[1][0] == "addr" and "epoll_event::data" in l[1][2]:
            return elem(l[1])
    return None


@rule("C17.report", "C17", "every event the kernel returns is reported exactly once, for the poll it was registered for and as what it is")
def r_report(ctx):
    lay = layout(ctx)
    if lay is None:
        return
    for f in ctx.fns(IO + "::next_events"):
        ctx.ob(f["dem"] + ": reports every event")
        kw = dict(opaque=OPN | {IO + "::unwatch", IO + "::event_to_poll_status"}, unroll=1, throws=None)
        ctx.monitor(f, ReportMon(ctx, lay), **kw)

        def cl(ev, seq):
            if ev.k == "call" and ev.q == "epoll_wait":
                return ("wait", ev.a)

        def final(seq, ev):
            if ev.q == "ret":
                if len(seq) != 1:
                    yield "events are not waited for exactly once"
                    return
                a = seq[0][1]
                if not (a[0][0] == "ld" and fld(a[0][1]) == IO + "::m_fd"):
                    yield "waits on another descriptor"
        ctx.paths(f, cl, final, "waits for events", cap=2, **kw)


@rule("C17.cancel", "C17", "a stop source wakes exactly the polls that were given its token: the token is the end that becomes readable when the other is written to")
def r_cancel(ctx):
    E = ctx.E
    SRC, TOK = "coro::poll_stop_source", "coro::poll_stop_token"
    PIPE = "coro::detail::pipe_t::m_fds"
    ends = {}
    for f in ctx.fns(SRC + "::get_token"):
        def cl(ev, seq):
            if ev.k == "store" and fld(ev.a[0]) == TOK + "::m_receiver":
                return ("tok", ev.a[1])

        def final(seq, ev):
            if ev.q == "ret":
                if len(seq) != 1 or which(seq[0][1]) != 0:
                    yield "the token is not the reading end of the source"
        ctx.paths(f, cl, final, "gives its token")
    for f in ctx.fns(SRC + "::signal_stop"):
        def cl2(ev, seq):
            if ev.k == "call" and ev.q == "write":
                return ("write", ev.a)

        def final2(seq, ev):
            if ev.q == "ret":
                w = [x for x in seq if x[0] == "write" and which(x[1][0]) == 1 and x[1][2][0] == "c" and x[1][2][1] > 0]
                if not w:
                    yield "a stop is not signalled to the polls that wait"
        ctx.paths(f, cl2, final2, "signals")
    for f in ctx.fns(TOK + "::native_handle"):
        returns(ctx, f, lambda v, ev: v[0] == "ld" and fld(v[1]) == TOK + "::m_receiver", "the token polls another descriptor")
    for f in ctx.fns(TOK + "::$ctor", lambda f: f.get("sm") not in ("copyctor", "movector") and f["pt"]):
        def cl3(ev, seq):
            if ev.k == "store" and fld(ev.a[0]) == TOK + "::m_receiver":
                return ("tok", ev.a[1])

        def final3(seq, ev):
            if ev.q == "ret" and (not seq or seq[-1][1] != ("arg", f["pn"][0])):
                yield "the token polls another descriptor"
        ctx.paths(f, cl3, final3, "is made")


def which(v):
    """index of the pipe end a value is"""
    if v[0] == "ld" and v[1][0] == "addr":
        for x in v[1][2]:
            if isinstance(x, tuple) and x[:1] == ("idx",) and x[1][0] == "c":
                return x[1][1]
            if isinstance(x, str) and x.startswith("[") and x[1:-1].isdigit():
                return int(x[1:-1])
    return None

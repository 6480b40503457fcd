"""C19: TCP and UDP report byte counts, buffers and failures truthfully.  C20: mappings between codes and statuses."""
from .base import *
from .comp import *
from .c15_scheduler import S
from .c16_timers import content
from .c17_poll import assume
from .c22_dns import enum

NET = "coro::net::"
NATIVE, POLLED = NET + "make_io_status_from_native", NET + "make_io_status_from_poll_status"
KIND = NET + "io_status::kind"
PTR, LEN = ("std::span::_M_ptr",), ("std::span::_M_extent", "std::__detail::__extent_storage::_M_extent_value")
TYPE = NET + "io_status::type"
TASKS = {"coro::task::"}
RECV, SEND = {"recv": 1, "recvfrom": 1, "read": 1}, {"send": 1, "sendto": 1, "write": 1}
ACCEPT = {"accept", "accept4"}
MINUS = ("c", -1)
OPQ = DEFAULT_OPAQUE | {NATIVE, POLLED, NET + "socket::blocking"}
NEUTRAL = {"__errno_location"}


def direct(f):
    for b in f["blocks"]:
        for i in b:
            ff = i.get("f")
            if isinstance(ff, dict) and "fn" in ff:
                yield ff["fn"]


def transfers(ctx, coro=False):
    """functions of the networking part that themselves transfer bytes or accept connections"""
    names_ = set(RECV) | set(SEND) | ACCEPT
    out = [f for f in ctx.P.fns.values() if f["q"].startswith(NET) and names_ & set(direct(f)) and bool(f.get("coro")) == coro]
    return sorted(out, key=lambda f: f["m"])


def parts(ev, a):
    """contents of an object: member path -> value"""
    l = loc_of(a)
    n = len(l[2])
    out = {}
    for k, v in (ev.mem or {}).items():
        if k[0] == "addr" and k[1] == l[1] and k[2][:n] == l[2]:
            out[k[2][n:]] = v
    return out


def fall(v, what):
    return v == what or contains(v, what)


def whole(ev, v):
    """a value that stands for an object copied as a whole"""
    for _ in range(4):
        if not (isinstance(v, tuple) and v and v[0] == "ld" and v[1][0] == "addr" and root_of(v[1])[0] == "alloca"):
            return v
        w = (ev.mem or {}).get(v[1])
        if w is None or w == v:
            return v
        v = w
    return v


def status_of(ev, a):
    """the status held by a result object: ("c", kind), or the call that made it"""
    l = loc_of(a)
    m = ev.mem or {}
    for pre in ((), ("std::pair::first",), ("std::tuple::0",)):
        t = m.get(addr(l, pre + (TYPE,)))
        if t is not None and t[0] == "c":
            return t
        w = m.get(addr(l, pre))
        if w is not None and w[0] in ("r", "op", "c"):
            return w[2] if w[0] == "op" and w[1] == "pack" else w
        if t is not None:
            return t
        if w is not None and w[0] == "ld" and root_of(w[1])[0] == "r":
            return w
    return None


def span_of(ev, a, pre=()):
    """pointer and length held by the object at a (None: unknown)"""
    l = addr(loc_of(a), pre)
    m = ev.mem or {}

    def part(l, k, d=0):
        v = m.get(addr(l, k))
        if v is None and d < 4:
            for n in range(len(l[2]), -1, -1):
                w = m.get(("addr", l[1], l[2][:n]))
                if w is not None and w[0] == "ld":
                    src = addr(loc_of(w[1]), l[2][n:])
                    if src == l:
                        break
                    v = part(src, k, d + 1)
                    return ("ld", addr(src, k), w[2]) if v is None else v
                if w is not None:
                    break
        return v
    p, n = part(l, PTR), part(l, LEN)
    if p is not None and p[0] == "addr":
        q = p[2]
        while q and q[-1] == ("idx", ZERO):
            q = q[:-1]
        p = p[1] if not q else ("addr", p[1], q)
    return (p, n)


def plain(v):
    """a value without the positions of its loads"""
    if not isinstance(v, tuple):
        return v
    if v and v[0] == "ld":
        return ("ld", plain(v[1]))
    return tuple(plain(x) for x in v)


def isnull(p, pol):
    """the object whose being a null pointer a branch decides: (place or value, null?)"""
    if p[0] != "eq":
        return None
    a, b = p[1], p[2]
    if b != ZERO:
        return None
    if a[0] == "r" and short(a[1]) in ("operator==", "operator!=") and ZERO in a[2]:
        x = next((y for y in a[2] if y != ZERO), None)
        return (x, (not pol) if short(a[1]) == "operator==" else pol)
    if a[0] == "r" and short(a[1]) in ("$conv", "operator bool", "get", "operator->") and a[2]:
        return (a[2][0], pol)
    if a[0] == "ld" and a[1][0] == "addr" and a[1][2][-1:] == ("$ptr",):
        return (("addr", a[1][1], a[1][2][:-1]), pol)
    return (a, pol)


def minus(a, b):
    return (("op", "sub", a, b), ("op", "add", a, ("op", "sub", ZERO, b)))


@rule("C19.transfer", "C19 C25", "a transfer is one system call on the whole buffer; its count, the end of the connection and its error reach the caller as they are")
def r_transfer(ctx):
    E = ctx.E
    ok, closed = enum(ctx, KIND, "ok"), enum(ctx, KIND, "closed")
    fs = transfers(ctx)
    if len(fs) < 4:
        raise AnalysisError("only %d transferring functions found" % len(fs))
    for f in fs:
        ctx.ob(f.get("dem", f["q"]))
        buf = ("arg", (f.get("pn") or ["p0"])[-1] or "p%d" % (len(f["pn"]) - 1)) if f.get("pn") else None
        accept = ACCEPT & set(direct(f))
        dgram = {"recvfrom", "sendto"} & set(direct(f))

        def cl(ev, seq):
            if ev.k == "call" and ev.q in set(RECV) | set(SEND) | ACCEPT:
                return ("sys", ev.q, ev.a, ev.r)
            n = names(seq)
            if "sys" not in n and ev.k in ("enter", "call") and ev.q.startswith(NET + "socket_address::") and "make" not in ev.q:
                return ("address", ev.a[0])
            if "sys" in n and ev.k == "call":
                if ev.q == "__errno_location":
                    return ("errno", ev.r)
                if ev.q == NATIVE:
                    return ("native", ev.a[0], ev.r)
                if "(" not in (ev.dem or ev.q) and "::" not in ev.q and "native" not in n and not ev.q.startswith("llvm."):
                    return ("other",)
                if ev.q == "std::tuple::$ctor" and len(ev.a) > 2:
                    return ("result", tuple(status_of(ev, x) for x in ev.a[1:]), tuple(span_of(ev, x) for x in ev.a[1:]), ev.a[1:])
                if ev.q.startswith("tl::unexpected::$ctor"):
                    return ("failed", status_of(ev, ev.a[1]) if ev.a[1][0] in ("alloca", "addr") else ev.a[1])
                if ev.q.startswith("tl::expected::$ctor") and "unexpected" not in repr(ev.a[1]):
                    return ("made", parts_fd(ev, ev.a[1]))
                if ev.q == NET + "tcp::client::$ctor":
                    return ("made", parts_fd(ev, ev.a[2]) if len(ev.a) > 2 else None)

        def final(seq, ev):
            if ev.q != "ret":
                return
            s = [x for x in seq if x[0] == "sys"]
            if len(s) != 1:
                yield "a transfer is not exactly one system call"
                return
            q, a, r = s[0][1:]
            facts = ev.facts or {}
            neg = truth(E, ("op", "slt", r, ZERO), facts)
            if neg is None:
                e = eq_fact(E, facts, r, MINUS)
                neg = e
            if neg is None and truth(E, ("op", "slt", ZERO, r), facts) is True:
                neg = False
            if neg is None and eq_fact(E, facts, r, ZERO) is True:
                neg = False
            if neg is None:
                yield "failure of the transfer is not told apart from success"
                return
            if not (a[0][0] == "ld" and fields(a[0][1])[-1:] == (NET + "socket::m_fd",) and root_of(a[0][1]) == ("arg", "this")):
                yield "the transfer does not use this object's socket"
            data = size = None
            if not accept:
                data, size = a[1], a[2]
                if not (data[0] == "ld" and size[0] == "ld" and data[1] == addr(buf, PTR) and size[1] == addr(buf, LEN)):
                    yield "the transfer does not cover exactly the caller's buffer"
                    return
            places = [loc_of(x[1]) for x in seq if x[0] == "address"]
            if q == "sendto" and loc_of(("arg", f["pn"][0])) not in places:
                yield "the datagram is not sent to the caller's address"
            res = [x for x in seq if x[0] == "result"]
            if q == "recvfrom" and not neg and res and not any(loc_of(x) in places for x in res[-1][3]):
                yield "the sender's address is not handed out"
            nat = [x for x in seq if x[0] == "native"]
            if res:
                stats = [x for x in res[-1][1] if x is not None]
                stat = stats[0] if stats else None
                sp = [x for x in res[-1][2] if x[1] is not None]
                span = sp[-1] if sp else None
            elif accept:
                stat, span = None, None
            elif (f.get("crt") or "").endswith("io_status"):
                stat, span = ev.r, None
                if stat and stat[0] == "op" and stat[1] == "pack":
                    stat = stat[2]
            else:
                stat, span = status_of(ev, ("arg", "$ret")), span_of(ev, ("arg", "$ret"), ("std::pair::second",))
            if accept:
                made = [x for x in seq if x[0] == "made"]
                bad = [x for x in seq if x[0] == "failed"]
                if neg and (made and not bad or not bad):
                    yield "a failed accept does not end in an error"
                if not neg and (bad or not made):
                    yield "an accepted connection is not handed to the caller"
                if neg and bad:
                    stat = bad[-1][1]
                if not neg:
                    if made and made[-1][1] is not None and made[-1][1] != r:
                        yield "the connection handed to the caller is not the accepted one"
                    return
            if neg:
                errs = [x[1] for x in seq if x[0] == "errno"]
                good = stat is not None and any(stat == x[2] or fall(stat, x[2]) for x in nat) and any(x[1][0] == "ld" and x[1][1][1] in errs for x in nat)
                if not good:
                    yield "the error of a failed transfer does not reach the caller"
                elif "other" in names(seq):
                    yield "the error of a failed transfer may be overwritten before it is read"
                if span is not None:
                    if q in RECV and span[1] != ZERO:
                        yield "a failed read hands out bytes"
                    if q in SEND and (plain(span[0]) != plain(data) or plain(span[1]) != plain(size)):
                        yield "after a failed write the rest is not the whole buffer"
                return
            zero = eq_fact(E, facts, r, ZERO)
            if zero is None and truth(E, ("op", "slt", ZERO, r), facts) is True:
                zero = False
            if q == "recv" and zero is None:
                yield "the end of the connection is not told apart from data"
                return
            if q == "recv" and zero:
                if stat != closed or span is None or span[1] != ZERO:
                    yield "the end of the connection is not reported as closed without data"
                return
            if stat != ok:
                yield "a successful transfer is not reported as such"
            if span is not None and q in RECV and (plain(span[0]) != plain(data) or span[1] not in (r, ZERO if zero else r)):
                yield "the bytes handed out are not the ones that were read"
            if span is None and q in RECV:
                yield "the bytes read are not handed out"
            if span is not None and q in SEND:
                p = plain(span[0])
                if p not in (plain(addr(data, (("idx", r),))), plain(("op", "add", data, r))) or plain(span[1]) not in plain(minus(size, r)):
                    yield "the rest of the buffer after a write does not start where the write ended"
        ctx.paths(f, cl, final, "transfer", cap=3, opaque=OPQ, throws=None)


def parts_fd(ev, a):
    for k, v in parts(ev, a).items():
        if k[-1:] == (NET + "socket::m_fd",):
            return v
    return None


@rule("C19.signal", "C19", "writing to a connection the peer has closed is reported, not a signal that ends the process")
def r_signal(ctx):
    n = 0
    for f in ctx.P.fns.values():
        if not f["q"].startswith(NET) or "send" not in set(direct(f)):
            continue
        n += 1
        ctx.ob(f.get("dem", f["q"]))

        def cl(ev, seq):
            if ev.k == "call" and ev.q == "send" and not (ev.a[3][0] == "c" and ev.a[3][1] & 0x4000):
                raise Violation("a write to a closed connection raises SIGPIPE", ev)
        ctx.paths(f, cl, lambda s, e: (), "signal", opaque=OPQ, throws=None)
    if not n:
        raise AnalysisError("nothing sends")


# ------------------------------------------------------------------------------------------------------------ readiness, then retry

def pollers(ctx, extra=()):
    """coroutines that transfer: they call a transferring function"""
    tq = {f["q"] for f in transfers(ctx)}
    ms = {f["m"] for f in transfers(ctx)}
    out = []
    for f in ctx.P.fns.values():
        if f.get("coro") and f["q"].startswith(NET) and any(c in ms or c in tq for c in direct(f)):
            out.append(f)
    return sorted(out, key=lambda f: f["m"]), tq


def forwarders(ctx):
    """coroutines that only pass a poll on to the scheduler"""
    return [f for f in ctx.P.fns.values() if f.get("coro") and f["q"].startswith(NET) and short(f["q"]) == "poll"]


@rule("C19.retry", "C19 C25", "a transfer that would block waits for readiness in its direction and is tried again; anything else is returned as it is, and a failed wait is reported without data")
def r_retry(ctx):
    E = ctx.E
    RD, WR = enum(ctx, "coro::poll_op", "read"), enum(ctx, "coro::poll_op", "write")
    SR, SW = enum(ctx, "coro::poll_status", "read"), enum(ctx, "coro::poll_status", "write")
    AGAIN, OK, UNB = enum(ctx, KIND, "would_block_or_try_again"), enum(ctx, KIND, "ok"), enum(ctx, KIND, "udp_not_bound")
    fs, tq = pollers(ctx)
    if len(fs) < 4:
        raise AnalysisError("only %d transferring coroutines found" % len(fs))
    fwd = {f["q"] for f in forwarders(ctx)}
    binders = {f.get("cls") for f in ctx.P.fns.values() if f["q"].startswith(NET) and f.get("coro") and "m_bound" in repr(f["blocks"])}
    for f in fs:
        ctx.ob(f.get("dem", f["q"]))
        out = any(x in SEND for t in transfers(ctx) if t["m"] in set(direct(f)) for x in direct(t))
        op, ready = (WR, SW) if out else (RD, SR)
        accept = any(x in ACCEPT for t in transfers(ctx) if t["m"] in set(direct(f)) for x in direct(t))
        tmo = ("arg", f["pn"][-1])
        span = next((n for n, t in zip(f["pn"], f["pt"]) if "std::span" in t), None)
        B0, B1 = (("arg", span + ".0"), ("arg", span + ".1")) if span else (None, None)

        def provenance(ev, x, objs, depth_=0):
            """which objects does every part of x come from"""
            got = set()
            l = loc_of(x)
            if x in objs:
                return {x}
            vals = parts(ev, x)
            for v in vals.values():
                for o in objs:
                    if fall(v, o):
                        got.add(o)
            return got

        def cl(ev, seq):
            if ev.fn.endswith("::unhandled_exception") or awaited_throw(ev) or ev.k == "throw":
                return ("exc",)
            if ev.k == "call" and ev.q in tq:
                o = ev.a[0] if ev.a[0][0] == "alloca" and ("arg", "this") in ev.a[1:2] else ev.r
                b = next((span_of(ev, x) for x in ev.a[1:] if x[0] == "alloca" and x[3] == "std::span"), None)
                return ("xfer", o, b)
            if ev.k == "corocall" and (ev.q == S + "::poll" or ev.q in fwd):
                k = 3 if ev.q == S + "::poll" else 2
                sock = ev.a[2] if ev.q == S + "::poll" else None
                return ("poll", ev.a[k], ev.a[k + 1], sock)
            if ev.k == "load" and "poll" in names(seq) and "outcome" not in names(seq)[index(seq, "poll"):] and ev.r and ev.r[0] == "ld" and ev.r[1][1][0] == "r" and ev.r[1][1][1].endswith("::await_resume"):
                return ("outcome", ev.r)
            if ev.k == "call" and ev.q == POLLED:
                return ("polled", ev.a[0], ev.r)
            if ev.k == "call" and ev.q == "std::get" and ev.r is not None:
                return None
            if ev.k == "call" and (ev.q == "std::tuple::$ctor" or ev.q == "tl::unexpected::$ctor" or ev.q == "tl::expected::$ctor"):
                objs = [x[1] for x in seq if x[0] == "xfer"]
                srcs = [{o for o in objs if fall(x, o)} or provenance(ev, x, objs) for x in ev.a[1:]]
                return ("build", ev.a[0], tuple(frozenset(s) for s in srcs), tuple(status_of(ev, x) for x in ev.a[1:]), tuple(span_of(ev, x) for x in ev.a[1:]))
            if ev.k == "call" and ev.q.endswith("::emplace") and ev.fn.endswith("::return_value"):
                x = ev.a[-1]
                objs = [y[1] for y in seq if y[0] == "xfer"]
                b = [y for y in seq if y[0] == "build" and y[1] == x]
                if x in objs or x[0] == "r" and x in objs:
                    return ("return", "xfer", x)
                if b:
                    srcs = [s for s in b[-1][2]]
                    if all(srcs) and srcs:
                        one = set.intersection(*[set(s) for s in srcs])
                        return ("return", "xfer", next(iter(sorted(one, key=repr))) if one else None)
                    st = [s for s in b[-1][3] if s is not None]
                    sp = [s for s in b[-1][4] if s[1] is not None]
                    return ("return", "own", st[0] if st else None, sp[-1] if sp else None)
                p = provenance(ev, x, objs)
                st = status_of(ev, x)
                if p:
                    return ("return", "xfer", next(iter(p)) if len(p) == 1 else None)
                io = root_of(x)[0] == "alloca" and x[0] == "alloca" and x[3].endswith("io_status")
                return ("return", "own", content(ev, x) if st is None else st, None if io else span_of(ev, x, ("std::pair::second",)))
            if ev.k == "br" and ev.x:
                p = ev.x[0]
                if p[0] == "eq" and p[2][0] == "c" and p[1][0] == "ld" and fields(p[1][1])[-1:] == (TYPE,):
                    return ("$stat", p[1], p[2][1], ev.x[1])
                if p[0] == "eq" and p[1][0] == "r" and (short(p[1][1]) in ("$conv", "has_value", "operator bool")) and p[2] == ZERO:
                    return ("$has", p[1], not ev.x[1])
                if p[0] == "eq" and p[1][0] == "ld" and str(fields(p[1][1])[-1:]).find("m_bound") >= 0:
                    return ("$bound", not ev.x[1])
                if p[0] == "eq" and p[1] == B1 and p[2] == ZERO:
                    return ("$empty", ev.x[1])

        def again(seq, o, before=None):
            """is the outcome of transfer o known to be would-block: True / False / None"""
            res = None
            for x in seq:
                if x[0] == "$stat" and fall(x[1], o):
                    if x[2] == AGAIN[1]:
                        res = x[3]
                    elif x[3]:
                        res = False
                if x[0] == "$has" and fall(x[1], o) and x[2]:
                    res = False
            return res

        def final(seq, ev):
            n = names(seq)
            if ev.q != "coroend" or "exc" in n:
                return
            rets = [x for x in seq if x[0] == "return"]
            if len(rets) != 1:
                yield "nothing is returned"
                return
            r = rets[0]
            main = [x for x in seq if x[0] in ("xfer", "poll", "outcome", "polled", "return")]
            facts = ev.facts or {}
            if not any(x[0] in ("xfer", "poll") for x in main):
                emp = [x[1] for x in seq if x[0] == "$empty"]
                bnd = [x[1] for x in seq if x[0] == "$bound"]
                good = r[1] == "own" and (r[2] == OK and emp[-1:] == [True] or r[2] == UNB and bnd[-1:] == [False])
                if not good:
                    yield "an operation returns without trying to transfer"
                return
            if not out and not accept and [x[1] for x in seq if x[0] == "$bound"][-1:] != [True] and any(x[0] == "xfer" for x in main) and f["cls"] in binders:
                yield "a socket that is not bound is read from"
            last = None
            for i, x in enumerate(main):
                if x[0] == "xfer":
                    if x[2] is not None and B0 is not None and x[2] != (B0, B1) and x[2][0] is not None:
                        yield "the transfer does not use the caller's buffer"
                    prev = [y for y in main[:i] if y[0] == "xfer"]
                    if prev and again(seq, prev[-1][1]) is not True:
                        yield "a transfer is repeated although the one before did not report would-block"
                    p = [y for y in main[:i] if y[0] == "poll"]
                    if prev and not p:
                        yield "a transfer that would block is repeated without waiting"
                    if p:
                        o = [y for y in main[:i] if y[0] == "outcome"]
                        if not o or eq_fact(E, facts, o[-1][1], ready) is not True:
                            yield "a transfer follows a wait that did not report readiness"
                if x[0] == "poll":
                    if x[1] != op:
                        yield "the wait is for the other direction"
                    if x[2] != tmo:
                        yield "the wait does not use the caller's timeout"
                    if x[3] is not None and not (x[3][0] == "ld" and fields(x[3][1])[-1:] == (NET + "socket::m_fd",) and root_of(x[3][1]) == ("arg", "this")) and x[3] != addr(("arg", "this"), ()) \
                            and not (root_of(x[3]) == ("arg", "this")):
                        yield "the wait is on another socket"
            tail = main[-2]
            o = [y for y in main if y[0] == "outcome"]
            if o and eq_fact(E, facts, o[-1][1], ready) is True and not any(y[0] == "xfer" for y in main[index(main, "outcome"):]):
                yield "a wait that reported readiness is not followed by the transfer"
            if r[1] == "xfer":
                xs = [y for y in main if y[0] == "xfer"]
                if r[2] != xs[-1][1]:
                    yield "the result returned is not the one of the last transfer"
                if len(xs) == 1 and not o and again(seq, xs[-1][1]) is True:
                    yield "a transfer that would block is neither awaited nor repeated"
                if "poll" in names(main) and index(main, "poll") > max(i for i, y in enumerate(main) if y[0] == "xfer"):
                    yield "the result of an earlier attempt is returned after a wait"
            else:
                st = r[2]
                good = st is not None and any(y[0] == "polled" and (st == y[2] or fall(st, y[2])) and o and y[1] == o[-1][1] for y in main)
                if not good:
                    yield "the outcome of a failed wait does not reach the caller"
                if r[3] is not None and not accept:
                    if not out and r[3][1] != ZERO:
                        yield "a failed wait hands out bytes"
                    if out and r[3] != (B0, B1):
                        yield "after a failed wait the rest is not the whole buffer"
        ctx.paths(f, cl, final, "retry", cap=3, opaque=OPQ | TASKS | tq, throws=None)


@rule("C19.forward", "C19 C25", "waiting on a socket passes that socket, the direction and the timeout to the scheduler and returns its outcome")
def r_forward(ctx):
    for f in forwarders(ctx):
        ctx.ob(f.get("dem", f["q"]))
        op, tmo = ("arg", f["pn"][0]), ("arg", f["pn"][1])

        def cl(ev, seq):
            if ev.fn.endswith("::unhandled_exception") or awaited_throw(ev) or ev.k == "throw":
                return ("exc",)
            if ev.k == "corocall" and ev.q == S + "::poll":
                return ("poll", ev.a[2], ev.a[3], ev.a[4])
            if ev.k == "load" and "poll" in names(seq) and ev.r and ev.r[0] == "ld" and ev.r[1][1][0] == "r" and ev.r[1][1][1].endswith("::await_resume"):
                return ("outcome", ev.r)
            if ev.k == "call" and ev.q.endswith("::emplace") and ev.fn.endswith("::return_value"):
                return ("return", ev.a[-1], content(ev, ev.a[-1]))

        def final(seq, ev):
            if ev.q != "coroend" or "exc" in names(seq):
                return
            p = [x for x in seq if x[0] == "poll"]
            r = [x for x in seq if x[0] == "return"]
            if len(p) != 1 or len(r) != 1:
                yield "the wait is not passed on exactly once"
                return
            if p[0][2] != op or p[0][3] != tmo:
                yield "the wait does not use the caller's direction and timeout"
            if root_of(p[0][1] if p[0][1][0] != "ld" else p[0][1][1]) != ("arg", "this"):
                yield "the wait is on another socket"
            o = [x[1] for x in seq if x[0] == "outcome"]
            if r[0][2] not in o and not any(fall(r[0][1], x[1]) for x in o if x[0] == "ld") and not (r[0][1][0] == "r" and short(r[0][1][1]) == "await_resume"):
                yield "the outcome of the wait is not returned"
        ctx.paths(f, cl, final, "forward", cap=2, opaque=OPQ | TASKS, throws=None)


# ------------------------------------------------------------------------------------------------------------ whole buffers

def elapsed_ok(E, facts, t, v):
    return v is not None and (truth(E, ("op", "slt", v, t), facts) is True or truth(E, ("op", "slt", ZERO, ("op", "sub", t, v)), facts) is True)


@rule("C19.exact", "C19", "an exact transfer continues where the last part ended, stops at the first failure or at the deadline, and succeeds only when nothing is left")
def r_exact(ctx):
    E = ctx.E
    OK, TMO = enum(ctx, KIND, "ok"), enum(ctx, KIND, "timeout")
    fs, tq = pollers(ctx)
    some = {f["q"]: f for f in fs}
    subj = [f for f in ctx.P.fns.values() if f.get("coro") and f["q"].startswith(NET) and f["q"] not in some and short(f["q"]).endswith("_impl") and any(c in {x["m"] for x in fs} for c in direct(f))]
    if len(subj) < 2:
        raise AnalysisError("the exact transfers are gone")
    for f in sorted(subj, key=lambda f: f["m"]):
        ctx.ob(f.get("dem", f["q"]))
        callee = next(x for x in fs if x["m"] in set(direct(f)))
        out = any(x in SEND for t in transfers(ctx) if t["m"] in set(direct(callee)) for x in direct(t))
        span = next(n for n, t in zip(f["pn"], f["pt"]) if "std::span" in t)
        B = (("arg", span + ".0"), ("arg", span + ".1"))
        tmo = ("arg", f["pn"][-1])

        def plus(b, n):
            p = b[0]
            q = addr(p, (("idx", n),)) if p != ANY else ANY
            return (q, minus(b[1], n)[0])

        class Mon(Monitor):
            # what is left (None: unknown), number of rounds so far (at most 3), result object of the last part, what it said, kept
            init = (B, 0, None, None, None, False, None)

            def step(s, st, ev):
                left, rounds, obj, said, ret, exc, tout = st
                if exc:
                    return st
                if ev.fn.endswith("::unhandled_exception") or awaited_throw(ev) or ev.k == "throw":
                    return (left, rounds, obj, said, ret, True, tout)
                if ev.k == "corocall" and ev.q in some:
                    a = [x for x in ev.a[2:]]
                    if rounds and obj is not None and said is not True:
                        raise Violation("a transfer is continued without knowing that the part before succeeded", ev)
                    if len(a) < 3:
                        raise AnalysisError("unexpected arguments of %s" % ev.q)
                    if left is not None and ANY not in a[:2] and not contains(a[0], ANY) and not contains(left, ANY):
                        if a[0] != left[0] or a[1] != left[1] and a[1] not in minus(left[1], ZERO):
                            raise Violation("the next part does not start where the last one ended", ev)
                    t = a[2]
                    facts = ev.facts or {}
                    if truth(E, ("op", "slt", ZERO, tmo), facts) is True:
                        if t[0] == "op" and t[1] in ("sub", "add") and t[2] == tmo:
                            e = t[3] if t[1] == "sub" else None
                            if not elapsed_ok(E, facts, tmo, e):
                                raise Violation("a part is started although the deadline may have passed, and waits without limit", ev)
                            if not (e[0] == "op" and contains(e, "sub")):
                                raise Violation("the time left is not what remains until the deadline", ev)
                        else:
                            raise Violation("a part does not wait for the time that is left", ev)
                    elif t not in (ZERO, tmo):
                        raise Violation("a part without a deadline waits for a limited time", ev)
                    return (left, min(rounds + 1, 3), None, None, ret, exc, tout)
                if ev.k == "copy" and rounds and ev.a[1][0] == "addr" and ev.a[1][1][0] == "r" and short(ev.a[1][1][1]) == "await_resume":
                    return (left, rounds, ev.a[1][1], None, ret, exc, tout) if obj is None else st
                if ev.k == "call" and short(ev.q) == "await_resume" and rounds and obj is None and ev.r is not None:
                    o = ev.r
                    g = ("std::pair::second",)
                    n = ("ld", ("addr", o, g + LEN), "/0")
                    p = ("ld", ("addr", o, g + PTR), "/0")
                    nl = (p, n) if out else plus(left, n) if left is not None else None
                    if nl is not None and (contains(nl[0], ANY) or contains(nl[1], ANY)):
                        nl = None
                    return (nl, rounds, o, None, ret, exc, tout)
                if ev.k == "age":
                    def sub(v):
                        for o, n in ev.x:
                            v = subst(v, o, n)
                        return v
                    left = tuple(sub(x) for x in left) if left is not None else None
                    if left is not None and contains(left, ANY):
                        left = None
                    return (left, rounds, sub(obj) if obj is not None else None, said, ret, exc, tout)
                if ev.k == "br" and ev.x:
                    p = ev.x[0]
                    if obj is not None and p[0] == "eq" and p[1][0] == "ld" and fall(p[1], obj) and fields(p[1][1])[-1:] == (TYPE,):
                        if p[2] == OK:
                            said = ev.x[1]
                        elif ev.x[1]:
                            said = False
                    return (left, rounds, obj, said, ret, exc, tout)
                if ev.k == "call" and ev.q.endswith("::emplace") and ev.fn.endswith("::return_value"):
                    x = ev.a[-1]
                    stt, sp = status_of(ev, x), span_of(ev, x, ("std::pair::second",))
                    w = (ev.mem or {}).get(addr(loc_of(x), ("std::pair::first",)))
                    facts = ev.facts or {}
                    known = left is not None and not contains(left, ANY)
                    own = obj is not None and (w is not None and fall(w, obj) or stt is not None and fall(stt, obj))
                    if own or (obj is not None and said is False):
                        if not own:
                            raise Violation("the outcome of a part that failed does not reach the caller", ev)
                        if said is True and known and eq_fact(E, facts, left[1], ZERO) is not True:
                            raise Violation("a part that succeeded ends the transfer although something is left", ev)
                    elif stt == OK:
                        if obj is not None and said is not True:
                            raise Violation("success is reported without looking at the last part", ev)
                        if known and eq_fact(E, facts, left[1], ZERO) is not True and not same_zero(E, facts, left[1]):
                            raise Violation("success is reported although something is left", ev)
                    elif stt == TMO:
                        if truth(E, ("op", "slt", ZERO, tmo), facts) is not True:
                            raise Violation("a transfer without a deadline times out", ev)
                        late = any(k[0] == "slt" and k[2] == tmo and not v or k[0] == "slt" and k[1] == tmo and v for k, v in facts.items())
                        if not late:
                            raise Violation("a timeout is reported before the deadline", ev)
                    else:
                        raise Violation("a status of another origin is returned", ev)
                    # the bytes
                    if known and sp[1] is not None and not contains(sp[1], ANY) and not contains(sp[0], ANY):
                        if out:
                            done = stt == OK and not own
                            if not (plain(sp) == plain(left) or done and sp[1] == ZERO):
                                raise Violation("the rest of the buffer is not what was left unsent", ev)
                        else:
                            full = stt == OK and not own
                            if any(k[0] == "eq" and b and k[2] == MINUS and consumed(E, k[1], B[1], left[1]) for k, b in facts.items()):
                                return (left, rounds, obj, said, True, exc, tout)      # as many bytes as there are addresses: cannot happen
                            want = (B[1],) if full else ()
                            if sp[0] != B[0] or not (sp[1] in want or consumed(E, sp[1], B[1], left[1])):
                                raise Violation("the bytes handed out are not the ones read so far", ev)
                    return (left, rounds, obj, said, True, exc, tout)
                if ev.k == "exit" and ev.q == "coroend" and not ret:
                    raise Violation("nothing is returned", ev)
                return st
        ctx.monitor(f, Mon(), opaque=OPQ | TASKS | set(some), throws=None, unroll=2)


def linear(v):
    """value as a sum: {atom: coefficient}"""
    out = {}

    def add_(v, c):
        if v[0] == "c":
            out[1] = out.get(1, 0) + c * v[1]
        elif v[0] == "op" and v[1] == "add":
            add_(v[2], c)
            add_(v[3], c)
        elif v[0] == "op" and v[1] == "sub":
            add_(v[2], c)
            add_(v[3], -c)
        else:
            out[v] = out.get(v, 0) + c
    add_(v, 1)
    return {k: c for k, c in out.items() if c}


def consumed(E, n, total, left):
    a, b = linear(n), linear(("op", "sub", total, left))
    return a == b


def same_zero(E, facts, v):
    return linear(v) == {} or any(k[0] == "eq" and b and k[2] == ZERO and linear(k[1]) == linear(v) for k, b in facts.items())


@rule("C19.wrap", "C19", "the typed transfers pass the caller's whole buffer and timeout on and return what came back")
def r_wrap(ctx):
    E = ctx.E
    OK = enum(ctx, KIND, "ok")
    fs, tq = pollers(ctx)
    inner = {f["q"] for f in fs}
    inner |= {f["q"] for f in ctx.P.fns.values() if f.get("coro") and f["q"].startswith(NET) and any(c in {x["m"] for x in fs} for c in direct(f)) and any("std::span" in t for t in f["pt"])}
    ms = {m for q in inner for m in (f["m"] for f in ctx.P.byq[q])}
    subj = [f for f in ctx.P.fns.values() if f.get("coro") and f["q"].startswith(NET) and f["q"] not in inner and any(c in ms for c in direct(f)) and not any("std::span" in t for t in f["pt"])]
    if len(subj) < 4:
        raise AnalysisError("only %d typed transfers found" % len(subj))
    for f in sorted(subj, key=lambda f: f["m"]):
        ctx.ob(f.get("dem", f["q"]))
        buf, tmo = ("arg", "buffer" if "buffer" in f["pn"] else f["pn"][-2]), ("arg", f["pn"][-1])
        io = (f.get("crt") or "").endswith("io_status>") and "pair" not in f["crt"]

        def cl(ev, seq):
            if ev.fn.endswith("::unhandled_exception") or awaited_throw(ev) or ev.k == "throw":
                return ("exc",)
            if ev.k == "corocall" and ev.q in inner:
                return ("pass", ev.a[-3], ev.a[-2], ev.a[-1], ev.a[2:-3])
            if ev.k == "call" and short(ev.q) == "await_resume" and "pass" in names(seq) and ev.r is not None:
                return ("result", ev.r)
            if ev.k == "br" and ev.x and ev.x[0][0] == "eq" and ev.x[0][2] == ZERO and contains(ev.x[0][1], buf):
                v = ev.x[0][1]
                return ("$size", ev.x[1] if v[0] != "r" or short(v[1]) not in ("empty",) else not ev.x[1])
            if ev.k == "call" and ev.q.endswith("::emplace") and ev.fn.endswith("::return_value"):
                x = ev.a[-1]
                if ev.a[-1][0] == "r":
                    return ("return", x, None, None)
                return ("return", x, status_of(ev, x), span_of(ev, x, ("std::pair::second",)), content(ev, x))

        def final(seq, ev):
            if ev.q != "coroend" or "exc" in names(seq):
                return
            p = [x for x in seq if x[0] == "pass"]
            r = [x for x in seq if x[0] == "return"]
            if len(r) != 1:
                yield "nothing is returned"
                return
            r = r[0]
            if not p:
                if [x[1] for x in seq if x[0] == "$size"][-1:] != [True]:
                    yield "an operation on a buffer that is not empty returns without a transfer"
                if r[2] != OK or r[3] is not None and r[3][1] not in (ZERO, None):
                    yield "an operation on an empty buffer does not succeed without data"
                return
            if len(p) != 1:
                yield "the transfer is made more than once"
                return
            _, ptr, n, t, rest = p[0]
            if t != tmo:
                yield "the caller's timeout is not passed on"
            if "address" in f["pn"] and ("arg", "address") not in rest:
                yield "the caller's address is not passed on"
            if not contains(ptr, buf) or ptr[0] == "addr" and any(isinstance(k, tuple) and k[0] == "idx" and k[1] != ZERO for k in ptr[2]) or ptr[0] == "op":
                yield "the transfer does not start at the caller's buffer"
            while n[0] == "op" and n[1] == "mul" and n[3] == ("c", 1):
                n = n[2]
            while n[0] == "op" and n[1] in ("sdiv", "udiv", "ashr", "lshr") and n[3] in (("c", 1), ZERO):
                n = n[2]
            if not contains(n, buf) or n[0] not in ("r", "ld") and not (n[0] == "op" and n[1] == "sub" and n[2][0] == "ld" and n[3][0] == "ld"):
                yield "the transfer does not cover the caller's buffer"
            res = [x[1] for x in seq if x[0] == "result"]
            if not res:
                yield "the outcome of the transfer is not awaited"
                return
            o = res[-1]
            if r[1] == o:
                return
            if io:
                if not (r[2] is not None and fall(r[2], o) or len(r) > 4 and r[4] is not None and fall(r[4], o)):
                    yield "the status of the transfer is not returned"
                return
            g = ("std::pair::second",)
            if r[2] is None or not fall(r[2], o) and not (r[2][0] == "ld" and fall(r[2], o)):
                yield "the status of the transfer is not returned"
            elif r[3] is None or plain(r[3]) != (("ld", ("addr", o, g + PTR)), ("ld", ("addr", o, g + LEN))):
                yield "the span of the transfer is not returned"
        ctx.paths(f, cl, final, "wrap", cap=2, opaque=OPQ | TASKS | inner, throws=None)


CONNECT = NET + "connect_status"


@rule("C19.connect", "C19 C20 C21 C25", "a connection is reported only when it was established, and every other outcome as what it is")
def r_connect(ctx):
    E = ctx.E
    WR = enum(ctx, "coro::poll_op", "write")
    SW, ST = enum(ctx, "coro::poll_status", "write"), enum(ctx, "coro::poll_status", "timeout")
    subj = [f for f in ctx.P.fns.values() if f.get("coro") and f["q"].startswith(NET) and "connect" in set(direct(f))]
    if not subj:
        raise AnalysisError("nothing connects")
    for f in subj:
        ctx.ob(f.get("dem", f["q"]))
        enum_ = (f.get("crt") or "")[len("coro::task<"):-1].strip()
        C, T, X = (enum(ctx, enum_ if enum_ in ctx.P.enums else CONNECT, n) for n in ("connected", "timeout", "error"))
        shake = {x["q"] for x in ctx.P.fns.values() if x.get("coro") and x.get("cls") == f["cls"] and x["m"] in set(direct(f)) and x["m"] != f["m"]}
        tmo = ("arg", f["pn"][-1])
        mine = lambda v: v is not None and root_of(v[1] if v[0] == "ld" else v) == ("arg", "this")

        def cl(ev, seq):
            if ev.fn.endswith("::unhandled_exception") or awaited_throw(ev) or ev.k == "throw":
                return ("exc",)
            n = names(seq)
            if ev.k == "br" and ev.x and ev.x[0][0] == "eq" and "connect" not in n:
                p = ev.x[0]
                if p[2] == ZERO and p[1][0] == "ld" and fields(p[1][1])[-1:] == ("$has",) and root_of(p[1][1]) == ("arg", "this"):
                    return ("$known", not ev.x[1])
            if ev.k == "call" and ev.q == "connect":
                return ("connect", ev.r, ev.a)
            if ev.k == "call" and ev.q == "__errno_location":
                return ("errno", ev.r)
            if ev.k == "corocall" and ev.q == S + "::poll":
                return ("poll", ev.a[2], ev.a[3], ev.a[4])
            if ev.k == "corocall" and ev.q in shake:
                return ("shake", ev.a[-1])
            if ev.k == "load" and "shake" in n and "shaken" not in n and ev.r and ev.r[0] == "ld" and ev.r[1][1][0] == "r" and short(ev.r[1][1][1]) == "await_resume":
                return ("shaken", ev.r)
            if ev.k == "br" and ev.x and "connect" not in n and isnull(*ev.x) and mine(isnull(*ev.x)[0]):
                return ("$absent", isnull(*ev.x)[1])
            if ev.k == "load" and "poll" in n and "outcome" not in n and ev.r and ev.r[0] == "ld" and ev.r[1][1][0] == "r" and short(ev.r[1][1][1]) == "await_resume":
                return ("outcome", ev.r)
            if ev.k == "call" and ev.q == "getsockopt":
                return ("ask", ev.r, ev.a)
            if ev.k == "store" and root_of(ev.a[0]) == ("arg", "this") and "connect" in n:
                return ("keep", ev.a[0][2], ev.a[1])
            if ev.k in ("copy",) and "connect" in n and root_of(ev.a[0]) == ("arg", "this"):
                v = [w for k, w in (ev.mem or {}).items() if k[0] == "addr" and k[1] == loc_of(ev.a[1])[1] and w[0] == "c" and k[2][-1:] == ("$in",)]
                return ("kept", loc_of(ev.a[0])[2], v[0] if v else None)
            if ev.k == "call" and ev.q.endswith("::emplace") and ev.fn.endswith("::return_value"):
                m = ev.mem or {}
                kept = [w for k, w in m.items() if k[0] == "addr" and k[1] == ("arg", "this") and k[2][-1:] == ("$in",)]
                return ("return", ev.a[-1], content(ev, ev.a[-1]), kept[0] if kept else None)
            if ev.k == "br" and ev.x and "connect" in n:
                p = ev.x[0]
                c = [x for x in seq if x[0] == "connect"][-1][1]
                if p[0] == "eq" and p[1] == c and p[2] == ZERO:
                    return ("$c0", ev.x[1])
                if p[0] == "slt" and p[1] == c and p[2] == ZERO and ev.x[1]:
                    return ("$c0", False)
                e = [x[1] for x in seq if x[0] == "errno"]
                if p[0] == "eq" and p[1][0] == "ld" and p[1][1][1] in e and p[2][0] == "c":
                    return ("$errno", p[2][1], ev.x[1])
                if "ask" in n:
                    a = [x for x in seq if x[0] == "ask"][-1]
                    if p[0] == "slt" and p[1] == a[1] and p[2] == ZERO or p[0] == "eq" and p[1] == a[1] and p[2] == MINUS:
                        return ("$asked", not ev.x[1])
                    if p[0] == "eq" and p[1] == a[1] and p[2] == ZERO:
                        return ("$asked", ev.x[1])
                    if p[0] == "eq" and p[2] == ZERO and p[1][0] == "ld" and loc_of(p[1][1]) == loc_of(a[2][3]):
                        return ("$so", ev.x[1])

        def final(seq, ev):
            n = names(seq)
            if ev.q != "coroend" or "exc" in n:
                return
            facts = ev.facts or {}
            r = [x for x in seq if x[0] == "return"]
            if len(r) != 1:
                yield "nothing is returned"
                return
            r = r[0]
            known = [x[1] for x in seq if x[0] == "$known"]
            con = [x for x in seq if x[0] == "connect"]
            if known[-1:] == [True]:
                if con:
                    yield "a client that was connected before connects again"
                if root_of(r[1]) != ("arg", "this") and not (r[2] is not None and r[2][0] == "ld" and root_of(r[2][1]) == ("arg", "this")):
                    yield "the outcome of an earlier connect is not returned"
                return
            if not con and shake and [x[1] for x in seq if x[0] == "$absent"][-1:] == [True]:
                if r[2] is None or r[2][0] != "c" or r[2] in (C, T):
                    yield "a status of another origin is returned"
                return
            if len(con) != 1:
                yield "not exactly one connection is made"
                return
            a = con[0][2]
            if not (a[0][0] == "ld" and fields(a[0][1])[-1:] == (NET + "socket::m_fd",) and mine(a[0])):
                yield "the connection is not made on this client's socket"
            def last(k):
                v = [x[1:] for x in seq if x[0] == k]
                return v[-1][-1] if v else None
            c0 = last("$c0")
            err = {x[1]: x[2] for x in seq if x[0] == "$errno"}
            polls = [x for x in seq if x[0] == "poll"]
            progress = any(v for k, v in err.items() if k in (115, 11))
            st = r[2]
            hs, done = [x[1] for x in seq if x[0] == "shake"], [x[1] for x in seq if x[0] == "shaken"]
            if st not in (C, T, X) and not (st in done):
                yield "a status of another origin is returned"
                return
            if polls:
                p = polls[-1]
                if len(polls) > 1 or p[2] != WR or p[3] != tmo or not mine(p[1]):
                    yield "the connection in progress is not awaited on this socket for writing with the caller's timeout"
                if c0 or not progress:
                    yield "a connection that is not in progress is awaited"
            elif progress:
                yield "a connection in progress is not awaited"
            if c0 is not True and 115 not in err and not progress:
                if not any(k == 115 for k in err) and c0 is not None and last("$errno") is None and con and eq_fact(E, facts, con[0][1], MINUS) is not False:
                    yield "a connection in progress is not told apart from a failure"
            o = [x[1] for x in seq if x[0] == "outcome"]
            ready = bool(o) and eq_fact(E, facts, o[-1], SW) is True
            late = bool(o) and eq_fact(E, facts, o[-1], ST) is True
            up = c0 is True or ready and last("$asked") is True and last("$so") is True
            ask = [x for x in seq if x[0] == "ask"]
            if ask and (ask[-1][2][1] != ("c", 1) or ask[-1][2][2] != ("c", 4) or not mine(ask[-1][2][0])):
                yield "the outcome of the connection is not what is asked for"
            if shake:
                if up and hs != [tmo]:
                    yield "an established connection does not start the session"
                if hs and not up:
                    yield "a session is started on a connection that was not established"
                if up and st not in done:
                    yield "the outcome of the session is not returned"
                if st == C:
                    yield "a connection is reported although no session was established"
                if done and st in done and r[3] == st:
                    return
                if up:
                    if r[3] != st:
                        yield "the outcome of the connection is not kept for the next call"
                    return
            if st == C and not up:
                yield "a connection is reported although it was not established"
            if st != C and up:
                yield "an established connection is reported as failed"
            if st == T and not late:
                yield "a timeout is reported although none happened"
            if late and st != T:
                yield "a timeout is not reported as such"
            if r[3] != st:
                yield "the outcome of the connection is not kept for the next call"
        ctx.paths(f, cl, final, "connect", cap=4, opaque=OPQ | TASKS | shake, throws=None)

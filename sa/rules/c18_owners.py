"""C18: every OS resource is owned once and released once.

A symbolic account of every resource a function touches: what its owning members held on entry, what it acquired, what it released,
what its owning members hold on exit. Every resource must be accounted for exactly once on every path."""
from engine import SCALARS
from .base import *
from .comp import *

SOCK, PIPE, EPOLL, TIMERH, CTX = "coro::net::socket", "coro::detail::pipe_t", "coro::detail::io_notifier_epoll", "coro::detail::timer_handle", "coro::net::tls::context"
RES = "coro::net::dns::resolver"
TLSC = "coro::net::tls::client"
ACQFD = {"dup", "dup2", "dup3", "socket", "accept", "accept4", "timerfd_create", "epoll_create1", "epoll_create", "eventfd", "open"}
MINUS = ("c", -1)


class Kind:
    """one kind of resource: acquiring / releasing calls, empty value, suffixes of the member paths that own one"""

    def __init__(self, what, acquire, release, null, slots, into=None):
        self.what, self.acquire, self.release, self.null, self.slots, self.into = what, acquire, release, null, slots, into or {}

    def slot(self, a):
        return isinstance(a, tuple) and a[0] == "addr" and any(a[2][-len(s):] == s for s in self.slots)


def fdkind(P):
    idx = lambda i: (PIPE + "::m_fds", "std::array::_M_elems", ("idx", ("c", i)))
    return Kind("descriptor", ACQFD, {"close"}, MINUS, ((SOCK + "::m_fd",), (EPOLL + "::m_fd",), (TIMERH + "::m_fd",), idx(0), idx(1)),
                {"pipe": (idx(0), idx(1)), "pipe2": (idx(0), idx(1))})


CTXK = Kind("TLS context", {"SSL_CTX_new"}, {"SSL_CTX_free"}, ZERO, ((CTX + "::m_ssl_ctx",),))
ARESK = Kind("DNS channel", set(), {"ares_destroy"}, ZERO, ((RES + "::m_ares_channel",),), {"ares_init_options": ((),)})


class Account(Monitor):
    # cells: address -> value now; inits: address -> value on entry; rel: released values; acq: (value, call, argument, failure);
    # given: values handed over as part of an object; alias: later loads of the same content; known: branch facts
    init = (frozenset(), frozenset(), (), frozenset(), frozenset(), frozenset(), frozenset())

    def __init__(self, ctx, kind, f, sm, alias):
        self.ctx, self.K, self.f, self.sm, self.alias = ctx, kind, f, sm, alias
        self.other = addr(("arg", (f.get("pn") or ["p0"])[0] or "p0"), ())

    def slots_below(self, a):
        """slot addresses a whole-object access of `a` covers, among those seen so far"""
        return lambda c: c[0] == "addr" and a[0] == "addr" and c[1] == a[1] and len(c[2]) >= len(a[2]) and c[2][:len(a[2])] == a[2]

    def canon(self, al, v):
        for _ in range(4):
            n = next((y for x, y in al if x == v), None)
            if n is None:
                return v
            v = n
        return v

    def step(self, st, ev):
        cells, inits, rel, acq, given, al, known = st
        K = self.K
        if ev.k == "br" and ev.x:
            p = ev.x[0]
            vals = {v for _, v in cells} | {v for _, v in inits} | {a[0] for a in acq} | {a[3] for a in acq} | {x for x, _ in al}
            if any(y in vals for y in p[1:]) or ("arg", "this") in p:
                known = known | {ev.x}
        if ev.k == "load" and K.slot(ev.a[0]):
            cur = dict(cells).get(ev.a[0])
            if cur is None:
                cells, inits = cells | {(ev.a[0], ev.r)}, inits | {(ev.a[0], ev.r)}
            elif self.canon(al, ev.r) != self.canon(al, cur):
                al = al | {(ev.r, cur)}
        elif ev.k in ("load", "copy") and isinstance(ev.a[-1 if ev.k == "copy" else 0], tuple):
            src = ev.a[-1] if ev.k == "copy" else ev.a[0]
            rv = ev.r if ev.k == "load" else None
            src = loc_of(src)
            for s in K.slots:        # a whole object that contains slots
                for n in range(len(s)):
                    full = s
                    if src is not None and src[0] == "addr" and n > 0 and src[2][-n:] == full[:n]:
                        a = ("addr", src[1], src[2] + full[n:])
                        cur = dict(cells).get(a)
                        if cur is None:
                            v = (ev.mem or {}).get(a) or ("part", ev.r if rv is not None else src, full[n:])
                            cells, inits = cells | {(a, v)}, inits | {(a, v)}
                            cur = v
                        if rv is not None and rv[0] == "ld":
                            al = al | {(("part", rv, full[n:]), cur)} if ("part", rv, full[n:]) != cur else al
                        if ev.k == "copy":
                            d = loc_of(ev.a[0])
                            if d[2][-n:] == full[:n]:
                                al = al | {(("copied", d, full[n:]), cur)}
        if ev.k == "store":
            a, v = ev.a[0], ev.a[1]
            if K.slot(a):
                d = dict(cells)
                if a not in d and self.root(a) != "fresh":
                    inits = inits | {(a, ("never-read", a))}
                d[a] = v
                cells = frozenset(d.items())
            else:
                for s in K.slots:
                    for n in range(1, len(s)):
                        if a[0] == "addr" and a[2][-n:] == s[:n]:
                            full = ("addr", a[1], a[2] + s[n:])
                            d = dict(cells)
                            if full not in d and self.root(full) != "fresh":
                                inits = inits | {(full, ("never-read", full))}
                            nv = self.part(ev, v, s[n:], al, a)
                            d[full] = nv
                            cells = frozenset(d.items())
        if ev.k == "call":
            if ev.q in K.acquire and ev.r is not None:
                acq = acq | {(ev.r, ev.q, ev.a[0] if ev.a else None, None)}
            elif ev.q in K.into and ev.r is not None:
                l = loc_of(ev.a[0])
                for i, s in enumerate(K.into[ev.q]):
                    n = len(s)
                    base = l
                    for k in range(n, 0, -1):
                        if l[2][-k:] == s[:k]:
                            base = ("addr", l[1], l[2][:-k])
                            break
                    a = ("addr", base[1], base[2] + s)
                    v = ("made", ev.r, i)
                    d = dict(cells)
                    if a not in d and self.root(a) != "fresh":
                        inits = inits | {(a, ("never-read", a))}
                    d[a] = v
                    cells = frozenset(d.items())
                    acq = acq | {(v, ev.q, None, ev.r)}
            elif ev.q in K.release and ev.a:
                v = self.canon(al, ev.a[0])
                if sum(1 for x in rel if x == v) < 2:
                    rel = rel + (v,)
                if not self.owned(v, cells, inits, acq, given) and self.isnull(v, ev, known, al) is not True:
                    raise Violation("%s closes a %s that nothing in the library owns" % (short(ev.fn), K.what), ev)
            else:
                for x in ev.a:
                    l = loc_of(x) if isinstance(x, tuple) and x[0] in ("addr", "alloca") else None
                    if l is None or root_of(l) == ("arg", "this"):
                        continue
                    hit = [c for c in cells if self.slots_below(l)(c[0])]
                    for c in hit:      # the object goes to code the engine does not follow, which takes over what it owns
                        cells = cells - {c}
                        given = given | {self.canon(al, c[1])}
        if ev.k == "exit" and ev.q in ("ret", "unwind", "coroend"):
            for m in self.final(ev, cells, inits, rel, acq, given, al, known):
                raise Violation(m, ev)
        return (cells, inits, rel, acq, given, al, known)

    def root(self, a):
        r = root_of(a)
        if r is None or r[0] == "alloca" or r == ("arg", "$ret"):
            return "fresh"
        if r == ("arg", "this") and self.sm in ("ctor", "movector", "copyctor"):
            return "fresh"
        return r

    def part(self, ev, v, rest, al, dst):
        m = ev.mem or {}
        al2 = dict(al)
        if ("copied", dst, rest) in al2:
            return al2[("copied", dst, rest)]
        if isinstance(v, tuple) and v[0] == "ld":
            p = ("part", v, rest)
            if p in al2:
                return p
            src = v[1]
            w = m.get(("addr", src[1], src[2] + rest)) if src[0] == "addr" else None
            if w is not None:
                return w
        w = m.get(("addr", dst[1], dst[2] + rest))
        return w if w is not None else ("part", v, rest)

    def owned(self, v, cells, inits, acq, given):
        return any(x == v for _, x in cells) or any(x == v for _, x in inits) or any(a[0] == v for a in acq)

    def isnull(self, v, ev, known, al):
        e = with_facts(ev, known)
        K = self.K
        for x in {v} | {a for a, c in al if c == v}:
            if x == K.null:
                return True
            if x[0] == "part":
                return None
            r = eq_fact(self.ctx.E, e.facts, x, K.null)
            if r is None and K.null == MINUS and truth(self.ctx.E, ("op", "slt", x, ZERO), e.facts) is True:
                r = True
            if r is not None:
                return r
        return None

    def failed(self, a, ev, known):
        """was nothing acquired after all"""
        e = with_facts(ev, known)
        if a[3] is None:
            return self.isnull(a[0], ev, known, ()) is True
        return eq_fact(self.ctx.E, e.facts, a[3], ZERO) is False

    def final(self, ev, cells, inits, rel, acq, given, al, known):
        K, w, sm = self.K, self.K.what, self.sm
        cells = {a: self.canon(al, v) for a, v in cells}
        inits = {a: self.canon(al, v) for a, v in inits}
        rel = [self.canon(al, v) for v in rel]
        T = ("arg", "this")
        gone = lambda a: root_of(a) == T and (sm == "dtor" or ev.q == "unwind" and sm in ("ctor", "movector", "copyctor"))
        live = {}
        for a, v in cells.items():
            if gone(a):
                continue
            if root_of(a) is not None and root_of(a)[0] == "alloca" and self.canon(al, v) in rel:
                continue            # a local object that no longer exists
            live[v] = live.get(v, 0) + 1
        things = [(v, "held on entry") for a, v in inits.items()] + [(a[0], "from %s" % a[1]) for a in acq if not self.failed(a, ev, known)]
        for v, how in sorted(set(things), key=repr):
            if self.isnull(v, ev, known, al) is True:
                continue
            if v[0] == "never-read":
                yield "the %s a member may hold is overwritten without being released" % w
                continue
            n, r = live.get(v, 0) + (1 if v in given else 0), rel.count(v)
            if r > 1:
                yield "a %s (%s) is released twice" % (w, how)
            elif r and n:
                yield "a released %s (%s) is still referred to by its owner" % (w, how)
            elif n > 1:
                yield "a %s (%s) ends up with two owners" % (w, how)
            elif not r and not n and (sm != "dtor" or how != "held on entry" or True):
                yield "a %s (%s) is neither owned nor released at the end" % (w, how)
        # what the operation is for
        if ev.q == "unwind":
            return
        mine = {a: v for a, v in cells.items() if root_of(a) == T}
        if sm == "dtor" and not rel and not inits:
            yield "the destructor never looks at the %s it owns" % w
        if self.alias:
            for a, v in inits.items():
                if cells.get(a) != v and self.isnull(v, ev, known, al) is not True:
                    yield "self-assignment loses the owned %s" % w
            return
        if sm in ("movector", "moveassign", "copyctor", "copyassign"):
            if sm.endswith("assign") and eq_fact(self.ctx.E, with_facts(ev, known).facts, T, self.other[1]) is True:
                return
            src = {a: v for a, v in inits.items() if root_of(a) == self.other[1]}
            if not src or sm.startswith("copy") and any(("addr", self.other[1], a[2]) not in src for a in mine):
                yield "the %s of the source is not taken over" % w
            for a, v in src.items():
                t = ("addr", T, a[2])
                if self.isnull(v, ev, known, al) is True:
                    continue
                if sm.startswith("move"):
                    if cells.get(t) != v:
                        yield "moving does not take over the source's %s" % w
                else:
                    q = [x for x in acq if x[0] == cells.get(t)]
                    if not q or self.canon(al, q[0][2]) != v:
                        yield "copying does not duplicate the source's %s" % w
        elif short(self.f["q"]) == "close":
            if not inits and not mine:
                yield "closing does not look at the %s" % w
            for a, v in mine.items():
                if self.isnull(v, ev, known, al) is not True:
                    yield "closing leaves the %s in place" % w


def account(ctx, kind, f, **kw):
    sm = f.get("sm")
    if f["q"].endswith("::$dtor"):
        sm = "dtor"
    for alias in ((False, True) if sm in ("moveassign", "copyassign") else (False,)):
        ctx.ob("%s accounts for every %s%s" % (f.get("dem", f["q"]), kind.what, " (self-assignment)" if alias else ""))
        k2 = dict(kw)
        if alias:
            k2["arg_alias"] = {(f.get("pn") or ["p0"])[0] or "p0": "this"}
        ctx.monitor(f, Account(ctx, kind, f, sm, alias), **k2)


def calls_of(f):
    for b in f["blocks"]:
        for i in b:
            ff = i.get("f")
            if isinstance(ff, dict) and "fn" in ff:
                yield ff["fn"]


def subjects(ctx, kind, classes, least):
    """special members and `close` of the owning classes, and every function that itself acquires or releases"""
    names_ = set(kind.acquire) | set(kind.release) | set(kind.into)
    out = {}
    for f in ctx.P.fns.values():
        c = (f.get("cls") or "").split("<")[0]
        if c in classes and (f.get("sm") in ("ctor", "copyctor", "movector", "copyassign", "moveassign", "dtor") or f["q"].endswith("::$dtor") or short(f["q"]) == "close"):
            out[f["m"]] = f
        elif f["q"].startswith("coro::") and names_ & set(calls_of(f)):
            out[f["m"]] = f
    if len(out) < least:
        raise AnalysisError("only %d functions handle a %s" % (len(out), kind.what))
    return sorted(out.values(), key=lambda f: f["m"])


def may_throw(q, dem):
    """system calls and C libraries do not throw C++ exceptions"""
    return "::" in q or q.startswith("operator")


HOLDERS = {"coro::net::tcp::client", "coro::net::tcp::server", "coro::net::udp::peer", "coro::net::tls::client", "coro::net::tls::server"}


@rule("C18.fd", "C18", "every descriptor is accounted for exactly once: held, handed over or closed, on every path of everything that owns, opens or closes one")
def descriptors(ctx):
    K = fdkind(ctx.P)
    for f in subjects(ctx, K, {SOCK, PIPE, EPOLL, TIMERH}, 18):
        account(ctx, K, f, throws=may_throw)
    for f in ctx.P.fns.values():
        if (f.get("cls") or "") in HOLDERS and f.get("sm") in ("movector", "moveassign", "copyctor", "copyassign"):
            account(ctx, K, f, throws=may_throw)
    for c, w in ((EPOLL, "the epoll instance"), (TIMERH, "the timer")):
        no_copy(ctx, c, w)


@rule("C18.tls", "C18 C21", "TLS contexts and sessions are freed exactly once, by the object that made them")
def tls_objects(ctx):
    if not ctx.has(CTX + "::$dtor"):
        return
    for f in subjects(ctx, CTXK, {CTX}, 2):
        account(ctx, CTXK, f, throws=may_throw)
    no_copy(ctx, CTX, "the TLS context")
    # a session lives in a unique_ptr whose deleter frees it
    for f in ctx.P.fns.values():
        if not f["q"].startswith("coro::"):
            continue
        cs = set(calls_of(f))
        if "SSL_free" in cs:
            ctx.ob("%s frees the session it is given" % f["q"])

            def cl(ev, seq):
                if ev.k == "call" and ev.q == "SSL_free":
                    return ("free", ev.a[0])

            def fin(seq, ev):
                if ev.q == "ret" and [x[1] for x in seq] != [("arg", f["pn"][0])]:
                    yield "the deleter of a session does not free exactly the session it is given"
            if not f["q"].startswith(TLSC + "::tls_deleter"):
                ctx.violate(f, f.get("loc"), "a session is freed by something other than its owner")
            ctx.paths(f, cl, fin, "frees the session once")
        if "SSL_new" in cs:
            ctx.ob("%s hands the session to an owner" % f["q"])

            def cl2(ev, seq):
                if ev.k == "call" and ev.q == "SSL_new":
                    return ("new", ev.r)
                if seq and ev.k in ("call", "store") and seq[-1][0] == "new" and seq[-1][1] in ev.a and ev.q != "SSL_new":
                    if "unique_ptr" in (ev.q or "") or ev.k == "store" and "$ptr" in repr(ev.a[0]):
                        return ("owned",)
                    return ("used", ev.q or "store")

            def fin2(seq, ev):
                for a, b in zip(seq, seq[1:] + (None,)):
                    if a[0] == "new" and (b is None or b[0] != "owned"):
                        yield "a new session is not handed to its owner at once"
            ctx.paths(f, cl2, fin2, "session owned", cap=2)
        if any(short(c) == "release" and "unique_ptr" in c for c in calls_of(f)) and f["q"].startswith("coro::net::tls"):
            ctx.violate(f, f.get("loc"), "a session is taken out of its owner")

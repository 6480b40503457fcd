"""C20: status mappings are total, keep causes apart, and no failure maps to success."""
from .base import *
from .comp import *
from .c17_poll import evalint
from .c19_net import NET, NATIVE, POLLED, KIND, TYPE, plain
from .c22_dns import enum

CODE = NET + "io_status::native_code"
OTHER = 4242          # a value no documented cause has
ERRNO = {0: "ok", 104: "connection_reset", 111: "connection_refused", 11: "would_block_or_try_again", 90: "message_too_big", -1: "closed"}
SSL = {"ok": 0, "error": 1, "want_read": 2, "want_write": 3, "want_x509_lookup": 4, "error_syscall": 5, "closed": 6, "want_connect": 7, "want_accept": 8}


def at(v, is_arg, c):
    """v with the value under examination replaced"""
    if is_arg(v):
        return ("c", c)
    if isinstance(v, tuple) and v and v[0] in ("op",):
        return tuple(at(x, is_arg, c) if isinstance(x, tuple) else x for x in v)
    return v


def consistent(facts, is_arg, c):
    """can this path be taken when the value under examination is c"""
    for k, b in (facts or {}).items():
        if len(k) != 3 or k[0] not in ("eq", "slt", "sle", "ult", "ule"):
            continue
        x, y = evalint(at(k[1], is_arg, c), {}), evalint(at(k[2], is_arg, c), {})
        if x is None or y is None:
            continue
        if k[0][0] == "u":
            x, y = x & 0xFFFFFFFF, y & 0xFFFFFFFF
        v = x == y if k[0] == "eq" else x < y if k[0] in ("slt", "ult") else x <= y
        if v != b:
            return False
    return True


def exits(ctx, f, **kw):
    """every way out of a function: (exit event, last text constructed, calls)"""
    out = []

    def cl(ev, seq):
        if ev.k == "br" and ev.x:
            return ("$br",) + tuple(ev.x)
        if ev.k == "call" and short(ev.q) == "$ctor" and "basic_string" in ev.q:
            t = next((a[1] for a in ev.a[1:] if a[0] == "s"), None)
            return ("text", t)
        if ev.k == "call":
            return ("call", ev.q, ev.a, ev.r)

    def final(seq, ev):
        if ev.q == "ret":
            ev = with_facts(ev, [x[1:] for x in seq if x[0] == "$br"])
            out.append((ev, [x[1] for x in seq if x[0] == "text"][-1:], [x[1:] for x in seq if x[0] == "call"]))
        return ()
    ctx.paths(f, cl, final, "map", cap=24, **kw)
    return out


def arg_of(f):
    a = ("arg", (f.get("pn") or ["p0"])[0] or "p0")
    return lambda v: v == a or isinstance(v, tuple) and v[:1] == ("ld",) and plain(v) == ("ld", ("addr", a, ()))


def member(name):
    return lambda v: isinstance(v, tuple) and v[:1] == ("ld",) and v[1] == ("addr", ("arg", "this"), (name,))


def literal(r):
    return r[1] if isinstance(r, tuple) and r and r[0] == "s" else None


def parts_of(v):
    """(type, native code) of a status returned in a register"""
    if v is None:
        return None, None
    if v[0] == "op" and v[1] == "pack":
        return v[2], v[3]
    if v[0] == "c":
        return v, ZERO
    return v, None


@rule("C20.native", "C20 C19", "every system error becomes the status documented for it, unknown ones an error that keeps the code")
def r_native(ctx):
    kinds = dict(ctx.P.enums[KIND])
    for f in ctx.fns(NATIVE):
        ctx.ob(f.get("dem", f["q"]))
        isa = arg_of(f)
        arg = ("arg", f["pn"][0])
        es = exits(ctx, f)
        for c, want in sorted(ERRNO.items()):
            got = {parts_of(e.r)[0] for e, _, _ in es if consistent(e.facts, isa, c)}
            if not got:
                ctx.violate(f, f["loc"], "error code %d has no status" % c)
            for g in got:
                if g != ("c", kinds[want]):
                    ctx.violate(f, f["loc"], "error code %d does not become the status %s" % (c, want))
        bad = {kinds[k] for k in ("ok", "closed", "timeout", "would_block_or_try_again", "cancelled")}
        named = set()
        for e, _, _ in es:
            for k in e.facts or {}:
                if k[0] == "eq":
                    named |= {x[1] for x, y in ((k[1], k[2]), (k[2], k[1])) if x[0] == "c" and (isa(y) or y == arg)}
        for c in sorted({OTHER, -OTHER, 1, 9, 32, 103, 105, 110, 115} | named):
            if c in ERRNO or c - (1 << 32) in ERRNO:
                continue
            for e, _, _ in es:
                if not consistent(e.facts, isa, c):
                    continue
                t, n = parts_of(e.r)
                if t is None or t[0] != "c":
                    raise AnalysisError("the status of error code %d is not decided" % c)
                if t[1] in bad and not (c == 110 and t[1] == kinds["timeout"]):
                    ctx.violate(f, f["loc"], "an unknown error code becomes the status %s" % next(k for k, v in kinds.items() if v == t[1]))
                if t == ("c", kinds["native"]) and n is not None and n != arg and not (n[0] == "c" and n[1] == c):
                    ctx.violate(f, f["loc"], "an unknown error code is not kept")


@rule("C20.poll", "C20 C19", "every poll outcome becomes the status of its own kind")
def r_poll(ctx):
    kinds = dict(ctx.P.enums[KIND])
    polls = dict(ctx.P.enums["coro::poll_status"])
    for f in ctx.fns(POLLED):
        ctx.ob(f.get("dem", f["q"]))
        isa = arg_of(f)
        es = exits(ctx, f)
        got = {}
        for n, c in list(polls.items()) + [("another", OTHER)]:
            ts = {parts_of(e.r)[0] for e, _, _ in es if consistent(e.facts, isa, c)}
            if len(ts) != 1 or next(iter(ts)) is None or next(iter(ts))[0] != "c":
                ctx.violate(f, f["loc"], "the poll outcome %s has no status of its own" % n)
                continue
            got[n] = next(iter(ts))[1]
        for n, v in got.items():
            if n in ("read", "write"):
                if v != kinds["ok"]:
                    ctx.violate(f, f["loc"], "readiness becomes a failure")
            elif n in ("timeout", "closed", "cancelled"):
                if v != kinds[n]:
                    ctx.violate(f, f["loc"], "the poll outcome %s does not become the status %s" % (n, n))
            elif v in [kinds[k] for k in ("ok", "closed", "timeout", "would_block_or_try_again", "cancelled")]:
                ctx.violate(f, f["loc"], "the poll outcome %s is taken for something else" % n)


PRED = {"is_ok": "ok", "operator bool": "ok", "$conv": "ok", "is_timeout": "timeout", "is_closed": "closed", "would_block": "would_block_or_try_again",
        "try_again": "would_block_or_try_again", "is_native": "native"}


@rule("C20.tests", "C20", "the tests on a status hold for exactly the status they name")
def r_tests(ctx):
    kinds = dict(ctx.P.enums[KIND])
    n = 0
    for f in ctx.P.fns.values():
        if f.get("cls") != NET + "io_status" or short(f["q"]) not in PRED:
            continue
        want = PRED[short(f["q"])]
        n += 1
        ctx.ob(f.get("dem", f["q"]))
        isa = member(TYPE)
        es = exits(ctx, f)
        for k, c in kinds.items():
            for e, _, _ in es:
                if not consistent(e.facts, isa, c):
                    continue
                v = evalint(at(e.r, isa, c), {}) if e.r is not None else None
                if v is None and e.r is not None:
                    v = cmp_value(e.r, isa, c)
                if v is None:
                    raise AnalysisError("%s is not decided for %s" % (f["q"], k))
                if bool(v) != (k == want):
                    ctx.violate(f, f["loc"], "%s %s for the status %s" % (short(f["q"]), "holds" if v else "does not hold", k))
    if n < 5:
        raise AnalysisError("only %d tests on a status found" % n)


def cmp_value(v, isa, c):
    if isinstance(v, tuple) and v and v[0] in ("eq", "slt", "sle") and len(v) == 3:
        a, b = evalint(at(v[1], isa, c), {}), evalint(at(v[2], isa, c), {})
        if a is not None and b is not None:
            return int(a == b if v[0] == "eq" else a < b if v[0] == "slt" else a <= b)
    if isinstance(v, tuple) and v and v[0] == "op":
        a = [cmp_value(x, isa, c) if evalint(at(x, isa, c), {}) is None else evalint(at(x, isa, c), {}) for x in v[2:] if isinstance(x, tuple)]
        if all(x is not None for x in a):
            return evalint(("op", v[1]) + tuple(("c", x) for x in a), {})
    return None


@rule("C20.text", "C20", "every status has a text of its own")
def r_text(ctx):
    P = ctx.P
    n = 0
    for f in sorted(P.fns.values(), key=lambda f: f["m"]):
        if short(f["q"]) != "to_string" or len(f.get("pt") or ()) != 1:
            continue
        e = f["pt"][0].replace("const ", "").replace("&", "").strip()
        if e not in P.enums:
            continue
        n += 1
        ctx.ob(f.get("dem", f["q"]))
        isa = arg_of(f)
        es = exits(ctx, f)

        def texts(c):
            out = set()
            for ev, lit, _ in es:
                if not consistent(ev.facts, isa, c):
                    continue
                r = ev.r
                if r is not None and r[0] == "glob":
                    g = str(r[1]).split("[")[0].split("{")[0]
                    out.add(P.texts.get(g, "\0" + g))
                elif literal(r) is not None:
                    out.add(literal(r))
                elif lit:
                    out.add(lit[0])
                else:
                    raise AnalysisError("the text of a status is not decided in %s" % f["q"])
            return out
        seen = {}
        names_ = {k for k, _ in P.enums[e]}
        rest = texts(OTHER) if not any(v == OTHER for _, v in P.enums[e]) else set()
        for k, c in P.enums[e]:
            ts = texts(c)
            if len(ts) != 1:
                ctx.violate(f, f["loc"], "%s::%s has no text" % (short(e), k))
                continue
            t = next(iter(ts))
            if not t:
                ctx.violate(f, f["loc"], "%s::%s has no text" % (short(e), k))
            if t in seen and seen[t][1] != c:
                ctx.violate(f, f["loc"], "%s::%s has the text of %s" % (short(e), k, seen[t][0]))
            seen[t] = (k, c)
            if t in rest and k != "unknown":
                ctx.violate(f, f["loc"], "%s::%s has the text of an unknown status" % (short(e), k))
            norm = str(t).strip().lower().replace(" ", "_").replace("-", "_")
            if norm in names_ and norm != k and dict(P.enums[e])[norm] != c:
                ctx.violate(f, f["loc"], "%s::%s has the name of another status as its text" % (short(e), k))
    if n < 6:
        raise AnalysisError("only %d functions give statuses a text" % n)


@rule("C20.message", "C20", "the message of a status is its own text, or the system's for a system error")
def r_message(ctx):
    kinds = dict(ctx.P.enums[KIND])
    fs = [f for f in ctx.P.fns.values() if f.get("cls") == NET + "io_status" and short(f["q"]) == "message"]
    for f in fs:
        ctx.ob(f.get("dem", f["q"]))
        isa = member(TYPE)
        es = exits(ctx, f, throws=None, opaque=DEFAULT_OPAQUE | {NET + "to_string"})
        for k, c in kinds.items():
            for ev, lit, calls in es:
                if not consistent(ev.facts, isa, c):
                    continue
                own = [x for x in calls if x[0].endswith("::to_string") and x[0].startswith("coro::")]
                sysm = [x for x in calls if x[0] in ("indirect", "strerror", "strerror_r") or short(x[0]) == "message"]
                if k != "native":
                    if not own or not (isa(own[-1][1][-1]) or own[-1][1][-1] == ("c", c)):
                        ctx.violate(f, f["loc"], "the message of the status %s is not its text" % k)
                elif not any(p[0] == "eq" and b and p[2] == ZERO and member(CODE)(p[1]) for p, b in (ev.facts or {}).items()):
                    if not sysm or not any(member(CODE)(a) for a in sysm[-1][1]):
                        ctx.violate(f, f["loc"], "the message of a system error does not come from its code")


@rule("C20.tls", "C20 C21", "the statuses of TLS transfers are the TLS library's, and the library's own differ from all of them")
def r_tls(ctx):
    n = 0
    for e in ("recv_status", "send_status"):
        q = NET + "tls::" + e
        if q not in ctx.P.enums:
            continue
        n += 1
        ctx.ob(q)
        vs = dict(ctx.P.enums[q])
        where = {"q": q, "loc": ("include/coro/net/tls/%s.hpp" % e, 1)}
        for k, v in SSL.items():
            if k in vs and vs[k] != v:
                ctx.violate(where, where["loc"], "%s::%s is not the TLS library's code for it" % (e, k))
        for k, v in vs.items():
            if k not in SSL and 0 <= v <= 12:
                ctx.violate(where, where["loc"], "%s::%s has the code of a TLS library outcome" % (e, k))
        if len(set(vs.values())) != len(vs):
            ctx.violate(where, where["loc"], "two outcomes of %s are the same" % e)
    if not n:
        raise AnalysisError("the TLS statuses are gone")

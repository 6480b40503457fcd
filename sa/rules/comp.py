"""Helpers shared by the rules about coroutine composition (C08 - C13)."""
from .base import *


def targs(dem, name):
    """top-level template arguments of `name<...>` in a demangled signature"""
    k = (dem or "").find(name + "<")
    if k < 0:
        return []
    k += len(name) + 1
    out, d, cur = [], 0, ""
    for i in range(k, len(dem)):
        c = dem[i]
        if c == ">" and dem[i - 1] != "-" and d == 0:
            return out + [cur.strip()]
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        if c in "<([{":
            d += 1
        elif c in ")]}" or c == ">" and dem[i - 1] != "-":
            d -= 1
        cur += c
    return out


EXC = "exception_ptr"


def is_exc(t):
    return t.split("::")[-1] == EXC


def suspends(ctx, q, want, what, pred=None):
    """the suspension point returned by every function named q always (want) / never suspends"""
    for f in ctx.fns(q, pred):
        ctx.ob("%s: %s" % (f.get("dem") or q, what))
        crt = f.get("crt") or ""
        if crt == "std::suspend_always":
            got = True
        elif crt == "std::suspend_never":
            got = False
        else:
            c = [x for x in ctx.P.fns.values() if x["q"].endswith("::await_ready") and (x["q"] == crt.split("<")[0] + "::await_ready" or x["q"] == q + "::" + crt.split("<")[0].split("::")[-1] + "::await_ready")]
            if not c:
                ctx.violate(f, f.get("loc"), "%s: the returned %s has no await_ready" % (what, crt))
                continue
            got = set()
            for x in c:
                for es in ctx.graph(x).edges:
                    for evs, m in es:
                        for e in evs:
                            if e.k == "exit":
                                got.add(e.r)
            got = True if got == {ZERO} else False if got == {ONE} else None
        if got is not want:
            ctx.violate(f, f.get("loc"), what)


def resumes(ev):
    return ev.k == "resume"


def nulls(ctx, ev, v):
    return eq_fact(ctx.E, ev.facts, v, ZERO)


def done_letter(ev):
    """('done', handle, result)"""
    if ev.k == "done":
        return ("done", ev.a[0], ev.r)
    return None


def exc_letter(ev, store):
    """letters about a stored result: store(addr) tells whether an address is the result storage.
    ('holds', alt, r) ('get', alt, r) ('exc?', r) ('rethrow', from storage?)"""
    if ev.k == "call" and ev.a:
        n = ev.q
        if n in ("std::holds_alternative", "std::get_if") and store(ev.a[0]):
            a = targs(ev.dem, "std::" + short(n))
            alt = a[0] if a else ""
            if alt.rstrip("ul").isdigit() and len(a) > int(alt.rstrip("ul")) + 1:
                alt = a[int(alt.rstrip("ul")) + 1]
            alt = "exc" if is_exc(alt) else "value"
            l = ("holds", alt, ev.r)
            return [l, ("get", alt, ev.r)] if n == "std::get_if" else l
        if n == "std::get" and store(ev.a[0]):
            a = targs(ev.dem, "std::get")
            alt = a[0] if a else ""
            if alt.rstrip("ul").isdigit() and len(a) > int(alt.rstrip("ul")) + 1:
                alt = a[int(alt.rstrip("ul")) + 1]
            return ("get", "exc" if is_exc(alt) else "value", ev.r)
        if n.endswith("variant::index") and store(ev.a[0]):
            return ("index", ev.r)
        if n.endswith("exception_ptr::$conv") and store(ev.a[0]):
            return ("exc?", ev.r, True)
        if n.split("::")[-1] in ("operator==",) and EXC in (ev.dem or "") and any(store(a) for a in ev.a):
            return ("exc?", ev.r, False)
        if n.endswith("exception_ptr::$ctor") and len(ev.a) > 1 and ev.a[1][0] not in ("c", "any"):
            return ("copy", ev.a[0], ev.a[1])
        if n in ("std::rethrow_exception",):
            return ("rethrow", ev.a[0])
    if ev.k == "throw":
        return ("throw",)
    return None


def result_rule(ctx, q, members, what, has_value):
    """result() gives the value only when no exception is stored, rethrows a stored exception, and throws when there is neither.
    members(addr): the address is the result storage; has_value: the result is held in a variant"""
    E = ctx.E
    for f in ctx.fns(q):
        def cl(ev, seq):
            return exc_letter(ev, members)

        def final(seq, ev):
            exc = val = None
            for x in seq:
                if x[0] == "holds":
                    t = nulls(ctx, ev, x[2])
                    if t is not None:
                        if x[1] == "exc":
                            exc = not t
                        else:
                            val = not t
                if x[0] == "exc?":
                    t = nulls(ctx, ev, x[1])
                    if t is not None:
                        exc = (not t) if x[2] else t
                if x[0] == "index":
                    for k, alt in ((1, "value"), (2, "exc")):
                        t = eq_fact(E, ev.facts, x[1], ("c", k))
                        if t is not None:
                            if alt == "exc":
                                exc = t
                            else:
                                val = t
            if ev.q == "ret":
                if exc is True:
                    yield "a stored exception is not rethrown"
                elif val is None and exc is None:
                    yield "a result is given without having looked whether an exception is stored"
                elif has_value and val is not True:
                    yield "a result is given although no value may have been stored"
                elif has_value and not any(x[0] == "get" and x[1] == "value" for x in seq) and not any(x[0] == "holds" for x in seq):
                    yield "the result given is not the stored value"
            elif ev.q == "unwind":
                re = [x for x in seq if x[0] == "rethrow"]
                if re:
                    src = re[-1][1]
                    got = [x[2] for x in seq if x[0] == "get" and x[1] == "exc"]
                    ok = False
                    seen = {src}
                    for _ in range(3):
                        for x in seq:
                            if x[0] == "copy" and x[1] in seen:
                                seen.add(x[2])
                    ok = any(members(s) or s in got for s in seen)
                    if not ok:
                        yield "the exception rethrown is not the stored one"
                    elif exc is False:
                        yield "rethrows although no exception is stored"
                elif any(x[0] == "throw" for x in seq):
                    if val is True:
                        yield "the stored value is not returned"
                    elif exc is True:
                        yield "a stored exception is not rethrown"
                    elif exc is None:
                        yield "throws without having looked whether an exception is stored"
        ctx.paths(f, cl, final, what, cap=3)


def store_exception_rule(ctx, q, members, what):
    """unhandled_exception() keeps the current exception in the result storage, on every path"""
    for f in ctx.fns(q):
        def cl(ev, seq):
            if ev.k == "call" and ev.q == "std::current_exception":
                return ("cur", ev.a[0] if ev.a else ev.r)
            if ev.k == "call" and ev.q.endswith("exception_ptr::$ctor") and len(ev.a) > 1 and ev.a[1][0] not in ("c", "any"):
                return ("copy", ev.a[0], ev.a[1])
            if ev.k == "call" and ev.a and members(ev.a[0]) and len(ev.a) > 1:
                n = short(ev.q)
                if n == "emplace":
                    t = targs(ev.dem, "emplace")
                    if not t or not (is_exc(t[0]) or t[0].rstrip("ul") == "2"):
                        return ("wrong",)
                    return ("keep", ev.a[1])
                if n in ("operator=", "swap"):
                    return ("keep", ev.a[1])
            if ev.k == "call" and ev.q == "std::rethrow_exception" or ev.k == "throw":
                return ("throw",)
            return None

        def final(seq, ev):
            if ev.q == "unwind":
                if "throw" in names(seq):
                    yield "the exception is thrown on instead of being kept"
                return
            seen = {x[1] for x in seq if x[0] == "cur"}
            for _ in range(3):
                seen |= {x[1] for x in seq if x[0] == "copy" and x[2] in seen}
            keep = [x[1] for x in seq if x[0] == "keep"]
            if not keep or keep[-1] not in seen or any(x[0] == "wrong" for x in seq):
                yield "the exception that ended the body is not kept for its reader"
        ctx.paths(f, cl, final, what)


def store_value_rule(ctx, q, members, what, pred=None):
    """return_value(v) keeps v as the value alternative, on every path"""
    for f in ctx.fns(q, pred):
        p = ("arg", (f.get("pn") or ["p0"])[0] or "p0")

        def cl(ev, seq):
            if ev.k == "call" and ev.a and members(ev.a[0]) and len(ev.a) > 1 and short(ev.q) in ("emplace", "operator="):
                t = targs(ev.dem, "emplace")
                v = ev.a[1]
                if v[0] in ("alloca", "addr"):
                    w = ev.mem.get(loc_of(v))
                    if w is not None:
                        v = w
                return ("exc" if t and is_exc(t[0]) else "keep", v)
            if ev.k == "call" and len(ev.a) > 1 and short(ev.q) == "$ctor" and contains(ev.a[1], p):
                return ("from", ev.a[0])
            return None

        def final(seq, ev):
            if ev.q != "ret":
                return
            k = [x for x in seq if x[0] in ("keep", "exc")]
            if len(k) != 1 or k[0][0] != "keep":
                yield "the value returned by the body is not kept exactly once"
            else:
                fr = [x[1] for x in seq if x[0] == "from"]
                if not contains(k[0][1], p) and not any(loc_of(x) == loc_of(k[0][1]) for x in fr) and root_of(loc_of(k[0][1])) != p:
                    yield "something other than the value returned by the body is kept"
        ctx.paths(f, cl, final, what)


def no_copy(ctx, cls, what):
    for r in ctx.recs(cls):
        if not r["fields"]:
            continue
        ctx.ob("%s: %s" % (r["ty"], what))
        for k in ("copyctor", "copyassign"):
            if r["sm"].get(k) not in ("deleted", "none", None):
                ctx.violate(cls, r.get("loc"), "%s: %s can be copied" % (what, cls))


def destroys(ev):
    return [ev.a[0]] if ev.k == "destroy" else []


# ------------------------------------------------------------------------------------------------------------ case analysis over a counter

def evalc(v, env):
    """value of v with the symbols in env replaced by numbers (None: unknown)"""
    if v in env:
        return env[v]
    if v[0] == "c":
        return v[1]
    if v[0] == "op":
        a = [evalc(x, env) if isinstance(x, tuple) else None for x in v[2:]]
        o = v[1]
        if o == "select" and a[0] is not None:
            return a[1] if a[0] else a[2]
        if any(x is None for x in a):
            return None
        if o == "not":
            return int(not a[0])
        M = 1 << 64
        f = {"eq": lambda x, y: int(x == y), "ne": lambda x, y: int(x != y), "slt": lambda x, y: int(x < y), "ult": lambda x, y: int(x % M < y % M),
             "add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "and": lambda x, y: x & y, "or": lambda x, y: x | y,
             "xor": lambda x, y: x ^ y, "min": min, "max": max}.get(o)
        return f(*a) if f and len(a) == 2 else None
    return None


def possible(facts, env):
    """can the recorded branches hold with the symbols in env at these values"""
    for p, pol in (facts or {}).items():
        if any(contains(p[1], y) or contains(p[2], y) for y in env):
            t = evalc(("op",) + p, env)
            if t is not None and bool(t) != pol:
                return False
    return True


# ------------------------------------------------------------------------------------------------------------ loops over a container

def past(ev):
    """a test of a loop whose counter is not followed any further"""
    return ev.k == "br" and ev.x and ev.x[0][0] == "ult" and ev.x[0][1] == ANY


class EachMon(Monitor):
    """Every element of a container is acted on exactly once: between two tests of a loop the action happens once on the current
    element, the loop is left only when its test says so, and `finish` comes after that.  act(ev) -> element value or None;
    begin(ev) tells that an iteration over the right container starts; finish(ev): the loop must be over."""
    # (phase, acts in round, advances in round): phase None (no loop yet) / 'more' / 'end'
    init = (None, 0, 0, ())

    def __init__(self, E, act, finish, what, begin=None, n=None):
        self.E, self.act, self.finish, self.what, self.begin, self.n = E, act, finish, what, begin, n

    ITER = ("operator==", "operator!=")

    def test(self, ev):
        if ev.k != "br" or not ev.x:
            return None
        (k, a, b), pol = ev.x
        if k == "eq" and a[0] == "r" and short(a[1]) in self.ITER and b == ZERO:
            return pol if short(a[1]) == "operator==" else not pol
        if k == "eq" and any(y[0] == "r" and short(y[1]) in ("end", "cend") for y in (a, b)):
            return not pol
        if k == "ult" and b[0] == "r" and short(b[1]) in ("size", "ssize"):
            return pol
        if k == "eq" and b == ZERO and a[0] == "r" and short(a[1]) in ("size", "ssize"):
            return "end" if pol else "maybe"        # a test of a loop that counts up to the size, or one before any loop
        return None

    def step(self, st, ev):
        ph, acts, adv, els = st
        if ph == "over":
            return st
        t = self.test(ev)
        if t is not None:
            if ph == "more" and acts != 1:
                raise Violation("%s: %s" % (self.what, "an element is skipped" if acts == 0 else "an element is taken twice"), ev)
            if ph == "maybe" and acts > 1:
                raise Violation("%s: an element is taken twice" % self.what, ev)
            if ph in ("more", "maybe") and adv > 1:
                raise Violation("%s: the loop steps over elements" % self.what, ev)
            if ph in ("more", "maybe") and t is True and past(ev):
                return ("over", 0, 0, ())       # counted as far as the analysis follows a counter
            return (t if isinstance(t, str) else "more" if t else "end", 0, 0, ())
        if ev.k == "call" and short(ev.q) in ("operator++", "operator+=", "next", "advance") and "iterator" in ev.q:
            return (ph, acts, min(adv + 1, 2), els)
        e = self.act(ev)
        if e is not None:
            if ph == "end":
                raise Violation("%s: goes on after the last element" % self.what, ev)
            if self.n is not None:
                if e in els:
                    raise Violation("%s: an element is taken twice" % self.what, ev)
                els = els + (e,)
            return (ph, min(acts + 1, 99 if self.n is not None else 2), adv, els)
        if self.finish(ev):
            if self.n is not None and ph is None:
                if acts != self.n:
                    raise Violation("%s: %d of %d elements are taken" % (self.what, acts, self.n), ev)
            elif ph in ("more", "maybe"):
                raise Violation("%s: the loop is left before the last element" % self.what, ev)
            elif ph is None and acts == 0:
                raise Violation("%s: no element is taken" % self.what, ev)
            return ("over", 0, 0, ())
        return st

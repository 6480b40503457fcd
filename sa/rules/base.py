"""Rule registry and the helpers the rules are written with."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from facts import AnalysisError                                                      # noqa: E402
from engine import (Engine, Config, Monitor, Violation, Ev, run_monitor, DEFAULT_OPAQUE, ZERO, ONE, ANY, UNDEF,   # noqa: E402,F401
                    vstr, addr, loc_of, root_of, root_kind, fields, last_field, subst, contains, atoms)

RULES = []   # (name, props, title, function)


def rule(name, props, title):
    def deco(f):
        RULES.append((name, props.split(), title, f))
        return f
    return deco


class Ctx:
    """One run over one program: counts what was analysed and collects violations."""

    def __init__(self, P, tier="quick"):
        self.P = P
        self.E = Engine(P)
        self.tier = tier
        self.viol = []         # dicts
        self.rulename = ""
        self.title = ""
        self.funcs = set()
        self.nodes = 0
        self.edges = 0
        self.obl = []          # (rule, subject)
        self.oblset = set()
        self.gcache = {}

    # -- program access
    def fns(self, q, pred=None, least=1):
        """functions with qualified name q; fewer than `least` is an error of the analysis"""
        c = [f for f in self.P.byq.get(q, []) if pred is None or pred(f)]
        if len(c) < least:
            raise AnalysisError("anchor not found: %s" % q)
        return c

    def fn(self, q, pred=None):
        return self.fns(q, pred)[0]

    def has(self, q):
        return bool(self.P.byq.get(q))

    def recs(self, q, least=1):
        c = [r for r in self.P.recs.values() if r["q"] == q]
        if len(c) < least:
            raise AnalysisError("record not found: %s" % q)
        return c

    def fields(self, q):
        return {f["n"]: f for r in self.recs(q) for f in r["fields"]}

    def need_field(self, cls, name):
        if name not in self.fields(cls):
            raise AnalysisError("member not found: %s::%s" % (cls, name))

    # -- exploration
    def graph(self, f, **kw):
        opq = kw.pop("opaque", None)
        key = (f["m"], tuple(sorted(opq)) if opq is not None else None,
               tuple(sorted((k, v if isinstance(v, (int, str, bool, type(None))) else (tuple(sorted(v.items())) if isinstance(v, dict) else
                                                                                       id(v) if callable(v) else tuple(v))) for k, v in kw.items())))
        g = self.gcache.get(key)
        if g is None:
            cfg = Config(opaque=DEFAULT_OPAQUE if opq is None else opq, **kw)
            g = self.gcache[key] = (self.E.explore(f, cfg), kw)   # keeps kw alive, ids stay unique
            self.nodes += len(g[0].edges)
            self.edges += sum(len(e) for e in g[0].edges)
        self.funcs.add(f["m"])
        for es in g[0].edges:
            for evs, m in es:
                for e in evs:
                    if e.k == "enter":
                        self.funcs.add(e.q)
        return g[0]

    # -- results
    def ob(self, subject):
        k = (self.rulename, subject)
        if k not in self.oblset:
            self.oblset.add(k)
            self.obl.append(k)

    def violate(self, fn, loc, msg, trace=()):
        q = fn["q"] if isinstance(fn, dict) else fn
        k = (self.rulename, q, loc, msg)
        for v in self.viol:
            if v["k"] == k:
                return
        self.viol.append({"k": k, "rule": self.rulename, "title": self.title, "fn": q, "loc": loc, "msg": msg,
                          "trace": [repr(e) for e in trace][-60:]})

    def monitor(self, f, mon, **kw):
        """run mon over every path of f and report"""
        g = self.graph(f, **kw)
        for msg, ev, tr in run_monitor(g, mon):
            self.violate(f, ev.loc if ev is not None and ev.loc else f.get("loc"), msg, tr)
        return g

    def paths(self, f, classify, final, what, cap=2, skip_exc=False, **kw):
        """contract over the classified event sequence of every path of f.
        classify(ev, seq) -> None | letter tuple | list of letters; final(seq, exitev) -> iterable of messages"""
        self.ob("%s: %s" % (f.get("dem") or f["q"], what))
        return self.monitor(f, SeqMon(classify, final, cap, skip_exc), **kw)


def with_facts(ev, known):
    e = Ev(ev.k, ev.q, ev.a, ev.r, ev.loc, ev.fn, ev.x, ev.mem, dict(ev.facts or {}), ev.dem)
    for p, pol in known:
        e.facts.setdefault(p, pol)
    return e


def awaited_throw(ev):
    """an awaited task rethrows what its body threw (or has no result): the path belongs to that failure"""
    return ev.k == "throw" and ev.loc is not None and str(ev.loc[0]).endswith("coro/task.hpp")


class SeqMon(Monitor):
    """state: (classified letters so far, locks held, branch facts about values carried by the letters)"""
    init = ((), frozenset(), frozenset())

    def __init__(self, classify, final, cap=2, skip_exc=False):
        self.skip_exc = skip_exc
        self.classify, self.final, self.cap = classify, final, cap
        n = classify.__code__.co_argcount - len(classify.__defaults__ or ()) if hasattr(classify, "__code__") else 2
        self.three, self.four = n >= 3, n >= 4      # (ev, seq, held, known)

    def step(self, state, ev):
        st, held, known = state
        if self.skip_exc:
            if st == (("$exc",),):
                return state
            if awaited_throw(ev):
                return ((("$exc",),), frozenset(), frozenset())
        if ev.k == "br" and ev.x:
            p, pol = ev.x
            if any(isinstance(y, tuple) and y and y[0] != "c" and (y == p[1] or y == p[2]) or isinstance(y, tuple) and y and y[0] in ("ld", "r", "it") and (contains(p[1], y) or contains(p[2], y))
                   for x in st for y in x[1:]):
                known = known | {(p, pol)}
        l = self.classify(ev, st, held, known) if self.four else self.classify(ev, st, held) if self.three else self.classify(ev, st)
        if ev.k == "lock":
            held = held | {ev.a[0]}
        elif ev.k == "unlock":
            held = held - {ev.a[0]}
        if l is not None and l is not False:
            for x in (l if isinstance(l, list) else [l]):
                if x == ("$reset",):      # a new round of a loop begins
                    st, known = (), frozenset()
                    continue
                if not isinstance(x, tuple):
                    x = (x,)
                if ev.facts:
                    for y in x[1:]:
                        if isinstance(y, tuple) and y and y[0] in ("ld", "r", "it", "p", "op"):
                            known = known | {(p, b) for p, b in ev.facts.items() if y in p}
                if sum(1 for y in st if y[0] == x[0]) < self.cap:
                    st = st + (x,)
                elif sum(1 for y in st if y == x) == 0:
                    # saturated: keep the freshest payload
                    idx = max(k for k, y in enumerate(st) if y[0] == x[0])
                    st = st[:idx] + st[idx + 1:] + (x,)
        if ev.k == "exit" and ev.q not in ("unreachable", "terminate", "noreturn"):
            if known:
                ev = with_facts(ev, known)
            for m in self.final(st, ev) or ():
                raise Violation(m, ev)
        return (st, held, known)


# ------------------------------------------------------------------------------------------------------------ small helpers

def F(v):
    """last named coro member of an address, or of an event's first operand"""
    if isinstance(v, Ev):
        if not v.a or not isinstance(v.a[0], tuple):
            return ""
        v = v.a[0]
    return last_field(v) if v and v[0] == "addr" else ""


def short(q):
    return q.split("::")[-1]


def names(seq):
    return [x[0] for x in seq]


def count(seq, n):
    return sum(1 for x in seq if x[0] == n)


def index(seq, n):
    for k, x in enumerate(seq):
        if x[0] == n:
            return k
    return -1


def this(*path):
    return ("addr", ("arg", "this"), tuple(path))


def arg(n, *path):
    return addr(("arg", n), path) if path else ("arg", n)


def eq_fact(E, facts, a, b):
    """True/False/None: a == b under facts"""
    v = E.icmp("eq", a, b)
    n = E.norm(v)
    if n is True or n is False:
        return n
    p, pol = n

    class S:
        pass
    s = S()
    s.facts = facts or {}
    q = E.query(s, p)
    return None if q is None else (q == pol)


def truth(E, v, facts):
    """truth of a boolean value under facts"""
    if v is None:
        return None
    n = E.norm(v)
    if n is True or n is False:
        return n

    class S:
        pass
    s = S()
    s.facts = facts or {}
    q = E.query(s, n[0])
    return None if q is None else (q == n[1])


def coreturn(ev):
    """value a coroutine returns (None: not a co_return; ANY: not a scalar)"""
    if ev.k == "call" and ev.q.endswith("variant::emplace") and ev.fn.endswith("::return_value") and len(ev.a) > 1:
        return ev.mem.get(loc_of(ev.a[1]), ANY)
    return None


ACQ = ("acquire", "acq_rel", "seq_cst", "consume")
REL = ("release", "acq_rel", "seq_cst")


def handle_of(v):
    """object whose member handle v was loaded from: ('ld', addr(root, path..., m_handle)) -> (root addr, member)"""
    if v[0] == "ld" and v[1][0] == "addr":
        p = v[1][2]
        if p and isinstance(p[-1], str):
            return (("addr", v[1][1], p[:-1]) if len(p) > 1 else v[1][1], p[-1])
    return (None, None)


def touching(fnrec, fieldnames):
    """does the function's own IR mention one of the member names"""
    for b in fnrec["blocks"]:
        for i in b:
            for x in i.get("st", []):
                if isinstance(x, str) and x in fieldnames:
                    return True
            for a in i.get("a", []):
                if isinstance(a, dict) and "ge" in a:
                    for x in a["ge"][1]:
                        if isinstance(x, str) and x in fieldnames:
                            return True
    return False


# ------------------------------------------------------------------------------------------------------------ unique ownership

class Owner:
    """cls owns one resource in `path`; `release(ev, value)` recognises giving up `value`; `null` is the empty value"""

    def __init__(self, cls, path, release, null, what, extra=None):
        self.cls, self.path, self.release, self.null, self.what = cls, path, release, null, what


def check_owner(ctx, o, kinds=("dtor", "movector", "moveassign"), kw=None, least=1):
    """destructor / move constructor / move assignment of every instance of the owner class follow the ownership protocol"""
    E = ctx.E
    kw = kw or {}
    n = 0
    cands = [f for f in ctx.P.fns.values() if f.get("cls", "").split("<")[0] == o.cls or f["q"].startswith(o.cls + "::")]
    for f in cands:
        sm = f.get("sm")
        if f["q"].endswith("::$dtor"):
            sm = "dtor"
        if sm not in kinds:
            continue
        n += 1
        mine = this(*o.path)
        other_nm = (f.get("pn") or ["p0"])[0] or "p0"
        theirs = addr(("arg", other_nm), o.path)
        for alias in ((False, True) if sm in ("moveassign", "copyassign") else (False,)):
            ctx.ob("%s ownership of %s%s" % (f.get("dem", f["q"]), short(o.path[-1]) if isinstance(o.path[-1], str) else o.path, " (self-assignment)" if alias else ""))
            k2 = dict(kw)
            if alias:
                k2["arg_alias"] = {other_nm: "this"}
            mon = OwnerMon(ctx, o, sm, mine, mine if alias else theirs, alias)
            ctx.monitor(f, mon, **k2)
    if n < least:
        raise AnalysisError("no special members found for owner %s" % o.cls)
    return n


class OwnerMon(Monitor):
    # state: (own, other, released, branch facts) where own/other are the initial values once observed
    init = (None, None, (), frozenset(), None, None)

    def __init__(self, ctx, o, sm, mine, theirs, alias):
        self.ctx, self.o, self.sm, self.mine, self.theirs, self.alias = ctx, o, sm, mine, theirs, alias

    def step(self, st, ev):
        own, oth, rel, known, wm, wt = st
        if ev.k == "br" and ev.x:
            p, pol = ev.x
            if any(y is not None and y in (p[1], p[2]) for y in (own, oth, ("arg", "this"))):
                known = known | {(p, pol)}
        if ev.k == "load":
            l = ev.a[0]
            if l == self.mine and own is None and self.sm != "movector":
                own = ev.r
            elif l == self.theirs and oth is None and not self.alias:
                oth = ev.r
            # reading back a written value does not change the initial value
        if ev.k == "store" and ev.a[0] == self.mine and own is None:
            own = ("never-read",) if self.sm != "movector" else None
            if self.sm == "movector":
                own = ("fresh",)
        if ev.k == "store" and ev.a[0] == self.theirs and oth is None and not self.alias:
            oth = ("never-read",)
        if ev.k == "store" and ev.a[0] == self.mine:
            wm = ev.a[1]
        if ev.k == "store" and ev.a[0] == self.theirs:
            wt = ev.a[1]
        for v in self.o.release(ev):
            c = sum(1 for x in rel if x == v)
            if c < 2:
                rel = rel + (v,)
        st = (own, oth, rel, known, wm, wt)
        if ev.k == "exit" and known:
            ev = with_facts(ev, known)
        if ev.k == "exit" and ev.q in ("ret", "unwind"):
            for m in self.final(st, ev):
                raise Violation(m, ev)
        return st

    def isnull(self, v, facts):
        r = eq_fact(self.ctx.E, facts, v, self.o.null)
        if r is None and self.o.null == ("c", -1) and truth(self.ctx.E, ("op", "slt", v, ZERO), facts) is True:
            return True     # a negative descriptor is no descriptor
        return r

    def final(self, st, ev):
        own, oth, rel, _, wm, wt = st
        o, E = self.o, self.ctx.E
        mem, facts = ev.mem or {}, ev.facts or {}
        w = o.what
        # releasing runs code the engine does not follow: the last value written here still stands
        fin = mem.get(self.mine, wm)
        ofin = mem.get(self.theirs, wt)
        if any(rel.count(v) > 1 for v in rel):
            yield "%s released twice on one path" % w
        known = lambda v: v is not None and v not in (("never-read",), ("fresh",))
        if self.sm == "dtor":
            if own is None or own == ("never-read",):
                yield "destructor never looks at the %s it owns" % w
            elif self.isnull(own, facts) is not True and own not in rel:
                yield "destructor path leaves the owned %s unreleased" % w
            for v in rel:
                if v != own:
                    yield "destructor releases something other than the owned %s" % w
            return
        if self.sm == "movector":
            if rel:
                yield "move construction releases the %s" % w
            if oth is None:
                yield "move construction does not take over the %s" % w
            elif known(oth):
                if fin != oth:
                    yield "move construction does not take over the source's %s" % w
                if ofin is None or ofin == oth and self.isnull(oth, facts) is not True or self.isnull(ofin, facts) is not True:
                    yield "move construction leaves the %s owned by the source as well" % w
            return
        if self.alias:
            # self-assignment: the resource must still be held, or have been released exactly once and the member emptied
            if rel:
                yield "self-assignment releases the owned %s" % w
            elif fin is not None and known(own) and fin != own:
                yield "self-assignment loses the owned %s" % w
            elif own == ("never-read",):
                yield "self-assignment loses the owned %s" % w
            return
        if ev.q == "unwind":
            return
        # a path that established this == &other does nothing
        selfp = eq_fact(E, facts, ("arg", "this"), self.theirs[1])
        if selfp is True:
            return
        if oth is None and own is None:
            yield "assignment does not transfer the %s" % w
            return
        swapped = known(own) and ofin == own
        if own == ("never-read",):
            yield "assignment overwrites the owned %s without releasing it" % w
        elif known(own) and own not in rel and not swapped and self.isnull(own, facts) is not True:
            yield "assignment overwrites the owned %s without releasing it" % w
        elif own is None:
            yield "assignment does not replace the owned %s" % w
        if known(oth):
            if oth in rel and oth != own:
                yield "assignment releases the %s it takes over" % w
            if fin != oth and self.isnull(oth, facts) is not True:
                yield "assignment does not take over the source's %s" % w
            if not swapped and (ofin is None or self.isnull(ofin, facts) is not True):
                yield "assignment leaves the %s owned by the source as well" % w


# ------------------------------------------------------------------------------------------------------------ waiter lists

def listop(ctx, ev, field, nxt):
    """what an atomic event does to the intrusive waiter list headed by `field`:
    ('push', element, previous head, order) / ('pop', element, orders) / ('popall', head, order) / ('bad', text)"""
    if ev.k != "atomic" or F(ev) != field or ev.q in ("load", "init"):
        return None
    E = ctx.E
    if ev.q == "cas":
        if not ev.x[0]:
            return None
        exp, des, so, fx = ev.a[1], ev.a[2], ev.x[1], ev.facts
        if eq_fact(E, fx, des, ZERO) is True:
            if eq_fact(E, fx, exp, ZERO) is True:
                return None
            return ("popall", exp, so)
        if des[0] == "ld" and nxt in des[1][2] and root_of(loc_of(exp)) is not None and des[1] == addr(exp if exp[0] != "addr" else exp, (nxt,)):
            return ("pop", exp, so)
        return ("push", des, exp, so)
    if ev.q == "xchg":
        if eq_fact(E, ev.facts, ev.a[1], ZERO) is True:
            return ("popall", ev.r, ev.x)
        return ("bad", "the list head is replaced unconditionally")
    if ev.q == "store" and eq_fact(E, ev.facts, ev.a[1], ZERO) is True:
        return ("bad", "the list is emptied without taking its elements")
    return ("bad", "the list head is overwritten")


class WalkMon(Monitor):
    """A detached list is walked: every element is resumed exactly once, its successor is read before it is resumed, and the
    walk stops only at the end of the list.  take(ev) returns the head when a list is detached.  The list may be reversed in
    place first; order(ev, reversed) is asked at the first resumption and may return a complaint."""
    # state: (expected element or None, ((element, successor) ...), resumed elements, reversal, branch facts)
    # reversal: None, ("rev", head of the part already reversed) or "done"
    init = (None, (), (), None, frozenset())

    def __init__(self, ctx, take, nxt, hnd, sink=None, order=None, after=None):
        self.ctx, self.take, self.nxt, self.hnd = ctx, take, nxt, hnd
        self.sink = sink        # sink(ev): element disposed of in another way (handed to an executor)
        self.order, self.after = order, after

    def step(self, st, ev):
        exp, nx, res, rev, known = st
        if awaited_throw(ev):
            return self.init
        if ev.k == "br" and ev.x and exp is not None:
            p, pol = ev.x
            if ev.x == (("eq", exp, ZERO), True):
                return (ZERO, nx, res, rev, known)
            if any(contains(p[1], y) or contains(p[2], y) for y in [exp] + [n[1] for n in nx]):
                return (exp, nx, res, rev, known | {(p, pol)})
        t = self.take(ev)
        if t is not None:
            if exp is not None and not self.null(exp, ev, known):
                raise Violation("detaches a second list before the first one was finished", ev)
            return (t, (), (), None, frozenset())
        if exp is None and not res:
            return st
        if self.after is not None and res:
            m = self.after(ev)
            if m:
                raise Violation(m, ev)
        if ev.k == "load":
            r = ev.a[0][1] if ev.a[0][2] else None
            if ev.a[0][2] and ev.a[0][-1][-1] == self.nxt:
                o = ("addr", ev.a[0][1], ev.a[0][2][:-1]) if len(ev.a[0][2]) > 1 else ev.a[0][1]
                if o in res:
                    raise Violation("the successor is read from an element that was already resumed", ev)
                nx = tuple(x for x in nx if x[0] != o)[-2:] + ((o, ev.r),)
                return (exp, nx, res, rev, known)
            if r in res:
                raise Violation("an element is touched after it was resumed", ev)
        if ev.k in ("store", "atomic") and ev.a and ev.a[0][1] in res and ev.a[0][1] != ANY:
            raise Violation("an element is touched after it was resumed", ev)
        if ev.k == "store" and ev.a[0][0] == "addr" and ev.a[0][2] and ev.a[0][2][-1] == self.nxt and not res and exp is not None:
            o = ("addr", ev.a[0][1], ev.a[0][2][:-1]) if len(ev.a[0][2]) > 1 else ev.a[0][1]
            n = [x[1] for x in nx if x[0] == o]
            if exp == ANY or contains(o, ANY):
                return (ANY, (), res, rev, known)
            if o != exp:
                raise Violation("the link of an element other than the next one is changed", ev)
            if not n:
                raise Violation("the link to the rest of the list is overwritten before it was read", ev)
            if rev == "done" or ev.a[1] != (rev[1] if rev else ZERO):
                raise Violation("the list is relinked into something that is not its reversal", ev)
            return (n[0], (), res, ("rev", o), known)
        o = None
        if ev.k == "resume":
            o, m = handle_of(ev.a[0])
            if m != self.hnd:
                o = ev.a[0]
        elif self.sink is not None:
            o = self.sink(ev)
        if o is not None:
            if contains(o, ANY) or exp is not None and contains(exp, ANY):
                return (ANY, (), (), rev, frozenset())
            if isinstance(rev, tuple):
                if not self.null(exp, ev, known):
                    raise Violation("resumes before the whole list was reversed", ev)
                exp, rev = rev[1], "done"
            if self.order is not None and not res:
                n = [x[1] for x in nx if x[0] == o]
                single = bool(n) and self.null(n[0], ev, known)
                m = self.order(ev, rev == "done" or single, rev is None or single)
                if m:
                    raise Violation(m, ev)
            if o in res:
                raise Violation("the same waiter is resumed twice", ev)
            if o != exp:
                raise Violation("resumes something other than the next element of the list", ev)
            n = [x[1] for x in nx if x[0] == o]
            if not n:
                raise Violation("the successor was not read before the element was resumed", ev)
            return (n[0], (), (res + (o,))[-2:], rev, frozenset(k for k in known if contains(k[0], n[0])))
        if ev.k == "exit" and ev.q in ("ret", "coroend"):
            if isinstance(rev, tuple):
                raise Violation("elements of the detached list are left without being resumed", ev)
            if exp is not None and exp != ANY and not self.null(exp, ev, known):
                raise Violation("elements of the detached list are left without being resumed", ev)
        return st

    def null(self, v, ev, known=()):
        # facts at the event, and the branches seen on the way
        fx = dict(ev.facts or {})
        for p, pol in known:
            fx.setdefault(p, pol)
        return eq_fact(self.ctx.E, fx, v, ZERO) is True

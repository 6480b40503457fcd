"""Predicate-aware dataflow over the resolved program.

explore() builds, for one entry function, the graph of abstract states reachable along its control flow (callees of
namespace coro are entered, everything else is an opaque operation).  An abstract state holds, per program point, what is
known of live values, of memory and of branch outcomes; equal states are merged, so loops reach a fixpoint.  No values are
guessed and no path condition is handed to a solver: a branch is taken both ways unless the recorded facts decide it.
Typestate monitors (class Monitor) run over that graph.
"""
import re
import sys
from facts import AnalysisError

sys.setrecursionlimit(10000)
ZERO = ("c", 0)
ONE = ("c", 1)
UNDEF = ("undef",)
ANY = ("any",)


SCALARS = [("std::_Rb_tree_iterator::_M_node",), ("std::_Rb_tree_const_iterator::_M_node",), ("std::chrono::duration::__r",),
           ("std::chrono::time_point::__d", "std::chrono::duration::__r")]
ORDERINGS = {"std::operator<": "slt", "std::operator<=": "sle", "std::operator>": "sgt", "std::operator>=": "sge"}


class Ev:
    __slots__ = ("k", "q", "a", "r", "loc", "fn", "x", "mem", "facts", "dem", "stack")

    def __init__(self, k, q="", a=(), r=None, loc=None, fn="", x=None, mem=None, facts=None, dem="", stack=()):
        self.k, self.q, self.a, self.r, self.loc, self.fn, self.x, self.mem, self.facts, self.dem, self.stack = \
            k, q, a, r, loc, fn, x, mem, facts, dem, stack

    def __repr__(self):
        return "%s %s(%s)%s%s @%s:%s" % (self.k, self.q, ", ".join(vstr(v) for v in self.a),
                                         "" if self.r is None else " -> " + vstr(self.r),
                                         "" if self.x is None else " {%s}" % (self.x,), self.loc[0] if self.loc else "?",
                                         self.loc[1] if self.loc else "?")


SPAN = {"#0": ("std::span::_M_ptr",), "#1": ("std::span::_M_extent", "std::__detail::__extent_storage::_M_extent_value")}
SPAN["+8"] = SPAN["#1"]


def vstr(v):
    if not isinstance(v, tuple):
        return str(v)
    t = v[0]
    if t == "c":
        return str(v[1])
    if t == "arg":
        return v[1]
    if t == "addr":
        return "&" + vstr(v[1]) + "".join("." + (p.split("::")[-1] if isinstance(p, str) else "[%s]" % vstr(p[1])) for p in v[2])
    if t == "alloca":
        return "local:%s%s" % (v[3].split("::")[-1], v[2])
    if t in ("ld",):
        return "*(%s)#%s" % (vstr(v[1])[1:] if v[1][0] == "addr" else vstr(v[1]), v[2].split("/")[-1])
    if t == "r":
        return "%s(..)#%s" % (v[1].split("::")[-1], v[3].split("/")[-1])
    if t == "op":
        return v[1] + "(" + ",".join(vstr(x) for x in v[2:]) + ")"
    if t == "p":
        return "prev " + vstr(v[1])
    if t == "s":
        return '"%s"' % v[1]
    return str(v)


def isix(x):
    return isinstance(x, tuple) or isinstance(x, str) and x.startswith("[") and x.endswith("]")


def addr(root, path):
    if root[0] == "addr":
        return ("addr", root[1], root[2] + tuple(path))
    return ("addr", root, tuple(path))


def loc_of(v):
    """pointer value -> location (root, path)"""
    if v[0] == "addr":
        return v
    return ("addr", v, ())


def root_of(v):
    return v[1] if v[0] == "addr" else v


def root_kind(l):
    r = l[1]
    while r[0] == "addr":
        r = r[1]
    return r[0]


def fields(v):
    """named member path of an address, innermost last, without std:: internals"""
    return tuple(p for p in v[2] if isinstance(p, str)) if v[0] == "addr" else ()


def last_field(v):
    f = [p for p in fields(v) if p.startswith("coro::")]
    return f[-1] if f else ""


def subst(v, old, new):
    if v == old:
        return new
    if isinstance(v, frozenset):
        return frozenset(subst(x, old, new) if isinstance(x, (tuple, frozenset)) else x for x in v)
    if isinstance(v, tuple):
        ch = False
        o = []
        for x in v:
            y = subst(x, old, new) if isinstance(x, (tuple, frozenset)) else x
            ch = ch or (y is not x)
            o.append(y)
        if ch:
            return tuple(o)
    return v


def contains(v, what):
    if v == what:
        return True
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple):
                if contains(x, what):
                    return True
            elif isinstance(what, str) and x == what:
                return True
    return False


def depth(v):
    return 1 + max([depth(x) for x in v if isinstance(x, tuple)] or [0]) if isinstance(v, tuple) else 0


def atoms(v, out):
    """symbols (ld/r/any/p) occurring in v"""
    if isinstance(v, tuple) and v:
        if v[0] in ("ld", "r", "p", "phi", "it"):
            out.add(v)
        for x in v:
            if isinstance(x, tuple):
                atoms(x, out)


# ---------------------------------------------------------------------------------------------------------------- CFG info

class FnInfo:
    def __init__(self, f):
        self.f = f
        B = f["blocks"]
        n = len(B)
        succ = [[] for _ in range(n)]
        for bi, b in enumerate(B):
            t = b[-1]
            if t["o"] == "br":
                succ[bi] = list(t["t"])
            elif t["o"] == "switch":
                succ[bi] = [c[1] for c in t["cs"]] + [t["df"]]
            elif "inv" in t:
                succ[bi] = list(t["inv"])
        self.succ = succ
        self.derived = {}
        self.alloca = {}
        for b in B:
            for i in b:
                if i["o"] == "alloca":
                    self.alloca[i["d"]] = i
                    self.derived[i["d"]] = i["d"]
        for b in B:
            for i in b:
                if i["o"] in ("gep", "bitcast") and isinstance(i["a"][0], int) and i["a"][0] in self.derived:
                    self.derived[i["d"]] = self.derived[i["a"][0]]
        # liveness
        def uses(i):
            out = []

            def add(v):
                if isinstance(v, int):
                    out.append(v)
                    if v in self.derived:
                        out.append(self.derived[v])
                elif isinstance(v, dict):
                    if "ge" in v:
                        add(v["ge"][0])
            for v in i.get("a", []):
                add(v)
            if i["o"] == "call":
                add(i["f"])
            for s in i.get("st", []):
                if isinstance(s, list):
                    add(s[1])
            return out
        self.uses = uses
        self.livein = [set() for _ in range(n)]
        phiuse = [set() for _ in range(n)]  # values used by phis along edge from block
        for b in B:
            for i in b:
                if i["o"] == "phi":
                    for pb, v in i["in"]:
                        if isinstance(v, int):
                            phiuse[pb].add(v)
                            if v in self.derived:
                                phiuse[pb].add(self.derived[v])
        gen, kill = [], []
        for b in B:
            g, k = set(), set()
            for i in b:
                if i["o"] != "phi":
                    for u in uses(i):
                        if u not in k:
                            g.add(u)
                if "d" in i:
                    k.add(i["d"])
            gen.append(g)
            kill.append(k)
        self.liveout = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for bi in range(n - 1, -1, -1):
                o = set(phiuse[bi])
                for s in succ[bi]:
                    o |= self.livein[s]
                i = gen[bi] | (o - kill[bi])
                if o != self.liveout[bi] or i != self.livein[bi]:
                    self.liveout[bi], self.livein[bi] = o, i
                    ch = True
        # keep the allocas alive whose derived pointers are alive (an alloca is defined once, so this is monotone)
        for s in (self.livein, self.liveout):
            for x in s:
                x |= {self.derived[v] for v in x if v in self.derived}
        # blocks on cycles
        self.cyc = set()
        idx, low, st, on, num = {}, {}, [], set(), [0]

        def sc(v0):
            work = [(v0, 0)]
            while work:
                v, k = work.pop()
                if k == 0:
                    idx[v] = low[v] = num[0]
                    num[0] += 1
                    st.append(v)
                    on.add(v)
                rec = False
                for j in range(k, len(succ[v])):
                    w = succ[v][j]
                    if w not in idx:
                        work.append((v, j + 1))
                        work.append((w, 0))
                        rec = True
                        break
                    if w in on:
                        low[v] = min(low[v], idx[w])
                if rec:
                    continue
                for w in succ[v]:
                    if w in on:
                        low[v] = min(low[v], low[w])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in succ[v]:
                        self.cyc.update(comp)
        for v in range(n):
            if v not in idx:
                sc(v)
        self.liveat_cache = {}

    def live_after(self, bi, k):
        """ids live just after instruction k of block bi"""
        key = (bi, k)
        r = self.liveat_cache.get(key)
        if r is None:
            b = self.f["blocks"][bi]
            live = set(self.liveout[bi])
            for j in range(len(b) - 1, k, -1):
                i = b[j]
                if "d" in i:
                    live.discard(i["d"])
                if i["o"] != "phi":
                    live.update(self.uses(i))
            live |= {self.derived[v] for v in live if v in self.derived}
            r = frozenset(live)
            self.liveat_cache[key] = r
        return r


# ---------------------------------------------------------------------------------------------------------------- states

class Frame:
    __slots__ = ("fi", "b", "k", "ctx", "env", "loop", "prev", "argids")

    def __init__(self, fi, ctx, env, loop):
        self.fi, self.b, self.k, self.ctx, self.env, self.loop, self.prev = fi, 0, 0, ctx, env, loop, -1

    def copy(self):
        f = Frame.__new__(Frame)
        f.fi, f.b, f.k, f.ctx, f.env, f.loop, f.prev = self.fi, self.b, self.k, self.ctx, dict(self.env), self.loop, self.prev
        return f


class State:
    # esc: local objects whose address was stored where other threads can find it
    __slots__ = ("frames", "mem", "facts", "esc")

    def __init__(self, frames, mem, facts, esc=frozenset()):
        self.frames, self.mem, self.facts, self.esc = frames, mem, facts, esc

    def copy(self):
        return State([f.copy() for f in self.frames], dict(self.mem), dict(self.facts), self.esc)

    def key(self):
        return (tuple((id(f.fi), f.b, f.k, f.ctx, frozenset(f.env.items())) for f in self.frames),
                frozenset(self.mem.items()), frozenset(self.facts.items()), self.esc)


PASS_THROUGH = {"std::move", "std::forward", "std::addressof", "std::__addressof", "std::as_const", "std::launder", "std::to_address",
                "std::__to_address", "std::forward_like", "std::__get_helper"}

ATOMIC_OPS = {"load": "load", "store": "store", "exchange": "xchg", "compare_exchange_weak": "cas", "compare_exchange_strong": "cas",
              "fetch_add": "add", "fetch_sub": "sub", "fetch_or": "or", "fetch_and": "and", "operator=": "store", "$conv": "load",
              "operator++": "add", "operator--": "sub", "operator+=": "add", "operator-=": "sub"}
ATOMIC_CLS = ("std::atomic::", "std::__atomic_base::")

NOTHROW_OPAQUE = ("std::mutex::", "std::atomic", "std::operator<<", "std::ostream", "std::basic_ostream", "std::endl", "operator delete",
                  "llvm.", "__cxa_", "__errno_location", "strerror", "std::chrono", "std::duration", "operator new", "std::this_thread",
                  "std::__cxx11::basic_string", "std::operator+", "std::to_string")

SCALAR_T = re.compile(r"(const )?(bool|char|short|int|long|long long|unsigned( char| int| short| long| long long)?|float|double|[\w:]+ \*|void \*)( const)?( ?&&?)?")

ORD = {0: "relaxed", 1: "consume", 2: "acquire", 3: "release", 4: "acq_rel", 5: "seq_cst"}


class Config:
    """What is entered, what is opaque and what may throw in one exploration."""

    def __init__(self, inline=None, opaque=(), throws=None, inline_coro=None, limit=40000, stop=(), ret1=(), arg_alias=None, fork_ret=(), guarded=(), unroll=16):
        self.inline = inline            # predicate(q) or None = all of coro
        self.opaque = set(opaque)       # qualified names (or prefixes ending in ::) kept opaque
        self.throws = throws            # predicate(q, dem) -> may throw
        self.inline_coro = inline_coro  # predicate(q): enter coroutine callee at the call
        self.limit = limit
        self.ret1 = set(ret1)           # opaque boolean operations taken as returning true
        self.fork_ret = set(fork_ret)
        self.arg_alias = arg_alias or {}
        self.unroll = unroll            # how far a counter is followed round a loop
        self.guarded = set(guarded)     # atomic members only touched under a lock: remembered like ordinary memory until a lock operation

    def is_opaque(self, q):
        if q in self.opaque:
            return True
        for o in self.opaque:
            if o.endswith("::") and q.startswith(o):
                return True
        return False


DEFAULT_OPAQUE = {"coro::mutex::unlock", "coro::mutex::try_lock", "coro::detail::lock_operation_base::await_ready",
                  "coro::detail::lock_operation_base::await_suspend"}


class Graph:
    def __init__(self):
        self.edges = []      # node -> list of (events, succ or None)
        self.root = 0
        self.fn = None


class Engine:
    def __init__(self, P):
        self.P = P
        self.info = {}
        self.refs = {"%s::%s" % (r["q"], f["n"]) for r in P.recs.values() for f in r["fields"] if f.get("ref")}

    def fi(self, f):
        r = self.info.get(f["m"])
        if r is None:
            r = self.info[f["m"]] = FnInfo(f)
        return r

    # ---- entry
    def explore(self, f, cfg):
        self.cfg = cfg
        self.entry_ctor = f["q"].endswith("::$ctor")
        fi = self.fi(f)
        env = {}
        pn = list(f.get("pn", []))
        ai = 0
        names = []
        for a in f["args"]:
            if a["k"] == "sret":
                names.append("$ret")
                continue
            names.append(None)
        rest = [k for k, x in enumerate(names) if x is None]
        if f.get("meth") or (f["q"].endswith("$lambda::operator()")):
            if rest:
                names[rest[0]] = "this"
                rest = rest[1:]
        for k in rest:
            n = f["args"][k].get("n", "")      # parameters without storage (empty classes) are not passed, others are passed in pieces
            names[k] = n.replace(".coerce", ".").rstrip(".") if n and not n[0].isdigit() else pn[ai] if len(rest) == len(pn) and pn[ai] else "p%d" % ai
            ai += 1
        for a, nm in zip(f["args"], names):
            env[a["id"]] = ("arg", cfg.arg_alias.get(nm, nm))
        st = State([Frame(fi, "", env, False)], {}, {})
        g = Graph()
        g.fn = f
        index = {}
        k0 = st.key()
        index[k0] = 0
        g.edges.append([])
        work = [(0, st)]
        while work:
            n, s = work.pop()
            outs = []
            self.run(s, [], outs)
            for evs, s2 in outs:
                if s2 is None:
                    g.edges[n].append((evs, None))
                    continue
                self.prune(s2)
                k = s2.key()
                m = index.get(k)
                if m is None:
                    m = index[k] = len(g.edges)
                    g.edges.append([])
                    if m > cfg.limit:
                        raise AnalysisError("state limit exceeded in %s" % f["q"])
                    work.append((m, s2))
                g.edges[n].append((evs, m))
        return g

    # ---- pruning
    def prune(self, s):
        live_vals = []
        keep_allocas = set()
        depthn = len(s.frames)
        for d, fr in enumerate(s.frames):
            if d == depthn - 1:
                live = fr.fi.livein[fr.b] if fr.k == 0 else fr.fi.live_after(fr.b, fr.k - 1)
                if fr.k == 0:
                    # phis were already evaluated into env
                    live = set(live)
                    for i in fr.fi.f["blocks"][fr.b]:
                        if i["o"] != "phi":
                            break
                        live.add(i["d"])
            else:
                live = fr.fi.live_after(fr.b, fr.k - 1)
            fr.env = {k: v for k, v in fr.env.items() if k in live}
            for k in live:
                if k in fr.fi.alloca:
                    keep_allocas.add(("alloca", fr.ctx, k, fr.fi.alloca[k].get("ty", "")))
            live_vals.extend(fr.env.values())
        # memory reachability
        mem = s.mem
        keep = {}
        pend = list(mem.items())
        roots = set(keep_allocas)

        def addroots(v):
            if isinstance(v, tuple) and v:
                if v[0] == "alloca":
                    roots.add(v)
                for x in v:
                    if isinstance(x, tuple):
                        addroots(x)
        for v in live_vals:
            addroots(v)
        changed = True
        while changed:
            changed = False
            rest = []
            for l, v in pend:
                r = l[1]
                while r[0] == "addr":
                    r = r[1]
                if r[0] == "alloca" and r not in roots:
                    rest.append((l, v))
                    continue
                keep[l] = v
                before = len(roots)
                addroots(v)
                if len(roots) != before:
                    changed = True
            pend = rest
        s.mem = keep
        if s.esc:
            s.esc = frozenset(x for x in s.esc if x in roots)
        if s.facts:
            al = set()
            for v in live_vals:
                atoms(v, al)
            for l, v in keep.items():
                atoms(l, al)
                atoms(v, al)
            nf = {}
            for p, b in s.facts.items():
                a = set()
                atoms(p, a)
                if a <= al:
                    nf[p] = b
            s.facts = nf

    # ---- value helpers
    def val(self, fr, v):
        if isinstance(v, int):
            r = fr.env.get(v)
            if r is None:
                if v in fr.fi.alloca:
                    return ("alloca", fr.ctx, v, fr.fi.alloca[v].get("ty", ""))
                return ANY
            return r
        if "c" in v:
            return ("c", v["c"])
        if "n" in v:
            return ZERO
        if "fn" in v:
            return ("fn", v["fn"])
        if "g" in v:
            return ("glob", v["g"])
        if "s" in v:
            return ("s", v["s"])
        if "z" in v:
            return ZERO
        if "ge" in v:
            return addr(self.val(fr, v["ge"][0]), self.steps(fr, v["ge"][1]))
        if "cf" in v:
            return ("f", v["cf"])
        return UNDEF

    def steps(self, fr, st):
        out = []
        for x in st:
            if isinstance(x, list):
                out.append(("idx", self.val(fr, x[1])))
            elif x == "std::coroutine_handle::_M_fr_ptr":
                pass        # a handle is its frame pointer
            else:
                out.append(x)
        return out

    def site(self, fr, i):
        return fr.ctx + "/" + str(i.get("d", i.get("_k", 0)))

    def age(self, s, fr, sym, evs):
        """the symbol is about to be produced again by the same instruction: rename the old one"""
        if not (fr.loop or fr.b in fr.fi.cyc) or sym[0] in ("addr", "alloca", "arg", "c", "s", "glob"):
            return          # places and constants are the same in every round
        self.rename(s, [(("p", sym), ANY), (sym, ("p", sym))], evs)

    def rename(self, s, pairs, evs):
        def sub(v):
            w = v
            for o, n in pairs:
                v = subst(v, o, n)
            if v is not w and v[0] == "op" and v[1] in ("add", "sub") and contains(v, ANY):
                return ANY      # what earlier rounds added up to
            if v is not w and v[0] == "addr" and sum(1 for x in v[2] if isinstance(x, tuple)) > 1 and contains(v, ANY):
                q, pth = False, []
                for x in v[2]:
                    if isinstance(x, tuple) and contains(x, ANY):
                        if q:
                            continue
                        q, x = True, ("idx", ANY)
                    pth.append(x)
                return ("addr", v[1], tuple(pth))
            return v
        for f2 in s.frames:
            for k, v in f2.env.items():
                f2.env[k] = sub(v)
        nm = {}
        for l, v in s.mem.items():
            l2 = sub(l)
            if l2 != l and contains(l2, ANY):
                continue
            nm[l2] = sub(v)
        s.mem.clear()
        s.mem.update(nm)
        nf = {}
        for p, b in s.facts.items():
            p2 = sub(p)
            if p2 != p and contains(p2, ANY):
                continue
            nf[p2] = b
        s.facts.clear()
        s.facts.update(nf)
        evs.append(Ev("age", x=tuple(pairs)))

    # ---- facts
    def norm(self, v):
        """boolean value -> (predicate, polarity) or constant"""
        pol = True
        while True:
            if v[0] == "c":
                return bool(v[1]) == pol
            if v[0] == "op":
                if v[1] == "not":
                    v = v[2]
                    pol = not pol
                    continue
                if v[1] == "ne":
                    v = ("op", "eq", v[2], v[3])
                    pol = not pol
                    continue
                if v[1] == "eq":
                    a, b = v[2], v[3]
                    if a[0] == "c" and b[0] != "c":
                        a, b = b, a
                    if a == b and a[0] not in ("any", "undef"):
                        return pol
                    if a[0] == "c" and b[0] == "c":
                        return (a[1] == b[1]) == pol
                    # address of an object is never null, and distinct locals differ
                    if b == ZERO and (a[0] in ("alloca", "addr", "fn", "glob", "s") or (a == ("arg", "this"))):
                        if a[0] != "addr" or a[2]:
                            return (not pol)
                        return (not pol)
                    if a[0] == "alloca" and b[0] in ("alloca",) and a != b:
                        return (not pol)
                    if a[0] == "glob" and b[0] == "glob" and a != b:
                        return (not pol)
                    # bool-like equality
                    if b == ZERO and a[0] == "op" and a[1] in ("eq", "ne", "ult", "slt", "not"):
                        v = a
                        pol = not pol
                        continue
                    if b == ONE and a[0] == "op" and a[1] in ("eq", "ne", "ult", "slt", "not"):
                        v = a
                        continue
                    return (("eq", a, b), pol)
                if v[1] in ("ult", "slt"):
                    a, b = v[2], v[3]
                    if a[0] == "c" and b[0] == "c":
                        return (a[1] < b[1]) == pol
                    if a == b and a[0] not in ("any", "undef"):
                        return not pol
                    if v[1] == "ult" and b == ONE:          # unsigned: below one is zero, above zero is not zero
                        v = ("op", "eq", a, ZERO)
                        continue
                    if v[1] == "ult" and a == ZERO:
                        v, pol = ("op", "eq", b, ZERO), not pol
                        continue
                    return ((v[1], a, b), pol)
            return (("eq", v, ZERO), not pol)

    def query(self, s, p):
        """True/False/None for a normalised predicate"""
        if contains(p, ANY) or contains(p, UNDEF):
            return None
        f = s.facts
        if p in f:
            return f[p]
        k, a, b = p
        if k == "eq" and a[0] not in ("c",) and ("eq", b, a) in f:
            return f[("eq", b, a)]
        if k == "eq":
            if b[0] == "c":
                for q, v in f.items():
                    if q[0] == "eq" and q[1] == a and q[2][0] == "c" and v and q[2] != b:
                        return False
                lo, hi = self.interval(f, a)
                if lo is not None and b[1] < lo or hi is not None and b[1] > hi:
                    return False
            for kk in ("ult", "slt"):
                if f.get((kk, a, b)) or f.get((kk, b, a)):
                    return False
        if k in ("ult", "slt"):
            if f.get(("eq", a, b)) or f.get(("eq", b, a)):
                return False
            if f.get((k, b, a)):
                return False
            if b[0] == "c":
                lo, hi = self.interval(f, a)
                if hi is not None and hi < b[1] and (k == "slt" or lo is not None and lo >= 0):
                    return True
                if lo is not None and lo >= b[1] and (k == "slt" or b[1] >= 0):
                    return False
                if k == "ult" and b[1] == 0:
                    return False
                if k == "ult" and b[1] == 1:
                    e = f.get(("eq", a, ZERO))
                    if e is not None:
                        return e
            if a[0] == "c":
                lo, hi = self.interval(f, b)
                if lo is not None and lo > a[1] and (k == "slt" or a[1] >= 0):
                    return True
                if hi is not None and hi <= a[1] and (k == "slt" or lo is not None and lo >= 0):
                    return False
                if k == "ult" and a[1] == 0:
                    e = f.get(("eq", b, ZERO))
                    if e is not None:
                        return not e
        return None

    @staticmethod
    def interval(f, a):
        """(lo, hi) from facts about a and constants; unsigned facts imply lo >= 0 only through ult x c"""
        lo = hi = None
        ex = set()
        for p, v in f.items():
            if len(p) != 3:
                continue
            k, x, y = p
            if x == a and y[0] == "c":
                c = y[1]
                if k == "eq":
                    if v:
                        return c, c
                    ex.add(c)
                elif k in ("ult", "slt"):
                    if v:
                        hi = c - 1 if hi is None else min(hi, c - 1)
                        if k == "ult":
                            lo = 0 if lo is None else max(lo, 0)
                    else:
                        lo = c if lo is None else max(lo, c)
            elif y == a and x[0] == "c":
                c = x[1]
                if k in ("ult", "slt"):
                    if v:
                        lo = c + 1 if lo is None else max(lo, c + 1)
                    else:
                        hi = c if hi is None else min(hi, c)
                        if k == "ult":
                            lo = 0 if lo is None else max(lo, 0)
        while lo is not None and lo in ex:
            lo += 1
        while hi is not None and hi in ex:
            hi -= 1
        return lo, hi

    def assume(self, s, v, truth):
        """add (v is truth) to s; returns False if contradictory"""
        n = self.norm(v)
        if n is True or n is False:
            return n == truth
        p, pol = n
        want = truth == pol
        q = self.query(s, p)
        if q is not None:
            return q == want
        if not (contains(p, ANY) or contains(p, UNDEF)):
            s.facts[p] = want
        return True

    # ---- memory
    def read(self, s, fr, i, l, evs, fresh=None):
        l = loc_of(l)
        v = s.mem.get(l)
        if v is not None:
            return v
        # an object of one scalar member, read as a whole
        if l[1][0] == "alloca":
            for p in SCALARS:
                v = s.mem.get(("addr", l[1], l[2] + p))
                if v is not None:
                    return v
        # part of an object that was copied as a whole
        for n in range(len(l[2]) - 1, -1, -1):
            w = s.mem.get(("addr", l[1], l[2][:n]))
            if w is not None:
                if len(l[2]) == n + 1 and str(l[2][n]).endswith("::_M_node"):
                    return w
                if w[0] == "r" and str(l[2][n]).startswith(("coro::net::io_status::",)):
                    # a small object returned in a register: its parts are those of the result
                    s.mem[l] = ("ld", addr(w, l[2][n:]), "/0")
                    return s.mem[l]
                if w[0] == "ld" and l[2][0] != "$vptr":
                    v = ("ld", addr(w[1], l[2][n:]), w[2])
                    if depth(v) <= 14:
                        s.mem[l] = v
                        return v
                break
        if contains(l, ANY):
            return ANY
        if l[2] and l[2][-1] in self.refs:
            # a reference member is bound once, when its object is constructed
            v = ("ld", l, "ref")
            if depth(v) > 14:
                return ANY
            s.mem[l] = v
            return v
        site = self.site(fr, i)
        if fr.loop or fr.b in fr.fi.cyc:
            # walking a chain: the element of the previous step, produced by this same instruction, becomes "the" iterator
            inner = self.same_site(l, site)
            if inner is not None:
                it = ("it", site)
                prs = [(inner, ("tmp",)), (("p", it), ANY), (it, ("p", it)), (("tmp",), it)]
                self.rename(s, prs, evs)
                for o, n in prs:
                    l = subst(l, o, n)
                if contains(l, ANY):
                    return ANY
                v = s.mem.get(l)
                if v is not None:
                    return v
        sym = ("ld", l, site)
        self.age(s, fr, sym, evs)
        if depth(sym) > 14:
            return ANY
        s.mem[l] = sym
        return sym

    @staticmethod
    def same_site(v, site):
        if isinstance(v, tuple) and v:
            if v[0] == "ld" and len(v) == 3 and v[2] == site:
                return v
            for x in v:
                if isinstance(x, tuple):
                    r = Engine.same_site(x, site)
                    if r is not None:
                        return r
        return None

    def write(self, s, l, v):
        l = loc_of(l)
        # forget overlapping members
        n = len(l[2])
        for k in [k for k in s.mem if k[1] == l[1] and len(k[2]) > n and k[2][:n] == l[2]]:
            del s.mem[k]
        # writes through an unknown index or pointer forget what they may alias (same last member, different root)
        if l[2] and not contains(l, ANY):
            lf = l[2][-1]
            for k in [k for k in s.mem if k != l and k[2] and k[2][-1] == lf and self.may_alias(s, k, l)]:
                del s.mem[k]
        if contains(l, ANY):
            return
        s.mem[l] = v

    def may_alias(self, s, a, b):
        ra, rb = a[1], b[1]
        while ra[0] == "addr":
            ra = ra[1]
        while rb[0] == "addr":
            rb = rb[1]
        if ra[0] == "alloca" or rb[0] == "alloca":
            return False if (ra[0] == rb[0] or ra[0] in ("arg", "glob") or rb[0] in ("arg", "glob")) else False
        if ra == rb:
            return any(isinstance(x, tuple) for x in a[2] + b[2]) and len(a[2]) == len(b[2])
        for x in (ra, rb):
            if x == ("arg", "$ret") or x == ("arg", "this") and self.entry_ctor:
                return False
        n = self.norm(("op", "eq", ra, rb))
        if n is not True and n is not False:
            q = self.query(s, n[0])
            if q is not None:
                return q == n[1]
        return n is not False

    def havoc_ptr(self, s, v):
        if v[0] in ("c", "fn", "s", "glob", "undef", "any", "op", "f"):
            return
        l = loc_of(v)
        n = len(l[2])
        for k in [k for k in s.mem if k[1] == l[1] and k[2][:n] == l[2]]:
            del s.mem[k]
        # objects reached through pointer valued root
        for k in [k for k in s.mem if k[1][0] == "ld" and contains(k[1], l)]:
            if k in s.mem:
                del s.mem[k]

    def havoc_shared(self, s):
        for k in list(s.mem):
            r = k[1]
            while r[0] == "addr":
                r = r[1]
            if r[0] != "alloca":
                del s.mem[k]

    def publish(self, s, place, v):
        r = v
        while isinstance(r, tuple) and r and r[0] == "addr":
            r = r[1]
        if r[0] != "alloca" or r in s.esc:
            return
        t = loc_of(place)[1]
        while t[0] == "addr":
            t = t[1]
        if t[0] != "alloca" or t in s.esc:
            s.esc = s.esc | {r}

    def havoc_escaped(self, s):
        if s.esc:
            for k in list(s.mem):
                r = k[1]
                while r[0] == "addr":
                    r = r[1]
                if r in s.esc and not (k[2] and k[2][-1] in self.refs):
                    del s.mem[k]

    # ---- execution
    def run(self, s, evs, outs):
        """execute s (owned) until the next block boundary, appending (events, state) to outs"""
        while True:
            fr = s.frames[-1]
            blk = fr.fi.f["blocks"][fr.b]
            i = blk[fr.k]
            o = i["o"]
            fr.k += 1
            if o == "call":
                r = self.call(s, fr, i, evs, outs)
                if r == "stop":
                    return
                continue
            if o == "br":
                t = i["t"]
                if "a" not in i or t[0] == t[1]:
                    self.goto(s, fr, t[0])
                    outs.append((evs, s))
                    return
                self.fork(s, fr, i, self.val(fr, i["a"][0]), t[0], t[1], evs, outs)
                return
            if o == "switch":
                c = self.val(fr, i["a"][0])
                if c[0] == "c":
                    tgt = i["df"]
                    for cv, cb in i["cs"]:
                        if cv == c[1]:
                            tgt = cb
                    self.goto(s, fr, tgt)
                    outs.append((evs, s))
                    return
                if c[0] == "r" and c[1] == "llvm.coro.suspend":
                    # continue as resumed; destruction while suspended is explored by the frame rules only
                    tgt = dict((a, b) for a, b in i["cs"])
                    self.goto(s, fr, tgt.get(0, i["df"]))
                    outs.append((evs, s))
                    return
                rest = True
                for cv, cb in i["cs"]:
                    s2 = s.copy()
                    p = ("op", "eq", c, ("c", cv))
                    if self.assume(s2, p, True):
                        self.goto(s2, s2.frames[-1], cb)
                        outs.append((evs + [self.brev(s2, fr, i, p, True)], s2))
                for cv, cb in i["cs"]:
                    if not self.assume(s, ("op", "eq", c, ("c", cv)), False):
                        rest = False
                if rest:
                    self.goto(s, fr, i["df"])
                    e = [self.brev(s, fr, i, ("op", "eq", c, ("c", cv)), False) for cv, cb in i["cs"]]
                    outs.append((evs + e, s))
                return
            if o == "ret":
                v = self.val(fr, i["a"][0]) if i["a"] else None
                if len(s.frames) == 1:
                    evs.append(Ev("exit", "ret", r=v, loc=i["l"], fn=fr.fi.f["q"], mem=dict(s.mem), facts=dict(s.facts)))
                    outs.append((evs, None))
                    return
                self.pop(s, v, i, evs)
                # merge point after return
                outs.append((evs, s))
                return
            if o == "unreachable":
                evs.append(Ev("exit", "unreachable", loc=i["l"], fn=fr.fi.f["q"]))
                outs.append((evs, None))
                return
            if o == "resume":
                self.unwind(s, i, evs, outs)
                return
            if o == "select":
                # a conditional value is a branch
                c = self.val(fr, i["a"][0])
                n = self.norm(c)
                if n not in (True, False) and self.query(s, n[0]) is None and not contains(c, ANY) and not contains(c, UNDEF):
                    s2 = s.copy()
                    if self.assume(s, c, True) and self.assume(s2, c, False):
                        f2 = s2.frames[-1]
                        e1 = evs + [self.brev(s, fr, i, c, True)]
                        e2 = evs + [self.brev(s2, f2, i, c, False)]
                        self.setd(fr, i, self.val(fr, i["a"][1]))
                        self.setd(f2, i, self.val(f2, i["a"][2]))
                        outs.append((e1, s))
                        outs.append((e2, s2))
                        return
            self.simple(s, fr, i, evs)

    def brev(self, s, fr, i, v, truth):
        n = self.norm(v)
        if n is True or n is False:
            return Ev("nop")
        return Ev("br", loc=i["l"], fn=fr.fi.f["q"], x=(n[0], n[1] == truth))

    def goto(self, s, fr, b):
        # evaluate phis of b for the edge from fr.b
        blk = fr.fi.f["blocks"][b]
        new = {}
        for i in blk:
            if i["o"] != "phi":
                break
            for pb, v in i["in"]:
                if pb == fr.b:
                    new[i["d"]] = self.val(fr, v)
        n = sum(1 for i in blk if i["o"] == "phi")
        if fr.loop or b in fr.fi.cyc:
            for d, v in list(new.items()):
                if depth(v) > 10:
                    new[d] = ANY
        fr.env.update(new)
        fr.prev, fr.b, fr.k = fr.b, b, n

    def fork(self, s, fr, i, c, bt, bf, evs, outs):
        n = self.norm(c)
        if n is True or n is False:
            self.goto(s, fr, bt if n else bf)
            outs.append((evs, s))
            return
        s2 = s.copy()
        if self.assume(s2, c, False):
            self.goto(s2, s2.frames[-1], bf)
            outs.append((evs + [Ev("br", loc=i["l"], fn=fr.fi.f["q"], x=(n[0], not n[1]))], s2))
        if self.assume(s, c, True):
            self.goto(s, fr, bt)
            outs.append((evs + [Ev("br", loc=i["l"], fn=fr.fi.f["q"], x=(n[0], n[1]))], s))

    def pop(self, s, v, i, evs):
        callee = s.frames.pop()
        fr = s.frames[-1]
        ci = fr.fi.f["blocks"][fr.b][fr.k - 1]
        evs.append(Ev("leave", callee.fi.f["q"], r=v, loc=ci["l"], fn=fr.fi.f["q"]))
        if "d" in ci:
            fr.env[ci["d"]] = v if v is not None else UNDEF
        if "inv" in ci:
            self.goto(s, fr, ci["inv"][0])

    def unwind(self, s, i, evs, outs):
        """propagate an exception out of the current frame (already past any handler there)"""
        while True:
            if len(s.frames) == 1:
                evs.append(Ev("exit", "unwind", loc=i["l"], fn=s.frames[0].fi.f["q"], mem=dict(s.mem), facts=dict(s.facts)))
                outs.append((evs, None))
                return
            callee = s.frames.pop()
            fr = s.frames[-1]
            ci = fr.fi.f["blocks"][fr.b][fr.k - 1]
            evs.append(Ev("leave", callee.fi.f["q"], loc=ci["l"], fn=fr.fi.f["q"], x="unwind"))
            if "inv" in ci:
                self.goto(s, fr, ci["inv"][1])
                outs.append((evs, s))
                return
            if "nu" in ci or callee.fi.f.get("nu"):
                evs.append(Ev("exit", "terminate", loc=ci["l"], fn=fr.fi.f["q"]))
                outs.append((evs, None))
                return

    def throw(self, s, fr, i, q, evs, outs):
        evs.append(Ev("throw", q, loc=i["l"], fn=fr.fi.f["q"]))
        if "inv" in i:
            self.goto(s, fr, i["inv"][1])
            outs.append((evs, s))
            return
        if fr.fi.f.get("nu"):
            evs.append(Ev("exit", "terminate", loc=i["l"], fn=fr.fi.f["q"]))
            outs.append((evs, None))
            return
        self.unwind(s, i, evs, outs)

    def setd(self, fr, i, v):
        if "d" in i:
            fr.env[i["d"]] = v

    def simple(self, s, fr, i, evs):
        o = i["o"]
        if o == "alloca":
            a = ("alloca", fr.ctx, i["d"], i.get("ty", ""))
            if fr.loop or fr.b in fr.fi.cyc:
                self.havoc_ptr(s, a)
            fr.env[i["d"]] = a
            return
        if o == "phi":
            return
        if o == "load":
            if isinstance(i["a"][0], dict) and "gi" in i["a"][0]:      # a constant
                fr.env[i["d"]] = self.val(fr, i["a"][0]["gi"])
                return
            p = self.val(fr, i["a"][0])
            span = SPAN["#0"] if p[0] == "alloca" and p[3] == "std::span" else ()
            v = self.read(s, fr, i, addr(p, span) if span else p, evs)
            p = self.val(fr, i["a"][0])      # may have been renamed
            fr.env[i["d"]] = v
            if self.visible(p):
                evs.append(Ev("load", a=(loc_of(p),), r=v, loc=i["l"], fn=fr.fi.f["q"]))
            return
        if o == "store":
            v = self.val(fr, i["a"][0])
            p = self.val(fr, i["a"][1])
            if v[0] in ("glob", "addr") and root_of(v)[0] == "glob" and str(root_of(v)[1]).startswith("_ZTV"):
                s.mem[addr(loc_of(p), ("$vptr",))] = root_of(v)
                return
            if p[0] == "alloca" and p[3] == "std::span":
                p = addr(p, SPAN["#0"])
            old = s.mem.get(loc_of(p))
            self.publish(s, p, v)
            self.write(s, p, v)
            if self.visible(p):
                evs.append(Ev("store", a=(loc_of(p), v), loc=i["l"], fn=fr.fi.f["q"], x=old))
            return
        if o == "gep":
            b = self.val(fr, i["a"][0])
            if b in (ANY, UNDEF):
                fr.env[i["d"]] = b
                return
            st = self.steps(fr, i["st"])
            if len(st) == 1 and st[0] in SPAN and b[0] == "alloca" and b[3] == "std::span":
                st = SPAN[st[0]]      # a span passed or returned in registers
            if fr.b in fr.fi.cyc and b[0] == "addr" and b[2] and isix(b[2][-1]) and all(isix(x) for x in st):
                # a pointer walking over an array in a loop
                it = ("it", self.site(fr, i))
                p = b[2]
                while p and isix(p[-1]):
                    p = p[:-1]
                self.age(s, fr, it, evs)
                fr.env[i["d"]] = addr(b[1], p + (("idx", it),))
                return
            fr.env[i["d"]] = addr(b, st)
            return
        if o == "icmp":
            a, b = self.val(fr, i["a"][0]), self.val(fr, i["a"][1])
            fr.env[i["d"]] = self.icmp(i["p"], a, b)
            return
        if o in ("trunc", "zext", "sext", "bitcast", "ptrtoint", "inttoptr", "freeze", "addrspacecast"):
            fr.env[i["d"]] = self.val(fr, i["a"][0])
            return
        if o == "xor":
            a, b = self.val(fr, i["a"][0]), self.val(fr, i["a"][1])
            if b == ONE and i.get("w") == 1 or (b == ("c", -1) and i.get("w") == 1):
                fr.env[i["d"]] = ("op", "not", a) if a[0] != "c" else ("c", 1 - (a[1] & 1))
                return
        if o == "select":
            c, a, b = [self.val(fr, x) for x in i["a"]]
            n = self.norm(c)
            if n is True:
                fr.env[i["d"]] = a
            elif n is False:
                fr.env[i["d"]] = b
            else:
                q = self.query(s, n[0])
                if q is None:
                    fr.env[i["d"]] = ("op", "select", c, a, b)
                else:
                    fr.env[i["d"]] = a if q == n[1] else b
            return
        if o in ("add", "sub", "mul", "and", "or", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem", "xor"):
            a, b = self.val(fr, i["a"][0]), self.val(fr, i["a"][1])
            fr.env[i["d"]] = self.arith(fr, o, a, b, i)
            return
        if o == "extractvalue":
            a = self.val(fr, i["a"][0])
            ix = tuple(i["ix"])
            if a[0] == "agg":
                d = dict(a[1])
                fr.env[i["d"]] = d.get(ix, ANY)
            else:
                fr.env[i["d"]] = ("op", "field%s" % "".join("_%d" % k for k in ix), a) if a not in (ANY, UNDEF) else a
            return
        if o == "insertvalue":
            a, b = self.val(fr, i["a"][0]), self.val(fr, i["a"][1])
            d = dict(a[1]) if a[0] == "agg" else {}
            d[tuple(i["ix"])] = b
            fr.env[i["d"]] = ("agg", tuple(sorted(d.items())))
            return
        if o == "landingpad":
            evs.append(Ev("landing", loc=i["l"], fn=fr.fi.f["q"], x=i.get("ca", 0)))
            fr.env[i["d"]] = ("exc",)
            return
        if "d" in i:
            fr.env[i["d"]] = ANY
        return

    def visible(self, p):
        l = loc_of(p)
        if root_kind(l) != "alloca":
            return True
        return any(isinstance(x, str) and x.startswith("coro::") for x in l[2])

    NEG = {"ne": "eq", "uge": "ult", "sge": "slt", "ugt": ("ult", 1), "sgt": ("slt", 1), "ule": ("ult", 2), "sle": ("slt", 2)}

    def icmp(self, p, a, b):
        # the sign of a count is the sign of the length of time
        if b == ZERO and a[0] == "op" and str(a[1]).startswith("count:"):
            a = a[2]
        elif a == ZERO and b[0] == "op" and str(b[1]).startswith("count:"):
            b = b[2]
        def mk(k, x, y, neg):
            v = ("op", k, x, y)
            n = self.norm(v)
            if n is True or n is False:
                r = n != neg
                return ONE if r else ZERO
            return ("op", "not", v) if neg else v
        if p == "eq":
            # select folding: (c ? k1 : k2) == k
            for x, y in ((a, b), (b, a)):
                if x[0] == "op" and x[1] == "select" and y[0] == "c" and x[3][0] == "c" and x[4][0] == "c":
                    if x[3] == y and x[4] != y:
                        return x[2]
                    if x[4] == y and x[3] != y:
                        return ("op", "not", x[2])
            # the same member of two objects is the same object exactly if the objects are
            if a[0] == "addr" and b[0] == "addr" and a[2] == b[2] and a[1] != b[1] and a[1][0] == "arg" and b[1][0] == "arg":
                a, b = a[1], b[1]
            return mk("eq", a, b, False)
        if p == "ne":
            r = self.icmp("eq", a, b)
            if r[0] == "c":
                return ("c", 1 - r[1])
            return r[2] if r[1] == "not" else ("op", "not", r)
        if p in ("ult", "slt"):
            return mk(p, a, b, False)
        if p in ("uge", "sge"):
            return mk("u" + "lt" if p[0] == "u" else "slt", a, b, True)
        if p in ("ugt", "sgt"):
            return mk("ult" if p[0] == "u" else "slt", b, a, False)
        return mk("ult" if p[0] == "u" else "slt", b, a, True)

    def arith(self, fr, o, a, b, i):
        # two 32-bit members passed in one register
        if o == "and" and a == UNDEF and b[0] == "c":
            return ZERO
        if o == "and" and b == ("c", -(1 << 32)) and (a[0] == "op" and a[1] == "shl" and a[3] == ("c", 32) or a[0] == "c" and a[1] & 0xffffffff == 0):
            return a
        if o == "or" and a == ZERO:
            return b
        if o == "or" and a[0] == "op" and a[1] == "shl" and a[3] == ("c", 32):
            if a[2][0] == "op" and a[2][1] in ("lshr", "ashr") and a[2][2] == b and a[2][3] == ("c", 32):
                return b
            if b not in (ANY, UNDEF):
                return ("op", "pack", b, a[2])
        if o in ("shl", "lshr") and b == ("c", 32) and a[0] == "op" and a[1] == "pack" and o == "lshr":
            return a[3]
        if a in (ANY, UNDEF) or b in (ANY, UNDEF):
            return ANY
        if a[0] == "c" and b[0] == "c":
            x, y = a[1], b[1]
            r = None
            if o == "add":
                r = x + y
            elif o == "sub":
                r = x - y
            elif o == "mul":
                r = x * y
            elif o == "and":
                r = x & y
            elif o == "or":
                r = x | y
            elif o == "xor":
                r = x ^ y
            elif o == "shl" and 0 <= y < 64:
                r = x << y
            elif o in ("urem", "srem") and y > 0 and x >= 0:
                r = x % y
            elif o in ("udiv", "sdiv") and y > 0 and x >= 0:
                r = x // y
            if r is not None:
                if (fr.loop or fr.b in fr.fi.cyc) and abs(r) > self.cfg.unroll and o in ("add", "sub", "mul"):
                    return ANY
                return ("c", r)
        if o in ("add", "sub", "or", "xor", "shl") and b == ZERO:
            return a
        if o == "add" and a == ZERO:
            return b
        if o == "sub" and b[0] == "c":
            o, b = "add", ("c", -b[1])
        if o == "add" and a[0] == "c":
            a, b = b, a
        if o == "add" and b[0] == "c" and a[0] == "op" and a[1] == "add" and a[3][0] == "c":
            b = ("c", a[3][1] + b[1])
            a = a[2]
            if b == ZERO:
                return a
            if (fr.loop or fr.b in fr.fi.cyc) and abs(b[1]) > 8:
                return ANY
        v = ("op", o, a, b)
        if depth(v) > 10:
            return ANY
        return v

    # ---- calls
    def call(self, s, fr, i, evs, outs):
        P, cfg = self.P, self.cfg
        f = i["f"]
        fv = self.val(fr, f)
        args = tuple(self.val(fr, a) for a in i["a"])
        name = fv[1] if fv[0] == "fn" else None
        nm = P.names.get(name, {}) if name else {}
        q = nm.get("q", name or "indirect")
        dem = nm.get("dem", "")
        if "::." in q:
            q = q.replace("::.", "::")
        site = self.site(fr, i)
        loc = i["l"]
        fnq = fr.fi.f["q"]

        def done(v=None):
            if v is not None:
                self.setd(fr, i, v)
            if "inv" in i:
                self.goto(s, fr, i["inv"][0])
                outs.append((evs, s))
                return "stop"
            return None

        # intrinsics
        if name and name.startswith("llvm."):
            if name.startswith("llvm.coro."):
                if name == "llvm.coro.suspend":
                    v = ("r", "llvm.coro.suspend", (), site)
                    evs.append(Ev("suspend", a=args, loc=loc, fn=fnq, mem=dict(s.mem), facts=dict(s.facts)))
                    self.havoc_shared(s)
                    self.havoc_escaped(s)
                    return done(v)
                if name == "llvm.coro.alloc":
                    return done(ONE)
                if name == "llvm.coro.begin":
                    return done(("frame", fr.ctx))
                if name == "llvm.coro.free":
                    return done(args[1])
                if name == "llvm.coro.resume":
                    evs.append(Ev("transfer", a=args, loc=loc, fn=fnq))
                    return done()
                if name == "llvm.coro.end":
                    return done(ZERO)
                return done(ANY)
            if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
                self.copyobj(s, fr, i, args[0], args[1], evs)
                evs.append(Ev("copy", a=(loc_of(args[0]), loc_of(args[1])), loc=loc, fn=fnq))
                v = s.mem.get(loc_of(args[0]))
                if len(args) > 2 and args[2][0] == "c" and args[2][1] <= 8 and v is not None:
                    # a member as small as a handle: the copy reads one and writes the other
                    if self.visible(args[1]):
                        evs.append(Ev("load", a=(loc_of(args[1]),), r=v, loc=loc, fn=fnq, facts=dict(s.facts)))
                    if self.visible(args[0]):
                        evs.append(Ev("store", a=(loc_of(args[0]), v), loc=loc, fn=fnq))
                return done()
            if name.startswith("llvm.memset"):
                self.havoc_ptr(s, args[0])
                evs.append(Ev("memset", a=args, loc=loc, fn=fnq))
                return done()
            if name.startswith("llvm.lifetime.start") or name.startswith("llvm.lifetime.end"):
                if len(args) > 1 and args[1][0] == "alloca":
                    self.havoc_ptr(s, args[1])
                return done()
            if name.startswith("llvm.eh.typeid"):
                return done(("r", "typeid", (), site))
            if name.startswith("llvm.expect"):
                return done(args[0])
            if name.startswith("llvm.umax") or name.startswith("llvm.smax"):
                return done(("op", "max", args[0], args[1]))
            return done(ANY)

        if q in PASS_THROUGH and args:
            return done(args[0])

        # atomics
        for c in ATOMIC_CLS:
            if q.startswith(c):
                op = q[len(c):]
                if op in ATOMIC_OPS:
                    return self.atomic(s, fr, i, ATOMIC_OPS[op], op, args, evs, outs, done, q)
                if op == "$ctor":
                    if len(args) > 1:
                        s.mem[loc_of(args[0])] = args[1]
                        evs.append(Ev("atomic", "init", a=(loc_of(args[0]), args[1]), loc=loc, fn=fnq))
                    return done()
        if q in ("std::atomic_thread_fence", "std::atomic_signal_fence"):
            evs.append(Ev("fence", a=args, loc=loc, fn=fnq))
            return done()

        # coroutine handles
        if q.startswith("std::coroutine_handle::") or q == "std::operator==" and len(args) == 2 and "coroutine_handle" in dem:
            r = self.handle(s, fr, i, q, args, evs, outs, done, nm, site)
            if r != "no":
                return r
        # optional / unique_ptr
        if q.startswith("std::optional::") or q.startswith("std::_Optional") or q.startswith("std::unique_ptr::") or q.startswith("std::__uniq_ptr"):
            r = self.holder(s, fr, i, q, args, evs, outs, done, nm, site)
            if r != "no":
                return r
        # iterators of ordered containers are values; members of a pair
        if "_Rb_tree_" in dem and (q in ("std::operator==", "std::operator!=") or q.startswith("std::_Rb_tree_iterator::operator") or q.startswith("std::_Rb_tree_const_iterator::operator")):
            op = q.split("::")[-1]
            def itv(a):
                if a[0] not in ("alloca", "addr", "arg"):
                    return a
                l = loc_of(a)
                for p in SCALARS:
                    w = s.mem.get(addr(l, p))
                    if w is not None:
                        return w
                return self.read(s, fr, i, l, evs)
            if op in ("operator==", "operator!=") and len(args) == 2:
                return done(self.icmp("eq" if op == "operator==" else "ne", itv(args[0]), itv(args[1])))
            if op in ("operator*", "operator->"):
                return done(("r", "$elem", (itv(args[0]),), ""))
        if q == "std::get" and len(args) == 1 and nm.get("pt") and re.match(r"(const )?std::pair<", nm["pt"][0]):
            m = re.search(r"std::get<([01])ul", dem)
            if m:
                return done(addr(loc_of(args[0]), ("std::pair::" + ("first", "second")[int(m.group(1))],)))
        # tuples of numbers and pointers
        if q in ("std::make_tuple", "std::tuple::$ctor") and len(args) >= 2 and len(nm.get("pt") or ()) == len(args) - 1 and all(SCALAR_T.fullmatch(t) for t in nm["pt"]):
            d = loc_of(args[0])
            vals = [self.read(s, fr, i, loc_of(a), evs) if t.endswith("&") and a[0] in ("alloca", "addr", "arg", "ld", "r", "glob") else a for t, a in zip(nm["pt"], args[1:])]
            for k, v in enumerate(vals):
                s.mem[addr(d, ("$tup%d" % k,))] = v
            evs.append(Ev("call", q, args, None, loc, fnq, dem=dem, mem=dict(s.mem), facts=dict(s.facts)))
            return done(None)
        if q == "std::get" and len(args) == 1 and nm.get("pt") and re.match(r"(const )?std::tuple<", nm["pt"][0]):
            m = re.search(r"std::get<(\d+)ul", dem)
            l = addr(loc_of(args[0]), ("$tup" + m.group(1),)) if m else None
            if l is not None and l in s.mem:
                return done(l)
        # durations and time points are numbers
        if q.startswith("std::chrono::") or q in ORDERINGS or q.startswith('std::operator""'):
            v = self.chrono(s, fr, i, q, args, evs, nm)
            if v is not None:
                if v != ("done",):
                    self.age(s, fr, v, evs)
                return done(v if v != ("done",) else None)
        # locks
        if q in ("std::mutex::lock", "std::recursive_mutex::lock", "std::timed_mutex::lock"):
            self.havoc_shared(s)
            evs.append(Ev("lock", a=(loc_of(args[0]),), loc=loc, fn=fnq, x="std"))
            return done()
        if q in ("std::mutex::unlock", "std::recursive_mutex::unlock", "std::timed_mutex::unlock"):
            evs.append(Ev("unlock", a=(loc_of(args[0]),), loc=loc, fn=fnq, x="std", mem=dict(s.mem), facts=dict(s.facts)))
            return done()
        if q in ("std::condition_variable::wait", "std::condition_variable_any::wait") and P.fns.get(name) is None:
            self.havoc_shared(s)
            evs.append(Ev("cvwait", q, args, None, loc, fnq))
            return done()
        if q == "std::mutex::try_lock" or (q == "coro::mutex::try_lock" and cfg.is_opaque(q)):
            s2 = s.copy()
            fr2 = s2.frames[-1]
            self.setd(fr2, i, ZERO)
            e2 = evs + [Ev("call", q, args, ZERO, loc, fnq)]
            if "inv" in i:
                self.goto(s2, fr2, i["inv"][0])
            outs.append((e2, s2))
            self.havoc_shared(s)
            evs.append(Ev("lock", q, a=(loc_of(args[0]),), loc=loc, fn=fnq, x="try"))
            self.setd(fr, i, ONE)
            if "inv" in i:
                self.goto(s, fr, i["inv"][0])
            outs.append((evs, s))
            return "stop"
        if q == "coro::mutex::unlock" and cfg.is_opaque(q):
            evs.append(Ev("unlock", a=(loc_of(args[0]),), loc=loc, fn=fnq, x="coro", mem=dict(s.mem), facts=dict(s.facts)))
            self.havoc_shared(s)
            return done()
        if q == "coro::detail::lock_operation_base::await_ready" and cfg.is_opaque(q):
            m = self.read(s, fr, i, addr(loc_of(args[0]), ("coro::detail::lock_operation_base::m_mutex",)), evs)
            self.havoc_shared(s)
            evs.append(Ev("lock", a=(loc_of(m),), loc=loc, fn=fnq, x="coro"))
            return done(ONE)
        if q in ("std::suspend_always::await_ready",):
            return done(ONE)
        if q in ("std::suspend_never::await_ready",):
            return done(ONE)
        if q == "std::suspend_always::await_suspend":
            return done()
        if fr.fi.f.get("coro") and q.endswith("::final_suspend"):
            evs.append(Ev("coroend", q, a=args, loc=loc, fn=fnq, mem=dict(s.mem), facts=dict(s.facts)))
            if len(s.frames) == 1:
                evs.append(Ev("exit", "coroend", loc=loc, fn=fnq, mem=dict(s.mem), facts=dict(s.facts)))
                outs.append((evs, None))
                return "stop"
            self.pop(s, None, i, evs)
            outs.append((evs, s))
            return "stop"
        # task awaiting
        if q == "coro::task::awaitable_base::await_ready" and "coro::task::" not in cfg.opaque and not getattr(cfg, "raw_task", False):
            h = self.read(s, fr, i, addr(loc_of(args[0]), ("coro::task::awaitable_base::m_coroutine",)), evs)
            evs.append(Ev("await", q, a=(h,), loc=loc, fn=fnq, mem=dict(s.mem), facts=dict(s.facts)))
            self.havoc_shared(s)
            return done(ONE)

        callee = P.body(name)
        throws = False
        if q in ("__cxa_throw", "__cxa_rethrow", "std::rethrow_exception") or (i.get("nr") and (q.startswith("std::__throw") or q.startswith("__cxa_throw"))):
            evs.append(Ev("call", q, args, None, loc, fnq, dem=dem))
            self.throw(s, fr, i, q, evs, outs)
            return "stop"
        if callee is not None and callee.get("coro"):
            inline = cfg.inline_coro is not None and cfg.inline_coro(q) and not self.on_stack(s, name)
        else:
            inline = callee is not None and self.want_inline(q, callee) and not self.on_stack(s, name)
        if inline:
            ctx = site
            env = {}
            for a, v in zip(callee["args"], args):
                env[a["id"]] = v
            evs.append(Ev("enter", q, args, None, loc, fnq, dem=dem))
            nf = Frame(self.fi(callee), ctx, env, fr.loop or fr.b in fr.fi.cyc)
            s.frames.append(nf)
            return None

        # opaque
        ev = Ev("corocall" if callee is not None and callee.get("coro") else "call", q, args, None, loc, fnq, dem=dem,
                mem=dict(s.mem), facts=dict(s.facts))
        may = "nu" not in i and not (callee is not None and callee.get("nu")) and cfg.throws is not None and cfg.throws(q, dem) and \
            not any(q.startswith(p) for p in NOTHROW_OPAQUE)
        if may:
            s2 = s.copy()
            self.effects(s2, q, nm, args, i)
            self.throw(s2, s2.frames[-1], i, q, evs + [Ev("call", q, args, None, loc, fnq, dem=dem, x="throws", mem=ev.mem, facts=ev.facts)], outs)
        self.effects(s, q, nm, args, i)
        if "d" in i:
            if q in cfg.ret1:
                v = ONE
            else:
                av = tuple(a if depth(a) <= 9 else ANY for a in args)
                v = ("r", q, av, site)
                self.age(s, fr, v, evs)
                # an older result with different arguments from the same site
                if fr.loop or fr.b in fr.fi.cyc:
                    self.age_site(s, site, v, evs)
            ev.r = v
            self.setd(fr, i, v)
        evs.append(ev)
        if "sret" in i and args:
            av = tuple(a if depth(a) <= 8 else ANY for a in args[1:])
            sv = ("r", q, av, site)
            if fr.loop or fr.b in fr.fi.cyc:
                self.age(s, fr, sv, evs)
            self.havoc_ptr(s, args[0])
            s.mem[addr(loc_of(args[0]), ("$val",))] = sv
            ev.r = sv
        if i.get("nr"):
            evs.append(Ev("exit", "noreturn", q and (), loc=loc, fn=fnq))
            outs.append((evs, None))
            return "stop"
        return done()

    def chrono(self, s, fr, i, q, args, evs, nm):
        """value of an operation on durations / time points (lengths of time in nanoseconds); None: not modelled"""
        dem, pt, op = nm.get("dem", ""), nm.get("pt", []), q.split("::")[-1]

        def unit(t):
            m = re.search(r"ratio<(\d+)l?(?:, (\d+)l?)?>", t)
            return (10 ** 9) * int(m.group(1)) // int(m.group(2) or 1) if m else 10 ** 9

        def path(t):
            d = ("std::chrono::duration::__r",)
            return ("std::chrono::time_point::__d",) + d if "time_point" in t else d

        def get(k, t):
            if k >= len(args):
                return ANY
            a = args[k]
            if a[0] not in ("alloca", "addr", "arg", "ld", "r", "glob", "f"):
                return a
            w = s.mem.get(addr(loc_of(a), path(t)))
            return w if w is not None else self.read(s, fr, i, loc_of(a), evs)
        if q in ORDERINGS:
            if not pt or "ordering" not in "".join(pt):
                return None
            rev = "ordering" not in pt[0]
            o = [a for a in args if a[0] == "op" and a[1] == "cmp"]
            if not o or len(pt) > 1 and "ordering" in pt[0] and "ordering" in pt[1]:
                return None
            a, b = o[0][2], o[0][3]
            if rev:
                a, b = b, a
            return self.icmp(ORDERINGS[q], a, b)
        if q.startswith('std::operator""'):
            u = {"ns": 1, "us": 10 ** 3, "ms": 10 ** 6, "s": 10 ** 9, "min": 60 * 10 ** 9, "h": 3600 * 10 ** 9}.get(q[len('std::operator""'):])
            d = "".join(chr(int(x)) for x in re.findall(r"\(char\)(\d+)", dem))
            return ("c", int(d) * u) if u and d.isdigit() else None
        meth = nm.get("meth")
        t0 = nm.get("cls", "") if meth or op == "$ctor" else (pt[0] if pt else "")
        if q.startswith("std::chrono::duration::") or q.startswith("std::chrono::time_point::"):
            if op in ("zero",):
                return ZERO
            if op == "count":
                v = get(0, t0)
                u = unit(t0)
                if v[0] == "c":
                    return ("c", v[1] // u)
                return v if v == ANY or u == 1 else ("op", "count:%d" % u, v)
            if op == "time_since_epoch":
                return get(0, t0)
            if op == "$ctor" and args:
                if len(args) < 2:
                    v = ZERO
                elif "duration" in pt[0] or "time_point" in pt[0]:
                    v = get(1, pt[0])
                else:
                    u = unit(t0)
                    v = args[1]
                    if v[0] in ("alloca", "addr", "arg", "ld"):
                        v = self.read(s, fr, i, v, evs)
                    if v[0] == "c":
                        v = ("c", v[1] * u)
                    elif v[0] == "op" and v[1] == "count:%d" % u:
                        v = v[2]
                    elif u != 1 and v != ANY:
                        v = ("op", "scale:%d" % u, v)
                self.havoc_ptr(s, args[0])
                self.write(s, loc_of(args[0]), v)
                return ("done",)
            if op in ("operator+=", "operator-=") and len(args) == 2:
                v = self.arith(fr, "add" if op[8] == "+" else "sub", get(0, t0), get(1, pt[0]), i)
                self.write(s, loc_of(args[0]), v)
                return args[0]
            if op in ("operator-",) and len(args) == 1:
                return self.arith(fr, "sub", ZERO, get(0, t0), i)
            return None
        if op in ("duration_cast", "time_point_cast", "ceil", "floor", "round") and len(args) == 1:
            v = get(0, t0)
            m = re.search(re.escape(op) + r"<(std::chrono::duration<[^>]*>?)", dem)
            u, w = unit(m.group(1)) if m else 1, unit(t0)
            if u <= w or v in (ANY, ZERO):
                return v
            if v[0] == "c":
                return ("c", v[1] // u * u)
            return ("op", ("trunc:%d" if op in ("duration_cast", "floor", "time_point_cast") else op + ":%d") % u, v)
        if len(args) == 2 and len(pt) == 2:
            a, b = get(0, pt[0]), get(1, pt[1])
            if op in ("operator+", "operator-"):
                return self.arith(fr, "add" if op[8] == "+" else "sub", a, b, i)
            if op == "operator<=>":
                return ("op", "cmp", a, b)
            p = {"operator<": "slt", "operator<=": "sle", "operator>": "sgt", "operator>=": "sge", "operator==": "eq", "operator!=": "ne"}.get(op)
            if p:
                return self.icmp(p, a, b)
        return None

    def age_site(self, s, site, v, evs):
        """forget older results of the same call site whose arguments differ"""
        bad = set()

        def scan(x):
            if isinstance(x, tuple) and x:
                if x[0] == "r" and len(x) > 3 and x[3] == site and x != v and x[1] == v[1]:
                    bad.add(x)
                for y in x:
                    if isinstance(y, tuple):
                        scan(y)
        for f2 in s.frames:
            for y in f2.env.values():
                scan(y)
        for k, y in s.mem.items():
            scan(k)
            scan(y)
        for b in bad:
            if contains(v, b):
                continue
            self.rename(s, [(("p", b), ANY), (b, ("p", v))], evs)

    def on_stack(self, s, name):
        return any(f.fi.f["m"] == name for f in s.frames) or len(s.frames) > 14

    def want_inline(self, q, callee):
        if self.cfg.is_opaque(q):
            return False
        if q.startswith("coro::"):
            return self.cfg.inline is None or self.cfg.inline(q)
        return True

    def effects(self, s, q, nm, args, i):
        """conservative memory effect of an opaque operation"""
        pt = list(nm.get("pt", []))
        k0 = len(args) - len(pt)
        for k, a in enumerate(args):
            if a[0] not in ("addr", "alloca", "arg", "ld", "r"):
                continue
            t = pt[k - k0] if 0 <= k - k0 < len(pt) else None
            if t is None:
                # this or sret
                if nm.get("const") and not (k == 0 and i.get("sret")):
                    continue
                self.havoc_ptr(s, a)
                continue
            t = t.replace("__restrict", "").replace("restrict", "").rstrip()
            while t.endswith("*const"):
                t = t[:-5].rstrip()
            if t.endswith("&") or t.endswith("*"):
                if t.startswith("const ") and "*" not in t[:-1]:
                    continue
                if q.startswith("std::") and "emplace" in q.rsplit("::", 1)[-1] and t.rstrip("& ") in ("int", "unsigned int", "long", "unsigned long", "bool", "char"):
                    continue        # the element is constructed from it
                self.havoc_ptr(s, a)
        if q.startswith("coro::") or q == "indirect":
            if not nm.get("const"):
                self.havoc_shared(s)

    def copyobj(self, s, fr, i, d, sr, evs):
        d, sr = loc_of(d), loc_of(sr)
        n = len(sr[2])
        new = {}
        for k, v in s.mem.items():
            if k[1] == sr[1] and k[2][:n] == sr[2]:
                new[("addr", d[1], d[2] + k[2][n:])] = v
        if not contains(sr, ANY) and sr not in s.mem:
            v = self.read(s, fr, i, sr, evs)
            if v != ANY:
                new[d] = v
        self.havoc_ptr(s, d)
        s.mem.update(new)

    def atomic(self, s, fr, i, kind, op, args, evs, outs, done, q):
        l = loc_of(args[0])
        loc, fnq = i["l"], fr.fi.f["q"]
        site = self.site(fr, i)
        ords = [ORD.get(a[1], "?") for a in args[1:] if a[0] == "c"]
        cur = ("ld", l, site)
        if contains(l, ANY):
            cur = ANY
        grd = l[0] == "addr" and last_field(l) in self.cfg.guarded and cur != ANY
        if grd and l in s.mem:
            cur = s.mem[l]
            fresh = False
        else:
            fresh = True

        def order(n):
            """memory order argument at position n (seq_cst when the operator form is used)"""
            if n < len(args) and args[n][0] == "c":
                return ORD.get(args[n][1], "?")
            return "seq_cst"
        if kind == "load":
            if fresh:
                self.age(s, fr, cur, evs)
                if grd:
                    s.mem[l] = cur
            evs.append(Ev("atomic", "load", a=(l,), r=cur, loc=loc, fn=fnq, x=order(1)))
            return done(cur)
        if kind == "store":
            o = order(2) if op == "store" else "seq_cst"
            self.publish(s, l, args[1])
            evs.append(Ev("atomic", "store", a=(l, args[1]), loc=loc, fn=fnq, x=o, mem=dict(s.mem), facts=dict(s.facts)))
            if grd:
                self.write(s, l, args[1])
            return done(args[1])
        if kind == "xchg":
            if fresh:
                self.age(s, fr, cur, evs)
            self.publish(s, l, args[1])
            evs.append(Ev("atomic", "xchg", a=(l, args[1]), r=cur, loc=loc, fn=fnq, x=order(2), mem=dict(s.mem), facts=dict(s.facts)))
            if grd:
                self.write(s, l, args[1])
            return done(cur)
        if kind in ("add", "sub", "or", "and"):
            if fresh:
                self.age(s, fr, cur, evs)
            amt = args[1] if op.startswith("fetch") or op.endswith("=") else ONE
            o = order(2) if op.startswith("fetch") else "seq_cst"
            evs.append(Ev("atomic", kind, a=(l, amt), r=cur, loc=loc, fn=fnq, x=o, mem=dict(s.mem), facts=dict(s.facts)))
            if grd:
                self.write(s, l, self.arith(fr, kind, cur, amt, i) if kind in ("add", "sub") else ("ld", l, site))
            if op in ("operator++", "operator--") and len(args) == 1 or op.endswith("="):
                return done(self.arith(fr, kind, cur, amt, i) if kind in ("add", "sub") else ANY)
            return done(cur)
        # cas: args = this, &expected, desired, order(s)
        exp = self.read(s, fr, i, args[1], evs)
        des = args[2]
        so = order(3)
        fo = order(4) if len(args) > 4 else so
        s2 = s.copy()
        f2 = s2.frames[-1]
        e2 = list(evs)
        if fresh:
            self.age(s2, f2, cur, e2)
        self.write(s2, args[1], cur)
        self.setd(f2, i, ZERO)
        fev = Ev("atomic", "cas", a=(l, exp, des), r=cur, loc=loc, fn=fnq, x=(False, so, fo, op.endswith("weak")))
        e2.append(fev)
        if op.endswith("strong"):
            # a strong failure means the value differed
            if not self.assume(s2, ("op", "eq", cur, exp), False):
                s2 = None
        if s2 is not None:
            fev.facts = dict(s2.facts)
            if "inv" in i:
                self.goto(s2, f2, i["inv"][0])
            outs.append((e2, s2))
        self.setd(fr, i, ONE)
        self.publish(s, l, des)
        evs.append(Ev("atomic", "cas", a=(l, exp, des), r=exp, loc=loc, fn=fnq, x=(True, so, fo, op.endswith("weak")), mem=dict(s.mem), facts=dict(s.facts)))
        if grd:
            self.write(s, l, des)
        if "inv" in i:
            self.goto(s, fr, i["inv"][0])
        outs.append((evs, s))
        return "stop"

    def handle(self, s, fr, i, q, args, evs, outs, done, nm, site):
        op = q.split("::")[-1]
        loc, fnq = i["l"], fr.fi.f["q"]
        def hv(p):
            v = self.read(s, fr, i, loc_of(p), evs)
            if self.visible(p):
                evs.append(Ev("load", a=(loc_of(p),), r=v, loc=loc, fn=fnq, facts=dict(s.facts)))
            return v
        if op == "operator==":
            return done(self.icmp("eq", args[0], args[1]))
        if op == "from_address":
            return done(args[0])
        if op == "from_promise":
            return done(("op", "frameof", args[0]))
        if op == "address":
            return done(hv(args[0]))
        if op == "promise":
            h = hv(args[0])
            if h[0] == "op" and h[1] == "frameof":
                return done(h[2])
            return done(("op", "promiseof", h))
        if op == "$conv":
            h = hv(args[0])
            if nm.get("rt") == "bool":
                return done(self.icmp("ne", h, ZERO))
            return done(h)
        if op == "operator bool":
            return done(self.icmp("ne", hv(args[0]), ZERO))
        if op in ("resume", "operator()", "destroy", "done"):
            h = hv(args[0])
            evs.append(Ev(op if op != "operator()" else "resume", q, a=(h, loc_of(args[0])), loc=loc, fn=fnq, mem=dict(s.mem), facts=dict(s.facts)))
            if op == "done":
                v = evs[-1].r = ("r", "done", (h,), site)
                self.age(s, fr, v, evs)
                return done(v)
            self.havoc_shared(s)
            if self.cfg.throws is not None and op == "resume" and self.cfg.throws("std::coroutine_handle::resume", "") and "nu" not in i:
                s2 = s.copy()
                self.throw(s2, s2.frames[-1], i, q, list(evs), outs)
            return done()
        if op == "$ctor":
            if len(args) == 1 or args[1:] == (ZERO,) or "nullptr" in nm.get("dem", ""):
                self.write(s, loc_of(args[0]), ZERO)
            else:
                self.write(s, loc_of(args[0]), args[1] if len(args) > 1 else ANY)
            if self.visible(args[0]):
                evs.append(Ev("store", a=(loc_of(args[0]), args[1] if len(args) > 1 else ZERO), loc=loc, fn=fnq))
            return done()
        if op == "operator=":
            v = ZERO
            if "nullptr" not in nm.get("dem", "") and len(args) > 1:
                v = hv(args[1])
            self.write(s, loc_of(args[0]), v)
            evs.append(Ev("store", a=(loc_of(args[0]), v), loc=loc, fn=fnq))
            return done(args[0])
        return "no"

    def holder(self, s, fr, i, q, args, evs, outs, done, nm, site):
        """std::optional / std::unique_ptr: engaged flag and pointee are tracked as pseudo members"""
        op = q.split("::")[-1]
        loc, fnq = i["l"], fr.fi.f["q"]
        pt = nm.get("pt", [])
        opt = "ptional" in q
        L = loc_of(args[0]) if args else None

        def has(p):
            return addr(loc_of(p), ("$has",))

        def val(p):
            return addr(loc_of(p), ("$in",))
        if opt:
            if i.get("sret"):
                return "no"
            if op in ("has_value", "$conv", "_M_is_engaged"):
                v = self.read(s, fr, i, has(args[0]), evs)
                return done(self.icmp("ne", v, ZERO) if v[0] != "c" else v)
            if op in ("value", "operator*", "operator->", "_M_get"):
                return done(val(args[0]))
            if op in ("reset", "_M_reset"):
                self.write(s, has(args[0]), ZERO)
                evs.append(Ev("call", q, args, None, loc, fnq, x="clear"))
                return done()
            if op == "emplace" or op == "operator=" or op == "$ctor":
                t = pt[0] if pt else ""
                ev = Ev("call", q, args, None, loc, fnq, dem=nm.get("dem", ""), mem=dict(s.mem), facts=dict(s.facts))
                if op != "emplace" and (not pt or "nullopt_t" in t):
                    self.write(s, has(args[0]), ZERO)
                    ev.x = "clear"
                elif op != "emplace" and "optional<" in t:
                    v = self.read(s, fr, i, has(args[1]), evs)
                    src = {k: vv for k, vv in s.mem.items() if k[1] == val(args[1])[1] and k[2][:len(val(args[1])[2])] == val(args[1])[2]}
                    self.havoc_ptr(s, args[0])
                    self.write(s, has(args[0]), v)
                    n = len(val(args[1])[2])
                    for k, vv in src.items():
                        s.mem[("addr", val(args[0])[1], val(args[0])[2] + k[2][n:])] = vv
                    ev.x = "copy"
                else:
                    self.havoc_ptr(s, args[0])
                    self.write(s, has(args[0]), ONE)
                    ev.x = "set"
                    if len(args) > 1 and args[1][0] in ("alloca", "addr", "arg"):
                        src = loc_of(args[1])
                        n = len(src[2])
                        for k, vv in list(s.mem.items()):
                            if k[1] == src[1] and k[2][:n] == src[2]:
                                s.mem[("addr", val(args[0])[1], val(args[0])[2] + k[2][n:])] = vv
                if self.cfg.throws is not None and "nu" not in i and self.cfg.throws(q, nm.get("dem", "")):
                    s2 = s.copy()
                    self.throw(s2, s2.frames[-1], i, q, evs + [ev], outs)
                evs.append(ev)
                return done(args[0] if op == "operator=" else (val(args[0]) if op == "emplace" else None))
            if op == "$dtor":
                return done()
            return "no"
        if op in ("get", "operator->", "_M_ptr"):
            return done(self.read(s, fr, i, addr(L, ("$ptr",)), evs))
        if op == "operator*":
            return done(self.read(s, fr, i, addr(L, ("$ptr",)), evs))
        if op == "$conv":
            return done(self.icmp("ne", self.read(s, fr, i, addr(L, ("$ptr",)), evs), ZERO))
        return "no"


# ---------------------------------------------------------------------------------------------------------------- monitors

class Violation(Exception):
    def __init__(self, msg, ev):
        self.msg, self.ev = msg, ev


class Monitor:
    """A typestate automaton. state: any hashable (tuples are renamed on 'age' events)."""
    init = ()

    def step(self, st, ev):
        """returns a state, a list of states, or raises Violation"""
        return st


def run_monitor(g, mon, max_states=400000):
    """runs mon over every path of g; returns list of (message, event, trace)"""
    out = []
    seen = {}
    start = (0, mon.init)
    seen[start] = None
    work = [start]
    msgs = set()
    while work:
        cur = work.pop()
        n, ms = cur
        for evs, m in g.edges[n]:
            states = [ms]
            for ev in evs:
                if ev.k == "age":
                    for o, w in ev.x:
                        states = [subst(x, o, w) for x in states]
                    continue
                nxt = []
                for x in states:
                    try:
                        r = mon.step(x, ev)
                    except Violation as v:
                        key = (v.msg, v.ev.loc if v.ev else None)
                        if key not in msgs:
                            msgs.add(key)
                            out.append((v.msg, v.ev or ev, trace(seen, cur)))
                        continue
                    if isinstance(r, list):
                        nxt.extend(r)
                    else:
                        nxt.append(r)
                states = nxt
                if not states:
                    break
            if m is None:
                continue
            for x in states:
                nx = (m, x)
                if nx not in seen:
                    seen[nx] = (cur, evs)
                    if len(seen) > max_states:
                        raise AnalysisError("monitor state limit in %s" % g.fn["q"])
                    work.append(nx)
    return out


def trace(seen, cur):
    t = []
    while cur is not None and seen.get(cur) is not None:
        prev, evs = seen[cur]
        t.append(evs)
        cur = prev
    t.reverse()
    return [e for evs in t for e in evs if e.k not in ("age", "nop")]


if __name__ == "__main__":
    import facts, time
    P = facts.extract()
    E = Engine(P)
    for f in P.byq[sys.argv[1]]:
        cfg = Config(opaque=DEFAULT_OPAQUE)
        if "-t" in sys.argv:
            cfg.throws = lambda q, d: True
        t = time.time()
        g = E.explore(f, cfg)
        print(f["q"], "nodes", len(g.edges), "time %.2f" % (time.time() - t))
        if "-v" in sys.argv:
            for n, es in enumerate(g.edges):
                for evs, m in es:
                    print(n, "->", m)
                    for e in evs:
                        if e.k not in ("nop", "age"):
                            print("     ", e)

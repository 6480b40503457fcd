"""C22: name resolution on top of c-ares."""
from .base import *
from .comp import *
from .c15_scheduler import S
from .c16_timers import content
from .c18_owners import RES, ARESK, account, subjects, may_throw, calls_of

RESULT = "coro::net::dns::result"
PEND, RSTAT, RESUME, ADDRS = (RESULT + "::" + x for x in ("m_pending_dns_requests", "m_status", "m_resume", "m_ip_addresses"))
CB, STATE, POLL, LOOKUP = RES + "::ares_dns_callback", RES + "::ares_socket_state_callback", RES + "::make_poll_task", RES + "::host_by_name"
BAD = ("c", -1)
OPQ = DEFAULT_OPAQUE | {"coro::event::", "coro::net::hostname::", "coro::net::ip_address::", S + "::"}


def enum(ctx, e, name):
    for n, v in ctx.P.enums[e]:
        if n == name:
            return ("c", v)
    raise AnalysisError("%s::%s is gone" % (e, name))


def callback(ctx):
    """the function given to ares_getaddrinfo"""
    return ctx.fns(CB)


@rule("C22.answer", "C22", "an answered query is counted down once, marks success only for an obtained answer, frees the answer, and wakes the lookup exactly when the last answer is in")
def r_answer(ctx):
    E = ctx.E
    done, err = enum(ctx, "coro::net::dns::status", "complete"), enum(ctx, "coro::net::dns::status", "error")
    for f in callback(ctx):
        obj, st, _, info = (("arg", n or "p%d" % i) for i, n in enumerate(f["pn"]))

        def field(ev, fl):
            a = ev.a[0] if ev.a else None
            return isinstance(a, tuple) and a[0] == "addr" and a[2][-1:] == (fl,)

        def cl(ev, seq):
            if ev.k in ("load", "store") and ev.a and isinstance(ev.a[0], tuple) and root_of(ev.a[0]) == obj and "set" in names(seq):
                return ("late",)
            if ev.k == "store" and field(ev, PEND):
                v = ev.a[1]
                return ("count", v) if v[0] == "op" and v[1] == "add" and v[3] == ("c", -1) and v[2][0] == "ld" and v[2][1] == ev.a[0] else ("recount",)
            if ev.k == "load" and field(ev, PEND) and "count" in names(seq):
                return ("now", ev.r)
            if ev.k == "store" and field(ev, RSTAT):
                return ("status", ev.a[1])
            if ev.k == "call" and short(ev.q) == "emplace_back" and field(ev, ADDRS):
                return ("address",)
            if ev.k == "call" and ev.q == "ares_freeaddrinfo":
                return ("free", ev.a[0])
            if ev.k == "call" and ev.q == "coro::event::set":
                return ("set", ev.a[0])
            if ev.k in ("load", "store") and ev.a and isinstance(ev.a[0], tuple) and (root_of(ev.a[0]) == info or contains(ev.a[0], info)) and "free" in names(seq):
                return ("stale",)
            if ev.k == "br" and ev.x and (info in ev.x[0] or st in ev.x[0] or any(isinstance(y, tuple) and y[:1] == ("op",) and contains(y, PEND) for y in ev.x[0][1:])
                                          or any(isinstance(y, tuple) and y and contains(y, PEND) for y in ev.x[0][1:])):
                return ("$br", ev.x)

        def final(seq, ev):
            if ev.q != "ret":
                return
            n = names(seq)
            facts = dict(x[1] for x in seq if x[0] == "$br")
            e = {**(ev.facts or {}), **facts}
            null = eq_fact(E, e, info, ZERO)
            good = eq_fact(E, e, st, ZERO)
            if "recount" in n or count(seq, "count") != 1:
                yield "the outstanding query is not counted down exactly once"
                return
            c = [x[1] for x in seq if x[0] == "count"][0]
            last = None
            for v in [c] + [x[1] for x in seq if x[0] == "now"]:      # the count after this answer
                if last is None:
                    last = eq_fact(E, e, v, ZERO)
                if last is None and truth(E, ("op", "ult", ZERO, v), e) is not None:
                    last = not truth(E, ("op", "ult", ZERO, v), e)
            if last is None and "set" in n:
                yield "the lookup is woken although answers may be outstanding"
            elif last is not None and last != ("set" in n):
                yield "the lookup is woken although answers are outstanding" if "set" in n else "the last answer does not wake the lookup"
            if n.count("set") > 1:
                yield "the lookup is woken twice"
            stat = [x[1] for x in seq if x[0] == "status"]
            failed = null is True or good is False
            if failed and stat[-1:] != [err]:
                yield "a failed query is not reported as an error"
            if stat[-1:] == [done] and not (null is False and good is True):
                yield "success is reported without an answer"
            if "address" in n and failed:
                yield "addresses are taken from a failed query"
            if null is False and good is True and [x[1] for x in seq if x[0] == "free"] != [info]:
                yield "an answer is not freed exactly once"
            if null is not False and "free" in n:
                yield "an answer that is not there is freed"
            if "late" in n:
                yield "the result is used after the lookup was woken, which may have destroyed it"
            if "stale" in n:
                yield "the answer is used after it was freed"
        ctx.ob("%s" % f.get("dem", f["q"]))
        ctx.paths(f, cl, final, "answer", cap=5, opaque=OPQ, throws=None)


@rule("C22.family", "C22", "every address of an answer is added with its own family and length")
def r_family(ctx):
    E = ctx.E
    for f in callback(ctx):
        ctx.ob(f.get("dem", f["q"]))
        info = ("arg", f["pn"][3])

        def cl(ev, seq):
            if ev.k == "br" and ev.x:
                for y in ev.x[0][1:]:
                    if isinstance(y, tuple) and y[0] == "ld" and fld_(y[1]) == "ares_addrinfo_node::ai_family":
                        return ("$fam", ev.x)
            if ev.k == "load" and fld_(ev.a[0]) == "ares_addrinfo_node::ai_next":
                return ("next",)
            if ev.k == "call" and ev.q == "coro::net::ip_address::$ctor" and len(ev.a) == 4:
                return ("addr", ev.a[3])
            if ev.k == "call" and short(ev.q) == "emplace_back":
                return ("put",)

        class Mon(Monitor):
            init = (frozenset(), None, 0)

            def step(s, stt, ev):
                fams, made, puts = stt
                l = cl(ev, ())
                if l is None:
                    return stt
                if l[0] == "$fam":
                    return (fams | {l[1]}, made, puts)
                if l[0] == "addr":
                    yes = {c[1] for (p, pol) in fams if pol and p[0] == "eq" for c in p[1:] if c[0] == "c"}
                    if l[1][0] != "c" or yes != {l[1][1]}:
                        raise Violation("an address is added under a family other than its own", ev)
                    return (fams, l[1][1], puts)
                if l[0] == "put":
                    if made is None:
                        raise Violation("something other than the address at hand is added", ev)
                    return (fams, made, puts + 1)
                yes = {c[1] for (p, pol) in fams if pol and p[0] == "eq" for c in p[1:] if c[0] == "c"}
                if yes and puts != 1:
                    raise Violation("an address is not added exactly once", ev)
                return (frozenset(), None, 0)
        ctx.monitor(f, Mon(), opaque=OPQ)


def fld_(v):
    return v[2][-1] if isinstance(v, tuple) and v and v[0] == "addr" and v[2] else None


@rule("C22.lookup", "C22", "a lookup starts as many queries as it waits for, waits for them and then returns what they produced")
def r_lookup(ctx):
    for f in ctx.fns(LOOKUP):
        ctx.ob(f.get("dem", f["q"]))
        T = ("arg", "this")
        cbs = {g["m"] for g in callback(ctx)}

        def cl(ev, seq):
            if ev.fn.endswith("::unhandled_exception") or ev.k == "throw":
                return ("exc",)
            if ev.k == "call" and ev.q == "std::make_unique" and len(ev.a) >= 3:
                return ("result", ev.a[0], ev.a[2], content(ev, ev.a[3]) if len(ev.a) > 3 else None)
            if ev.k == "call" and ev.q == RESULT + "::$ctor":
                return ("result", ev.a[0], ev.a[2], content(ev, ev.a[3]))
            if ev.k == "call" and ev.q == "coro::event::$ctor":
                return ("event", ev.a[0], ev.a[1])
            if ev.k == "call" and ev.q == "ares_getaddrinfo":
                return ("query", ev.a[0], ev.a[4], ev.a[5])
            if ev.k == "call" and ev.q == "coro::event::operator co_await":
                return ("wait", ev.a[-1])
            if ev.k == "call" and ev.q == "coro::event::awaiter::await_resume":
                return ("woken",)
            if ev.k == "call" and ev.q.endswith("::emplace") and ev.fn.endswith("::return_value"):
                return ("return", ev.a[1])

        def final(seq, ev):
            n = names(seq)
            if ev.q != "coroend" or "exc" in n:
                return
            r = [x for x in seq if x[0] == "result"]
            e = [x for x in seq if x[0] == "event"]
            q = [x for x in seq if x[0] == "query"]
            if len(r) != 1 or len(e) != 1:
                yield "the lookup has no result of its own with an event of its own"
                return
            if e[0][2] != ZERO:
                yield "the event of a lookup is set before any answer"
            if r[0][2] != e[0][1]:
                yield "the result wakes something other than this lookup"
            if r[0][3] != ("c", len(q)):
                yield "the lookup waits for another number of answers than it asks for"
            if not q:
                yield "nothing is asked"
            for x in q:
                if not (x[2][0] == "fn" and x[2][1] in cbs):
                    yield "the answer goes to something other than the answer callback"
                if x[3] == r[0][1] or contains(x[3], r[0][1]):
                    pass
                else:
                    yield "the answer is delivered to another lookup's result"
                if not (x[1][0] == "ld" and fld_(x[1][1]) == RES + "::m_ares_channel"):
                    yield "the query does not use the resolver's channel"
            if "wait" not in n or index(seq, "wait") < max(i for i, x in enumerate(n) if x == "query") or [x[1] for x in seq if x[0] == "wait"] != [e[0][1]]:
                yield "the lookup does not wait for its answers"
            if [x[1] for x in seq if x[0] == "return"] != [r[0][1]] or "woken" in n and index(seq, "return") < index(seq, "woken"):
                yield "the lookup does not return its result after it was woken"
        ctx.paths(f, cl, final, "lookup", cap=3, opaque=OPQ, throws=None)


def absent(p, pol):
    """does this branch establish that a table lookup found nothing (True), something (False), neither (None)"""
    if p[0] != "eq":
        return None
    a, b = p[1], p[2]
    if b[0] != "c":
        a, b = b, a
    if a[0] == "r" and b == ZERO:
        q = short(a[1])
        if q == "operator==" and any(isinstance(x, tuple) and x[0] == "r" and x[1].startswith("std::unordered_map::") for x in a[2]):
            return not pol
        if q == "operator==" and "_Node_iterator" in repr(a[2]):
            return not pol
        if q == "operator!=" and "_Node_iterator" in repr(a[2]):
            return pol
        if q in ("contains", "count", "operator bool", "__find_bool"):
            return pol
        if q == "operator!=":
            return pol
    if a[0] == "r" and b[0] == "r" and {short(a[1]), short(b[1])} == {"find", "end"}:
        return pol
    if a[0] == "ld" and a[1][0] == "addr" and a[1][2][-1:] == ("$ptr",) and b == ZERO:
        return pol
    if a[0] == "ld" and "second" in str(fld_(a[1])) and b == ZERO:
        return not pol
    return None


GONE = {}


def gone_marks(ctx):
    """member -> value with which the socket callback marks an entry that c-ares no longer wants watched"""
    out = {}
    for f in ctx.fns(STATE):
        rd, wr = ("arg", f["pn"][2]), ("arg", f["pn"][3])

        def cl(ev, seq):
            if ev.k == "atomic" and ev.q in ("store", "xchg") and fld_(ev.a[0]) and root_of(ev.a[0]) != ("arg", f["pn"][0]):
                return ("mark", fld_(ev.a[0]), ev.a[1])
            if ev.k == "br" and ev.x and (rd in ev.x[0] or wr in ev.x[0]):
                return ("$br", ev.x)

        def final(seq, ev):
            facts = dict(x[1] for x in seq if x[0] == "$br")
            if eq_fact(ctx.E, facts, rd, ZERO) is True and eq_fact(ctx.E, facts, wr, ZERO) is True:
                for x in seq:
                    if x[0] == "mark" and x[2][0] == "c":
                        out[x[1]] = x[2]
            return ()
        ctx.paths(f, cl, final, "marks", cap=4, opaque=OPQ, throws=None)
    return out


@rule("C22.sockets", "C22 C25", "a socket c-ares wants watched gets one poll task with the wanted operations; one it no longer wants is forgotten and its task told")
def r_sockets(ctx):
    E = ctx.E
    R, W = enum(ctx, "coro::poll_op", "read")[1], enum(ctx, "coro::poll_op", "write")[1]
    for f in ctx.fns(STATE):
        ctx.ob(f.get("dem", f["q"]))
        data, fd, rd, wr = (("arg", n) for n in f["pn"])

        def cl(ev, seq):
            if ev.k == "corocall" and ev.q == POLL:
                return ("task", ev.a[0], ev.a[1], ev.a[2])
            if ev.k == "call" and short(ev.q) in ("spawn_detached", "spawn_joinable") and ev.q.startswith("coro::"):
                return ("spawn", ev.a[1], ev.r)
            if ev.k == "call" and ev.q.startswith("std::unordered_map::") or ev.k == "call" and ev.q.startswith("std::map::"):
                k = short(ev.q)
                if k == "erase":
                    return ("erase",)
                if k in ("emplace", "insert", "try_emplace", "insert_or_assign", "operator[]"):
                    return ("entry", content(ev, ev.a[1]) if len(ev.a) > 1 else None)
            if ev.k == "call" and ev.q == "std::make_shared" and len(ev.a) > 1:
                return ("ops", content(ev, ev.a[1]))
            if ev.k == "atomic" and ev.q in ("store", "xchg") and root_of(ev.a[0]) != data:
                return ("mark", fld_(ev.a[0]), ev.a[1])
            if ev.k == "br" and ev.x:
                if rd in ev.x[0] or wr in ev.x[0]:
                    return ("$br", ev.x)
                a = absent(*ev.x)
                if a is not None:
                    return ("$absent", a)
                if any(isinstance(y, tuple) and y[0] == "r" and short(y[1]) == "spawn_detached" for y in ev.x[0][1:]):
                    return ("$noticed",)

        def final(seq, ev):
            if ev.q != "ret":
                return
            n = names(seq)
            facts = dict(x[1] for x in seq if x[0] == "$br")
            z = [eq_fact(E, facts, x, ZERO) for x in (rd, wr)]
            if None in z:
                yield "the wanted operations are not looked at"
                return
            absent_ = [x[1] for x in seq if x[0] == "$absent"]
            if z == [True, True]:
                if "task" in n or "spawn" in n:
                    yield "a socket that is no longer wanted is watched"
                if not (absent_ and absent_[-1]) and ("erase" not in n or "mark" not in n):
                    yield "a socket that is no longer wanted is not forgotten, or its poll task is not told"
                return
            want = ("c", (0 if z[0] else R) | (0 if z[1] else W))
            ops = [x[1] for x in seq if x[0] == "ops"] + [x[2] for x in seq if x[0] == "mark"]
            if "erase" in n:
                yield "a wanted socket is forgotten"
            if not absent_:
                yield "a poll task is started without checking that none watches the socket"
                return
            if absent_[-1]:
                if "entry" not in n:
                    yield "a wanted socket is not recorded"
                if n.count("task") != 1 or n.count("spawn") != 1:
                    yield "a newly wanted socket does not get exactly one poll task"
                for x in seq:
                    if x[0] == "task" and (x[2] != data or x[3] != fd):
                        yield "the poll task watches another socket"
                    if x[0] == "spawn" and not any(t[0] == "task" and t[1] == x[1] for t in seq):
                        yield "something other than the poll task is spawned"
                if "spawn" in n and "$noticed" not in n:
                    yield "a refused poll task goes unnoticed"
            elif "spawn" in n or "task" in n:
                yield "a socket gets a second poll task"
            if not ops or any(o != want for o in ops):
                yield "the operations polled for are not the ones wanted"
        ctx.paths(f, cl, final, "sockets", cap=4, opaque=OPQ, throws=None)


@rule("C22.poll", "C22", "a poll task hands every outcome to c-ares, fails what can no longer be polled, ends when the socket is given up and never uses a resolver that may be gone")
def r_poll(ctx):
    E = ctx.E
    gone = gone_marks(ctx)
    names_ = {n: ("c", v) for n, v in ctx.P.enums["coro::poll_status"]}
    if not gone:
        for f in ctx.fns(STATE):
            ctx.violate(f, f.get("loc"), "nothing tells the poll task that its socket was given up")
        return

    for f in ctx.fns(POLL):
        ctx.ob(f.get("dem", f["q"]))
        T, fd = ("arg", "this"), ("arg", f["pn"][0])

        class Mon(Monitor):
            # phase, awaited status facts, actions since the outcome, what the last look at the entry said (None: not looked)
            init = ("start", frozenset(), (), None, None)

            def fail(s, m, ev):
                raise Violation(m, ev)

            def step(s, st, ev):
                ph, br, acts, seen, res = st
                if ph == "exc":
                    return st
                if ev.fn.endswith("::unhandled_exception") or awaited_throw(ev) or ev.k == "throw":
                    return ("exc", frozenset(), (), None, None)
                if ev.k == "corocall" and ev.q == S + "::poll":
                    if ev.a[2] != fd:
                        s.fail("the poll task polls another descriptor", ev)
                    s.round(st, ev)
                    if seen is not False:
                        s.fail("the socket is polled without checking that it is still wanted", ev)
                    return ("polling", frozenset(), (), None, None)
                if ev.k == "await" and ph == "polling":
                    return ("polled", frozenset(), (), None, None)
                if ev.k == "br" and ev.x:
                    p, pol = ev.x
                    for a, b in ((p[1], p[2]), (p[2], p[1])):
                        if isinstance(a, tuple) and a[0] == "ld" and fld_(a[1]) in gone and b[0] == "c" and root_of(a[1]) != T:
                            g = (b == gone[fld_(a[1])]) == pol
                            if seen is True and not g:
                                return ("exc", frozenset(), (), None, None)     # a socket given up stays given up
                            return (ph, br, acts, g, res)
                    if ph == "polled" and p[0] in ("eq", "slt", "ult"):
                        for a in p[1:]:
                            if isinstance(a, tuple) and a[0] == "ld" and a[1][0] in ("addr",) and "promiseof" in repr(a) and not a[1][2][-1:] == ("m_continuation",):
                                if res is None or res == a:
                                    res = a
                                    br = br | {ev.x}
                    return (ph, br, acts, seen, res)
                touch = (ev.k in ("load", "store", "atomic") and isinstance(ev.a[0], tuple) and root_of(ev.a[0]) == T
                         or ev.k == "call" and any(isinstance(x, tuple) and root_of(x) == T for x in ev.a))
                if touch and ph == "polled":
                    if seen is None:
                        s.fail("the resolver is used after waiting without checking that it still exists", ev)
                    if seen is True:
                        s.fail("the resolver is used although the socket was given up", ev)
                if ev.k == "call" and ev.q == "ares_process_fd":
                    return (ph, br, (acts + (("process", ev.a[1], ev.a[2]),))[-3:], "stale", res)
                if ev.k == "call" and ev.q == "ares_cancel":
                    if seen == "stale":
                        s.fail("the queries are cancelled without checking that the resolver still wants the socket", ev)
                    return (ph, br, (acts + (("cancel",),))[-3:], "stale", res)
                if ev.k == "exit" and ev.q == "coroend":
                    s.round(st, ev)
                    if seen is not True:
                        s.fail("the poll task ends although its socket is still wanted", ev)
                return (ph, br, acts, seen, res)

            def round(s, st, ev):
                ph, br, acts, seen, res = st
                if ph == "polling":
                    s.fail("the outcome of a poll is not awaited", ev)
                if ph != "polled" or seen is True and not acts:
                    return
                facts = dict(br)
                poss = [n for n, v in names_.items() if res is None or eq_fact(E, facts, res, v) is not False]
                yes = [n for n, v in names_.items() if res is not None and eq_fact(E, facts, res, v) is True]
                poss = yes or poss
                rds = [a for a in acts if a[0] == "process"]
                for p in poss:
                    if p == "read" and not any(a[1] == fd for a in rds):
                        s.fail("readiness for reading is not handed to c-ares", ev)
                    if p == "write" and not any(a[2] == fd for a in rds):
                        s.fail("readiness for writing is not handed to c-ares", ev)
                    if p == "timeout" and not acts:
                        s.fail("a timeout is not handed to c-ares", ev)
                    if p in ("error", "closed", "cancelled") and ("cancel",) not in acts and not (rds and seen is True):
                        s.fail("queries waiting on a socket that cannot be polled any more are left waiting", ev)
        ctx.monitor(f, Mon(), opaque=OPQ, throws=None)


@rule("C22.library", "C22 C18", "the resolver library is initialised by the first and cleaned up by the last resolver of the process, also when a resolver cannot be made")
def r_library(ctx):
    E = ctx.E
    for f in subjects(ctx, ARESK, {RES}, 2):
        account(ctx, ARESK, f, throws=may_throw)
    users = [f for f in ctx.P.fns.values() if f["q"] in (RES + "::$ctor", RES + "::$dtor") and f.get("sm") in ("ctor", "dtor")]
    counters = set()
    for f in users:
        ctor = f.get("sm") == "ctor"
        ctx.ob("%s library count" % f.get("dem", f["q"]))

        def cl(ev, seq, held):
            if ev.k == "store" and ev.a[0][0] == "addr" and ev.a[0][1][0] == "glob" and ev.a[1][0] == "op" and ev.a[1][1] == "add" and ev.a[1][3][0] == "c":
                counters.add(ev.a[0][1][1])
                if not any(root_of(h) and root_of(h)[0] == "glob" or h[0] == "glob" for h in held):
                    return ("unlocked",)
                if any("{tu}" in str(h) for h in held):
                    counters.add("{tu}")
                return ("up" if ev.a[1][3][1] > 0 else "down", ev.a[1][2], ev.a[1])
            if ev.k == "atomic" and ev.q in ("add", "sub") and ev.a[0][0] == "addr" and ev.a[0][1][0] == "glob":
                counters.add(ev.a[0][1][1])
                return ("up" if ev.q == "add" else "down", ev.r, ev.r)
            if ev.k == "call" and ev.q in ("ares_library_init", "ares_library_cleanup", "ares_destroy", "ares_init_options"):
                if ev.q.startswith("ares_library") and not held:
                    return ("unlocked",)
                return (short(ev.q)[5:], ev.r)
            if ev.k == "br" and ev.x:
                return ("$br", ev.x) if any(isinstance(y, tuple) and y and (y[0] == "r" and str(y[1]).startswith("ares_") or contains_glob(y)) for y in ev.x[0][1:]) else None

        def final(seq, ev):
            if ev.q not in ("ret", "unwind"):
                return
            n = names(seq)
            facts = {**(ev.facts or {}), **dict(x[1] for x in seq if x[0] == "$br")}
            up, down = [x for x in seq if x[0] == "up"], [x for x in seq if x[0] == "down"]
            if "unlocked" in n:
                yield "the library's users are counted without the lock that orders initialisation and clean-up"
            want = (1 if ev.q == "ret" else 0) if ctor else -1
            if ctor and ev.q == "unwind" and not up and not down:
                if "library_init" in n and eq_fact(E, facts, [x[1] for x in seq if x[0] == "library_init"][0], ZERO) is True:
                    yield "an initialised library is not counted"
                return
            if len(up) - len(down) != want:
                yield "a resolver that exists is not counted once" if ctor and want else "the library stays in use after the resolver is gone"
                return
            for x in up:
                first = eq_fact(E, facts, x[1], ZERO)
                if first is None:
                    yield "it is not checked whether the library is already initialised"
                elif first != ("library_init" in n):
                    yield "the library is not initialised by the first resolver" if first else "the library is initialised again"
                if "library_init" in n and eq_fact(E, facts, [y[1] for y in seq if y[0] == "library_init"][0], ZERO) is not True:
                    yield "a library that failed to initialise is counted as in use"
            for x in down:
                z = eq_fact(E, facts, x[2], ZERO)
                if z is None and x[1] == x[2]:
                    z = eq_fact(E, facts, x[1], ONE)
                if z is None and not up:
                    yield "it is not checked whether this was the last resolver"
                elif z is not None and z != ("library_cleanup" in n) and not (up and z):
                    yield "the last resolver does not clean up the library" if z else "the library is cleaned up while resolvers exist"
            if not ctor and "destroy" in n and "library_cleanup" in n and index(seq, "library_cleanup") < index(seq, "destroy"):
                yield "the channel is destroyed after the library was cleaned up"
        ctx.paths(f, cl, final, "library use", cap=5, throws=may_throw)
    for f in users:
        if any("{tu}" in c for c in counters) and str(f.get("loc", ("",))[0]).startswith("include"):
            ctx.violate(f, f.get("loc"), "every translation unit counts its own resolvers")
    if not counters:
        raise AnalysisError("nothing counts the resolvers")


def contains_glob(v):
    if not isinstance(v, tuple):
        return False
    if v and v[0] == "glob":
        return True
    return any(contains_glob(x) for x in v if isinstance(x, tuple))

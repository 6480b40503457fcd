#!/usr/bin/env python3
"""check.py <property>: analyses /repo's current source and decides the rules of one property.

exit 0: every obligation holds (or only listed findings remain); exit 1: VIOLATION line; exit 2: the analysis could not be done.
"""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts                                                  # noqa: E402
from facts import AnalysisError, VERIF                        # noqa: E402
from rules import base                                        # noqa: E402
import rules                                                  # noqa: E402,F401
import importlib                                              # noqa: E402
import pkgutil                                                # noqa: E402

for m in sorted(x.name for x in pkgutil.iter_modules([os.path.join(os.path.dirname(os.path.abspath(__file__)), "rules")])):
    importlib.import_module("rules." + m)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p)):
            if k.get("status") == "open" and prop in k["property"].split():
                out.append(k)
    return out


def run(prop, P, tier):
    ctx = base.Ctx(P, tier)
    mine = [r for r in base.RULES if prop in r[1] or prop == "all"]
    if not mine:
        raise AnalysisError("no rules for " + prop)
    stats = []
    for name, props, title, f in mine:
        ctx.rulename, ctx.title = name, title
        t = time.time()
        o, v = len(ctx.obl), len(ctx.viol)
        f(ctx)
        if len(ctx.obl) == o:
            raise AnalysisError("rule %s matched nothing" % name)
        stats.append({"rule": name, "text": title, "obligations": len(ctx.obl) - o, "violations": len(ctx.viol) - v, "seconds": round(time.time() - t, 2)})
    return ctx, stats


def match(kf, v):
    return kf["rule"] == v["rule"] and kf["function"] == v["fn"] and v["msg"].startswith(kf["message"])


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        P = facts.extract()
        ctx, stats = run(prop, P, tier)
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal error" % prop)
        return 2
    kfs = known_findings(prop)
    new, old = [], []
    for v in ctx.viol:
        k = next((k for k in kfs if match(k, v)), None)
        (old if k else new).append((v, k))
    evd = os.environ.get("SA_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    wall = time.time() - t0
    obls = [s for _, s in ctx.obl]
    badrules = {v["rule"] for v, _ in new}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis of the current source: every listed obligation was decided by the rule named, over all paths of the "
                           "functions analysed (control flow, unwinding edges and branch facts taken from the compiler's resolved program).",
            "translation_units": len(P.units),
            "functions_extracted": len(P.fns),
            "functions_analysed": len(ctx.funcs),
            "path_states": ctx.nodes,
            "path_edges": ctx.edges,
            "rules": stats,
            "obligations": len(obls),
            "obligation_list": ["%s | %s" % x for x in ctx.obl],
            "known_findings": ["%s | %s:%s | %s" % (v["fn"], v["loc"][0] if v["loc"] else "?", v["loc"][1] if v["loc"] else "?", v["msg"]) for v, _ in old],
        },
        "assumptions": ["clang 18 front end and its unoptimised IR describe the source", "C++20 coroutine protocol and the standard library behave as specified",
                        "class templates are analysed at the instantiations listed in /verif/driver and src"],
        "wall_s": round(wall, 2), "violations": len(new),
    }
    with open(os.path.join(evd, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v, k in old:
        print("KNOWN-FINDING: property=%s %s:%s %s: %s" % (prop, v["loc"][0] if v["loc"] else "?", v["loc"][1] if v["loc"] else "?", v["fn"], v["msg"]))
    print("property=%s rules=%d obligations=%d functions=%d states=%d violations=%d known=%d wall=%.1fs" % (
        prop, len(stats), len(obls), len(ctx.funcs), ctx.nodes, len(new), len(old), wall))
    if new:
        rp = os.path.join(evd, prop + ".violations.txt")
        with open(rp, "w") as f:
            for v, _ in new:
                f.write("[%s] %s\n  in %s\n  at %s\n  %s\n  path:\n" % (v["rule"], v["title"], v["fn"], "%s:%s" % tuple(v["loc"]) if v["loc"] else "?", v["msg"]))
                for s in v["trace"]:
                    f.write("    %s\n" % s)
        for v, _ in new[:20]:
            print("  [%s] %s at %s: %s" % (v["rule"], v["fn"], "%s:%s" % tuple(v["loc"]) if v["loc"] else "?", v["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())

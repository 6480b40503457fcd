#!/usr/bin/env python3
"""mut.py [filter]: runs the checks against small edited copies of /repo (selftest/*.py lists them) and prints which were reported.

Each entry: (name, properties, [(file, old text, new text)], expected) with expected 'bad' (must be reported) or 'ok' (must stay quiet).
"""
import glob, importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
flt = sys.argv[1:]
jobs = []
for p in sorted(glob.glob(V + "/selftest/*.py")):
    spec = importlib.util.spec_from_file_location("m", p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    jobs += [j for j in m.MUTANTS if not flt or any(f in j[0] or f in j[1].split() or f == os.path.basename(p) for f in flt)]


def one(job):
    name, prop, edits, expect = job
    d = tempfile.mkdtemp(prefix="mut.")
    try:
        for s in ("include", "src"):
            shutil.copytree("/repo/" + s, d + "/" + s)
        for file, old, new in edits:
            t = open(d + "/" + file).read()
            if t.count(old) < 1:
                return False, "STALE %s: text not found in %s" % (name, file)
            open(d + "/" + file, "w").write(t.replace(old, new, 1))
        env = dict(os.environ, SA_REPO=d, SA_CACHE="", SA_EVIDENCE=d)
        res = []
        for pr in prop.split():
            r = subprocess.run([sys.executable, V + "/sa/check.py", pr], capture_output=True, text=True, env=env)
            res.append((pr, r.returncode, r.stdout))
        hit = any(c == 1 for _, c, _ in res)
        err = any(c not in (0, 1) for _, c, _ in res)
        good = (hit if expect == "bad" else not hit) and not (err and expect == "ok") and not (err and not hit)
        out = ("ok    " if good else "WRONG ") + name + " " + str([(pr, c) for pr, c, _ in res])
        if not good or os.environ.get("MUTFLAGS"):
            for _, c, o in res:
                out += "\n        " + o.strip().replace("\n", "\n        ")[:1200]
        return good, out
    finally:
        shutil.rmtree(d)


bad = 0
with ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
    for good, out in ex.map(one, jobs):
        bad += not good
        print(out, flush=True)
print("%d run, %d wrong" % (len(jobs), bad))

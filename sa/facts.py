"""Runs the fact extractor over /repo's sources and the instantiation drivers and loads the merged program."""
import glob, hashlib, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")


class AnalysisError(Exception):
    """The analysis could not be carried out (neither held nor violated)."""


def flags(repo):
    return ["-std=c++20", "-w", "-DLIBCORO_FEATURE_NETWORKING", "-DLIBCORO_FEATURE_TLS", "-I" + VERIF + "/driver/stub",
            "-I" + repo + "/include", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-O0"]


def sources(repo):
    src = sorted(glob.glob(repo + "/src/**/*.cpp", recursive=True))
    src = [s for s in src if "kqueue" not in os.path.basename(s)]
    return src + sorted(glob.glob(VERIF + "/driver/*.cpp"))


class Program:
    def __init__(self):
        self.fns = {}      # mangled -> function record
        self.names = {}    # mangled -> callee description
        self.recs = {}     # type string -> record
        self.enums = {}    # qualified -> [(name, value)]
        self.texts = {}    # variable with static storage -> the literal it is made from
        self.byq = {}      # qualified bare name -> [function]
        self.units = []
        self.alias = {}

    def body(self, name):
        """the function a symbol refers to; complete-object constructors and destructors may be aliases of the base ones"""
        if not name:
            return None
        f = self.fns.get(name)
        if f is None:
            if name not in self.alias:
                r = None
                for a, b in (("D1Ev", "D2Ev"), ("D2Ev", "D1Ev"), ("C1E", "C2E"), ("C2E", "C1E")):
                    k = name.rfind(a)
                    if k >= 0:
                        c = self.fns.get(name[:k] + b + name[k + len(a):])
                        if c is not None and c["q"] == self.names.get(name, {}).get("q", c["q"]):
                            r = c
                            break
                self.alias[name] = r
            f = self.alias[name]
        return f

    def rel(self, p):
        p = os.path.normpath(p)
        if p.startswith(self.repo + "/"):
            return p[len(self.repo) + 1:]
        return p

    def fn(self, q, pred=None):
        c = self.byq.get(q, [])
        if pred:
            c = [f for f in c if pred(f)]
        return c


def extract(repo=REPO):
    if not os.environ.get("SA_CACHE"):
        return extract1(repo)
    # development only: reuse the facts of an identical tree
    import pickle
    h = hashlib.sha256()
    for p in sorted(glob.glob(repo + "/src/**/*", recursive=True) + glob.glob(repo + "/include/**/*", recursive=True) +
                    glob.glob(VERIF + "/driver/**/*", recursive=True) + [VERIF + "/factgen/factgen.cpp", VERIF + "/sa/facts.py"]):
        if os.path.isfile(p):
            h.update(p.encode() + b"\0" + open(p, "rb").read())
    c = "/tmp/sacache/" + h.hexdigest()
    if os.path.exists(c):
        return pickle.load(open(c, "rb"))
    P = extract1(repo)
    os.makedirs("/tmp/sacache", exist_ok=True)
    pickle.dump(P, open(c, "wb"))
    return P


def extract1(repo):
    tool = VERIF + "/build/factgen"
    r = subprocess.run([VERIF + "/setup.sh"], capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(tool):
        raise AnalysisError("cannot build the fact extractor:\n" + r.stderr[-2000:])
    out = tempfile.mkdtemp(prefix="safacts.")
    try:
        srcs = sources(repo)

        def one(k):
            o = os.path.join(out, "%d.json" % k)
            p = subprocess.run([tool, o, srcs[k], "--"] + flags(repo), capture_output=True, text=True, cwd="/")
            if p.returncode != 0 or not os.path.exists(o):
                return (srcs[k], p.stderr[-3000:], None)
            with open(o) as f:
                return (srcs[k], None, json.load(f))
        srcs.sort(key=lambda s: -os.path.getsize(s) - (10 ** 9 if "/driver/" in s else 0))
        with ThreadPoolExecutor(max_workers=8) as ex:
            res = list(ex.map(one, range(len(srcs))))
    finally:
        shutil.rmtree(out, ignore_errors=True)
    P = Program()
    P.repo = os.path.normpath(repo)
    for src, err, d in res:
        if d is None:
            raise AnalysisError("front end failed on %s:\n%s" % (src, err))
        P.units.append(P.rel(src))
        files = [P.rel(f) for f in d["files"]]
        P.names.update({k: v for k, v in d["names"].items() if k not in P.names or len(v) > len(P.names[k])})
        for r in d["recs"]:
            P.recs.setdefault(r["ty"], r)
            if "loc" in r:
                r["loc"] = (P.rel(r["loc"][0]), r["loc"][1])
        P.texts.update(d.get("texts", {}))
        for e in d["enums"]:
            P.enums.setdefault(e["q"], e["v"])
        for f in d["fns"]:
            key = f["m"]
            if key in P.fns:
                continue
            for b in f["blocks"]:
                for i in b:
                    if "l" in i:
                        i["l"] = (files[i["l"][0]] if i["l"][0] < len(files) else "?", i["l"][1])
            if "loc" in f:
                f["loc"] = (files[f["loc"][0]], f["loc"][1])
            P.fns[key] = f
            P.byq.setdefault(f["q"], []).append(f)
    return P


if __name__ == "__main__":
    import time, collections
    t = time.time()
    P = extract()
    print("units", len(P.units), "functions", len(P.fns), "records", len(P.recs), "time %.1f" % (time.time() - t))
    if len(sys.argv) > 1:
        for q in sorted(P.byq):
            if q.startswith("coro") and sys.argv[1] in q:
                print(q, len(P.byq[q]), [x.get("pt") for x in P.byq[q]][:2])

"""helper used while writing /verif/seeded: mk(id, property, [(file, old, new)], demo source, needs, breaks, flags)"""
import os, subprocess, json, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# run in the repository after its build; builds the program beside this script against the library and runs it
H="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
W="$(mktemp -d)"; trap 'rm -rf "$W"' EXIT
LIB="$(find "$R" -name libcoro.a -not -path '*/Testing/*' 2>/dev/null | head -1)"
[ -n "$LIB" ] || { echo "no libcoro.a"; exit 3; }
INC=""; for g in $(find "$(dirname "$LIB")" -path '*coro/export.hpp' 2>/dev/null); do INC="$INC -I$(dirname "$(dirname "$g")")"; done
g++ -w -g -O1 -std=c++20 -DLIBCORO_FEATURE_NETWORKING -DLIBCORO_FEATURE_TLS @FLAGS@ -I"$R/include" $INC "$H/demo.cpp" @SRC@ -o "$W/demo" "$LIB" -lssl -lcrypto -lcares -lpthread || exit 3
cd "$W" && timeout -k 5 @T@ ./demo
'''
def mk(i, prop, edits, demo, needs, breaks, flags="", timeout=60, src=""):
    d = os.path.join(V, "seeded", i); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed"); subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
    try:
        subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % (w, w), shell=True)
        for f, o, n in edits:
            p = os.path.join(w, f); s = open(p).read()
            assert s.count(o) == 1, (i, f, s.count(o), o)
            open(p, "w").write(s.replace(o, n))
        out = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    finally: shutil.rmtree(w)
    open(os.path.join(d, "patch.diff"), "w").write(out)
    open(os.path.join(d, "demo.cpp"), "w").write(demo)
    p = os.path.join(d, "demo.sh")
    open(p, "w").write(DEMO.replace("@FLAGS@", flags).replace("@T@", str(timeout)).replace("@SRC@", src)); os.chmod(p, 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)

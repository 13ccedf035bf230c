#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/*.py (development aid; no check reads seeded/).

A seed: (id, property, edits [(file, old, new)...], engine/fut sources the demo needs, extra flags, demo.cpp, needs, breaks).
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# Exit 0 on the unchanged tree, nonzero with the change. Run with cwd /repo after the build.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
%s
"""
BUILD = """g++ -std=gnu++17 -w -O1 -g -pthread %(flags)s -Isrc/include -I_build/include/falcon -I_build/include/falcon/falcon -Isrc/include/falcon "$here/demo.cpp" %(src)s -o "$t/demo" || exit 8
cd "$t" && timeout 120 ./demo %(args)s
r=$?
[ $r -eq 0 ] && echo "demo: the property holds" || echo "demo: BROKEN (status $r)"
exit $r"""
SRC = {"futex": "src/engine/futex.cpp", "code": "src/engine/code.cpp", "compiler": "src/engine/compiler.cpp", "item": "src/engine/handlerfactory.cpp", "logsystem": "src/engine/logsystem.cpp",
       "logstream": "src/engine/logstream.cpp", "logger": "src/engine/logger.cpp", "fut": "src/fut/testcase.cpp src/fut/unittest.cpp -x c++ src/fut/marktime-unix.c++ -x none"}


def load():
    out = []
    for f in sorted(glob.glob(H + "/tools/seeds/*.py")):
        spec = importlib.util.spec_from_file_location("seeds_" + os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        out += m.SEEDS
    return out


def write(s):
    d = H + "/seeded/" + s["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
        for f, a, b in s["edits"]:
            p = w + "/r/src/" + f
            t = open(p).read()
            n = s.get("nth", {}).get(a, 1)
            if t.count(a) < 1:
                sys.exit("%s: not found in %s: %s" % (s["id"], f, a))
            if t.count(a) > 1 and a not in s.get("nth", {}):
                sys.exit("%s: ambiguous in %s: %s" % (s["id"], f, a))
            i = -1
            for _ in range(n):
                i = t.index(a, i + 1)
            open(p, "w").write(t[:i] + b + t[i + len(a):])
        diff = subprocess.run(["git", "-C", w + "/r", "diff"], stdout=subprocess.PIPE, check=True).stdout
    finally:
        shutil.rmtree(w)
    open(d + "/patch.diff", "wb").write(diff)
    if "demo" in s:
        open(d + "/demo.cpp", "w").write(s["demo"])
    for n, t in s.get("files", {}).items():
        open(d + "/" + n, "w").write(t)
    body = s.get("script") or BUILD % {"flags": s.get("flags", ""), "src": " ".join(SRC[x] for x in s.get("src", [])), "args": s.get("args", "")}
    open(d + "/demo.sh", "w").write(DEMO % body)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)


if __name__ == "__main__":
    for s in load():
        if len(sys.argv) < 2 or s["id"] in sys.argv[1:]:
            write(s)
            print("wrote", s["id"])

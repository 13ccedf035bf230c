#!/usr/bin/env python3
"""mut.py CID[,CID] FILE OLD NEW [...]: runs checks against a scratch copy of /repo with OLD replaced by NEW (development aid)."""
import os, shutil, subprocess, sys, tempfile
ids, rest = sys.argv[1].split(","), sys.argv[2:]
d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
try:
    subprocess.check_call(["cp", "-a", "/repo/src", d + "/src"])
    while rest:
        f, a, b = rest[0], rest[1], rest[2]
        rest = rest[3:]
        p = d + "/src/" + f
        s = open(p).read()
        if a not in s:
            print("NOT FOUND:", a); sys.exit(3)
        open(p, "w").write(s.replace(a, b, 1))
    for i in ids:
        r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "run.py"), i, "--shrink", "6"], env=dict(os.environ, VERIF_REPO=d, VERIF_OUT=d + "/out"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = r.stdout.strip().split("\n")
        fl = [l for l in out if l.startswith("failed:")]
        print(i, "rc", r.returncode, (fl or out[-1:])[0][:250], "|", [l for l in out if "note:" in l or "unconfirmed" in l and "unconfirmed 0" not in l][:2])
finally:
    shutil.rmtree(d)

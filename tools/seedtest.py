#!/usr/bin/env python3
"""seedtest.py [--valid] [--check] [ids]: validates seeds in /repo (build, stable tests, demo both ways) and/or runs their property's check against a patched copy."""
import glob, json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if a[0] != "-"] or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(H + "/seeded/*/meta.json"))
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("passed", [])))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def demo(d):
    t = tempfile.mkdtemp(prefix="demo", dir="/tmp")
    shutil.copytree(d, t + "/d", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = sh([t + "/d/demo.sh"], cwd="/repo", timeout=300)
    shutil.rmtree(t)
    return r.returncode, r.stdout.strip().split("\n")[-1][:120]


for i in ids:
    d = H + "/seeded/" + i
    meta = json.load(open(d + "/meta.json"))
    if "--valid" in sys.argv:
        assert not sh("git -C /repo status --porcelain").stdout.strip()
        sh("bash /opt/vp/build.sh")
        clean = demo(d)
        a = sh("git -C /repo apply " + d + "/patch.diff")
        try:
            assert a.returncode == 0, a.stdout
            b = sh("bash /opt/vp/build.sh")
            res = "does not build" + b.stdout[-800:]
            if b.returncode == 0:
                sh("bash /opt/vp/test.sh /tmp/o.json")
                passed = set(json.load(open("/tmp/o.json"))["passed"])
                res = "tests fail: %s" % sorted(BASE - passed)[:4] if BASE - passed else "ok"
            bad = demo(d)
        finally:
            sh("git -C /repo checkout -- .")
        good = clean[0] == 0 and bad[0] != 0 and res == "ok"
        print("%-28s %s %s | clean %s | patched %s | %s" % (i, meta["property"], "VALID" if good else "INVALID", clean, bad, res), flush=True)
    if "--check" in sys.argv:
        w = tempfile.mkdtemp(prefix="mut", dir="/tmp")
        try:
            sh(["cp", "-a", "/repo/src", w + "/src"])
            a = sh(["git", "apply", "--directory=" + w.lstrip("/"), "--unsafe-paths", d + "/patch.diff"], cwd="/")
            a = a if a.returncode == 0 else sh("patch -p1 -d %s < %s/patch.diff" % (w, d))
            assert a.returncode == 0, a.stdout
            r = sh([sys.executable, H + "/run.py", meta["property"], "--shrink", "10"], env=dict(os.environ, VERIF_REPO=w, VERIF_OUT=w + "/out"))
            fl = [l for l in r.stdout.split("\n") if l.startswith(("failed:", "error"))]
            print("%-28s %s %s | %s" % (i, meta["property"], "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + meta["property"] in r.stdout else "MISSED rc %d" % r.returncode, (fl or [r.stdout.strip().split("\n")[0]])[0][:200]), flush=True)
        finally:
            shutil.rmtree(w)
sh("bash /opt/vp/build.sh") if "--valid" in sys.argv else None

#!/usr/bin/env python3
"""Runs the check of one property:  run.py <id> [--replay FILE] [--scale X] [--arm NAME] [--loud]

Builds the property's harness(es) from /repo's working tree, runs the generated-input search, prints VIOLATION /
KNOWN-FINDING lines, writes evidence/<id>.json. Exit 0: held on everything explored, 1: violation, 2: error of the check.
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", HERE)     # where builds, replays and evidence go
sys.path.insert(0, HERE)
CXX = "clang++"
JOBS = 8

ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr"]
TSAN = ["-fsanitize=thread"]
BASE = ["-std=gnu++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-pthread", "-w", "-fno-color-diagnostics"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def make_config(inc):
    """The config.h of the build, from config.h.in with a fixed host configuration."""
    os.makedirs(inc + "/falcon", exist_ok=True)
    src = open(REPO + "/src/include/falcon/config.h.in", errors="replace").read()
    on = {"FALCON_SYSTEM_UNIX", "FALCON_TRACE_GC"}
    vals = {"FALCON_VERSION_MAJOR": "0", "FALCON_VERSION_MINOR": "1", "FALCON_VERSION_REVISION": "0", "FALCON_VERSION_PATCH": "0",
            "FALCON_VERSION_BUILD_ID": "0", "FALCON_VERSION_RC": "0", "FALCON_LITTLE_ENDIAN": "1", "CMAKE_INSTALL_PREFIX": "/usr/local",
            "FALCON_BIN_DIR": "bin", "FALCON_LIB_DIR": "lib", "FALCON_MOD_DIR": "lib/falcon", "FALCON_HOST_SYSTEM": "UNIX"}
    src = re.sub(r"#cmakedefine01\s+(\w+)", lambda m: "#define %s %d" % (m[1], m[1] in on), src)
    src = re.sub(r"#cmakedefine\s+(\w+)(.*)", lambda m: ("#define %s%s" % (m[1], m[2])) if m[1] in on else "/* #undef %s */" % m[1], src)
    src = re.sub(r"@(\w+)@", lambda m: vals.get(m[1], "0"), src)
    open(inc + "/falcon/config.h", "w").write(src)


ENGINE_FILES = {"code.cpp", "compiler.cpp", "futex.cpp", "handlerfactory.cpp", "logger.cpp", "logstream.cpp", "logsystem.cpp"}


def pick_engine(names):
    """The named engine sources, and any the tree has grown (code may move to a new file)."""
    return [s for s in engine_sources() if not names or os.path.basename(s) in names or os.path.basename(s) not in ENGINE_FILES]


def engine_sources():
    return sorted(glob.glob(REPO + "/src/engine/*.cpp"))


def fut_sources():
    fs = glob.glob(REPO + "/src/fut/*.cpp") + glob.glob(REPO + "/src/fut/*.c++")
    return sorted(f for f in fs if not f.endswith(("fut_main.cpp", "marktime-win.c++")))


class BuildError(Exception):
    def __init__(self, log, where):
        self.log, self.where = log, where


def compile_all(jobs, cxx=CXX):
    """jobs: list of (src, obj, flags). Raises BuildError with the first failing log."""
    def one(j):
        src, obj, flags = j
        lang = ["-x", "c++"] if src.endswith((".c++",)) else []
        r = sh([cxx, *flags, *lang, "-c", src, "-o", obj], timeout=600)
        return src, r.returncode, r.stdout
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for src, rc, log in ex.map(one, jobs):
            if rc:
                raise BuildError(log, src)


def build(prop, flavor, dest):
    os.makedirs(dest, exist_ok=True)
    inc = dest + "/include"
    make_config(inc)
    san = {"asan": ASAN, "tsan": TSAN, "none": []}[flavor.get("san", "asan")]
    flags = BASE + san + ["-I" + HERE + "/harness/common", "-I" + HERE + "/harness", "-I" + REPO + "/src/include", "-I" + inc, "-I" + inc + "/falcon",
                          "-I" + REPO + "/src/include/falcon", "-I" + REPO + "/src"] + flavor.get("flags", [])
    jobs = []
    for s in flavor["src"]:  # "file.cpp@N": compiled with -DPART=N, to spread one harness over several units
        name, _, part = s.partition("@")
        jobs.append((HERE + "/harness/" + name, "%s/h_%s_%s.o" % (dest, name, part), 
                     flavor.get("src_flags", {}).get(name, lambda f: f)(flags) + (["-DPART=" + part] + flavor.get("part_flags", {}).get(part, []) if part else [])))
    objs = [j[1] for j in jobs]
    lib = []
    if "engine" in flavor.get("libs", []):
        lib += pick_engine(flavor.get("engine_only"))
    if flavor.get("unity"):
        # sources compiled inside the harness's own unit (with names of the standard library replaced)
        os.makedirs(inc, exist_ok=True)
        have = {os.path.basename(s): s for s in pick_engine(flavor["unity"])}
        order = [n for n in flavor["unity"] if n in have] + sorted(n for n in have if n not in flavor["unity"])
        open(inc + "/engine_unity.hpp", "w").write("".join('#include "%s"\n' % have[n] for n in order))
    if "fut" in flavor.get("libs", []):
        lib += fut_sources()
    # lib_parts: the libraries compiled once per part, with that part's flags
    ljobs = [(s, "%s/l_%s_%s.o" % (dest, os.path.basename(s), part), flags + flavor.get("part_flags", {}).get(part, [])) for s in lib for part in flavor.get("lib_parts", [""])]
    objs += [j[1] for j in ljobs]
    try:
        compile_all(jobs + ljobs)
        exe = dest + "/check"
        r = sh([CXX, *flags, *objs, "-o", exe, *flavor.get("ldflags", [])], timeout=600)
        if r.returncode:
            raise BuildError(r.stdout, "link")
    except BuildError as e:
        raise e
    return exe


def repo_compiles(tmp):
    """Whether /repo's own library sources compile: tells a broken tree from a broken contract."""
    os.makedirs(tmp, exist_ok=True)
    make_config(tmp + "/include")
    flags = BASE + ["-fsyntax-only", "-I" + REPO + "/src/include", "-I" + tmp + "/include", "-I" + tmp + "/include/falcon"]
    def one(s):
        return sh([CXX, *flags, "-x", "c++", s], timeout=300).returncode
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        return not any(ex.map(one, engine_sources() + fut_sources() + sorted(glob.glob(REPO + "/src/test/*/*.cpp"))))


def known_findings(prop):
    out = {}
    try:
        for line in open(HERE + "/KNOWN_FINDINGS.txt"):
            m = re.match(r"finding:\s+property=(\w+)\s+id=(\S+)\s+(.*)", line)
            if m and m[1] == prop:
                out[m[2]] = m[3].strip()
    except OSError:
        pass
    return out


def write_evidence(prop, ev):
    os.makedirs(OUT + "/evidence", exist_ok=True)
    tmp = OUT + "/evidence/.%s.tmp" % prop
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, OUT + "/evidence/%s.json" % prop)


def main():
    from checks import CHECKS
    args = sys.argv[1:]
    prop = args[0]
    opts = {}
    i = 1
    while i < len(args):
        if args[i] in ("--replay", "--scale", "--arm", "--workers", "--flavor", "--shrink"):
            opts[args[i][2:]] = args[i + 1]
            i += 2
        else:
            opts[args[i][2:]] = True
            i += 1
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    spec = CHECKS[prop]
    if "custom" in spec:
        import importlib
        sys.exit(importlib.import_module(spec["custom"]).main(prop, spec, seed, tier, opts))
    t0 = time.time()
    root = OUT + "/.build/" + prop
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    os.makedirs(OUT + "/replays", exist_ok=True)
    known = known_findings(prop)
    flavors = [f for f in spec["flavors"] if opts.get("flavor") in (None, f["name"]) and tier in f.get("tiers", ("quick", "thorough"))]
    results, violation = [], None
    notes = []

    def build_one(f):
        tb = time.time()
        try:
            return build(prop, f, root + "/" + f["name"]), None, time.time() - tb
        except BuildError as e:
            return None, e, time.time() - tb
    with concurrent.futures.ThreadPoolExecutor(len(flavors) or 1) as ex:
        built = list(ex.map(build_one, flavors))
    for f, (exe, e, build_s) in zip(flavors, built):
        dest = root + "/" + f["name"]
        if e:
            if f.get("optional"):
                notes.append("flavor %s does not build against this tree and was skipped: %s" % (f["name"], e.log[:300]))
                continue
            if not repo_compiles(root + "/syn"):
                print(e.log[-4000:])
                print("error: /repo does not compile", file=sys.stderr)
                sys.exit(2)
            path = OUT + "/replays/%s-build.log" % prop
            open(path, "w").write("The program below uses the public interface the property is about and no longer compiles or links\n"
                                  "although /repo itself does. Unit: %s\n\n%s" % (e.where, e.log))
            violation = {"flavor": f["name"], "message": "a program using the public interface does not compile or link: " + next((l for l in e.log.split("\n") if "error:" in l or "multiple definition" in l or "undefined" in l), e.log.strip().split("\n")[0])[:300], "path": path}
            break
        known_arg = ",".join(known) or "-"
        out = dest + "/result.json"
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16:" + f.get("asan_options", "")
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
        env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0:die_after_fork=0:second_deadlock_stack=1:" + f.get("tsan_options", "")
        env.update(f.get("env", {}))
        cmd = [exe, "--seed", str(seed), "--tier", tier, "--out", out, "--dir", dest, "--known", known_arg]
        cmd += ["--workers", str(opts.get("workers", f.get("workers", 8)))]
        cmd += ["--budget", str(f.get("budget", {}).get(tier, 240 if tier == "quick" else 600))]
        for k in ("scale", "arm", "shrink"):
            if k in opts:
                cmd += ["--" + k, str(opts[k])]
        if f.get("arms") and "arm" not in opts:
            cmd += ["--arm", f["arms"][0]]
        if "loud" in opts:
            cmd.append("--loud")
        if "replay" in opts:
            env["ASAN_OPTIONS"] += ":symbolize=1"
            r = subprocess.run([exe, "--dir", dest, "--known", known_arg, "--replay", opts["replay"]], env=env)
            if r.returncode != 2:
                sys.exit(r.returncode)
            continue
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=3600)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            sys.stdout.write(r.stdout.decode(errors="replace")[-4000:])
            print("error: harness exited %d" % r.returncode, file=sys.stderr)
            sys.exit(2)
        res = json.load(open(out))
        res["flavor"], res["build_s"] = f["name"], round(build_s, 1)
        results.append(res)
        if res["violation"]:
            path = OUT + "/replays/%s-%s-%s.replay" % (prop, f["name"], res["arm"])
            with open(path, "w") as o:
                o.write("property %s\nflavor %s\narm %s\nchoices %s\n\nmessage: %s\n\ntrace of the shrunk case:\n%s\n\n%s\nreplay with: python3 run.py %s --flavor %s --replay %s\n"
                        % (prop, f["name"], res["arm"], " ".join(map(str, res["choices"])), res["message"], res["trace"], res["stderr"], prop, f["name"], path))
            violation = {"flavor": f["name"], "message": res["message"], "path": path, "trace": res["trace"], "stderr": res["stderr"]}
            break
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
          "coverage": {
              "evaluations": sum(r["evaluations"] for r in results),
              "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results),
              "rule": spec["rule"],
              "samples": [{"flavor": r["flavor"], **s} for r in results for s in r["samples"]][:10],
              "planned": sum(r["planned"] for r in results),
              "flavors": [{k: r[k] for k in ("flavor", "evaluations", "nontrivial", "distinct_nontrivial", "discarded", "unconfirmed", "unconfirmed_example", "known_hits", "labels", "wall_s", "build_s")} for r in results],
              "notes": notes},
          "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0}
    write_evidence(prop, ev)
    hit = set(k for r in results for k in r["known_ids"])
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, known.get(k, "")))
    if "keep" not in opts:
        shutil.rmtree(root, ignore_errors=True)
    if violation:
        print("failed: " + violation["message"])
        if violation.get("trace"):
            print(violation["trace"][-3000:])
        print("VIOLATION property=%s replay=%s" % (prop, violation["path"]))
        sys.exit(1)
    c = ev["coverage"]
    print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (prop, c["evaluations"], c["distinct_nontrivial"], ev["wall_s"]))
    for r in results:
        print("  %s: %d/%d cases %.1fs (build %.1fs) unconfirmed %d labels %s" % (r["flavor"], r["evaluations"], r["planned"], r["wall_s"], r["build_s"], r["unconfirmed"], json.dumps(r["labels"])))
    for n in notes:
        print("  note: " + n)
    sys.exit(0)


if __name__ == "__main__":
    main()

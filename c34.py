"""C34: public headers compose in any order in any number of source files.

Generates programs: a few source files, each of which includes a random sequence of public headers (the standard library's in
between, repetitions included) and uses what they offer; compiles them, links them with the library and runs the result, which
also compares what the files see of shared objects. A failing program is shrunk by dropping files, headers and uses.
"""
import concurrent.futures, itertools, json, os, random, shutil, subprocess, sys, threading, time
import run

E, F = "falcon/engine/", "falcon/fut/"
# (globals, statements); a statement fails by FAILED("why"), and SAME("key", pointer) must agree between the files.
USES = {
    "falcon/types.h": [("", "falcon::int64 v = -1; falcon::uint32 u = 7; falcon::String t = \"x\"; falcon::byte b = 200; if(v + u != 6 || t.size() != 1 || b != 200 || sizeof(falcon::int64) != 8) FAILED(\"types\");")],
    "falcon/setup.h": [("", "falcon::int32 v = 3; if(v != 3) FAILED(\"setup\");"), ("struct FALCON_API_ Visible { int n; };", "Visible v{2}; if(v.n != 2) FAILED(\"visible\");")],
    "falcon/atomic_gcc.h": [("static falcon::atomic_int g_count = 0;", "falcon::atomicSet(g_count, 3); falcon::atomicInc(g_count); if(falcon::atomicAdd(g_count, 2) != 6 || falcon::atomicFetch(g_count) != 6) FAILED(\"atomic\");")],
    "falcon/atomic.h": [("", "falcon::atomic_int n = 1; if(falcon::atomicInc(n) != 2 || falcon::atomicDec(n) != 1 || !falcon::atomicCAS(n, 1, 9) || falcon::atomicExchange(n, 4) != 9) FAILED(\"atomic\");"),
                        ("", "falcon::atomic_int n = 6; falcon::atomicXor(n, 3); falcon::atomicAnd(n, 4); falcon::atomicOr(n, 1); if(falcon::atomicFetch(n) != 5) FAILED(\"atomic bits\");")],
    "falcon/singleton.h": [("struct SharedByAll { int n = 5; };", "falcon::Singleton<SharedByAll> h; SAME(\"singleton\", h.get()); if(h->n != 5 || &*h != h.get() || &*h.mtbl != h.get()) FAILED(\"singleton\");")],
    "falcon/error/parseerror.h": [("", "const falcon::ParseError* e = nullptr; const std::runtime_error* r = e; if(r) FAILED(\"error\");")],
    "falcon/error.h": [("", "const falcon::ParseError* e = nullptr; const std::exception* r = e; if(r) FAILED(\"error\");")],
    "falcon/futex.h": [("", "falcon::Futex<> a; a.lock(); bool l = a.isLocked(); a.unlock(); falcon::Futex<3> b; b.lock(); b.unlock(); if(!l || a.isLocked() || b.isLocked()) FAILED(\"futex\");"),
                       ("", "static falcon::RFutex f; f.lock(); f.lock(); bool o = f.isOwner(); f.unlock(); bool l = f.isLocked(); f.unlock(); if(!o || !l || f.isLocked()) FAILED(\"rfutex\");"),
                       ("", "FUTEX_CHAIN(falcon::RFutex)")],
    E + "code.h": [("", "falcon::Code a(\"src\", 3), b(a), c(std::move(b)), d; d = c; if(d.toString().empty()) FAILED(\"code\");")],
    E + "compiler.h": [("", "falcon::Compiler* p = nullptr; falcon::Code (falcon::Compiler::*f)(std::istream&) noexcept = &falcon::Compiler::compile; if(p || !f) FAILED(\"compiler\");")],
    E + "distribute.h": [("", "int a[3] = {1, 2, 3}, x = 0; long y = 0; int* p = a; falcon::distribute(p, x, y); if(x != 1 || y != 2 || p != a + 1) FAILED(\"distribute\");")],
    E + "pagedstack.h": [("", "falcon::PagedStack<int> st; for(int i = 0; i < 40; ++i) st.push(i); int v = 0; st.pop(v); if(v != 39 || st.top() != 38 || st.empty()) FAILED(\"stack\");"),
                         ("struct OfMyOwn { int a; OfMyOwn(int x): a(x) {} };", "falcon::PagedStack<OfMyOwn> st; st.push_emplace(4); st.push(OfMyOwn(5)); int n = 0; for(auto i = st.begin(); i != st.end(); ++i) n += i->a; if(n != 9) FAILED(\"stack of objects\");")],
    E + "itemdata.h": [("", "falcon::ItemData d(true), e(falcon::int64(-4)), f(2.5); if(!d.boolValue || e.int64Value != -4 || f.numericValue != 2.5) FAILED(\"itemdata\");")],
    E + "handler.h": [("", "const falcon::Handler* h = nullptr; falcon::ItemData d(falcon::int64(1)); if(h || d.int64Value != 1) FAILED(\"handler\");")],
    E + "flathandler.h": [("struct Odd: falcon::FlatHandler { falcon::String typeName() const noexcept override { return \"Odd\"; } falcon::String toString(falcon::ItemData) const noexcept override { return \"odd\"; } bool toBool(falcon::ItemData) const noexcept override { return true; } falcon::int64 toInt(falcon::ItemData d) const noexcept override { return d.int64Value; } };",
                           "Odd h; const falcon::Handler& b = h; if(!b.isFlat() || b.toInt(b.clone(falcon::ItemData(falcon::int64(7)))) != 7) FAILED(\"flat handler\");")],
    E + "deephandler.h": [("struct Deep: falcon::DeepHandler<long> { falcon::String typeName() const noexcept override { return \"Deep\"; } falcon::String toString(falcon::ItemData) const noexcept override { return \"deep\"; } bool toBool(falcon::ItemData) const noexcept override { return true; } falcon::int64 toInt(falcon::ItemData d) const noexcept override { return *static_cast<long*>(d.ptrValue); } };",
                           "Deep h; falcon::ItemData d = h.allocate(); *static_cast<long*>(d.ptrValue) = 5; falcon::ItemData e = h.clone(d); *static_cast<long*>(d.ptrValue) = 6; bool ok = h.toInt(e) == 5 && !h.isFlat(); h.destroy(d); h.destroy(e); if(!ok) FAILED(\"deep handler\");")],
    E + "deepflatcopyhandler.h": [("struct DeepFlat: falcon::DeepFlatCopyHandler<short> { falcon::String typeName() const noexcept override { return \"DF\"; } falcon::String toString(falcon::ItemData) const noexcept override { return \"df\"; } bool toBool(falcon::ItemData) const noexcept override { return true; } falcon::int64 toInt(falcon::ItemData) const noexcept override { return 1; } };",
                                   "DeepFlat h; if(h.isFlat() || !h.isCopyFlat()) FAILED(\"deep flat copy handler\");")],
    E + "nilhandler.h": [("", "falcon::NilHandler h; if(h.toBool(falcon::ItemData(nullptr)) || h.typeName().empty()) FAILED(\"nil\");")],
    E + "boolhandler.h": [("", "falcon::BoolHandler h; if(!h.toBool(falcon::ItemData(true)) || h.toInt(falcon::ItemData(false)) != 0) FAILED(\"bool\");")],
    E + "inthandler.h": [("", "falcon::IntHandler h; if(h.toString(falcon::ItemData(falcon::int64(-12))) != \"-12\") FAILED(\"int\");")],
    E + "floathandler.h": [("", "falcon::FloatHandler h; if(h.toString(falcon::ItemData(2.5)) != \"2.5\") FAILED(\"float\");")],
    E + "stringhandler.h": [("", "falcon::StringHandler h; falcon::ItemData d = h.allocate(); *static_cast<falcon::String*>(d.ptrValue) = \"42\"; bool ok = h.toInt(d) == 42 && h.toString(d) == \"42\"; h.destroy(d); if(!ok) FAILED(\"string\");")],
    E + "bignumhandler.h": [("", "falcon::BigNumHandler h; falcon::ItemData d = h.allocate(); *static_cast<falcon::BigNum*>(d.ptrValue) = 17; bool ok = h.toInt(d) == 17; h.destroy(d); if(!ok) FAILED(\"bignum\");")],
    E + "handlerfactory.h": [("", "SAME(\"intHandler\", &falcon::HandlerFactory::intHandler); SAME(\"stringHandler\", &falcon::HandlerFactory::stringHandler); if(falcon::HandlerFactory::boolHandler.typeName().empty() || falcon::HandlerFactory::floatHandler.toBool(falcon::ItemData(0.0)) || falcon::HandlerFactory::bigNumHandler.isFlat() || !falcon::HandlerFactory::nilHandler.isFlat()) FAILED(\"handler factory\");")],
    E + "item.h": [("", "falcon::Item a(falcon::int64(5)), b(falcon::String(\"x\")), c(b), d; d = a; if(d.toInt() != 5 || c.toString() != \"x\" || !a.toBool()) FAILED(\"item\");")],
    "falcon/logsystem.h": [("struct Heard: falcon::LogSystem::Listener { int n = 0; void onMessage(const falcon::LogSystem::Message&) override { ++n; } };",
                            "auto h = std::make_shared<Heard>(); { falcon::LogSystem sys; sys.addListener(h); sys.level(falcon::LogSystem::INFO); sys.log(\"f\", 1, falcon::LogSystem::ERROR, \"c\", \"m\"); sys.stop(); falcon::LogSystem::Diags d; sys.getDiags(d); if(d.m_msgReceived > 1 || d.m_maxMsgQueueSize != 1) FAILED(\"diags\"); } if(!std::string(falcon::LogSystem::levelToString(falcon::LogSystem::ERROR)).size()) FAILED(\"log system\");")],
    "falcon/logstream.h": [("", "std::ostringstream os; { falcon::LogStreamListener l; l.writeOn(&os); l.level(falcon::LogSystem::TRACE); falcon::LogSystem::Message m(\"f.cpp\", 3, falcon::LogSystem::INFO, \"cat\", \"text of it\"); l.onMessage(m); } if(os.str().find(\"text of it\") == std::string::npos) FAILED(\"log stream\");")],
    "falcon/logproxy.h": [("struct Proxied: falcon::LogSystem::Listener { int n = 0; void onMessage(const falcon::LogSystem::Message&) override { ++n; } };",
                           "auto h = std::make_shared<Proxied>(); falcon::LogProxyListener p(h); p.onMessage(falcon::LogSystem::Message(\"f\", 1, falcon::LogSystem::INFO, \"\", \"m\")); if(h->n != 1) FAILED(\"proxy\");")],
    "falcon/logger.h": [("", "SAME(\"logger\", &LOGGER); LOG_INFO << \"some \" << 42; LOG_BLOCK_WARN { LOGGER << \"block\"; } LOG_CATEGORY(\"cat\"); LOG(falcon::LLERR) << LOG_CAT(\"tmp\") << \"other\"; if(LOGGER.getCategory() != \"cat\") FAILED(\"logger\");"),
                        ("", "LOGGER.categoryFilter(\"x.*\", falcon::LLTRACE); LOGGER.clearFilter(); SAME(\"listener\", LOGGER.defaultListener().get()); LOG_DBG << std::hex << 255; LOG_TRC << \"t\"; LOG_CRIT << 'c';")],
    F + "marktime.h": [("", "falcon::int64 a = 0, b = 0; falcon::testing::markTime(a); falcon::testing::waitTime(1); falcon::testing::markTime(b); if(a == 0 || b == 0) FAILED(\"marktime\");")],
    F + "timelapse.h": [("", "falcon::testing::TimeLapse t; t.markBegin(); t.markEnd(); if(t.elapsed() < 0 || t.elapsedNow() < 0 || t.begin() == 0 || t.end() == 0) FAILED(\"timelapse\");")],
    F + "testcase.h": [("struct Hand: falcon::testing::TestCase { bool r = false; void test() override { r = true; } };",
                        "Hand t; t.beginTest(true); t.run(); t.endTest(true); if(!t.r || t.status() != falcon::testing::TestCase::SUCCESS || *t.capturedOut() || *t.failDesc() || t.elapsedTime() < 0) FAILED(\"testcase\");")],
    F + "unittest.h": [("", "SAME(\"unittest\", falcon::testing::UnitTest::singleton()); falcon::testing::UnitTest u; u.setVerbosity(falcon::testing::UnitTest::SILENT); if(u.performUnitTests() != 0 || u.elapsedTime() < 0) FAILED(\"unittest\");")],
    F + "fut.h": [("FALCON_TEST(Comp@, one) { EXPECT_EQ(1, 2 - 1); EXPECT_TRUE(true); EXPECT_STREQ(\"a\", \"a\"); } FALCON_TEST(Comp@, two) { EXPECT_FLOAT_EQ(0.5, 1 / 2.0); EXPECT_THROW(throw std::runtime_error(\"x\"), std::runtime_error); }",
                   "SAME(\"unittest\", falcon::testing::UnitTest::singleton()); falcon::testing::UnitTest::singleton()->setVerbosity(falcon::testing::UnitTest::SILENT); if(falcon::testing::UnitTest::singleton()->performTest(\"Comp@::one\") || falcon::testing::UnitTest::singleton()->performTest(\"Comp@::two\")) FAILED(\"registered tests\");"),
                  ("struct Fix@: falcon::testing::TestCase { int n = 0; void SetUp() override { n = 3; } }; FALCON_TEST_F(Fix@, uses) { EXPECT_NE(4, n); EXPECT_LT(2, n); EXPECT_GE(3, n); EXPECT_ANY_THROW(throw 1); EXPECT_NO_THROW(++n); EXPECT_FALSE(n == 3); }",
                   "falcon::testing::UnitTest::singleton()->setVerbosity(falcon::testing::UnitTest::SILENT); if(falcon::testing::UnitTest::singleton()->performTest(\"Fix@::uses\")) FAILED(\"fixture\");")],
}
NEEDS = {"falcon/error/parseerror.h": [], "falcon/logstream.h": ["sstream"], "falcon/logsystem.h": ["memory"], "falcon/logproxy.h": ["memory"], E + "code.h": ["utility"], E + "compiler.h": ["istream"], F + "fut.h": ["stdexcept"], "falcon/logger.h": ["ios"]}
STD = ["string", "vector", "iostream", "map", "memory", "regex", "thread", "cstdint", "cmath", "algorithm", "sstream", "time.h", "errno.h"]
HEAVY = {E + "bignumhandler.h", E + "handlerfactory.h", E + "item.h"}
PRELUDE = """extern int same(const char* key, const void* p);
extern void failed(const char* unit, const char* why);
"""
MAIN = r"""
#include <cstdio>
#include <cstring>
#include <map>
#include <string>
static std::map<std::string, const void*>& seen() { static std::map<std::string, const void*> m; return m; }
static int g_failed = 0;
int same(const char* key, const void* p) { auto r = seen().insert({key, p}); return r.first->second == p; }
void failed(const char* unit, const char* why) { fprintf(stderr, "%s: %s\n", unit, why); ++g_failed; }
@DECL@
int main() { for(int round = 0; round < 2; ++round) { @CALLS@ } return g_failed ? 1 : 0; }
"""


def unit_source(u, i):
    """u: {inc: [header...], uses: [[header, n]...], guard, after}"""
    o = ["// unit %d" % i]
    if u.get("notest"):
        o.append("#define FALCON_TEST_DONT_DEFINE_TEST")
    o += ["#include <%s>" % h for h in u["inc"]]
    o += ["#include <%s>" % h for h, _ in u["uses"] for h in NEEDS.get(h, [])]   # what the uses themselves need
    if u.get("again"):
        o += ["#include <%s>" % h for h in u["inc"]]
    o.append(PRELUDE + '#define FAILED(why) failed("unit %d", why)\n#define SAME(key, p) do { if(!same(key, p)) FAILED("another file sees another " key); } while(0)\n#define FUTEX_CHAIN(T) static T f; T* p = &f; p->lock(); p->lock(); if(!p->isOwner()) FAILED("owner"); p->unlock(); p->unlock();' % i)
    for k, (h, n) in enumerate(u["uses"]):
        g, st = [x.replace("@", "%d_%d" % (i, k)) for x in USES[h][n]]
        if h == "falcon/singleton.h" :
            o.append("#ifndef SHARED_BY_ALL\n#define SHARED_BY_ALL\n%s\n#endif" % g)      # the same type in every file
        elif h == F + "fut.h":
            o.append(g)
            o.append("static void use_%d() { %s }" % (k, st))
            continue
        elif g:
            o.append("namespace u%d_%d { namespace { %s } }\nusing namespace u%d_%d;" % (i, k, g, i, k))
        o.append("namespace uses_%d_%d { static void use() { %s } }\nstatic void use_%d() { uses_%d_%d::use(); }" % (i, k, st, k, i, k))
    o.append("void unit_%d() { %s }" % (i, " ".join("use_%d();" % k for k in range(len(u["uses"])))))
    return "\n".join(o) + "\n"


def sources(prog):
    src = {"u%d.cpp" % i: unit_source(u, i) for i, u in enumerate(prog["units"])}
    n = range(len(prog["units"]))
    src["main.cpp"] = MAIN.replace("@DECL@", " ".join("void unit_%d();" % i for i in n)).replace("@CALLS@", " ".join("unit_%d();" % i for i in n))
    return src


class Builder:
    def __init__(self, root):
        self.root, self.inc, self.lock, self.n = root, root + "/include", threading.Lock(), 0
        run.make_config(self.inc)
        self.flags = ["-std=gnu++17", "-w", "-pthread", "-I" + run.REPO + "/src/include", "-I" + self.inc, "-I" + self.inc + "/falcon"]
        self.objs = {}

    def library(self):
        """The library, once by each compiler (a program is compiled by one compiler)."""
        src = run.engine_sources() + run.fut_sources()
        for cxx in ("clang++", "g++"):
            jobs = [(s, "%s/l_%s_%s.o" % (self.root, cxx, os.path.basename(s)), self.flags + ["-O0", "-I" + run.REPO + "/src/include/falcon"]) for s in src]
            run.compile_all(jobs, cxx)
            self.objs[cxx] = [j[1] for j in jobs]

    def verdict(self, prog):
        """None if the program compiles, links and runs well, or what is wrong."""
        with self.lock:
            self.n += 1
            d = "%s/p%d" % (self.root, self.n)
        os.makedirs(d)
        cxx = prog.get("cxx", "g++")
        try:
            objs = []
            for name, text in sources(prog).items():
                open(d + "/" + name, "w").write(text)
                unit = prog["units"][int(name[1:-4])] if name[0] == "u" else {}
                r = run.sh([cxx, *self.flags, unit.get("opt", "-O0"), "-c", d + "/" + name, "-o", d + "/" + name + ".o"], timeout=300)
                if r.returncode:
                    return "%s does not compile %s: %s" % (cxx, name, errors(r.stdout))
                objs.append(d + "/" + name + ".o")
            r = run.sh([cxx, "-pthread", *objs, *self.objs[cxx], "-o", d + "/prog"], timeout=300)
            if r.returncode:
                return "the program does not link: " + errors(r.stdout)
            try:
                r = run.sh([d + "/prog"], timeout=60, cwd=d, stdin=subprocess.DEVNULL)
            except subprocess.TimeoutExpired:
                return "the program does not end"
            if r.returncode:
                return "the program ends with status %d: %s" % (r.returncode, r.stdout.strip()[-400:])
            return None
        finally:
            shutil.rmtree(d, ignore_errors=True)


def errors(log):
    ls = [l for l in log.split("\n") if "error:" in l or "multiple definition" in l or "undefined reference" in l]
    return (ls or log.strip().split("\n"))[0][-350:]


def generate(rng, firsts, headers):
    nu = rng.choice([1, 2, 2, 3, 3, 4])
    light = [h for h in headers if h not in HEAVY]
    shared = rng.sample(light, min(3, len(light))) + ([rng.choice(sorted(HEAVY & set(headers)))] if HEAVY & set(headers) and rng.random() < .3 else [])
    units = []
    for i in range(nu):
        first = next(firsts)      # every header comes first in some file
        pool = headers if rng.random() < .25 else light
        rest = [rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 4, 8]))] + (shared if nu > 1 else [])
        rng.shuffle(rest)
        inc = [first] + rest
        for _ in range(rng.choice([0, 0, 1, 3])):
            inc.insert(rng.randrange(1, len(inc) + 1), rng.choice(STD))
        have = [h for h in dict.fromkeys(inc) if h in USES]
        uses = [[h, rng.randrange(len(USES[h]))] for h in have if h == first or rng.random() < .85]
        rng.shuffle(uses)
        units.append({"inc": inc, "uses": uses, "notest": rng.random() < .4, "again": rng.random() < .2, "opt": rng.choice(["-O0", "-O0", "-O0", "-O2"])})
    return {"units": units, "cxx": rng.choice(["g++", "clang++"])}


def shrink(prog, bad, until):
    """Greedy: drops units, headers and uses as long as the program stays bad."""
    def variants(p):
        us = p["units"]
        for i in range(len(us)):
            if len(us) > 1:
                yield dict(p, units=us[:i] + us[i + 1:])
        for i, u in enumerate(us):
            def w(**kw):
                return dict(p, units=us[:i] + [dict(u, **kw)] + us[i + 1:])
            if u["uses"]:
                yield w(uses=[])
            for k in range(len(u["inc"])):
                h = u["inc"][k]
                inc = u["inc"][:k] + u["inc"][k + 1:]
                yield w(inc=inc, uses=[x for x in u["uses"] if x[0] in inc])
            for k in range(len(u["uses"])):
                yield w(uses=u["uses"][:k] + u["uses"][k + 1:])
            for key, val in (("again", False), ("notest", False), ("opt", "-O0")):
                if u.get(key) != val:
                    yield w(**{key: val})
    msg = bad(prog)
    if not msg:
        return None, None
    going = True
    while going and time.time() < until:
        going = False
        for v in variants(prog):
            if time.time() > until:
                break
            m = bad(v)
            if m:
                prog, msg, going = v, m, True
                break
    return prog, msg


def main(prop, spec, seed, tier, opts):
    t0 = time.time()
    root = run.OUT + "/.build/" + prop
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    os.makedirs(run.OUT + "/replays", exist_ok=True)
    b = Builder(root)
    try:
        b.library()
    except run.BuildError as e:
        print(e.log[-3000:])
        print("error: /repo does not compile", file=sys.stderr)
        return 2
    headers = [h for h in sorted(USES) if os.path.exists(run.REPO + "/src/include/" + h)]
    if "replay" in opts:
        prog = json.loads(open(opts["replay"]).readline())
        m = b.verdict(prog)
        print(m or "the program compiles, links and runs")
        shutil.rmtree(root, ignore_errors=True)
        return 1 if m else 0
    control = b.verdict({"units": [{"inc": [], "uses": []}]})
    if control:
        print("error: a program without the library's headers fails: " + control, file=sys.stderr)
        return 2
    rng = random.Random(seed * 7919 + (1 if tier == "quick" else 2))
    rng.shuffle(headers)
    planned = int((24 if tier == "quick" else 700) * float(opts.get("scale", 1)))
    firsts = itertools.cycle(headers)
    progs = [generate(rng, firsts, headers) for k in range(planned)]
    done, bad, samples, labels = 0, None, [], {}
    nontrivial = set()
    until = t0 + (300 if tier == "quick" else 720)
    with concurrent.futures.ThreadPoolExecutor(run.JOBS) as ex:
        futs = {ex.submit(lambda p: b.verdict(p) if time.time() < until else "skipped", p): p for p in progs}
        for f in concurrent.futures.as_completed(futs):
            if f.cancelled():
                continue
            p, m = futs[f], f.result()
            if m == "skipped":
                continue
            done += 1
            incs = [set(u["inc"]) & set(USES) for u in p["units"]]
            common = set.intersection(*incs) if len(incs) > 1 else set()
            if common or max(map(len, incs)) >= 4:
                nontrivial.add(json.dumps(p, sort_keys=True))
            for lab, is_ in (("several files sharing headers", bool(common)), ("a header repeated", any(u["again"] or len(set(u["inc"])) < len(u["inc"]) for u in p["units"])), ("by clang", p["cxx"] == "clang++")):
                labels[lab] = labels.get(lab, 0) + is_
            if len(samples) < 5 and common:
                samples.append({"program": [" ".join(u["inc"]) for u in p["units"]]})
            if m and not bad:
                bad = (p, m)
                for g in futs:
                    g.cancel()
                until = 0
    violation = None
    if bad:
        p, m = shrink(bad[0], b.verdict, time.time() + (60 if tier == "quick" else 150))
        if not p:      # cannot be reproduced
            labels["unconfirmed"] = 1
            print("note: an unconfirmed failure: " + bad[1])
        else:
            path = run.OUT + "/replays/%s.replay" % prop
            with open(path, "w") as o:
                o.write(json.dumps(p) + "\n\nmessage: %s\n\nreplay with: python3 run.py %s --replay %s\n" % (m, prop, path))
                for n, t in sources(p).items():
                    o.write("\n===== %s\n%s" % (n, t))
            violation = (m, path, p)
    run.write_evidence(prop, {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
                              "coverage": {"evaluations": done, "distinct_nontrivial": len(nontrivial), "rule": spec["rule"], "samples": samples, "planned": planned, "labels": labels, "headers": headers,
                                           "files_compiled": sum(len(p["units"]) for p in progs)},
                              "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0})
    shutil.rmtree(root, ignore_errors=True)
    if violation:
        print("failed: " + violation[0])
        for u in violation[2]["units"]:
            print("  includes %s; uses %s" % (" ".join(u["inc"]), " ".join(h for h, _ in u["uses"])))
        print("VIOLATION property=%s replay=%s" % (prop, violation[1]))
        return 1
    print("%s held: %d programs, %d distinct non-trivial, %.1f s, labels %s" % (prop, done, len(nontrivial), time.time() - t0, json.dumps(labels)))
    return 0

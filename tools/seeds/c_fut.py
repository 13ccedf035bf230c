UT, TC, FH = "fut/unittest.cpp", "fut/testcase.cpp", "include/falcon/fut/fut.h"
HEAD = """#include <falcon/fut/fut.h>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <fstream>
#include <string>
#include <vector>
#include <stdexcept>
#include <functional>
#define CHECK(c) do { if(!(c)) { fprintf(stderr, "line %d: %s\\n", __LINE__, #c); return 1; } } while(0)
using namespace falcon::testing;
struct T: TestCase { std::function<void(T&)> f; std::function<void()> up, down; T(std::function<void(T&)> g): f(g) {} void test() override { f(*this); } void SetUp() override { if(up) up(); } void TearDown() override { if(down) down(); } };
struct Grab { std::ostringstream o, e; std::streambuf *a, *b; Grab(): a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(e.rdbuf())) {} ~Grab() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
static int run(UnitTest* u, std::vector<std::string> args, std::string* out = nullptr) { args.insert(args.begin(), "prog"); std::vector<char*> v; for(auto& x: args) v.push_back(&x[0]); v.push_back(nullptr); int r; std::string o; { Grab g; r = u->main((int)args.size(), v.data()); o = g.o.str(); } if(out) *out = o; return r; }
"""
F = ["fut"]
SEEDS = [
 dict(id="status-wraps", property="C27", src=F, edits=[(UT, "            p->status = -1;\n            p->failedCount++;", "            // the status tells how many tests failed\n            --p->status;\n            p->failedCount++;")],
   needs="a run with 256 failing tests", breaks="the process exits with status 0",
   demo=HEAD + """int main() { for(int n: {0, 1, 3, 255, 256, 257, 512}) { auto u = new UnitTest; for(int i = 0; i < 600; ++i) u->addTestCase("C", ("t" + std::to_string(i)).c_str(), new T([i, n](T& t) { if(i < n) t.fail("f", 1, "bad"); })); int r = run(u, {"-q"}); CHECK(((r & 255) == 0) == (n == 0)); } return 0; }"""),
 dict(id="fail-file-first-dir", property="C27", src=F, edits=[(TC, "std::string::size_type pos = p->failFile.rfind(FALCON_DIR_SEP_CHR);", "std::string::size_type pos = p->failFile.find(FALCON_DIR_SEP_CHR, 1);")],
   needs="a failing check in a source of a path with more than one directory", breaks="the record tells a path instead of the file name",
   demo=HEAD + """int main() { T t([](T& t) { t.checkFail("/a/b/c/file.cpp", 3, "x", "y"); }); t.beginTest(true); t.run(); t.endTest(true); CHECK(std::string(t.failFile()) == "file.cpp"); return 0; }"""),
 dict(id="components-unordered", property="C28", src=F, edits=[(UT, "   std::map<std::string, Component> componentToPerform;", "   std::unordered_map<std::string, Component> componentToPerform;"), (UT, "#include <map>\n", "#include <map>\n#include <unordered_map>\n")],
   needs="tests of several components", breaks="the components don't run in lexicographic order",
   demo=HEAD + """int main() { for(int k = 0; k < 30; ++k) { std::string seen; auto u = new UnitTest; std::vector<std::string> names{"b" + std::to_string(k * 7), "a" + std::to_string(k * 13), "d" + std::to_string(k), "c", "A" + std::to_string(k)}; for(auto& n: names) { char c = n[0]; u->addTestCase(n.c_str(), "t", new T([c, &seen](T&) { seen += c; })); } CHECK(run(u, {"-q"}) == 0); CHECK(seen == "Aabcd"); } return 0; }"""),
 dict(id="thrown-output-hidden", property="C29", src=F, edits=[(UT, "      && (p->verbosity >= REPORT_STDOUT || (p->verbosity > SILENT && !hasPassed(tc)))) {", "      && (p->verbosity >= REPORT_STDOUT || (p->verbosity > SILENT && !hasPassed(tc) && tc->status() != TestCase::ERROR))) {")],
   needs="a test that writes on the standard output and then throws", breaks="what it wrote is not shown",
   demo=HEAD + """int main() { auto u = new UnitTest; u->addTestCase("C", "t", new T([](T&) { std::cout << "before the crash"; throw std::runtime_error("crash"); })); std::string o; CHECK(run(u, {}, &o) != 0); CHECK(o.find("before the crash") != std::string::npos); return 0; }"""),
 dict(id="numbers-per-component", property="C29", src=F, edits=[(UT, "      component.lapse.markBegin();\n\n      for(auto tcase: component.tests ) {\n", "      component.lapse.markBegin();\n\n      for(auto tcase: component.tests ) {\n         if(component.failures > 0 && tcase == component.tests.back()) {\n            count = static_cast<int>(p->tests.size()) - 1;\n         }\n")],
   needs="a failure in a component before its last test", breaks="the executions are not numbered one after the other",
   demo=HEAD + """int main() { auto u = new UnitTest; u->addTestCase("A", "one", new T([](T& t) { t.fail("f", 1, "x"); })); u->addTestCase("A", "two", new T([](T&) {})); u->addTestCase("B", "three", new T([](T&) {})); std::string o; run(u, {"-v", "3"}, &o); CHECK(o.find("[  1: A::one") != std::string::npos); CHECK(o.find("[  2: A::two") != std::string::npos); CHECK(o.find("[  3: B::three") != std::string::npos); return 0; }"""),
 dict(id="xml-counts-registered", property="C30", src=F, edits=[(UT, "<< \"\\\" tests=\\\"\" << p->testsToPerofm.size() << \"\\\" \"", "<< \"\\\" tests=\\\"\" << p->tests.size() << \"\\\" \"")],
   needs="a report of a selection of tests", breaks="the document counts more tests than it lists",
   demo=HEAD + """int main() { auto u = new UnitTest; for(auto n: {"a", "b", "c"}) u->addTestCase("C", n, new T([](T&) {})); CHECK(run(u, {"-q", "-t", "C::b", "-x", "r.xml"}) == 0); std::ifstream f("r.xml"); std::stringstream s; s << f.rdbuf(); std::string d = s.str(); auto p = d.find("<testsuites"); CHECK(p != std::string::npos); auto h = d.substr(p, d.find('>', p) - p); CHECK(h.find("tests=\\"1\\"") != std::string::npos); return 0; }"""),
 dict(id="check-no-parentheses", property="C31", src=F, edits=[(FH, "\t\tif(!( (_EXPECTED_) _CHECK_ (_ACTUAL_) )) { \\\n\t\t   std", "\t\tif(!( (_EXPECTED_) _CHECK_ _ACTUAL_ )) { \\\n\t\t   std")],
   needs="an actual value written with an operator of low precedence", breaks="a check of two different values passes",
   demo=HEAD + """struct X: TestCase { int a = 6; void test() override { EXPECT_EQ(4, a & 3); } }; struct Y: TestCase { int a = 6; void test() override { EXPECT_EQ(2, a & 3); } };
static int st(TestCase& t) { t.beginTest(true); t.run(); t.endTest(true); return t.status(); } int main() { X x; Y y; CHECK(st(x) == TestCase::FAIL); CHECK(st(y) == TestCase::SUCCESS); return 0; }"""),
 dict(id="quiet-before-verbosity", property="C32", src=F, edits=[(UT, "      if(opt == \"-q\") {\n         setVerbosity(SILENT);\n", "      if(opt == \"-q\") {\n         // an explicit verbosity has the precedence\n         if(p->verbosity <= REPORT_STATUS) {\n            setVerbosity(SILENT);\n         }\n")],
   needs="-q after a -v of 3 or more", breaks="the last option doesn't win: the output is not suppressed",
   demo=HEAD + """int main() { auto mk = [] { auto u = new UnitTest; u->addTestCase("C", "t", new T([](T&) {})); return u; }; std::string o; run(mk(), {"-v", "4", "-q"}, &o); CHECK(o.empty()); run(mk(), {"-q"}, &o); CHECK(o.empty()); run(mk(), {"-q", "-v", "3"}, &o); CHECK(!o.empty()); return 0; }"""),
 dict(id="millis-rounded", property="C33", src=["fut"], edits=[("fut/marktime-unix.c++", "   currentMillisecs += (tv.tv_usec / 1000);", "   currentMillisecs += (tv.tv_usec + 500) / 1000;")],
   needs="a clock value whose microseconds are in the upper half of a millisecond", breaks="readings are up to half a millisecond in the future",
   demo="""#include <falcon/fut/timelapse.h>
#include <sys/time.h>
static timeval g_now;
extern "C" int gettimeofday(timeval* tv, void*) noexcept { *tv = g_now; return 0; }
int main() { using namespace falcon::testing; g_now.tv_sec = 1000; for(int us: {0, 499, 500, 999, 1000, 999499, 999500, 999999}) { g_now.tv_usec = us; falcon::int64 v = 0; markTime(v); if(v != 1000000 + us / 1000) return 1; } return 0; }"""),
 dict(id="teardown-time", property="C33", src=F, edits=[(TC, "      p->lapse.markBegin();\n", "      p->lapse.markBegin();\n"), (UT, "         beginTest(++count, tcase);\n         tcase->run();\n         endTest(count, tcase);\n", "         beginTest(++count, tcase);\n         tcase->run();\n         if(tcase == component.tests.back()) {\n            component.lapse.markEnd();\n         }\n         endTest(count, tcase);\n"), (UT, "      component.lapse.markEnd();\n   }\n   p->lapse.markEnd();", "   }\n   p->lapse.markEnd();")],
   needs="one test selected several times", breaks="-", skip=True, demo=""),
 dict(id="midnight-elapsed-now", property="C33", src=F, edits=[("include/falcon/fut/timelapse.h", "      return m_begin > now\n                  ? now - m_begin + MSECS_IN_A_DAY\n                  : now - m_begin;", "      return m_begin > now\n                  ? MSECS_IN_A_DAY - m_begin + now % MSECS_IN_A_DAY\n                  : now - m_begin;")],
   needs="a clock stepping back while the time so far is asked", breaks="the compensated time is wrong",
   demo="""#include <falcon/fut/timelapse.h>
#include <sys/time.h>
static timeval g_now;
extern "C" int gettimeofday(timeval* tv, void*) noexcept { *tv = g_now; return 0; }
int main() { using namespace falcon::testing; TimeLapse t; g_now.tv_sec = 1600000000; t.markBegin(); g_now.tv_sec += 5; if(t.elapsedNow() != 5000) return 1; g_now.tv_sec -= 10; return t.elapsedNow() == 86400000 - 5000 ? 0 : 1; }"""),
 dict(id="select-first-named", property="C28", src=F, edits=[(UT, "   p->testsByName.insert(std::make_pair(tcase->fullName(), tcase));", "   // cut as in the report\n   p->testsByName.insert(std::make_pair(std::string(tcase->fullName()).substr(0, p->screenWidth), tcase));")],
   needs="selecting a test of a full name longer than fifty characters", breaks="the test can't be selected",
   demo=HEAD + """int main() { int n = 0; std::string nm(60, 'x'); auto u = new UnitTest; u->addTestCase("C", nm.c_str(), new T([&](T&) { ++n; })); u->addTestCase("C", "s", new T([&](T&) { n += 10; })); CHECK(run(u, {"-q", "-t", "C::" + nm}) == 0); CHECK(n == 1); return 0; }"""),
 dict(id="compile-buffer", property="C15", src=["compiler", "code"], edits=[("engine/compiler.cpp", "\tstd::string value;\n\tinput >> value;\n", "\tchar value[1024] = \"\";\n\tinput.width(sizeof(value));\n\tinput >> value;\n")],
   needs="a token of 1024 bytes or more", breaks="the code has only the beginning of the token",
   demo="""#include <falcon/engine/compiler.h>
#include <sstream>
int main() { for(size_t n: {1u, 10u, 1000u, 1023u, 1024u, 5000u}) { std::string t(n, 'a'); t.back() = 'z'; std::istringstream in("  " + t + " rest"); falcon::Compiler c; if(c.compile(in).toString() != t) return 1; } return 0; }"""),
]
SEEDS = [s for s in SEEDS if not s.get("skip")]

HEAD = LOGH = """#include <falcon/logproxy.h>
#include <cstdio>
#include <vector>
#include <string>
#include <chrono>
#define CHECK(c) do { if(!(c)) { fprintf(stderr, "line %d: %s\\n", __LINE__, #c); return 1; } } while(0)
using namespace falcon;
struct Rec: LogSystem::Listener { std::mutex m; std::vector<std::string> got;
   void onMessage(const LogSystem::Message& x) override { std::lock_guard<std::mutex> g(m); got.push_back(std::to_string((int)x.m_level) + x.m_message); }
   std::vector<std::string> all() { std::lock_guard<std::mutex> g(m); return got; }
   bool wait(size_t n) { for(int i = 0; i < 400 && all().size() < n; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(5)); return all().size() >= n; } };
"""
FUT = """#include <falcon/fut/fut.h>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <fstream>
#include <string>
#include <vector>
#include <stdexcept>
#include <functional>
#define CHECK(c) do { if(!(c)) { fprintf(stderr, "line %d: %s\\n", __LINE__, #c); return 1; } } while(0)
using namespace falcon::testing;
struct T: TestCase { std::function<void(T&)> f; std::function<void()> up, down; T(std::function<void(T&)> g): f(g) {} void test() override { f(*this); } void SetUp() override { if(up) up(); } void TearDown() override { if(down) down(); } };
struct Grab { std::ostringstream o, e; std::streambuf *a, *b; Grab(): a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(e.rdbuf())) {} ~Grab() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
static int run(UnitTest* u, std::vector<std::string> args, std::string* out = nullptr) { args.insert(args.begin(), "prog"); std::vector<char*> v; for(auto& x: args) v.push_back(&x[0]); v.push_back(nullptr); int r; std::string o; { Grab g; r = u->main((int)args.size(), v.data()); o = g.o.str(); } if(out) *out = o; return r; }
"""
P = "include/falcon/logproxy.h"
SEEDS = [
 dict(id="proxy-asks-target-category", property="C36", src=["logsystem"], edits=[(P, "    \tm_other->onMessage(msg);\n", "    \t// Don't bother the other listener with what it's not interested in.\n    \tif(m_other->checkCategory(msg.m_category)) {\n    \t\tm_other->onMessage(msg);\n    \t}\n")],
   needs="a proxy on a listener that has a category filter of its own", breaks="messages the proxy admits do not reach the listener behind it",
   demo=HEAD + """int main() { auto r = std::make_shared<Rec>(), all = std::make_shared<Rec>(); r->category("disk"); auto p = std::make_shared<LogProxyListener>(r); p->category("net.*");
   LogSystem s; s.addListener(p); s.addListener(all); s.log("f", 1, LogSystem::INFO, "network", "a"); s.log("f", 2, LogSystem::INFO, "disk", "b"); CHECK(all->wait(2)); s.stop();
   CHECK(r->all().size() == 1); CHECK(r->all()[0] == "3a"); return 0; }"""),
 dict(id="proxy-weak", property="C36", src=["logsystem"], edits=[(P, "    \tm_other->onMessage(msg);\n", "    \t// the other listener might be gone in the meanwhile.\n    \tif(auto other = m_other.lock()) {\n    \t\tother->onMessage(msg);\n    \t}\n"), (P, "    LogSystem::PListener m_other;\n", "    std::weak_ptr<LogSystem::Listener> m_other;\n")],
   needs="a listener that only its proxy holds", breaks="the listener behind the proxy dies and its messages are lost",
   demo=HEAD + """int main() { std::weak_ptr<Rec> w; auto all = std::make_shared<Rec>(); LogSystem s; { auto r = std::make_shared<Rec>(); w = r; s.addListener(std::make_shared<LogProxyListener>(r)); } s.addListener(all);
   s.log("f", 1, LogSystem::INFO, "network", "a"); CHECK(all->wait(1)); auto r = w.lock(); CHECK(r); CHECK(r->wait(1)); s.stop(); return 0; }"""),
 dict(id="proxy-relevels", property="C36", src=["logsystem"], edits=[(P, "    \tm_other->onMessage(msg);\n", "    \t// show the message at a level the other listener admits.\n    \tif(msg.m_level > m_other->level()) {\n    \t\tLogSystem::Message lowered(msg);\n    \t\tlowered.m_level = m_other->level();\n    \t\tm_other->onMessage(lowered);\n    \t\treturn;\n    \t}\n    \tm_other->onMessage(msg);\n")],
   needs="a message the proxy admits, above the level of the listener behind it", breaks="the message is handed on with another level",
   demo=HEAD + """int main() { auto r = std::make_shared<Rec>(), all = std::make_shared<Rec>(); r->level(LogSystem::WARN); auto p = std::make_shared<LogProxyListener>(r);
   LogSystem s; s.addListener(p); s.addListener(all); s.log("f", 1, LogSystem::DEBUG, "", "a"); CHECK(all->wait(1)); s.stop(); CHECK(r->all().size() == 1); CHECK(r->all()[0] == "4a"); return 0; }"""),
 dict(id="compile-shared-buffer", property="C15", src=["code", "compiler"], edits=[("engine/compiler.cpp", "\tstd::string value;\n", "\t// keep the buffer, tokens may be long.\n\tstatic std::string value;\n\tvalue.clear();\n")],
   needs="two threads compiling at the same time", breaks="code mixes the tokens of both",
   demo="""#include <falcon/engine/compiler.h>
#include <sstream>
#include <thread>
#include <vector>
#include <atomic>
#include <cstdio>
using namespace falcon;
int main() { std::atomic<int> bad{0}; std::vector<std::thread> t;
   for(int k = 0; k < 4; ++k) t.emplace_back([&, k] { Compiler c; std::string s(3000, (char)('a' + k)); for(int i = 0; i < 3000 && !bad; ++i) { std::istringstream in(s); if(c.compile(in).toString() != s) ++bad; } });
   for(auto& x: t) x.join(); if(bad) fprintf(stderr, "tokens mixed\\n"); return bad ? 1 : 0; }"""),
 dict(id="float-shared-stream", property="C13", src=["item"], edits=[("include/falcon/engine/floathandler.h", "      std::ostringstream ss;\n      ss << data.numericValue;\n", "      // setting up a stream is expensive\n      static std::ostringstream ss;\n      ss.str(\"\");\n      ss << data.numericValue;\n")],
   needs="two threads converting floating point items at the same time", breaks="the texts of both are mixed",
   demo="""#include <falcon/engine/item.h>
#include <sstream>
#include <thread>
#include <vector>
#include <atomic>
#include <cstdio>
using namespace falcon;
int main() { std::atomic<int> bad{0}; std::vector<std::thread> t;
   for(int k = 0; k < 4; ++k) t.emplace_back([&, k] { Item it(1234.5 + k); std::ostringstream w; w << 1234.5 + k; for(int i = 0; i < 20000 && !bad; ++i) if(it.toString() != w.str()) ++bad; });
   for(auto& x: t) x.join(); if(bad) fprintf(stderr, "texts mixed\\n"); return bad ? 1 : 0; }"""),

 dict(id="xml-over-longer", property="C30", src=["fut"], edits=[("fut/unittest.cpp", "   std::ofstream fout(p->xmlReport);\n", "   // who watches the report should never find it empty: keep the file if there is one.\n   std::fstream fout(p->xmlReport, std::ios::in | std::ios::out);\n   if(! fout.is_open()) {\n      fout.open(p->xmlReport, std::ios::out);\n   }\n")],
   needs="a report saved over a longer one", breaks="the rest of the old report follows the new one",
   demo=FUT + """int main() { for(int n: {5, 1}) { auto u = new UnitTest; for(int i = 0; i < n; ++i) u->addTestCase("C", ("t" + std::to_string(i)).c_str(), new T([](T&) {})); CHECK(run(u, {"-q", "-x", "r.xml"}) == 0); std::ifstream f("r.xml"); std::stringstream s; s << f.rdbuf(); std::string d = s.str(), e = "</testsuites>\\n"; CHECK(d.size() > e.size() && d.find(e) == d.size() - e.size()); } return 0; }"""),
 dict(id="blank-errors-pass", property="C27", src=["fut"], edits=[("fut/unittest.cpp", "bool UnitTest::hasPassed(TestCase* tcase) const\n{\n", "bool UnitTest::hasPassed(TestCase* tcase) const\n{\n   // a stray newline is not an error message.\n   if(tcase->status() == TestCase::OUT_ON_ERROR_STREAM\n      && std::string(tcase->capturedErr()).find_first_not_of(\" \\n\") == std::string::npos) {\n      return ! p->opt_erroutIsFail;\n   }\n\n")],
   needs="a test that writes nothing but blanks on the error stream", breaks="the run passes although a test's status is a failure",
   demo=FUT + """int main() { for(auto t: {"\\n", " ", " \\n\\n", "x"}) { auto u = new UnitTest; u->addTestCase("C", "t", new T([t](T&) { std::cerr << t; })); CHECK(run(u, {"-q"}) != 0); } return 0; }"""),

 dict(id="repeated-message-once", property="C16", src=["logsystem"], edits=[("engine/logsystem.cpp", "	m_msgReceived++;\n", "	++m_msgReceived;\n	// don't flood the listeners with the same line over and over.\n	static thread_local Message last;\n	if(msg->m_line == last.m_line && msg->m_level == last.m_level && msg->m_file == last.m_file\n			&& msg->m_category == last.m_category && msg->m_message == last.m_message) {\n		return;\n	}\n	last.m_line = msg->m_line;\n	last.m_level = msg->m_level;\n	last.m_file = msg->m_file;\n	last.m_category = msg->m_category;\n	last.m_message = msg->m_message;\n")],
   needs="the same message logged twice in a row, from the same line", breaks="the second of two identical messages reaches nobody",
   demo=LOGH + """int main() { auto r = std::make_shared<Rec>(); LogSystem s; s.addListener(r); for(int i = 0; i < 3; ++i) s.log("f", 7, LogSystem::INFO, "c", "again"); s.log("f", 8, LogSystem::INFO, "c", "end"); CHECK(r->wait(4)); CHECK(r->all().size() == 4); return 0; }"""),
 dict(id="termination-of-all", property="C18", src=["logsystem"], edits=[("engine/logsystem.cpp", "		m_msgReceived(0),\n		m_isTerminated(false)\n", "		m_msgReceived(0)\n"), ("include/falcon/logsystem.h", "   bool m_isTerminated;\n", "   static inline bool m_isTerminated{false};\n")],
   needs="one log system stopped while another one is running", breaks="the other system stops delivering messages",
   demo=LOGH + """int main() { auto r = std::make_shared<Rec>(); LogSystem a; a.addListener(r); a.log("f", 1, LogSystem::INFO, "c", "one"); CHECK(r->wait(1)); { LogSystem b; b.stop(); }
   for(int i = 0; i < 3; ++i) a.log("f", 2, LogSystem::INFO, "c", "two"); CHECK(r->wait(4)); return 0; }"""),
 dict(id="commit-c-string", property="C23", src=["logger", "logstream", "logsystem"], edits=[("include/falcon/logger.h", "			log(m_msgFile, m_msgLine, m_msgLevel, m_category, m_composer.str());\n", "			log(m_msgFile, m_msgLine, m_msgLevel, m_category, m_composer.str().c_str());\n")],
   needs="a statement with a NUL character in its text", breaks="the message is cut at the NUL",
   demo=LOGH.replace("falcon/logproxy.h", "falcon/logger.h") + """int main() { auto r = std::make_shared<Rec>(); LOGGER.addListener(r); std::string bin("a\\0b", 3); LOG_INFO << bin << 1; LOG_INFO << 'x' << '\\0' << "y"; CHECK(r->wait(2)); auto v = r->all(); CHECK(v[0] == "3" + bin + "1"); CHECK(v[1] == std::string("3x\\0y", 4)); LOGGER.stop(); return 0; }"""),
 dict(id="clock-forward-only", property="C21", src=["logstream", "logsystem"], edits=[("engine/logstream.cpp", "	time_t tt = std::chrono::system_clock::to_time_t(now);\n", "	// never write lines going back in time.\n	static thread_local time_t tt = 0;\n	tt = std::max(tt, std::chrono::system_clock::to_time_t(now));\n"), ("engine/logstream.cpp", "#include <iomanip>\n", "#include <iomanip>\n#include <algorithm>\n")],
   needs="the system clock set back between two messages", breaks="the lines show the old time until the clock catches up", flags="-Wl,--wrap=clock_gettime",
   demo="""#include <falcon/logstream.h>
#include <chrono>
#include <cstdio>
#include <ctime>
#include <sstream>
static time_t fake = 0;
// The library's clock, replaced.
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return from_time_t(fake); } } } }
extern "C" int __real_clock_gettime(clockid_t c, timespec* t);
extern "C" int __wrap_clock_gettime(clockid_t c, timespec* t) { if(c == CLOCK_REALTIME && fake) { t->tv_sec = fake; t->tv_nsec = 0; return 0; } return __real_clock_gettime(c, t); }
using namespace falcon;
int main() { setenv("TZ", "UTC", 1); std::ostringstream o; LogStreamListener l; l.writeOn(&o); LogSystem::Message m("f", 1, LogSystem::INFO, "", "x");
   fake = 1000003600; l.onMessage(m); fake = 1000000000; l.onMessage(m); std::string want = "2001-09-09 02:46:40 [INFO] f:1 x\\n2001-09-09 01:46:40 [INFO] f:1 x\\n";
   if(o.str() != want) { fprintf(stderr, "%s", o.str().c_str()); return 1; } return 0; }"""),
]

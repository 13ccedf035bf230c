LS, LH = "engine/logsystem.cpp", "include/falcon/logsystem.h"
HEAD = """#include <falcon/logsystem.h>
#include <cstdio>
#include <vector>
#include <string>
#include <chrono>
#define CHECK(c) do { if(!(c)) { fprintf(stderr, "line %d: %s\\n", __LINE__, #c); return 1; } } while(0)
using namespace falcon;
struct Rec: LogSystem::Listener { std::mutex m; std::vector<std::string> got; int delay = 0;
   void onMessage(const LogSystem::Message& x) override { if(delay) std::this_thread::sleep_for(std::chrono::milliseconds(delay)); std::lock_guard<std::mutex> g(m); got.push_back(x.m_message); }
   std::vector<std::string> all() { std::lock_guard<std::mutex> g(m); return got; }
   bool wait(size_t n) { for(int i = 0; i < 400 && all().size() < n; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(5)); return all().size() >= n; } };
"""
LG = """#include <falcon/logger.h>
#include <cstdio>
#include <thread>
#include <mutex>
#include <vector>
#include <sstream>
#include <chrono>
#define CHECK(c) do { if(!(c)) { fprintf(stderr, "line %d: %s\\n", __LINE__, #c); return 1; } } while(0)
using namespace falcon;
struct Rec: LogSystem::Listener { std::mutex m; std::vector<LogSystem::Message> got;
   void onMessage(const LogSystem::Message& x) override { std::lock_guard<std::mutex> g(m); got.push_back(x); }
   std::vector<LogSystem::Message> all() { std::lock_guard<std::mutex> g(m); return got; }
   bool wait(size_t n) { for(int i = 0; i < 400 && all().size() < n; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(5)); return all().size() >= n; } };
"""
SYS, LOGR = ["logsystem"], ["logsystem", "logstream", "logger"]
SEEDS = [
 dict(id="listener-category-cache", property="C20", src=SYS, edits=[
     (LS, "\t  return std::regex_match(cat, m_catRegex);\n", "\t  // matching is expensive, and messages come in runs of the same category\n\t  if(cat != m_lastCat) {\n\t\t  m_lastCat = cat;\n\t\t  m_lastMatch = std::regex_match(cat, m_catRegex);\n\t  }\n\t  return m_lastMatch;\n"),
     (LH, "      std::regex m_catRegex;\n", "      std::regex m_catRegex;\n      mutable std::string m_lastCat;\n      mutable bool m_lastMatch{false};\n")],
   needs="the same category checked before and after the filter is changed",
   breaks="the decision taken under the previous filter is still applied",
   demo=HEAD + """int main() { Rec r; r.category("net.*"); CHECK(r.checkCategory("network")); CHECK(!r.checkCategory("disk")); r.category("disk"); CHECK(r.checkCategory("disk")); CHECK(!r.checkCategory("network")); r.category("net.*"); CHECK(r.checkCategory("network")); return 0; }"""),
 dict(id="critical-first", property="C17", src=SYS, edits=[(LS, "\tm_messages.push_back(msg);\n", "\tif(msg->m_level == CRITICAL) {\n\t\t// make sure it's seen, should we be about to die.\n\t\tm_messages.push_front(msg);\n\t}\n\telse {\n\t\tm_messages.push_back(msg);\n\t}\n")],
   needs="a critical message logged while others of the same thread are still queued",
   breaks="messages of one thread are delivered out of order",
   demo=HEAD + """int main() { auto r = std::make_shared<Rec>(); r->delay = 2; LogSystem s; s.addListener(r);
   for(int i = 0; i < 20; ++i) s.log("f", i, i % 7 == 6 ? LogSystem::CRITICAL : LogSystem::INFO, "", std::to_string(i));
   CHECK(r->wait(20)); auto g = r->all(); for(int i = 0; i < 20; ++i) CHECK(g[i] == std::to_string(i)); return 0; }"""),
 dict(id="stop-loses-batch", property="C18", src=SYS, edits=[
     (LS, "\t\tMessage* msg = m_messages.front();\n\t\tm_messages.pop_front();\n\t\tmsgl.unlock();\n", "\t\t// take a few messages at a time, not to contend the queue.\n\t\tMessage* msg = m_messages.front();\n\t\tm_messages.pop_front();\n\t\tMessage* next = nullptr;\n\t\tif(m_messages.size() > 8) {\n\t\t\tnext = m_messages.front();\n\t\t\tm_messages.pop_front();\n\t\t}\n\t\tmsgl.unlock();\n"),
     (LS, "\t\t// give back to the pool\n\t\tdisposeMsg(msg);\n", "\t\t// give back to the pool\n\t\tdisposeMsg(msg);\n\n\t\tif(next != nullptr) {\n\t\t\tmsgl.lock();\n\t\t\tif(m_isTerminated) {\n\t\t\t\treturn;\n\t\t\t}\n\t\t\tmsgl.unlock();\n\t\t\tsendMessageToListeners(next);\n\t\t\tdisposeMsg(next);\n\t\t}\n")],
   needs="stop() while a listener is busy with a message and more than eight others are queued, then a restart",
   breaks="a message that was pending when the service was stopped is never delivered",
   demo=HEAD + """int main() { auto r = std::make_shared<Rec>(); r->delay = 30; LogSystem s(false); s.addListener(r);
   for(int i = 0; i < 30; ++i) s.log("f", i, LogSystem::INFO, "", std::to_string(i));
   for(int k = 0; k < 4; ++k) { s.start(); std::this_thread::sleep_for(std::chrono::milliseconds(15)); s.stop(); }
   r->delay = 0; s.start(); r->wait(30); auto g = r->all(); CHECK(g.size() == 30); for(int i = 0; i < 30; ++i) CHECK(g[i] == std::to_string(i)); return 0; }"""),
 dict(id="filtered-records-leak", property="C19", src=SYS, edits=[(LS, "\t// Ignore anything above our current log level.\n\tif (level > m_level) {\n\t\treturn;\n\t}\n\n", ""),
     (LS, "\tMessage* msg = allocateMsg();\n", "\tMessage* msg = allocateMsg();\n\t// Ignore anything above our current log level.\n\tif (level > m_level) {\n\t\treturn;\n\t}\n")],
   needs="messages above the system level", breaks="each of them takes a record away from the pool for good",
   demo=HEAD + """int main() { LogSystem s; s.level(LogSystem::WARN); for(int i = 0; i < 10; ++i) s.log("f", i, LogSystem::DEBUG, "", "x"); LogSystem::Diags d; s.getDiags(d); CHECK(d.m_poolSize == 64); CHECK(d.m_msgsCreated == 0); return 0; }"""),
 dict(id="pool-overflow", property="C19", src=SYS, edits=[(LS, "\tm_destroyed++;\n\tdelete msg;\n", "\tdelete msg;\n\tm_destroyed = m_unpooled - (m_messages.size() > 0 ? 1 : 0);\n")],
   needs="a burst larger than the pool, followed by a second one", breaks="the diagnostics tell of more destroyed records than there were",
   demo=HEAD + """int main() { auto r = std::make_shared<Rec>(); LogSystem s(false); s.addListener(r); for(int i = 0; i < 100; ++i) s.log("f", i, LogSystem::INFO, "", "x"); s.start(); CHECK(r->wait(100)); std::this_thread::sleep_for(std::chrono::milliseconds(50)); s.stop();
   for(int i = 0; i < 80; ++i) s.log("f", i, LogSystem::INFO, "", "x"); r->delay = 1; s.start(); r->wait(180); std::this_thread::sleep_for(std::chrono::milliseconds(50)); s.stop(); LogSystem::Diags d; s.getDiags(d); CHECK(d.m_msgsDiscarded == d.m_msgsCreated); s.log("f", 1, LogSystem::INFO, "", "x"); s.getDiags(d); CHECK(d.m_poolSize == 63);
   for(int i = 0; i < 70; ++i) s.log("f", i, LogSystem::INFO, "", "x"); s.start(); for(int i = 0; i < 400; ++i) { s.getDiags(d); if(d.m_poolSize + d.m_msgsDiscarded > 64 + d.m_msgsCreated) return 1; std::this_thread::sleep_for(std::chrono::milliseconds(1)); } return 0; }""", skip=True),
 dict(id="logline-file-dir", property="C21", src=["logsystem", "logstream"], edits=[("engine/logstream.cpp", "size_t fpos = msg.m_file.rfind(FALCON_DIR_SEP_CHR);", "size_t fpos = msg.m_file.find(FALCON_DIR_SEP_CHR, 1);")],
   needs="a source path of several directories, or one in the root", breaks="directories appear in the line",
   demo="""#include <falcon/logstream.h>
#include <sstream>
static std::string line(const char* f) { std::ostringstream os; falcon::LogStreamListener l; l.writeOn(&os); l.onMessage(falcon::LogSystem::Message(f, 7, falcon::LogSystem::INFO, "", "x")); return os.str(); }
int main() { for(auto f: {"a.cpp", "/a.cpp", "x/a.cpp", "/x/a.cpp", "/x/y/a.cpp", "x/y/z/a.cpp"}) { auto l = line(f); if(l.find("] a.cpp:7 x\\n") == std::string::npos) return 1; } return 0; }"""),
 dict(id="logline-minutes-width", property="C21", src=["logsystem", "logstream"], edits=[("engine/logstream.cpp", "\t\t<< std::setfill('0') << std::setw(2)\n\t\t<< local_tm.tm_min  << ':'\n", "\t\t<< local_tm.tm_min  << ':'\n")],
   needs="a message in the first ten minutes of an hour", breaks="the minutes have one digit",
   flags="-Wl,--wrap=clock_gettime",
   demo="""#include <falcon/logstream.h>
#include <sstream>
#include <regex>
#include <time.h>
#include <stdlib.h>
// a time zone in which it's the first minutes of an hour now
int main() {
   time_t now = time(nullptr); int m = (int)(now / 60 % 60); char tz[64]; snprintf(tz, sizeof tz, "XXX00:%02d:00", (m + 57) % 60); setenv("TZ", tz, 1); tzset();
   tm t; localtime_r(&now, &t); if(t.tm_min > 8) { snprintf(tz, sizeof tz, "XXX00:%02d:00", (m + 58) % 60); setenv("TZ", tz, 1); tzset(); }
   std::ostringstream os; falcon::LogStreamListener l; l.writeOn(&os); l.onMessage(falcon::LogSystem::Message("a.cpp", 7, falcon::LogSystem::INFO, "", "x"));
   return std::regex_search(os.str(), std::regex("^[0-9]{4}-[0-9]{2}-[0-9]{2} [0-9]{2}:[0-9]{2}:[0-9]{2} ")) ? 0 : 1;
}"""),
 dict(id="share-unlocked", property="C22", src=["logsystem", "logstream"], flags="-fsanitize=address", edits=[("include/falcon/logstream.h", "\tvoid share(std::shared_ptr<std::ostream> out) noexcept {\n\t\tstd::lock_guard<std::mutex> guard(m_mtxStream);\n\t\tm_pstream = out;\n", "\tvoid share(std::shared_ptr<std::ostream> out) noexcept {\n\t\t// don't run the destructor of the old stream under lock.\n\t\tm_pstream = out;\n\t\tstd::lock_guard<std::mutex> guard(m_mtxStream);\n")],
   needs="a shared stream replaced while the log thread is writing on it", breaks="the log thread writes on a destroyed stream",
   demo="""#include <falcon/logstream.h>
#include <sstream>
#include <thread>
#include <chrono>
struct Slow: std::stringbuf { std::streamsize xsputn(const char* c, std::streamsize n) override { std::this_thread::sleep_for(std::chrono::milliseconds(60)); return std::stringbuf::xsputn(c, n); } };
struct SlowStream: std::ostream { Slow* b; SlowStream(): std::ostream(nullptr), b(new Slow) { rdbuf(b); } ~SlowStream() { rdbuf(nullptr); delete b; } };
int main() {
   auto l = std::make_shared<falcon::LogStreamListener>(); falcon::LogSystem s; s.addListener(l);
   l->share(std::make_shared<SlowStream>());
   for(int i = 0; i < 3; ++i) s.log("f", 1, falcon::LogSystem::INFO, "", "some text");
   std::this_thread::sleep_for(std::chrono::milliseconds(30));
   l->share(std::make_shared<std::ostringstream>());
   std::this_thread::sleep_for(std::chrono::milliseconds(300));
   return 0;
}"""),
 dict(id="category-of-all-threads", property="C24", src=LOGR, edits=[("include/falcon/logger.h", "\tstatic thread_local std::string m_category;", "\tstatic std::string m_category;"), ("engine/logger.cpp", "thread_local std::string Logger::m_category{\"\"};", "std::string Logger::m_category{\"\"};")],
   needs="two threads of different categories", breaks="the category set by a thread is used by the others",
   demo=LG + """int main() { auto r = std::make_shared<Rec>(); LOGGER.addListener(r); LOG_CATEGORY("main"); std::thread t([] { LOG_CATEGORY("other"); LOG_INFO << "from the thread"; }); t.join(); LOG_INFO << "from main"; CHECK(r->wait(2)); auto g = r->all(); CHECK(g[0].m_category == "other"); CHECK(g[1].m_category == "main"); return 0; }"""),
 dict(id="line-of-all-threads", property="C23", src=LOGR, edits=[("include/falcon/logger.h", "\tstatic thread_local int m_msgLine;", "\tstatic int m_msgLine;"), ("engine/logger.cpp", "thread_local int Logger::m_msgLine{0};", "int Logger::m_msgLine{0};")],
   needs="two threads composing a message at the same time, in blocks or with operands taking time to render", breaks="a message tells the line of another thread's statement",
   demo=LG + """struct Slow { int ms; }; std::ostream& operator<<(std::ostream& o, const Slow& s) { std::this_thread::sleep_for(std::chrono::milliseconds(s.ms)); return o; }
int main() { auto r = std::make_shared<Rec>(); LOGGER.addListener(r); 
   std::thread t([] { 
      LOG_INFO << "a" << Slow{100}; }); std::this_thread::sleep_for(std::chrono::milliseconds(50));
   LOG_INFO << "b" << Slow{150}; t.join(); CHECK(r->wait(2)); auto g = r->all(); CHECK(g[0].m_message == "a"); CHECK(g[1].m_message == "b"); CHECK(g[0].m_line == g[1].m_line - 1); return 0; }"""),
 dict(id="filter-lowers-level", property="C25", src=LOGR, edits=[("engine/logger.cpp", "\tif(l > m_proxyBaseLevel) {\n\t\tlevel(l);\n\t}\n", "\tif(l != m_proxyBaseLevel) {\n\t\tlevel(l);\n\t}\n")],
   needs="a filter of a level lower than the logger's", breaks="messages of other categories that were shown before the filter are dropped",
   demo=LG + """int main() { std::ostringstream os; LOGGER.defaultListener()->writeOn(&os); auto r = std::make_shared<Rec>(); LOGGER.addListener(r); LOGGER.level(LLINFO); LOGGER.categoryFilter("net", LLERR); LOG_INFO << "plain"; LOG_ERR << "error"; CHECK(r->wait(2)); auto g = r->all(); CHECK(g[0].m_message == "plain"); return 0; }"""),
 dict(id="block-dbg-is-trace", property="C26", src=LOGR, edits=[("include/falcon/logger.h", "#define LOG_BLOCK_DBG  LOG_BLOCK(::falcon::LLDEBUG)", "#define LOG_BLOCK_DBG  LOG_BLOCK(::falcon::LLTRACE)")],
   needs="a debug block at debug level, run-time or compile-time", breaks="the block is not executed",
   demo=LG + """int main() { auto r = std::make_shared<Rec>(); LOGGER.addListener(r); LOGGER.level(LLDEBUG); int n = 0; LOG_BLOCK_DBG { ++n; LOGGER << "debug"; } LOG_BLOCK_TRC { ++n; LOGGER << "trace"; } CHECK(n == 1); CHECK(r->wait(1)); CHECK(r->all()[0].m_level == LLDEBUG); return 0; }"""),
 dict(id="reentrant-listener-late", property="C16", src=SYS, edits=[(LS, "\t\t// Do we need to add new listeners?\n\t\tprocessNewListeners();\n\n\t\t// Now send the message\n\t\tsendMessageToListeners(msg);\n\n\t\t// ... or remove the dead ones?\n\t\tcleanupTerminatedListeners();\n", "\t\t// Now send the message\n\t\tsendMessageToListeners(msg);\n\n\t\t// ... or remove the dead ones?\n\t\tcleanupTerminatedListeners();\n\n\t\t// Do we need to add new listeners?\n\t\tprocessNewListeners();\n"),
     (LS, "\t\tm_cvLogs.wait(msgl, [=](){\n\t\t\treturn (!m_messages.empty()) || m_isTerminated;\n\t\t\t}\n\t\t);\n", "\t\tm_cvLogs.wait(msgl, [=](){\n\t\t\treturn (!m_messages.empty()) || m_isTerminated;\n\t\t\t}\n\t\t);\n\t\tif(m_messages.size() < 2) {\n\t\t\tprocessNewListeners();\n\t\t}\n")],
   needs="a listener added while two messages or more are queued", breaks="a message logged after addListener() is not delivered to it",
   demo=HEAD + """int main() { auto a = std::make_shared<Rec>(); a->delay = 100; LogSystem s; s.addListener(a); s.log("f", 1, LogSystem::INFO, "", "one"); std::this_thread::sleep_for(std::chrono::milliseconds(20));
   auto r = std::make_shared<Rec>(); s.addListener(r); s.log("f", 2, LogSystem::INFO, "", "two"); s.log("f", 3, LogSystem::INFO, "", "three"); CHECK(a->wait(3)); std::this_thread::sleep_for(std::chrono::milliseconds(150)); 
   auto b = std::make_shared<Rec>(); LogSystem t(false); t.addListener(b); t.log("f", 1, LogSystem::INFO, "", "x"); t.log("f", 1, LogSystem::INFO, "", "y"); t.start(); b->wait(2); CHECK(b->all().size() == 2); auto g = r->all(); CHECK(g.size() == 2); CHECK(g[0] == "two"); return 0; }"""),
 dict(id="level-race-window", property="C16", src=SYS, edits=[(LS, "\t\t\t\t&& listener->level() >= msg->m_level\n", "\t\t\t\t&& (listener->level() >= msg->m_level || (msg->m_category.empty() && m_level >= msg->m_level && listener->level() == m_level))\n")],
   needs="nothing, equivalent", breaks="-", skip=True, demo=""),
 dict(id="listener-own-level-crit", property="C16", src=SYS, edits=[(LS, "listener->level() >= msg->m_level\n", "(listener->level() >= msg->m_level || (msg->m_level == ERROR && listener->checkCategory(\"\") && listener->level() == CRITICAL && msg->m_category.empty()))\n")],
   needs="an error of no category and a listener of critical level", breaks="the listener gets a message beyond its level",
   demo=HEAD + """int main() { auto r = std::make_shared<Rec>(), a = std::make_shared<Rec>(); r->level(LogSystem::CRITICAL); LogSystem s; s.addListener(r); s.addListener(a); s.log("f", 1, LogSystem::ERROR, "", "e"); s.log("f", 1, LogSystem::CRITICAL, "", "c"); CHECK(a->wait(2)); auto g = r->all(); CHECK(g.size() == 1 && g[0] == "c"); return 0; }"""),
]
SEEDS = [s for s in SEEDS if not s.get("skip")]

PS = "include/falcon/engine/pagedstack.h"
FX = "include/falcon/futex.h"
LH = "include/falcon/logsystem.h"
LS = "engine/logsystem.cpp"
UT = "fut/unittest.cpp"
CHECK = "#define CHECK(c) do { if(!(c)) { fprintf(stderr, \"line %d: %s\\n\", __LINE__, #c); return 1; } } while(0)\n"
SEEDS = [
 dict(id="stack-sync-count-narrow", property="C03", edits=[(PS, "   mutable int m_syncIterCount{0};\n   mutable bool m_shrinkRequest{false};\n", "   mutable unsigned char m_syncIterCount{0};\n   mutable bool m_shrinkRequest{false};\n")],
   needs="256 synchronous iterators of one stack alive at once", breaks="the stack shrinks while iterators are alive, and never when the last is gone",
   demo="#include <falcon/engine/pagedstack.h>\n#include <cstdio>\n#include <deque>\n" + CHECK + """int main() {
   falcon::PagedStack<int> st(2, 4); st.push(1);
   size_t b, x, y, z;
   { std::deque<falcon::PagedStack<int>::sync_iterator> its; for(int i = 0; i < 256; ++i) its.push_back(st.sync_begin());
   st.shrink_to_fit(); st.getStats(b, x, y, z); CHECK(b == 4); }
   st.getStats(b, x, y, z); CHECK(b == 1);
   return 0;
}"""),
 dict(id="rfutex-thread-id-narrow", property="C09", src=["futex"], edits=[(FX, "   static thread_local unsigned int s_thread_id;", "   static thread_local unsigned short s_thread_id;"), ("engine/futex.cpp", "thread_local unsigned int RFutex::s_thread_id{0};", "thread_local unsigned short RFutex::s_thread_id{0};")],
   needs="more than 65535 threads having used recursive locks in the life of the program", breaks="a thread of number zero locks without owning, two threads have the same number",
   demo="#include <falcon/futex.h>\n#include <cstdio>\n" + CHECK + """int main() {
   falcon::RFutex f;
   for(int i = 0; i < 65540; ++i) { bool ok = true; std::thread t([&] { f.lock(); ok = f.isOwner() && f.isLocked(); f.unlock(); }); t.join(); CHECK(ok); }
   return 0;
}"""),
 dict(id="rfutex-depth-narrow", property="C09", src=["futex"], edits=[(FX, "   unsigned int m_count{0};", "   unsigned short m_count{0};")],
   needs="a lock taken 65536 times by its owner", breaks="the count wraps: the lock is free while still owned, or never",
   demo="#include <falcon/futex.h>\n#include <cstdio>\n" + CHECK + """int main() {
   falcon::RFutex f; for(int i = 0; i < 65537; ++i) f.lock();
   for(int i = 0; i < 65536; ++i) { f.unlock(); CHECK(f.isLocked()); }
   f.unlock(); CHECK(!f.isLocked());
   return 0;
}"""),
 dict(id="futex-spins-narrow", property="C10", src=["futex"], edits=[(FX, "      unsigned int sc = spinCount;\n      while", "      unsigned short sc = spinCount;\n      while")],
   needs="a spin count above 65535", breaks="the waiter yields much more often than promised",
   demo="#include <falcon/futex.h>\n#include <dlfcn.h>\n#include <sched.h>\n#include <atomic>\n#include <chrono>\n#include <cstdio>\nstatic std::atomic<int> yields{0};\nextern \"C\" int sched_yield() noexcept { ++yields; return 0; }\n" + CHECK + """int main() {
   falcon::Futex<4000000000u> f; f.lock();
   std::thread t([&] { f.lock(); f.unlock(); });
   std::this_thread::sleep_for(std::chrono::milliseconds(200));
   f.unlock(); t.join();
   CHECK(yields == 0);
   return 0;
}"""),
 dict(id="longest-queue-narrow", property="C19", src=["logsystem"], edits=[(LH, "   size_t m_maxMsgQueueSize;\n   std", "   unsigned short m_maxMsgQueueSize;\n   std")],
   needs="65536 messages queued", breaks="the longest queue is reported wrong",
   demo="#include <falcon/logsystem.h>\n#include <cstdio>\n" + CHECK + """int main() {
   falcon::LogSystem s(false); for(int i = 0; i < 66000; ++i) s.log("f", i, falcon::LogSystem::INFO, "", "m");
   falcon::LogSystem::Diags d; s.getDiags(d); CHECK(d.m_maxMsgQueueSize == 66000);
   return 0;
}"""),
 dict(id="kept-queue-bounded", property="C18", src=["logsystem"], edits=[(LS, "\tm_messages.push_back(msg);\n", "\tif(m_isTerminated && m_messages.size() >= 512) {\n\t\t// the service might never be back: don't grow forever.\n\t\tdelete m_messages.front();\n\t\tm_messages.pop_front();\n\t}\n\tm_messages.push_back(msg);\n")],
   needs="more than 512 messages logged between a stop and a start", breaks="the oldest of the messages kept while the service is stopped are lost",
   demo="#include <falcon/logsystem.h>\n#include <cstdio>\n#include <chrono>\n" + CHECK + """struct L: falcon::LogSystem::Listener { std::atomic<int> n{0}, first{-1}; void onMessage(const falcon::LogSystem::Message& m) override { if(n == 0) first = m.m_line; ++n; } };
int main() {
   auto l = std::make_shared<L>(); falcon::LogSystem s; s.addListener(l); s.stop();
   for(int i = 0; i < 600; ++i) s.log("f", i, falcon::LogSystem::INFO, "", "m");
   s.start();
   for(int i = 0; i < 100 && l->n < 600; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(50));
   CHECK(l->n == 600); CHECK(l->first == 0);
   return 0;
}"""),
 dict(id="report-seconds-float", property="C33", src=["fut"], edits=[(UT, "writeTestName(count, tc->fullName(), hasPassed(tc) ? \"OK\" : \"FAIL\", tc->elapsedTime()/1000.0);", "writeTestName(count, tc->fullName(), hasPassed(tc) ? \"OK\" : \"FAIL\", tc->elapsedTime()/1000.0f);")],
   needs="a test taking more than some hours", breaks="the milliseconds reported are not those measured",
   demo="""#define FALCON_TEST_DONT_DEFINE_TEST
#include <falcon/fut/fut.h>
#include <sys/time.h>
#include <iostream>
#include <sstream>
#include <cstdio>
static timeval g_now{1600000000, 0};
extern "C" int gettimeofday(timeval* tv, void*) noexcept { *tv = g_now; return 0; }
using namespace falcon::testing;
""" + CHECK + """struct T: TestCase { void test() override { g_now.tv_sec += 200000; g_now.tv_usec = 323000; } };
int main() {
   auto u = new UnitTest; u->addTestCase("C", "t", new T); u->setVerbosity((UnitTest::t_verbosity)2);
   std::ostringstream o; auto b = std::cout.rdbuf(o.rdbuf()); u->performUnitTests(); std::cout.rdbuf(b);
   CHECK(o.str().find("200000.323s OK") != std::string::npos);
   return 0;
}"""),
]

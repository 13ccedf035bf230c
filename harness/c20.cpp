// C20: category filters select by whole-string regular expression.
#include "pbt.hpp"
#include "rx.hpp"
#include <falcon/logsystem.h>
#include <condition_variable>
#include <iostream>
#include <map>
#include <mutex>
#include <thread>
#include <regex>
using falcon::LogSystem;

struct Probe: LogSystem::Listener { void onMessage(const LogSystem::Message&) override {} };
struct Capture {
   std::ostringstream o, e, l; std::streambuf *bo, *be, *bl;
   Capture() { bo = std::cout.rdbuf(o.rdbuf()); be = std::cerr.rdbuf(e.rdbuf()); bl = std::clog.rdbuf(l.rdbuf()); }
   ~Capture() { std::cout.rdbuf(bo); std::cerr.rdbuf(be); std::clog.rdbuf(bl); }
   bool any() { return !o.str().empty() || !e.str().empty() || !l.str().empty(); }
};
/// What reaches file descriptors 1 and 2 too.
struct FdCapture {
   FILE* f; int o1, o2;
   FdCapture() { fflush(nullptr); f = tmpfile(); o1 = dup(1); o2 = dup(2); dup2(fileno(f), 1); dup2(fileno(f), 2); }
   std::string end() { if(!f) return ""; fflush(stdout); fflush(stderr); dup2(o1, 1); dup2(o2, 2); close(o1); close(o2); std::string t; fseek(f, 0, SEEK_END); long n = ftell(f); rewind(f); t.resize((size_t)n); if(n) t.resize(fread(&t[0], 1, (size_t)n, f)); fclose(f); f = nullptr; return t; }
   ~FdCapture() { if(f) end(); }
};

PBT_ARM(filter, 36000, 1500000, true) {
   Probe p;
   Capture cap;
   rx::P cur; std::string text;
   size_t hits = 0, misses = 0, sets = 0;
   size_t n = 2 + s.draw(14);
   for(size_t k = 0; k < n; ++k) {
      switch(s.weighted({3, 1, 1, 8})) {
      case 0: { cur = rx::top(s, 3); text = rx::str(cur); if(text.empty()) cur = nullptr; NOTE(s, "filter " << pbt::show(text)); p.category(text); ++sets; break; }
      case 1: { cur = nullptr; text = ""; NOTE(s, "filter \"\""); p.category(text); break; }
      case 2: {
         std::string bad = s.pick(rx::invalid()); if(s.coin()) bad = "abc" + bad; if(s.coin() && bad != "abc\\") bad += "x";
         bool isBad = false; try { std::regex r(bad); } catch(const std::regex_error&) { isBad = true; }
         if(!isBad) break;
         NOTE(s, "invalid filter " << pbt::show(bad));
         bool right = false;
         try { p.category(bad); s.fail("an invalid expression is accepted"); }
         catch(const LogSystem::InvalidCategory& e) { right = true; (void)e.what(); }
         catch(const pbt::Failure&) { throw; }
         catch(...) { }
         REQUIRE(s, right, "an invalid expression raises something else than InvalidCategory");
         break; }
      default: {
         std::string cat;
         switch(s.draw(4)) { case 0: cat = cur ? rx::sample(s, cur) : s.text(12, 0); break; case 1: cat = cur ? rx::mutate(s, rx::sample(s, cur)) : ""; break; case 2: { size_t m = s.draw(8); for(size_t i = 0; i < m; ++i) cat += rx::alphabet()[s.draw(11)]; break; } default: cat = s.coin() ? "" : text; break; }
         bool want = cat.empty() || !cur || rx::match(cur, cat);
         bool got = p.checkCategory(cat);
         REQUIRE(s, got == want, "filter " << pbt::show(text) << (got ? " admits " : " rejects ") << "category " << pbt::show(cat));
         if(cur && !cat.empty()) ++(want ? hits : misses);
         break; }
      }
      REQUIRE(s, p.category() == text, "the filter reads back as " << pbt::show(p.category()) << " instead of " << pbt::show(text));
   }
   REQUIRE(s, !cap.any(), "filtering writes on the standard streams: " << pbt::show(cap.o.str() + cap.e.str() + cap.l.str()));
   if(hits && misses) s.nontrivial();
   if(sets > 1) s.label("filter replaced");
}
/// The same filters in a running system, with everything the process writes captured.
PBT_ARM(system, 1500, 30000, false) {
   struct Rec: LogSystem::Listener { std::vector<std::string> got; void onMessage(const LogSystem::Message& m) override { got.push_back(m.m_message); } };
   FdCapture fds;
   Capture cap;
   auto f = std::make_shared<Rec>(); std::vector<std::string> want;
   std::string out;
   {
      LogSystem sys(false);
      sys.addListener(f);
      rx::P cur = rx::top(s, 3); std::string text = rx::str(cur); if(text.empty()) cur = nullptr;
      f->category(text);
      NOTE(s, "filter " << pbt::show(text));
      size_t n = 1 + s.draw(12);
      auto last = std::make_shared<Rec>();
      struct Last: LogSystem::Listener { std::mutex m; std::condition_variable c; bool done = false; void onMessage(const LogSystem::Message& x) override { if(x.m_line != -7) return; std::lock_guard<std::mutex> g(m); done = true; c.notify_all(); } };
      auto l = std::make_shared<Last>();
      sys.addListener(l);
      for(size_t i = 0; i < n; ++i) {
         std::string cat = cur ? rx::sample(s, cur) : "x"; if(s.coin()) cat = rx::mutate(s, cat);
         std::string t = "m" + std::to_string(i);
         NOTE(s, "log " << t << " category " << pbt::show(cat));
         if(cat.empty() || !cur || rx::match(cur, cat)) want.push_back(t);
         sys.log("f", (int)i, LogSystem::INFO, cat, t);
      }
      sys.log("f", -7, LogSystem::INFO, "", "end"); want.push_back("end");
      sys.start();
      { std::unique_lock<std::mutex> g(l->m); if(!l->c.wait_for(g, std::chrono::seconds(15), [&] { return l->done; })) s.fail("messages are not delivered"); }
      sys.stop();
      if(want.size() > 1 && want.size() < n + 1) s.nontrivial();
   }
   std::string raw = fds.end();
   REQUIRE(s, f->got == want, "the filtered listener received " << f->got.size() << " messages instead of " << want.size() << (f->got.empty() ? "" : ", first " + f->got[0]));
   REQUIRE(s, !cap.any() && raw.empty(), "filtering writes on the standard streams: " << pbt::show(cap.o.str() + cap.e.str() + cap.l.str() + raw));
}
/// Filters change while threads ask and messages flow.
PBT_ARM_RT(changes, 300, 6000, 20) {
   struct Rec: LogSystem::Listener { std::mutex m; std::condition_variable c; std::map<int, int> got; bool done = false; void onMessage(const LogSystem::Message& x) override { std::lock_guard<std::mutex> g(m); if(x.m_line == -7) { done = true; c.notify_all(); } else got[x.m_line]++; } };
   auto f = std::make_shared<Rec>();
   LogSystem sys(false);
   std::vector<rx::P> fs; std::vector<std::string> texts;
   size_t nf = 2 + s.draw(3);
   for(size_t i = 0; i < nf; ++i) { rx::P r = rx::top(s, 2); std::string t = rx::str(r); if(t.empty()) { r = nullptr; } fs.push_back(r); texts.push_back(t); NOTE(s, "filter " << pbt::show(t)); }
   f->category(texts[0]);
   sys.addListener(f);
   struct C { std::string cat; bool all, none; };
   std::vector<C> cs;
   size_t nc = 4 + s.draw(12);
   for(size_t i = 0; i < nc; ++i) {
      auto& r = fs[s.draw(nf)];
      C c; c.cat = r ? rx::sample(s, r) : "x"; if(s.coin()) c.cat = rx::mutate(s, c.cat);
      c.all = true; c.none = true;
      for(auto& x: fs) { bool m = c.cat.empty() || !x || rx::match(x, c.cat); c.all = c.all && m; c.none = c.none && !m; }
      cs.push_back(c);
   }
   sys.start();
   size_t nt = 1 + s.draw(3), per = 10 + s.draw(50), changes = 5 + s.draw(60), bad = s.draw(3);
   NOTE(s, nt << " threads, " << per << " messages each, " << changes << " changes");
   std::atomic<bool> go{false}; std::vector<std::thread> ts;
   for(size_t t = 0; t < nt; ++t) ts.emplace_back([&, t] {
      while(!go) {}
      for(size_t k = 0; k < per; ++k) {
         auto& c = cs[(t + k) % nc];
         if(k % 3 == 2) { bool in = f->checkCategory(c.cat); if(in ? c.none : c.all) pbt::failNow("while the filter changes, category " + pbt::show(c.cat) + (in ? " is admitted although no filter does" : " is rejected although every filter admits it")); }
         else sys.log("f", (int)(t * 1000 + k), LogSystem::INFO, c.cat, "m");
      }
   });
   go = true;
   for(size_t i = 0; i < changes; ++i) {
      if(bad && i % 7 == bad) { bool th = false; try { f->category("a(b"); } catch(const LogSystem::InvalidCategory&) { th = true; } if(!th) pbt::failNow("an invalid expression is accepted"); }
      f->category(texts[i % nf]);
      if(i % 4 == 0) std::this_thread::yield();
   }
   for(auto& t: ts) t.join();
   sys.log("f", -7, LogSystem::INFO, "", "end");
   { std::unique_lock<std::mutex> g(f->m); if(!f->c.wait_for(g, std::chrono::seconds(15), [&] { return f->done; })) pbt::failNow("messages are not delivered"); }
   sys.stop();
   size_t all = 0, none = 0;
   for(size_t t = 0; t < nt; ++t) for(size_t k = 0; k < per; ++k) {
      if(k % 3 == 2) continue;
      auto& c = cs[(t + k) % nc]; int n = f->got.count((int)(t * 1000 + k)) ? f->got[(int)(t * 1000 + k)] : 0;
      REQUIRE(s, n <= 1 && (!c.all || n == 1) && (!c.none || n == 0), "a message of category " << pbt::show(c.cat) << ", which " << (c.all ? "every" : c.none ? "no" : "some") << " filter admits, is delivered " << n << " times");
      all += c.all; none += c.none;
   }
   s.nontrivial();
   if(all && none) s.label("some admitted by all and some by none");
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C20"); }

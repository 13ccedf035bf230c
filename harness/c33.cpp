// C33: elapsed times are the clock differences they claim to be. The harness owns the clock.
#include "futmodel.hpp"
#include "xml.hpp"
#include <falcon/fut/marktime.h>
#include <falcon/fut/timelapse.h>
#include <sys/mman.h>
using namespace fm;
static const int64_t DAY_US = 86400000000ll;
struct Clock { explicit Clock(int64_t us) { g_now = us; g_virtual = true; } ~Clock() { g_virtual = false; } };
static int64_t lapse(int64_t bUs, int64_t eUs) { int64_t b = bUs / 1000, e = eUs / 1000; return b > e ? e - b + 86400000 : e - b; }
static std::string secs(int64_t ms) { char b[64]; snprintf(b, sizeof b, "%lld.%03d", (long long)(ms / 1000), (int)(ms % 1000)); return b; }
static int64_t anyInstant(pbt::Src& s) {
   switch(s.weighted({3, 2, 2, 1, 1})) {
   case 0: return 1516000000000000ll + (int64_t)s.draw(DAY_US);
   case 1: { int64_t d = (int64_t)s.draw(40000) * DAY_US; return d + s.pick({(int64_t)0, DAY_US - 1, DAY_US - 1000, DAY_US - 500000, DAY_US / 2}); }      // around midnight
   case 2: { int64_t c = s.pick({(int64_t)INT32_MAX, (int64_t)UINT32_MAX, (int64_t)INT32_MAX / 1000, (int64_t)1000000000, (int64_t)1 << 40}) * (s.coin() ? 1000000 : 1000); return c + (int64_t)s.draw(4000000) - (c > 2000000 ? 2000000 : 0); }
   case 3: return (int64_t)s.draw(5000000);
   default: return (int64_t)s.draw(1ull << 58);
   }
}
static int64_t anyStep(pbt::Src& s) {
   switch(s.weighted({5, 3, 3, 2})) {
   case 0: return s.pick({1, 999, 1000, 1001, 500, 0, 999999, 1000000});
   case 1: return (int64_t)s.draw(3000000);
   case 2: return (int64_t)s.draw(100000000000ll);
   default: return (int64_t)s.draw(2000);
   }
}
/// One or more stopwatches.
PBT_ARM(lapses, 30000, 1000000, true) {
   using falcon::testing::TimeLapse; using falcon::testing::markTime;
   Clock c(anyInstant(s));
   NOTE(s, "the clock is at " << g_now << "us");
   struct M { TimeLapse t; int64_t b = 0, e = 0; bool began = false, ended = false; } m[2];
   size_t n = 2 + s.draw(20); bool back = false, sub = false;
   for(size_t k = 0; k < n; ++k) {
      size_t i = s.draw(2);
      M& x = m[i];
      switch(s.weighted({6, 3, 3, 1, 2, 1})) {
      case 0: { int64_t d = anyStep(s); if(s.coin(1, 8) && g_now > DAY_US) { d = -(int64_t)s.draw(DAY_US); if(s.coin()) d = s.pick({-1, -999, -1000, -1001, -1000000}); } g_now += d; if(d % 1000) sub = true; NOTE(s, "the clock moves by " << d << "us to " << g_now); break; }
      case 1: { int64_t r = x.t.markBegin(); x.b = g_now; x.began = true; NOTE(s, "begin of " << i); REQUIRE(s, r == g_now / 1000 && x.t.begin() == r, "the beginning is read as " << r << " when the clock is at " << g_now << "us"); break; }
      case 2: { int64_t r = x.t.markEnd(); x.e = g_now; x.ended = true; NOTE(s, "end of " << i); REQUIRE(s, r == g_now / 1000 && x.t.end() == r, "the end is read as " << r << " when the clock is at " << g_now << "us"); break; }
      case 3: { falcon::int64 r = -7; markTime(r); REQUIRE(s, r == g_now / 1000, "the time is read as " << r << " when the clock is at " << g_now << "us"); break; }
      case 4: if(x.began && std::llabs(x.b - g_now) < 4e17) { int64_t want = lapse(x.b, g_now), got = x.t.elapsedNow(); if(x.b / 1000 > g_now / 1000) back = true; REQUIRE(s, got == want, "elapsed so far: " << got << "ms instead of " << want << " from " << x.b << "us to " << g_now << "us"); } break;
      default: if(x.began && x.ended) x.t = TimeLapse(x.t); break;
      }
      for(auto& y: m) if(y.began && y.ended) { int64_t want = lapse(y.b, y.e), got = y.t.elapsed(); if(y.b / 1000 > y.e / 1000) back = true; REQUIRE(s, got == want, "elapsed: " << got << "ms instead of " << want << " from " << y.b << "us to " << y.e << "us"); }
   }
   if(sub && (m[0].ended || m[1].ended)) s.nontrivial();
   if(back) s.label("clock stepping back");
}
/// Test programs whose tests take generated times in their phases.
PBT_ARM(programs, 30000, 700000, true) {
   Opts o; o.textKind = 1; o.clock = true; o.streams = s.coin(1, 4); o.formats = o.streams; o.failOf6 = (unsigned)s.pick({2, 0, 4});
   World w(s, o); w.generate(6);
   int64_t start = anyInstant(s); if(start < DAY_US * 2) start += DAY_US * 2;
   auto sel = anySelection(s, w);
   // the clock may step back by up to a day
   bool back = false;
   if(s.coin(1, 5)) { auto& p = w.plans[s.draw(w.plans.size())]; auto& v = s.coin(2, 3) ? p.body : s.coin() ? p.setup : p.down; Act a; a.k = Act::ADVANCE; a.n = -(int64_t)s.draw(sel.empty() ? DAY_US : DAY_US / 8); v.insert(v.begin() + (long)s.draw(v.size() + 1), a); back = true; NOTE(s, "in " << p.full() << " the clock steps back by " << -a.n << "us"); }
   int fd = memfd_create("report", 0);
   int verb = (int)s.pick({2, 1, 5, 3, 4, 0});
   std::vector<std::string> args = {"prog", "-x", "/proc/self/fd/" + std::to_string(fd), "-v", std::to_string(verb)};
   for(size_t t: sel) { args.push_back("-t"); args.push_back(w.plans[t].full()); }
   Result r; std::string doc;
   { Clock c(start); NOTE(s, "the clock is at " << start << "us"); r = runMain(w, args, anyOrder(s, w.plans.size()));
     for(auto& g: w.tests) (void)g; }
   { char b[4096]; ssize_t n; while((n = pread(fd, b, sizeof b, (off_t)doc.size())) > 0) doc.append(b, (size_t)n); } close(fd);
   auto ex = executions(s, w, r.trace);
   // what the clock was, from the trace
   struct Times { int64_t b = 0, e = 0; bool ran = false; }; std::map<size_t, Times> last;
   std::map<std::string, Times> comp; int64_t now = start, busy = 0;
   std::vector<Times> each;
   for(size_t t: ex) {
      auto x = simulate(w.plans[t], true);
      auto& c = comp[w.plans[t].comp]; if(!c.ran) { c.ran = true; c.b = now; }
      Times y; y.b = now + x.setupUs; y.e = y.b + x.bodyUs; y.ran = x.bodyRan;
      now = y.e + x.downUs; c.e = now; each.push_back(y); last[t] = y;
      busy += x.bodyRan && x.setupUs + x.downUs && x.bodyUs;
   }
   auto timeOf = [](const Times& y) { return y.ran ? lapse(y.b, y.e) : 0; };
   for(auto& y: last) {
      auto& g = *w.tests[y.first];
      REQUIRE(s, g.elapsedTime() == timeOf(y.second), "test " << y.first << " took " << timeOf(y.second) << "ms but reports " << g.elapsedTime() << (simulate(w.plans[y.first], true).passed() ? "" : " (it fails)"));
      auto x = simulate(w.plans[y.first], true);
      if(!y.second.ran) continue;
      REQUIRE(s, g.nows.size() == x.nowUs.size(), "steps are missing");
      for(size_t k = 0; k < g.nows.size(); ++k) { int64_t want = lapse(y.second.b, y.second.b + x.nowUs[k]); REQUIRE(s, g.nows[k] == want, "test " << y.first << " has taken " << want << "ms so far but reports " << g.nows[k]); }
   }
   // the XML report
   try {
      xml::Elem root = xml::parse(doc);
      REQUIRE(s, root.get("time") == secs(lapse(start, now)), "the run took " << lapse(start, now) << "ms but reports " << root.get("time"));
      for(auto& su: root.kids) {
         std::string cn = su.get("name"); auto& c = comp[cn];
         REQUIRE(s, su.get("time") == secs(lapse(c.b, c.e)), "component " << cn << " took " << lapse(c.b, c.e) << "ms but reports " << su.get("time"));
         for(auto& tc: su.kids) { size_t i = 0; while(i < w.plans.size() && (w.plans[i].comp != cn || w.plans[i].name != tc.get("name"))) ++i; REQUIRE(s, i < w.plans.size(), "unknown test"); REQUIRE(s, tc.get("time") == secs(timeOf(last[i])), "test " << i << " took " << timeOf(last[i]) << "ms but reports " << tc.get("time")); }
      }
   } catch(xml::Bad& b) { s.fail(std::string("the report is not well formed: ") + b.what()); }
   // the text
   if(verb > 0) {
      REQUIRE(s, r.out.find("(elapsed " + secs(lapse(start, now)) + "s)") != std::string::npos, "the run took " << lapse(start, now) << "ms, which the summary doesn't tell");
      if(comp.size() > 1) for(auto& c: comp) {
         size_t p = r.out.find("Component " + c.first + " "), q = r.out.find('\n', p);
         REQUIRE(s, p != std::string::npos && r.out.substr(p, q - p).find("(elapsed " + secs(lapse(c.second.b, c.second.e)) + "s)") != std::string::npos, "component " << c.first << " took " << lapse(c.second.b, c.second.e) << "ms, which the summary doesn't tell");
      }
   }
   if(verb >= 2) for(size_t k = 0; k < ex.size(); ++k) {
      if(!simulate(w.plans[ex[k]], true).passed()) continue;
      std::string nm = w.plans[ex[k]].full().substr(0, 50), want = " " + secs(timeOf(each[k])) + "s "; bool found = false; std::string seen;
      std::istringstream is(r.out); std::string l;
      while(std::getline(is, l)) { size_t p = l.rfind(nm), b = p == std::string::npos ? p : l.rfind('[', p); if(b == std::string::npos || atoi(l.c_str() + b + 1) != (int)k + 1 || l.find("OK", p) == std::string::npos) continue; seen = l; found = found || l.find(secs(timeOf(each[k])) + "s ", p + nm.size()) != std::string::npos; }
      REQUIRE(s, found, "execution " << k + 1 << " took " << timeOf(each[k]) << "ms but the result reads " << pbt::show(seen));
   }
   if(busy) s.nontrivial();
   if(back) s.label("clock stepping back");
   for(size_t t: ex) if(!simulate(w.plans[t], true).passed() && simulate(w.plans[t], true).bodyUs) s.label("failing test taking time");
}
/// One test executed over and over, taking its time differently each time.
struct Again: TestCase {
   struct Turn { int64_t su, bo, dn; int setup, body, down; };   // 0 well, 1 fails, 2 throws
   Turn turn; int64_t b = 0, e = 0; bool ran = false;
   void end(int how, int64_t us) { g_now += us; if(how == 2) throw std::runtime_error("x"); if(how == 1) FAIL("y"); }
   void SetUp() override { ran = false; end(turn.setup, turn.su); }
   void test() override { ran = true; b = g_now; e = b + turn.bo; end(turn.body, turn.bo); }
   void TearDown() override { end(turn.down, turn.dn); }
};
PBT_ARM(reruns, 20000, 500000, true) {
   Clock c(anyInstant(s) + DAY_US);
   Again t; size_t n = 2 + s.draw(6); std::set<int> hows;
   for(size_t k = 0; k < n; ++k) {
      auto how = [&] { return (int)s.weighted({4, 1, 1}); };
      t.turn = Again::Turn{anyStep(s), anyStep(s), anyStep(s), how(), how(), how()};
      g_now += anyStep(s);
      NOTE(s, "at " << g_now << "us: set-up " << t.turn.su << "us (" << t.turn.setup << "), body " << t.turn.bo << "us (" << t.turn.body << "), tear-down " << t.turn.dn << "us (" << t.turn.down << ")");
      { Captured cap; bool capt = s.coin(); t.beginTest(capt); t.run(); t.endTest(capt); }
      int64_t want = t.ran ? lapse(t.b, t.e) : 0;
      REQUIRE(s, t.elapsedTime() == want, "execution " << k + 1 << " took " << want << "ms but reports " << t.elapsedTime());
      REQUIRE(s, t.ran == (t.turn.setup != 2), "the body is " << (t.ran ? "" : "not ") << "run");
      bool good = !t.turn.setup && (!t.ran || (!t.turn.body && !t.turn.down));
      REQUIRE(s, (t.status() == TestCase::SUCCESS) == good, "execution " << k + 1 << " has status " << t.statusDesc());
      hows.insert(t.turn.setup * 9 + t.turn.body * 3 + t.turn.down);
   }
   // as a program of its own, performed again and again
   {
      UnitTest u; u.setVerbosity(UnitTest::SILENT); u.addTestCase("C", "again", &t);
      for(size_t k = s.draw(3); k--;) {
         t.turn = Again::Turn{anyStep(s), anyStep(s), anyStep(s), (int)s.weighted({4, 1, 1}), (int)s.weighted({4, 1, 1}), (int)s.weighted({4, 1, 1})};
         int64_t b = g_now; { Captured cap; u.performUnitTests(); }
         REQUIRE(s, u.elapsedTime() == lapse(b, g_now), "the run took " << lapse(b, g_now) << "ms but reports " << u.elapsedTime());
         int64_t e = g_now; g_now += anyStep(s);
         REQUIRE(s, u.elapsedTime() == lapse(b, e), "the run's time is " << lapse(b, e) << "ms but later reports " << u.elapsedTime());
      }
   }
   if(hows.size() > 1) s.nontrivial();
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C33"); }

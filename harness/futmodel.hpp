// Random test programs for the unit test framework, run in process, with a model of what they should come to.
#ifndef VERIF_FUTMODEL_HPP
#define VERIF_FUTMODEL_HPP
#define FALCON_TEST_DONT_DEFINE_TEST
#include "pbt.hpp"
#include <falcon/fut/fut.h>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

// The system clock under the case's control.
namespace fm {
inline bool g_virtual = false;
inline int64_t g_now = 0;                      // microseconds
}
#ifndef FM_NO_CLOCK
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
   if(fm::g_virtual && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) { ts->tv_sec = fm::g_now / 1000000; ts->tv_nsec = fm::g_now % 1000000 * 1000; return 0; }
   return (int)syscall(SYS_clock_gettime, id, ts);
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if(tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; } return 0; }
#endif

namespace fm {
using falcon::testing::TestCase;
using falcon::testing::UnitTest;

struct Weird { int n; };
struct Act {
   enum K { OUT, ERR, NUM, FORMAT, BREAK, OKCHECK, BADCHECK, BADTRUE, BADSTR, FAILMSG, FAILFN, NOTHROW, THROWSTD, THROWODD, ADVANCE } k;
   std::string t; int64_t n = 0;
};
inline const char* givenFile(const Act& a) { static const char* n[] = {"given/file.x", "given/<f&le>\".x", "file.x"}; return n[a.n % 3]; }
struct Plan { std::string comp, name; std::vector<Act> setup, body, down; std::string full() const { return comp + "::" + name; } };
struct Ev { int test; char phase; bool operator==(const Ev& o) const { return test == o.test && phase == o.phase; } };

inline void format(std::ostream& o, int64_t n) {
   switch(n) {
   case 0: o << std::hex; break;
   case 1: o << std::showbase << std::oct; break;
   case 2: o << std::setfill('*'); break;
   case 3: o << std::setprecision(2) << std::scientific; break;
   case 4: o << std::showpos << std::left; break;
   default: o << std::setw(7); break;
   }
}

struct Trace { std::vector<Ev> evs; };
class Gen: public TestCase {
public:
   const Plan& plan; int id; Trace& tr;
   int line = 0;                               // of the last failed check
   std::vector<int64_t> nows;                  // what elapsedTimeNow() told in the body
   int pastFail = 0;                           // statements run after a check that should have left
   std::streambuf *sawOut = nullptr, *sawErr = nullptr;
   Gen(const Plan& p, int i, Trace& t): plan(p), id(i), tr(t) {}
   void SetUp() override { ev('s'); perform(plan.setup, 's'); ev('S'); }
   void test() override { ev('b'); nows.clear(); sawOut = std::cout.rdbuf(); sawErr = std::cerr.rdbuf(); perform(plan.body, 'b'); ev('B'); }
   void TearDown() override { ev('t'); perform(plan.down, 't'); ev('T'); }
private:
   void ev(char c) { tr.evs.push_back({id, c}); }
   void perform(const std::vector<Act>& acts, char phase) {
      for(auto& a: acts) {
         int v = (int)a.n;
         switch(a.k) {
         case Act::OUT: std::cout.write(a.t.data(), (std::streamsize)a.t.size()); break;
         case Act::ERR: std::cerr.write(a.t.data(), (std::streamsize)a.t.size()); break;
         case Act::NUM: std::cout << a.n; break;
         case Act::FORMAT: format(std::cout, a.n); break;
         case Act::BREAK: std::cout.setstate(std::ios_base::failbit); break;
         case Act::OKCHECK: EXPECT_EQ(v, v); EXPECT_TRUE(v == v); EXPECT_STREQ("x", "x"); break;
         case Act::BADCHECK: line = __LINE__; EXPECT_EQ(v, v + 1); ++pastFail; break;
         case Act::BADTRUE: line = __LINE__; EXPECT_TRUE(v != v); ++pastFail; break;
         case Act::BADSTR: line = __LINE__; EXPECT_STRNE(a.t, a.t.c_str()); ++pastFail; break;
         case Act::FAILMSG: line = __LINE__; FAIL(a.t.c_str()); return;
         case Act::FAILFN: line = v; this->fail(givenFile(a), v, a.t.c_str()); break;
         case Act::NOTHROW: line = __LINE__; EXPECT_NO_THROW(throw std::runtime_error(a.t)); return;
         case Act::THROWSTD: throw std::runtime_error(a.t);
         case Act::THROWODD: if(a.n % 3 == 0) throw Weird{1}; if(a.n % 3 == 1) throw std::string("odd"); throw 42;
         case Act::ADVANCE: g_now += a.n; if(phase == 'b') nows.push_back(elapsedTimeNow()); break;
         }
         if(a.k == Act::BADCHECK || a.k == Act::BADTRUE || a.k == Act::BADSTR) return;
         if(a.k == Act::FAILMSG || a.k == Act::NOTHROW) return;
      }
   }
};

/// What a plan comes to.
struct Expect {
   bool setupDone = true, threw = false, failed = false, either = false;   // either: failure or error
   const Act* last = nullptr;                  // the last failed check
   std::vector<std::string> texts;             // of escaped exceptions
   bool odd = false;                           // one of them is not a standard exception
   std::string out, err;
   std::vector<char> phases;
   int64_t bodyUs = 0, setupUs = 0, downUs = 0; bool bodyRan = false;
   std::vector<int64_t> nowUs;                 // time passed in the body after each step of the clock
   bool errIsFail = false;
   bool passed() const { return !threw && !failed && !errIsFail; }
};
inline Expect simulate(const Plan& p, bool capture) {
   Expect e;
   std::ostringstream o;
   auto phase = [&](const std::vector<Act>& acts, int64_t* us) -> bool {
      for(auto& a: acts) switch(a.k) {
         case Act::OUT: o.write(a.t.data(), (std::streamsize)a.t.size()); break;
         case Act::ERR: e.err += a.t; break;
         case Act::NUM: o << a.n; break;
         case Act::FORMAT: format(o, a.n); break;
         case Act::BREAK: o.setstate(std::ios_base::failbit); break;
         case Act::OKCHECK: break;
         case Act::BADCHECK: case Act::BADTRUE: case Act::BADSTR: case Act::FAILMSG: case Act::NOTHROW: e.failed = true; e.last = &a; if(e.threw) e.either = true; return true;
         case Act::FAILFN: e.failed = true; e.last = &a; if(e.threw) e.either = true; break;
         case Act::THROWSTD: e.texts.push_back(a.t); e.threw = true; return false;
         case Act::THROWODD: e.odd = true; e.threw = true; return false;
         case Act::ADVANCE: *us += a.n; if(us == &e.bodyUs) e.nowUs.push_back(*us); break;
         }
      return true;
   };
   e.phases.push_back('s');
   if(phase(p.setup, &e.setupUs)) {
      e.phases.push_back('S'); e.phases.push_back('b'); e.bodyRan = true;
      if(phase(p.body, &e.bodyUs)) e.phases.push_back('B');
      e.phases.push_back('t');
      if(phase(p.down, &e.downUs)) e.phases.push_back('T');
   } else e.setupDone = false;
   e.out = o.str();
   if(capture && !e.err.empty()) e.errIsFail = true;
   return e;
}

struct Opts { // of the generator
   int nameKind = 0;         // 0 identifier like, 2 any printable and markup
   int textKind = 1;
   bool streams = true, formats = true, clock = false, setupActs = true, dupNames = false, many = true;
   unsigned failOf6 = 3;     // how often tests fail
};
inline std::string textOf(pbt::Src& s, int kind) { return s.grown(s.text(s.coin(1, 12) ? 200 : 16, kind), 70000, 1, 60); }
inline std::vector<Act> acts(pbt::Src& s, const Opts& o, int phase, bool fails, int& token, const std::string& tag) {
   std::vector<Act> v;
   size_t n = s.draw(phase == 1 ? 5 : 3);
   for(size_t i = 0; i < n; ++i) {
      Act a; a.k = Act::OKCHECK; a.n = (int64_t)s.draw(1000);
      switch(s.weighted({2, o.streams ? 3u : 0u, o.formats ? 1u : 0u, o.formats ? 1u : 0u, o.clock ? 5u : 0u})) {
      case 0: break;
      case 1: a.k = Act::OUT; a.t = "o" + tag + "." + std::to_string(++token) + "!" + textOf(s, o.textKind); break;
      case 2: a.k = Act::NUM; break;
      case 3: a.k = Act::FORMAT; a.n = (int64_t)s.draw(6); break;
      default: a.k = Act::ADVANCE; a.n = s.pick({(int64_t)1, (int64_t)999, (int64_t)1000, (int64_t)s.draw(5000), (int64_t)s.draw(2000000), (int64_t)s.draw(100000000000ll)}); break;
      }
      v.push_back(a);
   }
   if(fails) {
      Act a; a.n = (int64_t)s.draw(1000); a.t = textOf(s, o.textKind);
      switch(s.weighted({3, 2, 2, 2, 1, 1, 3, 2, o.streams ? 3u : 0u})) {
      case 0: a.k = Act::BADCHECK; break;
      case 1: a.k = Act::BADTRUE; break;
      case 2: a.k = Act::BADSTR; break;
      case 3: a.k = Act::FAILMSG; break;
      case 4: a.k = Act::FAILFN; break;
      case 5: a.k = Act::NOTHROW; break;
      case 6: a.k = Act::THROWSTD; break;
      case 7: a.k = Act::THROWODD; break;
      default: a.k = Act::ERR;
         if(s.coin(1, 4)) a.t = s.pick({" ", "\n", "\t", "  \n", "\r\n", "\v", "x", "0", "\x7f", "\xc2\xa0", "?"});     // the least that counts
         else a.t = "e" + tag + "." + std::to_string(++token) + "!" + a.t;
         break;
      }
      if(s.coin(1, 4)) v.insert(v.begin() + (long)s.draw(v.size() + 1), a); else v.push_back(a);
   }
   return v;
}
inline const char* kindName(Act::K k) { static const char* n[] = {"out", "err", "number", "format", "break", "good check", "EXPECT_EQ fails", "EXPECT_TRUE fails", "EXPECT_STRNE fails", "FAIL", "fail()", "EXPECT_NO_THROW fails", "throw std", "throw other", "time passes"}; return n[k]; }
inline std::string describe(const std::vector<Act>& v) {
   std::string o;
   for(auto& a: v) o += std::string(o.empty() ? "" : ", ") + kindName(a.k) + (a.t.empty() ? "" : " " + pbt::show(a.t, 30)) + (a.k == Act::ADVANCE || a.k == Act::FORMAT || a.k == Act::NUM ? " " + std::to_string(a.n) : "");
   return "[" + o + "]";
}
struct World {
   pbt::Src& s; Opts o;
   std::vector<Plan> plans; Trace tr; std::vector<std::unique_ptr<Gen>> tests;
   size_t nFailing = 0;
   World(pbt::Src& ss, Opts oo): s(ss), o(oo) {}
   void generate(size_t maxTests) {
      size_t n = 1 + s.draw(maxTests);
      std::vector<std::string> comps; size_t nc = 1 + s.draw(4);
      bool many = o.many && s.coin(1, 150);
      if(many) { n = s.pick({(size_t)60, (size_t)99, (size_t)100, (size_t)101, 100 + s.draw(160), 250 + s.draw(12)}); nc = 1 + s.draw(40); s.label("very many tests"); }
      for(size_t i = 0; i < nc; ++i) comps.push_back(name("C" + std::to_string(many ? s.draw(1200) : (i * 7 + s.draw(7)) % 9)));
      std::set<std::string> used;
      for(size_t i = 0; i < n; ++i) {
         Plan p; p.comp = s.pick(comps);
         do { p.name = name("t"); if(!o.dupNames || !s.coin(1, 8)) p.name += "_" + std::to_string(s.draw(30)) + "x" + std::to_string(i); else p.name = "dup"; } while(!o.dupNames && used.count(p.full()));
         if(s.coin(1, 15)) p.name += std::string(60, 'l');
         used.insert(p.full());
         bool fails = s.draw(6) >= 6 - o.failOf6;
         int where = fails ? (int)s.weighted({4, o.setupActs ? 1u : 0u, o.setupActs ? 1u : 0u, o.setupActs ? 1u : 0u}) : 0;    // body, setup, teardown, body and teardown
         int token = 0; std::string tag = std::to_string(i);
         if(o.setupActs) p.setup = acts(s, o, 0, fails && where == 1, token, tag);
         p.body = acts(s, o, 1, fails && (where == 0 || where == 3), token, tag);
         if(o.setupActs) p.down = acts(s, o, 2, fails && where >= 2, token, tag);
         nFailing += fails;
         NOTE(s, "test " << i << " " << pbt::show(p.full(), 80) << ": " << (p.setup.empty() ? "" : "set-up " + describe(p.setup) + " ") << describe(p.body) << (p.down.empty() ? "" : " tear-down " + describe(p.down)));
         plans.push_back(p);
      }
      for(size_t i = 0; i < plans.size(); ++i) tests.emplace_back(new Gen(plans[i], (int)i, tr));
   }
   std::string name(const std::string& stem) { return o.nameKind == 0 ? stem + s.text(4, 0) : o.nameKind == 1 ? stem + s.text(8, 1) : stem + s.text(10, 2); }
   bool unique(size_t i) const { size_t n = 0; for(auto& p: plans) n += p.full() == plans[i].full(); return n == 1; }
   /// What is executed, in some order within components.
   struct Expected { std::vector<size_t> todo; std::map<std::string, std::vector<size_t>> byComp; };
   Expected expected(const std::vector<size_t>& sel) const {
      Expected e; e.todo = sel;
      if(sel.empty()) for(size_t i = 0; i < plans.size(); ++i) e.todo.push_back(i);
      for(size_t i: e.todo) e.byComp[plans[i].comp].push_back(i);
      return e;
   }
};
struct Result { int status = 0; std::string out, err; std::vector<Ev> trace; };
struct Captured {
   std::ostringstream out, err; std::streambuf *a, *b; std::ios sa{nullptr}, sb{nullptr};
   Captured() { sa.copyfmt(std::cout); sb.copyfmt(std::cerr); a = std::cout.rdbuf(out.rdbuf()); b = std::cerr.rdbuf(err.rdbuf()); }
   ~Captured() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::cout.clear(); std::cerr.clear(); std::cout.copyfmt(sa); std::cerr.copyfmt(sb); }
};
inline std::string show(const std::vector<std::string>& args) { std::string o; for(auto& a: args) o += " " + pbt::show(a, 60); return o; }
/// A unit test program of the world's tests with these arguments.
inline Result runMain(World& w, const std::vector<std::string>& args, const std::vector<size_t>& order = {}, bool empty = false) {
   UnitTest* ut = new UnitTest;
   if(!empty) { if(order.empty()) for(size_t i = 0; i < w.tests.size(); ++i) ut->addTestCase(w.plans[i].comp.c_str(), w.plans[i].name.c_str(), w.tests[i].get());
                else for(size_t i: order) ut->addTestCase(w.plans[i].comp.c_str(), w.plans[i].name.c_str(), w.tests[i].get()); }
   std::vector<std::string> keep = args; std::vector<char*> argv; for(auto& x: keep) argv.push_back(&x[0]);
   argv.push_back(nullptr);
   NOTE(w.s, "run" << show(args));
   w.tr.evs.clear();
   for(auto& t: w.tests) { t->pastFail = 0; t->line = 0; }
   Result r;
   {
      Captured c;
      r.status = ut->main((int)args.size(), argv.data());
      REQUIRE(w.s, std::cout.rdbuf() == c.out.rdbuf() && std::cerr.rdbuf() == c.err.rdbuf(), "the standard streams are not given back");
      r.out = c.out.str(); r.err = c.err.str();
   }
   r.trace = w.tr.evs;
   return r;
}
/// The tests in the order they were executed; fails if the trace is not made of whole executions.
inline std::vector<size_t> executions(pbt::Src& s, const World& w, const std::vector<Ev>& tr) {
   std::vector<size_t> o;
   for(size_t k = 0; k < tr.size();) {
      REQUIRE(s, tr[k].phase == 's', "test " << tr[k].test << " runs '" << tr[k].phase << "' outside of an execution");
      size_t t = (size_t)tr[k].test;
      auto ph = simulate(w.plans[t], true).phases;
      for(char c: ph) {
         REQUIRE(s, k < tr.size() && tr[k].test == (int)t && tr[k].phase == c, "the execution of test " << t << " misses phase '" << c << "'" << (k < tr.size() ? " (got '" + std::string(1, tr[k].phase) + "' of test " + std::to_string(tr[k].test) + ")" : ""));
         ++k;
      }
      o.push_back(t);
   }
   return o;
}
inline void checkOutcome(pbt::Src& s, const World& w, size_t i, bool capture) {
   const Gen& g = *w.tests[i];
   Expect e = simulate(w.plans[i], capture);
   auto st = g.status();
   const char* what = g.statusDesc();
   REQUIRE(s, (st == TestCase::SUCCESS) == e.passed(), "test " << i << " should have " << (e.passed() ? "passed" : "failed") << " but its status is " << what);
   REQUIRE(s, g.pastFail == 0, "test " << i << " goes on after a failed check");
   std::string d = g.failDesc();
   if(e.threw && !(e.either && st == TestCase::FAIL)) {
      REQUIRE(s, st == TestCase::ERROR, "an exception escaped test " << i << " but its status is " << what);
      bool ok = e.odd && !d.empty() && e.texts.empty();
      for(auto& t: e.texts) ok = ok || d == t;
      if(e.odd) ok = ok || !d.empty();
      REQUIRE(s, ok || e.either, "test " << i << " records " << pbt::show(d) << " for an exception escaping with " << (e.texts.empty() ? "no text" : pbt::show(e.texts[0])));
   } else if(e.failed) {
      REQUIRE(s, st == TestCase::FAIL, "a check of test " << i << " failed but its status is " << what);
      const Act& a = *e.last;
      std::vector<std::string> has;
      switch(a.k) {
      case Act::BADCHECK: has = {"v", "==", "v + 1", std::to_string(a.n + 1)}; break;
      case Act::BADTRUE: has = {"v != v", "0"}; break;
      case Act::BADSTR: has = {"a.t", "!=", "a.t.c_str()", a.t}; break;
      case Act::FAILMSG: case Act::FAILFN: has = {a.t}; break;
      default: has = {a.t}; break;
      }
      for(auto& h: has) REQUIRE(s, d.find(h) != std::string::npos, "test " << i << " records " << pbt::show(d) << ", which doesn't tell " << pbt::show(h));
      REQUIRE(s, g.failLine() == g.line, "test " << i << " records line " << g.failLine() << " instead of " << g.line);
      std::string f = a.k == Act::FAILFN ? givenFile(a) : "futmodel.hpp";
      REQUIRE(s, g.failFile() == f || (a.k == Act::FAILFN && std::string(g.failFile()) == f.substr(f.find('/') + 1)), "test " << i << " records file " << pbt::show(g.failFile()) << " instead of " << f);
   }
}
/// Components in order, each of them with exactly the executions it should have.
inline void checkGrouping(pbt::Src& s, const World& w, const World::Expected& e, const std::vector<size_t>& ex) {
   size_t k = 0;
   for(auto& c: e.byComp) {
      std::multiset<size_t> want(c.second.begin(), c.second.end()), got;
      for(size_t i = 0; i < c.second.size() && k < ex.size(); ++i) got.insert(ex[k++]);
      REQUIRE(s, want == got, "component " << pbt::show(c.first) << " does not run as a whole, in order, each of its tests as often as asked");
   }
   REQUIRE(s, k == ex.size(), "tests too many are executed");
}
inline std::vector<size_t> anySelection(pbt::Src& s, const World& w) {
   std::vector<size_t> sel;
   if(s.coin(2, 3)) return sel;
   size_t n = 1 + s.draw(w.plans.size() + 1);
   for(size_t i = 0; i < n; ++i) { size_t t = s.draw(w.plans.size()); if(w.unique(t)) sel.push_back(t); }
   return sel;
}
inline std::vector<size_t> anyOrder(pbt::Src& s, size_t n) { std::vector<size_t> o; for(size_t i = 0; i < n; ++i) o.insert(o.begin() + (long)s.draw(o.size() + 1), i); return o; }
}
#endif

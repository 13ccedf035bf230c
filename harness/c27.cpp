// C27: the test framework's verdict and exit status tell the truth.
#include "futmodel.hpp"
using namespace fm;
static void round(pbt::Src& s, World& w, bool& mixed) {
   bool capture = s.coin(3, 4);
   std::vector<std::string> args = {"prog"};
   if(!capture) args.push_back("-c");
   if(s.coin(1, 3)) args.push_back("-e");
   if(s.coin(1, 2)) { args.push_back("-v"); args.push_back(std::to_string(s.draw(6))); } else if(s.coin()) args.push_back("-q");
   auto sel = anySelection(s, w);
   for(size_t t: sel) { args.push_back("-t"); args.push_back(w.plans[t].full()); }
   auto e = w.expected(sel);
   Result r = runMain(w, args, anyOrder(s, w.plans.size()));
   bool all = true, none = true;
   std::set<size_t> ran(e.todo.begin(), e.todo.end());
   for(size_t i: ran) { bool ok = simulate(w.plans[i], capture).passed(); all = all && ok; none = none && !ok; }
   if(!all && !none) mixed = true;
   for(size_t i: ran) checkOutcome(s, w, i, capture);
   REQUIRE(s, (r.status == 0) == all, "the exit status is " << r.status << " although " << (all ? "every" : "not every") << " executed test passed");
}
/// Whole programs; the same tests are run again by other programs.
PBT_ARM(programs, 40000, 1000000, true) {
   Opts o; o.textKind = s.pick({1, 3}); o.failOf6 = (unsigned)s.pick({1, 3, 0, 5}); o.dupNames = s.coin(1, 6);
   World w(s, o); w.generate(8);
   size_t rounds = 1 + s.draw(3);
   bool mixed = false;
   for(size_t k = 0; k < rounds; ++k) round(s, w, mixed);
   if(mixed) s.nontrivial();
   if(rounds > 1) s.label("executed again");
}
/// One test at a time, by name.
PBT_ARM(single, 15000, 400000, true) {
   Opts o; o.textKind = 1;
   World w(s, o); w.generate(5);
   std::unique_ptr<UnitTest> ut(new UnitTest);
   for(size_t i = 0; i < w.plans.size(); ++i) ut->addTestCase(w.plans[i].comp.c_str(), w.plans[i].name.c_str(), w.tests[i].get());
   ut->setVerbosity((UnitTest::t_verbosity)s.draw(6));
   size_t n = 1 + s.draw(6), bad = 0, good = 0;
   for(size_t k = 0; k < n; ++k) {
      size_t t = s.draw(w.plans.size());
      NOTE(s, "perform test " << t);
      bool ok = simulate(w.plans[t], true).passed();
      w.tr.evs.clear();
      for(auto& g: w.tests) { g->pastFail = 0; g->line = 0; }
      int r; { Captured c; r = ut->performTest(w.plans[t].full().c_str()); }
      REQUIRE(s, (r == 0) == ok, "performing test " << t << " returns " << r);
      checkOutcome(s, w, t, true);
      auto ex = executions(s, w, w.tr.evs);
      REQUIRE(s, ex.size() == 1 && ex[0] == t, "performing one test executes others");
      ok ? ++good : ++bad;
   }
   if(good && bad) s.nontrivial();
}
/// The steps of a program taken by hand, over and over on the same object: selections accumulate.
PBT_ARM(again, 15000, 400000, true) {
   Opts o; o.textKind = 1; o.failOf6 = (unsigned)s.pick({1, 2, 3});
   World w(s, o); w.generate(5);
   std::unique_ptr<UnitTest> ut(new UnitTest);
   size_t known = 1 + s.draw(w.plans.size());
   for(size_t i = 0; i < known; ++i) ut->addTestCase(w.plans[i].comp.c_str(), w.plans[i].name.c_str(), w.tests[i].get());
   ut->setVerbosity((UnitTest::t_verbosity)s.draw(6));
   std::vector<size_t> sel; size_t n = 2 + s.draw(5), runs = 0; bool good = false, bad = false;
   for(size_t k = 0; k < n; ++k) {
      w.tr.evs.clear();
      for(auto& g: w.tests) { g->pastFail = 0; g->line = 0; }
      switch(s.weighted({4, 2, 1, 1})) {
      case 0: {
         NOTE(s, "perform");
         int r; { Captured c; r = ut->performUnitTests(); }
         World::Expected e;
         e.todo = sel; if(sel.empty()) for(size_t i = 0; i < known; ++i) e.todo.push_back(i);
         for(size_t i: e.todo) e.byComp[w.plans[i].comp].push_back(i);
         checkGrouping(s, w, e, executions(s, w, w.tr.evs));
         bool all = true; for(size_t i: e.todo) { all = all && simulate(w.plans[i], true).passed(); checkOutcome(s, w, i, true); }
         REQUIRE(s, (r == 0) == all, "the status is " << r << " although " << (all ? "every" : "not every") << " executed test passed");
         ++runs; (all ? good : bad) = true;
         break; }
      case 1: {
         size_t t = s.draw(known); std::string f = w.plans[t].full(), dt = "-t"; char* av[] = {&dt[0], &f[0], nullptr};
         NOTE(s, "select test " << t);
         REQUIRE(s, ut->parseParams(2, av) == 0, "a selection is not accepted"); sel.push_back(t);
         break; }
      case 2: {
         size_t t = s.draw(known); NOTE(s, "perform test " << t);
         int r; { Captured c; r = ut->performTest(w.plans[t].full().c_str()); }
         REQUIRE(s, (r == 0) == simulate(w.plans[t], true).passed(), "performing test " << t << " returns " << r);
         checkOutcome(s, w, t, true);
         break; }
      default: if(known < w.plans.size()) { NOTE(s, "register test " << known); ut->addTestCase(w.plans[known].comp.c_str(), w.plans[known].name.c_str(), w.tests[known].get()); ++known; } break;
      }
   }
   if(runs > 1) s.nontrivial();
   if(good && bad) s.label("both verdicts by one object");
}
/// Programs of hundreds of tests: what the caller of the program gets is the low byte of the status.
PBT_ARM(many, 400, 20000, true) {
   Opts o; o.textKind = 0; World w(s, o);
   size_t n = s.coin() ? s.pick({(size_t)255, (size_t)256, (size_t)257, (size_t)512}) : 2 + s.draw(600);
   size_t bad = s.pick({(size_t)0, (size_t)1, (size_t)128, (size_t)255, (size_t)256, (size_t)257, (size_t)512, s.draw(601)}), kind = s.draw(4);
   if(bad > n) bad = n;
   size_t from = s.draw(n - bad + 1);
   NOTE(s, n << " tests, " << bad << " fail, from " << from);
   for(size_t i = 0; i < n; ++i) {
      Plan p; p.comp = "c" + std::to_string(i % 3); p.name = "t" + std::to_string(i);
      if(i >= from && i < from + bad) { Act a; a.n = 7; a.t = "odd"; a.k = kind == 0 ? Act::BADCHECK : kind == 1 ? Act::THROWSTD : kind == 2 ? Act::ERR : (i % 2 ? Act::FAILMSG : Act::THROWODD); p.body.push_back(a); }
      w.plans.push_back(p);
   }
   for(size_t i = 0; i < n; ++i) w.tests.emplace_back(new Gen(w.plans[i], (int)i, w.tr));
   Result r = runMain(w, {"prog", "-v", std::to_string(s.draw(3))});
   REQUIRE(s, ((r.status & 255) == 0) == (bad == 0), "the program's exit status is " << (r.status & 255) << " (" << r.status << ") although " << bad << " of " << n << " tests failed");
   for(size_t i = 0; i < n; ++i) checkOutcome(s, w, i, true);
   if(bad) s.nontrivial();
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C27"); }

// C28: the runner executes exactly the selected tests, grouped, with fixtures.
#include "futmodel.hpp"
using namespace fm;
PBT_ARM(programs, 40000, 1000000, true) {
   Opts o; o.textKind = 1; o.failOf6 = (unsigned)s.pick({0, 2, 5}); o.dupNames = s.coin(1, 4); o.nameKind = s.pick({0, 0, 1});
   World w(s, o); w.generate(12);
   std::vector<std::string> args = {"prog"};
   auto opt = [&]() { switch(s.draw(5)) { case 0: args.push_back("-q"); break; case 1: args.push_back("-v"); args.push_back(std::to_string(s.draw(6))); break; case 2: args.push_back("-c"); break; case 3: args.push_back("-e"); break; default: break; } };
   opt();
   auto sel = anySelection(s, w);
   for(size_t t: sel) { args.push_back("-t"); args.push_back(w.plans[t].full()); if(s.coin(1, 6)) opt(); }
   auto e = w.expected(sel);
   Result r = runMain(w, args, anyOrder(s, w.plans.size()));
   auto ex = executions(s, w, r.trace);
   checkGrouping(s, w, e, ex);
   std::set<size_t> once(sel.begin(), sel.end());
   if(e.byComp.size() > 1 && e.todo.size() > e.byComp.size()) s.nontrivial();
   if(!sel.empty()) s.label("selection");
   if(once.size() < sel.size()) s.label("selected twice");
   for(size_t t: e.todo) { if(simulate(w.plans[t], true).phases.back() == 't') s.label("tear-down throws"); auto x = simulate(w.plans[t], true); if(!x.setupDone) s.label("set-up throws"); if(x.setupDone && x.phases.size() > 3 && x.phases[3] == 't') s.label("body throws"); }
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C28"); }

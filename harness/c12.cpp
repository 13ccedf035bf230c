// C12: singletons, under generated schedules (COOP) or with real threads.
#include "c12.hpp"
#ifdef COOP
#include "tsanrt.hpp"
void c12_point() { coop::point("constructor"); }
// One-time construction guards of the compiler, visible to the scheduler.
namespace { struct Guard { bool done, busy; }; std::map<void*, Guard>* g_guards = nullptr; std::map<void*, Guard>& guards() { return *g_guards; } }
extern "C" {
int __cxa_guard_acquire(uint64_t* p) {
   if(*(char*)p) return 0;
   if(!coop::on()) return 1;
   coop::point("guard");
   Guard& g = guards()[p];
   while(g.busy) coop::Sched::current()->block("static construction", [&g] { return !g.busy; });
   if(*(char*)p) return 0;
   g.busy = true;
   return 1;
}
void __cxa_guard_release(uint64_t* p) { *(char*)p = 1; if(coop::on()) { guards()[p].busy = false; coop::point("guard release"); } }
void __cxa_guard_abort(uint64_t* p) { if(coop::on()) guards()[p].busy = false; }
}
#else
#include "pbt.hpp"
#include <thread>
void c12_point() { std::this_thread::yield(); }
#endif

static int built(int k) { switch(k) { case 0: return Kind<0>::built; case 1: return Kind<1>::built; case 2: return Kind<2>::built; default: return Kind<3>::built; } }

static void history(pbt::Src& s) {
   size_t nt = 1 + s.draw(4);
   struct Use { int kind, accessor, handle; };
   std::vector<std::vector<Use>> plan(nt);
   int kinds = 1 + (int)s.draw(KINDS);
   std::set<int> used;
   std::map<int, int> users;
   for(auto& p: plan) {
      size_t n = 1 + s.draw(5);
      std::set<int> mine;
      for(size_t i = 0; i < n; ++i) { Use u{(int)s.draw(kinds), (int)s.draw(ACCESSORS), (int)s.draw(5)}; p.push_back(u); used.insert(u.kind); mine.insert(u.kind); }
      for(int k: mine) users[k]++;
   }
   std::vector<void*> shared;
   for(int k = 0; k < KINDS; ++k) shared.push_back(c12_newHandle(k));
   for(int k = 0; k < KINDS; ++k) REQUIRE(s, built(k) == 0, "an instance of kind " << k << " was built before its first use");
   const void* where[KINDS] = {};
   struct Res { Use u; Seen seen; };
   std::vector<std::vector<Res>> res(nt);
   auto body = [&](size_t t) {
      for(auto& u: plan[t]) {
         Seen x = u.handle == 4 ? c12_useHandle(u.kind, u.accessor, shared[u.kind]) : c12_use(u.kind, u.accessor, u.handle);
         res[t].push_back({u, x});
         NOTE(s, "thread " << t << ": kind " << u.kind << " through accessor " << u.accessor << " of handle " << u.handle);
      }
   };
#ifdef COOP
   if(!g_guards) g_guards = new std::map<void*, Guard>;
   {
      coop::Sched sc(s);
      sc.switchDen = 2;
      std::vector<int> ids;
      for(size_t t = 0; t < nt; ++t) ids.push_back(sc.spawn([&, t] { body(t); }));
      for(int i: ids) sc.join(i);
   }
#else
   {
      std::atomic<int> go{0};
      std::vector<std::thread> th;
      for(size_t t = 0; t < nt; ++t) th.emplace_back([&, t] { go++; while(go < (int)nt) {} body(t); });
      for(auto& t: th) t.join();
   }
#endif
   for(size_t t = 0; t < nt; ++t) for(auto& r: res[t]) {
      REQUIRE(s, r.seen.where != nullptr, "no instance");
      REQUIRE(s, r.seen.whole, "thread " << t << " saw an instance of kind " << r.u.kind << " that is not completely built (accessor " << r.u.accessor << ")");
      if(!where[r.u.kind]) where[r.u.kind] = r.seen.where;
      REQUIRE(s, where[r.u.kind] == r.seen.where, "two instances of kind " << r.u.kind << " (accessor " << r.u.accessor << ", handle " << r.u.handle << ", thread " << t << ")");
   }
   for(int k = 0; k < KINDS; ++k) {
      REQUIRE(s, built(k) == (used.count(k) ? 1 : 0), "kind " << k << " was built " << built(k) << " times, it was " << (used.count(k) ? "used" : "never used"));
      for(int q = 0; q < k; ++q) REQUIRE(s, !where[k] || where[k] != where[q], "kinds " << q << " and " << k << " share an instance");
   }
   // handles die, the instance does not change
   for(int k = 0; k < KINDS; ++k) c12_deleteHandle(k, shared[k]);
   for(int k: used) { for(int a = 0; a < ACCESSORS; ++a) { Seen x = c12_use(k, a, (int)(a % 3)); REQUIRE(s, x.where == where[k] && x.whole && built(k) == 1, "the instance of kind " << k << " changed after handles were destroyed"); } }
   for(auto& u: users) if(u.second > 1) s.nontrivial();
}
#ifdef COOP
PBT_ARM_COOP(schedules, 7000, 250000, false) { pbt::isolated(s, [&] { history(s); }); }
#else
PBT_ARM_RT(threads, 2500, 60000, 30) { pbt::isolated(s, [&] { history(s); }); }
#endif
int main(int argc, char** argv) { return pbt::run(argc, argv, "C12"); }

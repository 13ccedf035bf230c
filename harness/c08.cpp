// C08: mutual exclusion of the lightweight lock under generated schedules.
#include "futexcoop.hpp"

PBT_ARM_COOP(schedules, 40000, 1000000, true) {
   size_t nf = 1 + s.draw(2), nt = 2 + s.draw(3);
   std::vector<std::unique_ptr<AnyFutex>> f;
   std::vector<Watch> w(nf);
   std::vector<uint64_t> data(nf, 0), want(nf, 0);
   for(size_t i = 0; i < nf; ++i) { f.emplace_back(makeFutex(s)); NOTE(s, "lock " << i << ": spin count " << f[i]->n); }
   struct Step { int k; size_t f; int work; };
   std::vector<std::vector<Step>> script(nt);
   for(auto& sc: script) { size_t n = 1 + s.draw(4); for(size_t i = 0; i < n; ++i) sc.push_back({(int)s.weighted({5, 2, 1}), s.draw(nf), (int)s.draw(4)}); }
   size_t contended = 0;
   for(size_t i = 0; i < nf; ++i) REQUIRE(s, !f[i]->isLocked(), "a new lock reports itself locked");
   {
      coop::Sched sc(s);
      std::vector<int> ids;
      auto observe = [&](size_t t, size_t i) {
         Watch b = w[i];
         bool l = f[i]->isLocked();
         if(w[i].epoch == b.epoch) {
            if(b.owner >= 0) REQUIRE(s, l, "thread " << t << ": lock " << i << " reports itself free while thread " << b.owner << " holds it");
            if(b.busy == 0) REQUIRE(s, !l, "thread " << t << ": lock " << i << " reports itself locked while nobody holds it");
         }
      };
      auto take = [&](size_t t, size_t i) {
         if(w[i].owner >= 0) ++contended;
         w[i].busy++; w[i].epoch++;
         NOTE(s, "thread " << t << " locks " << i);
         f[i]->lock();
         REQUIRE(s, w[i].owner < 0, "threads " << t << " and " << w[i].owner << " hold lock " << i << " (spin count " << f[i]->n << ") at once");
         w[i].owner = (int)t; w[i].epoch++;
         NOTE(s, "thread " << t << " has " << i);
      };
      auto drop = [&](size_t t, size_t i) {
         REQUIRE(s, w[i].owner == (int)t, "lock " << i << " changed hands while thread " << t << " held it");
         w[i].owner = -1; w[i].epoch++;
         NOTE(s, "thread " << t << " unlocks " << i);
         f[i]->unlock();
         w[i].busy--; w[i].epoch++;
      };
      auto work = [&](size_t t, size_t i, int k) {
         uint64_t v = data[i];
         for(int q = 0; q < k; ++q) { coop::point("critical section"); REQUIRE(s, w[i].owner == (int)t, "another thread entered the critical section of thread " << t); }
         data[i] = v + 1; want[i]++;
      };
      for(size_t t = 0; t < nt; ++t)
         ids.push_back(sc.spawn([&, t] {
            for(auto& st: script[t]) {
               switch(st.k) {
               case 0: take(t, st.f); work(t, st.f, st.work); if(st.work & 1) observe(t, st.f); drop(t, st.f); break;
               case 1: observe(t, st.f); break;
               default: // both locks, always in index order
                  for(size_t i = 0; i < nf; ++i) take(t, i);
                  for(size_t i = 0; i < nf; ++i) work(t, i, st.work);
                  for(size_t i = nf; i-- > 0;) drop(t, i);
                  break;
               }
            }
         }));
      for(int id: ids) sc.join(id);
      // free locks can be acquired again
      for(size_t i = 0; i < nf; ++i) { REQUIRE(s, !f[i]->isLocked(), "lock " << i << " reports itself locked after every unlock"); take(nt, i); REQUIRE(s, f[i]->isLocked(), "a held lock reports itself free"); drop(nt, i); REQUIRE(s, !f[i]->isLocked(), "an unlocked lock reports itself locked"); }
   }
   for(size_t i = 0; i < nf; ++i) REQUIRE(s, data[i] == want[i], "lock " << i << ": " << want[i] - data[i] << " updates lost");
   if(contended) s.nontrivial();
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C08"); }

// C09: the recursive lock under generated schedules.
#include "futexcoop.hpp"

PBT_ARM_COOP(schedules, 30000, 800000, true) {
   size_t nf = 1 + s.draw(3), nt = 2 + s.draw(3);
   std::vector<std::unique_ptr<falcon::RFutex>> f;
   struct M { int owner = -1; size_t depth = 0; unsigned busy = 0; uint64_t epoch = 0; };
   std::vector<M> w(nf);
   for(size_t i = 0; i < nf; ++i) f.emplace_back(new falcon::RFutex);
   size_t contended = 0, nested = 0;
   struct Step { int k; size_t f; };
   std::vector<std::vector<Step>> script(nt);
   for(auto& sc: script) { size_t n = 2 + s.draw(10); for(size_t i = 0; i < n; ++i) sc.push_back({(int)s.weighted({5, 4, 3, 1}), s.draw(nf)}); }
   {
      coop::Sched sc(s);
      std::vector<int> ids;
      auto observe = [&](int t, size_t i) {
         M b = w[i];
         bool own = f[i]->isOwner();
         REQUIRE(s, own == (b.owner == t), "thread " << t << (own ? " is told it owns lock " : " is told it does not own lock ") << i << ", which is held by " << b.owner << " (-1: nobody) at depth " << b.depth);
         b = w[i];
         bool l = f[i]->isLocked();
         if(w[i].epoch == b.epoch) {
            if(b.owner >= 0) REQUIRE(s, l, "lock " << i << " reports itself free while thread " << b.owner << " holds it " << b.depth << " times");
            if(b.busy == 0) REQUIRE(s, !l, "lock " << i << " reports itself locked while nobody holds it");
         }
      };
      auto lock = [&](int t, size_t i) {
         bool mine = w[i].owner == t;
         if(mine) ++nested; else { if(w[i].owner >= 0) ++contended; w[i].busy++; }
         w[i].epoch++;
         NOTE(s, "thread " << t << " locks " << i << (mine ? " again" : ""));
         uint64_t e = w[i].epoch;
         f[i]->lock();
         if(mine) REQUIRE(s, w[i].owner == t && w[i].depth > 0, "lock " << i << " was lost by its owner");
         else REQUIRE(s, w[i].owner < 0, "thread " << t << " got lock " << i << " while thread " << w[i].owner << " holds it " << w[i].depth << " times");
         (void)e;
         w[i].owner = t; w[i].depth++; w[i].epoch++;
         NOTE(s, "thread " << t << " has " << i << " " << w[i].depth << " times");
      };
      auto unlock = [&](int t, size_t i) {
         REQUIRE(s, w[i].owner == t, "lock " << i << " changed hands while thread " << t << " held it");
         NOTE(s, "thread " << t << " unlocks " << i << " from depth " << w[i].depth);
         w[i].epoch++;
         if(--w[i].depth == 0) { w[i].owner = -1; f[i]->unlock(); w[i].busy--; }
         else f[i]->unlock();
         w[i].epoch++;
      };
      auto body = [&](int t, std::vector<Step>& script) {
         std::vector<size_t> held;      // stack of acquisitions
         for(size_t i = 0; i < nf; ++i) observe(t, i);
         for(auto& st: script) {
            switch(st.k) {
            case 0: {  // take a lock at an allowed rank: a held one again, or one above every held one
               size_t top = 0; bool any = !held.empty();
               for(auto h: held) top = std::max(top, h);
               size_t i = st.f;
               bool have = std::find(held.begin(), held.end(), i) != held.end();
               if(any && !have && i < top) i = top;
               lock(t, i); held.push_back(i);
               break; }
            case 1: if(!held.empty()) { size_t k = st.f % held.size(); size_t i = held[k]; unlock(t, i); held.erase(held.begin() + (long)k); } break;
            case 2: observe(t, st.f); break;
            default: coop::point("work"); break;
            }
            for(auto h: held) REQUIRE(s, w[h].owner == t, "lock " << h << " changed hands while thread " << t << " held it");
         }
         while(!held.empty()) { observe(t, held.back()); unlock(t, held.back()); held.pop_back(); }
         for(size_t i = 0; i < nf; ++i) observe(t, i);
      };
      for(size_t t = 0; t < nt; ++t) ids.push_back(sc.spawn([&, t] { body((int)t, script[t]); }));
      for(size_t i = 0; i < nf; ++i) observe(99, i);     // a thread that never locked anything
      for(int id: ids) sc.join(id);
      for(size_t i = 0; i < nf; ++i) { REQUIRE(s, !f[i]->isLocked(), "lock " << i << " is locked after every unlock"); REQUIRE(s, !f[i]->isOwner(), "a thread without locks owns lock " << i); }
      // and can be taken by another thread
      std::vector<Step> again; for(size_t i = 0; i < nf; ++i) again.push_back({0, i});
      int id = sc.spawn([&] { body(77, again); });
      sc.join(id);
   }
   if(contended && nested) s.nontrivial();
   if(contended) s.label("contended");
   if(nested) s.label("nested");
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C09"); }

// C11 with real threads: the returned values must chain from the initial to the final value.
#include "pbt.hpp"
#include <falcon/atomic.h>
#include <thread>
PBT_ARM_RT(threads, 3000, 60000, 40) {
   size_t nt = 2 + s.draw(4), n = 100 + s.draw(1500);
   int mode = (int)s.draw(7);
   static const char* names[] = {"inc", "dec", "add", "exchange", "xor", "cas loops", "mixed"};
   NOTE(s, nt << " threads, " << n << " rounds of " << names[mode]);
   int32_t init = (int32_t)(uint32_t)s.draw(1ull << 32);
   uint64_t salt = s.draw(1u << 30);
   falcon::atomic_int v = init;
   std::atomic<int> go{0};
   std::vector<std::vector<std::pair<int32_t, int32_t>>> edges(nt);    // value before -> after
   std::vector<std::thread> th;
   for(size_t t = 0; t < nt; ++t) th.emplace_back([&, t] {
      auto& e = edges[t]; e.reserve(n);
      uint64_t r = pbt::mix(salt + t);
      go++; while(go < (int)nt) {}
      for(size_t i = 0; i < n; ++i) {
         r = pbt::mix(r);
         int32_t x = (int32_t)(r >> 20);
         int k = mode == 6 ? (int)(r % 6) : mode;
         switch(k) {
         case 0: { int32_t w = falcon::atomicInc(v); e.push_back({(int32_t)((uint32_t)w - 1), w}); break; }
         case 1: { int32_t w = falcon::atomicDec(v); e.push_back({(int32_t)((uint32_t)w + 1), w}); break; }
         case 2: { int32_t w = falcon::atomicAdd(v, x); e.push_back({(int32_t)((uint32_t)w - (uint32_t)x), w}); break; }
         case 3: { int32_t w = falcon::atomicExchange(v, x); e.push_back({w, x}); break; }
         case 4: { int32_t w = falcon::atomicXor(v, x); e.push_back({w, w ^ x}); break; }
         default: { int32_t w; do { w = falcon::atomicFetch(v); } while(!falcon::atomicCAS(v, w, x)); e.push_back({w, x}); break; }
         }
      }
   });
   for(auto& t: th) t.join();
   std::map<int32_t, long> deg;
   deg[init]++; deg[falcon::atomicFetch(v)]--;
   for(auto& e: edges) for(auto& p: e) { deg[p.first]--; deg[p.second]++; }
   for(auto& d: deg) REQUIRE(s, d.second == 0, "value " << d.first << " was " << (d.second > 0 ? "left by " : "found by ") << std::labs(d.second) << " more operation(s) than the other way round: an update was lost or doubled");
   s.nontrivial();
}
PBT_ARM_RT(bits, 1500, 30000, 40) {
   // every thread owns some bits: its own view of them is sequential
   size_t nt = 2 + s.draw(3), n = 100 + s.draw(1500);
   uint64_t salt = s.draw(1u << 30);
   NOTE(s, nt << " threads, " << n << " rounds of and/or/xor on their own bits");
   uint32_t owner[4] = {0x11111111, 0x22222222, 0x44444444, 0x88888888};
   falcon::atomic_int v = 0;
   std::atomic<int> go{0}, bad{0};
   std::vector<uint32_t> mine(nt, 0);
   std::vector<std::thread> th;
   for(size_t t = 0; t < nt; ++t) th.emplace_back([&, t] {
      uint64_t r = pbt::mix(salt + t);
      uint32_t m = 0, o = owner[t];
      go++; while(go < (int)nt) {}
      for(size_t i = 0; i < n; ++i) {
         r = pbt::mix(r);
         uint32_t x = (uint32_t)(r >> 20) & o, prev;
         switch(r % 3) {
         case 0: prev = (uint32_t)falcon::atomicOr(v, (int32_t)x); if((prev & o) != m) bad++; m |= x; break;
         case 1: prev = (uint32_t)falcon::atomicAnd(v, (int32_t)(x | ~o)); if((prev & o) != m) bad++; m &= x; break;
         default: prev = (uint32_t)falcon::atomicXor(v, (int32_t)x); if((prev & o) != m) bad++; m ^= x; break;
         }
         if(((uint32_t)falcon::atomicFetch(v) & o) != m) bad++;
      }
      mine[t] = m;
   });
   for(auto& t: th) t.join();
   REQUIRE(s, bad == 0, bad << " times a thread found its own bits changed");
   uint32_t all = 0; for(auto m: mine) all |= m;
   REQUIRE(s, (uint32_t)falcon::atomicFetch(v) == all, "the final bits are " << std::hex << (uint32_t)v << " instead of " << all);
   s.nontrivial();
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C11"); }

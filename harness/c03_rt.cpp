// C03: synchronous iterators of real threads, under the thread sanitizer.
#include "stackops.hpp"
#include <mutex>
#include <thread>
using namespace so;
using Stack = falcon::PagedStack<std::string, std::allocator, std::mutex>;

PBT_ARM_RT(threads, 2500, 40000, 30) {
   size_t page = 1 + s.draw(6), prealloc = 1 + s.draw(3), nt = 2 + s.draw(3), keep = 1 + s.draw(10);
   std::vector<uint64_t> seeds; for(size_t t = 0; t < nt; ++t) seeds.push_back(s.draw(1u << 30));
   size_t rounds = 10 + s.draw(60);
   NOTE(s, "page size " << page << ", prealloc " << prealloc << ", " << nt << " threads, " << keep << " elements stay");
   size_t blocks;
   {
      Stack st(page, prealloc);
      for(size_t i = 0; i < keep; ++i) st.push("element number " + std::to_string(i) + " that stays");
      std::atomic<int> go{0};
      std::atomic<long> bad{0};
      std::vector<std::thread> th;
      for(size_t t = 0; t < nt; ++t) th.emplace_back([&, t] {
         go++;
         while(go < (int)nt) std::this_thread::yield();
         uint64_t x = seeds[t] | 1;
         auto rnd = [&](uint64_t n) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x % n; };
         const Stack& cst = st;
         size_t mine = 0;
         auto check = [&](const std::string& v) { if(v.compare(0, 15, "element number ") != 0) bad++; };
         for(size_t r = 0; r < rounds; ++r) switch(rnd(8)) {
         case 0: case 1: { size_t n = 1 + rnd(4); for(size_t i = 0; i < n; ++i) st.push("element number " + std::to_string(i) + " that comes and goes"); mine += n; break; }
         case 2: case 3: { std::string v; while(mine) { --mine; st.pop(v); check(v); if(rnd(3) == 0) break; } break; }
         case 4: st.shrink_to_fit(); break;
         case 5: case 6: {
            auto i = st.sync_begin(); auto e = st.sync_end();
            std::string v;
            for(size_t k = 0; k < 8 && i != e; ++k) { i.get(v); check(v); if(rnd(4) == 0) { auto c = i; c.get(v); check(v); ++c; i = c; } else ++i; }
            break; }
         default: {
            auto i = cst.sync_begin(); auto e = cst.sync_end();
            std::string v;
            for(size_t k = 0; k < 8 && i != e; ++k) { i.get(v); check(v); auto c = i; ++i; c = i; if(!(c == i)) bad++; }
            break; }
         }
      });
      for(auto& t: th) t.join();
      REQUIRE(s, bad == 0, bad << " reads through synchronous iterators gave something that was never on the stack");
      st.shrink_to_fit();
      size_t d, c, e; st.getStats(blocks, d, c, e);
      REQUIRE(s, blocks == c, "with no iterator left a shrink leaves " << blocks << " pages, " << c << " in use");
   }
   s.nontrivial();
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C03"); }

// C08 with real threads under the thread sanitizer: exclusion, visibility and progress.
#include "pbt.hpp"
#include <falcon/futex.h>
#include <thread>

template<unsigned N> void stress(pbt::Src& s, bool guard) {
   falcon::Futex<N> f;
   size_t nt = 2 + s.draw(3), n = 20 + s.draw(150);
   NOTE(s, "spin count " << N << ", " << nt << " threads, " << n << " rounds");
   uint64_t counter = 0;
   std::string text;
   int inside = 0;
   std::atomic<int> go{0}, bad{0};
   std::vector<std::thread> th;
   for(size_t t = 0; t < nt; ++t) th.emplace_back([&, t] {
      go++; while(go < (int)nt) std::this_thread::yield();
      for(size_t i = 0; i < n; ++i) {
         if(guard) {
            std::lock_guard<falcon::Futex<N>> g(f);
            if(inside++) bad++;
            ++counter; text.assign(1 + counter % 40, (char)('a' + t));
            if(!f.isLocked()) bad++;
            inside--;
         } else {
            f.lock();
            if(inside++) bad++;
            ++counter; text.assign(1 + counter % 40, (char)('a' + t));
            inside--;
            f.unlock();
         }
         if(i % 16 == 3) std::this_thread::yield();
      }
   });
   for(auto& t: th) t.join();
   REQUIRE(s, bad == 0, "two threads inside, or a held lock reported free");
   REQUIRE(s, counter == nt * n, nt * n - counter << " updates lost");
   REQUIRE(s, !f.isLocked(), "locked after every unlock");
   s.nontrivial();
}
PBT_ARM_RT(threads, 4000, 150000, 30) {
   bool g = s.coin();
   switch(s.draw(6)) {
   case 0: stress<1>(s, g); break;
   case 1: stress<0>(s, g); break;
   case 2: stress<2>(s, g); break;
   case 3: stress<5>(s, g); break;
   case 4: stress<50>(s, g); break;
   default: stress<1000>(s, g); break;
   }
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C08"); }

// C09 with real threads under the thread sanitizer.
#include "pbt.hpp"
#include <falcon/futex.h>
#include <thread>
PBT_ARM_RT(threads, 3000, 100000, 30) {
   size_t nl = 1 + s.draw(2), nt = 2 + s.draw(3), n = 10 + s.draw(80), depth = 1 + s.draw(4);
   NOTE(s, nl << " locks, " << nt << " threads, " << n << " rounds, depth up to " << depth);
   std::vector<falcon::RFutex> f(nl);
   std::vector<uint64_t> counter(nl, 0);
   std::vector<std::string> text(nl);
   std::atomic<int> go{0}, bad{0};
   std::vector<std::thread> th;
   for(size_t t = 0; t < nt; ++t) th.emplace_back([&, t] {
      go++; while(go < (int)nt) std::this_thread::yield();
      for(auto& l: f) if(l.isOwner()) bad++;
      for(size_t i = 0; i < n; ++i) {
         size_t k = (i + t) % nl, d = 1 + i % depth;
         for(size_t q = 0; q < d; ++q) { f[k].lock(); if(!f[k].isOwner() || !f[k].isLocked()) bad++; }
         for(size_t q = 0; q < d; ++q) { counter[k]++; text[k].assign(1 + counter[k] % 30, 'x'); if(!f[k].isOwner()) bad++; f[k].unlock(); }
         if(f[k].isOwner()) bad++;
         if(i % 8 == 3) std::this_thread::yield();
      }
   });
   for(auto& t: th) t.join();
   REQUIRE(s, bad == 0, "ownership was reported wrongly " << bad << " times");
   uint64_t all = 0, want = 0;
   for(auto c: counter) all += c;
   for(size_t t = 0; t < nt; ++t) for(size_t i = 0; i < n; ++i) want += 1 + i % depth;
   REQUIRE(s, all == want, want - all << " updates lost");
   for(auto& l: f) REQUIRE(s, !l.isLocked(), "locked after every unlock");
   s.nontrivial();
}
/// Deep recursion and many threads.
PBT_ARM_RT(extremes, 60, 600, 3) {
   pbt::isolated(s, [&] {
      static falcon::RFutex f, other;      // (a fresh process)
      size_t depth = s.pick({(size_t)1, (size_t)127, (size_t)128, (size_t)129, (size_t)255, (size_t)256, (size_t)257, (size_t)300, (size_t)511, (size_t)512, (size_t)1000, (size_t)32767, (size_t)32768, (size_t)65535, (size_t)65536, (size_t)65537, (size_t)70000, (size_t)200000});
      size_t threads = s.pick({(size_t)0, (size_t)0, (size_t)3, (size_t)130, (size_t)256, (size_t)300, (size_t)600}), dips = s.draw(4);
      if(s.coin(1, 15)) threads = 66000;
      NOTE(s, "depth " << depth << ", " << threads << " other threads, " << dips << " dips");
      std::string bad; size_t have = 0;
      auto take = [&](size_t to) { while(have < to) { f.lock(); ++have; } };
      auto drop = [&](size_t to) { while(have > to) { f.unlock(); --have; if(f.isLocked() != (have > 0) || f.isOwner() != (have > 0)) s.fail("after " + std::to_string(depth) + " acquisitions and releases down to " + std::to_string(have) + " the lock reports itself " + (f.isLocked() ? "locked" : "free") + (f.isOwner() ? ", owned" : ", not owned")); } };
      take(depth);
      for(size_t i = 0; i < dips; ++i) { drop(depth - s.draw(depth)); take(depth); }
      if(!f.isLocked() || !f.isOwner()) s.fail("the lock is not held after " + std::to_string(depth) + " acquisitions");
      for(size_t i = 0; i < threads && bad.empty(); ++i) {
         std::thread t([&] {
            auto no = "thread " + std::to_string(i + 1);
            if(f.isOwner() || other.isOwner()) bad = no + " is told it owns a lock before it locks anything";
            other.lock();
            if(!other.isLocked() || !other.isOwner()) bad = no + " is told it does not own the lock it holds";
            if(f.isOwner()) bad = no + " is told it owns the lock another thread holds";
            other.unlock();
            if(other.isLocked() || other.isOwner()) bad = no + " cannot release its lock";
         });
         t.join();
         if(other.isOwner()) bad = "a lock is reported as owned by a thread that never locked it";
      }
      if(!bad.empty()) s.fail(bad);
      static std::atomic<bool> in{false}, ready{false};
      std::thread w([] { ready = true; f.lock(); in = true; f.unlock(); });
      struct Leave { std::thread& t; ~Leave() { if(t.joinable()) t.detach(); } } leave{w};
      while(!ready) std::this_thread::yield();
      drop(1);
      usleep(300);
      if(in) { s.fail("a thread got the lock while it was held"); }
      f.unlock(); have = 0;
      w.join();
      if(f.isLocked() || f.isOwner()) s.fail("the lock is not free after as many releases as acquisitions");
      s.nontrivial();
      if(depth > 65535) s.label("deep"); if(threads > 65535) s.label("very many threads");
   });
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C09"); }

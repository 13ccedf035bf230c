// C10 with real threads: what the waiters of a held lock do, told by the yields the system sees.
#include "pbt.hpp"
#include <falcon/futex.h>
#include <memory>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>
namespace {
std::atomic<uint64_t>*& counter() { static thread_local std::atomic<uint64_t>* c = nullptr; return c; }
struct Any { virtual ~Any() {} virtual void lock() = 0; virtual void unlock() = 0; };
template<unsigned N> struct Of: Any { falcon::Futex<N> f; void lock() override { f.lock(); } void unlock() override { f.unlock(); } };
}
extern "C" int sched_yield() noexcept { if(counter()) ++*counter(); return (int)syscall(SYS_sched_yield); }

PBT_ARM_RT(held, 400, 4000, 5) {
   std::unique_ptr<Any> f; unsigned n = s.pick({0u, 1u, 2u, 3u, 16u, 1000u, 4000000000u});
   switch(n) { case 0: f.reset(new Of<0>); break; case 1: f.reset(new Of<1>); break; case 2: f.reset(new Of<2>); break; case 3: f.reset(new Of<3>); break; case 16: f.reset(new Of<16>); break; case 1000: f.reset(new Of<1000>); break; default: f.reset(new Of<4000000000u>); break; }
   size_t nt = 1 + s.draw(3), rounds = s.draw(4); uint64_t want = 1 + s.draw(20);
   bool yields = n && n <= 1000;
   NOTE(s, "spin count " << n << ", " << nt << " waiters, waiting for " << want << " yields");
   std::atomic<uint64_t> mine{0}, none{0};
   std::atomic<size_t> in{0};
   std::vector<std::unique_ptr<std::atomic<uint64_t>>> y; for(size_t t = 0; t < nt; ++t) y.emplace_back(new std::atomic<uint64_t>(0));
   counter() = &mine;
   for(size_t i = 0; i < rounds; ++i) { f->lock(); f->unlock(); }
   f->lock();
   counter() = nullptr;
   uint64_t uncontended = mine;
   std::vector<std::thread> th;
   for(size_t t = 0; t < nt; ++t) th.emplace_back([&, t] { counter() = y[t].get(); ++in; f->lock(); counter() = nullptr; f->unlock(); });
   while(in < nt) usleep(50);
   // the contention lasts until each waiter has yielded that often, or for a while if they don't have to
   bool all = false;
   auto t0 = std::chrono::steady_clock::now();
   while(!all && std::chrono::steady_clock::now() - t0 < (yields ? std::chrono::milliseconds(10000) : std::chrono::milliseconds(3))) {
      usleep(100);
      if(yields) { all = true; for(auto& c: y) all = all && *c >= want; }
   }
   f->unlock();
   for(auto& t: th) t.join();
   REQUIRE(s, uncontended == 0, "an uncontended acquisition yielded");
   if(yields) REQUIRE(s, all, "with spin count " << n << " a waiter stopped yielding before " << want << " times, though the lock was held");
   else for(auto& c: y) REQUIRE(s, *c == 0, "with spin count " << n << " a waiter yielded " << *c << " times");
   s.nontrivial();
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C10"); }

// Threads that start together, each working on objects of its own; the first complaint is kept.
#ifndef VERIF_THREADS_HPP
#define VERIF_THREADS_HPP
#include "pbt.hpp"
#include <functional>
#include <thread>
namespace together {
struct Complaints {
   std::mutex m; std::string first;
   void add(const std::string& t) { std::lock_guard<std::mutex> g(m); if(first.empty()) first = t; }
};
inline void run(pbt::Src& s, size_t n, const std::function<void(size_t, Complaints&)>& f, const std::function<void()>& meanwhile = {}) {
   Complaints c; std::atomic<size_t> ready{0};
   std::vector<std::thread> th;
   for(size_t t = 0; t < n; ++t) th.emplace_back([&, t] { ++ready; while(ready < n) std::this_thread::yield(); f(t, c); });
   if(meanwhile) meanwhile();
   for(auto& t: th) t.join();
   REQUIRE(s, c.first.empty(), c.first);
}
/// A cheap source of decisions inside a thread.
struct Dice { uint64_t r; explicit Dice(uint64_t seed): r(seed) {} size_t operator()(size_t n) { r = pbt::mix(r); return (size_t)((r >> 20) % n); } };
}
#endif

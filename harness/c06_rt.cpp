// C06 with real threads and a real mutex, under the thread sanitizer.
#include "stackops.hpp"
#include <mutex>
#include <thread>
using namespace so;
using Stack = falcon::PagedStack<std::string, std::allocator, std::mutex>;

PBT_ARM_RT(threads, 6000, 60000, 30) {
   size_t page = 1 + s.draw(6), prealloc = 1 + s.draw(3), nt = 2 + s.draw(3), prefill = s.draw(20);
   struct Op { int k; size_t n; };
   std::vector<std::vector<Op>> h(nt);
   for(size_t t = 0; t < nt; ++t) {
      size_t n = 20 + s.draw(100), allow = prefill / nt;
      for(size_t i = 0; i < n; ++i) {
         Op op{(int)s.draw(12), 1};
         if(op.k == 1) op.n = 1 + s.draw(3);
         if(op.k <= 2) { if(op.k == 1) allow += op.n + 1; else allow += 1; }
         else if(op.k <= 8) {
            if(!allow) op = {0, 1}, allow++;
            else { op.n = 1 + s.draw(std::min<size_t>(allow, 3)); if(op.k <= 6) { if(op.k == 3) op.n = 1; allow -= op.n; } }
         }
         h[t].push_back(op);
      }
   }
   NOTE(s, "page size " << page << ", prealloc " << prealloc << ", " << nt << " threads, " << prefill << " elements first");
   Stack st(page, prealloc);
   std::multiset<std::string> in, out;
   std::mutex collect;
   for(size_t i = 0; i < prefill; ++i) { std::string v = "element number " + std::to_string(i) + " of the prefill"; st.push(v); in.insert(v); }
   std::vector<std::thread> th;
   std::atomic<int> go{0};
   std::atomic<long> unseen{0};
   for(size_t t = 0; t < nt; ++t) th.emplace_back([&, t] {
      go++;
      while(go < (int)nt) std::this_thread::yield();
      std::vector<std::string> mine, got;
      uint64_t k = 0;
      auto fresh = [&] { mine.push_back("element number " + std::to_string(k++) + " of thread " + std::to_string(t)); return mine.back(); };
      for(auto& op: h[t]) {
         std::vector<std::string> a(op.n);
         switch(op.k) {
         case 0: st.push(fresh()); break;
         case 1: if(op.n == 1) { auto x = fresh(), y = fresh(); st.push(x, y); } else if(op.n == 2) { auto x = fresh(), y = fresh(), z = fresh(); st.push(x, y, z); } else { auto x = fresh(), y = fresh(), z = fresh(), w = fresh(); st.push(x, y, z, w); } break;
         case 2: st.push_emplace(fresh()); break;
         case 3: case 4: spread([&](auto&... x) { st.pop(x...); }, a); got.insert(got.end(), a.begin(), a.end()); break;
         case 5: spread([&](auto&... x) { st.pop_reverse(x...); }, a); got.insert(got.end(), a.begin(), a.end()); break;
         case 6: for(size_t i = 0; i < op.n; ++i) { st.pop(a[i]); got.push_back(a[i]); } break;
         case 7: spread([&](auto&... x) { st.peek(x...); }, a); break;
         case 8: spread([&](auto&... x) { st.peek_reverse(x...); }, a); break;
         case 9: st.shrink_to_fit(); break;
         case 10: { size_t b, d, c, e; st.getStats(b, d, c, e); if(e > page || c > b) unseen++; break; }
         default: if(st.empty() && st.size() > 100000) unseen++; break;
         }
      }
      std::lock_guard<std::mutex> g(collect);
      in.insert(mine.begin(), mine.end());
      out.insert(got.begin(), got.end());
   });
   for(auto& t: th) t.join();
   REQUIRE(s, unseen == 0, "getStats() gave impossible numbers");
   while(!st.empty()) { std::string x; st.pop(x); out.insert(x); }
   REQUIRE(s, in.size() == out.size(), in.size() << " elements went in and " << out.size() << " came out");
   REQUIRE(s, in == out, "the elements that came out are not those that went in");
   s.nontrivial();
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C06"); }

#include "c01.hpp"
PBT_ARM(ints, 90000, 1500000, false) { history<falcon::PagedStack<int>, int>(s); }
/// PagedStack under the default sizes, driven across several real pages.
PBT_ARM(large, 800, 10000, false) {
   falcon::PagedStack<int> st;
   Driver<falcon::PagedStack<int>, int> d(st, 1024, 4, 20000);
   size_t n = 3 + s.draw(12);
   for(size_t i = 0; i < n; ++i) {
      size_t k = s.draw(4) * 1024 + s.draw(1200);
      if(s.coin()) { for(size_t j = 0; j < k && d.m.size() < 20000; ++j) { st.push((int)d.next); d.m.push_back(d.next++); } NOTE(s, "size to " << d.m.size()); }
      else { k = std::min(k, d.m.size()); NOTE(s, "discard " << k); st.discard(k); d.m.resize(d.m.size() - k); }
      for(int j = 0; j < 3; ++j) d.step(s);
      d.checkContent(s, false);
      for(int j = 0; j < 20 && !d.m.empty(); ++j) { size_t q = 1 + s.draw(d.m.size()); int x = 0; st.peek_depth(q, x); REQUIRE(s, (uint64_t)x == d.m[d.m.size() - q], "element at depth " << q << " is " << x); }
   }
   if(d.crossings) s.nontrivial();
   d.drain(s);
}

/// Many elements on many pages.
PBT_ARM(huge, 40, 1500, false) {
   static const size_t pages[] = {1, 2, 3, 5, 7, 48, 255, 256, 1024, 5000, 65535, 65537, 70000, 140000};
   static const size_t sizes[] = {255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 70000, 131073, 200000};
   size_t page = pages[s.draw(14)], pre = s.pick({(size_t)1, (size_t)4, (size_t)256, (size_t)300});
   if(page >= 255) pre = std::min<size_t>(pre, page > 5000 ? 1 : 4);
   NOTE(s, "page size " << page << ", prealloc " << pre);
   falcon::PagedStack<int> st(page, pre);
   Driver<falcon::PagedStack<int>, int> d(st, page, pre, 210000);
   size_t n = 2 + s.draw(6);
   auto look = [&] {
      d.checkContent(s, false);
      for(int j = 0; j < 12 && !d.m.empty(); ++j) {
         size_t q = j < 3 ? std::min<size_t>(d.m.size(), (size_t[]){1, page, page + 1}[j]) : 1 + s.draw(d.m.size()); int x = 0; st.peek_depth(q, x);
         uint64_t want = d.m[d.m.size() - q];
         REQUIRE(s, (uint64_t)x == want, "of " << d.m.size() << " elements the one at depth " << q << " is " << x << " instead of " << want);
         auto a = st.begin(); a += q - 1; REQUIRE(s, (uint64_t)*a == want, "of " << d.m.size() << " elements, an iterator " << q - 1 << " below the top is on " << *a << " instead of " << want);
         auto b = st.rbegin(); b += d.m.size() - q; REQUIRE(s, (uint64_t)*b == want, "of " << d.m.size() << " elements, an iterator " << d.m.size() - q << " above the bottom is on " << *b << " instead of " << want);
         REQUIRE(s, (uint64_t)*st.from_top(q) == want, "from_top(" << q << ") of " << d.m.size() << " elements is on " << *st.from_top(q) << " instead of " << want);
         a -= q - 1; REQUIRE(s, a == st.begin(), "an iterator is not back on the top element");
      }
   };
   for(size_t i = 0; i < n; ++i) {
      size_t to = sizes[s.draw(12)] + s.draw(3) - 1;
      size_t have = d.m.size();
      if(to > have) while(d.m.size() < to) { st.push((int)d.next); d.m.push_back(d.next++); }
      else if(s.coin()) { st.discard(have - to); d.m.resize(to); }
      else { auto it = st.from_top(have - to); if(have > to) { st.discard(it); d.m.resize(to); } }
      NOTE(s, "size from " << have << " to " << d.m.size());
      look();
      for(int j = 0; j < 3; ++j) d.step(s);
      look();
   }
   if(d.m.size() || d.crossings) s.nontrivial();
   switch(s.draw(3)) {
   case 0: {      // all of it, in order, both ways
      size_t i = d.m.size(); for(auto& x: st) { REQUIRE(s, i > 0 && (uint64_t)x == d.m[i - 1], "walking down " << d.m.size() << " elements, number " << i << " is " << x); --i; }
      REQUIRE(s, i == 0, "walking down " << d.m.size() << " elements stops " << i << " early");
      auto e = st.rend(); for(auto it = st.rbegin(); it != e; ++it) { REQUIRE(s, i < d.m.size() && (uint64_t)*it == d.m[i], "walking up " << d.m.size() << " elements, number " << i << " is " << *it); ++i; }
      REQUIRE(s, i == d.m.size(), "walking up " << d.m.size() << " elements stops after " << i);
      break; }
   case 1: { falcon::PagedStack<int> cp(st); REQUIRE(s, cp.size() == d.m.size(), "a copy of " << d.m.size() << " elements has " << cp.size()); st.clear(); REQUIRE(s, st.size() == 0, "not empty when cleared"); std::vector<uint64_t> m = d.m; d.m.clear(); Driver<falcon::PagedStack<int>, int> e(cp, page, pre, 210000); e.m = m; e.drain(s); return; }
   default: break;
   }
   d.drain(s);
}

int main(int argc, char** argv) { return pbt::run(argc, argv, "C01"); }

#include "c02.hpp"
PBT_ARM(ints, 200000, 3000000, false) { traverse<falcon::PagedStack<int>, int>(s); }
/// Steps and traversals over more than 65536 elements.
PBT_ARM(far, 60, 1500, false) {
   using Stack = falcon::PagedStack<int>;
   static const size_t pages[] = {1, 3, 64, 255, 256, 1024, 40000, 65536, 65537, 140000};
   size_t page = pages[s.draw(10)], n = s.coin() ? 65530 + s.draw(20) : 65000 + s.draw(70000);
   Stack st(page, 1 + s.draw(2));
   const Stack& cst = st;
   for(size_t i = 0; i < n; ++i) st.push((int)i);
   NOTE(s, n << " elements on pages of " << page);
   s.nontrivial();
   auto walkFar = [&](const char* kind, auto it, auto first, auto last, bool up, size_t pos) {
      for(int j = 0; j < 8; ++j) {
         size_t k;
         if(s.coin()) { k = s.coin() ? n - pos : s.draw(n - pos + 1); if(k == n - pos && k && s.coin()) --k; NOTE(s, kind << " at " << pos << " += " << k); it += k; pos += k; }
         else { k = s.coin() ? pos : s.draw(pos + 1); NOTE(s, kind << " at " << pos << " -= " << k); it -= k; pos -= k; }
         if(pos < n) { size_t want = up ? pos : n - 1 - pos; REQUIRE(s, (size_t)*it == want, kind << " over " << n << " elements: position " << pos << " gives " << *it << " instead of " << want); }
         REQUIRE(s, (it == last) == (pos == n) && (it == first) == (pos == 0), kind << " over " << n << " elements: at position " << pos << " it " << (it == last ? "is" : "is not") << " at the end and " << (it == first ? "is" : "is not") << " at the beginning");
      }
   };
   walkFar("forward", st.begin(), st.begin(), st.end(), false, 0);
   walkFar("const forward", cst.begin(), cst.begin(), cst.end(), false, 0);
   walkFar("reverse", st.rbegin(), st.rbegin(), st.rend(), true, 0);
   walkFar("const reverse", cst.rbegin(), cst.rbegin(), cst.rend(), true, 0);
   size_t d = 1 + s.draw(n);
   NOTE(s, "from_top(" << d << ")");
   walkFar("from_top", st.from_top(d), st.rbegin(), st.rend(), true, n - d);
   walkFar("const from_top", cst.from_top(d), cst.rbegin(), cst.rend(), true, n - d);
   size_t i = n; for(auto it = cst.begin(), e = cst.end(); it != e; ++it) { REQUIRE(s, i > 0 && (size_t)*it == i - 1, "walking down, number " << i << " is " << *it); --i; }
   REQUIRE(s, i == 0, "walking down " << n << " elements stops " << i << " early");
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C02"); }

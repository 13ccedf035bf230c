// C02: iterator walks on reachable stack states against index arithmetic.
#pragma once
#include "stackops.hpp"
using namespace so;

/// One iterator kind seen as positions 0..n along its direction; at(i) is the model index of position i.
template<typename It, typename Make, typename AtF, typename IdF>
void walk(pbt::Src& s, const char* kind, const std::vector<uint64_t>& m, It cur, size_t start, Make mk, AtF at, IdF idOf) {
   size_t n = m.size();
   size_t pos = start;
   size_t steps = s.draw(14);
   It ends = mk(n);
   auto verify = [&](It& it, size_t p, const char* what) {
      if(p < n) {
         REQUIRE(s, idOf(*it) == m[at(p)], kind << " " << what << ": position " << p << " gives " << idOf(*it) << ", model " << m[at(p)] << " of " << list(m));
         REQUIRE(s, idOf(*it.operator->()) == m[at(p)], kind << " " << what << ": operator-> differs at position " << p);
         const It& c = it;
         REQUIRE(s, idOf(*c) == m[at(p)], kind << " " << what << ": const dereference differs at position " << p);
      }
      It fresh = mk(p);
      REQUIRE(s, it == fresh && !(it != fresh), kind << " " << what << ": not equal to a fresh iterator at the same position " << p << " of " << n);
      if(p != n) REQUIRE(s, it != ends && !(it == ends), kind << " " << what << ": equals the end at position " << p << " of " << n);
      if(n) { size_t q = s.draw(n + 1); It o = mk(q); REQUIRE(s, (it == o) == (p == q) && (it != o) == (p != q), kind << " " << what << ": equality of positions " << p << " and " << q << " of " << n << " is wrong"); }
   };
   verify(cur, pos, "start");
   for(size_t i = 0; i < steps; ++i) {
      switch(s.draw(6)) {
      case 0: if(pos < n) { NOTE(s, kind << " ++"); ++cur; ++pos; verify(cur, pos, "++"); } break;
      case 1: if(pos > 0) { NOTE(s, kind << " --"); --cur; --pos; verify(cur, pos, "--"); } break;
      case 2: if(pos < n) { NOTE(s, kind << " post++"); It old = cur++; verify(old, pos, "post++ result"); ++pos; verify(cur, pos, "post++"); } break;
      case 3: if(pos > 0) { NOTE(s, kind << " post--"); It old = cur--; verify(old, pos, "post-- result"); --pos; verify(cur, pos, "post--"); } break;
      case 4: { size_t k = s.draw(n - pos + 1); NOTE(s, kind << " += " << k); cur += k; pos += k; verify(cur, pos, "+="); break; }
      default: { size_t k = s.draw(pos + 1); NOTE(s, kind << " -= " << k); cur -= k; pos -= k; verify(cur, pos, "-="); break; }
      }
   }
}

template<typename It, typename IdF> void sweep(pbt::Src& s, const char* kind, It it, const It& end, const std::vector<uint64_t>& m, size_t from, size_t count, bool up, IdF idOf) {
   size_t i = 0;
   while(it != end) {
      REQUIRE(s, i < count, kind << " traversal of " << m.size() << " elements does not stop after " << count << " steps");
      size_t at = up ? from + i : from - i;
      REQUIRE(s, idOf(*it) == m[at], kind << " traversal: step " << i << " gives " << idOf(*it) << ", model " << m[at] << " of " << list(m));
      ++it; ++i;
   }
   REQUIRE(s, i == count, kind << " traversal ended after " << i << " of " << count << " steps");
}

template<typename Stack, typename T> void traverse(pbt::Src& s) {
   Cfg c = config(s);
   Stack st(c.page, c.prealloc);
   const Stack& cst = st;
   Driver<Stack, T> d(st, c.page, c.prealloc, c.maxSize);
   auto idOf = [](const T& t) { return Val<T>::id(t); };
   size_t rounds = 1 + s.draw(4);
   for(size_t r = 0; r < rounds; ++r) {
      size_t n = 3 + s.draw(18);
      for(size_t i = 0; i < n; ++i) d.step(s);
      auto& m = d.m;
      size_t sz = m.size();
      NOTE(s, "traverse " << list(m));
      sweep(s, "forward", st.begin(), st.end(), m, sz - 1, sz, false, idOf);
      sweep(s, "const forward", cst.begin(), cst.end(), m, sz - 1, sz, false, idOf);
      sweep(s, "cbegin", st.cbegin(), st.cend(), m, sz - 1, sz, false, idOf);
      sweep(s, "reverse", st.rbegin(), st.rend(), m, 0, sz, true, idOf);
      sweep(s, "const reverse", cst.rbegin(), cst.rend(), m, 0, sz, true, idOf);
      sweep(s, "crbegin", st.crbegin(), st.crend(), m, 0, sz, true, idOf);
      for(int k = 0; k < 3; ++k) {
         size_t depth = d.someCount(s);
         sweep(s, "from_top", st.from_top(depth), st.rend(), m, sz - depth, depth, true, idOf);
         sweep(s, "const from_top", cst.from_top(depth), cst.rend(), m, sz - depth, depth, true, idOf);
      }
      // random walks; positions are built independently by repeated ++ from the beginning
      auto fwd = [&](size_t p) { return sz - 1 - p; };
      auto rev = [&](size_t p) { return p; };
      auto mkF = [&](size_t p) { auto it = st.begin(); for(size_t i = 0; i < p; ++i) ++it; return it; };
      auto mkC = [&](size_t p) { auto it = cst.begin(); for(size_t i = 0; i < p; ++i) ++it; return it; };
      auto mkR = [&](size_t p) { return p == sz ? st.rend() : st.from_top(sz - p); };
      auto mkCR = [&](size_t p) { return p == sz ? cst.rend() : cst.from_top(sz - p); };
      switch(s.draw(8)) {
      case 0: walk(s, "forward", m, st.begin(), 0, mkF, fwd, idOf); break;
      case 1: walk(s, "const forward", m, cst.begin(), 0, mkC, fwd, idOf); break;
      case 2: walk(s, "reverse", m, st.rbegin(), 0, mkR, rev, idOf); break;
      case 3: walk(s, "const reverse", m, cst.rbegin(), 0, mkCR, rev, idOf); break;
      case 4: walk(s, "forward from end", m, st.end(), sz, mkF, fwd, idOf); break;
      case 5: walk(s, "reverse from end", m, st.rend(), sz, mkR, rev, idOf); break;
      case 6: { size_t depth = d.someCount(s); walk(s, "from_top", m, st.from_top(depth), sz - depth, mkR, rev, idOf); break; }
      default: { size_t depth = d.someCount(s); walk(s, "const from_top", m, cst.from_top(depth), sz - depth, mkCR, rev, idOf); break; }
      }
      // writes through mutable iterators touch exactly one element
      if(sz) {
         size_t i = s.draw(sz);
         uint64_t v = d.next++;
         NOTE(s, "write " << v << " at index " << i);
         if(s.coin()) { auto it = st.begin(); it += sz - 1 - i; *it = Val<T>::make(v); }
         else { auto it = st.from_top(sz - i); *it = Val<T>::make(v); }
         m[i] = v;
         sweep(s, "forward after a write", cst.begin(), cst.end(), m, sz - 1, sz, false, idOf);
      }
      size_t blocks, depth, cur, data;
      st.getStats(blocks, depth, cur, data);
      if(blocks > cur) s.label("spare pages");
      if(cur > 1) s.label("several pages");
      if(sz && data == c.page) s.label("full current page");
      if(sz == 0) s.label("empty");
      if(cur > 1 && sz) s.nontrivial();
   }
}

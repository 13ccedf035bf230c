// Operation histories over falcon::PagedStack with a std::vector model.
#ifndef VERIF_STACKOPS_HPP
#define VERIF_STACKOPS_HPP
#include "pbt.hpp"
#include <falcon/engine/pagedstack.h>
#include <string>
#include <tuple>
#include <utility>

namespace so {

template<typename T> struct Val;
template<> struct Val<int> {
   static int make(uint64_t v) { return (int)v; }
   static uint64_t id(const int& v) { return (uint64_t)(unsigned)v; }
   static const char* name() { return "int"; }
};
template<> struct Val<std::string> {
   static std::string make(uint64_t v) { return "a string long enough to live on the heap #" + std::to_string(v); }
   static uint64_t id(const std::string& s) {
      size_t p = s.find('#');
      if(p == std::string::npos) return s.empty() ? 999999001 : 999999002;
      return strtoull(s.c_str() + p + 1, nullptr, 10);
   }
   static const char* name() { return "string"; }
};
struct Rec { char tag; double d; uint64_t v; std::string s;
   Rec(): tag('d'), d(0), v(999999003) {}
   Rec(uint64_t x): tag('x'), d(x * 0.5), v(x), s("record value " + std::to_string(x)) {}
   Rec(uint64_t x, int y, const char*): Rec(x + y) {}
   bool ok() const { return tag == 'x' && d == v * 0.5 && s == "record value " + std::to_string(v); } };
template<> struct Val<Rec> {
   static Rec make(uint64_t v) { return Rec(v); }
   static uint64_t id(const Rec& r) { return r.ok() ? r.v : 999999004; }
   static const char* name() { return "record"; }
};

template<typename F, typename T, size_t... I> auto applyN(F&& f, std::vector<T>& v, std::index_sequence<I...>) { return f(v[I]...); }
/// Calls f(v[0], ..., v[k-1]) for k = v.size() in 1..6.
template<typename F, typename T> void spread(F&& f, std::vector<T>& v) {
   switch(v.size()) {
   case 1: applyN(f, v, std::make_index_sequence<1>{}); break;
   case 2: applyN(f, v, std::make_index_sequence<2>{}); break;
   case 3: applyN(f, v, std::make_index_sequence<3>{}); break;
   case 4: applyN(f, v, std::make_index_sequence<4>{}); break;
   case 5: applyN(f, v, std::make_index_sequence<5>{}); break;
   case 6: applyN(f, v, std::make_index_sequence<6>{}); break;
   case 9: applyN(f, v, std::make_index_sequence<9>{}); break;
   default: applyN(f, v, std::make_index_sequence<14>{}); break;
   }
}
/// A number of arguments spread() can pass, up to n.
inline size_t arity(pbt::Src& s, size_t n) {
   if(n > 6 && s.coin(1, 8)) return n >= 14 && s.coin() ? 14 : n >= 9 ? 9 : 6;
   return 1 + s.draw(std::min<size_t>(n, 6));
}

inline std::string list(const std::vector<uint64_t>& m) {
   std::ostringstream o; o << "[";
   size_t from = m.size() > 40 ? m.size() - 40 : 0;
   if(from) o << "... ";
   for(size_t i = from; i < m.size(); ++i) o << (i > from ? " " : "") << m[i];
   o << "]"; return o.str();
}

/// Drives one stack and its model. M: vector of ids, bottom first.
template<typename Stack, typename T>
struct Driver {
   Stack& st;
   std::vector<uint64_t> m;
   size_t page, prealloc;
   uint64_t next = 1;
   size_t crossings = 0;      // operations that changed the current page downwards or upwards
   size_t maxSize;
   Driver(Stack& s, size_t pg, size_t pre, size_t mx): st(s), page(pg), prealloc(pre), maxSize(mx) {}

   uint64_t id(const T& t) { return Val<T>::id(t); }
   size_t pageOf(size_t n) { return n == 0 ? 0 : (n - 1) / page; }

   void push1(pbt::Src& s) { uint64_t v = next++; NOTE(s, "push(" << v << ")"); st.push(Val<T>::make(v)); m.push_back(v); }
   void pushMany(pbt::Src& s) {
      size_t k = s.coin(1, 8) ? (s.coin() ? 9 : 14) : 2 + s.draw(5);
      std::vector<T> a; std::vector<uint64_t> ids;
      for(size_t i = 0; i < k; ++i) { ids.push_back(next++); a.push_back(Val<T>::make(ids.back())); }
      NOTE(s, "push" << list(ids));
      spread([&](auto&... x) { st.push(x...); }, a);
      for(size_t i = 0; i < k; ++i) REQUIRE(s, id(a[i]) == ids[i], "pushing changed the value given from " << ids[i] << " to " << id(a[i]));
      m.insert(m.end(), ids.begin(), ids.end());
   }
   void emplace(pbt::Src& s) {
      uint64_t v = next++;
      NOTE(s, "push_emplace(" << v << ")");
      if constexpr(std::is_same_v<T, Rec>) { if(v % 2) st.push_emplace(v); else { st.push_emplace(v - 2, 2, "three arguments"); } }
      else st.push_emplace(Val<T>::make(v));
      m.push_back(v);
   }
   void pushAlias(pbt::Src& s) {
      if(m.empty()) return push1(s);
      if(s.coin()) {
         NOTE(s, "push(top()) -> " << m.back());
         st.push(st.top());
         m.push_back(m.back());
         return;
      }
      // elements stay where they are: references to them can be pushed together
      size_t i = s.draw(m.size()), j = s.draw(m.size());
      NOTE(s, "push of the elements " << i << " and " << j << " of the stack: " << m[i] << " " << m[j]);
      const T& a = *st.from_top(m.size() - i); const T& b = *st.from_top(m.size() - j);
      if(s.coin()) st.push(a, b); else { st.push(a); st.push_emplace(b); }
      uint64_t x = m[i], y = m[j];
      m.push_back(x); m.push_back(y);
   }
   void pop1(pbt::Src& s) { if(m.empty()) return push1(s); NOTE(s, "pop()"); st.pop(); m.pop_back(); }
   void popMany(pbt::Src& s) {
      if(m.empty()) return push1(s);
      size_t k = arity(s, m.size());
      NOTE(s, "pop(" << k << " targets)");
      std::vector<T> a; for(size_t i = 0; i < k; ++i) a.push_back(Val<T>::make(888));
      spread([&](auto&... x) { st.pop(x...); }, a);
      for(size_t i = 0; i < k; ++i) {
         REQUIRE(s, id(a[i]) == m.back(), "pop target " << i << " received " << id(a[i]) << " instead of " << m.back());
         m.pop_back();
      }
   }
   void popReverse(pbt::Src& s) {
      if(m.empty()) return push1(s);
      size_t k = arity(s, m.size());
      NOTE(s, "pop_reverse(" << k << " targets)");
      std::vector<T> a; for(size_t i = 0; i < k; ++i) a.push_back(Val<T>::make(888));
      spread([&](auto&... x) { st.pop_reverse(x...); }, a);
      for(size_t i = 0; i < k; ++i) {
         uint64_t want = m[m.size() - k + i];
         REQUIRE(s, id(a[i]) == want, "pop_reverse target " << i << " received " << id(a[i]) << " instead of " << want);
      }
      m.resize(m.size() - k);
   }
   void setTop(pbt::Src& s) { if(m.empty()) return push1(s); uint64_t v = next++; NOTE(s, "top(" << v << ")"); st.top(Val<T>::make(v)); m.back() = v; }
   size_t someCount(pbt::Src& s) {
      // 0 .. size, biased to page edges
      size_t n = m.size();
      if(n == 0) return 0;
      switch(s.weighted({4, 3, 2, 1})) {
      case 0: return s.draw(std::min<size_t>(n, 3) + 1);
      case 1: { size_t in = n - pageOf(n) * page; size_t c = in + s.draw(pageOf(n) + 1) * page; int64_t d = (int64_t)s.draw(3) - 1; int64_t r = (int64_t)c + d; return (size_t)std::max<int64_t>(0, std::min<int64_t>(n, r)); }
      case 2: return s.draw(n + 1);
      default: return n;
      }
   }
   void discardN(pbt::Src& s) { size_t k = someCount(s); NOTE(s, "discard(" << k << ")"); st.discard(k); m.resize(m.size() - k); }
   /// Discards through an iterator to index p: the pointed element goes too.
   void discardIter(pbt::Src& s) {
      if(m.empty()) return push1(s);
      size_t p = m.size() - std::max<size_t>(1, someCount(s));
      int kind = (int)s.draw(5);
      NOTE(s, "discard(iterator kind " << kind << " at index " << p << ")");
      size_t fwd = m.size() - 1 - p;
      const Stack& cst = st;
      switch(kind) {
      case 0: { auto it = st.begin(); it += fwd; st.discard(it); break; }
      case 1: { auto it = cst.begin(); it += fwd; st.discard(it); break; }
      case 2: { auto it = st.from_top(m.size() - p); st.discard(it); break; }
      case 3: { auto it = cst.from_top(m.size() - p); st.discard(it); break; }
      default: { auto it = st.from_top(m.size()); it += p; st.discard(it); break; }
      }
      m.resize(p);
   }
   void clear(pbt::Src& s) { NOTE(s, "clear()"); st.clear(); m.clear(); }
   void shrink(pbt::Src& s) { NOTE(s, "shrink_to_fit()"); st.shrink_to_fit(); }
   void peek(pbt::Src& s) {
      if(m.empty()) return;
      size_t k = arity(s, m.size());
      std::vector<T> a; for(size_t i = 0; i < k; ++i) a.push_back(Val<T>::make(888));
      size_t n = m.size();
      switch(s.draw(3)) {
      case 0:
         NOTE(s, "peek(" << k << ")");
         spread([&](auto&... x) { st.peek(x...); }, a);
         for(size_t i = 0; i < k; ++i) REQUIRE(s, id(a[i]) == m[n - 1 - i], "peek target " << i << " is " << id(a[i]) << " instead of " << m[n - 1 - i]);
         break;
      case 1: {
         size_t depth = k + s.draw(n - k + 1);
         NOTE(s, "peek_depth(" << depth << ", " << k << ")");
         spread([&](auto&... x) { st.peek_depth(depth, x...); }, a);
         for(size_t i = 0; i < k; ++i) REQUIRE(s, id(a[i]) == m[n - depth + i], "peek_depth(" << depth << ") target " << i << " is " << id(a[i]) << " instead of " << m[n - depth + i]);
         break; }
      default:
         NOTE(s, "peek_reverse(" << k << ")");
         spread([&](auto&... x) { st.peek_reverse(x...); }, a);
         for(size_t i = 0; i < k; ++i) REQUIRE(s, id(a[i]) == m[n - k + i], "peek_reverse target " << i << " is " << id(a[i]) << " instead of " << m[n - k + i]);
         break;
      }
   }
   /// Pushes up to a page boundary, exactly or one off.
   void fill(pbt::Src& s) {
      size_t to = (pageOf(m.size()) + 1 + s.draw(maxSize >= 300 && page <= 6 ? 120 : 3)) * page;
      int64_t t = (int64_t)to + (int64_t)s.draw(3) - 1;
      while((int64_t)m.size() < t && m.size() < maxSize) { uint64_t v = next++; st.push(Val<T>::make(v)); m.push_back(v); }
      NOTE(s, "pushes up to size " << m.size());
   }
   void step(pbt::Src& s) {
      size_t before = pageOf(m.size());
      if(m.size() >= maxSize) { if(s.coin()) discardN(s); else { if(s.coin()) popReverse(s); else clear(s); } }
      else switch(s.weighted({6, 4, 3, 2, 5, 4, 3, 2, 3, 4, 2, 2, 3, 3})) {
      case 0: push1(s); break;
      case 1: pushMany(s); break;
      case 2: emplace(s); break;
      case 3: pushAlias(s); break;
      case 4: pop1(s); break;
      case 5: popMany(s); break;
      case 6: popReverse(s); break;
      case 7: setTop(s); break;
      case 8: discardN(s); break;
      case 9: discardIter(s); break;
      case 10: clear(s); break;
      case 11: shrink(s); break;
      case 12: peek(s); break;
      default: fill(s); break;
      }
      if(pageOf(m.size()) != before) ++crossings;
   }
   /// The non-iterator view of the content.
   void checkContent(pbt::Src& s, bool full) {
      size_t n = m.size();
      REQUIRE(s, st.size() == n, "size() is " << st.size() << ", model " << n << " " << list(m));
      REQUIRE(s, st.empty() == (n == 0), "empty() is " << st.empty() << " with model size " << n);
      if(n) REQUIRE(s, id(st.top()) == m.back(), "top() is " << id(st.top()) << ", model " << m.back());
      size_t blocks = 0, depth = 0, cur = 0, data = 0;
      st.getStats(blocks, depth, cur, data);
      REQUIRE(s, depth == page, "getStats page size " << depth << " instead of " << page);
      REQUIRE(s, cur == pageOf(n) + 1, "getStats current page " << cur << " instead of " << pageOf(n) + 1 << " at size " << n);
      REQUIRE(s, data == n - pageOf(n) * page, "getStats elements in the current page " << data << " instead of " << n - pageOf(n) * page);
      REQUIRE(s, blocks >= cur, "getStats blocks " << blocks << " below the current page " << cur);
      if(full) {
         for(size_t d = 1; d <= n; ++d) {
            T x = Val<T>::make(888);
            st.peek_depth(d, x);
            REQUIRE(s, id(x) == m[n - d], "element " << n - d << " (depth " << d << ") is " << id(x) << ", model " << m[n - d] << " of " << list(m));
         }
      }
   }
   void drain(pbt::Src& s) {
      NOTE(s, "drain by pops");
      while(!m.empty()) {
         REQUIRE(s, !st.empty(), "empty() with " << m.size() << " elements left");
         T x = Val<T>::make(888);
         st.pop(x);
         REQUIRE(s, id(x) == m.back(), "draining: popped " << id(x) << ", model " << m.back());
         m.pop_back();
      }
      REQUIRE(s, st.empty() && st.size() == 0, "stack not empty after popping every element, size " << st.size());
   }
};

struct Cfg { size_t page, prealloc, maxSize; };
inline Cfg config(pbt::Src& s) {
   Cfg c;
   switch(s.weighted({16, 4, 2, 1})) {
   case 0: c.page = 1 + s.draw(6); break;
   case 1: c.page = 7 + s.draw(40); break;
   case 2: c.page = 1024; break;
   default: { static const size_t some[] = {64, 100, 128, 200, 255, 256, 257, 300, 512, 2048}; c.page = some[s.draw(10)]; break; }
   }
   c.prealloc = s.coin(1, 25) ? 6 + s.draw(60) : 1 + s.draw(5);
   c.maxSize = c.page > 100 ? c.page * 5 / 2 : std::max<size_t>(24, c.page * 6 + 3);
   if(c.page <= 6 && s.coin(1, 60)) c.maxSize = 300 + s.draw(400);      // hundreds of pages
   NOTE(s, "page size " << c.page << ", prealloc " << c.prealloc);
   return c;
}
}
#endif

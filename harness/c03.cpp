// C03: synchronous iterators: positions are absolute indexes; deferred shrink.
#include "stackops.hpp"
#include <deque>
#include <mutex>
using namespace so;

template<typename Stack, typename T> struct SyncCase {
   using SI = typename Stack::sync_iterator;
   using CSI = typename Stack::const_sync_iterator;
   struct Slot { std::unique_ptr<SI> m; std::unique_ptr<CSI> c; int64_t idx = 0; };
   pbt::Src& s;
   Cfg c;
   Stack st;
   const Stack& cst;
   Driver<Stack, T> d;
   std::vector<Slot> it;
   size_t blocks;
   bool pending = false;
   bool resynced = false, copied = false, deferred = false;

   SyncCase(pbt::Src& src): s(src), c(config(src)), st(c.page, c.prealloc), cst(st), d(st, c.page, c.prealloc, c.maxSize), blocks(c.prealloc) {}

   void grow() { while(blocks < d.pageOf(d.m.size()) + 1) blocks += c.prealloc; }
   void doShrink() { blocks = d.pageOf(d.m.size()) + 1; }
   void afterRemove() { if(it.empty() && pending) { pending = false; deferred = true; doShrink(); } }
   void verifyBlocks(const char* after) {
      size_t b, dep, cur, data;
      st.getStats(b, dep, cur, data);
      REQUIRE(s, b == blocks, "after " << after << ": " << b << " pages allocated, expected " << blocks << " (" << it.size() << " sync iterators alive, shrink "
              << (pending ? "" : "not ") << "pending, size " << d.m.size() << ")");
   }
   /// Where the iterator stands for an access: false if the stack is empty.
   bool sync(Slot& q, bool& stepped) {
      stepped = q.idx < (int64_t)d.m.size();
      if(stepped) return true;
      if(d.m.empty()) return false;
      q.idx = (int64_t)d.m.size() - 1;
      resynced = true;
      return true;
   }
   template<typename F> void expectEmptyError(F f, const char* what) {
      try { f(); }
      catch(const std::runtime_error&) { return; }
      s.fail(std::string(what) + " on an emptied stack did not report the empty stack");
   }
   void get(Slot& q) {
      bool st_;
      T v = Val<T>::make(777);
      int64_t was = q.idx;
      if(!sync(q, st_)) { NOTE(s, "get at " << was << " on the empty stack"); expectEmptyError([&] { q.m ? q.m->get(v) : q.c->get(v); }, "get"); return; }
      if(q.m) q.m->get(v); else q.c->get(v);
      NOTE(s, "get at " << was << " -> " << Val<T>::id(v));
      REQUIRE(s, Val<T>::id(v) == d.m[q.idx], "sync iterator at index " << was << (was == q.idx ? "" : " (removed, expected to fall back to the top)") << " read " << Val<T>::id(v) << ", expected " << d.m[q.idx] << " of " << list(d.m));
   }
   void run() {
      size_t n = 8 + s.draw(50), maxIts = s.pick({6, 6, 6, 12});
      for(size_t i = 0; i < n; ++i) {
         const char* what = "operation";
         switch(s.weighted({10, 4, 6, 4, 4, 3, 3, 4, 3, 3})) {
         case 0: {
            // any stack operation but the shrink, which is its own rule
            size_t k = s.draw(11);
            switch(k) {
            case 0: d.push1(s); break;
            case 1: d.pushMany(s); break;
            case 2: d.emplace(s); break;
            case 3: d.pop1(s); break;
            case 4: d.popMany(s); break;
            case 5: d.popReverse(s); break;
            case 6: d.discardN(s); break;
            case 7: d.discardIter(s); break;
            case 8: d.clear(s); break;
            case 9: d.fill(s); break;
            default: d.setTop(s); break;
            }
            grow();
            if(d.m.size() > c.maxSize) { st.discard(d.m.size() / 2); d.m.resize(d.m.size() - d.m.size() / 2); }
            what = "stack operation";
            break; }
         case 1: {
            if(it.size() >= maxIts || d.m.empty()) break;
            Slot q;
            q.idx = (int64_t)d.m.size() - 1;
            bool cst_ = s.coin();
            NOTE(s, "new " << (cst_ ? "const " : "") << "sync_begin() at " << q.idx);
            if(cst_) { if(s.coin()) q.c.reset(new CSI(cst.sync_begin())); else q.c.reset(new CSI(cst.csync_begin())); } else q.m.reset(new SI(st.sync_begin()));
            it.push_back(std::move(q));
            what = "sync_begin";
            break; }
         case 2: if(!it.empty()) { auto& q = it[s.draw(it.size())]; if(q.idx >= 0) get(q); what = "get"; } break;
         case 3: if(!it.empty()) {
            auto& q = it[s.draw(it.size())];
            if(q.idx < 0) break;
            bool stepped;
            if(!sync(q, stepped)) { NOTE(s, "++ on the empty stack"); expectEmptyError([&] { if(q.m) ++*q.m; else ++*q.c; }, "++"); }
            else { NOTE(s, "++ from " << q.idx << (stepped ? "" : " (resync only)")); if(q.m) ++*q.m; else ++*q.c; if(stepped) --q.idx; }
            what = "++";
            if(q.idx >= 0 && !d.m.empty()) get(q);
            } break;
         case 4: if(!it.empty()) {
            auto& q = it[s.draw(it.size())];
            if(q.idx < 0 || q.idx + 1 == (int64_t)d.m.size()) break;   // already on top, or past the bottom
            bool stepped;
            if(!sync(q, stepped)) { NOTE(s, "-- on the empty stack"); expectEmptyError([&] { if(q.m) --*q.m; else --*q.c; }, "--"); }
            else { NOTE(s, "-- from " << q.idx << (stepped ? "" : " (resync only)")); if(q.m) --*q.m; else --*q.c; if(stepped) ++q.idx; }
            what = "--";
            if(!d.m.empty()) get(q);
            } break;
         case 5: if(!it.empty() && it.size() < maxIts) {
            size_t k = s.draw(it.size());
            Slot q;
            q.idx = it[k].idx;
            bool mv = s.coin();
            NOTE(s, (mv ? "move-construct from " : "copy of ") << "iterator " << k << " at " << q.idx);
            if(it[k].m) { if(mv) { SI tmp(*it[k].m); q.m.reset(new SI(std::move(tmp))); } else q.m.reset(new SI(*it[k].m)); }
            else { if(mv) { CSI tmp(*it[k].c); q.c.reset(new CSI(std::move(tmp))); } else q.c.reset(new CSI(*it[k].c)); }
            it.push_back(std::move(q));
            copied = true;
            what = "copy";
            } break;
         case 6: if(!it.empty()) {
            size_t a = s.draw(it.size()), b = s.draw(it.size());
            if((it[a].m != nullptr) != (it[b].m != nullptr)) break;
            NOTE(s, "assign iterator " << b << " to " << a);
            if(it[a].m) { if(s.coin()) *it[a].m = *it[b].m; else { SI tmp(*it[b].m); *it[a].m = std::move(tmp); } }
            else { if(s.coin()) *it[a].c = *it[b].c; else { CSI tmp(*it[b].c); *it[a].c = std::move(tmp); } }
            it[a].idx = it[b].idx;
            copied = true;
            what = "assignment";
            } break;
         case 7: if(!it.empty()) {
            size_t k = s.draw(it.size());
            NOTE(s, "destroy iterator " << k);
            it.erase(it.begin() + k);
            afterRemove();
            what = "iterator destruction";
            } break;
         case 8: {
            NOTE(s, "shrink_to_fit() with " << it.size() << " sync iterators");
            st.shrink_to_fit();
            if(it.empty()) doShrink(); else pending = true;
            what = "shrink_to_fit";
            break; }
         default: if(!it.empty()) {
            // equality and the end
            auto& q = it[s.draw(it.size())];
            if(q.m) { auto e = st.sync_end(); REQUIRE(s, (*q.m == e) == (q.idx < 0) && (*q.m != e) == (q.idx >= 0), "comparison with sync_end() is wrong at index " << q.idx); }
            else { auto e = cst.sync_end(); REQUIRE(s, (*q.c == e) == (q.idx < 0) && (*q.c != e) == (q.idx >= 0), "comparison with the const sync_end() is wrong at index " << q.idx); }
            auto& r = it[s.draw(it.size())];
            if(q.m && r.m) REQUIRE(s, (*q.m == *r.m) == (q.idx == r.idx) && (*q.m != *r.m) == (q.idx != r.idx), "equality of sync iterators at " << q.idx << " and " << r.idx << " is wrong");
            if(q.c && r.c) REQUIRE(s, (*q.c == *r.c) == (q.idx == r.idx) && (*q.c != *r.c) == (q.idx != r.idx), "equality of const sync iterators at " << q.idx << " and " << r.idx << " is wrong");
            what = "comparison";
            } break;
         }
         grow();
         verifyBlocks(what);
         d.checkContent(s, false);
      }
      // a full walk from the top to the end
      if(!d.m.empty()) {
         {
            auto b = st.sync_begin(); auto e = st.sync_end();
            size_t k = 0;
            while(b != e) {
               REQUIRE(s, k < d.m.size(), "sync traversal does not reach its end");
               T v = Val<T>::make(777); b.get(v);
               REQUIRE(s, Val<T>::id(v) == d.m[d.m.size() - 1 - k], "sync traversal step " << k << " gives " << Val<T>::id(v));
               ++b; ++k;
            }
            REQUIRE(s, k == d.m.size(), "sync traversal ended after " << k << " of " << d.m.size());
         }
         afterRemove();
      }
      NOTE(s, "destroy all iterators");
      while(!it.empty()) { it.pop_back(); afterRemove(); verifyBlocks("iterator destruction at the end"); }
      d.checkContent(s, true);
      if(resynced) s.label("resync");
      if(copied) s.label("copied/assigned");
      if(deferred) s.label("deferred shrink");
      if((resynced && copied) || deferred) s.nontrivial();
   }
};

#if PART == 0
PBT_ARM(ints, 150000, 3000000, false) { SyncCase<falcon::PagedStack<int>, int>(s).run(); }
#elif PART == 1
PBT_ARM(strings, 100000, 1500000, true) { SyncCase<falcon::PagedStack<std::string>, std::string>(s).run(); }
#elif PART == 2
PBT_ARM(mutexed, 60000, 900000, false) { SyncCase<falcon::PagedStack<int, std::allocator, std::mutex>, int>(s).run(); }
#else
/// Iterators of several stacks, of different geometry, assigned to each other while the stacks change.
template<typename Stack> void several(pbt::Src& s) {
   using SI = typename Stack::sync_iterator; using CSI = typename Stack::const_sync_iterator;
   size_t ns = 2 + s.draw(2);
   struct One { std::unique_ptr<Stack> st; std::vector<uint64_t> m; size_t page, pre, blocks; bool pend = false; };
   std::vector<One> st(ns);
   int next = 0;
   for(size_t k = 0; k < ns; ++k) {
      auto& o = st[k];
      o.page = 1 + s.draw(4); o.pre = 1 + s.draw(3); o.blocks = o.pre; o.st = std::make_unique<Stack>(o.page, o.pre);
      size_t n = 1 + s.draw(10); for(size_t i = 0; i < n; ++i) { o.st->push(next); o.m.push_back(next++); }
      while(o.blocks < (n - 1) / o.page + 1) o.blocks += o.pre;
      NOTE(s, "stack " << k << ": page size " << o.page << ", prealloc " << o.pre << ", " << list(o.m));
   }
   struct It { std::unique_ptr<SI> m; std::unique_ptr<CSI> c; size_t own; int64_t idx; };
   std::vector<It> it;
   bool cross = false;
   auto cur = [&](size_t k) { return st[k].m.empty() ? 1 : (st[k].m.size() - 1) / st[k].page + 1; };
   auto count = [&](size_t k) { size_t n = 0; for(auto& x: it) n += x.own == k; return n; };
   auto get = [&](It& q) {
      auto& m = st[q.own].m;
      if(q.idx < 0) return;
      if(q.idx >= (int64_t)m.size()) { if(m.empty()) return; q.idx = (int64_t)m.size() - 1; }
      int v = -1;
      if(q.m) q.m->get(v); else q.c->get(v);
      REQUIRE(s, v >= 0 && (uint64_t)v == m[q.idx], "iterator of stack " << q.own << " at " << q.idx << " read " << v << ", expected " << m[q.idx]);
   };
   for(size_t i = 0, n = 6 + s.draw(40); i < n; ++i) {
      size_t k = s.draw(ns);
      auto& o = st[k];
      switch(s.weighted({3, 5, 2, 2, 2, 3, 3, 4, 4})) {
      case 0: if(it.size() < 6 && !o.m.empty()) { bool cs = s.coin(1, 3); NOTE(s, (cs ? "const " : "") << "sync_begin on stack " << k); It q; q.own = k; q.idx = (int64_t)o.m.size() - 1;
            if(cs) q.c.reset(new CSI(o.st->csync_begin())); else q.m.reset(new SI(o.st->sync_begin())); it.push_back(std::move(q)); } break;
      case 1: if(!it.empty()) {
            size_t a = s.draw(it.size()), b = s.draw(it.size());
            if((it[a].m != nullptr) != (it[b].m != nullptr)) break;
            NOTE(s, "assign iterator " << b << " (stack " << it[b].own << " at " << it[b].idx << ") to " << a << " (stack " << it[a].own << " at " << it[a].idx << ")");
            if(it[a].own != it[b].own) cross = true;
            if(it[a].m) *it[a].m = *it[b].m; else *it[a].c = *it[b].c;
            it[a].own = it[b].own; it[a].idx = it[b].idx;
            get(it[a]); } break;
      case 2: if(!it.empty()) { size_t a = s.draw(it.size()); NOTE(s, "destroy iterator " << a); it.erase(it.begin() + (ptrdiff_t)a); } break;
      case 3: NOTE(s, "shrink stack " << k); o.st->shrink_to_fit(); if(count(k)) o.pend = true; else o.blocks = cur(k); break;
      case 4: if(!it.empty()) get(it[s.draw(it.size())]); break;
      case 5: { size_t c = 1 + s.draw(5); NOTE(s, "push " << c << " on stack " << k); for(size_t x = 0; x < c; ++x) { o.st->push(next); o.m.push_back((uint64_t)next++); } while(o.blocks < cur(k)) o.blocks += o.pre; break; }
      case 6: { size_t c = s.draw(o.m.size() + 1); NOTE(s, "discard " << c << " from stack " << k); o.st->discard(c); o.m.resize(o.m.size() - c); break; }
      case 7: if(!it.empty()) {   // down, possibly to the end
            auto& q = it[s.draw(it.size())];
            for(size_t c = 1 + s.draw(4); c && q.idx >= 0 && !st[q.own].m.empty(); --c) {
               bool stepped = q.idx < (int64_t)st[q.own].m.size();
               NOTE(s, "++ on stack " << q.own << " from " << q.idx);
               if(q.m) ++*q.m; else ++*q.c;
               if(stepped) --q.idx; else q.idx = (int64_t)st[q.own].m.size() - 1;
               get(q);
            }
            if(q.m) { auto e = st[q.own].st->sync_end(); REQUIRE(s, (*q.m == e) == (q.idx < 0), "comparison with the end of stack " << q.own << " is wrong at " << q.idx); }
            else { auto e = st[q.own].st->csync_end(); REQUIRE(s, (*q.c == e) == (q.idx < 0), "comparison with the end of stack " << q.own << " is wrong at " << q.idx); } } break;
      default: if(!it.empty()) {  // up, not beyond the top
            auto& q = it[s.draw(it.size())];
            if(q.idx >= 0 && q.idx + 1 < (int64_t)st[q.own].m.size()) { NOTE(s, "-- on stack " << q.own << " from " << q.idx); if(q.m) --*q.m; else --*q.c; ++q.idx; get(q); } } break;
      }
      for(size_t x = 0; x < ns; ++x) if(st[x].pend && !count(x)) { st[x].pend = false; st[x].blocks = cur(x); }
      for(size_t x = 0; x < ns; ++x) { size_t b, d, c, y; st[x].st->getStats(b, d, c, y); REQUIRE(s, b == st[x].blocks, "stack " << x << " has " << b << " pages, expected " << st[x].blocks << " with " << count(x) << " iterators"); }
   }
   it.clear();
   if(cross) s.nontrivial();
}
PBT_ARM(several_stacks, 60000, 600000, false) { several<falcon::PagedStack<int>>(s); }
PBT_ARM(several_stacks_mutexed, 20000, 300000, false) { several<falcon::PagedStack<int, std::allocator, std::mutex>>(s); }
/// Pages of more than 65536 elements.
PBT_ARM(wide, 60, 1000, false) {
   using Stack = falcon::PagedStack<int>;
   size_t page = s.coin() ? 65530 + s.draw(20) : 131060 + s.draw(30), n = 65500 + s.draw(2 * page - 65500);
   Stack st(page, 1 + s.draw(2));
   for(size_t i = 0; i < n; ++i) st.push((int)i);
   NOTE(s, n << " elements on pages of " << page);
   s.nontrivial();
   auto at = st.sync_begin();
   const Stack& cst = st;
   auto cat = cst.sync_begin();
   size_t idx = n - 1;
   for(size_t k = 0; k < 12 && n > 2; ++k) {
      if(s.coin()) { size_t c = s.coin() ? s.draw(n - 1) : s.draw(std::min<size_t>(70, n - 1)); NOTE(s, "discard " << c << " of " << n); st.discard(c); n -= c; }
      else { size_t c = s.coin() ? s.draw(2 * page + 1) : s.draw(70); if(n + c > 2 * page) c = 2 * page - n; NOTE(s, "push up to " << n + c); for(size_t i = 0; i < c; ++i) st.push((int)(n + i)); n += c; }
      int v = -1, w = -1;
      at.get(v); cat.get(w);
      if(idx >= n) idx = n - 1;
      REQUIRE(s, v == (int)idx && w == (int)idx, "the synchronous iterators at " << idx << " of " << n << " read " << v << " and " << w);
      if(s.coin()) { ++at; ++cat; --idx; if(idx == 0) break; }
      if(s.coin() && k < 6) { at = st.sync_begin(); cat = cst.sync_begin(); idx = n - 1; size_t c = s.draw(std::min<size_t>(n - 1, 300)); for(size_t i = 0; i < c; ++i) { ++at; ++cat; } idx -= c; if(idx == 0) break; }
   }
}
/// Very many iterators alive at once.
PBT_ARM(crowd, 3000, 50000, true) {
   using Stack = falcon::PagedStack<int>;
   size_t page = 1 + s.draw(3), n = 1 + s.draw(12);
   Stack st(page, 1 + s.draw(3));
   const Stack& cst = st;
   for(size_t i = 0; i < 40; ++i) st.push((int)i);
   st.discard(40 - n);
   size_t crowd = s.coin(1, 20) ? 65530 + s.draw(20) : s.coin() ? 250 + s.draw(12) : 2 + s.draw(600), early = s.draw(crowd), left = s.draw(8);
   uint64_t mixer = s.draw(1u << 30);
   auto flip = [&](unsigned of = 2) { mixer = mixer * 6364136223846793005ull + 1442695040888963407ull; return (mixer >> 33) % of == 0; };
   NOTE(s, n << " elements on pages of " << page << ", " << crowd << " iterators, a shrink before iterator " << early);
   s.nontrivial();
   std::deque<Stack::sync_iterator> a; std::deque<Stack::const_sync_iterator> b;
   size_t b0, used, x, y, want = (n + page - 1) / page;
   st.getStats(b0, used, x, y);
   auto pages = [&] { size_t p, u, q, r; st.getStats(p, u, q, r); return p; };
   if(early == 0) early = 1;
   for(size_t i = 0; i < crowd; ++i) {
      if(i == early) st.shrink_to_fit();
      if(flip()) { if(!a.empty() && flip(3)) a.push_back(a.front()); else a.push_back(st.sync_begin()); }
      else { if(!b.empty() && flip(3)) b.push_back(b.front()); else b.push_back(cst.sync_begin()); }
      if(i < 300 || i % 4096 == 0) REQUIRE(s, pages() == b0, "with " << i + 1 << " iterators the stack has " << pages() << " pages, expected " << b0);
   }
   if(early >= crowd) st.shrink_to_fit();
   REQUIRE(s, pages() == b0, "with " << crowd << " iterators alive the stack has " << pages() << " pages, expected " << b0);
   while(a.size() + b.size()) {
      if(a.size() && (b.empty() || flip())) a.pop_back(); else b.pop_back();
      size_t alive = a.size() + b.size();
      if(alive && (alive < 300 || alive % 4096 == 0)) REQUIRE(s, pages() == b0, "with " << alive << " iterators left of " << crowd << " the stack has " << pages() << " pages, expected " << b0);
      if(alive == left && alive) { int v = -1; if(a.size()) a.back().get(v); else b.back().get(v); REQUIRE(s, v == (int)n - 1, "an iterator on top reads " << v); }
   }
   REQUIRE(s, pages() == want, "with no iterator left the stack has " << pages() << " pages, expected " << want << " as a shrink was requested");
}
#endif
#if PART == 0
int main(int argc, char** argv) { return pbt::run(argc, argv, "C03"); }
#endif

// C07: copies and moves of PagedStack.
#include "tracked.hpp"
#include "stackops.hpp"
#include <mutex>
using namespace so;

template<typename Stack, typename T> struct Slot {
   std::unique_ptr<Stack> st;
   std::unique_ptr<Driver<Stack, T>> d;
   bool moved = false;       // moved from: may only be assigned to or destroyed
   void bind(std::vector<uint64_t> m, uint64_t& next, size_t maxSize) {
      size_t b, dep, c, e;
      st->getStats(b, dep, c, e);
      d.reset(new Driver<Stack, T>(*st, dep, 1, maxSize));
      d->m = std::move(m);
      d->next = next; next += 1000;
      moved = false;
   }
};

template<typename Stack, typename T, typename Make> void family(pbt::Src& s, Make mk, std::function<void(size_t minLive)> ledger) {
   std::vector<Slot<Stack, T>> sl(4);
   uint64_t next = 1;
   size_t transfers = 0, paged = 0, n = 6 + s.draw(30);
   auto usable = [&](size_t i) { return sl[i].st && !sl[i].moved; };
   auto create = [&](size_t i) {
      Cfg c = config(s);
      if(c.page > 40) c.page = 9;
      NOTE(s, "  as stack " << i);
      sl[i].st = mk(c, s);
      sl[i].bind({}, next, c.page * 5 + 2);
   };
   auto verify = [&](const char* after) {
      size_t live = 0;
      for(size_t i = 0; i < sl.size(); ++i) {
         if(!usable(i)) continue;
         live += sl[i].d->m.size();
         sl[i].d->checkContent(s, true);
         auto& m = sl[i].d->m;
         size_t k = 0;
         for(auto it = sl[i].st->begin(); it != sl[i].st->end(); ++it, ++k) REQUIRE(s, k < m.size() && Val<T>::id(*it) == m[m.size() - 1 - k], after << ": iterating stack " << i << " disagrees at position " << k << " from the top of " << list(m));
         REQUIRE(s, k == m.size(), after << ": iterating stack " << i << " saw " << k << " of " << m.size());
         k = 0;
         for(auto it = sl[i].st->rbegin(); it != sl[i].st->rend(); ++it, ++k) REQUIRE(s, k < m.size() && Val<T>::id(*it) == m[k], after << ": reverse iterating stack " << i << " disagrees at " << k);
         REQUIRE(s, k == m.size(), after << ": reverse iterating stack " << i << " saw " << k << " of " << m.size());
      }
      ledger(live);
   };
   create(0);
   for(size_t step = 0; step < n; ++step) {
      size_t i = s.draw(sl.size()), j = s.draw(sl.size());
      switch(s.weighted({8, 3, 3, 2, 3, 2, 1})) {
      case 0:
         if(!sl[i].st) create(i);
         else if(usable(i)) { size_t k = 1 + s.draw(6); NOTE(s, "stack " << i << ":"); while(k--) sl[i].d->step(s); }
         break;
      case 1: // copy construction
         if(usable(j) && i != j) {
            NOTE(s, "stack " << i << " = copy constructed from stack " << j << " " << list(sl[j].d->m));
            std::unique_ptr<Stack> c;
            if(s.coin(1, 3)) {
               // the synchronous iterators of the source, and the shrinks they hold back, are its own
               NOTE(s, "  while the source has a synchronous iterator");
               auto it = sl[j].st->sync_begin();
               bool pend = s.coin();
               if(pend) { NOTE(s, "  and a pending shrink"); sl[j].st->shrink_to_fit(); }
               c.reset(new Stack(*sl[j].st));
               size_t n0 = c->size(), b0, b1, dep, cur, data;
               c->getStats(b0, dep, cur, data);
               { auto own = c->sync_begin(); }
               c->getStats(b1, dep, cur, data);
               REQUIRE(s, b0 == b1, "a copy carries out a shrink requested on its source");
               // a copy without iterators shrinks at once
               Stack probe(*sl[j].st);
               probe.shrink_to_fit();
               probe.getStats(b1, dep, cur, data);
               REQUIRE(s, b1 == cur, "a copy without synchronous iterators has " << b1 << " pages after shrinking, its current page is number " << cur);
               REQUIRE(s, c->size() == n0, "size of the copy");
            }
            else c.reset(new Stack(*sl[j].st));
            auto m = sl[j].d->m; size_t mx = sl[j].d->maxSize;
            sl[i].d.reset(); sl[i].st = std::move(c); sl[i].bind(m, next, mx);
            ++transfers; paged += sl[i].d->pageOf(m.size()) > 0;
         }
         break;
      case 2: // copy assignment, self included
         if(usable(j) && sl[i].st) {
            NOTE(s, "stack " << i << " copy assigned from stack " << j << " " << list(sl[j].d->m));
            const Stack& src = *sl[j].st;
            Stack& ret = (*sl[i].st = src);
            REQUIRE(s, &ret == sl[i].st.get(), "assignment does not return the target");
            auto m = sl[j].d->m; size_t mx = sl[j].d->maxSize;
            sl[i].bind(m, next, mx);
            ++transfers; paged += sl[i].d->pageOf(m.size()) > 0;
         }
         break;
      case 3: // move construction
         if(usable(j) && i != j) {
            NOTE(s, "stack " << i << " = move constructed from stack " << j << " " << list(sl[j].d->m));
            std::unique_ptr<Stack> c(new Stack(std::move(*sl[j].st)));
            auto m = sl[j].d->m; size_t mx = sl[j].d->maxSize;
            sl[i].d.reset(); sl[i].st = std::move(c); sl[i].bind(m, next, mx);
            sl[j].moved = true;
            ++transfers; paged += sl[i].d->pageOf(m.size()) > 0;
         }
         break;
      case 4: // move assignment
         if(usable(j) && sl[i].st && i != j) {
            NOTE(s, "stack " << i << " move assigned from stack " << j << " " << list(sl[j].d->m));
            *sl[i].st = std::move(*sl[j].st);
            auto m = sl[j].d->m; size_t mx = sl[j].d->maxSize;
            sl[i].bind(m, next, mx);
            sl[j].moved = true;
            ++transfers; paged += sl[i].d->pageOf(m.size()) > 0;
         }
         break;
      case 5: if(sl[i].st) { NOTE(s, "stack " << i << " destroyed"); sl[i].d.reset(); sl[i].st.reset(); sl[i].moved = false; } break;
      default: // by value through a function
         if(usable(i)) {
            NOTE(s, "stack " << i << " passed and returned by value");
            auto f = [](Stack v) { return v; };
            Stack r = f(*sl[i].st);
            auto m = sl[i].d->m;
            REQUIRE(s, r.size() == m.size(), "a copy returned from a function has size " << r.size() << " instead of " << m.size());
            if(!m.empty()) REQUIRE(s, Val<T>::id(r.top()) == m.back(), "a copy returned from a function has another top");
         }
         break;
      }
      verify("after the step");
   }
   // every stack stays usable on its own
   for(size_t i = 0; i < sl.size(); ++i) if(usable(i)) { NOTE(s, "drain stack " << i); sl[i].d->drain(s); verify("after draining one stack"); }
   for(size_t i = sl.size(); i-- > 0;) { sl[i].d.reset(); sl[i].st.reset(); }
   if(transfers >= 2 && paged) s.nontrivial();
}

PBT_ARM(elements, 60000, 250000, true) {
   tr::Ledger led;
   tr::Ledger::cur() = &led;
   tr::Arena ar[2];
   using Stack = falcon::PagedStack<tr::Elem, tr::Alloc>;
   family<Stack, tr::Elem>(s, [&](Cfg& c, pbt::Src& s) { size_t k = s.draw(2); NOTE(s, "  with allocator " << k); return std::make_unique<Stack>(c.page, c.prealloc, tr::Alloc<tr::Elem>(&ar[k])); },
      [&](size_t live) {
         REQUIRE(s, led.error.empty(), led.error);
         REQUIRE(s, led.live.size() >= live, led.live.size() << " elements alive, the stacks hold " << live);
         for(auto& a: ar) REQUIRE(s, a.error.empty(), a.error);
      });
   REQUIRE(s, led.error.empty(), led.error);
   REQUIRE(s, led.live.empty(), led.live.size() << " elements alive when every stack is gone");
   for(auto& a: ar) REQUIRE(s, a.error.empty() && a.live.empty(), a.bytes << " bytes not returned " << a.error);
   tr::Ledger::cur() = nullptr;
}
PBT_ARM(strings, 60000, 250000, true) {
   using Stack = falcon::PagedStack<std::string>;
   family<Stack, std::string>(s, [](Cfg& c, pbt::Src&) { return std::make_unique<Stack>(c.page, c.prealloc); }, [](size_t) {});
}
PBT_ARM(integers_with_mutex, 60000, 250000, true) {
   using Stack = falcon::PagedStack<int, std::allocator, std::mutex>;
   family<Stack, int>(s, [](Cfg& c, pbt::Src&) { return std::make_unique<Stack>(c.page, c.prealloc); }, [](size_t) {});
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C07"); }

// C04: lifetimes, addresses and allocator balance of PagedStack.
#include "tracked.hpp"
#include "stackops.hpp"
using namespace so;

template<typename Stack, bool arena, typename MakeStack> void discipline(pbt::Src& s, tr::Arena* ar, MakeStack mk) {
   tr::Ledger led;
   tr::Ledger::cur() = &led;
   Cfg c = config(s);
   if(c.page > 300) c.page = 48;
   if(c.page > 6 || c.maxSize < 300) c.maxSize = c.page * 6 + 3;
   if(ar) ar->bigFrom = c.page * sizeof(tr::Elem);
   {
      std::unique_ptr<Stack> st = mk(c);
      Driver<Stack, tr::Elem> d(*st, c.page, c.prealloc, c.maxSize);
      size_t blocks = c.prealloc;
      size_t perPage = ar ? ar->bytes / c.prealloc : 0;
      if(ar) {
         REQUIRE(s, ar->bytes == perPage * c.prealloc && perPage >= c.page * sizeof(tr::Elem), "construction took " << ar->bytes << " bytes for " << c.prealloc << " pages of " << c.page);
         if constexpr(arena) REQUIRE(s, st->get_allocator().a == ar, "get_allocator() is not the allocator given");
      }
      std::vector<const tr::Elem*> where;
      size_t grown = 0, shrunk = 0, n = 8 + s.draw(50);
      for(size_t i = 0; i < n; ++i) {
         size_t before = d.m.size();
         long a0 = ar ? ar->allocs : 0, f0 = ar ? ar->frees : 0, b0 = ar ? ar->bigAllocs : 0;
         bool shr = s.coin(1, 12);
         size_t peak = before;
         size_t traceSize = d.m.size();
         uint64_t nx = d.next;
         if(shr) { d.shrink(s); }
         else if(d.m.size() < c.maxSize) {
            // every operation of the driver except the shrink
            switch(s.draw(13)) {
            case 12: d.peek(s); break;
            case 0: d.push1(s); break;
            case 1: d.pushMany(s); break;
            case 2: d.emplace(s); break;
            case 3: d.pushAlias(s); break;
            case 4: d.pop1(s); break;
            case 5: d.popMany(s); break;
            case 6: d.popReverse(s); break;
            case 7: d.setTop(s); break;
            case 8: d.discardN(s); break;
            case 9: d.discardIter(s); break;
            case 10: d.clear(s); break;
            default: d.fill(s); break;
            }
         } else d.discardN(s);
         (void)traceSize; (void)nx;
         peak = std::max(before, d.m.size());
         size_t sz = d.m.size();
         REQUIRE(s, led.error.empty(), led.error);
         REQUIRE(s, led.live.size() == sz, led.live.size() << " elements alive after the operation, the stack holds " << sz);
         // growth by whole groups of pages
         size_t want = blocks;
         while(want < d.pageOf(peak) + 1) { want += c.prealloc; ++grown; }
         bool grew = want != blocks;
         blocks = want;
         if(shr) { if(blocks != d.pageOf(sz) + 1) ++shrunk; blocks = d.pageOf(sz) + 1; }
         size_t b, dep, cur, data;
         st->getStats(b, dep, cur, data);
         REQUIRE(s, b == blocks, b << " pages allocated, expected " << blocks << " (size " << sz << ", page " << c.page << ", prealloc " << c.prealloc << ")");
         if(ar) {
            REQUIRE(s, ar->error.empty(), ar->error);
            REQUIRE(s, ar->bytes == blocks * perPage, ar->bytes << " bytes held for " << blocks << " pages of " << perPage << " bytes");
            if(!grew && !shr) REQUIRE(s, ar->allocs == a0 && ar->frees == f0, "an operation inside already allocated pages made " << ar->allocs - a0 << " allocations and " << ar->frees - f0 << " releases");
            if(grew) REQUIRE(s, (size_t)(ar->bigAllocs - b0) % c.prealloc == 0 && ar->frees == f0, "growth allocated " << ar->bigAllocs - b0 << " pages (group size " << c.prealloc << ") and released " << ar->frees - f0 << " blocks");
         }
         // addresses of the elements that stayed
         std::vector<const tr::Elem*> now;
         { auto it = st->from_top(sz); for(size_t k = 0; k < sz; ++k) { now.push_back(&*it); if(k + 1 < sz) ++it; } }
         for(size_t k = 0; k < sz && k < where.size(); ++k) {
            if(k >= std::min(before, sz)) break;
            REQUIRE(s, now[k] == where[k], "element " << k << " moved in memory while on the stack");
         }
         for(size_t k = 0; k < sz; ++k) { REQUIRE(s, led.live.count(now[k]), "element " << k << " is not alive"); REQUIRE(s, now[k]->v == d.m[k], "element " << k << " is " << now[k]->v << " instead of " << d.m[k]); }
         where = now;
      }
      if(grown && shrunk) s.label("grown and shrunk");
      if(d.crossings) {}
      if(grown) s.nontrivial();
      if(grown) s.label("grown");
      NOTE(s, "destroy the stack");
   }
   REQUIRE(s, led.error.empty(), led.error);
   REQUIRE(s, led.live.empty(), led.live.size() << " elements alive after the stack was destroyed");
   if(arena) { REQUIRE(s, ar->error.empty(), ar->error); REQUIRE(s, ar->live.empty() && ar->bytes == 0, ar->bytes << " bytes not returned to the allocator"); }
   tr::Ledger::cur() = nullptr;
}

PBT_ARM(arena, 60000, 1000000, true) {
   tr::Arena ar;
   using Stack = falcon::PagedStack<tr::Elem, tr::Alloc>;
   discipline<Stack, true>(s, &ar, [&](Cfg& c) { return std::make_unique<Stack>(c.page, c.prealloc, tr::Alloc<tr::Elem>(&ar)); });
}
PBT_ARM(standard_allocator, 30000, 500000, true) {
   using Stack = falcon::PagedStack<tr::Elem>;
   discipline<Stack, false>(s, nullptr, [&](Cfg& c) { return std::make_unique<Stack>(c.page, c.prealloc); });
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C04"); }

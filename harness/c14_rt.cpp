// C14 on several threads: copies of the same items live and die on different threads.
#include "items.hpp"
#include "threads.hpp"
using namespace itm;

PBT_ARM_RT(threads, 1500, 20000, 30) {
   size_t nt = 2 + s.draw(3), nv = 1 + s.draw(5), steps = 10 + s.draw(40); uint64_t seed = s.draw(1ull << 32);
   std::vector<Val> v; std::vector<std::unique_ptr<Item>> src;
   for(size_t i = 0; i < nv; ++i) { v.push_back(gen(s, s.coin(2, 3) ? (int)CSTR + (int)s.draw(TYPES - CSTR) : -1)); src.emplace_back(new Item(v[i].make())); }
   NOTE(s, nt << " threads with copies of " << nv << " items, such as " << v[0].show() << ", " << steps << " steps each");
   struct Mine { std::vector<std::unique_ptr<Item>> it; std::vector<size_t> val; };
   std::vector<Mine> mine(nt);
   for(auto& m: mine) for(size_t i = 0; i < nv; ++i) { m.it.emplace_back(new Item(*src[i])); m.val.push_back(i); }
   together::run(s, nt, [&](size_t t, together::Complaints& c) {
      Mine& m = mine[t]; together::Dice d(seed + t);
      for(size_t k = 0; k < steps; ++k) {
         size_t i = d(m.it.size()), j = d(m.it.size());
         switch(d(5)) {
         case 0: { Item x(*m.it[j]); *m.it[i] = x; m.val[i] = m.val[j]; break; }
         case 1: m.it.emplace_back(new Item(*m.it[i])); { size_t q = m.val[i]; m.val.push_back(q); } break;
         case 2: if(m.it.size() > 1) { m.it.erase(m.it.begin() + (long)i); m.val.erase(m.val.begin() + (long)i); } break;
         case 3: if(i != j) { *m.it[i] = std::move(*m.it[j]); m.val[i] = m.val[j]; *m.it[j] = *m.it[i]; } break;
         default: *m.it[i] = v[j % nv].make(); m.val[i] = j % nv; break;
         }
         for(size_t q = 0; q < m.it.size(); ++q) if(m.it[q]->toString() != v[m.val[q]].text) c.add("a copy of " + v[m.val[q]].show() + " converts to " + pbt::show(m.it[q]->toString()));
      }
      m.it.clear();
   }, [&] { for(auto& x: src) x.reset(); });
   s.nontrivial();
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C14"); }

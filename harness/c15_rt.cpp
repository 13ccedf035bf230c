// C15 on several threads: tokens compiled at the same time, and copies of the same code on different threads.
#include "threads.hpp"
#include <falcon/engine/compiler.h>
using falcon::Code;

PBT_ARM_RT(threads, 1500, 20000, 30) {
   size_t nt = 2 + s.draw(3), nv = 1 + s.draw(4), steps = 6 + s.draw(30); uint64_t seed = s.draw(1ull << 32);
   auto token = [&] { std::string t; size_t n = s.pick({1 + s.draw(20), (size_t)15, (size_t)16, 990 + s.draw(25), 1 + s.draw(5000)}); char c = (char)('a' + s.draw(26)); for(size_t i = 0; i < n; ++i) t += (char)(i % 3 ? c : 'A' + (char)(i % 26)); return t; };
   std::vector<std::string> v; std::vector<std::unique_ptr<Code>> src;
   falcon::Compiler comp;
   for(size_t i = 0; i < nv; ++i) { v.push_back(token()); std::istringstream in(v[i]); src.emplace_back(new Code(comp.compile(in))); }
   std::vector<std::vector<std::string>> own(nt);
   for(auto& o: own) for(size_t i = 0; i < nv; ++i) o.push_back(token());
   NOTE(s, nt << " threads with copies of " << nv << " codes, such as one of " << v[0].size() << " bytes, " << steps << " steps each");
   struct Mine { std::vector<std::unique_ptr<Code>> it; std::vector<const std::string*> val; };
   std::vector<Mine> mine(nt);
   for(auto& m: mine) for(size_t i = 0; i < nv; ++i) { m.it.emplace_back(new Code(*src[i])); m.val.push_back(&v[i]); }
   together::run(s, nt, [&](size_t t, together::Complaints& c) {
      Mine& m = mine[t]; together::Dice d(seed + t); falcon::Compiler mc;
      for(size_t k = 0; k < steps; ++k) {
         size_t i = d(m.it.size()), j = d(m.it.size());
         switch(d(5)) {
         case 0: *m.it[i] = *m.it[j]; m.val[i] = m.val[j]; break;
         case 1: { auto* q = m.val[i]; m.it.emplace_back(new Code(*m.it[i])); m.val.push_back(q); break; }
         case 2: if(m.it.size() > 1) { m.it.erase(m.it.begin() + (long)i); m.val.erase(m.val.begin() + (long)i); } break;
         case 3: if(i != j) { *m.it[i] = std::move(*m.it[j]); m.val[i] = m.val[j]; *m.it[j] = *m.it[i]; } break;
         default: { const std::string& x = own[t][j % nv]; std::istringstream in(x); *m.it[i] = mc.compile(in); m.val[i] = &x; break; }
         }
         for(size_t q = 0; q < m.it.size(); ++q) if(m.it[q]->toString() != *m.val[q]) c.add("code of " + pbt::show(*m.val[q], 40) + " renders as " + pbt::show(m.it[q]->toString(), 40));
      }
      m.it.clear();
   }, [&] { for(auto& x: src) x.reset(); });
   s.nontrivial();
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C15"); }

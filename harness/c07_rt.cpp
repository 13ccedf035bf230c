// C07 on several threads: copies of the same stack, without a mutex, used and destroyed on different threads.
#include "threads.hpp"
#include <falcon/engine/pagedstack.h>

PBT_ARM_RT(threads, 1500, 20000, 30) {
   using Stack = falcon::PagedStack<std::string>;
   size_t nt = 2 + s.draw(3), page = 1 + s.draw(5), prealloc = 1 + s.draw(3), prefill = s.draw(24), steps = 10 + s.draw(40); uint64_t seed = s.draw(1ull << 32);
   NOTE(s, nt << " threads with copies of a stack of " << prefill << " elements, page size " << page << ", " << steps << " steps each");
   auto src = std::make_unique<Stack>(page, prealloc); std::vector<std::string> base;
   for(size_t i = 0; i < prefill; ++i) { base.push_back("element number " + std::to_string(i)); src->push(base[i]); }
   std::vector<std::unique_ptr<Stack>> mine;
   for(size_t t = 0; t < nt; ++t) { if(s.coin()) mine.push_back(std::make_unique<Stack>(*src)); else { mine.push_back(std::make_unique<Stack>()); *mine.back() = *src; } }
   together::run(s, nt, [&](size_t t, together::Complaints& c) {
      together::Dice d(seed + t); std::vector<std::string> m = base; Stack& st = *mine[t];
      for(size_t k = 0; k < steps; ++k) {
         switch(d(7)) {
         case 0: case 1: { std::string x = "element " + std::to_string(k) + " of thread " + std::to_string(t); st.push(x); m.push_back(x); break; }
         case 2: if(!m.empty()) { std::string x; st.pop(x); if(x != m.back()) c.add("a copy pops " + x + " instead of " + m.back()); m.pop_back(); } break;
         case 3: if(!m.empty()) { std::string x = "new top of thread " + std::to_string(t); st.top(x); m.back() = x; } break;
         case 4: st.shrink_to_fit(); break;
         case 5: { Stack q(st); st = q; break; }
         default: { Stack q(std::move(st)); st = std::move(q); break; }
         }
         size_t i = 0;
         for(auto it = st.rbegin(); it != st.rend(); ++it, ++i) if(i >= m.size() || *it != m[i]) { c.add("a copy holds " + *it + " at position " + std::to_string(i)); break; }
         if(st.size() != m.size()) c.add("a copy holds " + std::to_string(st.size()) + " instead of " + std::to_string(m.size()) + " elements");
      }
      mine[t].reset();
   }, [&] { src.reset(); });
   s.nontrivial();
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C07"); }

// C13 on several threads at once, each converting items of its own.
#include "items.hpp"
#include "threads.hpp"
using namespace itm;

PBT_ARM_RT(threads, 1500, 20000, 30) {
   size_t nt = 2 + s.draw(3), per = 2 + s.draw(10);
   std::vector<std::vector<Val>> v(nt);
   for(auto& x: v) for(size_t i = 0; i < per; ++i) x.push_back(gen(s, s.coin(1, 3) ? (int)INT32 + (int)s.draw(TYPES - INT32) : -1));
   NOTE(s, nt << " threads converting " << per << " items each, such as " << v[0][0].show() << " and " << v[1][0].show());
   together::run(s, nt, [&](size_t t, together::Complaints& c) {
      for(int round = 0; round < 3; ++round) for(auto& x: v[t]) {
         Item it = x.make();
         if(it.handler->typeName() != x.name) c.add("the type of " + x.show() + " is reported as " + it.handler->typeName());
         if(it.toString() != x.text) c.add(x.show() + " converts to text " + pbt::show(it.toString()));
         if(it.toBool() != x.truth) c.add(x.show() + " converts to the wrong boolean");
         if(x.t == FLOAT && !x.hasInt) continue;
         auto n = it.toInt();
         if(x.hasInt && n != x.whole) c.add(x.show() + " converts to integer " + std::to_string(n));
      }
   });
   s.nontrivial();
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C13"); }

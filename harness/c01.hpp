#pragma once
// C01: PagedStack against a vector model, over operation histories.
#include "stackops.hpp"
#include <mutex>
using namespace so;

template<typename Stack, typename T> void history(pbt::Src& s) {
   Cfg c = config(s);
   bool dflt = c.page == 1024 && s.coin();
   if(dflt) c.prealloc = 4;
   auto st = dflt ? std::make_unique<Stack>() : std::make_unique<Stack>(c.page, c.prealloc);
   Driver<Stack, T> d(*st, c.page, c.prealloc, c.maxSize);
   size_t n = 6 + s.draw(c.page > 100 ? 24 : 50);
   d.checkContent(s, true);
   for(size_t i = 0; i < n; ++i) {
      d.step(s);
      d.checkContent(s, c.page <= 100 || i % 8 == 7);
   }
   if(d.crossings >= 2) s.nontrivial();
   s.label(d.crossings >= 6 ? "crossings>=6" : d.crossings >= 2 ? "crossings 2-5" : "crossings<2");
   s.label(std::string("page ") + (c.page == 1 ? "1" : c.page < 7 ? "2-6" : c.page < 50 ? "7-46" : "64-2048"));
   d.drain(s);
}


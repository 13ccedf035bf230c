// C14: ownership of item values.
#include "items.hpp"
#include "tracked.hpp"
#include <falcon/engine/deephandler.h>
#include <falcon/engine/pagedstack.h>
#include <list>
#include <map>
using namespace itm;
using falcon::HandlerFactory;

namespace {
/// A user type with observable lifetime, and its handler.
struct Res: tr::Elem { Res(): tr::Elem(5000) {} };
struct ResHandler: falcon::DeepHandler<Res> {
   falcon::String typeName() const noexcept override { return "Res"; }
   falcon::String toString(falcon::ItemData d) const noexcept override { return "resource " + std::to_string(((Res*)d.ptrValue)->v); }
   bool toBool(falcon::ItemData d) const noexcept override { return ((Res*)d.ptrValue)->v != 0; }
   int64 toInt(falcon::ItemData d) const noexcept override { return (int64)((Res*)d.ptrValue)->v; }
};
ResHandler g_res;

struct Slot { std::unique_ptr<Item> it; Val v; bool moved = false; };

Item make(pbt::Src& s, Val& v) {
   if(s.coin(1, 5)) {
      Item it;
      it.data = g_res.allocate(); it.handler = &g_res;
      uint64_t n = s.draw(1000);
      ((Res*)it.data.ptrValue)->v = n;
      v = Val(); v.t = NIL; v.name = "Res"; v.text = "resource " + std::to_string(n); v.truth = n != 0; v.whole = (int64)n;
      NOTE(s, "  value " << v.show());
      return it;
   }
   v = gen(s);
   NOTE(s, "  value " << v.show());
   return v.make();
}

size_t resources(const std::vector<Slot>& sl, const std::vector<Slot*>& extra) {
   size_t n = 0;
   for(auto& x: sl) if(x.it && !x.moved && x.v.name == "Res") ++n;
   for(auto* x: extra) if(x->v.name == "Res") ++n;
   return n;
}
}

PBT_ARM(histories, 60000, 1200000, true) {
   tr::Ledger led;
   tr::Ledger::cur() = &led;
   {
      std::vector<Slot> sl(5);
      std::vector<Item> vec; std::vector<Val> vecV;
      falcon::PagedStack<Item> stack(1 + s.draw(4), 1 + s.draw(2)); std::vector<Val> stackV;
      std::map<int, Item> table; std::map<int, Val> tableV;
      size_t n = 6 + s.draw(36), owned = 0, copies = 0;
      for(size_t q = 0; q < n; ++q) {
         size_t i = s.draw(sl.size()), j = s.draw(sl.size());
         auto usable = [&](size_t k) { return sl[k].it && !sl[k].moved; };
         switch(s.weighted({6, 4, 4, 2, 3, 2, 2, 2, 2, 2, 2, 2, 1})) {
         case 0: { NOTE(s, "item " << i << " constructed"); Val v; Item it = make(s, v); sl[i].it.reset(new Item(std::move(it))); sl[i].v = v; sl[i].moved = false; owned += v.t >= CSTR || v.name == "Res"; break; }
         case 1: if(usable(j) && i != j) { NOTE(s, "item " << i << " copy constructed from " << j); sl[i].it.reset(new Item(*sl[j].it)); sl[i].v = sl[j].v; sl[i].moved = false; ++copies; } break;
         case 2: if(usable(j) && sl[i].it && (i != j || usable(i))) { NOTE(s, "item " << i << " copy assigned from " << j); const Item& src = *sl[j].it; *sl[i].it = src; sl[i].v = sl[j].v; sl[i].moved = false; ++copies; } break;
         case 3: if(usable(j) && i != j) { NOTE(s, "item " << i << " move constructed from " << j); sl[i].it.reset(new Item(std::move(*sl[j].it))); sl[i].v = sl[j].v; sl[i].moved = false; sl[j].moved = true; } break;
         case 4: if(usable(j) && sl[i].it && i != j) { NOTE(s, "item " << i << " move assigned from " << j); *sl[i].it = std::move(*sl[j].it); sl[i].v = sl[j].v; sl[i].moved = false; sl[j].moved = true; } break;
         case 5: if(sl[i].it) { NOTE(s, "item " << i << " destroyed"); sl[i].it.reset(); sl[i].moved = false; } break;
         case 6: if(usable(i) && usable(j)) { NOTE(s, "items " << i << " and " << j << " swapped"); if(i != j) { std::swap(*sl[i].it, *sl[j].it); std::swap(sl[i].v, sl[j].v); } else { Item& a = *sl[i].it; a = *&a; } } break;
         case 7: if(usable(i)) { NOTE(s, "item " << i << " pushed on the vector"); vec.push_back(*sl[i].it); vecV.push_back(sl[i].v); ++copies; } break;
         case 8: if(!vec.empty()) { size_t k = s.draw(vec.size()); NOTE(s, "vector element " << k << " erased"); vec.erase(vec.begin() + (long)k); vecV.erase(vecV.begin() + (long)k); } break;
         case 9: if(usable(i)) { NOTE(s, "item " << i << " pushed on a paged stack"); stack.push(*sl[i].it); stackV.push_back(sl[i].v); ++copies; } break;
         case 10: if(!stackV.empty() && sl[i].it) { NOTE(s, "popped from the paged stack into item " << i); stack.pop(*sl[i].it); sl[i].v = stackV.back(); sl[i].moved = false; stackV.pop_back(); } break;
         case 11: if(usable(i)) { int k = (int)s.draw(3); NOTE(s, "item " << i << " stored in the map at " << k); table[k] = *sl[i].it; tableV[k] = sl[i].v; ++copies; } break;
         default: if(sl[i].it) { NOTE(s, "item " << i << " assigned a new value"); Val v; *sl[i].it = make(s, v); sl[i].v = v; sl[i].moved = false; } break;
         }
         size_t res = 0;
         auto see = [&](const Item& it, const Val& v, const char* w) { verify(s, it, v, w); res += v.name == "Res"; };
         for(auto& x: sl) if(x.it && !x.moved) see(*x.it, x.v, "item");
         for(size_t k = 0; k < vec.size(); ++k) see(vec[k], vecV[k], "vector element");
         for(auto& x: table) see(x.second, tableV[x.first], "map element");
         if(!stackV.empty()) verify(s, stack.top(), stackV.back(), "top of the paged stack");
         for(auto& v: stackV) res += v.name == "Res";
         REQUIRE(s, led.error.empty(), led.error);
         REQUIRE(s, led.live.size() >= res, "only " << led.live.size() << " of " << res << " owned resources are alive");
      }
      if(owned && copies) s.nontrivial();
      NOTE(s, "everything destroyed");
   }
   REQUIRE(s, led.error.empty(), led.error);
   REQUIRE(s, led.live.empty(), led.live.size() << " owned resources never released");
   tr::Ledger::cur() = nullptr;
}

PBT_ARM(handlers, 30000, 300000, true) {
   tr::Ledger led;
   tr::Ledger::cur() = &led;
   struct H { falcon::Handler* h; const char* name; const char* text; bool truth; int64 n; bool flat; };
   H all[] = {
      {&HandlerFactory::nilHandler, "Nil", "nil", false, 0, true}, {&HandlerFactory::boolHandler, "Bool", "false", false, 0, true}, {&HandlerFactory::intHandler, "Int", "0", false, 0, true},
      {&HandlerFactory::floatHandler, "Float", "0", false, 0, true}, {&HandlerFactory::stringHandler, "String", "", false, 0, false}, {&HandlerFactory::bigNumHandler, "BigNum", "0", false, 0, false}, {&g_res, "Res", "resource 5000", true, 5000, false}};
   std::vector<std::pair<H*, falcon::ItemData>> held;
   size_t n = 2 + s.draw(10);
   for(size_t i = 0; i < n; ++i) {
      H* h = &all[s.draw(7)];
      REQUIRE(s, h->h->typeName() == h->name, "the handler of " << h->name << " calls itself " << h->h->typeName());
      REQUIRE(s, h->h->isFlat() == h->flat, "the handler of " << h->name << (h->flat ? " does not say it is flat" : " says it is flat"));
      falcon::ItemData d = h->h->allocate();
      NOTE(s, "allocated a " << h->name);
      held.push_back({h, d});
      if(s.coin(1, 3)) {
         size_t k = s.draw(held.size());
         NOTE(s, "destroyed the " << held[k].first->name << " number " << k);
         if(held[k].first->flat && s.coin()) held[k].first->h->destroy(held[k].second);     // flat values own nothing: released twice harmlessly
         held[k].first->h->destroy(held[k].second);
         held.erase(held.begin() + (long)k);
      }
      for(auto& x: held) {
         REQUIRE(s, x.first->h->toString(x.second) == x.first->text, "a default " << x.first->name << " converts to text " << pbt::show(x.first->h->toString(x.second)));
         REQUIRE(s, x.first->h->toBool(x.second) == x.first->truth, "a default " << x.first->name << " converts to boolean " << !x.first->truth);
         REQUIRE(s, x.first->h->toInt(x.second) == x.first->n, "a default " << x.first->name << " converts to integer " << x.first->h->toInt(x.second));
      }
      if(h->h == &HandlerFactory::stringHandler && held.size() && held.back().first == h && s.coin()) {
         *reinterpret_cast<falcon::String*>(held.back().second.ptrValue) = "a default string that was filled and outgrew its internal buffer";
         REQUIRE(s, h->h->toString(held.back().second).size() > 40, "a default string cannot be used");
         h->h->destroy(held.back().second); held.pop_back();
      }
   }
   for(auto& x: held) x.first->h->destroy(x.second);
   REQUIRE(s, led.error.empty() && led.live.empty(), "allocated resources not released exactly once: " << led.error);
   tr::Ledger::cur() = nullptr;
   s.nontrivial();
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C14"); }

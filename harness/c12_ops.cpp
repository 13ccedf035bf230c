#include "c12.hpp"
#include <falcon/singleton.h>
using falcon::Singleton;
namespace {
template<int N> Singleton<Kind<N>> global[2];

template<int N> Seen touch(Singleton<Kind<N>>& h, int accessor) {
   const Singleton<Kind<N>>& ch = h;
   const Kind<N>* p = nullptr;
   switch(accessor) {
   case 0: p = h.get(); break;
   case 1: p = &*ch; return Seen{p, (*ch).whole()};
   case 2: p = ch.operator->(); return Seen{p, ch->whole()};
   case 3: p = &*h.mtbl; return Seen{p, (*h.mtbl).whole()};
   case 4: p = h.mtbl.operator->(); return Seen{p, h.mtbl->whole()};
   default: p = &*h; break;
   }
   return Seen{p, p->whole()};
}
template<int N> Seen one(int accessor, int handle) {
   if(handle < 2) return touch<N>(global<N>[handle], accessor);
   Singleton<Kind<N>> h;
   return touch<N>(h, accessor);
}
}
Seen c12_use(int kind, int accessor, int handle) {
   switch(kind) {
   case 0: return one<0>(accessor, handle);
   case 1: return one<1>(accessor, handle);
   case 2: return one<2>(accessor, handle);
   default: return one<3>(accessor, handle);
   }
}
template<int N> using H = Singleton<Kind<N>>;
void* c12_newHandle(int k) { switch(k) { case 0: return new H<0>; case 1: return new H<1>; case 2: return new H<2>; default: return new H<3>; } }
Seen c12_useHandle(int k, int a, void* h) { switch(k) { case 0: return touch<0>(*(H<0>*)h, a); case 1: return touch<1>(*(H<1>*)h, a); case 2: return touch<2>(*(H<2>*)h, a); default: return touch<3>(*(H<3>*)h, a); } }
void c12_deleteHandle(int k, void* h) { switch(k) { case 0: delete (H<0>*)h; break; case 1: delete (H<1>*)h; break; case 2: delete (H<2>*)h; break; default: delete (H<3>*)h; } }

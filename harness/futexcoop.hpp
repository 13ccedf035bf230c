// The locks of falcon/futex.h compiled against the scheduler's primitives.
#include "coop.hpp"
#include <iostream>
namespace falcon { COOP_SHADOW_STD }
#include <falcon/futex.h>
#include <engine_unity.hpp>

/// Any spin count behind one interface.
struct AnyFutex {
   unsigned n;
   explicit AnyFutex(unsigned k): n(k) {}
   virtual ~AnyFutex() {}
   virtual void lock() = 0;
   virtual void unlock() = 0;
   virtual bool isLocked() = 0;
};
template<unsigned N> struct FutexOf: AnyFutex {
   falcon::Futex<N> f;
   FutexOf(): AnyFutex(N) {}
   void lock() override { f.lock(); }
   void unlock() override { f.unlock(); }
   bool isLocked() override { return f.isLocked(); }
};
inline AnyFutex* makeFutex(pbt::Src& s) {
   switch(s.draw(9)) {
   case 0: return new FutexOf<0>;
   case 1: return new FutexOf<1>;
   case 2: return new FutexOf<2>;
   case 3: return new FutexOf<3>;
   case 4: return new FutexOf<4>;
   case 5: return new FutexOf<7>;
   case 6: return new FutexOf<16>;
   case 7: return new FutexOf<50>;
   default: return new FutexOf<4000000000u>;
   }
}

/// What the observers may see: locked when held throughout the observation, free when untouched throughout it.
struct Watch {
   int owner = -1;            // thread between the return of lock() and the call of unlock()
   unsigned busy = 0;         // threads between the call of lock() and the return of unlock()
   uint64_t epoch = 0;        // changes of the above
};

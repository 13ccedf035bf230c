// Elements and allocators that account for their lifetime, and can be told to fail.
#ifndef VERIF_TRACKED_HPP
#define VERIF_TRACKED_HPP
#include "pbt.hpp"
#include <new>
#include <unordered_map>
#include <unordered_set>

namespace tr {
struct Boom: std::runtime_error { Boom(): std::runtime_error("injected element failure") {} };

struct Ledger {
   std::unordered_set<const void*> live;      // live elements
   std::string error;                          // first accounting error
   long copies = 0, ctors = 0, assigns = 0, dtors = 0;
   long faultAfter = -1;                       // element operations that may fail: countdown, -1 never
   bool faulted = false;
   void err(const std::string& e) { if(error.empty()) error = e; }
   void maybe() { if(faultAfter >= 0 && faultAfter-- == 0) { faulted = true; throw Boom(); } }
   static Ledger*& cur() { static Ledger* l = nullptr; return l; }
};

struct Elem {
   uint64_t v;
   char pad[12] = "element";
   static void born(const Elem* e) { if(Ledger::cur() && !Ledger::cur()->live.insert(e).second) Ledger::cur()->err("element constructed over a live element"); }
   Elem(): v(999999005) { Ledger::cur()->maybe(); born(this); Ledger::cur()->ctors++; }
   explicit Elem(uint64_t x): v(x) { Ledger::cur()->maybe(); born(this); Ledger::cur()->ctors++; }
   Elem(uint64_t x, int y, const char*): v(x + y) { Ledger::cur()->maybe(); born(this); Ledger::cur()->ctors++; }
   Elem(const Elem& o): v(o.v) { o.alive("copied from"); Ledger::cur()->maybe(); born(this); Ledger::cur()->copies++; }
   Elem& operator=(const Elem& o) { alive("assigned to"); o.alive("assigned from"); Ledger::cur()->maybe(); v = o.v; Ledger::cur()->assigns++; return *this; }
   ~Elem() { if(Ledger::cur()) { if(!Ledger::cur()->live.erase(this)) Ledger::cur()->err("element destroyed twice or never constructed"); Ledger::cur()->dtors++; } v = 0xdeaddeaddeadull; }
   void alive(const char* what) const { if(Ledger::cur() && !Ledger::cur()->live.count(this)) Ledger::cur()->err(std::string("dead element ") + what); }
};

struct Arena {
   std::unordered_map<void*, size_t> live;
   size_t bytes = 0;
   long allocs = 0, frees = 0, bigAllocs = 0;
   size_t bigFrom = ~(size_t)0;
   std::string error;
   long faultAfter = -1;
   bool faulted = false;
};

template<typename T> struct Alloc {
   using value_type = T;
   template<typename U> struct rebind { using other = Alloc<U>; };
   Arena* a;
   explicit Alloc(Arena* ar): a(ar) {}
   Alloc(): a(nullptr) {}
   template<typename U> Alloc(const Alloc<U>& o): a(o.a) {}
   T* allocate(size_t n) {
      if(!a) throw std::bad_alloc();   // only the allocator the user passed may be used
      if(a->faultAfter >= 0 && a->faultAfter-- == 0) { a->faulted = true; throw std::bad_alloc(); }
      void* p = ::operator new(n * sizeof(T));
      a->live[p] = n * sizeof(T);
      a->bytes += n * sizeof(T);
      a->allocs++;
      if(n * sizeof(T) >= a->bigFrom) a->bigAllocs++;
      return static_cast<T*>(p);
   }
   void deallocate(T* p, size_t n) {
      if(!a) { ::operator delete(p); return; }
      auto i = a->live.find(p);
      if(i == a->live.end()) { if(a->error.empty()) a->error = "memory returned that this allocator did not give out"; }
      else {
         if(i->second != n * sizeof(T) && a->error.empty()) a->error = "memory returned with a wrong size";
         a->bytes -= i->second;
         a->live.erase(i);
      }
      a->frees++;
      ::operator delete(p);
   }
   bool operator==(const Alloc& o) const { return a == o.a; }
   bool operator!=(const Alloc& o) const { return a != o.a; }
};
}

namespace so {
template<typename> struct Val;
template<> struct Val<tr::Elem> {
   static tr::Elem make(uint64_t v) { return tr::Elem(v); }
   static uint64_t id(const tr::Elem& e) { e.alive("read"); return e.v; }
   static const char* name() { return "tracked"; }
};
}
#endif

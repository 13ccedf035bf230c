// C11: atomic primitives. Sequentially against a 32-bit model; concurrently under generated schedules with every memory
// access of the primitives as a scheduling point (this file is the runtime of the compiler's access instrumentation).
#include "coop.hpp"
#include "tsanrt.hpp"
#include <falcon/atomic.h>

extern "C" {
int op_inc(volatile int*); int op_dec(volatile int*); int op_add(volatile int*, int); int op_fetch(volatile int*); void op_set(volatile int*, int);
int op_xchg(volatile int*, int); int op_cas(volatile int*, int, int); int op_xor(volatile int*, int); int op_and(volatile int*, int); int op_or(volatile int*, int);

}
enum Kind { INC, DEC, ADD, FETCH, SET, XCHG, CAS, XOR, AND, OR, KINDS };
static const char* names[] = {"inc", "dec", "add", "fetch", "set", "exchange", "cas", "xor", "and", "or"};
struct Op { int k = 0; int32_t a = 0, b = 0; int32_t ret = 0;
   std::string str() const { std::ostringstream o; o << names[k]; if(k == CAS) o << "(" << a << ", " << b << ")"; else if(k == ADD || k >= SET) o << "(" << a << ")"; return o.str(); } };

static int32_t i32(pbt::Src& s) {
   switch(s.weighted({4, 3, 3})) {
   case 0: return (int32_t)s.draw(9) - 4;
   case 1: { static const int32_t e[] = {INT32_MAX, INT32_MIN, INT32_MAX - 1, INT32_MIN + 1, -1, 0x55555555, (int32_t)0xaaaaaaaa, 0x0000ffff, (int32_t)0xffff0000, 0x00ff00ff}; return e[s.draw(10)]; }
   default: return (int32_t)(uint32_t)s.draw(1ull << 32);
   }
}
/// Applies op to v and returns what the operation must return.
static int32_t model(const Op& op, uint32_t& v) {
   uint32_t o = v;
   switch(op.k) {
   case INC: v = v + 1; return (int32_t)v;
   case DEC: v = v - 1; return (int32_t)v;
   case ADD: v = v + (uint32_t)op.a; return (int32_t)v;
   case FETCH: return (int32_t)v;
   case SET: v = (uint32_t)op.a; return 0;
   case XCHG: v = (uint32_t)op.a; return (int32_t)o;
   case CAS: if(v == (uint32_t)op.a) { v = (uint32_t)op.b; return 1; } return 0;
   case XOR: v ^= (uint32_t)op.a; return (int32_t)o;
   case AND: v &= (uint32_t)op.a; return (int32_t)o;
   default: v |= (uint32_t)op.a; return (int32_t)o;
   }
}
static int32_t exec(const Op& op, volatile int* a) {
   switch(op.k) {
   case INC: return op_inc(a);
   case DEC: return op_dec(a);
   case ADD: return op_add(a, op.a);
   case FETCH: return op_fetch(a);
   case SET: op_set(a, op.a); return 0;
   case XCHG: return op_xchg(a, op.a);
   case CAS: return op_cas(a, op.a, op.b) ? 1 : 0;
   case XOR: return op_xor(a, op.a);
   case AND: return op_and(a, op.a);
   default: return op_or(a, op.a);
   }
}
static int32_t execPlain(const Op& op, falcon::atomic_int& a) {
   switch(op.k) {
   case INC: return falcon::atomicInc(a);
   case DEC: return falcon::atomicDec(a);
   case ADD: return falcon::atomicAdd(a, op.a);
   case FETCH: return falcon::atomicFetch(a);
   case SET: falcon::atomicSet(a, op.a); return 0;
   case XCHG: return falcon::atomicExchange(a, op.a);
   case CAS: return falcon::atomicCAS(a, op.a, op.b) ? 1 : 0;
   case XOR: return falcon::atomicXor(a, op.a);
   case AND: return falcon::atomicAnd(a, op.a);
   default: return falcon::atomicOr(a, op.a);
   }
}

PBT_ARM(values, 300000, 6000000, false) {
   struct { uint32_t before = 0xfeedfeed; falcon::atomic_int v; uint32_t after = 0xbeefbeef; } cell;
   uint32_t m = (uint32_t)i32(s);
   cell.v = (int32_t)m;
   NOTE(s, "value " << (int32_t)m);
   size_t n = 1 + s.draw(12);
   bool wrapped = false;
   for(size_t i = 0; i < n; ++i) {
      Op op; op.k = (int)s.draw(KINDS); op.a = i32(s);
      if(op.k == CAS) { if(s.coin()) op.a = (int32_t)m; op.b = i32(s); }
      uint32_t o = m;
      int32_t want = model(op, m);
      int32_t got = execPlain(op, cell.v);
      NOTE(s, op.str() << " on " << (int32_t)o << " -> " << got << ", value " << (int32_t)cell.v);
      REQUIRE(s, got == want, op.str() << " on " << (int32_t)o << " returned " << got << " instead of " << want);
      REQUIRE(s, (uint32_t)cell.v == m, op.str() << " on " << (int32_t)o << " left " << (int32_t)cell.v << " instead of " << (int32_t)m);
      REQUIRE(s, falcon::atomicFetch(cell.v) == (int32_t)m, "atomicFetch gives " << falcon::atomicFetch(cell.v) << " instead of " << (int32_t)m);
      if(op.k <= ADD && ((int64_t)(int32_t)o + (op.k == INC ? 1 : op.k == DEC ? -1 : (int64_t)op.a)) != (int64_t)(int32_t)m) wrapped = true;
   }
   REQUIRE(s, cell.before == 0xfeedfeed && cell.after == 0xbeefbeef, "memory next to the variable was changed");
   if(wrapped) s.label("wrapped around");
   s.nontrivial();
}

static bool explain(const std::vector<std::vector<Op>>& h, std::vector<size_t>& at, uint32_t v, uint32_t final, std::set<std::pair<std::vector<size_t>, uint32_t>>& seen) {
   bool end = true;
   for(size_t t = 0; t < h.size(); ++t) if(at[t] < h[t].size()) end = false;
   if(end) return v == final;
   if(!seen.insert({at, v}).second) return false;
   for(size_t t = 0; t < h.size(); ++t) {
      if(at[t] >= h[t].size()) continue;
      uint32_t w = v;
      if(model(h[t][at[t]], w) != h[t][at[t]].ret) continue;
      ++at[t];
      if(explain(h, at, w, final, seen)) return true;
      --at[t];
   }
   return false;
}

PBT_ARM_COOP(schedules, 30000, 1000000, false) {
   size_t nt = 2 + s.draw(2);
   std::vector<std::vector<Op>> h(nt);
   int32_t init = i32(s);
   int only = s.coin(1, 3) ? (int)s.draw(KINDS) : -1;
   volatile int v = init;
   for(auto& t: h) {
      size_t n = 1 + s.draw(4);
      for(size_t i = 0; i < n; ++i) {
         Op op; op.k = only >= 0 ? only : (int)s.draw(KINDS); op.a = i32(s); op.b = i32(s);
         if(op.k == CAS && s.coin()) op.a = init;
         t.push_back(op);
      }
   }
   NOTE(s, "value " << init);
   uint64_t sw;
   {
      coop::Sched sc(s);
      sc.switchDen = 2;
      std::vector<int> ids;
      for(size_t t = 0; t < nt; ++t)
         ids.push_back(sc.spawn([&, t] { for(auto& op: h[t]) { op.ret = exec(op, &v); NOTE(s, "thread " << t << ": " << op.str() << " -> " << op.ret); } }));
      for(int i: ids) sc.join(i);
      sw = sc.switches;
   }
   NOTE(s, "final " << v);
   std::vector<size_t> at(nt, 0);
   std::set<std::pair<std::vector<size_t>, uint32_t>> seen;
   REQUIRE(s, explain(h, at, (uint32_t)init, (uint32_t)v, seen), "no order of the operations explains the returned values and the final value " << v);
   if(sw > 2 * nt) s.nontrivial();
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C11"); }

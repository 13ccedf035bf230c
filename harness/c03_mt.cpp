// C03: synchronous iterators of several threads over a stack that others change, under generated schedules.
#include "coop.hpp"
#include "stackops.hpp"
#include <map>
using namespace so;
namespace {
/// Every element operation is a scheduling point.
struct CElem {
   uint64_t v;
   explicit CElem(uint64_t x = 0): v(x) {}
   CElem(const CElem& o): v(0) { coop::point("element copy"); v = o.v; coop::point("element copied"); }
   CElem& operator=(const CElem& o) { coop::point("element assignment"); v = o.v; coop::point("element assigned"); return *this; }
   ~CElem() { coop::point("element destruction"); v = 0xdead; }
};
template<typename T> struct PointAlloc {
   using value_type = T;
   template<typename U> struct rebind { using other = PointAlloc<U>; };
   PointAlloc() = default;
   template<typename U> PointAlloc(const PointAlloc<U>&) {}
   T* allocate(size_t n) { coop::point("allocation"); return static_cast<T*>(::operator new(n * sizeof(T))); }
   void deallocate(T* p, size_t) { coop::point("deallocation"); ::operator delete(p); }
   template<typename U> bool operator==(const PointAlloc<U>&) const { return true; }
   template<typename U> bool operator!=(const PointAlloc<U>&) const { return false; }
};
using Stack = falcon::PagedStack<CElem, PointAlloc, coop::Mutex>;
using SI = Stack::sync_iterator;
using CSI = Stack::const_sync_iterator;

enum Kind { PUSH, PUSHN, POP, POPN, SHRINK, STATS, MAKE, GET, NEXT, PREV, ISEND, COPY, ASSIGN, DROP };
struct Op {
   Kind k; int it = 0, from = 0; size_t n = 0; bool cst = false; std::vector<uint64_t> in;
   // what was done: skipped operations had nothing to be done on.
   bool skipped = false, threw = false; std::vector<uint64_t> out;
   std::string str() const {
      static const char* names[] = {"push", "push", "pop", "pop", "shrink", "getStats", "sync_begin", "get", "++", "--", "== sync_end", "copy", "assign", "destroy"};
      std::ostringstream o; o << names[k]; if(k >= MAKE) o << " iterator " << it; if(k == COPY || k == ASSIGN) o << " from " << from;
      if(!in.empty()) o << list(in); if(k == POPN) o << "(" << n << ")";
      if(threw) o << " reports an empty stack";
      if(!out.empty()) o << " -> " << list(out);
      return o.str();
   }
};
struct Held { std::unique_ptr<SI> m; std::unique_ptr<CSI> c; bool end = false, unsure = false; explicit operator bool() const { return m || c; } void reset() { m.reset(); c.reset(); } };

void execute(Stack& st, Op& op, Held (&h)[3]) {
   const Stack& cst = st;
   Held& q = h[op.it];
   try {
      switch(op.k) {
      case PUSH: { CElem e(op.in[0]); st.push(e); break; }
      case PUSHN: { std::vector<CElem> a; a.reserve(op.in.size()); for(auto v: op.in) a.emplace_back(v); spread([&](auto&... x) { st.push(x...); }, a); break; }
      case POP: st.pop(); break;
      case POPN: { std::vector<CElem> a; a.reserve(op.n); for(size_t i = 0; i < op.n; ++i) a.emplace_back((uint64_t)777); spread([&](auto&... x) { st.pop(x...); }, a); for(auto& e: a) op.out.push_back(e.v); break; }
      case SHRINK: st.shrink_to_fit(); break;
      case STATS: { size_t b, d, c, e; st.getStats(b, d, c, e); op.out = {b, c, e}; break; }
      case MAKE:
         if(q) { op.skipped = true; break; }
         if(op.cst) q.c.reset(new CSI(cst.sync_begin())); else q.m.reset(new SI(st.sync_begin()));
         q.end = q.unsure = false;
         break;
      case GET: {
         if(!q || q.end || q.unsure) { op.skipped = true; break; }
         CElem e((uint64_t)777);
         if(q.m) q.m->get(e); else q.c->get(e);
         op.out = {e.v};
         break; }
      case NEXT:
         if(!q || q.end || q.unsure) { op.skipped = true; break; }
         q.unsure = true;
         if(q.m) ++*q.m; else ++*q.c;
         break;
      case PREV:
         if(!q || q.end || q.unsure) { op.skipped = true; break; }
         if(q.m) --*q.m; else --*q.c;
         break;
      case ISEND:
         if(!q) { op.skipped = true; break; }
         if(q.m) { SI e(st.sync_end()); q.end = *q.m == e; } else { CSI e(cst.sync_end()); q.end = !(*q.c != e); }
         op.out = {q.end};
         q.unsure = false;
         break;
      case COPY:
         if(q || !h[op.from]) { op.skipped = true; break; }
         if(h[op.from].m) q.m.reset(new SI(*h[op.from].m)); else q.c.reset(new CSI(*h[op.from].c));
         q.end = h[op.from].end; q.unsure = h[op.from].unsure;
         break;
      case ASSIGN:
         if(!q || !h[op.from] || (q.m != nullptr) != (h[op.from].m != nullptr)) { op.skipped = true; break; }
         if(q.m) *q.m = *h[op.from].m; else *q.c = *h[op.from].c;
         q.end = h[op.from].end; q.unsure = h[op.from].unsure;
         break;
      case DROP:
         if(!q) { op.skipped = true; break; }
         q.reset();
         break;
      }
   } catch(const std::runtime_error&) { op.threw = true; q.unsure = false; }
}

struct State {
   std::vector<uint64_t> m; std::map<int, int64_t> its; size_t blocks; bool pending = false;
   bool operator<(const State& o) const { return std::tie(m, its, blocks, pending) < std::tie(o.m, o.its, o.blocks, o.pending); }
};
struct Lin {
   const std::vector<std::vector<Op>>& h; size_t page, prealloc;
   std::function<bool(const State&)> final;
   std::set<std::pair<std::vector<size_t>, State>> seen;
   size_t need(const State& s) const { return s.m.empty() ? 1 : (s.m.size() - 1) / page + 1; }
   /// False if op can't have done what it did in this state.
   bool apply(const Op& op, int t, State& s) const {
      if(op.skipped) return true;
      int id = t * 3 + op.it;
      auto settle = [&] { if(s.its.empty() && s.pending) { s.pending = false; s.blocks = need(s); } };
      auto sync = [&](int64_t& i, bool& stepped) { stepped = i < (int64_t)s.m.size(); if(stepped) return true; if(s.m.empty()) return false; i = (int64_t)s.m.size() - 1; return true; };
      bool stepped;
      switch(op.k) {
      case PUSH: case PUSHN: s.m.insert(s.m.end(), op.in.begin(), op.in.end()); while(s.blocks < need(s)) s.blocks += prealloc; return true;
      case POP: if(s.m.empty()) return false; s.m.pop_back(); return true;
      case POPN: for(auto v: op.out) { if(s.m.empty() || s.m.back() != v) return false; s.m.pop_back(); } return true;
      case SHRINK: if(s.its.empty()) s.blocks = need(s); else s.pending = true; return true;
      case STATS: return op.out[0] == s.blocks && op.out[1] == need(s) && op.out[2] == s.m.size() - (need(s) - 1) * page;
      case MAKE: if(s.m.empty()) return false; s.its[id] = (int64_t)s.m.size() - 1; return true;
      case GET: { auto& i = s.its[id]; if(!sync(i, stepped)) return op.threw; return !op.threw && op.out[0] == s.m[(size_t)i]; }
      case NEXT: { auto& i = s.its[id]; if(!sync(i, stepped)) return op.threw; if(op.threw) return false; if(stepped) --i; return true; }
      case PREV: { auto& i = s.its[id]; if(!sync(i, stepped)) return op.threw; if(op.threw) return false; if(stepped) ++i; return true; }
      case ISEND: return (s.its[id] < 0) == (op.out[0] == 1);       // the end iterator comes and goes meanwhile, see below
      case COPY: s.its[id] = s.its[t * 3 + op.from]; return true;
      case ASSIGN: s.its[id] = s.its[t * 3 + op.from]; return true;
      case DROP: s.its.erase(id); settle(); return true;
      }
      return true;
   }
   bool search(std::vector<size_t>& at, const State& m) {
      bool end = true;
      for(size_t t = 0; t < h.size(); ++t) if(at[t] < h[t].size()) end = false;
      if(end) return final(m);
      if(!seen.insert({at, m}).second) return false;
      for(size_t t = 0; t < h.size(); ++t) {
         if(at[t] >= h[t].size()) continue;
         State n = m;
         if(!apply(h[t][at[t]], (int)t, n)) continue;
         ++at[t];
         if(search(at, n)) return true;
         --at[t];
      }
      return false;
   }
};
}

PBT_ARM_COOP(schedules, 16000, 300000, false) {
   size_t page = 1 + s.draw(4), prealloc = 1 + s.draw(3), nt = 2 + s.draw(2), prefill = s.coin(1, 3) ? nt : nt + s.draw(9);
   bool grows = s.coin(1, 4);        // nothing is removed: iterators can step back
   NOTE(s, "page size " << page << ", prealloc " << prealloc << ", " << nt << " threads, " << prefill << " elements first" << (grows ? ", nothing removed" : ""));
   std::vector<std::vector<Op>> h(nt);
   uint64_t next = 1000;
   size_t share = prefill / nt;
   for(size_t t = 0; t < nt; ++t) {
      size_t n = 2 + s.draw(6), allow = share;
      bool takes = !grows && s.coin(1, 3);      // removes all it may at the end
      bool iterates = t == 0 || s.coin();
      auto op = [&](Kind k, int it) { Op o; o.k = k; o.it = it; h[t].push_back(o); };
      int depth[3] = {0, 0, 0};      // steps down that can be taken back
      for(size_t i = 0; i < n; ++i) {
         int it = (int)s.draw(3);
         switch(iterates ? s.weighted({3, 2, 1, 1, 4, 5, 5, 1, 2, 2, 2}) : s.weighted({4, 5, 2, 1})) {
         case 0: { Op o; o.k = s.coin() ? PUSH : PUSHN; size_t k = o.k == PUSH ? 1 : 2 + s.draw(3); for(size_t j = 0; j < k; ++j) o.in.push_back(next++); allow += k; h[t].push_back(o); break; }
         case 1: if(!grows && allow) { Op o; o.n = 1 + s.draw(std::min<size_t>(allow, 4)); o.k = o.n == 1 && s.coin() ? POP : POPN; allow -= o.n; h[t].push_back(o); } break;
         case 2: op(SHRINK, 0); break;
         case 3: op(STATS, 0); break;
         case 4: if(allow) { Op o; o.k = MAKE; o.it = it; o.cst = s.coin(1, 3); depth[it] = 0; h[t].push_back(o); } break;
         case 5: op(GET, it); break;
         case 6: op(NEXT, it); op(ISEND, it); ++depth[it]; break;
         case 7: op(ISEND, it); break;
         case 8: { Op o; o.k = COPY; o.it = it; o.from = (int)s.draw(3); h[t].push_back(o); break; }
         case 9: if(s.coin()) { Op o; o.k = ASSIGN; o.it = it; o.from = (int)s.draw(3); h[t].push_back(o); } else if(grows) { op(NEXT, it); op(ISEND, it); op(PREV, it); op(GET, it); } break;
         default: op(DROP, it); break;
         }
      }
      while(takes && allow) { Op o; o.k = POPN; o.n = std::min<size_t>(allow, 4); allow -= o.n; h[t].push_back(o); if(iterates) op(GET, (int)s.draw(3)); }
   }
   std::vector<uint64_t> initial, final;
   size_t lastBlocks = 0, blocks0;
   uint64_t switches; bool resynced = false;
   {
      Stack st(page, prealloc);
      for(size_t i = 0; i < prefill; ++i) { CElem e(1 + i); st.push(e); initial.push_back(1 + i); }
      { size_t d, c, x; st.getStats(blocks0, d, c, x); }
      {
         coop::Sched sc(s);
         std::vector<int> ids;
         for(size_t t = 0; t < nt; ++t)
            ids.push_back(sc.spawn([&, t] {
               Held held[3];
               for(size_t i = 0; i < h[t].size(); ++i) { execute(st, h[t][i], held); if(!h[t][i].skipped) NOTE(s, "thread " << t << ": " << h[t][i].str()); }
               for(int k = 0; k < 3; ++k) if(held[k]) { Op o; o.k = DROP; o.it = k; execute(st, o, held); NOTE(s, "thread " << t << ": " << o.str()); h[t].push_back(o); }
            }));
         for(int id: ids) sc.join(id);
         switches = sc.switches;
      }
      size_t n = st.size(), d, c, x;
      st.getStats(lastBlocks, d, c, x);
      REQUIRE(s, n < 200, "the final size is " << n);
      for(size_t k = n; k > 0; --k) { CElem e((uint64_t)777); st.peek_depth(k, e); final.push_back(e.v); }
   }
   NOTE(s, "finally " << list(final) << " in " << lastBlocks << " pages");
   State first; first.m = initial; first.blocks = blocks0;
   Lin l{h, page, prealloc, [&](const State& e) { return e.m == final && e.blocks == lastBlocks; }, {}};
   std::vector<size_t> at(nt, 0);
   REQUIRE(s, l.search(at, first), "no sequential order of the operations explains what they returned and the final content " << list(final) << " in " << lastBlocks << " pages");
   size_t used = 0;
   for(auto& v: h) for(auto& o: v) { if(!o.skipped && o.k >= MAKE) ++used; if(o.threw) resynced = true; }
   if(resynced) s.label("emptied under an iterator");
   if(used > 2 && switches > 2 * nt) s.nontrivial();
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C03"); }

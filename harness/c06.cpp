// C06: a stack with a locking mutex shared between threads, under generated schedules.
#include "coop.hpp"
#include "stackops.hpp"
using namespace so;

namespace {
struct Boom: std::runtime_error { Boom(): std::runtime_error("injected element failure") {} };
/// Every element operation is a scheduling point: unprotected accesses interleave.
struct CElem {
   uint64_t v;
   static int& fuse() { static thread_local int f = -1; return f; }
   static void maybe() { if(fuse() >= 0 && fuse()-- == 0) throw Boom(); }
   CElem(): v(0) {}
   explicit CElem(uint64_t x): v(x) {}
   CElem(uint64_t x, int y): v(x + y) { coop::point("element construction"); maybe(); }
   CElem(const CElem& o): v(0) { coop::point("element copy"); maybe(); v = o.v; coop::point("element copied"); }
   CElem& operator=(const CElem& o) { coop::point("element assignment"); maybe(); v = o.v; coop::point("element assigned"); return *this; }
   ~CElem() { coop::point("element destruction"); v = 0xdead; }
};
struct LastMutex: coop::Mutex {
   static LastMutex*& last() { static LastMutex* p = nullptr; return p; }
   LastMutex() { last() = this; }
};
int& allocFuse() { static thread_local int f = -1; return f; }
/// Pages are obtained at scheduling points as well.
template<typename T> struct PointAlloc {
   using value_type = T;
   template<typename U> struct rebind { using other = PointAlloc<U>; };
   PointAlloc() = default;
   template<typename U> PointAlloc(const PointAlloc<U>&) {}
   T* allocate(size_t n) { coop::point("allocation"); if(allocFuse() >= 0 && allocFuse()-- == 0) throw Boom(); return static_cast<T*>(::operator new(n * sizeof(T))); }
   void deallocate(T* p, size_t) { coop::point("deallocation"); ::operator delete(p); }
   template<typename U> bool operator==(const PointAlloc<U>&) const { return true; }
   template<typename U> bool operator!=(const PointAlloc<U>&) const { return false; }
};
using Stack = falcon::PagedStack<CElem, PointAlloc, LastMutex>;

enum Kind { PUSH, PUSHN, EMPLACE, POP, POPN, POPREV, SETTOP, DISCARD, CLEAR, SHRINK, PEEK, PEEKREV, PEEKDEPTH, SIZE, EMPTY, STATS };
struct Op {
   Kind k; size_t n = 0, depth = 0; std::vector<uint64_t> in;
   std::vector<uint64_t> out; bool threw = false; int fuse = -1, afuse = -1;
   std::string str() const {
      static const char* names[] = {"push", "push", "push_emplace", "pop", "pop", "pop_reverse", "top=", "discard", "clear", "shrink", "peek", "peek_reverse", "peek_depth", "size", "empty", "getStats"};
      std::ostringstream o; o << names[k];
      if(!in.empty()) o << list(in); else if(n) o << "(" << n << (k == PEEKDEPTH ? " at " + std::to_string(depth) : "") << ")";
      if(fuse >= 0) o << " [element operation " << fuse << " fails]";
      if(afuse >= 0) o << " [allocation " << afuse << " fails]";
      if(threw) o << " threw";
      if(!out.empty()) o << " -> " << list(out);
      return o.str();
   }
};

void execute(Stack& st, Op& op) {
   std::vector<CElem> a;
   if(op.k == POPN || op.k == POPREV || op.k == PEEK || op.k == PEEKREV || op.k == PEEKDEPTH) { a.reserve(op.n); for(size_t i = 0; i < op.n; ++i) a.emplace_back((uint64_t)777); }
   else if(op.k == PUSH || op.k == PUSHN) { a.reserve(op.in.size()); for(auto v: op.in) a.emplace_back(v); }
   CElem top((uint64_t)(op.in.empty() ? 0 : op.in[0]));
   CElem::fuse() = op.fuse; allocFuse() = op.afuse;
   try {
      switch(op.k) {
      case PUSH: st.push(a[0]); break;
      case PUSHN: spread([&](auto&... x) { st.push(x...); }, a); break;
      case EMPLACE: st.push_emplace(op.in[0] - 1, 1); break;
      case POP: st.pop(); break;
      case POPN: spread([&](auto&... x) { st.pop(x...); }, a); break;
      case POPREV: spread([&](auto&... x) { st.pop_reverse(x...); }, a); break;
      case SETTOP: st.top(top); break;
      case DISCARD: st.discard(op.n); break;
      case CLEAR: st.clear(); break;
      case SHRINK: st.shrink_to_fit(); break;
      case PEEK: spread([&](auto&... x) { st.peek(x...); }, a); break;
      case PEEKREV: spread([&](auto&... x) { st.peek_reverse(x...); }, a); break;
      case PEEKDEPTH: spread([&](auto&... x) { st.peek_depth(op.depth, x...); }, a); break;
      case SIZE: op.out = {st.size()}; break;
      case EMPTY: op.out = {st.empty()}; break;
      case STATS: { size_t b, d, c, e; st.getStats(b, d, c, e); op.out = {c, e}; break; }
      }
   } catch(const Boom&) { op.threw = true; }
   CElem::fuse() = -1; allocFuse() = -1;
   if(op.k == POPN || op.k == POPREV || op.k == PEEK || op.k == PEEKREV || op.k == PEEKDEPTH) for(auto& e: a) op.out.push_back(e.v);
}

/// All the states after op in state m that agree with what op returned.
void apply(const Op& op, const std::vector<uint64_t>& m, size_t page, std::vector<std::vector<uint64_t>>& res) {
   std::vector<uint64_t> r = m;
   size_t n = m.size();
   switch(op.k) {
   case PUSH: case PUSHN: case EMPLACE:
      if(op.threw) { for(size_t j = 0; j < op.in.size(); ++j) { r = m; r.insert(r.end(), op.in.begin(), op.in.begin() + j); res.push_back(r); } return; }
      r.insert(r.end(), op.in.begin(), op.in.end()); res.push_back(r); return;
   case POP: if(!n) return; r.pop_back(); res.push_back(r); return;
   case POPN: {
      size_t got = 0; while(got < op.n && op.out[got] != 777) ++got;
      if(op.threw ? got >= op.n : got != op.n) return;
      for(size_t i = 0; i < got; ++i) { if(r.empty() || op.out[i] != r.back()) return; r.pop_back(); }
      for(size_t i = got; i < op.n; ++i) if(op.out[i] != 777) return;
      res.push_back(r); return; }
   case POPREV: case PEEKREV:
      if(op.n > n) return;
      for(size_t i = 0; i < op.n; ++i) if(!(op.threw && op.out[i] == 777) && op.out[i] != m[n - op.n + i]) return;
      if(op.k == POPREV && !op.threw) r.resize(n - op.n);
      res.push_back(r); return;
   case PEEK:
      if(op.n > n) return;
      for(size_t i = 0; i < op.n; ++i) if(!(op.threw && op.out[i] == 777) && op.out[i] != m[n - 1 - i]) return;
      res.push_back(r); return;
   case PEEKDEPTH:
      if(op.depth > n) return;
      for(size_t i = 0; i < op.n; ++i) if(!(op.threw && op.out[i] == 777) && op.out[i] != m[n - op.depth + i]) return;
      res.push_back(r); return;
   case SETTOP: if(!n) return; r.back() = op.in[0]; res.push_back(r); return;
   case DISCARD: if(op.n > n) return; r.resize(n - op.n); res.push_back(r); return;
   case CLEAR: r.clear(); res.push_back(r); return;
   case SHRINK: res.push_back(r); return;
   case SIZE: if(op.out[0] == n) res.push_back(r); return;
   case EMPTY: if(op.out[0] == (n == 0)) res.push_back(r); return;
   case STATS: { size_t p = n ? (n - 1) / page : 0; if(op.out[0] == p + 1 && op.out[1] == n - p * page) res.push_back(r); return; }
   }
}

struct Lin {
   const std::vector<std::vector<Op>>& h;
   const std::vector<uint64_t>& final;
   size_t page;
   std::set<std::pair<std::vector<size_t>, std::vector<uint64_t>>> seen;
   bool search(std::vector<size_t>& at, const std::vector<uint64_t>& m) {
      bool end = true;
      for(size_t t = 0; t < h.size(); ++t) if(at[t] < h[t].size()) end = false;
      if(end) return m == final;
      if(!seen.insert({at, m}).second) return false;
      for(size_t t = 0; t < h.size(); ++t) {
         if(at[t] >= h[t].size()) continue;
         std::vector<std::vector<uint64_t>> res;
         apply(h[t][at[t]], m, page, res);
         ++at[t];
         for(auto& r: res) if(search(at, r)) return true;
         --at[t];
      }
      return false;
   }
};

void concurrent(pbt::Src& s, bool faults) {
   size_t page = 1 + s.draw(4), prealloc = 1 + s.draw(3), nt = 2 + s.draw(2), prefill = s.draw(9);
   bool clears = s.coin(1, 5);
   NOTE(s, "page size " << page << ", prealloc " << prealloc << ", " << nt << " threads, " << prefill << " elements first" << (clears ? ", with clears" : ""));
   std::vector<std::vector<Op>> h(nt);
   uint64_t next = 1000;
   size_t share = prefill / nt;
   for(size_t t = 0; t < nt; ++t) {
      size_t n = 1 + s.draw(4), allow = clears ? 0 : share;
      for(size_t i = 0; i < n; ++i) {
         Op op;
         size_t w = s.weighted({4, 3, 2, 2, 4, 3, 1, 2, 1, 2, 2, 1, 2, 2, 1, 1});
         op.k = (Kind)w;
         if(op.k == CLEAR && !clears) op.k = PUSH;
         bool needs = op.k == POP || op.k == POPN || op.k == POPREV || op.k == SETTOP || op.k == DISCARD || op.k == PEEK || op.k == PEEKREV || op.k == PEEKDEPTH;
         if(needs && allow == 0) op.k = PUSH;
         switch(op.k) {
         case PUSH: case EMPLACE: op.in = {next++}; break;
         case SETTOP: op.in = {next++}; break;
         case PUSHN: { size_t k = 2 + s.draw(4); for(size_t j = 0; j < k; ++j) op.in.push_back(next++); break; }
         case POP: op.n = 1; break;
         case POPN: case POPREV: case DISCARD: case PEEK: case PEEKREV: op.n = 1 + s.draw(std::min<size_t>(allow, 5)); break;
         case PEEKDEPTH: op.depth = 1 + s.draw(allow); op.n = 1 + s.draw(std::min<size_t>(op.depth, 5)); break;
         default: break;
         }
         if(faults && s.coin(1, 4)) {
            size_t k = op.k == PUSH || op.k == EMPLACE ? 1 : op.k == PUSHN ? op.in.size() : op.k == POPN || op.k == POPREV || op.k == PEEK || op.k == PEEKREV || op.k == PEEKDEPTH ? op.n : 0;
            if(k) op.fuse = (int)s.draw(k);
            if((op.k == PUSH || op.k == PUSHN || op.k == EMPLACE) && s.coin(1, 2)) { op.fuse = -1; op.afuse = (int)s.draw(2); }
         }
         bool risky = op.fuse >= 0 || op.afuse >= 0;
         if(op.k == PUSH || op.k == PUSHN || op.k == EMPLACE) { if(!clears && !risky) allow += op.in.size(); }
         else if(op.k == POP || op.k == POPN || op.k == POPREV || op.k == DISCARD) allow -= op.n;
         h[t].push_back(op);
      }
   }
   std::vector<uint64_t> initial, final;
   {
      Stack st(page, prealloc);
      for(size_t i = 0; i < prefill; ++i) { st.push(CElem(1 + i)); initial.push_back(1 + i); }
      LastMutex* mx = LastMutex::last();
      uint64_t switches;
      {
         coop::Sched sc(s);
         std::vector<int> ids;
         for(size_t t = 0; t < nt; ++t)
            ids.push_back(sc.spawn([&, t] {
               for(auto& op: h[t]) {
                  execute(st, op);
                  NOTE(s, "thread " << t << ": " << op.str());
               }
            }));
         for(int id: ids) sc.join(id);
         switches = sc.switches;
      }
      if(mx) REQUIRE(s, !mx->locked(), "the mutex is still locked when every operation has returned");
      size_t n = st.size();
      REQUIRE(s, n < 200, "the final size is " << n);
      for(size_t d = n; d > 0; --d) { CElem e((uint64_t)777); st.peek_depth(d, e); final.push_back(e.v); }
      size_t seen = 0;
      for(auto it = st.begin(); it != st.end(); ++it) { REQUIRE(s, seen < n && (*it).v == final[n - 1 - seen], "iterating the final stack disagrees with its elements"); ++seen; }
      REQUIRE(s, seen == n, "iterating the final stack saw " << seen << " of " << n << " elements");
      if(switches > 2 * nt) s.nontrivial();
   }
   NOTE(s, "final content " << list(final));
   Lin l{h, final, page, {}};
   std::vector<size_t> at(nt, 0);
   REQUIRE(s, l.search(at, initial), "no sequential order of the operations explains what they returned and the final content " << list(final));
   for(auto& v: h) for(auto& op: v) if(op.threw) s.label("failed operation");
   if(clears) s.label("clears");
}
// Two shared stacks, also copied and moved into each other. An assignment reads its source and then writes its target.
enum TKind { T_PUSH, T_PUSHN, T_EMPLACE, T_CLEAR, T_SHRINK, T_SIZE, T_EMPTY, T_STATS, T_COPY, T_MOVE, T_ASSIGN, T_MOVEASSIGN, T_SETTOP };
struct TOp {
   int k; int on = 0, from = 0; std::vector<uint64_t> in, out; bool threw = false; int fuse = -1, afuse = -1;
   std::string str() const {
      static const char* names[] = {"push", "push", "push_emplace", "clear", "shrink", "size", "empty", "getStats", "copy construction", "move construction", "= copy of", "= move of", "top="};
      std::ostringstream o; o << "stack " << on << " " << names[k]; if(k == T_ASSIGN || k == T_MOVEASSIGN) o << " " << from;
      if(!in.empty()) o << list(in);
      if(fuse >= 0) o << " [element operation " << fuse << " fails]";
      if(afuse >= 0) o << " [allocation " << afuse << " fails]";
      if(threw) o << " threw"; else if(k == T_SIZE || k == T_EMPTY || k == T_STATS || k == T_COPY || k == T_MOVE) o << " -> " << list(out);
      return o.str();
   }
};
std::vector<uint64_t> contentOf(const Stack& st) {
   std::vector<uint64_t> r; size_t n = st.size();
   for(size_t d = n; d > 0; --d) { CElem e((uint64_t)777); st.peek_depth(d, e); r.push_back(e.v); }
   return r;
}
void execute2(Stack* st[2], TOp& op) {
   std::vector<CElem> a; a.reserve(op.in.size()); for(auto v: op.in) a.emplace_back(v);
   Stack& me = *st[op.on];
   CElem::fuse() = op.fuse; allocFuse() = op.afuse;
   try {
      switch(op.k) {
      case T_PUSH: me.push(a[0]); break;
      case T_PUSHN: spread([&](auto&... x) { me.push(x...); }, a); break;
      case T_EMPLACE: me.push_emplace(op.in[0] - 1, 1); break;
      case T_SETTOP: me.top(a[0]); break;
      case T_CLEAR: me.clear(); break;
      case T_SHRINK: me.shrink_to_fit(); break;
      case T_SIZE: op.out = {me.size()}; break;
      case T_EMPTY: op.out = {me.empty()}; break;
      case T_STATS: { size_t b, d, c, e; me.getStats(b, d, c, e); op.out = {c, e}; break; }
      case T_COPY: { Stack c(me); CElem::fuse() = -1; allocFuse() = -1; op.out = contentOf(c); break; }
      case T_MOVE: { Stack c(std::move(me)); CElem::fuse() = -1; allocFuse() = -1; op.out = contentOf(c); break; }
      case T_ASSIGN: me = *st[op.from]; break;
      case T_MOVEASSIGN: me = std::move(*st[op.from]); break;
      }
   } catch(const Boom&) { op.threw = true; }
   CElem::fuse() = -1; allocFuse() = -1;
}
struct State2 {
   std::vector<uint64_t> m[2]; std::vector<std::vector<uint64_t>> carry;
   bool operator<(const State2& o) const { return std::tie(m[0], m[1], carry) < std::tie(o.m[0], o.m[1], o.carry); }
};
struct Lin2 {
   const std::vector<std::vector<TOp>>& h;
   const std::vector<uint64_t>* final;
   size_t page;
   std::set<std::pair<std::vector<std::pair<size_t, int>>, State2>> seen;
   // at: operations completed, and steps of the present one
   bool search(std::vector<std::pair<size_t, int>>& at, const State2& st) {
      bool end = true;
      for(size_t t = 0; t < h.size(); ++t) if(at[t].first < h[t].size()) end = false;
      if(end) return st.m[0] == final[0] && st.m[1] == final[1];
      if(!seen.insert({at, st}).second) return false;
      for(size_t t = 0; t < h.size(); ++t) {
         if(at[t].first >= h[t].size()) continue;
         const TOp& op = h[t][at[t].first];
         auto was = at[t];
         auto go = [&](const State2& n, bool done) { if(done) { ++at[t].first; at[t].second = 0; } else ++at[t].second; bool r = search(at, n); at[t] = was; return r; };
         State2 n = st;
         auto& me = n.m[op.on];
         switch(op.k) {
         case T_PUSH: case T_PUSHN: case T_EMPLACE:
            if(op.threw) { for(size_t j = 0; j < op.in.size(); ++j) { State2 q = st; q.m[op.on].insert(q.m[op.on].end(), op.in.begin(), op.in.begin() + j); if(go(q, true)) return true; } break; }
            me.insert(me.end(), op.in.begin(), op.in.end()); if(go(n, true)) return true; break;
         case T_CLEAR: me.clear(); if(go(n, true)) return true; break;
         case T_SHRINK: if(go(n, true)) return true; break;
         case T_SIZE: if(op.out[0] == me.size() && go(n, true)) return true; break;
         case T_EMPTY: if(op.out[0] == (me.empty() ? 1u : 0u) && go(n, true)) return true; break;
         case T_STATS: { size_t p = me.size() ? (me.size() - 1) / page : 0; if(op.out[0] == p + 1 && op.out[1] == me.size() - p * page && go(n, true)) return true; break; }
         case T_COPY: if((op.threw || op.out == me) && go(n, true)) return true; break;
         case T_MOVE: if(op.threw) { if(go(n, true)) return true; } else if(op.out == me) { me.clear(); if(go(n, true)) return true; } break;
         default:
            if(op.threw) { if(go(n, true)) return true; break; }
            if(op.on == op.from && was.second == 0 && go(n, true)) return true;   // nothing to do
            if(was.second == 0) { n.carry[t] = n.m[op.from]; if(op.k == T_MOVEASSIGN) n.m[op.from].clear(); if(go(n, false)) return true; }
            else { me = n.carry[t]; n.carry[t].clear(); if(go(n, true)) return true; }
            break;
         }
      }
      return false;
   }
};
void twoStacks(pbt::Src& s, bool faults) {
   size_t page = 1 + s.draw(4), prealloc = 1 + s.draw(3), nt = 2 + s.draw(2), prefill[2] = {s.draw(6), s.draw(6)};
   NOTE(s, "two stacks of page size " << page << ", prealloc " << prealloc << ", " << nt << " threads, " << prefill[0] << " and " << prefill[1] << " elements first");
   std::vector<std::vector<TOp>> h(nt);
   uint64_t next = 1000;
   bool both = false;
   for(size_t t = 0; t < nt; ++t) {
      size_t n = 1 + s.draw(3);
      for(size_t i = 0; i < n; ++i) {
         TOp op;
         op.k = (int)s.weighted({4, 2, 2, 1, 1, 1, 1, 1, 3, 1, 4, 4});
         op.on = (int)s.draw(2); op.from = s.coin(1, 12) ? op.on : 1 - op.on;
         if(op.k == T_MOVEASSIGN) op.from = 1 - op.on;
         if(op.k == T_PUSH || op.k == T_EMPLACE) op.in = {next++};
         if(op.k == T_PUSHN) { size_t k = 2 + s.draw(3); for(size_t j = 0; j < k; ++j) op.in.push_back(next++); }
         if(faults && s.coin(1, 3)) { if(s.coin(1, 3)) op.afuse = (int)s.draw(3); else op.fuse = (int)s.draw(3); }
         if(op.k >= T_COPY) both = true;
         h[t].push_back(op);
      }
   }
   State2 initial; initial.carry.resize(nt);
   std::vector<uint64_t> final[2];
   {
      std::unique_ptr<Stack> own[2]; Stack* st[2]; LastMutex* mx[2];
      for(int k = 0; k < 2; ++k) {
         own[k] = std::make_unique<Stack>(page, prealloc); st[k] = own[k].get(); mx[k] = LastMutex::last();
         for(size_t i = 0; i < prefill[k]; ++i) { st[k]->push(CElem(1 + 100 * k + i)); initial.m[k].push_back(1 + 100 * k + i); }
      }
      uint64_t switches;
      {
         coop::Sched sc(s);
         std::vector<int> ids;
         for(size_t t = 0; t < nt; ++t)
            ids.push_back(sc.spawn([&, t] { for(auto& op: h[t]) { execute2(st, op); NOTE(s, "thread " << t << ": " << op.str()); } }));
         for(int id: ids) sc.join(id);
         switches = sc.switches;
      }
      for(int k = 0; k < 2; ++k) {
         if(mx[k]) REQUIRE(s, !mx[k]->locked(), "the mutex of stack " << k << " is still locked when every operation has returned");
         REQUIRE(s, st[k]->size() < 200, "the final size is " << st[k]->size());
         final[k] = contentOf(*st[k]);
      }
      if(both && switches > 2 * nt) s.nontrivial();
   }
   NOTE(s, "final contents " << list(final[0]) << " " << list(final[1]));
   Lin2 l{h, final, page, {}};
   std::vector<std::pair<size_t, int>> at(nt, {0, 0});
   REQUIRE(s, l.search(at, initial), "no sequential order of the operations explains what they returned and the final contents " << list(final[0]) << " " << list(final[1]));
   for(auto& v: h) for(auto& op: v) if(op.threw) s.label("failed operation");
}
}

PBT_ARM_COOP(schedules, 40000, 500000, false) { concurrent(s, false); }
PBT_ARM_COOP(schedules_with_faults, 24000, 400000, false) { concurrent(s, true); }
PBT_ARM_COOP(two_stacks, 12000, 300000, false) { twoStacks(s, false); }
PBT_ARM_COOP(two_stacks_with_faults, 6000, 150000, false) { twoStacks(s, true); }
int main(int argc, char** argv) { return pbt::run(argc, argv, "C06"); }

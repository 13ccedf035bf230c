// C05: faults injected into element operations and the allocator.
#include "tracked.hpp"
#include "stackops.hpp"
using namespace so;
using Stack = falcon::PagedStack<tr::Elem, tr::Alloc>;

struct Fault {
   pbt::Src& s; tr::Ledger& led; tr::Arena& ar;
   Cfg c;
   Stack& st;
   std::vector<uint64_t> m;
   uint64_t next = 1;
   size_t faults = 0, edgeFaults = 0;

   size_t pageOf(size_t n) { return n == 0 ? 0 : (n - 1) / c.page; }

   /// Runs op with the armed fault; true when it failed.
   template<typename F> bool armed(F op) {
      bool threw = false;
      try { op(); }
      catch(const tr::Boom&) { threw = true; }
      catch(const std::bad_alloc&) { threw = true; }
      led.faultAfter = ar.faultAfter = -1;
      bool injected = led.faulted || ar.faulted;
      REQUIRE(s, threw == injected, (threw ? "an operation failed without an injected fault" : "an injected fault was swallowed"));
      led.faulted = ar.faulted = false;
      if(threw) { ++faults; if(m.size() % c.page == 0 || m.size() % c.page == 1 || c.page == 1) ++edgeFaults; NOTE(s, "   ... failed"); }
      return threw;
   }
   void arm(bool alloc, uint64_t within) {
      if(s.coin(1, 4)) return;   // no fault this time
      if(alloc) { ar.faultAfter = (long)s.draw(3); NOTE(s, "  [allocation " << ar.faultAfter << " fails]"); }
      else { led.faultAfter = (long)s.draw(within); NOTE(s, "  [element operation " << led.faultAfter << " fails]"); }
   }
   std::vector<tr::Elem> targets(size_t k) { std::vector<tr::Elem> a; a.reserve(k); for(size_t i = 0; i < k; ++i) a.emplace_back((uint64_t)777); return a; }

   void check(const char* after) {
      REQUIRE(s, led.error.empty(), after << ": " << led.error);
      REQUIRE(s, ar.error.empty(), after << ": " << ar.error);
      size_t n = m.size();
      REQUIRE(s, led.live.size() == n, after << ": " << led.live.size() << " elements alive, expected " << n);
      REQUIRE(s, st.size() == n, after << ": size() is " << st.size() << ", expected " << n);
      REQUIRE(s, st.empty() == (n == 0), after << ": empty() is " << st.empty() << " with " << n << " elements");
      size_t b, dep, cur, data;
      st.getStats(b, dep, cur, data);
      REQUIRE(s, cur == pageOf(n) + 1 && data == n - pageOf(n) * c.page, after << ": statistics (page " << cur << ", " << data << " elements) disagree with size " << n << ", page size " << c.page);
      if(n) REQUIRE(s, st.top().v == m.back(), after << ": top() is " << st.top().v << ", expected " << m.back());
      size_t i = 0;
      for(auto it = st.begin(); it != st.end(); ++it, ++i) { REQUIRE(s, i < n, after << ": iteration does not stop after " << n); REQUIRE(s, (*it).v == m[n - 1 - i], after << ": element " << n - 1 - i << " is " << (*it).v << ", expected " << m[n - 1 - i]); }
      REQUIRE(s, i == n, after << ": iteration saw " << i << " of " << n << " elements");
      i = 0;
      for(auto it = st.rbegin(); it != st.rend(); ++it, ++i) { REQUIRE(s, i < n, after << ": reverse iteration does not stop after " << n); REQUIRE(s, (*it).v == m[i], after << ": reverse element " << i << " is " << (*it).v); }
      REQUIRE(s, i == n, after << ": reverse iteration saw " << i << " of " << n << " elements");
   }

   /// Another stack: whatever happened, what it says of itself agrees, and it can be used.
   size_t consistent(Stack& o, const char* what) {
      size_t n = o.size(), i = 0;
      REQUIRE(s, o.empty() == (n == 0), what << ": empty() and size() disagree");
      std::vector<uint64_t> up, down;
      for(auto it = o.begin(); it != o.end() && i <= n; ++it, ++i) down.push_back((*it).v);
      REQUIRE(s, i == n, what << ": iteration sees " << i << " elements, size() is " << n);
      i = 0;
      for(auto it = o.rbegin(); it != o.rend() && i <= n; ++it, ++i) up.push_back((*it).v);
      std::reverse(up.begin(), up.end());
      REQUIRE(s, up == down, what << ": the two directions of iteration disagree");
      if(n) REQUIRE(s, o.top().v == down[0], what << ": top() is not the topmost element");
      size_t b, dep, cur, data;
      o.getStats(b, dep, cur, data);
      REQUIRE(s, cur == (n ? (n - 1) / dep : 0) + 1 && data == n - (cur - 1) * dep, what << ": statistics (page " << cur << ", " << data << " elements) disagree with size " << n << ", page size " << dep);
      return n;
   }
   std::vector<uint64_t> content(Stack& o) { std::vector<uint64_t> r; for(auto it = o.rbegin(); it != o.rend(); ++it) r.push_back((*it).v); return r; }
   /// Copies and assignments: a failure leaves the source alone and the target consistent.
   void duplicate() {
      int kind = (int)s.draw(3);
      {
         std::unique_ptr<Stack> o;
         size_t k = 0;
         if(kind) {
            size_t pg = 1 + s.draw(4);
            o.reset(new Stack(pg, 1 + s.draw(3), tr::Alloc<tr::Elem>(&ar)));
            k = s.draw(7);
            for(size_t i = 0; i < k; ++i) { tr::Elem e(500000 + i); o->push(e); }
         }
         if(!s.coin(1, 4)) {
            if(s.coin()) { ar.faultAfter = (long)s.draw(8); NOTE(s, "  [allocation " << ar.faultAfter << " fails]"); }
            else { led.faultAfter = (long)s.draw(m.size() + 1); NOTE(s, "  [element operation " << led.faultAfter << " fails]"); }
         }
         bool threw;
         const Stack& src = st;
         // armed() takes an armed fault that was not reached for no fault
         switch(kind) {
         case 0: NOTE(s, "copy construction"); threw = armed([&] { o.reset(new Stack(src)); }); break;
         case 1: NOTE(s, "copy assignment to a stack of " << k); threw = armed([&] { *o = src; }); break;
         default: {
            NOTE(s, "move assignment of a copy to a stack of " << k);
            long la = led.faultAfter, aa = ar.faultAfter; led.faultAfter = ar.faultAfter = -1;
            Stack tmp(src);
            led.faultAfter = la; ar.faultAfter = aa;
            threw = armed([&] { *o = std::move(tmp); });
            break; }
         }
         check2(kind, threw, o.get());
      }
      check("copying the stack");
   }
   void check2(int kind, bool threw, Stack* o) {
      if(threw && kind == 0) return;
      REQUIRE(s, led.error.empty(), "copying: " << led.error);
      size_t n = consistent(*o, threw ? "target of a failed assignment" : "copy");
      REQUIRE(s, led.live.size() == n + m.size(), led.live.size() << " elements alive, the two stacks hold " << n << " and " << m.size());
      if(!threw) REQUIRE(s, content(*o) == m, "the copy differs from its source");
      { tr::Elem e((uint64_t)600001); o->push(e); }
      REQUIRE(s, consistent(*o, "push on the copy") == n + 1 && o->top().v == 600001, "the copy cannot be used");
   }
   void step() {
      switch(s.weighted({5, 5, 5, 3, 4, 4, 2, 2, 2, 1, 5, 2})) {
      case 0: {  // push
         uint64_t v = next++;
         NOTE(s, "push(" << v << ")");
         bool threw;
         { tr::Elem e(v); arm(s.coin(1, 3), 1); threw = armed([&] { st.push(e); }); }
         if(!threw) m.push_back(v);
         check("push");
         break; }
      case 1: {  // emplace
         uint64_t v = next++;
         NOTE(s, "push_emplace(" << v << ")");
         arm(s.coin(1, 3), 1);
         bool threw = armed([&] { if(v % 2) st.push_emplace(v); else st.push_emplace(v - 3, 3, "x"); });
         if(!threw) m.push_back(v);
         check("push_emplace");
         break; }
      case 2: {  // multi push
         size_t k = 2 + s.draw(5);
         std::vector<uint64_t> ids;
         bool threw; size_t done;
         NOTE(s, "push of " << k << " values from " << next);
         {
            std::vector<tr::Elem> a; a.reserve(k);
            for(size_t i = 0; i < k; ++i) { ids.push_back(next++); a.emplace_back(ids.back()); }
            arm(s.coin(1, 3), k);
            threw = armed([&] { spread([&](auto&... x) { st.push(x...); }, a); });
            done = st.size() - m.size();
            REQUIRE(s, done <= k, "multiple push changed the size by " << (long)done);
            // every construction that completed stays: live = targets + stack
            REQUIRE(s, led.live.size() == k + st.size(), "multiple push: " << led.live.size() << " elements alive, expected " << k + st.size());
         }
         REQUIRE(s, threw ? done < k : done == k, "multiple push " << (threw ? "failed" : "succeeded") << " having pushed " << done << " of " << k);
         for(size_t i = 0; i < done; ++i) m.push_back(ids[i]);
         check("multiple push");
         break; }
      case 3: if(!m.empty()) { NOTE(s, "pop()"); st.pop(); m.pop_back(); check("pop"); } break;
      case 4: if(!m.empty()) {  // multi pop
         size_t k = 1 + s.draw(std::min<size_t>(6, m.size()));
         NOTE(s, "pop into " << k << " targets");
         size_t done;
         {
            auto a = targets(k);
            arm(false, k);
            bool threw = armed([&] { spread([&](auto&... x) { st.pop(x...); }, a); });
            done = m.size() - st.size();
            REQUIRE(s, threw ? done < k : done == k, "pop of " << k << " " << (threw ? "failed" : "succeeded") << " having removed " << (long)done);
            for(size_t i = 0; i < k; ++i)
               REQUIRE(s, a[i].v == (i < done ? m[m.size() - 1 - i] : 777), "pop: target " << i << " holds " << a[i].v << " after " << done << " elements were removed");
         }
         m.resize(m.size() - done);
         check("multiple pop");
         } break;
      case 5: if(!m.empty()) {  // pop_reverse
         size_t k = 1 + s.draw(std::min<size_t>(6, m.size()));
         NOTE(s, "pop_reverse into " << k << " targets");
         bool threw;
         {
            auto a = targets(k);
            arm(false, k);
            threw = armed([&] { spread([&](auto&... x) { st.pop_reverse(x...); }, a); });
            if(!threw) for(size_t i = 0; i < k; ++i) REQUIRE(s, a[i].v == m[m.size() - k + i], "pop_reverse target " << i << " holds " << a[i].v);
         }
         if(!threw) m.resize(m.size() - k);
         check("pop_reverse");
         } break;
      case 6: if(!m.empty()) {  // peek
         size_t k = 1 + s.draw(std::min<size_t>(6, m.size()));
         NOTE(s, "peek of " << k);
         { auto a = targets(k); arm(false, k); int w = (int)s.draw(3);
           armed([&] { spread([&](auto&... x) { if(w == 0) st.peek(x...); else if(w == 1) st.peek_reverse(x...); else st.peek_depth(k, x...); }, a); }); }
         check("peek");
         } break;
      case 7: { size_t k = s.draw(m.size() + 1); NOTE(s, "discard(" << k << ")"); st.discard(k); m.resize(m.size() - k); check("discard"); break; }
      case 8: NOTE(s, "shrink_to_fit()"); st.shrink_to_fit(); check("shrink"); break;
      case 9: NOTE(s, "clear()"); st.clear(); m.clear(); check("clear"); break;
      case 11: duplicate(); break;
      default: {  // go to a page boundary without faults
         size_t to = (pageOf(m.size()) + 1) * c.page;
         while(m.size() < to && m.size() < c.maxSize) { tr::Elem e(next); st.push(e); m.push_back(next++); }
         NOTE(s, "pushes up to size " << m.size());
         check("fill");
         break; }
      }
      if(m.size() > c.maxSize) { NOTE(s, "discard down"); st.discard(m.size() / 2); m.resize(m.size() - m.size() / 2); check("discard"); }
   }
};

PBT_ARM(faults, 120000, 2500000, true) {
   tr::Ledger led;
   tr::Arena ar;
   tr::Ledger::cur() = &led;
   Cfg c;
   c.page = 1 + s.draw(5); c.prealloc = 1 + s.draw(3); c.maxSize = c.page * 6 + 3;
   NOTE(s, "page size " << c.page << ", prealloc " << c.prealloc);
   {
      std::unique_ptr<Stack> st;
      if(s.coin(1, 8)) ar.faultAfter = (long)s.draw(6);
      try { st.reset(new Stack(c.page, c.prealloc, tr::Alloc<tr::Elem>(&ar))); }
      catch(const std::bad_alloc&) { REQUIRE(s, ar.faulted, "construction failed without a fault"); s.label("failed construction"); }
      ar.faultAfter = -1; ar.faulted = false;
      if(st) {
         Fault f{s, led, ar, c, *st, {}};
         size_t n = 6 + s.draw(40);
         for(size_t i = 0; i < n; ++i) f.step();
         // addresses stay fixed afterwards, whatever failed before
         if(!f.m.empty()) {
            const tr::Elem* t = &st->top();
            size_t at = f.m.size();
            for(size_t i = 0; i < c.page; ++i) { tr::Elem e(f.next); st->push(e); f.m.push_back(f.next++); }
            auto it = st->from_top(f.m.size() - at + 1);
            REQUIRE(s, &*it == t, "an element moved in memory after a fault");
            f.check("pushes after the faults");
         }
         while(!f.m.empty()) {
            { tr::Elem x((uint64_t)777); st->pop(x); REQUIRE(s, x.v == f.m.back(), "draining: popped " << x.v << ", expected " << f.m.back()); }
            f.m.pop_back();
         }
         f.check("drain");
         if(f.faults) s.label("faults");
         if(f.edgeFaults) { s.label("fault at a page edge"); s.nontrivial(); }
      }
   }
   REQUIRE(s, led.error.empty(), led.error);
   REQUIRE(s, led.live.empty(), led.live.size() << " elements never destroyed");
   REQUIRE(s, ar.error.empty() && ar.live.empty(), ar.bytes << " bytes never returned " << ar.error);
   tr::Ledger::cur() = nullptr;
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C05"); }

// C10: when a waiter of the lightweight lock yields the processor.
#include "futexcoop.hpp"
// failures inside lock(), which cannot throw
#define NOW(cond, expr) do { if(!(cond)) { std::ostringstream n__; n__ << expr; s.note("FAIL: " + n__.str()); pbt::failNow(n__.str()); } } while(0)

PBT_ARM_COOP(waits, 50000, 1200000, true) {
   size_t nt = 1 + s.draw(4);
   std::unique_ptr<AnyFutex> f;
   switch(s.draw(5)) {
   case 0: f.reset(new FutexOf<1>); break;
   case 1: f.reset(new FutexOf<0>); break;
   case 2: f.reset(new FutexOf<2>); break;
   case 3: f.reset(new FutexOf<5>); break;
   default: f.reset(makeFutex(s)); break;
   }
   unsigned n = f->n;
   NOTE(s, "spin count " << n << ", " << nt << " threads");
   struct Call { uint64_t failed = 0, yields = 0, sinceYield = 0; bool active = false; bool acquired = false; };
   std::map<int, Call> call;
   uint64_t maxFailed = 0, totalYields = 0;
   static bool observable = false;            // the lock works on primitives the scheduler sees
   auto& h = coop::Hooks::get();
   h.spurious = s.coin();
   struct Reset { ~Reset() { coop::Hooks::get() = coop::Hooks(); } } reset;
   {
      coop::Sched sc(s);
      auto failedAttempt = [&](Call& c) {
         // the yield due for the previous attempts must have happened by now
         if(n) NOW(c.yields == c.failed / n, "spin count " << n << ": " << c.yields << " yields after " << c.failed << " failed attempts");
         ++c.failed;
      };
      h.onRmw = [&](bool wasZero, bool isZero, bool spurious) {
         Call& c = call[coop::Sched::self()];
         if(!c.active) return;
         observable = true;
         bool acquired = wasZero && !isZero;
         if(acquired) {
            if(n) NOW(c.yields == c.failed / n, "spin count " << n << ": " << c.yields << " yields after " << c.failed << " failed attempts");
            c.acquired = true;
            return;
         }
         if(wasZero && !spurious) pbt::failNow("an attempt on a free lock did not take it");
         failedAttempt(c);
      };
      h.onLoad = [&](bool isZero) {
         Call& c = call[coop::Sched::self()];
         if(c.active) observable = true;
         if(c.active && !c.acquired && !isZero) failedAttempt(c);
      };
      h.onYield = [&]() {
         Call& c = call[coop::Sched::self()];
         if(!c.active) return;
         ++c.yields; ++totalYields;
         NOTE(s, "thread " << coop::Sched::self() << " yields after " << c.failed << " failed attempts");
         NOW(n != 0, "a waiter yielded with spin count zero");
         if(!observable && nt > 1) return;
         NOW(c.failed > 0, "an uncontended acquisition yielded");
         NOW(c.failed % n == 0 && c.yields == c.failed / n, "spin count " << n << ": yield number " << c.yields << " came after " << c.failed << " failed attempts");
      };
      std::vector<int> ids;
      std::vector<std::pair<size_t, int>> plan;
      for(size_t t = 0; t < nt; ++t) { size_t a = 1 + s.draw(4); int b = (int)s.size(60); plan.push_back({a, b}); }
      for(size_t t = 0; t < nt; ++t)
         ids.push_back(sc.spawn([&, t] {
            for(size_t i = 0; i < plan[t].first; ++i) {
               int me = coop::Sched::self();
               call[me] = Call();
               call[me].active = true;
               f->lock();
               call[me].active = false;
               Call& c = call[me];
               if(n && observable) REQUIRE(s, c.yields == c.failed / n, "spin count " << n << ": " << c.yields << " yields in a call with " << c.failed << " failed attempts");
               maxFailed = std::max(maxFailed, c.failed);
               NOTE(s, "thread " << me << " acquired after " << c.failed << " failed attempts and " << c.yields << " yields");
               for(int q = 0; q < plan[t].second; ++q) coop::point("critical section");
               f->unlock();
               if(i % 2) coop::point("outside");
            }
         }));
      for(int id: ids) sc.join(id);
   }
   if(n && maxFailed >= 2 * (uint64_t)n) s.nontrivial();
   if(!n && maxFailed >= 3) s.nontrivial();
   if(totalYields > 1) s.label("several yields");
   if(!maxFailed) s.label("uncontended");
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C10"); }

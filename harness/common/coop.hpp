// Cooperative scheduling of real threads under the control of the case's choices.
//
// Exactly one registered thread runs at a time; at every coop::point() the case's choices decide who goes on. Blocking
// operations wait on predicates evaluated by the scheduler, so deadlocks are seen as "nobody can run" and livelocks as
// an excessive number of steps under a fair schedule, never through wall-clock time.
#ifndef VERIF_COOP_HPP
#define VERIF_COOP_HPP
#include "pbt.hpp"
#include <condition_variable>
#include <deque>
#include <functional>
#include <memory>
#include <semaphore.h>
#include <thread>

namespace coop {

struct Thread {
   int id;
   sem_t sem;
   bool done = false;
   std::function<bool()> blockedOn;   // empty: runnable
   std::function<bool()> timeout;     // condition waits that may give up
   const char* what = "";
   uint64_t held = 0;                 // consecutive steps granted
   std::thread th;
   Thread(int i): id(i) { sem_init(&sem, 0, 0); }
   ~Thread() { sem_destroy(&sem); }
};

class Sched {
public:
   pbt::Src& s;
   std::vector<std::unique_ptr<Thread>> threads;
   int cur = 0;
   uint64_t steps = 0, switches = 0, yields = 0;
   uint64_t maxSteps;
   unsigned switchDen;       // a point hands over with probability 1/switchDen
   unsigned patience;        // consecutive points of one thread before the others get their turn
   static Sched*& current() { static Sched* p = nullptr; return p; }
   static int& self() { static thread_local int id = -1; return id; }

   explicit Sched(pbt::Src& src, uint64_t limit = 60000): s(src), maxSteps(limit) {
      static const unsigned dens[] = {3, 2, 6, 20};
      switchDen = dens[s.draw(4)];
      patience = 40;
      current() = this;
      self() = 0;
      threads.emplace_back(new Thread(0));
      cur = 0;
   }
   ~Sched() {
      for(auto& t: threads) if(t->th.joinable()) t->th.join();
      self() = -1;
      current() = nullptr;
   }

   bool runnable(Thread& t) { return !t.done && (!t.blockedOn || t.blockedOn()); }

   /// Hands the baton to some runnable thread (perhaps the caller). The caller stops until it gets it back, unless it is done.
   void handOver(bool mayStay) {
      Thread& me = *threads[cur];
      if(++steps > maxSteps) {
         std::string w;
         for(auto& t: threads) if(!t->done) w += " thread " + std::to_string(t->id) + (t->blockedOn ? " blocked in " : " in ") + t->what + ";";
         pbt::failNow("no progress: " + std::to_string(maxSteps) + " scheduling steps under a fair schedule without completion;" + w);
      }
      std::vector<int> can;
      for(auto& t: threads) if(runnable(*t)) can.push_back(t->id);
      if(can.empty()) {
         // a timed wait may still give up
         for(auto& t: threads) if(!t->done && t->timeout && t->timeout()) { can.push_back(t->id); break; }
      }
      if(can.empty()) {
         std::string w;
         for(auto& t: threads) if(!t->done) w += " thread " + std::to_string(t->id) + " blocked in " + t->what + ";";
         pbt::failNow("deadlock:" + w);
      }
      int next;
      bool stay = mayStay && std::find(can.begin(), can.end(), cur) != can.end();
      if(can.size() == 1) next = can[0];
      else if(stay && me.held < patience) {
         if(s.draw(switchDen) != switchDen - 1) next = cur;
         else { std::vector<int> o; for(int c: can) if(c != cur) o.push_back(c); next = o[s.draw(o.size())]; }
      } else {
         std::vector<int> o; for(int c: can) if(c != cur) o.push_back(c);
         if(o.empty()) o = can;
         // the longest waiting first when it was forced by patience: round robin by id after cur
         if(stay || !mayStay) { size_t k = s.draw(o.size()); std::vector<int> rr; for(int c: o) if(c > cur) rr.push_back(c); for(int c: o) if(c < cur) rr.push_back(c); if(rr.empty()) rr = o; next = rr[k % rr.size()]; }
         else next = o[s.draw(o.size())];
      }
      grant(next);
   }
   void grant(int next) {
      Thread& me = *threads[cur];
      Thread& t = *threads[next];
      if(next == cur) { me.held++; me.blockedOn = nullptr; return; }
      ++switches;
      me.held = 0; t.held = 0;
      bool leaving = me.done;
      t.blockedOn = nullptr;
      cur = next;
      sem_post(&t.sem);
      if(!leaving) while(sem_wait(&me.sem) != 0) {}
   }
   void point(const char* what) { threads[cur]->what = what; handOver(true); }
   void yield(const char* what) { ++yields; threads[cur]->what = what; threads[cur]->held = patience; handOver(true); }
   void block(const char* what, std::function<bool()> ready) {
      Thread& me = *threads[cur];
      me.what = what;
      me.blockedOn = std::move(ready);
      handOver(true);
      me.blockedOn = nullptr;
   }
   int spawn(std::function<void()> fn) {
      int id = (int)threads.size();
      threads.emplace_back(new Thread(id));
      Thread* t = threads.back().get();
      t->what = "start";
      t->th = std::thread([this, t, fn]() {
         while(sem_wait(&t->sem) != 0) {}
         self() = t->id;
         try { fn(); }
         catch(const pbt::Failure& f) { pbt::failNow(f.msg); }
         catch(const std::exception& e) { pbt::failNow(std::string("unexpected exception escaped a thread: ") + e.what()); }
         catch(...) { pbt::failNow("unexpected exception escaped a thread"); }
         t->done = true;
         t->what = "end";
         handOver(false);
      });
      point("thread creation");
      return id;
   }
   bool done(int id) { return threads[id]->done; }
   void join(int id) { block("join", [this, id] { return threads[id]->done; }); }
};

/// True when the calling thread is under the scheduler.
inline bool on() { return Sched::current() && Sched::self() >= 0 && Sched::current()->cur == Sched::self(); }
inline void point(const char* what) { if(on()) Sched::current()->point(what); }

/// A mutex for code parametrised by its mutex.
class Mutex {
   int m_owner = -1;
public:
   mutable uint64_t locks = 0;
   Mutex() = default;
   Mutex(const Mutex&) = delete;
   void lock() {
      if(!on()) { m_owner = -2; ++locks; return; }
      auto* sc = Sched::current();
      sc->point("lock");
      if(m_owner == Sched::self()) pbt::failNow("a thread locks a mutex it already holds");
      while(m_owner != -1) sc->block("lock", [this] { return m_owner == -1; });
      m_owner = Sched::self();
      ++locks;
   }
   bool try_lock() {
      if(!on()) { if(m_owner != -1) return false; m_owner = -2; return true; }
      Sched::current()->point("try_lock");
      if(m_owner != -1) return false;
      m_owner = Sched::self();
      return true;
   }
   void unlock() {
      if(m_owner == -1) pbt::failNow("an unlocked mutex is unlocked");
      if(on() && m_owner != Sched::self()) pbt::failNow("a mutex is unlocked by a thread that does not hold it");
      m_owner = -1;
      point("unlock");
   }
   bool locked() const { return m_owner != -1; }
};

class ConditionVariable {
   struct W { bool signalled = false; };
   std::deque<W*> m_waiters;
   template<typename L> bool waitImpl(L& lk, bool timed) {
      auto* sc = Sched::current();
      W w;
      m_waiters.push_back(&w);
      // spurious wake-ups are allowed by the standard
      if(sc->s.draw(16) == 15) w.signalled = true;
      lk.mutex()->unlock();
      bool byTimeout = false;
      if(!w.signalled) {
         if(timed) {
            sc->threads[sc->cur]->timeout = [&byTimeout] { byTimeout = true; return true; };
            // elapsed time is arbitrary: the wait may also end at once
            if(sc->s.draw(4) == 3) { byTimeout = true; sc->point("timed wait"); }
            else sc->block("timed wait", [&w] { return w.signalled; });
            sc->threads[sc->cur]->timeout = nullptr;
         } else sc->block("condition wait", [&w] { return w.signalled; });
      } else sc->point("spurious wake-up");
      for(auto it = m_waiters.begin(); it != m_waiters.end(); ++it) if(*it == &w) { m_waiters.erase(it); break; }
      lk.mutex()->lock();
      return !byTimeout || w.signalled;
   }
public:
   ConditionVariable() = default;
   ConditionVariable(const ConditionVariable&) = delete;
   ~ConditionVariable() { if(!m_waiters.empty() && on()) pbt::failNow("a condition variable is destroyed while a thread waits on it"); }
   void notify_one() noexcept {
      if(!on()) return;
      Sched::current()->point("notify_one");
      std::vector<W*> un; for(auto* w: m_waiters) if(!w->signalled) un.push_back(w);
      if(!un.empty()) un[Sched::current()->s.draw(un.size())]->signalled = true;
   }
   void notify_all() noexcept {
      if(!on()) return;
      Sched::current()->point("notify_all");
      for(auto* w: m_waiters) w->signalled = true;
   }
   template<typename L> void wait(L& lk) { if(on()) waitImpl(lk, false); }
   template<typename L, typename P> void wait(L& lk, P p) { while(!p()) wait(lk); }
   template<typename L, typename D> std::cv_status wait_for(L& lk, const D&) { return on() && waitImpl(lk, true) ? std::cv_status::no_timeout : std::cv_status::timeout; }
   template<typename L, typename D, typename P> bool wait_for(L& lk, const D& d, P p) { while(!p()) if(wait_for(lk, d) == std::cv_status::timeout) return p(); return true; }
   template<typename L, typename D> std::cv_status wait_until(L& lk, const D& d) { return wait_for(lk, d); }
   template<typename L, typename D, typename P> bool wait_until(L& lk, const D& d, P p) { return wait_for(lk, d, p); }
};

/// Atomics: every access is a point; weak compare-exchange may fail spuriously.
struct Hooks {
   std::function<void()> onYield;
   /// read-modify-write attempts: was the variable zero before, is it zero after, and was the failure an injected spurious one
   std::function<void(bool wasZero, bool isZero, bool spurious)> onRmw;
   std::function<void(bool isZero)> onLoad;
   bool spurious = true;
   static Hooks& get() { static Hooks h; return h; }
};

template<typename T> class Atomic {
   T m_v;
public:
   using value_type = T;
   Atomic() noexcept: m_v() {}
   constexpr Atomic(T v) noexcept: m_v(v) {}
   Atomic(const Atomic&) = delete;
   Atomic& operator=(const Atomic&) = delete;
   T load(std::memory_order = std::memory_order_seq_cst) const noexcept { point("atomic load"); if(Hooks::get().onLoad) Hooks::get().onLoad(m_v == T()); return m_v; }
   void store(T v, std::memory_order = std::memory_order_seq_cst) noexcept { point("atomic store"); m_v = v; }
   operator T() const noexcept { return load(); }
   T operator=(T v) noexcept { store(v); return v; }
   T exchange(T v, std::memory_order = std::memory_order_seq_cst) noexcept { point("atomic exchange"); T o = m_v; m_v = v; rmw(o, false); return o; }
   void rmw(T o, bool spurious) { if(Hooks::get().onRmw) Hooks::get().onRmw(o == T(), m_v == T(), spurious); }
   bool cas(T& e, T d, bool weak) noexcept {
      point("compare exchange");
      bool ok = false, spurious = false;
      T o = m_v;
      if(m_v == e) {
         if(weak && on() && Hooks::get().spurious && Sched::current()->s.draw(8) == 7) spurious = true;
         else { m_v = d; ok = true; }
      } else e = m_v;
      rmw(o, spurious);
      return ok;
   }
   bool compare_exchange_weak(T& e, T d, std::memory_order = std::memory_order_seq_cst) noexcept { return cas(e, d, true); }
   bool compare_exchange_weak(T& e, T d, std::memory_order, std::memory_order) noexcept { return cas(e, d, true); }
   bool compare_exchange_strong(T& e, T d, std::memory_order = std::memory_order_seq_cst) noexcept { return cas(e, d, false); }
   bool compare_exchange_strong(T& e, T d, std::memory_order, std::memory_order) noexcept { return cas(e, d, false); }
   T fetch_add(T d, std::memory_order = std::memory_order_seq_cst) noexcept { point("atomic add"); T o = m_v; m_v = (T)(m_v + d); return o; }
   T fetch_sub(T d, std::memory_order = std::memory_order_seq_cst) noexcept { point("atomic sub"); T o = m_v; m_v = (T)(m_v - d); return o; }
   T fetch_or(T d, std::memory_order = std::memory_order_seq_cst) noexcept { point("atomic or"); T o = m_v; m_v = (T)(m_v | d); return o; }
   T fetch_and(T d, std::memory_order = std::memory_order_seq_cst) noexcept { point("atomic and"); T o = m_v; m_v = (T)(m_v & d); return o; }
   T fetch_xor(T d, std::memory_order = std::memory_order_seq_cst) noexcept { point("atomic xor"); T o = m_v; m_v = (T)(m_v ^ d); return o; }
   T operator++() noexcept { return (T)(fetch_add(1) + 1); }
   T operator--() noexcept { return (T)(fetch_sub(1) - 1); }
   T operator++(int) noexcept { return fetch_add(1); }
   T operator--(int) noexcept { return fetch_sub(1); }
   T operator+=(T d) noexcept { return (T)(fetch_add(d) + d); }
   T operator-=(T d) noexcept { return (T)(fetch_sub(d) - d); }
   T operator|=(T d) noexcept { return (T)(fetch_or(d) | d); }
   T operator&=(T d) noexcept { return (T)(fetch_and(d) & d); }
   bool is_lock_free() const noexcept { return true; }
};

class AtomicFlag {
   bool m_v;
public:
   constexpr AtomicFlag() noexcept: m_v(false) {}
   constexpr AtomicFlag(int) noexcept: m_v(false) {}   // ATOMIC_FLAG_INIT
   AtomicFlag(const AtomicFlag&) = delete;
   bool test_and_set(std::memory_order = std::memory_order_seq_cst) noexcept { point("test_and_set"); bool o = m_v; m_v = true; if(Hooks::get().onRmw) Hooks::get().onRmw(!o, false, false); return o; }
   void clear(std::memory_order = std::memory_order_seq_cst) noexcept { point("flag clear"); m_v = false; }
   bool test(std::memory_order = std::memory_order_seq_cst) const noexcept { point("flag test"); if(Hooks::get().onLoad) Hooks::get().onLoad(!m_v); return m_v; }
};

class SThread {
   int m_id = -1;
   std::thread m_real;    // when no scheduler is active
public:
   class id_type;
   using id = std::thread::id;
   SThread() noexcept = default;
   template<typename F, typename... A, typename = std::enable_if_t<!std::is_same_v<std::decay_t<F>, SThread>>> explicit SThread(F&& f, A&&... a) {
      auto fn = std::make_shared<std::function<void()>>(std::bind(std::forward<F>(f), std::forward<A>(a)...));
      if(on()) m_id = Sched::current()->spawn([fn] { (*fn)(); });
      else m_real = std::thread([fn] { (*fn)(); });
   }
   SThread(SThread&& o) noexcept: m_id(o.m_id), m_real(std::move(o.m_real)) { o.m_id = -1; }
   SThread& operator=(SThread&& o) noexcept { if(joinable()) std::terminate(); m_id = o.m_id; m_real = std::move(o.m_real); o.m_id = -1; return *this; }
   ~SThread() { if(joinable()) std::terminate(); }
   bool joinable() const noexcept { return m_id >= 0 || m_real.joinable(); }
   void join() { if(m_id >= 0) { Sched::current()->join(m_id); m_id = -1; } else m_real.join(); }
   void detach() { if(m_id >= 0) m_id = -1; else m_real.detach(); }
   void swap(SThread& o) noexcept { std::swap(m_id, o.m_id); std::swap(m_real, o.m_real); }
   id get_id() const noexcept { return m_id >= 0 ? Sched::current()->threads[m_id]->th.get_id() : m_real.get_id(); }
   static unsigned hardware_concurrency() noexcept { return 4; }
};

inline void yieldNow() { if(!on()) return; if(Hooks::get().onYield) Hooks::get().onYield(); Sched::current()->yield("yield"); }
}
// std::this_thread::yield() ends here too
#ifndef COOP_NO_YIELD
extern "C" int sched_yield() noexcept { coop::yieldNow(); return 0; }
#endif

/// In the namespace of the code under test: names that hide the standard ones.
#define COOP_SHADOW_STD \
namespace std { \
   using namespace ::std; \
   template<typename T> using atomic = ::coop::Atomic<T>; \
   using atomic_flag = ::coop::AtomicFlag; \
   using atomic_bool = ::coop::Atomic<bool>; using atomic_int = ::coop::Atomic<int>; using atomic_uint = ::coop::Atomic<unsigned>; using atomic_size_t = ::coop::Atomic<size_t>; \
   using mutex = ::coop::Mutex; \
   using condition_variable = ::coop::ConditionVariable; \
   using condition_variable_any = ::coop::ConditionVariable; \
   using thread = ::coop::SThread; \
   namespace this_thread { \
      using ::std::this_thread::get_id; \
      using ::std::this_thread::yield; \
      template<typename D> void sleep_for(const D&) { ::coop::yieldNow(); } \
      template<typename D> void sleep_until(const D&) { ::coop::yieldNow(); } \
   } \
}
#endif

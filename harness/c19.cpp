// C19: records are pooled within bounds, diagnostics tell the truth.
#include "logsys.hpp"
using namespace lw;

static void pool(pbt::Src& s) {
   World w(s);
   {
#ifdef COOP
   coop::Sched sc(s, 400000);
#endif
   const size_t T = LogSystem::MESSAGE_POOL_THRESHOLD;
   bool running = s.coin();
   w.sys = std::make_unique<LogSystem>(running);
   size_t logged = 0;           // accepted ones
   size_t done = 0;             // certainly processed
   size_t maxLo = 0, maxHi = 0; // bounds of the largest queue length
   int watch = w.addSpy();
   w.change(watch, [](Config& c) { c.registered = true; }, [&] { w.sys->addListener(w.spies[watch]); });
   size_t lastCreated = 0, lastDiscarded = 0, lastReceived = 0, lastMax = 0;
   size_t detachedSince = 0;    // detached listeners that may or may not be counted still
   std::vector<int> st = {0};   // per listener: 0 pending, 1 active, 2 gone
   bool grew = false;
   auto post = [&]() -> int {
      int id = w.prepare(s.text(60, 3), anyLevel(s), s.coin() ? s.text(60, 1) : "", s.text(200, 3), anyLine(s));
      NOTE(s, "log message " << id);
      w.post(id);
      ++logged;
      maxHi = std::max(maxHi, logged - done);
      if(!running) maxLo = std::max(maxLo, logged - done);
      else maxLo = std::max<size_t>(maxLo, 1);
      return id;
   };
   auto check = [&](bool settled) {
      LogSystem::Diags d;
      memset(&d, 0xa5, sizeof d);
      w.sys->getDiags(d);
      NOTE(s, "diagnostics: pool " << d.m_poolSize << " created " << d.m_msgsCreated << " discarded " << d.m_msgsDiscarded << " received " << d.m_msgReceived << " max queue " << d.m_maxMsgQueueSize << " pending " << d.m_pendingListeners << " active " << d.m_activeListeners << " enabled " << d.m_enabledListeners);
      REQUIRE(s, d.m_poolSize <= T, "the pool holds " << d.m_poolSize << " records, its threshold being " << T);
      REQUIRE(s, d.m_msgsCreated >= lastCreated && d.m_msgsDiscarded >= lastDiscarded && d.m_msgReceived >= lastReceived && d.m_maxMsgQueueSize >= lastMax, "a counter went backwards");
      lastCreated = d.m_msgsCreated; lastDiscarded = d.m_msgsDiscarded; lastReceived = d.m_msgReceived; lastMax = d.m_maxMsgQueueSize;
      REQUIRE(s, d.m_maxMsgQueueSize >= maxLo && d.m_maxMsgQueueSize <= maxHi, "largest queue length reported as " << d.m_maxMsgQueueSize << ", it was between " << maxLo << " and " << maxHi);
      REQUIRE(s, d.m_msgReceived <= logged && d.m_msgReceived >= done, d.m_msgReceived << " messages reported as received, " << logged << " were logged and " << done << " processed");
      if(!settled) return;
      size_t inFlight = logged - done;
      REQUIRE(s, T + d.m_msgsCreated - d.m_msgsDiscarded == d.m_poolSize + inFlight, "records are not conserved: " << T << " + " << d.m_msgsCreated << " created - " << d.m_msgsDiscarded << " discarded, but " << d.m_poolSize << " pooled and " << inFlight << " in flight");
      if(!inFlight) REQUIRE(s, d.m_msgReceived == logged, d.m_msgReceived << " messages reported as received, " << logged << " were");
      size_t pend = 0, act = 0, en = 0, gone = 0, goneEn = 0;
      for(size_t i = 0; i < st.size(); ++i) {
         if(st[i] == 0) ++pend;
         else if(st[i] == 1) { if(w.conf[i].back().detached) { ++gone; if(w.conf[i].back().enabled) ++goneEn; } else { ++act; if(w.conf[i].back().enabled) ++en; } }
      }
      REQUIRE(s, d.m_pendingListeners == pend, d.m_pendingListeners << " listeners reported as pending, " << pend << " are");
      REQUIRE(s, d.m_activeListeners == act || d.m_activeListeners == act + gone, d.m_activeListeners << " listeners reported as active, " << act << " are (and " << gone << " detached but not processed)");
      REQUIRE(s, d.m_enabledListeners == en || d.m_enabledListeners == en + goneEn, d.m_enabledListeners << " listeners reported as enabled, " << en << " are (and " << goneEn << " detached)");
      (void)detachedSince;
   };
   auto settle = [&]() {
      if(!running) { NOTE(s, "start"); w.sys->start(); running = true; }
      int id = post();
      NOTE(s, "wait for message " << id << " and stop");
      w.gate.wait("delivery", [&] { return w.has(watch, id); });
      w.sys->stop();
      running = false;
      done = logged;
      for(size_t i = 0; i < st.size(); ++i) { if(st[i] == 0) st[i] = 1; if(st[i] == 1 && w.conf[i].back().detached) st[i] = 2; }
      check(true);
      w.verify(0, id + 1, ++w.clock);
      if(s.coin()) { NOTE(s, "start"); w.sys->start(); running = true; }
   };
   size_t n = 3 + s.draw(14);
   for(size_t k = 0; k < n; ++k) {
      size_t i = s.draw(w.spies.size());
      switch(s.weighted({5, 2, 3, 2, 1, 1, 1, 2})) {
      case 0: { size_t c = 1 + s.draw(4); for(size_t j = 0; j < c; ++j) post(); break; }
      case 1: { size_t c = s.draw(3) == 2 ? T + s.draw(40) : s.draw(70); for(size_t j = 0; j < c; ++j) post(); if(c > T) grew = true; break; }
      case 2: check(!running); break;
      case 3: settle(); break;
      case 4: if(w.spies.size() < 6) { int id = w.addSpy(); st.push_back(0); NOTE(s, "add listener " << id); w.change(id, [](Config& c) { c.registered = true; }, [&] { w.sys->addListener(w.spies[id]); }); if(running) { settle(); } } break;
      case 5: if((int)i != watch) { bool on = s.coin(); if(running) settle(); NOTE(s, (on ? "enable " : "disable ") << i); w.change((int)i, [on](Config& c) { c.enabled = on; }, [&] { w.spies[i]->enable(on); }); } break;
      case 6: if((int)i != watch) { if(running) settle(); NOTE(s, "detach " << i); w.change((int)i, [](Config& c) { c.detached = true; }, [&] { w.spies[i]->detach(); }); } break;
      default: // nothing above the level is accepted or takes a record
         { LEVEL lv = (LEVEL)s.draw(5); w.sys->level(lv); int id = w.prepare("x", (LEVEL)(lv + 1), "", "no", 7); { std::lock_guard<std::mutex> g(w.mx); w.sent[id].accepted = false; } w.post(id); w.sys->level(LogSystem::TRACE); }
         break;
      }
   }
   settle();
   w.destroy();
   if(grew) s.nontrivial();
   if(grew) s.label("beyond the pool");
   }
   w.spies.clear();
}
#ifdef COOP
PBT_ARM_COOP(coop_pool, 3200, 100000, true) { pool(s); }
#else
PBT_ARM_RT(pool, 1500, 30000, 12) { pool(s); }
/// Diagnostics read while threads log.
PBT_ARM_RT(concurrent, 400, 8000, 12) {
   World w(s);
   w.sys = std::make_unique<LogSystem>(true);
   int sp = w.addSpy();
   w.change(sp, [](Config& c) { c.registered = true; }, [&] { w.sys->addListener(w.spies[sp]); });
   size_t nt = 1 + s.draw(3), each = 1 + s.draw(200);
   std::vector<std::vector<int>> script(nt);
   for(size_t t = 0; t < nt; ++t) for(size_t k = 0; k < each; ++k) script[t].push_back(w.prepare("f", LogSystem::INFO, "", "text of message " + std::to_string(k) + " which is long enough", (int)(t * 1000 + k)));
   std::atomic<size_t> begun{0};
   std::vector<std::thread> th;
   std::atomic<bool> go{false};
   for(size_t t = 0; t < nt; ++t) th.emplace_back([&, t] { while(!go) {} for(int id: script[t]) { begun++; w.post(id); } });
   std::thread watcher([&] {
      size_t c = 0, x = 0, r = 0, m = 0, act = 0; bool last;
      do {
         last = go && begun >= nt * each;
         LogSystem::Diags d; w.sys->getDiags(d);
         size_t b = begun;
         if(d.m_poolSize > LogSystem::MESSAGE_POOL_THRESHOLD) pbt::failNow("the pool holds " + std::to_string(d.m_poolSize) + " records");
         if(d.m_msgsCreated < c || d.m_msgsDiscarded < x || d.m_msgReceived < r || d.m_maxMsgQueueSize < m) pbt::failNow("a counter went backwards");
         if(d.m_msgReceived > b || d.m_maxMsgQueueSize > b) pbt::failNow("diagnostics report more messages than were logged");
         if(d.m_activeListeners > w.spies.size() || d.m_enabledListeners > d.m_activeListeners || d.m_pendingListeners > w.spies.size()) pbt::failNow("diagnostics report listeners nobody added");
         c = d.m_msgsCreated; x = d.m_msgsDiscarded; r = d.m_msgReceived; m = d.m_maxMsgQueueSize; (void)act;
      } while(!last);
   });
   go = true;
   for(auto& t: th) t.join();
   watcher.join();
   int id = w.prepare("drain", LogSystem::CRITICAL, "", "", 1000000);
   w.post(id);
   w.gate.wait("delivery", [&] { return w.has(0, id); });
   w.sys->stop();
   LogSystem::Diags d; w.sys->getDiags(d);
   REQUIRE(s, d.m_msgReceived == nt * each + 1, d.m_msgReceived << " messages reported as received, " << nt * each + 1 << " were");
   REQUIRE(s, LogSystem::MESSAGE_POOL_THRESHOLD + d.m_msgsCreated - d.m_msgsDiscarded == d.m_poolSize, "records are not conserved: pool " << d.m_poolSize << " created " << d.m_msgsCreated << " discarded " << d.m_msgsDiscarded);
   w.verify(0, id + 1, ++w.clock);
   if(d.m_msgsCreated) s.label("beyond the pool");
   s.nontrivial();
   w.destroy(); w.spies.clear();
}
PBT_ARM_RT(flood, 40, 600, 3) { flood(s, true); }
#endif
int main(int argc, char** argv) { return pbt::run(argc, argv, "C19"); }

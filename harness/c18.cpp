// C18: the log service starts, stops, restarts and dies cleanly.
#include "logsys.hpp"
using namespace lw;

/// One controlling thread: exact expectations after every step. Producers may log meanwhile.
static void lifecycle(pbt::Src& s, bool withProducers) {
   World w(s);
   {
#ifdef COOP
   coop::Sched sc(s, 200000);
   std::vector<int> ids;
   auto go = [&](std::function<void()> f) { ids.push_back(sc.spawn(std::move(f))); };
   auto join = [&] { for(int i: ids) sc.join(i); ids.clear(); };
#else
   std::vector<std::thread> th;
   auto go = [&](std::function<void()> f) { th.emplace_back(f); };
   auto join = [&] { for(auto& t: th) t.join(); th.clear(); };
#endif
   bool running = s.coin();
   NOTE(s, "new system, " << (running ? "started" : "not started"));
   w.sys = std::make_unique<LogSystem>(running);
   { std::lock_guard<std::mutex> g(w.mx); w.quiet = !running; }
   size_t nl = 1 + s.draw(2);
   for(size_t i = 0; i < nl; ++i) { int id = w.addSpy(); w.change(id, [](Config& c) { c.registered = true; }, [&] { w.sys->addListener(w.spies[id]); }); }
   size_t starts = 0, stops = 0, idleLogs = 0;
   std::vector<std::vector<int>> script;
   if(withProducers) {
      size_t nt = 1 + s.draw(2);
      for(size_t t = 0; t < nt; ++t) {
         script.emplace_back();
         size_t n = 1 + s.draw(6);
         for(size_t k = 0; k < n; ++k) script.back().push_back(w.prepare("p" + std::to_string(t), anyLevel(s), "", "text" + std::to_string(k), (int)(t * 1000 + k), (int)t + 1));
      }
      for(size_t t = 0; t < nt; ++t) go([&, t] { for(int id: script[t]) { NOTE(s, "producer " << t << " logs message " << id); w.post(id); pointHere("between messages"); } });
   }
   size_t n = 2 + s.draw(16);
   for(size_t k = 0; k < n; ++k) {
      switch(s.weighted({6, 4, 4, 2, 1})) {
      case 0: {
         int id = w.prepare("f", anyLevel(s), s.coin() ? "c" : "", anyText(s), anyLine(s));
         NOTE(s, "log message " << id);
         w.post(id);
         if(!running) ++idleLogs;
         break; }
      case 1: NOTE(s, "start"); { std::lock_guard<std::mutex> g(w.mx); w.quiet = false; } w.sys->start(); if(!running) ++starts; running = true; break;
      case 2: NOTE(s, "stop"); w.sys->stop(); if(running) ++stops; running = false; { std::lock_guard<std::mutex> g(w.mx); w.quiet = true; if(w.inCall) s.fail("stop returned while a listener is being called"); } break;
      case 3: if(running) { // wait for everything logged so far by this thread
         int id = w.prepare("drain", LogSystem::CRITICAL, "", "", 1000000);
         NOTE(s, "drain with message " << id);
         w.post(id);
         w.gate.wait("delivery", [&] { return w.has(0, id); });
         } else for(int i = 0; i < 8; ++i) pointHere("idle");
         break;
      default: if(w.spies.size() < 5) { int id = w.addSpy(); NOTE(s, "add listener " << id); w.change(id, [](Config& c) { c.registered = true; }, [&] { w.sys->addListener(w.spies[id]); }); } break;
      }
   }
   join();
   bool deliverAll = s.coin(3, 4);
   if(deliverAll) {
      { std::lock_guard<std::mutex> g(w.mx); w.quiet = false; }
      NOTE(s, "start, drain and stop");
      w.sys->start();
      int id = w.prepare("drain", LogSystem::CRITICAL, "", "", 1000000);
      w.post(id);
      w.gate.wait("delivery", [&] { return w.has(0, id); });
      if(s.coin()) { w.sys->stop(); w.verify(0, id + 1, ++w.clock); } else w.verify(0, id, ++w.clock);
   }
   NOTE(s, "destroy");
   w.destroy();
   { std::lock_guard<std::mutex> g(w.mx); w.quiet = true; if(w.inCall) s.fail("the destructor returned while a listener is being called"); }
   for(int i = 0; i < 6; ++i) pointHere("after death");
   w.verifyOrder();
   for(size_t i = 0; i < w.spies.size(); ++i) REQUIRE(s, w.spies[i].use_count() == 1, "listener " << i << " outlives the system's reference");
   if(starts && stops) s.nontrivial();
   if(idleLogs && deliverAll) s.label("kept while stopped");
   if(starts > 1) s.label("restarted more than once");
   if(!deliverAll) s.label("destroyed with messages queued");
   if(!starts && !running) s.label("never started");
   }
   w.spies.clear();
}

/// Several threads start, stop and log at will; in the end the service must work as ever.
static void contention(pbt::Src& s) {
   World w(s);
   {
#ifdef COOP
   coop::Sched sc(s, 200000);
   std::vector<int> ids;
   auto go = [&](std::function<void()> f) { ids.push_back(sc.spawn(std::move(f))); };
   auto join = [&] { for(int i: ids) sc.join(i); ids.clear(); };
#else
   std::vector<std::thread> th;
   auto go = [&](std::function<void()> f) { th.emplace_back(f); };
   auto join = [&] { for(auto& t: th) t.join(); th.clear(); };
#endif
   w.sys = std::make_unique<LogSystem>(s.coin());
   int sp = w.addSpy();
   w.change(sp, [](Config& c) { c.registered = true; }, [&] { w.sys->addListener(w.spies[sp]); });
   size_t nt = 2 + s.draw(2);
   std::vector<std::vector<int>> script(nt);
   for(size_t t = 0; t < nt; ++t) { size_t n = 1 + s.draw(5); for(size_t k = 0; k < n; ++k) switch(s.draw(3)) {
      case 0: script[t].push_back(-1); break;
      case 1: script[t].push_back(-2); break;
      default: script[t].push_back(w.prepare("f", anyLevel(s), "", "text", (int)(t * 1000 + k), (int)t)); } }
   for(size_t t = 0; t < nt; ++t) go([&, t] { for(int k: script[t]) {
      if(k == -1) { NOTE(s, "thread " << t << " starts"); w.sys->start(); NOTE(s, "thread " << t << " started"); }
      else if(k == -2) { NOTE(s, "thread " << t << " stops"); w.sys->stop(); NOTE(s, "thread " << t << " stopped"); }
      else { NOTE(s, "thread " << t << " logs " << k); w.post(k); }
   } });
   join();
   NOTE(s, "start, drain, stop");
   w.sys->start();
   int id = w.prepare("drain", LogSystem::CRITICAL, "", "", 1000000);
   w.post(id);
   w.gate.wait("delivery", [&] { return w.has(0, id); });
   w.sys->stop();
   { std::lock_guard<std::mutex> g(w.mx); w.quiet = true; }
   w.verify(0, id + 1, ++w.clock);
   w.verifyOrder();
   w.destroy();
   s.nontrivial();
   }
   w.spies.clear();
}
#ifndef COOP
/// Very many messages kept, or very many starts and stops.
static void many(pbt::Src& s) {
   static const size_t sizes[] = {0, 10, 255, 256, 257, 1000, 1024, 1025, 4096, 5000, 32768, 65536, 70000};
   bool cycles = s.coin(1, 3), running = s.coin(), finish = s.coin(5, 6);
   size_t phases = cycles ? 100 + s.draw(600) : 1 + s.draw(4), total = 0;
   std::vector<size_t> chunk(phases); std::vector<int> act(phases);
   for(size_t i = 0; i < phases; ++i) { total += chunk[i] = cycles ? (i % 7 ? 0 : i % 3) : sizes[s.draw(13)]; act[i] = cycles ? (int)(i + running) % 2 : (int)s.draw(3); }
   NOTE(s, (running ? "running" : "not running") << ", " << phases << " phases, " << total << " messages" << (finish ? "" : ", destroyed before all are delivered"));
   auto l = std::make_shared<Counter>(total, 1);
   {
      LogSystem sys(running);
      sys.addListener(l);
      size_t id = 0, kept = 0;
      for(size_t i = 0; i < phases; ++i) {
         for(size_t k = 0; k < chunk[i]; ++k) { sys.log("f", (int)id, LogSystem::INFO, "", "m" + std::to_string(id)); ++id; }
         if(!running) kept += chunk[i];
         if(act[i] == 0) { sys.stop(); running = false; std::lock_guard<std::mutex> g(l->m); NOTE(s, "stopped after " << l->next << " of " << id); }
         else if(act[i] == 1) { sys.start(); running = true; }
         { std::lock_guard<std::mutex> g(l->m); REQUIRE(s, l->next <= id, "more messages are delivered than logged"); }
      }
      if(finish && total) {
         sys.start();
         std::unique_lock<std::mutex> g(l->m);
         l->c.wait_for(g, std::chrono::seconds(20), [&] { return l->next >= total || !l->bad.empty(); });
         REQUIRE(s, l->bad.empty(), l->bad);
         REQUIRE(s, l->next == total, l->next << " of " << total << " messages are delivered");
      }
      if(kept > 200) s.label("hundreds kept while stopped");
      if(cycles) s.label("hundreds of restarts");
   }
   REQUIRE(s, l->bad.empty(), l->bad);
   REQUIRE(s, l.use_count() == 1, "the listener outlives the system's reference");
   s.nontrivial();
}
PBT_ARM_RT(many, 60, 1000, 3) { many(s); }
#endif
#ifdef COOP
PBT_ARM_COOP(coop_lifecycle, 9000, 250000, true) { lifecycle(s, false); }
PBT_ARM_COOP(coop_producers, 5000, 150000, true) { lifecycle(s, true); }
PBT_ARM_COOP(coop_contention, 5000, 150000, true) { contention(s); }
#else
PBT_ARM_RT(lifecycle, 2500, 60000, 15) { lifecycle(s, false); }
PBT_ARM_RT(producers, 1500, 40000, 15) { lifecycle(s, true); }
PBT_ARM_RT(contention, 1500, 40000, 15) { contention(s); }
PBT_ARM_RT(several_systems, 1200, 30000, 10) { several(s); }
#endif
int main(int argc, char** argv) { return pbt::run(argc, argv, "C18"); }

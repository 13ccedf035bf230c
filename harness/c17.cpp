// C17: concurrent producers lose, tear and reorder nothing.
#include "logsys.hpp"
using namespace lw;

struct Threads {
#ifdef COOP
   coop::Sched& sc; std::vector<int> ids;
   void go(std::function<void()> f) { ids.push_back(sc.spawn(std::move(f))); }
   void join() { for(int i: ids) sc.join(i); ids.clear(); }
#else
   std::vector<std::thread> th;
   void go(std::function<void()> f) { th.emplace_back([f] { try { f(); } catch(const pbt::Failure& e) { pbt::failNow(e.msg); } catch(const std::exception& e) { pbt::failNow(std::string("unexpected exception escaped a thread: ") + e.what()); } }); }
   void join() { for(auto& t: th) t.join(); th.clear(); }
#endif
};

static void producers(pbt::Src& s, size_t maxThreads, size_t maxEach) {
   World w(s);
   {
#ifdef COOP
   coop::Sched sc(s, 400000);
   Threads th{sc, {}};
#else
   Threads th;
#endif
   bool late = s.coin(1, 4);             // the service is started when everything was queued already
   w.sys = std::make_unique<LogSystem>(!late);
   size_t nl = 1 + s.draw(3), nt = 2 + s.draw(maxThreads - 1);
   for(size_t i = 0; i < nl; ++i) {
      int id = w.addSpy();
      if(i > 0 && s.coin(1, 3)) { LEVEL lv = anyLevel(s); w.spies[id]->level(lv); w.conf[id].back().level = lv; }
      w.change(id, [](Config& c) { c.registered = true; }, [&] { w.sys->addListener(w.spies[id]); });
   }
   bool levels = s.coin(1, 4), meddle = s.coin();
   struct M { std::string file, cat, text; LEVEL lv; };
   std::vector<std::vector<int>> script(nt);
   size_t total = 0;
   for(size_t t = 0; t < nt; ++t) {
      size_t n = 1 + s.draw(maxEach);
      for(size_t k = 0; k < n; ++k) {
         // a text of its own for every message, long ones too: two halves of different messages are never taken for one
         std::string tag = "t" + std::to_string(t) + "." + std::to_string(k);
         std::string text; size_t rep = s.draw(3) == 2 ? 1 + s.draw(12) : 1; for(size_t r = 0; r < rep; ++r) text += tag + "|";
         int id = w.prepare("file" + std::to_string(t) + std::string(s.draw(2) * 30, 'f'), anyLevel(s), s.coin() ? "cat" + tag : "", text, (int)(t * 1000 + k), (int)t);
         if(levels && w.sent[id].level > LogSystem::ERROR) w.sent[id].mayBe = true;
         script[t].push_back(id);
         ++total;
      }
   }
   NOTE(s, nt << " threads, " << total << " messages, " << nl << " listeners" << (late ? ", service started late" : "") << (levels ? ", system level changing" : "") << (meddle ? ", listeners coming and going" : ""));
   for(size_t t = 0; t < nt; ++t) th.go([&, t] { for(int id: script[t]) { NOTE(s, "thread " << t << " logs message " << id); w.post(id); } });
   struct Step { int k; size_t i; LEVEL lv; };
   std::vector<Step> plan;
   if(levels || meddle) { size_t n = 1 + s.draw(6); for(size_t i = 0; i < n; ++i) plan.push_back({(int)s.draw(5), s.draw(8), (LEVEL)(1 + s.draw(5))}); }
   if(!plan.empty()) th.go([&] {
      for(auto& p: plan) {
         if(p.k == 0 && levels) { NOTE(s, "system level " << p.lv); w.sys->level(p.lv); }
         else if(meddle && p.k == 1 && w.spies.size() < 6) { int id = w.addSpy(); NOTE(s, "add listener " << id); w.change(id, [](Config& c) { c.registered = true; }, [&] { w.sys->addListener(w.spies[id]); }); }
         else if(meddle && p.k == 2 && p.i % w.spies.size() != 0) { int id = (int)(p.i % w.spies.size()); NOTE(s, "detach " << id); w.change(id, [](Config& c) { c.detached = true; }, [&] { w.spies[id]->detach(); }); }
         else if(meddle && p.k == 3 && p.i % w.spies.size() != 0) { int id = (int)(p.i % w.spies.size()); bool on = p.lv % 2; NOTE(s, (on ? "enable " : "disable ") << id); w.change(id, [on](Config& c) { c.enabled = on; }, [&] { w.spies[id]->enable(on); }); }
         else { LogSystem::Diags d; w.sys->getDiags(d); if(d.m_poolSize > LogSystem::MESSAGE_POOL_THRESHOLD) pbt::failNow("the pool holds " + std::to_string(d.m_poolSize) + " records"); }
      }
   });
   th.join();
   if(late) { NOTE(s, "start"); w.sys->start(); }
   int id = w.prepare("drain", LogSystem::CRITICAL, "", "", 1000000);
   w.post(id);
   w.gate.wait("delivery", [&] { return w.has(0, id); });
   w.sys->stop();
   { std::lock_guard<std::mutex> g(w.mx); w.quiet = true; }
   w.verify(0, id + 1, ++w.clock);
   w.verifyOrder();
   w.destroy();
   w.onCall = nullptr;
   if(nt >= 2 && total >= 3) s.nontrivial();
   if(late) s.label("queued first");
   if(total > 64) s.label("more than the pool");
   if(meddle) s.label("listeners come and go");
   }
   w.spies.clear();
}
#ifdef COOP
PBT_ARM_COOP(coop_producers, 9000, 250000, true) { producers(s, 3, 6); }
PBT_ARM_COOP(coop_many, 250, 6000, true) { producers(s, 2, 60); }
#else
PBT_ARM_RT(producers, 1200, 30000, 15) { producers(s, 6, 120); }
PBT_ARM_RT(flood, 40, 600, 3) { flood(s, false); }
#endif
int main(int argc, char** argv) { return pbt::run(argc, argv, "C17"); }

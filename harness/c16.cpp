// C16: every accepted message reaches exactly the listeners entitled to it.
#include "logsys.hpp"
using namespace lw;

/// A listener only the system holds, which uses the system when it is let go.
struct Mortal: LogSystem::Listener {
   World& w; LogSystem* sys; size_t calls = 0, at; int action; int heir, lastWords; bool* gone; std::atomic<bool>* over;
   Mortal(World& ww, LogSystem* y, size_t a, int ac, int h, int l, bool* g, std::atomic<bool>* o): w(ww), sys(y), at(a), action(ac), heir(h), lastWords(l), gone(g), over(o) {}
   void onMessage(const LogSystem::Message&) override { if(++calls == at) { NOTE(w.s, "   the mortal listener detaches itself"); detach(); } }
   ~Mortal() {
      *gone = true;
      if(*over) return;
      NOTE(w.s, "   the mortal listener dies");
      pointHere("destructor");
      switch(action) {
      case 0: { LogSystem::Diags d; sys->getDiags(d); break; }
      case 1: w.change(heir, [](Config& c) { c.registered = true; }, [&] { sys->addListener(w.spies[(size_t)heir]); }); break;
      case 2: w.post(lastWords); break;
      default: sys->log("mortal", 77777777, (LEVEL)((int)sys->level() + 1), "", "not accepted"); break;
      }
   }
};
static void history(pbt::Src& s) {
   World w(s);
   {
#ifdef COOP
   coop::Sched sc(s);
#endif
   bool running = s.coin();
   w.sys = std::make_unique<LogSystem>(running);
   LEVEL sysLevel = LogSystem::TRACE;
   REQUIRE(s, w.sys->level() == sysLevel, "a new system does not let everything pass");
   int verified = 0;
   bool filtered = false, dropped = false, restarted = false;
   // the first listener takes everything and tells when everything before was processed
   int watch = w.addSpy();
   w.change(watch, [](Config& c) { c.registered = true; }, [&] { w.sys->addListener(w.spies[watch]); });
   LogSystem* sys = w.sys.get();
   std::atomic<bool> over{false}; bool mortalGone = false; int heir = -1; std::weak_ptr<Mortal> mortal;
   if(s.coin(1, 6)) {
      int action = (int)s.draw(4), last = -1; size_t at = 1 + s.draw(6);
      if(action == 1) heir = w.addSpy();
      if(action == 2) { last = w.prepare("mortal.cpp", LogSystem::CRITICAL, "", "echo: last words", 4242); w.sent[(size_t)last].mayBe = true; }
      NOTE(s, "a listener only the system holds detaches itself at its call number " << at << "; when destroyed it " << (action == 0 ? "reads the diagnostics" : action == 1 ? "adds listener " + std::to_string(heir) : action == 2 ? "logs" : "logs above the level"));
      auto m = std::make_shared<Mortal>(w, sys, at, action, heir, last, &mortalGone, &over);
      mortal = m;
      w.sys->addListener(m);
   }
   bool echo = s.coin(1, 4);
   std::set<int> echoed;
   // listeners that change themselves, or are added, from inside the calls
   struct Actor { int id; std::shared_ptr<Spy> spy; bool addedByMain, added, gone; size_t addAt, actAt, calls, watched; int action; LEVEL lv; rx::P f; std::string ft; };
   std::vector<Actor> actors;
   { size_t na = s.coin(1, 3) ? 1 + s.draw(2) : 0;
   for(size_t i = 0; i < na; ++i) {
      Actor a{}; a.id = w.addSpy(); a.spy = w.spies[a.id];
      a.addedByMain = s.coin(); a.addAt = 1 + s.draw(6); a.actAt = 1 + s.draw(5); a.action = (int)s.draw(5); a.lv = anyLevel(s); a.f = rx::top(s, 1); a.ft = rx::str(a.f); if(a.ft.empty()) a.f = nullptr;
      if(a.addedByMain) { a.added = true; w.change(a.id, [](Config& c) { c.registered = true; }, [&] { w.sys->addListener(a.spy); }); }
      NOTE(s, "listener " << a.id << (a.addedByMain ? " added" : " to be added from the call number ") << (a.addedByMain ? "" : std::to_string(a.addAt) + " of listener 0") << ", at its call number " << a.actAt << " it "
         << (a.action == 0 ? "detaches itself" : a.action == 1 ? "disables itself" : a.action == 2 ? "sets its level to " + std::to_string(a.lv) : a.action == 3 ? "sets its filter to " + pbt::show(a.ft) : "does nothing"));
      actors.push_back(a);
   } }
   size_t firstFree = w.spies.size();
   auto fixed = [&](size_t i) { return i < firstFree; };
   size_t most = firstFree - 1 + (s.coin(1, 10) ? 24 : 6);
   if(echo || !actors.empty()) w.onCall = [&](Spy& sp, const LogSystem::Message& m, int id) {
      for(auto& a: actors) {
         if(sp.id == watch && !a.added && ++a.watched == a.addAt) {
            a.added = true;
            NOTE(w.s, "   the call adds listener " << a.id);
            w.change(a.id, [](Config& c) { c.registered = true; }, [&] { sys->addListener(a.spy); });
         }
         if(sp.id != a.id) continue;
         if(a.gone) pbt::failNow("listener " + std::to_string(a.id) + ", which detached itself while being called, is called again");
         if(++a.calls != a.actAt) continue;
         NOTE(w.s, "   listener " << a.id << " acts");
         switch(a.action) {
         case 0: w.change(a.id, [](Config& c) { c.detached = true; }, [&] { a.spy->detach(); }); a.gone = true; break;
         case 1: w.change(a.id, [](Config& c) { c.enabled = false; }, [&] { a.spy->enable(false); }); break;
         case 2: w.change(a.id, [&](Config& c) { c.level = a.lv; }, [&] { a.spy->level(a.lv); }); break;
         case 3: w.change(a.id, [&](Config& c) { c.filter = a.f; }, [&] { a.spy->category(a.ft); }); break;
         default: break;
         }
      }
      if(!echo || sp.id != watch || m.m_message.size() % 3 != 1 || m.m_message.rfind("echo", 0) == 0 || !echoed.insert(id).second) return;
      int e = w.prepare("echo.cpp", LogSystem::CRITICAL, "", "echo" + std::string(m.m_message.size() % 40, 'x'), m.m_line);
      NOTE(w.s, "   the listener logs message " << e);
      w.post(e);
   };
   auto settle = [&]() {
      if(!running) { NOTE(s, "start"); w.sys->start(); running = true; restarted = true; }
      int id, extra = -1;
      id = w.prepare("drain", LogSystem::CRITICAL, "", "", 1000000);
      NOTE(s, "drain with message " << id);
      w.post(id);
      w.gate.wait("delivery", [&] { return w.has(watch, id); });
      int mark = id;
      bool stop = s.coin();
      if(echo) { // what listeners logged meanwhile is queued before a second mark
         id = w.prepare("drain", LogSystem::CRITICAL, "", "", 1000000);
         w.post(id);
         w.gate.wait("delivery", [&] { return w.has(watch, id); });
      }
      if(stop) { NOTE(s, "stop"); w.sys->stop(); running = false; }
      else {
         extra = w.prepare("drain", LogSystem::CRITICAL, "", "", 1000000);
         NOTE(s, "drain with message " << extra);
         w.post(extra);
         w.gate.wait("delivery", [&] { return w.has(watch, extra); });
      }
      int upto;
      { std::lock_guard<std::mutex> g(w.mx); upto = extra >= 0 ? extra : (int)w.sent.size(); }
      uint64_t now = ++w.clock;
      w.verify(verified, upto, now);
      verified = upto;
      w.verifyOrder();
      // detached listeners were let go
      uint64_t marked; { std::lock_guard<std::mutex> g(w.mx); marked = w.sent[mark].begin; }
      for(size_t i = 0; i < w.spies.size(); ++i) if(Config c = w.config((int)i); c.detached && c.registered && c.at < marked)
         REQUIRE(s, w.spies[i].use_count() == (i < firstFree && (int)i != watch && (int)i != heir ? 2 : 1), "the system still holds detached listener " << i << " after processing a later message");
   };
   size_t n = 4 + s.draw(44);
   for(size_t k = 0; k < n; ++k) {
      size_t i = s.draw(w.spies.size());
      switch(s.weighted({10, 1, 2, 3, 2, 2, 3, 1, 2, 1, 1, 3})) {
      case 0: case 1: {
         LEVEL lv = anyLevel(s);
         std::string cat;
         if(s.coin(2, 3)) { auto f = w.config((int)i).filter; cat = f && s.coin(2, 3) ? rx::sample(s, f) : s.pick({"a", "A:b", "cat::INTERNAL", "abc"}); if(s.coin(1, 4)) cat = rx::mutate(s, cat); }
         if(cat.empty() || cat == "abc") cat = s.grown(cat, 300);
         int id = w.prepare(s.grown(s.text(20, 1), 5000), lv, cat, anyText(s), anyLine(s));
         bool raw = s.draw(11) == 10 && lv <= sysLevel;
         { std::lock_guard<std::mutex> g(w.mx); w.sent[id].accepted = lv <= sysLevel; }
         if(lv > sysLevel) dropped = true;
         NOTE(s, "log message " << id << " line " << w.sent[id].line << " level " << lv << " category " << pbt::show(cat) << " text " << pbt::show(w.sent[id].text, 40) << (raw ? " (as a message object)" : ""));
         w.post(id, raw);
         break; }
      case 2: sysLevel = anyLevel(s); NOTE(s, "system level " << sysLevel); w.sys->level(sysLevel); REQUIRE(s, w.sys->level() == sysLevel, "the system's level reads back as " << w.sys->level()); break;
      case 3: for(size_t more = most > 20 ? 1 + s.draw(8) : 1; more && w.spies.size() < most; --more) {
         int id = w.addSpy();
         NOTE(s, "add listener " << id);
         w.change(id, [](Config& c) { c.registered = true; }, [&] { w.sys->addListener(w.spies[id]); }); }
         break;
      case 4: { if(fixed(i)) break; bool on = s.coin(); NOTE(s, (on ? "enable " : "disable ") << i); w.change((int)i, [on](Config& c) { c.enabled = on; }, [&] { w.spies[i]->enable(on); });
         REQUIRE(s, w.spies[i]->isEnabled() == on, "listener " << i << " enabled reads back wrong"); break; }
      case 5: { if(fixed(i)) break; LEVEL lv = anyLevel(s); NOTE(s, "listener " << i << " level " << lv); w.change((int)i, [lv](Config& c) { c.level = lv; }, [&] { w.spies[i]->level(lv); });
         REQUIRE(s, w.spies[i]->level() == lv, "listener " << i << "'s level reads back wrong"); break; }
      case 6: { if(fixed(i)) break; rx::P f = s.coin(1, 4) ? nullptr : rx::top(s, 2); std::string t = f ? rx::str(f) : ""; if(t.empty()) f = nullptr;
         NOTE(s, "listener " << i << " filter " << pbt::show(t)); filtered = true;
         w.change((int)i, [f](Config& c) { c.filter = f; }, [&] { w.spies[i]->category(t); }); break; }
      case 7: { if(fixed(i)) break; std::string t = s.pick(rx::invalid()); NOTE(s, "listener " << i << " invalid filter " << pbt::show(t)); bool th = false;
         try { w.spies[i]->category(t); } catch(const LogSystem::InvalidCategory&) { th = true; }
         REQUIRE(s, th, "an invalid filter is accepted"); break; }
      case 8: { if(fixed(i)) break; NOTE(s, "detach " << i); w.change((int)i, [](Config& c) { c.detached = true; }, [&] { w.spies[i]->detach(); });
         REQUIRE(s, w.spies[i]->isDetached(), "a detached listener does not say so"); break; }
      case 9: NOTE(s, "start"); w.sys->start(); if(!running) restarted = true; running = true; break;
      case 10: NOTE(s, "stop"); w.sys->stop(); running = false; break;
      default: settle(); break;
      }
   }
   settle();
   bool queued = s.coin(1, 3);
   if(queued) { int id = w.prepare("x", LogSystem::CRITICAL, "", "left over", 5); w.post(id); }
   NOTE(s, "destroy");
   over = true;
   w.destroy();
   REQUIRE(s, mortal.expired(), "a listener outlives the system that holds it");
   { std::lock_guard<std::mutex> g(w.mx); w.quiet = true; }
   if(!actors.empty()) s.label("listeners change inside calls");
   actors.clear();
   for(size_t i = 0; i < w.spies.size(); ++i) REQUIRE(s, w.spies[i].use_count() == 1, "listener " << i << " is still held after the system's destruction");
   if(filtered && w.spies.size() > 2) s.nontrivial();
   if(filtered) s.label("filtered");
   if(dropped) s.label("below the level");
   if(restarted) s.label("restarted");
   if(echo) s.label("listener logs");
   for(auto& c: w.conf) if(c.back().detached) s.label("detached");
   }
   w.spies.clear();
}
#ifdef COOP
PBT_ARM_COOP(coop_history, 7000, 400000, true) { history(s); }
#else
PBT_ARM_RT(history, 6000, 100000, 12) { history(s); }
PBT_ARM_RT(several_systems, 3000, 60000, 10) { several(s); }
#endif
int main(int argc, char** argv) { return pbt::run(argc, argv, "C16"); }

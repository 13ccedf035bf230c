// C25: the category filter helper adds one filtered view and restores the logger.
#include "pbt.hpp"
#include "rx.hpp"
#include <falcon/logger.h>
#include <condition_variable>
#include <iostream>
#include <map>
#include <sstream>
#include <thread>
using falcon::Logger;
using falcon::LogSystem;
using LEVEL = LogSystem::LEVEL;

struct Spy: LogSystem::Listener {
   std::mutex mx; std::condition_variable cv; std::map<int, int> got; int drains = 0;
   void onMessage(const LogSystem::Message& m) override {
      std::lock_guard<std::mutex> g(mx);
      if(m.m_file == "*drain*") { ++drains; cv.notify_all(); return; }
      got[m.m_line]++;
   }
};
/// A stream that can be read while it is written.
struct OutBuf: std::streambuf {
   mutable std::mutex mx; std::string t;
   int overflow(int c) override { std::lock_guard<std::mutex> g(mx); if(c != EOF) t += (char)c; return c == EOF ? 0 : c; }
   std::streamsize xsputn(const char* p, std::streamsize n) override { std::lock_guard<std::mutex> g(mx); t.append(p, (size_t)n); return n; }
};
struct Out: std::ostream {
   OutBuf b;
   Out(): std::ostream(nullptr) { rdbuf(&b); }
   std::string str() const { std::lock_guard<std::mutex> g(b.mx); return b.t; }
};
/// The lines a stream got, by message number.
static std::map<int, int> lines(pbt::Src& s, const std::string& text, std::vector<int>* order = nullptr, bool over = true, const std::map<int, std::pair<int, std::string>>* sent = nullptr) {
   std::map<int, int> o;
   std::istringstream is(text); std::string l;
   while(std::getline(is, l)) {
      if(is.eof() && !over) break;      // a line of the drain being written
      size_t p = l.find("*drain*");
      if(p != std::string::npos) continue;
      p = l.rfind(" #");
      REQUIRE(s, p != std::string::npos, "a broken line: " << pbt::show(l));
      int id = atoi(l.c_str() + p + 2);
      ++o[id];
      if(sent && sent->count(id)) { // the filtered view shows the message as it is
         static const char* names[] = {"[CRIT]", "[ERR ]", "[WARN]", "[INFO]", "[DBG ]", "[TRC ]"};
         auto& m = sent->at(id);
         REQUIRE(s, l.find(names[m.first]) != std::string::npos, "message #" << id << " of level " << m.first << " is shown as " << pbt::show(l));
         REQUIRE(s, m.second.empty() || l.find(m.second) != std::string::npos, "message #" << id << " of category " << pbt::show(m.second) << " is shown as " << pbt::show(l));
         REQUIRE(s, l.find("f:" + std::to_string(id) + " ") != std::string::npos, "message #" << id << " of line f:" << id << " is shown as " << pbt::show(l));
      }
      if(order) order->push_back(id);
   }
   REQUIRE(s, !over || text.empty() || text.back() == '\n', "the output ends in a broken line");
   return o;
}
struct Drain {
   Logger& lg; std::shared_ptr<Spy> spy = std::make_shared<Spy>();
   explicit Drain(Logger& l): lg(l) { lg.addListener(spy); }
   void operator()() {
      // the second one is only looked at when everything before it is over
      int want;
      { std::lock_guard<std::mutex> g(spy->mx); want = spy->drains + 2; }
      for(int i = 0; i < 2; ++i) lg.log("*drain*", 0, LogSystem::CRITICAL, "*drain*", "*drain*");
      std::unique_lock<std::mutex> g(spy->mx);
      if(!spy->cv.wait_for(g, std::chrono::seconds(15), [&] { return spy->drains >= want; })) pbt::failNow("messages are not delivered");
   }
};
enum Way { LOG, STATEMENT };
static void emit(Logger& lg, Way w, int lvl, const std::string& cat, int id) {
   std::string t = "#" + std::to_string(id);
   if(w == LOG) lg.log("f", id, (LEVEL)lvl, cat, t);
   else { lg.setCategory(cat); Logger::AutoEnd a(lg, "f", id, (LEVEL)lvl); a << "#" << id; }
}

struct Hist {
   pbt::Src& s; std::vector<std::unique_ptr<Out>> outs;
   Logger lg; Drain drain{lg}; int out = -1;
   int base = LogSystem::TRACE, dflt = LogSystem::TRACE;   // as the user set them
   rx::P dfltRx; bool haveDfltRx = false;
   bool active = false; int flvl = 0; rx::P frx;
   struct Range { int lo, hi; };
   std::map<int, Range> want[5]; std::map<int, int> spyWant;
   std::vector<std::string> pool;
   int id = 0; size_t nSets = 0, nRepl = 0, nMatch = 0, nMiss = 0, nExtra = 0, nClear = 0;
   std::map<int, std::pair<int, std::string>> sent;
   explicit Hist(pbt::Src& ss): s(ss) {}
   bool admits(const rx::P& r, const std::string& cat) { return cat.empty() || rx::match(r, cat); }
   int general() { return active ? std::max(base, flvl) : base; }
   void redirect() { out = (int)s.draw(2); while((int)outs.size() <= out) outs.emplace_back(new Out); lg.defaultListener()->writeOn(outs[(size_t)out].get()); NOTE(s, "write on stream " << out); }
   void log() {
      int lvl = active && s.coin(1, 3) ? flvl : (int)s.draw(6), n = ++id;
      std::string cat;
      switch(s.weighted({1, 3, 3, 3})) {
      case 0: break;
      case 1: cat = pool.empty() ? "cat" : pool[s.draw(pool.size())]; break;
      case 2: cat = active ? rx::sample(s, frx) : haveDfltRx ? rx::sample(s, dfltRx) : "x"; break;
      default: cat = active ? rx::mutate(s, rx::sample(s, frx)) : "other"; break;
      }
      if(cat.find("*drain*") != std::string::npos) cat = "c";
      Way w = (Way)s.draw(2);
      sent[n] = {lvl, cat};
      NOTE(s, "message #" << n << " level " << lvl << " category " << pbt::show(cat));
      emit(lg, w, lvl, cat, n);
      if(lvl <= general()) spyWant[n]++;
      Range r{0, 0};
      if(lvl <= base && lvl <= dflt && (!haveDfltRx || admits(dfltRx, cat))) { ++r.lo; ++r.hi; }
      if(active && lvl <= flvl) {
         if(cat.empty()) { ++r.hi; }          // whether the filtered view has the messages of no category is left open
         else if(rx::match(frx, cat)) { ++r.lo; ++r.hi; ++nMatch; if(lvl > base) ++nExtra; }
         else ++nMiss;
      }
      if(out >= 0 && r.hi) want[out][n] = r;
   }
   void check(bool over = false) {
      if(!over) drain();
      REQUIRE(s, (int)lg.level() == general(), "the general level is " << (int)lg.level() << " instead of " << general());
      if(!active) REQUIRE(s, (int)lg.defaultListener()->level() == dflt, "the default listener's level is " << (int)lg.defaultListener()->level() << " instead of " << dflt);
      for(size_t o = 0; o < outs.size(); ++o) {
         std::vector<int> order;
         auto got = lines(s, outs[o]->str(), &order, over, &sent);
         for(auto& g: got) REQUIRE(s, want[o].count(g.first), "stream " << o << " got message #" << g.first << ", which is not for it");
         for(auto& w: want[o]) { int n = got.count(w.first) ? got[w.first] : 0; REQUIRE(s, n >= w.second.lo && n <= w.second.hi, "stream " << o << " got message #" << w.first << " " << n << " times instead of " << w.second.lo << (w.second.hi > w.second.lo ? " or more" : "")); }
         REQUIRE(s, std::is_sorted(order.begin(), order.end()), "stream " << o << " got the messages out of order");
      }
      std::lock_guard<std::mutex> g(drain.spy->mx);
      REQUIRE(s, drain.spy->got == spyWant, "another listener did not get each of the messages up to the general level once");
   }
   void run() {
      size_t n = 4 + s.draw(20);
      for(size_t k = 0; k < n; ++k) {
         switch(s.weighted({10, 4, 3, 1, 3, 1})) {
         case 0: { size_t m = 1 + s.draw(4); for(size_t i = 0; i < m; ++i) log(); break; }
         case 1: { // set or replace the filter
            check();
            rx::P r = rx::top(s, 2);
            std::string t = rx::str(r);
            if(t.empty()) break;
            int l = s.coin(1, 3) ? -1 : (int)s.draw(6);
            NOTE(s, (active ? "replace" : "set") << " filter " << pbt::show(t) << " level " << (l < 0 ? std::string("default") : std::to_string(l)));
            if(l < 0) lg.categoryFilter(t); else lg.categoryFilter(t, (LEVEL)l);
            nRepl += active; active = true; frx = r; flvl = l < 0 ? (int)LogSystem::TRACE : l; ++nSets;
            pool.push_back(rx::sample(s, r));
            REQUIRE(s, (int)lg.level() == general(), "with a filter up to level " << flvl << " over " << base << " the general level is " << (int)lg.level());
            break; }
         case 2:
            check();
            NOTE(s, "clear filter");
            lg.clearFilter(); nClear += active; active = false;
            REQUIRE(s, (int)lg.level() == base, "after clearing the filter the general level is " << (int)lg.level() << " instead of " << base);
            break;
         case 3: { // an invalid filter
            check();
            std::string t = rx::invalid()[s.draw(rx::invalid().size())];
            NOTE(s, "set invalid filter " << pbt::show(t));
            bool threw = false;
            try { lg.categoryFilter(t, (LEVEL)s.draw(6)); } catch(const LogSystem::InvalidCategory&) { threw = true; }
            REQUIRE(s, threw, "an invalid filter is accepted");
            break; }
         case 4: // levels and the default listener's own filter
            if(active) break;
            check();
            switch(s.weighted({3, 1, 1})) {
            case 0: base = (int)s.draw(6); lg.level((LEVEL)base); NOTE(s, "general level " << base); break;
            case 1: dflt = (int)s.draw(6); lg.defaultListener()->level((LEVEL)dflt); NOTE(s, "default listener's level " << dflt); break;
            default:
               haveDfltRx = s.coin();
               if(haveDfltRx) { dfltRx = rx::top(s, 1); haveDfltRx = !rx::str(dfltRx).empty(); }
               lg.defaultListener()->category(haveDfltRx ? rx::str(dfltRx) : ""); NOTE(s, "default listener's filter " << pbt::show(haveDfltRx ? rx::str(dfltRx) : ""));
               if(haveDfltRx) pool.push_back(rx::sample(s, dfltRx));
            }
            break;
         default: check(); redirect(); break;
         }
      }
      check();
      lg.stop();
      check(true);
      if(nSets && nMatch && nMiss) s.nontrivial();
      if(nRepl) s.label("filter replaced");
      if(nExtra) s.label("let through above the general level");
      if(nClear) s.label("cleared");
   }
};
PBT_ARM(histories, 6000, 200000, true) { Hist h(s); h.redirect(); h.run(); }

/// The filter changes while others log: each message comes as often as one of the configurations around it allows.
PBT_ARM_RT(concurrent, 400, 8000, 60) {
   Out os;
   Logger lg; Drain drain(lg);
   lg.defaultListener()->writeOn(&os);
   int base = (int)s.draw(6);
   lg.level((LEVEL)base);
   drain();
   size_t nt = 1 + s.draw(3), per = 20 + s.draw(60), sets = 2 + s.draw(8);
   struct M { int id, lvl; bool match; };
   std::vector<std::vector<M>> ms(nt);
   for(size_t t = 0; t < nt; ++t) for(size_t i = 0; i < per; ++i) ms[t].push_back({(int)(t * 1000 + i + 1), (int)s.draw(6), s.coin()});
   struct F { bool set; int lvl; };
   std::vector<F> fs; for(size_t i = 0; i < sets; ++i) fs.push_back({s.coin(2, 3), (int)s.draw(6)});
   int maxL = 0; for(auto& f: fs) if(f.set) maxL = std::max(maxL, f.lvl);
   NOTE(s, nt << " threads with " << per << " messages each, " << sets << " filter changes up to level " << maxL << " over general level " << base);
   std::vector<std::thread> ts; std::atomic<bool> go{false};
   for(size_t t = 0; t < nt; ++t) ts.emplace_back([&, t] { while(!go) {} for(auto& m: ms[t]) { emit(lg, (Way)(m.id % 2), m.lvl, m.match ? "match" + std::to_string(m.id) : "other", m.id); if(m.id % 8 == 0) std::this_thread::yield(); } });
   go = true;
   for(auto& f: fs) { if(f.set) lg.categoryFilter("match.*", (LEVEL)f.lvl); else lg.clearFilter(); std::this_thread::sleep_for(std::chrono::microseconds(f.lvl * 20)); }
   for(auto& t: ts) t.join();
   lg.clearFilter();
   drain();
   REQUIRE(s, (int)lg.level() == base, "after clearing the filter the general level is " << (int)lg.level() << " instead of " << base);
   REQUIRE(s, lg.defaultListener()->level() == LogSystem::TRACE, "the default listener's level is not restored");
   // exactly restored
   for(int l = 0; l < 6; ++l) emit(lg, LOG, l, l % 2 ? "match" : "other", 9000 + l);
   drain();
   lg.stop();
   auto got = lines(s, os.str());
   for(int l = 0; l < 6; ++l) REQUIRE(s, got[9000 + l] == (l <= base), "after clearing the filter a message of level " << l << " comes " << got[9000 + l] << " times over general level " << base);
   for(auto& v: ms) for(auto& m: v) {
      int n = got[m.id];
      // a message taken in under one configuration may be distributed under the next
      int hi = (m.lvl <= std::max(base, maxL)) + (m.match && m.lvl <= maxL);
      int lo = m.lvl <= base;
      REQUIRE(s, n >= lo && n <= hi, "message #" << m.id << " of level " << m.lvl << " came " << n << " times instead of " << lo << " to " << hi);
   }
   s.nontrivial();
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C25"); }

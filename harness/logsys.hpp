// A log system under observation: listeners that record, a history of listener configurations, and the delivery rules.
// With -DCOOP the log system is compiled against the cooperative scheduler, otherwise real threads are used.
#ifndef VERIF_LOGSYS_HPP
#define VERIF_LOGSYS_HPP
#include "pbt.hpp"
#include "rx.hpp"
#ifdef COOP
#include "coop.hpp"
#include <iostream>
#include <regex>
#include <algorithm>
#include <iomanip>
#include <ctime>
#include <chrono>
#include <streambuf>
#include <optional>
#include <functional>
#include <vector>
#include <list>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <cassert>
#include <queue>
#include <array>
#include <iterator>
#include <numeric>
#include <stdexcept>
#include <type_traits>
namespace falcon { COOP_SHADOW_STD }
#include <falcon/logsystem.h>
#include <engine_unity.hpp>
#else
#include <falcon/logsystem.h>
#include <condition_variable>
#include <thread>
#endif

namespace lw {
using falcon::LogSystem;
using LEVEL = LogSystem::LEVEL;

inline void pointHere(const char* w) {
#ifdef COOP
   coop::point(w);
#else
   (void)w;
#endif
}
/// Waits until ready() says so.
struct Gate {
   std::mutex mx; std::condition_variable cv;
   void poke() { cv.notify_all(); }
   template<typename F> void wait(const char* what, F ready) {
#ifdef COOP
      if(coop::on()) { coop::point(what); if(!ready()) coop::Sched::current()->block(what, ready); return; }
#endif
      std::unique_lock<std::mutex> lk(mx);
      auto end = std::chrono::steady_clock::now() + std::chrono::seconds(20);
      while(!ready()) { cv.wait_for(lk, std::chrono::milliseconds(2)); if(std::chrono::steady_clock::now() > end) pbt::failNow(std::string("waited in vain for: ") + what); }
   }
};

struct Sent {
   std::string file, cat, text; int line; LEVEL level;
   uint64_t begin = 0, end = 0;   // op counter around the call
   bool accepted = true;
   bool mayBe = false;            // acceptance raced with a level change
   int thread = 0;
};
struct Config {
   uint64_t at;                   // in force from the start of the call that made it
   uint64_t until = UINT64_MAX;   // to the end of the call that replaced it
   bool registered = false, detached = false, enabled = true;
   LEVEL level = LogSystem::TRACE;
   rx::P filter;                  // null: everything
   bool passes(const Sent& m) const { return m.cat.empty() || !filter || rx::match(filter, m.cat); }
   bool admits(const Sent& m) const { return registered && !detached && enabled && level >= m.level && passes(m); }
};

struct World;
struct Spy: LogSystem::Listener {
   World& w; int id;
   std::vector<int> got;          // ids of the messages
   Spy(World& ww, int i): w(ww), id(i) {}
   void onMessage(const LogSystem::Message& msg) override;
};

struct World {
   pbt::Src& s;
   std::atomic<uint64_t> clock{1};
   std::mutex mx;                 // never held across a scheduling point
   std::vector<Sent> sent;        // by message id
   std::map<int, int> byLine;
   std::vector<std::shared_ptr<Spy>> spies;          // our references; may be dropped
   std::vector<std::vector<Config>> conf;            // by spy id
   std::vector<std::vector<int>> got;                // what spies received, surviving them
   int inCall = 0;
   bool quiet = false;            // no call may happen now
   uint64_t delivered = 0;
   std::function<void(Spy&, const LogSystem::Message&, int id)> onCall;
   Gate gate;
   std::unique_ptr<LogSystem> sys;

   explicit World(pbt::Src& src): s(src) { sent.reserve(4096); }
   /// Destroys the system; until that is over, its thread still finds it (listeners may log from their calls and destructors).
   void destroy() { delete sys.get(); (void)sys.release(); }

   int addSpy() {
      int id = (int)spies.size();
      auto spy = std::make_shared<Spy>(*this, id);
      std::lock_guard<std::mutex> g(mx);
      spies.push_back(spy);
      conf.emplace_back(); got.emplace_back();
      Config c; c.at = clock; conf.back().push_back(c);
      return id;
   }
   /// Records a configuration change around the call that makes it.
   template<typename F, typename G> void change(int id, F modify, G act) {
      size_t prev;
      {
         std::lock_guard<std::mutex> g(mx);
         Config c = conf[id].back();
         modify(c);
         c.at = ++clock;
         c.until = UINT64_MAX;
         prev = conf[id].size() - 1;
         conf[id].push_back(c);
      }
      act();
      std::lock_guard<std::mutex> g(mx);
      conf[id][prev].until = ++clock;
   }
   int prepare(std::string file, LEVEL lv, std::string cat, std::string text, int line, int thread = 0) {
      Sent m; m.file = std::move(file); m.level = lv; m.cat = std::move(cat); m.text = std::move(text); m.line = line; m.thread = thread;
      std::lock_guard<std::mutex> g(mx);
      while(byLine.count(m.line)) m.line = (int)((unsigned)m.line + 1u);
      int id = (int)sent.size();
      byLine[m.line] = id;
      sent.push_back(m);
      return id;
   }
   void post(int id, bool raw = false) {
      Sent m;
      { std::lock_guard<std::mutex> g(mx); sent[id].begin = ++clock; m = sent[id]; }
      if(raw) { auto* p = new LogSystem::Message(m.file, m.line, m.level, m.cat, m.text); sys->log(p); }
      else sys->log(m.file, m.line, m.level, m.cat, m.text);
      std::lock_guard<std::mutex> g(mx);
      sent[id].end = ++clock;
   }
   void receive(Spy& sp, const LogSystem::Message& msg) {
      int id = -1;
      {
         std::lock_guard<std::mutex> g(mx);
         if(quiet) pbt::failNow("listener " + std::to_string(sp.id) + " is called after the service was stopped");
         if(inCall) pbt::failNow("listener " + std::to_string(sp.id) + " is called while a listener is being called");
         inCall++;
         auto it = byLine.find(msg.m_line);
         if(it == byLine.end()) pbt::failNow("listener " + std::to_string(sp.id) + " got a message nobody sent: line " + std::to_string(msg.m_line) + " " + pbt::show(msg.m_message));
         id = it->second;
         const Sent& m = sent[id];
         if(msg.m_file != m.file || msg.m_level != m.level || msg.m_category != m.cat || msg.m_message != m.text)
            pbt::failNow("message changed on the way: file " + pbt::show(msg.m_file) + " level " + std::to_string(msg.m_level) + " category " + pbt::show(msg.m_category) + " text " + pbt::show(msg.m_message)
               + ", logged as " + pbt::show(m.file) + " " + std::to_string(m.level) + " " + pbt::show(m.cat) + " " + pbt::show(m.text));
         if(m.begin == 0) pbt::failNow("a message is delivered before it was logged");
         if(!m.accepted && !m.mayBe) pbt::failNow("a message of level " + std::to_string(m.level) + " not accepted by the system is delivered");
         got[sp.id].push_back(id);
         ++delivered;
      }
      NOTE(s, "   listener " << sp.id << " gets message " << id);
      pointHere("onMessage");
      if(onCall) onCall(sp, msg, id);
      pointHere("onMessage");
      { std::lock_guard<std::mutex> g(mx); inCall--; }
      gate.poke();
   }
   Config config(int id) { std::lock_guard<std::mutex> g(mx); return conf[id].back(); }
   bool has(int spy, int id) { std::lock_guard<std::mutex> g(mx); return std::find(got[spy].begin(), got[spy].end(), id) != got[spy].end(); }
   size_t count(int spy) { std::lock_guard<std::mutex> g(mx); return got[spy].size(); }

   /// The delivery rules for the messages [from, to) that were certainly processed by the time d.
   void verify(int from, int to, uint64_t d) {
      std::lock_guard<std::mutex> g(mx);
      for(int l = 0; l < (int)got.size(); ++l) {
         std::map<int, int> times;
         for(int id: got[l]) times[id]++;
         for(int id = from; id < to; ++id) {
            const Sent& m = sent[id];
            int n = times.count(id) ? times[id] : 0;
            REQUIRE(s, n <= 1, "listener " << l << " received message " << id << " " << n << " times");
            bool must = m.accepted && !m.mayBe, reg = false, en = false, lv = false, cat = false;   // a system may look at the settings one after the other
            const auto& cs = conf[l];
            for(size_t k = 0; k < cs.size(); ++k) {
               if(cs[k].until < m.begin || cs[k].at > d) continue;
               reg = reg || (cs[k].registered && !cs[k].detached); en = en || cs[k].enabled; lv = lv || cs[k].level >= m.level; cat = cat || cs[k].passes(m);
               if(!cs[k].admits(m)) must = false;
            }
            bool may = reg && en && lv && cat;
            if(must) REQUIRE(s, n == 1, "listener " << l << " never received message " << id << " (level " << m.level << ", category " << pbt::show(m.cat) << ") it was entitled to");
            if(!may) REQUIRE(s, n == 0, "listener " << l << " received message " << id << " (level " << m.level << ", category " << pbt::show(m.cat) << ") it was not entitled to");
         }
      }
   }
   /// Every listener sees messages in the order they were logged, and all see them in the same order.
   void verifyOrder() {
      std::lock_guard<std::mutex> g(mx);
      std::map<int, size_t> pos;     // merged order must be acyclic: compare pairwise
      for(size_t l = 0; l < got.size(); ++l) {
         uint64_t maxBegin = 0; int who = -1;
         for(int id: got[l]) {
            REQUIRE(s, sent[id].end == 0 || maxBegin < sent[id].end, "listener " << l << " received message " << id << " after message " << who << ", which was logged later");
            if(sent[id].begin > maxBegin) { maxBegin = sent[id].begin; who = id; }
         }
      }
      for(size_t a = 0; a < got.size(); ++a) for(size_t b = a + 1; b < got.size(); ++b) {
         pos.clear();
         for(size_t i = 0; i < got[b].size(); ++i) pos[got[b][i]] = i;
         bool any = false; size_t last = 0; int lastId = 0;
         for(int id: got[a]) {
            auto it = pos.find(id);
            if(it == pos.end()) continue;
            REQUIRE(s, !any || it->second > last, "listeners " << a << " and " << b << " saw messages " << lastId << " and " << id << " in different orders");
            any = true; last = it->second; lastId = id;
         }
      }
   }
};
inline void Spy::onMessage(const LogSystem::Message& msg) { w.receive(*this, msg); }

inline LEVEL anyLevel(pbt::Src& s) { return (LEVEL)s.draw(6); }
#ifndef COOP
/// Many more messages than usual: all of them arrive, once and in order, whatever the length the queue reaches.
struct Counter: LogSystem::Listener {
   std::mutex m; std::condition_variable c; size_t next = 0, end; size_t producers; std::vector<size_t> nextOf; std::string bad; size_t slowAt = 0; std::atomic<bool>* open = nullptr;
   Counter(size_t n, size_t p): end(n), producers(p), nextOf(p, 0) {}
   void onMessage(const LogSystem::Message& x) override {
      if(open && next == slowAt) while(!*open) std::this_thread::yield();
      std::lock_guard<std::mutex> g(m);
      size_t p = (size_t)x.m_line % producers, i = (size_t)x.m_line / producers;
      if(bad.empty() && p < producers && i != nextOf[p]) bad = "instead of message " + std::to_string(nextOf[p]) + " of thread " + std::to_string(p) + ", message " + std::to_string(i) + " came";
      if(bad.empty() && x.m_message != "m" + std::to_string(x.m_line)) bad = "message " + std::to_string(x.m_line) + " became " + pbt::show(x.m_message);
      nextOf[p] = i + 1;
      if(++next >= end || !bad.empty()) c.notify_all();
   }
};
inline void flood(pbt::Src& s, bool diags) {
   static const size_t sizes[] = {255, 256, 257, 1000, 4096, 32768, 65535, 65536, 65537, 70000, 100000};
   size_t total = sizes[s.draw(11)], nt = s.pick({(size_t)1, (size_t)1, (size_t)3}), each = (total + nt - 1) / nt; total = each * nt;
   int how = (int)s.draw(3);      // 0: queued before the start, 1: queued while a listener takes its time, 2: as it comes
   NOTE(s, total << " messages by " << nt << " threads, " << (how == 0 ? "the service is started afterwards" : how == 1 ? "a listener holds the service up meanwhile" : "delivered meanwhile"));
   LogSystem sys(how != 0);
   std::atomic<bool> open{how != 1};
   auto a = std::make_shared<Counter>(total, nt), b = std::make_shared<Counter>(total, nt);
   if(how == 1) { a->open = &open; a->slowAt = s.draw(3); }
   sys.addListener(a); sys.addListener(b);
   std::vector<std::thread> th;
   for(size_t t = 0; t < nt; ++t) th.emplace_back([&, t] { for(size_t i = 0; i < each; ++i) { int id = (int)(i * nt + t); sys.log("f", id, LogSystem::INFO, "", "m" + std::to_string(id)); } });
   for(auto& t: th) t.join();
   open = true;
   if(how == 0) {
      LogSystem::Diags d; sys.getDiags(d);
      if(diags) REQUIRE(s, d.m_maxMsgQueueSize == total && d.m_msgReceived == 0 && d.m_poolSize == 0 && d.m_msgsCreated == total - LogSystem::MESSAGE_POOL_THRESHOLD && d.m_msgsDiscarded == 0,
         "with " << total << " messages queued: longest queue " << d.m_maxMsgQueueSize << ", received " << d.m_msgReceived << ", pool " << d.m_poolSize << ", created " << d.m_msgsCreated << ", discarded " << d.m_msgsDiscarded);
      sys.start();
   }
   for(auto& l: {a, b}) {
      std::unique_lock<std::mutex> g(l->m);
      l->c.wait_for(g, std::chrono::seconds(20), [&] { return l->next >= total || !l->bad.empty(); });
      REQUIRE(s, l->bad.empty(), l->bad);
      REQUIRE(s, l->next == total, l->next << " of " << total << " messages are delivered");
   }
   sys.stop();
   LogSystem::Diags d; sys.getDiags(d);
   if(diags) {
      REQUIRE(s, d.m_msgReceived == total, d.m_msgReceived << " messages reported as received, " << total << " were");
      REQUIRE(s, d.m_poolSize <= LogSystem::MESSAGE_POOL_THRESHOLD && LogSystem::MESSAGE_POOL_THRESHOLD + d.m_msgsCreated - d.m_msgsDiscarded == d.m_poolSize, "records are not conserved: pool " << d.m_poolSize << " created " << d.m_msgsCreated << " discarded " << d.m_msgsDiscarded);
      REQUIRE(s, d.m_maxMsgQueueSize <= total && d.m_maxMsgQueueSize > 0 && (how == 2 || d.m_maxMsgQueueSize + 4 >= total), "the longest queue is reported as " << d.m_maxMsgQueueSize << " of " << total << " messages");
   }
   REQUIRE(s, a->next == total && b->next == total, "messages are delivered more than once");
   s.nontrivial();
   if(total > 65535) s.label("more than 65535 messages");
}
/// Several systems side by side, whose messages are much alike: each is started, stopped and destroyed for itself, and its
/// listeners get its messages, one by one, however often the same is logged.
inline void several(pbt::Src& s) {
   struct Rec { std::string file, cat, text; int line; LEVEL level; bool operator==(const Rec& o) const { return file == o.file && cat == o.cat && text == o.text && line == o.line && level == o.level; } };
   struct L: LogSystem::Listener {
      std::mutex m; std::condition_variable c; std::vector<Rec> got;
      void onMessage(const LogSystem::Message& x) override { { std::lock_guard<std::mutex> g(m); got.push_back({x.m_file, x.m_category, x.m_message, x.m_line, x.m_level}); } c.notify_all(); }
      size_t count() { std::lock_guard<std::mutex> g(m); return got.size(); }
      std::vector<Rec> all() { std::lock_guard<std::mutex> g(m); return got; }
   };
   struct One { std::unique_ptr<LogSystem> sys; bool running; LEVEL level = LogSystem::TRACE; std::vector<std::shared_ptr<L>> ls; std::vector<std::vector<Rec>> want; std::vector<std::string> filter; std::vector<LEVEL> lv; size_t settled = 0; std::vector<size_t> still; };
   auto admits = [](const std::string& f, const std::string& cat) { return cat.empty() || f.empty() || (f == "a" ? cat == "a" : f == "ab|c" ? cat == "ab" || cat == "c" : cat != ""); };
   auto z = [](const char* t, size_t n) { return std::string(t, n); };
   std::vector<Rec> like;
   { size_t n = 1 + s.draw(4);
   for(size_t i = 0; i < n; ++i) {
      Rec r{s.pick({std::string("f"), std::string("dir/f"), z("f\0g", 3), std::string(""), z("\0", 1)}), s.pick({std::string(""), std::string("a"), std::string("c"), std::string("ab"), z("a\0b", 3), z("a\0", 2), z("\0", 1)}),
         s.coin(1, 3) ? s.text(12, 4) : s.pick({std::string(""), std::string("m"), z("m\0", 2), std::string("\n")}), s.pick({0, 1, -1, 2147483647, (int)s.draw(50)}), anyLevel(s)};
      if(i && s.coin()) { Rec o = like.back(); switch(s.draw(5)) { case 0: o.file = r.file; break; case 1: o.cat = r.cat; break; case 2: o.text = r.text; break; case 3: o.line = r.line; break; default: o.level = r.level; } r = o; }   // two that differ in one respect
      like.push_back(r);
      NOTE(s, "message " << i << ": file " << pbt::show(r.file) << " line " << r.line << " level " << r.level << " category " << pbt::show(r.cat) << " text " << pbt::show(r.text, 40));
   } }
   size_t ns = s.pick({(size_t)2, (size_t)2, (size_t)1, (size_t)3});
   std::vector<One> w(ns);
   bool again = false, idle = false; size_t marks = 0;
   for(size_t i = 0; i < ns; ++i) {
      w[i].running = s.coin(2, 3); w[i].sys = std::make_unique<LogSystem>(w[i].running);
      size_t nl = 1 + s.draw(2);
      for(size_t k = 0; k < nl; ++k) {
         auto l = std::make_shared<L>(); std::string f = s.pick({"", "", "a", "ab|c"}); LEVEL lv = s.coin() ? LogSystem::TRACE : anyLevel(s);
         NOTE(s, "system " << i << " (" << (w[i].running ? "running" : "not running") << ") has a listener of level " << lv << " and filter " << pbt::show(f));
         l->category(f); l->level(lv); w[i].sys->addListener(l);
         w[i].ls.push_back(l); w[i].want.emplace_back(); w[i].filter.push_back(f); w[i].lv.push_back(lv);
      }
   }
   auto post = [&](size_t i, const Rec& r) {
      w[i].sys->log(r.file, r.line, r.level, r.cat, r.text);
      if(r.level > w[i].level) return;
      for(size_t k = 0; k < w[i].ls.size(); ++k) if(r.level <= w[i].lv[k] && admits(w[i].filter[k], r.cat)) w[i].want[k].push_back(r);
   };
   auto compare = [&](size_t i, bool whole) {
      for(size_t k = 0; k < w[i].ls.size(); ++k) {
         auto got = w[i].ls[k]->all(); auto& want = w[i].want[k];
         REQUIRE(s, got.size() <= want.size(), "listener " << k << " of system " << i << " received " << got.size() << " messages of " << want.size());
         for(size_t j = 0; j < got.size(); ++j) REQUIRE(s, got[j] == want[j], "message " << j << " listener " << k << " of system " << i << " received is file " << pbt::show(got[j].file) << " line " << got[j].line << " level " << got[j].level << " category " << pbt::show(got[j].cat) << " text " << pbt::show(got[j].text)
            << " instead of " << pbt::show(want[j].file) << " " << want[j].line << " " << want[j].level << " " << pbt::show(want[j].cat) << " " << pbt::show(want[j].text));
         if(whole) REQUIRE(s, got.size() == want.size(), "listener " << k << " of system " << i << " received " << got.size() << " messages, " << want.size() << " were for it");
      }
   };
   auto drain = [&](size_t i) {
      One& o = w[i];
      if(!o.running) { NOTE(s, "start system " << i); o.sys->start(); o.running = true; }
      NOTE(s, "drain system " << i);
      post(i, {"mark", "", "mark " + std::to_string(++marks), 1, LogSystem::CRITICAL});
      for(size_t k = 0; k < o.ls.size(); ++k) {
         auto& l = *o.ls[k]; size_t n = o.want[k].size();
         std::unique_lock<std::mutex> g(l.m);
         bool ok = l.c.wait_for(g, std::chrono::seconds(20), [&] { return l.got.size() >= n; });
         REQUIRE(s, ok, "listener " << k << " of system " << i << " received " << l.got.size() << " messages, " << n << " were for it");
      }
      compare(i, true);
   };
   size_t n = 4 + s.draw(20);
   for(size_t step = 0; step < n; ++step) {
      size_t i = s.draw(ns); One& o = w[i];
      for(auto& x: w) if(!x.still.empty()) for(size_t k = 0; k < x.ls.size(); ++k) REQUIRE(s, x.ls[k]->count() == x.still[k], "a listener is called after its system was stopped");
      if(!o.sys) continue;
      switch(s.weighted({8, 3, 2, 2, 1, 1})) {
      case 0: {
         size_t which = s.draw(like.size()), times = s.coin() ? 1 + s.draw(4) : 1;
         NOTE(s, "system " << i << ": message " << which << (times > 1 ? " x " + std::to_string(times) : ""));
         for(size_t k = 0; k < times; ++k) post(i, like[which]);
         again = again || times > 1; idle = idle || !o.running;
         break; }
      case 1: drain(i); break;
      case 2: NOTE(s, "stop system " << i); o.sys->stop(); o.running = false; o.still.clear(); for(auto& l: o.ls) o.still.push_back(l->count()); compare(i, false); break;
      case 3: NOTE(s, "start system " << i); o.still.clear(); o.sys->start(); o.running = true; break;
      case 4: o.level = anyLevel(s); NOTE(s, "system " << i << " level " << o.level); o.sys->level(o.level); break;
      default: if(step < n / 2) break; NOTE(s, "destroy system " << i); o.sys.reset(); o.still.clear(); for(auto& l: o.ls) { o.still.push_back(l->count()); REQUIRE(s, l.use_count() == 1, "a listener outlives the system's reference"); } compare(i, false); break;
      }
      if(o.running) o.still.clear();
      if(!o.sys) { o.still.clear(); for(auto& l: o.ls) o.still.push_back(l->count()); }
   }
   for(size_t i = 0; i < ns; ++i) if(w[i].sys) drain(i);
   for(size_t i = 0; i < ns; ++i) if(w[i].sys) { NOTE(s, "destroy system " << i); w[i].sys.reset(); compare(i, true); for(size_t j = i + 1; j < ns; ++j) if(w[j].sys && s.coin(1, 3)) drain(j); }
   if(again) s.label("the same message again");
   if(ns > 1) s.label("several systems");
   if(again && ns > 1) s.nontrivial();
   if(idle) s.label("kept while not running");
}
#endif
#ifdef COOP
static const bool smallTexts = true;      // (a stream is written in pieces, each a scheduling point)
#else
static const bool smallTexts = false;
#endif
inline std::string anyText(pbt::Src& s) { return s.grown(s.text(s.coin(1, 4) ? 400 : 30, s.pick({1, 1, 3, 4}))); }
inline int anyLine(pbt::Src& s) { return s.coin(1, 4) ? (int)(int32_t)s.i64() : (int)s.draw(100); }
}
#endif

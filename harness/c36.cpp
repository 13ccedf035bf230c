// C36: a proxy listener hands on exactly what it admits.
#include "pbt.hpp"
#include "rx.hpp"
#include <falcon/logproxy.h>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
using falcon::LogSystem; using falcon::LogProxyListener;
using LEVEL = LogSystem::LEVEL;

namespace {
std::string show(const std::vector<int>& v) { std::string r = "["; for(int x: v) r += (r.size() > 1 ? " " : "") + std::to_string(x); return r + "]"; }
struct Got { std::string file, cat, text; int line; LEVEL level; };
struct Recorder: LogSystem::Listener {
   std::mutex m; std::vector<Got> got; std::atomic<int>* alive;
   explicit Recorder(std::atomic<int>* a): alive(a) { ++*alive; }
   ~Recorder() { --*alive; }
   void onMessage(const LogSystem::Message& x) override {
      std::lock_guard<std::mutex> g(m);
      got.push_back({x.m_file, x.m_category, x.m_message, x.m_line, x.m_level});
   }
};
struct Mark: LogSystem::Listener {
   std::mutex m; std::condition_variable c; int seen = 0;
   void onMessage(const LogSystem::Message& x) override { if(x.m_file != "mark") return; std::lock_guard<std::mutex> g(m); ++seen; c.notify_all(); }
};
struct State {
   LEVEL level = LogSystem::TRACE; rx::P filter; bool enabled = true, detached = false; std::set<int> registered;
   bool admits(int system, LEVEL l, const std::string& cat) const { return registered.count(system) && enabled && !detached && l <= level && (cat.empty() || !filter || rx::match(filter, cat)); }
};

void history(pbt::Src& s) {
   std::atomic<int> alive{0};
   size_t nt = 1 + s.draw(2), np = 1 + s.draw(4), ns = s.coin(1, 3) ? 2 : 1;
   NOTE(s, nt << " listeners, " << np << " proxies, " << ns << " systems");
   std::vector<std::weak_ptr<Recorder>> weak; std::vector<std::shared_ptr<Recorder>> rec;
   std::vector<std::shared_ptr<LogSystem::Listener>> node;   // listeners, then proxies
   std::vector<size_t> end;                                  // the listener a proxy finally reaches
   std::vector<State> st(nt + np); std::set<size_t> behind;
   std::vector<std::vector<std::pair<int, int>>> want(nt);   // (system, message)
   for(size_t i = 0; i < nt; ++i) { rec.push_back(std::make_shared<Recorder>(&alive)); weak.push_back(rec[i]); node.push_back(rec[i]); end.push_back(i); }
   bool chain = false, filtered = false, gone = false, differs = false;
   for(size_t i = 0; i < np; ++i) {
      size_t t = s.draw(nt + (s.coin(1, 3) ? i : 0));
      if(t >= nt) chain = true;
      behind.insert(t);
      node.push_back(std::make_shared<LogProxyListener>(node[t])); end.push_back(end[t]);
      NOTE(s, "proxy " << nt + i << " of " << t);
   }
   std::vector<std::unique_ptr<LogSystem>> sys; std::vector<std::shared_ptr<Mark>> mark; std::vector<bool> running; std::vector<int> marks(ns, 0);
   struct Sent { std::string file, cat, text; int line; LEVEL level; };
   std::vector<std::vector<Sent>> sent(ns);
   for(size_t k = 0; k < ns; ++k) { running.push_back(s.coin()); sys.push_back(std::make_unique<LogSystem>(running[k])); mark.push_back(std::make_shared<Mark>()); }
   auto settle = [&](size_t k) {
      if(!running[k]) { sys[k]->start(); running[k] = true; }
      sys[k]->log("mark", 0, LogSystem::CRITICAL, "", ""); ++marks[k];
      std::unique_lock<std::mutex> g(mark[k]->m);
      if(!mark[k]->c.wait_for(g, std::chrono::seconds(20), [&] { return mark[k]->seen == marks[k]; })) s.fail("messages are not delivered");
   };
   // (messages are told apart by their line)
   auto verify = [&]() {
      for(size_t k = 0; k < ns; ++k) {
         settle(k);
         sys[k]->stop(); running[k] = false;
      }
      for(size_t i = 0; i < nt; ++i) {
         auto r = weak[i].lock();
         if(!r) continue;
         std::vector<std::vector<int>> w(ns), g(ns);
         for(auto& p: want[i]) w[(size_t)p.first].push_back(p.second);
         for(auto& x: r->got) {
            if(x.file == "mark") continue;
            size_t k = (size_t)(x.line & 1), no = (size_t)(x.line >> 1);
            REQUIRE(s, x.line >= 0 && k < ns && no < sent[k].size(), "listener " << i << " got a message nobody sent: line " << x.line << " " << pbt::show(x.text));
            const Sent& m = sent[k][no];
            REQUIRE(s, m.file == x.file && m.cat == x.cat && m.text == x.text && m.level == x.level, "message " << no << " changed on its way to listener " << i << ": " << pbt::show(x.file) << " level " << x.level << " " << pbt::show(x.cat) << " " << pbt::show(x.text));
            g[k].push_back((int)no);
         }
         for(size_t k = 0; k < ns; ++k) REQUIRE(s, g[k] == w[k], "listener " << i << " received the messages " << show(g[k]) << " of system " << k << " instead of " << show(w[k]));
      }
   };
   size_t n = 4 + s.draw(26), logged = 0, handed = 0;
   for(size_t k = 0; k < ns; ++k) sys[k]->addListener(mark[k]);
   for(size_t step = 0; step < n; ++step) {
      size_t i = s.draw(nt + np), k = s.draw(ns);
      bool own = node[i] != nullptr;
      switch(s.weighted({9, 3, 2, 3, 1, 1, 1, 1})) {
      case 0: {
         Sent m; m.level = (LEVEL)s.draw(6); m.line = (int)(sent[k].size() * 2 + k);
         rx::P f = st[i].filter;
         if(s.coin(2, 3)) { m.cat = f ? rx::sample(s, f) : s.pick({"a", "A:b", "abc"}); if(s.coin(1, 4)) m.cat = rx::mutate(s, m.cat); }
         m.file = s.text(12, 1); if(m.file == "mark") m.file = "mar"; m.text = s.grown(s.text(20, 1), 300);
         NOTE(s, "system " << k << " logs message " << sent[k].size() << " level " << m.level << " category " << pbt::show(m.cat));
         for(size_t j = 0; j < nt + np; ++j) if(st[j].admits((int)k, m.level, m.cat)) {
            want[end[j]].push_back({(int)k, (int)sent[k].size()});
            if(j >= nt) { ++handed; if(!st[end[j]].admits((int)k, m.level, m.cat)) differs = true; }
         }
         sent[k].push_back(m); ++logged;
         sys[k]->log(m.file, m.line, m.level, m.cat, m.text);
         break; }
      case 1: if(!own || st[i].registered.count((int)k)) break;
         if(i < nt && s.coin()) break;
         NOTE(s, "add " << i << " to system " << k);
         settle(k); st[i].registered.insert((int)k); sys[k]->addListener(node[i]); break;
      case 2: { if(!own) break; LEVEL l = (LEVEL)s.draw(6); NOTE(s, "level " << l << " for " << i); for(size_t q = 0; q < ns; ++q) settle(q); st[i].level = l; node[i]->level(l); REQUIRE(s, node[i]->level() == l, "the level reads back wrong"); break; }
      case 3: { if(!own) break; rx::P f = s.coin(1, 4) ? nullptr : rx::top(s, 2); std::string t = f ? rx::str(f) : ""; if(t.empty()) f = nullptr;
         NOTE(s, "filter " << pbt::show(t) << " for " << i); for(size_t q = 0; q < ns; ++q) settle(q); st[i].filter = f; filtered = true; node[i]->category(t); REQUIRE(s, node[i]->category() == t, "the filter reads back wrong"); break; }
      case 4: { if(!own || behind.count(i)) break; bool on = s.coin(); NOTE(s, (on ? "enable " : "disable ") << i); for(size_t q = 0; q < ns; ++q) settle(q); st[i].enabled = on; node[i]->enable(on); break; }
      case 5: if(!own || behind.count(i)) break;
         if(st[i].detached) break;
         NOTE(s, "detach " << i); for(size_t q = 0; q < ns; ++q) settle(q); st[i].detached = true; node[i]->detach(); break;
      case 6: if(!own) break;
         NOTE(s, "drop our reference to " << i); node[i].reset(); if(i < nt) { rec[i].reset(); gone = true; } break;
      default: NOTE(s, "check"); verify(); break;
      }
   }
   verify();
   // The listeners behind proxies live as long as the proxies do.
   for(size_t i = 0; i < nt; ++i) {
      bool held = false;
      for(size_t j = 0; j < nt + np; ++j) if(end[j] == i && (node[j] || (!st[j].registered.empty() && !st[j].detached))) held = true;
      if(held) REQUIRE(s, !weak[i].expired(), "listener " << i << " is dead while a proxy of it lives");
   }
   NOTE(s, "destroy");
   for(auto& y: sys) y.reset();
   for(size_t i = 0; i < nt; ++i) {
      bool held = false;
      for(size_t j = 0; j < nt + np; ++j) if(end[j] == i && node[j]) held = true;
      if(held) REQUIRE(s, !weak[i].expired(), "listener " << i << " is dead while a proxy of it lives");
   }
   node.clear(); rec.clear();
   REQUIRE(s, alive == 0, alive << " listeners outlive their proxies and systems");
   if(handed && differs) s.nontrivial();
   if(chain) s.label("proxy of a proxy");
   if(filtered) s.label("filtered");
   if(gone) s.label("listener held by proxies only");
   if(ns > 1) s.label("two systems");
}
}
PBT_ARM(proxies, 9000, 250000, true) { history(s); }
int main(int argc, char** argv) { return pbt::run(argc, argv, "C36"); }

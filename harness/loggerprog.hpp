// Random logging programs over the Logger: statements, blocks, nested ones, several threads, categories and levels.
#ifndef VERIF_LOGGERPROG_HPP
#define VERIF_LOGGERPROG_HPP
#include "coop.hpp"
#include <falcon/logger.h>
#include <iomanip>
#include <iostream>
#include <set>

namespace lp {
using falcon::LogSystem;
using falcon::Logger;
using LEVEL = LogSystem::LEVEL;

struct Got { std::string file; int line; int level; std::string cat, text; };
struct Catcher: LogSystem::Listener {
   std::mutex mx; std::condition_variable cv; std::vector<Got> got; int drains = 0;
   void onMessage(const LogSystem::Message& m) override {
      std::lock_guard<std::mutex> g(mx);
      if(m.m_file == "*drain*") { ++drains; cv.notify_all(); return; }
      got.push_back({m.m_file, m.m_line, (int)m.m_level, m.m_category, m.m_message});
   }
   void drain() {
      int want = drains + 1;
      LOGGER.log("*drain*", 0, LogSystem::CRITICAL, "", "");
      std::unique_lock<std::mutex> g(mx);
      if(!cv.wait_for(g, std::chrono::seconds(15), [&] { return drains >= want; })) pbt::failNow("messages are not delivered");
   }
};
struct Want { std::string file; int line; int level; std::string cat, text; bool optional; int thread; bool isPrefix; };

struct Prog;
inline thread_local bool t_dry = false;
inline thread_local int t_depth = 0;

struct Thrown { int tag; };
struct Val {
   enum K { INT, UINT, STR, DBL, BOOL, CHR, PTR, HEX, OCT, SHOWBASE, UPPER, SETW, SETFILL, PREC, FIXED, SCI, BALPHA, LEFT, SHOWPOS, BAD, SWITCH, NEST, THROW } k;
   int64_t i = 0; double d = 0; std::string t; Prog* p = nullptr; int nest = -1;
};
struct Stmt {
   enum K { LINE, CHAIN, DIRECT, BLOCK, STATIC, MANUAL } k;
   int lvl; bool viaShortcut = true; std::vector<Val> vals; int tempCatAt = -1; std::string tempCat; std::string file; int line = 0;
   int leave = 0;      // blocks: 0 whole, 1 break, 2 continue, 3 exception, 4 goto out (return from a function)
   size_t leaveAt = 0; int site = 0;
};

struct Prog {
   pbt::Src& s;
   std::shared_ptr<Catcher> c = std::make_shared<Catcher>();
   std::vector<Want> want;
   std::vector<Stmt> nested;          // bodies of nested statements
   std::map<int, std::string> threadCat;
   int level = LogSystem::TRACE;
   int minLevel = LogSystem::TRACE;   // compile-time
   int open = 0;                      // statements in progress, all threads
   size_t renders = 0;
   int maxDepth = 2;
   size_t nNested = 0, nManip = 0, nDisabled = 0, nSwitch = 0, nLeft = 0, nTemp = 0, nThreads = 1, nKept = 0, nExcised = 0;
   bool fancyCats;
   explicit Prog(pbt::Src& ss, bool cats): s(ss), fancyCats(cats) {}
   int self() { return coop::Sched::self() < 0 ? 0 : coop::Sched::self(); }
   bool enabled(int lvl) { return lvl <= level && lvl <= minLevel; }

   Val val(int depth) {
      Val v; v.p = this;
      v.k = (Val::K)s.weighted({6, 2, 6, 3, 2, 2, 1, 2, 1, 1, 1, 2, 1, 1, 1, 1, 1, 1, 1, 1, 3, depth < maxDepth ? (maxDepth > 2 ? 25u : 2u) : 0u, 0});
      switch(v.k) {
      case Val::INT: case Val::UINT: case Val::PTR: v.i = s.i64(); break;
      case Val::STR: v.t = s.grown(s.text(s.coin(1, 10) ? 300 : 10, s.pick({0, 1, 3, 4})), 70000, 1, 100); break;
      case Val::DBL: v.d = s.pick({0.0, 1.5, -2.25, 3.14159265358979, 1e30, -1e-9}); break;
      case Val::BOOL: v.i = s.draw(2); break;
      case Val::CHR: v.i = s.coin(1, 6) ? s.pick({0, 10, 13, 9, 255, 32}) : 'a' + (int)s.draw(26); break;
      case Val::SETW: v.i = (int64_t)s.draw(12); break;
      case Val::SETFILL: v.i = "*0_ "[s.draw(4)]; break;
      case Val::PREC: v.i = (int64_t)s.draw(12); break;
      case Val::NEST: { Stmt st = stmt(depth + 1); v.nest = (int)nested.size(); nested.push_back(st); break; }
      default: break;
      }
      return v;
   }
   Stmt stmt(int depth) {
      Stmt st;
      st.k = (Stmt::K)s.weighted({4, 3, 2, 4, 2, depth ? 0u : 2u});   // composing by hand inside another message's composition would add to it
      st.lvl = (int)s.draw(6);
      st.viaShortcut = s.coin();
      size_t n = s.draw(5);
      for(size_t i = 0; i < n; ++i) st.vals.push_back(val(depth));
      if(s.coin(1, fancyCats ? 2 : 5)) { st.tempCatAt = 0; st.tempCat = s.grown("temp" + std::string(1, (char)('a' + s.draw(4))), 2000); if(s.coin(1, 6)) st.tempCat += s.text(6, 4); }
      st.file = s.grown(s.text(12, s.pick({1, 1, 4})), 2000); st.line = (int)(int32_t)s.i64();
      if(st.k == Stmt::BLOCK) { st.leave = (int)s.weighted({6, 1, 1, 1, 1}); st.leaveAt = s.draw(n + 1); }
      if(st.k != Stmt::BLOCK && st.k != Stmt::MANUAL && s.coin(1, 12) && n) { Val v; v.p = this; v.k = Val::THROW; st.vals.insert(st.vals.begin() + (long)s.draw(n + 1), v); }
      st.site = (int)s.draw(12);
      return st;
   }
   std::string render(const std::vector<Val>& vs, bool& threw);
   void run(Stmt st);
   void check(bool texts, bool cats);
};
inline std::ostream& operator<<(std::ostream& o, const Val& v) {
   if(!t_dry) v.p->renders++;
   switch(v.k) {
   case Val::INT: return o << v.i;
   case Val::UINT: return o << (unsigned)v.i;
   case Val::STR: return o << v.t;
   case Val::DBL: return o << v.d;
   case Val::BOOL: return o << (v.i != 0);
   case Val::CHR: return o << (char)v.i;
   case Val::PTR: return o << (const void*)v.i;
   case Val::HEX: return o << std::hex;
   case Val::OCT: return o << std::oct;
   case Val::SHOWBASE: return o << std::showbase;
   case Val::UPPER: return o << std::uppercase;
   case Val::SETW: return o << std::setw((int)v.i);
   case Val::SETFILL: return o << std::setfill((char)v.i);
   case Val::PREC: return o << std::setprecision((int)v.i);
   case Val::FIXED: return o << std::fixed;
   case Val::SCI: return o << std::scientific;
   case Val::BALPHA: return o << std::boolalpha;
   case Val::LEFT: return o << std::left;
   case Val::SHOWPOS: return o << std::showpos;
   case Val::BAD: o.setstate(std::ios_base::failbit); return o;
   case Val::SWITCH: if(!t_dry) { v.p->nSwitch++; coop::point("value"); } return o << "^";
   case Val::NEST: if(!t_dry) { v.p->nNested++; v.p->run(v.p->nested[(size_t)v.nest]); } return o << "[n]";
   case Val::THROW: throw Thrown{0};
   }
   return o;
}
/// What a fresh standard stream makes of the values.
inline std::string Prog::render(const std::vector<Val>& vs, bool& threw) {
   bool was = t_dry; t_dry = true; threw = false;
   std::ostringstream o;
   try { for(auto& v: vs) o << v; } catch(const Thrown&) { threw = true; }
   t_dry = was;
   return o.str();
}
// one chain of insertions, used on a statement and on a fresh stream alike
#define LP_SITE(N, CHAIN) case N: if(dry) { fresh << CHAIN; text = fresh.str(); } else { LOG(lv) << CHAIN; } line = __LINE__; break;
inline int staticSite(int n, LEVEL lv, bool dry, std::string& text) {
   std::ostringstream fresh; int line = 0; const char* cs = "c string"; char arr[] = "array"; std::string str = "string";
   switch(n) {
   LP_SITE(0, "text")
   LP_SITE(1, std::hex << 255 << ' ' << std::showbase << 255)
   LP_SITE(2, std::setw(9) << 5 << std::setfill('#') << std::setw(6) << "x")
   LP_SITE(3, std::boolalpha << true << false)
   LP_SITE(4, cs << arr << str << 'c' << (unsigned char)'d' << (short)-3)
   LP_SITE(5, std::fixed << std::setprecision(3) << 2.5 << std::scientific << 1234.5f)
   LP_SITE(6, 1ull << -1l << 3.25L << (void*)0x1234)
   LP_SITE(7, std::uppercase << std::hex << 0xabcdef << std::left << std::setw(5) << 7 << "|")
   LP_SITE(8, std::string(100, 'z') << std::oct << 8 << std::showpos << std::dec << 8)
   LP_SITE(9, std::internal << std::setw(8) << std::setfill('0') << -42)
   LP_SITE(10, "")
   default: if(dry) text = ""; else { LOG(lv); } line = __LINE__; break;
   }
   return line;
}
inline void Prog::run(Stmt st) {
   int me = self();
   bool on = st.k == Stmt::MANUAL ? st.lvl <= level : enabled(st.lvl);    // composing by hand is not subject to the compile-time level
   if(st.k != Stmt::MANUAL && st.lvl <= level) { if(on) ++nKept; else ++nExcised; }
   LEVEL lv = (LEVEL)st.lvl;
   bool threw = false;
   std::string text;
   Want w; w.level = st.lvl; w.optional = false; w.thread = me; w.isPrefix = false; w.file = __FILE__;
   std::string catNow = threadCat[me];
   size_t before = renders; (void)before;
   if(!on) ++nDisabled;
   bool outer = t_depth == 0; (void)outer;
   ++t_depth; ++open;
   int line = 0;
   bool usedTemp = false;
   bool rendered = false;
   struct Mark { size_t& r; size_t at; } mark{renders, renders};
   size_t sw0 = nSwitch;
   try {
      switch(st.k) {
      case Stmt::LINE: { // macros with a dynamic number of values in one rendered bundle, or up to three direct ones
         text = render(st.vals, threw);
         NOTE(s, "thread " << me << " statement level " << st.lvl << (on ? "" : " (disabled)") << (st.tempCatAt == 0 ? " with temporary category " + st.tempCat : "") << ": " << pbt::show(text, 60) << (threw ? " then throws" : ""));
         struct Bundle { std::vector<Val>& v; } b{st.vals};
         struct R { static void put(std::ostream& o, const std::vector<Val>& v) { for(auto& x: v) o << x; } };
         auto ins = [&](auto&& a) { for(auto& x: st.vals) a << x; };
         (void)b;
         if(st.tempCatAt == 0) {
            usedTemp = true;
            switch(st.viaShortcut ? st.lvl : 9) {
            case 0: line = __LINE__; ins(LOG_CRIT << LOG_CAT(st.tempCat)); break;
            case 1: line = __LINE__; ins(LOG_ERR << LOG_CAT(st.tempCat)); break;
            case 2: line = __LINE__; ins(LOG_WARN << LOG_CAT(st.tempCat)); break;
            case 3: line = __LINE__; ins(LOG_INFO << LOG_CAT(st.tempCat)); break;
            case 4: line = __LINE__; ins(LOG_DBG << LOG_CAT(st.tempCat)); break;
            case 5: line = __LINE__; ins(LOG_TRC << LOG_CAT(st.tempCat)); break;
            default: line = __LINE__ + 1;
               ins(LOG(lv) << LOG_CAT(st.tempCat)); break;
            }
         } else switch(st.viaShortcut ? st.lvl : 9) {
            case 0: line = __LINE__; ins(LOG_CRIT); break;
            case 1: line = __LINE__; ins(LOG_ERR); break;
            case 2: line = __LINE__; ins(LOG_WARN); break;
            case 3: line = __LINE__; ins(LOG_INFO); break;
            case 4: line = __LINE__; ins(LOG_DBG); break;
            case 5: line = __LINE__; ins(LOG_TRC); break;
            default: line = __LINE__ + 1;
               ins(LOG(st.site % 2 ? (LEVEL)st.lvl : lv)); break;
         }
         break; }
      case Stmt::CHAIN: { // a chain of exactly three insertions in one expression
         std::vector<Val> v = st.vals; Val e; e.p = this; e.k = Val::STR; e.t = ".";
         while(v.size() < 3) v.push_back(e);
         v.resize(3);
         text = render(v, threw);
         NOTE(s, "thread " << me << " chain level " << st.lvl << (on ? "" : " (disabled)") << ": " << pbt::show(text, 60) << (threw ? " then throws" : ""));
         line = __LINE__ + 1;
         LOG(lv) << v[0] << v[1] << v[2];
         break; }
      case Stmt::DIRECT: { // the documented class behind the macros, with a generated position
         text = render(st.vals, threw);
         w.file = st.file; line = st.line;
         NOTE(s, "thread " << me << " statement at " << pbt::show(st.file) << ":" << st.line << " level " << st.lvl << (on ? "" : " (disabled)") << ": " << pbt::show(text, 60) << (threw ? " then throws" : ""));
         { Logger::AutoEnd a(LOGGER, st.file, st.line, lv); for(auto& x: st.vals) a << x; }
         break; }
      case Stmt::MANUAL: { // the accessors behind the macros
         text = render(st.vals, threw);
         w.file = st.file; line = st.line;
         NOTE(s, "thread " << me << " composing by hand at " << pbt::show(st.file) << ":" << st.line << " level " << st.lvl << (on ? "" : " (disabled)") << (st.tempCatAt == 0 ? " with temporary category " + st.tempCat : "") << ": " << pbt::show(text, 60));
         Logger& l = LOGGER;
         if(st.site % 3 == 0) for(auto& x: st.vals) l << x;
         l.setFile(st.file); l.setLine(st.line); l.setLevel(lv);
         if(st.tempCatAt == 0) { usedTemp = true; l.setTempCategory(st.tempCat); }
         if(st.site % 3) for(auto& x: st.vals) l << x;
         l.commit();
         break; }
      case Stmt::STATIC: {
         line = staticSite(st.site, lv, true, text);
         NOTE(s, "thread " << me << " fixed statement " << st.site << " level " << st.lvl << (on ? "" : " (disabled)"));
         std::string dummy;
         staticSite(st.site, lv, false, dummy);
         break; }
      case Stmt::BLOCK: {
         std::vector<Val> v = st.vals;
         size_t cut = st.leave ? std::min(st.leaveAt, v.size()) : v.size();
         v.resize(cut);
         text = render(v, threw);
         NOTE(s, "thread " << me << " block level " << st.lvl << (on ? "" : " (disabled)") << (st.tempCatAt == 0 ? " with temporary category " + st.tempCat : "") << ": " << pbt::show(text, 60)
            << (st.leave == 1 ? " left by break" : st.leave == 2 ? " left by continue" : st.leave == 3 ? " left by exception" : st.leave == 4 ? " left by return" : ""));
         int bodies = 0;
         auto body = [&]() { ++bodies; if(st.tempCatAt == 0) LOGGER.setTempCategory(st.tempCat); for(auto& x: v) LOGGER << x; };
         if(st.tempCatAt == 0) usedTemp = true;
         auto block = [&]() {
            switch(st.viaShortcut ? st.lvl : 9) {
            case 0: line = __LINE__; LOG_BLOCK_CRIT { body(); if(st.leave == 1) break; if(st.leave == 2) continue; if(st.leave == 3) throw Thrown{1}; if(st.leave == 4) return; } break;
            case 1: line = __LINE__; LOG_BLOCK_ERR { body(); if(st.leave == 1) break; if(st.leave == 2) continue; if(st.leave == 3) throw Thrown{1}; if(st.leave == 4) return; } break;
            case 2: line = __LINE__; LOG_BLOCK_WARN { body(); if(st.leave == 1) break; if(st.leave == 2) continue; if(st.leave == 3) throw Thrown{1}; if(st.leave == 4) return; } break;
            case 3: line = __LINE__; LOG_BLOCK_INFO { body(); if(st.leave == 1) break; if(st.leave == 2) continue; if(st.leave == 3) throw Thrown{1}; if(st.leave == 4) return; } break;
            case 4: line = __LINE__; LOG_BLOCK_DBG { body(); if(st.leave == 1) break; if(st.leave == 2) continue; if(st.leave == 3) throw Thrown{1}; if(st.leave == 4) return; } break;
            case 5: line = __LINE__; LOG_BLOCK_TRC { body(); if(st.leave == 1) break; if(st.leave == 2) continue; if(st.leave == 3) throw Thrown{1}; if(st.leave == 4) return; } break;
            default: line = __LINE__ + 1;
               LOG_BLOCK(st.site % 2 ? (LEVEL)st.lvl : lv) { body(); if(st.leave == 1) break; if(st.leave == 2) continue; if(st.leave == 3) throw Thrown{1}; if(st.leave == 4) return; } break;
            }
         };
         try { block(); } catch(const Thrown&) { if(st.leave != 3) throw; }
         if(st.leave == 1 || st.leave == 3 || st.leave == 4) { w.optional = true; if(on) ++nLeft; }
         REQUIRE(s, bodies == (on ? 1 : 0), (on ? "an enabled" : "a disabled") << " block's body ran " << bodies << " times");
         break; }
      }
   } catch(const Thrown&) { rendered = true; }
   if(threw) { w.optional = true; ++nLeft; }
   --t_depth; --open;
   // nobody else can have rendered anything meanwhile unless this statement let others run
   if(!on && st.k != Stmt::STATIC && st.k != Stmt::MANUAL && nSwitch == sw0) REQUIRE(s, mark.r == mark.at, "a disabled statement renders its values");
   for(auto& v: st.vals) if(v.k != Val::INT && v.k != Val::STR) ++nManip;
   if(on) {
      w.line = line; w.text = text; w.cat = usedTemp ? st.tempCat : threadCat[me];
      if(usedTemp) ++nTemp;
      if(threw) w.isPrefix = false;
      want.push_back(w);
   }
   (void)catNow; (void)rendered;
}
inline void Prog::check(bool texts, bool cats) {
   c->drain();
   std::vector<Got> got;
   { std::lock_guard<std::mutex> g(c->mx); got = c->got; }
   // a statement left early gives its message, or none: look for any way to tell which did
   auto same = [&](size_t i, const Want& w, bool cat) {
      return i < got.size() && got[i].file == w.file && got[i].line == w.line && got[i].level == w.level && got[i].text == w.text && (!cat || got[i].cat == w.cat);
   };
   size_t badK = 0, badI = 0;
   auto aligned = [&](bool cat) {
      std::set<size_t> at{0};
      for(size_t k = 0; k < want.size(); ++k) {
         std::set<size_t> to;
         for(size_t i: at) {
            if(same(i, want[k], cat)) to.insert(i + 1);
            if(want[k].optional) to.insert(i);
         }
         if(to.empty()) { badK = k; badI = *at.rbegin(); return false; }
         at = to;
      }
      badK = want.size(); badI = *at.rbegin();
      return badI == got.size();
   };
   if(!aligned(false)) {
      if(!texts) s.discard();     // not this property's matter
      REQUIRE(s, badK == want.size(), "message " << badK << " should be " << pbt::show(want[badK].file) << ":" << want[badK].line << " level " << want[badK].level << " " << pbt::show(want[badK].text)
         << (badI < got.size() ? " but " + pbt::show(got[badI].file) + ":" + std::to_string(got[badI].line) + " level " + std::to_string(got[badI].level) + " " + pbt::show(got[badI].text) + " came" : std::string(" but is missing")));
      REQUIRE(s, false, "a message too many: " << pbt::show(got[badI].file) << ":" << got[badI].line << " " << pbt::show(got[badI].text));
   }
   if(cats && !aligned(true)) {
      if(badK >= want.size() || badI >= got.size()) REQUIRE(s, false, "the messages of statements left early carry the wrong category");
      const Want& w = want[badK];
      REQUIRE(s, false, "message " << badK << " of thread " << w.thread << " (" << pbt::show(w.text, 60) << ") carries category " << pbt::show(got[badI].cat) << " instead of " << pbt::show(w.cat));
   }
}

enum Focus { TEXTS, CATS, MINLEVEL };
inline void program(pbt::Src& s, Focus f, int minLevel = LogSystem::TRACE) {
   bool cats = f != TEXTS;
   Prog p(s, cats);
   p.minLevel = minLevel;
   if(s.coin(1, 20)) p.maxDepth = 6;
   LOGGER.addListener(p.c);
   LOGGER.level(LogSystem::TRACE);
   {
      coop::Sched sc(s, 100000);
      size_t nt = 1 + s.draw(3);
      p.nThreads = nt;
      auto body = [&](size_t steps) {
         for(size_t k = 0; k < steps; ++k) {
            switch(s.weighted({8, 2, cats ? 4u : 1u, 1, 1})) {
            case 0: p.run(p.stmt(0)); break;
            case 1: // the level changes between statements only
               if(p.open == 0) { p.level = (int)s.draw(6); NOTE(s, "level " << p.level); LOGGER.level((LEVEL)p.level); }
               break;
            case 2: {
               std::string cat = s.draw(5) == 4 ? "" : "cat" + std::string(1, (char)('A' + s.draw(5))) + (s.coin(1, 6) ? s.text(6, 4) : "");
               NOTE(s, "thread " << p.self() << " category " << pbt::show(cat));
               if(s.coin()) LOG_CATEGORY(cat); else LOGGER.setCategory(cat);
               p.threadCat[p.self()] = cat;
               REQUIRE(s, LOGGER.getCategory() == cat, "the thread's category reads back as " << pbt::show(LOGGER.getCategory()));
               break; }
            case 3: coop::point("between statements"); break;
            default: REQUIRE(s, LOGGER.getCategory() == p.threadCat[p.self()], "the thread's category reads back as " << pbt::show(LOGGER.getCategory())); break;
            }
         }
      };
      std::vector<int> ids; std::vector<size_t> steps;
      for(size_t t = 0; t < nt; ++t) steps.push_back(2 + s.draw(9));
      for(size_t t = 0; t + 1 < nt; ++t) ids.push_back(sc.spawn([&, t] { try { body(steps[t]); } catch(const pbt::Failure& f) { pbt::failNow(f.msg); } }));
      body(steps[nt - 1]);
      for(int i: ids) sc.join(i);
   }
   p.check(f != CATS, cats);
   if(f == MINLEVEL) { if((p.nKept || minLevel < 0) && (p.nExcised || minLevel == LogSystem::TRACE)) s.nontrivial(); }
   else if(cats ? (p.nTemp && p.nThreads > 1) : (p.nManip > 2 && (p.nNested || p.nThreads > 1))) s.nontrivial();
   if(p.nNested) s.label("nested");
   if(p.nDisabled) s.label("disabled");
   if(p.nLeft) s.label("left early");
   if(p.nSwitch && p.nThreads > 1) s.label("switched inside a statement");
   if(p.nTemp) s.label("temporary category");
   if(p.nThreads > 1) s.label("threads");
}
}
#endif

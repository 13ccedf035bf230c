// C22: log output can be redirected at any time without loss or misuse.
#include "logsys.hpp"
#ifndef COOP
#include <falcon/logstream.h>
#endif
#include <iostream>
#include <sstream>
using falcon::LogStreamListener;
using falcon::LogSystem;

struct Book { std::string text; int destroyed = 0; bool created = false; };
/// A stream whose text and fate are recorded outside of it; writing is done in pieces, so that others may come between.
class RecBuf: public std::streambuf {
   Book& b;
public:
   explicit RecBuf(Book& bb): b(bb) {}
   int overflow(int c) override { if(c != EOF) { put((char)c); } return c == EOF ? 0 : c; }
   std::streamsize xsputn(const char* p, std::streamsize n) override { for(std::streamsize i = 0; i < n; ++i) { if(i % 16 == 0) lw::pointHere("stream write"); put(p[i]); } return n; }
   int sync() override { lw::pointHere("stream flush"); return 0; }
   void put(char c) { if(b.destroyed) pbt::failNow("a destroyed stream is written to"); b.text += c; }
};
class RecStream: public std::ostream {
   RecBuf m_buf; Book& b;
public:
   explicit RecStream(Book& bb): std::ostream(nullptr), m_buf(bb), b(bb) { rdbuf(&m_buf); b.created = true; }
   ~RecStream() override { b.destroyed++; }
};
enum Kind { BORROWED, SHARED, OWNED };
struct Target { Kind kind; Book book; std::unique_ptr<RecStream> mine; std::shared_ptr<RecStream> shared; bool keepRef; };

static std::string lineOf(const std::string& id) { return "] f:1 " + id + "\n"; }

struct Streams {
   pbt::Src& s;
   std::vector<std::unique_ptr<Target>> all;
   int cur = -1;
   std::unique_ptr<LogStreamListener> l;
   explicit Streams(pbt::Src& ss): s(ss), l(new LogStreamListener) {}
   int make(Kind k) { all.emplace_back(new Target); Target& t = *all.back(); t.kind = k; t.keepRef = s.coin(); if(k == BORROWED) t.mine.reset(new RecStream(t.book)); return (int)all.size() - 1; }
   /// Redirects the listener to a new or a known stream.
   void redirect(LogStreamListener& lst, int i) {
      Target& t = *all[(size_t)i];
      NOTE(s, "redirect to " << (t.kind == BORROWED ? "borrowed" : t.kind == SHARED ? "shared" : "owned") << " stream " << i);
      switch(t.kind) {
      case BORROWED: lst.writeOn(t.mine.get()); break;
      case SHARED: {
         std::shared_ptr<RecStream> p = t.shared ? t.shared : std::make_shared<RecStream>(t.book);
         if(t.keepRef) t.shared = p;
         lst.share(p);
         break; }
      default: {
         std::unique_ptr<std::ostream> p(new RecStream(t.book));
         lst.own(p);
         if(p) pbt::failNow("an owned stream stays with the caller");
         break; }
      }
      NOTE(s, "redirected to " << i);
   }
   /// A stream which may be the target again.
   bool again(int i) { return all[(size_t)i]->kind == BORROWED || (all[(size_t)i]->kind == SHARED && all[(size_t)i]->keepRef); }
   int choose() {
      std::vector<int> can; for(size_t i = 0; i < all.size(); ++i) if(again((int)i)) can.push_back((int)i);
      if(!can.empty() && s.coin(1, 3)) return can[s.draw(can.size())];
      return make((Kind)s.draw(3));
   }
   void fates(bool listenerAlive) {
      for(size_t i = 0; i < all.size(); ++i) {
         Target& t = *all[i];
         REQUIRE(s, t.book.destroyed <= 1, "stream " << i << " was destroyed " << t.book.destroyed << " times");
         if(t.kind == BORROWED) REQUIRE(s, t.book.destroyed == 0, "borrowed stream " << i << " was destroyed");
         if(listenerAlive && (int)i == cur) REQUIRE(s, t.book.destroyed == 0, "stream " << i << " was destroyed while it is the target");
         if(t.kind == SHARED && t.shared) REQUIRE(s, t.book.destroyed == 0, "shared stream " << i << " was destroyed while others hold it");
         if(!listenerAlive && t.kind == OWNED && t.book.created) REQUIRE(s, t.book.destroyed == 1, "owned stream " << i << " survives the listener");
         if(!listenerAlive && t.kind == SHARED && t.book.created && !t.shared) REQUIRE(s, t.book.destroyed == 1, "shared stream " << i << " survives its last user");
         if(!listenerAlive && t.kind == SHARED && t.shared) REQUIRE(s, t.shared.use_count() == 1, "shared stream " << i << " is still referenced");
      }
   }
};

static void checkLines(pbt::Src& s, const std::string& text, const std::vector<std::string>& ids, const char* what) {
   std::istringstream is(text); std::string l; size_t k = 0;
   while(std::getline(is, l)) {
      REQUIRE(s, k < ids.size(), what << " got a line too many: " << pbt::show(l));
      std::string tail = lineOf(ids[k]); tail.pop_back();
      REQUIRE(s, l.size() == 19 + 6 + tail.size() && l.compare(l.size() - tail.size(), tail.size(), tail) == 0 && l.substr(19, 6) == " [INFO", what << " got " << pbt::show(l) << " for message " << ids[k]);
      ++k;
   }
   REQUIRE(s, k == ids.size(), what << " got " << k << " lines instead of " << ids.size());
   REQUIRE(s, text.empty() || text.back() == '\n', what << " ends in a broken line");
}

#ifndef COOP
struct Quiet { std::ostringstream o; std::streambuf *a, *b, *c; Quiet() { a = std::cout.rdbuf(o.rdbuf()); b = std::cerr.rdbuf(o.rdbuf()); c = std::clog.rdbuf(o.rdbuf()); } ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::clog.rdbuf(c); } };
/// One thread: exact.
PBT_ARM(history, 25000, 600000, true) {
   Quiet q;
   Streams st(s);
   std::map<int, std::vector<std::string>> want;
   size_t n = 3 + s.draw(24), moves = 0, owned = 0;
   for(size_t k = 0; k < n; ++k) {
      switch(s.weighted({5, 4, 2, 1})) {
      case 0: {
         LogSystem::Message m("f", 1, LogSystem::INFO, "", s.grown("id" + std::to_string(k)));
         NOTE(s, "message " << pbt::show(m.m_message, 60) << " to " << st.cur);
         st.l->onMessage(m);
         if(st.cur >= 0) want[st.cur].push_back(m.m_message);
         break; }
      case 1: { int i = st.choose(); st.redirect(*st.l, i); st.cur = i; ++moves; if(st.all[(size_t)i]->kind == OWNED) ++owned; break; }
      case 2: { // let go of a shared stream
         for(size_t i = 0; i < st.all.size(); ++i) if(st.all[i]->shared) { NOTE(s, "drop our reference to " << i); st.all[i]->shared.reset(); st.all[i]->keepRef = false; break; }
         break; }
      default: // a redirected away borrowed stream may go
         for(size_t i = 0; i < st.all.size(); ++i) if(st.all[i]->mine && (int)i != st.cur) { checkLines(s, st.all[i]->book.text, want[(int)i], "a stream"); REQUIRE(s, st.all[i]->book.destroyed == 0, "borrowed stream " << i << " was destroyed"); NOTE(s, "stream " << i << " goes away"); st.all[i]->mine.reset(); st.all[i]->kind = SHARED; st.all[i]->keepRef = false; st.all[i]->book.created = false; break; }
         break;
      }
      for(size_t i = 0; i < st.all.size(); ++i) { std::string w = "stream " + std::to_string(i); checkLines(s, st.all[i]->book.text, want[(int)i], w.c_str()); }
      st.fates(true);
   }
   NOTE(s, "the listener dies");
   st.l.reset();
   for(auto& t: st.all) if(t->kind == SHARED && !t->book.created) t->book.destroyed = 0;
   st.fates(false);
   REQUIRE(s, q.o.str().empty(), "the listener writes on the standard streams: " << pbt::show(q.o.str()));
   if(moves >= 2 && owned) s.nontrivial();
}
#endif

/// Messages are written while another thread redirects.
static void concurrent(pbt::Src& s, size_t maxMsgs, size_t maxMoves) {
   {
   Streams st(s);
   struct Ev { uint64_t b = 0, e = 0; int target = -1; };
   std::vector<Ev> moves, msgs;
   std::atomic<uint64_t> clock{1};
   size_t nm = 2 + s.draw(maxMsgs), nr = 1 + s.draw(maxMoves);
   std::vector<int> plan, other;
   for(size_t i = 0; i < nr; ++i) plan.push_back(st.choose());
   // another thread redirects too, now and then, to streams of its own
   if(s.coin(1, 3)) { size_t n = 1 + s.draw(maxMoves); for(size_t i = 0; i < n; ++i) other.push_back(st.make((Kind)s.draw(3))); s.label("two threads redirect"); }
   size_t all = nr + other.size();
   std::vector<std::string> texts;
   for(size_t i = 0; i < nm; ++i) texts.push_back(s.grown("id" + std::to_string(i), lw::smallTexts ? 300 : 70000));
   // a stream used twice in a row or more is fine; remember whether it comes back
   moves.resize(all); msgs.resize(nm);
   LogStreamListener& l = *st.l;
   auto writer = [&] { for(size_t i = 0; i < nm; ++i) { LogSystem::Message m("f", 1, LogSystem::INFO, "", texts[i]); NOTE(s, "message " << i << " begins"); msgs[i].b = ++clock; l.onMessage(m); msgs[i].e = ++clock; NOTE(s, "message " << i << " ends"); } };
   auto mover = [&] { for(size_t i = 0; i < nr; ++i) { moves[i].target = plan[i]; moves[i].b = ++clock; st.redirect(l, plan[i]); moves[i].e = ++clock; lw::pointHere("between redirections"); } };
   auto mover2 = [&] { for(size_t i = 0; i < other.size(); ++i) { Ev& e = moves[nr + i]; e.target = other[i]; e.b = ++clock; st.redirect(l, other[i]); e.e = ++clock; lw::pointHere("between redirections"); } };
   // a shared stream that is only ours to lend must survive as target: keepRef false releases it with the next one
#ifdef COOP
   { coop::Sched sc(s, 200000); int a = sc.spawn(writer), b = sc.spawn(mover), c = other.empty() ? -1 : sc.spawn(mover2); sc.join(a); sc.join(b); if(c >= 0) sc.join(c); }
#else
   { std::thread a(writer), b(mover), c(mover2); a.join(); b.join(); c.join(); }
#endif
   st.cur = other.empty() ? plan.back() : -1;
   st.fates(true);
   // where may message i have gone?
   std::vector<std::vector<size_t>> seen(st.all.size());
   std::vector<int> times(nm, 0);
   for(size_t k = 0; k < st.all.size(); ++k) {
      std::istringstream is(st.all[k]->book.text); std::string line; size_t last = 0; bool any = false;
      std::vector<std::string> ids;
      while(std::getline(is, line)) {
         size_t p = line.rfind(" id");
         REQUIRE(s, p != std::string::npos, "stream " << k << " holds a torn line " << pbt::show(line));
         ids.push_back(line.substr(p + 1));
         size_t id = strtoul(line.c_str() + p + 3, nullptr, 10);
         REQUIRE(s, id < nm && (!any || id > last), "stream " << k << " holds message " << id << " out of order");
         REQUIRE(s, ids.back() == texts[id], "stream " << k << " holds " << pbt::show(ids.back(), 100) << " for message " << id << " of " << texts[id].size() << " characters");
         any = true; last = id; times[id]++;
         bool may = false;
         for(size_t r = 0; r < all && !may; ++r) {
            if(moves[r].target != (int)k || msgs[id].e < moves[r].b) continue;
            // unless another redirection certainly came between
            may = true;
            for(size_t q = 0; q < all; ++q) if(q != r && moves[q].target != (int)k && moves[q].b > moves[r].e && moves[q].e < msgs[id].b) may = false;
         }
         REQUIRE(s, may, "message " << id << " went to stream " << k << ", which was not the target during the message");
      }
      std::string w = "stream " + std::to_string(k);
      checkLines(s, st.all[k]->book.text, ids, w.c_str());
   }
   for(size_t i = 0; i < nm; ++i) {
      REQUIRE(s, times[i] <= 1, "message " << i << " was written " << times[i] << " times");
      bool after = false;
      for(auto& m: moves) if(msgs[i].b > m.e) after = true;
      if(after) REQUIRE(s, times[i] == 1, "message " << i << ", begun after the first redirection returned, is written nowhere");
   }
   st.l.reset();
   st.fates(false);
   s.nontrivial();
   }
}
#ifdef COOP
PBT_ARM_COOP(coop_concurrent, 20000, 500000, true) { concurrent(s, 5, 5); }
#else
PBT_ARM_RT(concurrent, 1500, 40000, 15) { concurrent(s, 40, 30); }
#endif
int main(int argc, char** argv) { return pbt::run(argc, argv, "C22"); }

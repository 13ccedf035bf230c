// C21: each message is written as one well-formed log line.
#include "pbt.hpp"
#include <falcon/logstream.h>
#include <ctime>
#include <iostream>
#include <locale>
#include <sys/syscall.h>
#include <sys/time.h>
#include <thread>
using falcon::LogSystem;

// The system clock under the case's control (per thread).
static thread_local bool g_virtual = false;
static thread_local int64_t g_sec = 0, g_nsec = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
   if(g_virtual && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) { ts->tv_sec = g_sec; ts->tv_nsec = g_nsec; return 0; }
   return (int)syscall(SYS_clock_gettime, id, ts);
}
extern "C" time_t time(time_t* t) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if(t) *t = ts.tv_sec; return ts.tv_sec; }
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if(tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; } return 0; }

/// What was written, and how much of it was flushed.
struct Sink: std::streambuf {
   std::string text; size_t flushed = 0, writes = 0;
   int overflow(int c) override { if(c != EOF) { text += (char)c; } return c == EOF ? 0 : c; }
   std::streamsize xsputn(const char* p, std::streamsize n) override { text.append(p, (size_t)n); ++writes; return n; }
   int sync() override { flushed = text.size(); return 0; }
};
struct Punct: std::numpunct<char> {
   char do_thousands_sep() const override { return '\''; }
   std::string do_grouping() const override { return "\1\2"; }
   char do_decimal_point() const override { return ','; }
};

static std::string two(int v) { std::string o = std::to_string(v); return o.size() < 2 ? "0" + o : o; }
static std::string expected(int64_t sec, const LogSystem::Message& m) {
   time_t t = (time_t)sec; struct tm b; localtime_r(&t, &b);
   static const char* names[] = {"CRIT", "ERR ", "WARN", "INFO", "DBG ", "TRC ", "????", "????"};
   std::string year = std::to_string(b.tm_year + 1900); while(year.size() < 4) year = "0" + year;
   std::string o = year + "-" + two(b.tm_mon + 1) + "-" + two(b.tm_mday) + " " + two(b.tm_hour) + ":" + two(b.tm_min) + ":" + two(b.tm_sec) + " [" + names[m.m_level] + "] ";
   if(!m.m_category.empty()) o += "(" + m.m_category + ") ";
   size_t p = m.m_file.rfind('/');
   o += (p == std::string::npos ? m.m_file : m.m_file.substr(p + 1)) + ":" + std::to_string(m.m_line) + " " + m.m_message + "\n";
   return o;
}
static int64_t anySecond(pbt::Src& s, int64_t last = -1) {
   if(last >= 0 && s.coin(1, 2)) { // not long after, or before
      int64_t by = s.pick({(int64_t)0, (int64_t)1, (int64_t)59, (int64_t)60, (int64_t)900, (int64_t)1800, (int64_t)3600, (int64_t)s.draw(90), (int64_t)s.draw(4000), (int64_t)s.draw(100000), (int64_t)86400, (int64_t)s.draw(40000000)});
      return std::max<int64_t>(0, s.coin(1, 4) ? last - by : last + by);
   }
   switch(s.weighted({4, 3, 2, 2})) {
   case 0: return (int64_t)s.draw(4102444800ull);                                  // to 2100
   case 1: { // around midnights and ends of months
      int64_t day = (int64_t)s.draw(40000); int64_t d = (int64_t)s.draw(7) - 3; return std::max<int64_t>(0, day * 86400 + d); }
   case 2: { struct tm b{}; b.tm_year = 70 + (int)s.draw(180); b.tm_mon = (int)s.draw(12); b.tm_mday = 1; b.tm_hour = (int)s.draw(24); b.tm_min = (int)s.pick({0, 59, 1, 9, 10}); b.tm_sec = (int)s.pick({0, 59, 1, 9, 10}); return (int64_t)timegm(&b); }
   default: return (int64_t)s.draw(9000000000ull);                                 // to 2255
   }
}
static LogSystem::Message anyMessage(pbt::Src& s) {
   LogSystem::Message m;
   size_t depth = s.draw(4);
   for(size_t i = 0; i < depth; ++i) m.m_file += (s.coin(1, 4) ? "" : s.text(8, 1)) + "/";
   m.m_file += s.grown(s.text(14, 3), 5000);
   m.m_line = s.coin(1, 3) ? (int)(int32_t)s.i64() : (int)s.draw(2000);
   m.m_level = (LogSystem::LEVEL)(s.draw(20) == 19 ? 6 + s.draw(2) : s.draw(6));
   if(s.coin()) m.m_category = s.grown(s.text(20, 3), 5000);
   m.m_message = s.grown(s.text(s.draw(6) == 5 ? 3000 : 60, s.pick({1, 3, 4})));
   return m;
}
static void anyZone(pbt::Src& s) {
   static const char* zones[] = {"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "NPT-5:45", "XXX11", "LHST-10:30LHDT-11,M10.1.0,M4.1.0", "NST3:30NDT,M3.2.0,M11.1.0"};
   setenv("TZ", zones[s.draw(7)], 1);
   tzset();
}

PBT_ARM(lines, 150000, 1000000, true) {
   anyZone(s);
   falcon::LogStreamListener l;
   struct Out { Sink sink; std::unique_ptr<std::ostream> o; std::string want; };
   std::vector<std::unique_ptr<Out>> outs;
   std::locale odd(std::locale::classic(), new Punct);
   auto scramble = [&](std::ostream& o) {
      using B = std::ios_base;
      B::fmtflags f{};
      for(auto x: {B::hex, B::oct, B::showbase, B::showpos, B::uppercase, B::left, B::internal, B::right, B::boolalpha, B::scientific, B::fixed, B::unitbuf, B::skipws, B::showpoint}) if(s.coin(1, 4)) f |= x;
      o.flags(f);
      o.fill(s.pick({' ', '0', '*', 'x'}));
      o.width(s.pick({0, 0, 1, 5, 30}));
      o.precision(s.pick({6, 0, 1, 12}));
      if(s.coin(1, 4)) o.imbue(odd);
      NOTE(s, "stream state: flags " << std::hex << (unsigned)o.flags() << " fill " << o.fill() << " width " << std::dec << o.width() << " precision " << o.precision() << (o.getloc() == odd ? " odd locale" : ""));
      return f;
   };
   size_t no = 1 + s.draw(2);
   bool scrambled = false;
   for(size_t i = 0; i < no; ++i) { outs.emplace_back(new Out); outs.back()->o.reset(new std::ostream(&outs.back()->sink)); if(s.coin()) { scramble(*outs.back()->o); scrambled = true; } }
   size_t cur = 0;
   l.writeOn(outs[0]->o.get());
   size_t n = 1 + s.draw(6);
   int64_t last = -1;
   for(size_t k = 0; k < n; ++k) {
      if(no > 1 && s.coin(1, 4)) { cur = 1 - cur; NOTE(s, "redirect to stream " << cur); l.writeOn(outs[cur]->o.get()); }
      Out& o = *outs[cur];
      if(s.coin(1, 5)) { scramble(*o.o); scrambled = true; }
      if(s.coin(1, 6)) { std::string by = s.text(8, 1); o.o->width(0); *o.o << by; o.want += by; }        // others write too
      LogSystem::Message m = anyMessage(s);
      if(s.coin(1, 12)) { anyZone(s); s.label("zone changes"); }
      g_sec = anySecond(s, last); last = g_sec; g_nsec = (int64_t)s.draw(1000000000); if(s.coin(1, 4)) g_nsec = s.pick({0, 999999999, 500000000});
      std::string line = expected(g_sec, m);
      NOTE(s, "message at " << g_sec << "." << g_nsec << " expected as " << pbt::show(line, 120));
      auto fl = o.o->flags(); auto fi = o.o->fill(); auto pr = o.o->precision(); auto wi = o.o->width(); auto lo = o.o->getloc();
      g_virtual = true;
      l.onMessage(m);
      g_virtual = false;
      o.want += line;
      REQUIRE(s, o.sink.text == o.want, "wrote " << pbt::show(o.sink.text.substr(std::min(o.sink.text.size(), o.want.size() - line.size()))) << " instead of " << pbt::show(line));
      REQUIRE(s, o.sink.flushed == o.want.size(), "the line is not flushed");
      REQUIRE(s, o.o->flags() == fl && o.o->fill() == fi && o.o->precision() == pr && o.o->getloc() == lo && (o.o->width() == wi || o.o->width() == 0), "the stream's formatting state was changed: flags " << std::hex << (unsigned)o.o->flags() << " from " << (unsigned)fl << ", fill '" << o.o->fill() << "' from '" << fi << "'");
      REQUIRE(s, o.o->good(), "the stream is left in a bad state");
   }
   if(scrambled) { s.nontrivial(); s.label("odd stream state"); }
   for(size_t i = 0; i < no; ++i) REQUIRE(s, outs[i]->sink.text == outs[i]->want, "stream " << i << " got text that is not its own");
}
/// Listeners of different systems work at the same time, each at its own time of day.
PBT_ARM_RT(systems, 1500, 8000, 15) {
   anyZone(s);
   size_t nt = 2 + s.draw(3), each = 5 + s.draw(40);
   std::vector<std::vector<std::pair<int64_t, LogSystem::Message>>> work(nt);
   std::vector<std::string> want(nt);
   for(size_t t = 0; t < nt; ++t) for(size_t i = 0; i < each; ++i) { LogSystem::Message m; m.m_file = "f"; m.m_line = (int)i; m.m_level = LogSystem::INFO; m.m_message = "m"; int64_t sec = anySecond(s, i ? work[t].back().first : -1); work[t].push_back({sec, m}); want[t] += expected(sec, m); }
   std::vector<std::unique_ptr<Sink>> sinks; for(size_t t = 0; t < nt; ++t) sinks.emplace_back(new Sink);
   std::vector<std::thread> th;
   std::atomic<size_t> ready{0};
   for(size_t t = 0; t < nt; ++t) th.emplace_back([&, t] {
      std::ostream o(sinks[t].get());
      falcon::LogStreamListener l; l.writeOn(&o);
      ready++; while(ready < nt) {}
      g_virtual = true;
      for(auto& x: work[t]) { g_sec = x.first; l.onMessage(x.second); }
      g_virtual = false;
   });
   for(auto& t: th) t.join();
   for(size_t t = 0; t < nt; ++t) REQUIRE(s, sinks[t]->text == want[t], "thread " << t << " wrote wrong lines: " << pbt::show(sinks[t]->text.substr(0, 200)) << " instead of " << pbt::show(want[t].substr(0, 200)));
   s.nontrivial();
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C21"); }

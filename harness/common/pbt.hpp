// Property-based testing engine of /verif: choice sequences, forked workers, shrinking, replay.
//
// A case is a sequence of bounded integers ("choices"). Generators draw only from pbt::Src, so a case is replayed by
// replaying its choices and shrunk by simplifying them (missing choices read as 0, which every generator maps to its
// simplest value). Cases run in forked workers with the running case's choices in shared memory, so that a crash, a
// sanitizer report, an abort or a hang of the code under test is attributed to its case.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <initializer_list>
#include <map>
#include <mutex>
#include <set>
#include <signal.h>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif
#ifdef PBT_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t),
                                                         void (*)(const volatile void*));
#endif

namespace pbt {

enum { MAX_CHOICES = 1 << 16, MAX_LABELS = 96, MSG_BYTES = 16384, MAX_WORKERS = 64 };

struct Failure { std::string msg; };
struct Discard {};

struct Shm {
   std::atomic<uint64_t> caseNo;      // running case + 1, 0 when idle
   std::atomic<int64_t> startedUs;
   std::atomic<uint32_t> arm;
   std::atomic<uint32_t> nChoices;
   std::atomic<uint64_t> evals, nontrivial, discards, known;
   std::atomic<int> state;            // 0 running, 1 failed (msg valid), 2 finished
   std::atomic<uint64_t> labelCount[MAX_LABELS];
   char labelName[MAX_LABELS][48];
   char knownIds[512];
   std::atomic<uint64_t> sampleCase[8];
   uint32_t sampleArm[8];
   std::atomic<uint32_t> nSamples;
   std::atomic<uint64_t> nHashes;
   std::atomic<int> subNontrivial;    // set by an isolated part of the case
   char subLabels[512];
   char msg[MSG_BYTES];
   char trace[1 << 18];
   std::atomic<uint64_t> traceLen;
   uint64_t choices[MAX_CHOICES];
};

inline int64_t nowUs() {
   return std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

inline std::atomic<long>& liveAllocs() { static std::atomic<long> n{0}; return n; }
inline void allocHooks() {
#ifdef PBT_ASAN
   static bool done = false;
   if(!done) {
      done = true;
      liveAllocs();
      __sanitizer_install_malloc_and_free_hooks(
         [](const volatile void*, size_t) { liveAllocs().fetch_add(1, std::memory_order_relaxed); },
         [](const volatile void* p) { if(p) liveAllocs().fetch_sub(1, std::memory_order_relaxed); });
   }
#endif
}
inline bool haveAllocCount() {
#ifdef PBT_ASAN
   return true;
#else
   return false;
#endif
}

inline uint64_t mix(uint64_t z) {
   z += 0x9e3779b97f4a7c15ull;
   z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
   z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
   return z ^ (z >> 31);
}

class Src {
   Shm* m_shm;
   bool m_replay;
   bool m_tracing;
   uint64_t m_rng;
   std::vector<uint64_t> m_in;
   size_t m_pos = 0;
   std::vector<uint64_t> m_out;
   bool m_nontrivial = false;
   std::mutex m_mtx;
   std::string m_late;
   std::set<std::string> m_labels;
public:
   const std::set<std::string>* knownAllowed = nullptr;
   std::vector<std::string> knownHit;
   uint64_t hash = 1469598103934665603ull;

   Src(Shm* shm, uint64_t seed, bool tracing): m_shm(shm), m_replay(false), m_tracing(tracing), m_rng(seed) {}
   Src(Shm* shm, const std::vector<uint64_t>& c, bool tracing): m_shm(shm), m_replay(true), m_tracing(tracing), m_rng(0), m_in(c) {}

   /// A choice in [0, n); 0 is the simplest.
   uint64_t draw(uint64_t n) {
      if(n <= 1) return 0;
      uint64_t v;
      if(m_replay) {
         v = m_pos < m_in.size() ? m_in[m_pos] : 0;
         ++m_pos;
         if(v >= n) v = v % n;
      } else {
         m_rng += 0x9e3779b97f4a7c15ull;
         uint64_t z = m_rng;
         z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
         z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
         z ^= z >> 31;
         v = n > 0xffffffffull ? z % n : (uint64_t)(((unsigned __int128)(uint32_t)(z >> 32) * n) >> 32);
      }
      size_t k = m_out.size();
      if(k < MAX_CHOICES) {
         m_out.push_back(v);
         if(m_shm) { m_shm->choices[k] = v; m_shm->nChoices.store(k + 1, std::memory_order_relaxed); }
      } else if(!m_replay) {
         v = 0;  // choice budget exhausted: everything simplest from here on
      }
      hash = (hash ^ v) * 1099511628211ull;
      hash ^= hash >> 29;
      return v;
   }
   uint64_t drawWide() { uint64_t hi = draw(1ull << 32); return hi << 32 | draw(1ull << 32); }
   int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
   /// true with probability num/den; false is simplest
   bool coin(uint64_t num = 1, uint64_t den = 2) { return draw(den) >= den - num; }
   size_t weighted(std::initializer_list<unsigned> w) {
      uint64_t t = 0; for(auto x: w) t += x;
      uint64_t v = draw(t); size_t i = 0;
      for(auto x: w) { if(v < x) return i; v -= x; ++i; }
      return 0;
   }
   template<typename T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
   template<typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size())); }
   /// A size in [0,max]: small values most of the time, every value possible.
   size_t size(size_t max) {
      switch(weighted({6, 3, 1})) {
      case 0: return draw(std::min<size_t>(max, 4) + 1);
      case 1: return draw(std::min<size_t>(max, 24) + 1);
      default: return draw(max + 1);
      }
   }
   /// 64 bit integers biased to the edges of every width.
   int64_t i64() {
      switch(weighted({4, 3, 3, 2})) {
      case 0: return (int64_t)draw(33) - 8;
      case 1: { int sh = (int)draw(64); int64_t d = (int64_t)draw(5) - 2; uint64_t b = 1ull << sh; if(coin()) b = 0 - b; return (int64_t)(b + (uint64_t)d); }
      case 2: { int bits = (int)draw(64) + 1; uint64_t v = drawWide(); v >>= (64 - bits); if(coin()) v = 0 - v; return (int64_t)v; }
      default: { static const int64_t e[] = {0, -1, 1, INT64_MAX, INT64_MIN, INT32_MAX, INT32_MIN, (int64_t)UINT32_MAX, 127, 128, 255, 256, -128, -129, 32767, 65535, 1000000007}; return e[draw(sizeof e / sizeof *e)]; }
      }
   }
   /// Text of at most max bytes. kind 0: identifier like, 1: printable ASCII, 2: markup biased, 3: any byte but NUL, 4: any byte
   std::string text(size_t max, int kind = 1) {
      size_t n = size(max);
      std::string s;
      s.reserve(n);
      static const char ident[] = "abcXYZ019_";
      static const char mark[] = "<>&\"'a b]-!?/=;#x\n\tC";
      for(size_t i = 0; i < n; ++i) {
         switch(kind) {
         case 0: s += ident[draw(sizeof ident - 1)]; break;
         case 1: { uint64_t v = draw(95); s += (char)(v < 26 ? 'a' + v : ' ' + (v - 26) + (v - 26 >= 65 ? 26 : 0)); break; }
         case 2: s += mark[draw(sizeof mark - 1)]; break;
         case 3: s += (char)(draw(255) + 1); break;
         default: s += (char)draw(256); break;
         }
      }
      return s;
   }

   /// Now and then the text grown to a length around a power of two (no choices are spent on the added characters).
   std::string grown(std::string base, size_t maxLen = 70000, uint64_t num = 1, uint64_t den = 30) {
      if(!coin(num, den)) return base;
      static const size_t edge[] = {127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 16384, 65535, 65536, 65537};
      size_t k = 0;
      while(k < sizeof edge / sizeof *edge && edge[k] <= maxLen) ++k;
      if(!k) return base;
      size_t n = edge[draw(k)];
      for(size_t i = base.size(); i < n; ++i) base += (char)('a' + (i * 7 + i / 26) % 26);
      return base;
   }

   void nontrivial() { m_nontrivial = true; }
   bool isNontrivial() const { return m_nontrivial; }
   void label(const std::string& l) { m_labels.insert(l); }
   void label(const char* l) { m_labels.insert(l); }
   const std::set<std::string>& labels() const { return m_labels; }
   bool tracing() const { return m_tracing; }
   void note(const std::string& t) {
      if(!m_tracing || !m_shm) return;
      std::lock_guard<std::mutex> g(m_mtx);
      uint64_t at = m_shm->traceLen;
      if(at + t.size() + 2 >= sizeof m_shm->trace) return;
      memcpy(m_shm->trace + at, t.data(), t.size());
      m_shm->trace[at + t.size()] = '\n';
      m_shm->traceLen = at + t.size() + 1;
   }
   [[noreturn]] void fail(const std::string& msg) { note("FAIL: " + msg); throw Failure{msg}; }
   void check(bool ok, const char* what) { if(!ok) fail(what); }
   /// For threads and noexcept callbacks: remembered and raised at the end of the case.
   void failLater(const std::string& msg) {
      note("FAIL: " + msg);
      std::lock_guard<std::mutex> g(m_mtx);
      if(m_late.empty()) m_late = msg;
   }
   std::string late() { std::lock_guard<std::mutex> g(m_mtx); return m_late; }
   [[noreturn]] void discard() { throw Discard{}; }
   /// A deviation listed in the known-findings file under id is counted and tolerated; otherwise it fails.
   void deviation(const std::string& id, const std::string& msg) {
      if(knownAllowed && knownAllowed->count(id)) { knownHit.push_back(id); return; }
      fail(msg + " [" + id + "]");
   }
   const std::vector<uint64_t>& out() const { return m_out; }
};

#define NOTE(s, expr) do { if((s).tracing()) { std::ostringstream n__; n__ << expr; (s).note(n__.str()); } } while(0)
#define REQUIRE(s, cond, expr) do { if(!(cond)) { std::ostringstream n__; n__ << expr; (s).fail(n__.str()); } } while(0)

inline std::string show(const std::string& t, size_t max = 200) {
   std::string o = "\"";
   static const char* hex = "0123456789abcdef";
   for(size_t i = 0; i < t.size() && i < max; ++i) {
      unsigned char c = t[i];
      if(c == '"' || c == '\\') { o += '\\'; o += (char)c; }
      else if(c == '\n') o += "\\n";
      else if(c < 32 || c > 126) { o += "\\x"; o += hex[c >> 4]; o += hex[c & 15]; }
      else o += (char)c;
   }
   o += '"';
   if(t.size() > max) o += "...(" + std::to_string(t.size()) + " bytes)";
   return o;
}

struct Arm {
   std::string name;
   uint64_t quick, thorough;          // cases
   std::function<void(Src&)> fn;
   bool leakCheck = false;            // live allocation balance per case
   int replays = 3;                   // replays of which `needed` must fail (1 of many for real-thread arms)
   int needed = 3;
   double hangSeconds = 20;
   bool hangIsFailure = true;         // false: a hang says nothing (the arm's instrumentation was bypassed)
};

inline std::vector<Arm>& arms() { static std::vector<Arm> a; return a; }
struct AddArm { AddArm(Arm a) { arms().push_back(std::move(a)); } };

enum Outcome { PASS, FAIL_, DISCARD_ };

struct Globals {
   std::set<std::string> known;
   uint64_t seed = 1;
   std::string property;
   std::function<void()> perProcess;   // run in every worker after fork
};
inline Globals& G() { static Globals g; return g; }
inline Shm*& currentShm() { static Shm* p = nullptr; return p; }
inline void setMsg(Shm* shm, const std::string& m);
/// Ends the case as failed from anywhere (other threads, states that cannot be unwound).
[[noreturn]] inline void failNow(const std::string& msg) {
   if(Shm* p = currentShm()) { setMsg(p, msg); p->state = 1; }
   _exit(1);
}
inline Shm* newShm();
inline std::string slurp(const std::string& path, size_t max = 12000);
/// Runs fn in a forked child: state that lives once per process starts afresh in every case.
template<typename F> void isolated(Src& s, F fn);
/// Ends the process without a verdict on the running case.
[[noreturn]] inline void giveUp() { _exit(4); }

inline Outcome once(const Arm& arm, Src& s, std::string& msg) {
   try {
      arm.fn(s);
      msg = s.late();
      return msg.empty() ? PASS : FAIL_;
   }
   catch(const Failure& f) { msg = f.msg; return FAIL_; }
   catch(const Discard&) { return DISCARD_; }
   catch(const std::exception& e) { msg = std::string("unexpected exception escaped: ") + e.what(); s.note("FAIL: " + msg); return FAIL_; }
   catch(...) { msg = "unexpected unknown exception escaped"; s.note("FAIL: " + msg); return FAIL_; }
}

/// Runs the case, with the allocation balance if the arm asks for it. After the call, choices are in outChoices.
inline Outcome runCase(Shm* shm, const Arm& arm, Src& s, std::string& msg) {
   s.knownAllowed = &G().known;
   long before = liveAllocs();
   Outcome o;
   {
      o = once(arm, s, msg);
   }
   if(o != PASS || !arm.leakCheck || !haveAllocCount()) return o;
   // Src itself keeps allocations (choices, labels): measure on fresh runs of the same choices only if something grew.
   (void)before;
   auto grown = [&]() -> long {
      long d;
      std::string m2;
      std::vector<uint64_t> c = s.out();
      long b;
      Outcome o2;
      {
         b = liveAllocs();
         {
            Src r(nullptr, c, false);
            r.knownAllowed = &G().known;
            o2 = once(arm, r, m2);
            m2.clear(); m2.shrink_to_fit();
         }
         d = liveAllocs() - b;
      }
      return o2 == PASS ? d : 0;
   };
   long g1 = grown();
   if(g1 > 0) {
      long g2 = grown(), g3 = grown(), g4 = grown();
      if(g2 > 0 && g3 > 0 && g4 > 0) {
         msg = "memory leak: " + std::to_string(std::min(g2, std::min(g3, g4))) + " allocation(s) still live after the case, on every run";
         s.note("FAIL: " + msg);
         return FAIL_;
      }
   }
   (void)shm;
   return o;
}

inline Shm* newShm() {
   void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
   if(p == MAP_FAILED) { perror("mmap"); _exit(2); }
   return new(p) Shm();
}

template<typename F> void isolated(Src& s, F fn) {
   Shm* p = currentShm();
   bool own = !p;
   if(own) p = currentShm() = newShm();
   p->subNontrivial = 0; p->subLabels[0] = 0;
   fflush(nullptr);
   pid_t pid = fork();
   if(pid == 0) {
      try { fn(); std::string l = s.late(); if(!l.empty()) failNow(l); }
      catch(const Failure& f) { failNow(f.msg); }
      catch(const Discard&) { _exit(3); }
      catch(const std::exception& e) { failNow(std::string("unexpected exception escaped: ") + e.what()); }
      p->subNontrivial = s.isNontrivial();
      std::string l; for(auto& x: s.labels()) l += x + ";";
      strncpy(p->subLabels, l.c_str(), sizeof p->subLabels - 1);
      _exit(0);
   }
   int st = 0;
   while(waitpid(pid, &st, 0) != pid) {}
   for(uint32_t i = 0; i < p->nChoices; ++i) s.hash = mix(s.hash ^ p->choices[i]);
   bool nt = p->subNontrivial; std::string labels = p->subLabels, msg = p->msg;
   if(own) { currentShm() = nullptr; munmap(p, sizeof(Shm)); }
   if(WIFEXITED(st) && WEXITSTATUS(st) == 3) throw Discard{};
   if(WIFEXITED(st) && WEXITSTATUS(st) == 1) throw Failure{msg};
   if(!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
      // the sanitizer's report is in this process's stderr
      if(WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); }
      _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 98);
   }
   if(nt) s.nontrivial();
   std::istringstream is(labels); std::string k;
   while(std::getline(is, k, ';')) if(!k.empty()) s.label(k);
}

inline void addLabel(Shm* shm, const std::string& l) {
   for(int i = 0; i < MAX_LABELS; ++i) {
      if(!shm->labelName[i][0]) { strncpy(shm->labelName[i], l.c_str(), sizeof shm->labelName[i] - 1); }
      if(!strncmp(shm->labelName[i], l.c_str(), sizeof shm->labelName[i] - 1)) { shm->labelCount[i]++; return; }
   }
}

inline uint64_t caseSeed(const Arm& arm, uint64_t idx) {
   uint64_t h = mix(G().seed * 0x100000001b3ull + 77);
   for(char c: G().property) h = mix(h ^ (unsigned char)c);
   for(char c: arm.name) h = mix(h ^ (unsigned char)c);
   return mix(h ^ mix(idx));
}

inline void setMsg(Shm* shm, const std::string& m) {
   size_t n = std::min<size_t>(m.size(), MSG_BYTES - 1);
   memcpy(shm->msg, m.data(), n);
   shm->msg[n] = 0;
}

/// Child side of one replay. Exit code 0 pass, 1 fail, 3 discard.
[[noreturn]] inline void childReplay(Shm* shm, const Arm& arm, const std::vector<uint64_t>& c, bool tracing) {
   currentShm() = shm;
   if(G().perProcess) G().perProcess();
   Src s(shm, c, tracing);
   std::string msg;
   Outcome o = runCase(shm, arm, s, msg);
   if(o == FAIL_) setMsg(shm, msg);
   _exit(o == PASS ? 0 : o == FAIL_ ? 1 : 3);
}

struct Replay { bool failed = false; bool hang = false; bool crash = false; std::string msg, trace, err; std::vector<uint64_t> choices; };

inline std::string slurp(const std::string& path, size_t max) {
   std::string o;
   FILE* f = fopen(path.c_str(), "rb");
   if(!f) return o;
   char buf[4096]; size_t n;
   while((n = fread(buf, 1, sizeof buf, f)) > 0 && o.size() < max) o.append(buf, n);
   fclose(f);
   return o;
}

inline std::string firstLine(const std::string& err) {
   // the telling line of a sanitizer report or assertion
   std::istringstream is(err); std::string l, best;
   while(std::getline(is, l)) {
      if(l.find("ERROR: ") != std::string::npos || l.find("runtime error:") != std::string::npos || l.find("WARNING: ThreadSanitizer") != std::string::npos
         || l.find("Assertion") != std::string::npos || l.find("terminate called") != std::string::npos || l.find("libc++abi") != std::string::npos) { best = l; break; }
   }
   return best.substr(0, 400);
}

inline void redirectErr(const std::string& path) {
   int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
   if(fd >= 0) { dup2(fd, 2); close(fd); }
}

inline Replay replay(const std::string& dir, const Arm& arm, const std::vector<uint64_t>& c, bool tracing, double hang) {
   Replay r;
   Shm* shm = newShm();
   std::string errPath = dir + "/replay.err";
   fflush(nullptr);
   pid_t pid = fork();
   if(pid == 0) {
      setpgid(0, 0);
      redirectErr(errPath);
      int nul = open("/dev/null", O_WRONLY); if(nul >= 0) dup2(nul, 1);
      childReplay(shm, arm, c, tracing);
   }
   int64_t t0 = nowUs();
   int st = 0;
   useconds_t nap = 200;
   while(true) {
      pid_t w = waitpid(pid, &st, WNOHANG);
      if(w == pid) break;
      if(nowUs() - t0 > hang * 1e6) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); r.hang = true; break; }
      usleep(nap);
      if(nap < 5000) nap += nap / 4;
   }
   r.choices.assign(shm->choices, shm->choices + shm->nChoices);
   r.trace.assign(shm->trace, shm->trace + shm->traceLen);
   if(r.hang && !arm.hangIsFailure) r.hang = false;
   else if(r.hang) { r.failed = true; r.msg = "no termination within " + std::to_string((int)hang) + " s (cases normally take milliseconds)"; }
   else if(WIFEXITED(st) && WEXITSTATUS(st) == 0) {}
   else if(WIFEXITED(st) && WEXITSTATUS(st) == 3) {}
   else if(WIFEXITED(st) && WEXITSTATUS(st) == 4) {}
   else if(WIFEXITED(st) && WEXITSTATUS(st) == 1) { r.failed = true; r.msg = shm->msg; }
   else {
      r.failed = r.crash = true;
      r.err = slurp(errPath);
      std::string l = firstLine(r.err);
      r.msg = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "died with exit code " + std::to_string(WEXITSTATUS(st));
      if(!l.empty()) r.msg += ": " + l;
   }
   munmap(shm, sizeof(Shm));
   return r;
}

/// Internal shrinking of the choice sequence, candidates run in forked children.
inline std::vector<uint64_t> shrink(const std::string& dir, const Arm& arm, std::vector<uint64_t> best, double seconds, bool hang, int& tried) {
   int64_t end = nowUs() + (int64_t)(seconds * 1e6);
   double lim = hang ? arm.hangSeconds : std::min(arm.hangSeconds, 10.0);
   auto test = [&](const std::vector<uint64_t>& c) -> bool {
      if(nowUs() > end) return false;
      ++tried;
      int rounds = arm.needed < arm.replays ? 3 : 1;  // schedule-dependent arms: a few tries per candidate
      for(int i = 0; i < rounds; ++i) {
         Replay r = replay(dir, arm, c, false, lim);
         if(r.failed && r.hang == hang) {
            // keep only the choices actually consumed
            std::vector<uint64_t> used = r.choices;
            if(used.size() > c.size()) used.resize(c.size());
            while(!used.empty() && used.back() == 0) used.pop_back();
            best = used.size() <= c.size() ? used : c;
            return true;
         }
      }
      return false;
   };
   bool progress = true;
   while(progress && nowUs() < end) {
      progress = false;
      for(size_t cut = best.size() / 2; cut >= 1; cut /= 2) {
         while(best.size() >= cut && cut > 0) {
            std::vector<uint64_t> c(best.begin(), best.end() - cut);
            if(!test(c)) break;
            progress = true;
            if(best.empty()) break;
         }
      }
      for(size_t blk: {32u, 16u, 8u, 6u, 5u, 4u, 3u, 2u, 1u}) {
         for(size_t i = best.size(); i-- > 0 && nowUs() < end;) {
            if(i + blk > best.size()) continue;
            std::vector<uint64_t> c(best);
            c.erase(c.begin() + i, c.begin() + i + blk);
            size_t before = best.size();
            if(test(c)) { progress = true; if(best.size() >= before) break; }
         }
      }
      for(size_t i = 0; i < best.size() && nowUs() < end; ++i) {
         if(best[i] == 0) continue;
         std::vector<uint64_t> c(best);
         c[i] = 0;
         if(test(c)) { progress = true; continue; }
         uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;   // lo fails to reproduce, hi reproduces
         while(hi > lo + 1 && nowUs() < end && i < best.size()) {
            uint64_t mid = lo + (hi - lo) / 2;
            c = best; c[i] = mid;
            if(test(c)) { progress = true; hi = mid; } else lo = mid;
         }
      }
   }
   return best;
}

inline std::string jstr(const std::string& t) {
   std::string o = "\"";
   char b[8];
   for(unsigned char c: t) {
      if(c == '"' || c == '\\') { o += '\\'; o += (char)c; }
      else if(c == '\n') o += "\\n";
      else if(c == '\t') o += "\\t";
      else if(c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
      else o += (char)c;
   }
   return o + "\"";
}

inline void worker(Shm* shm, unsigned w, unsigned nw, bool thorough, double scale, double budget, uint64_t* hashes, size_t maxHashes, const std::string& errPath, bool mute) {
   redirectErr(errPath);
   currentShm() = shm;
   if(mute) { int nul = open("/dev/null", O_WRONLY); if(nul >= 0) { dup2(nul, 1); close(nul); } }
   allocHooks();
   if(G().perProcess) G().perProcess();
   int64_t end = nowUs() + (int64_t)(budget * 1e6);
   uint64_t most = 0;
   std::vector<uint64_t> want;
   for(auto& a: arms()) { uint64_t n = (uint64_t)((thorough ? a.thorough : a.quick) * scale); want.push_back(n); most = std::max(most, n); }
   // interleave the arms so that a time limit cuts them all alike
   for(uint64_t step = 0; step < 1000; ++step) {
      for(size_t ai = 0; ai < arms().size(); ++ai) {
         uint64_t lo = want[ai] * step / 1000, hi = want[ai] * (step + 1) / 1000;
         for(uint64_t i = lo; i < hi; ++i) {
            if(i % nw != w) continue;
            if(nowUs() > end) goto done;
            const Arm& arm = arms()[ai];
            shm->nChoices = 0;
            shm->traceLen = 0;
            shm->arm = (uint32_t)ai;
            shm->startedUs = nowUs();
            shm->caseNo = i + 1;
            {
               Src s(shm, caseSeed(arm, i), false);
               std::string msg;
               Outcome o = runCase(shm, arm, s, msg);
               shm->evals++;
               for(auto& k: s.knownHit) {
                  shm->known++;
                  if(!strstr(shm->knownIds, (k + ";").c_str()) && strlen(shm->knownIds) + k.size() + 2 < sizeof shm->knownIds) { strcat(shm->knownIds, k.c_str()); strcat(shm->knownIds, ";"); }
               }
               if(o == FAIL_) { setMsg(shm, msg); shm->state = 1; _exit(1); }
               if(o == DISCARD_) shm->discards++;
               else {
                  for(auto& l: s.labels()) addLabel(shm, l);
                  if(s.isNontrivial()) {
                     shm->nontrivial++;
                     uint64_t k = shm->nHashes;
                     if(k < maxHashes) { hashes[k] = s.hash ^ mix(ai); shm->nHashes = k + 1; }
                     if(shm->nSamples < 8) {
                        bool have = false; int per = 0;
                        for(uint32_t q = 0; q < shm->nSamples; ++q) if(shm->sampleArm[q] == ai) { per++; if(per >= 2) have = true; }
                        if(!have) { uint32_t q = shm->nSamples; shm->sampleCase[q] = i; shm->sampleArm[q] = (uint32_t)ai; shm->nSamples = q + 1; }
                     }
                  }
               }
            }
            shm->caseNo = 0;
         }
      }
   }
done:
   shm->state = 2;
   _exit(0);
}

inline int run(int argc, char** argv, const std::string& property) {
   allocHooks();
   bool thorough = false;
   double budget = 300, scale = 1, shrinkS = 25;
   std::string out = "/dev/stdout", dir = "/tmp", replayPath, only;
   unsigned nw = 8;
   G().property = property;
   bool mute = true;
   for(int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
      if(a == "--seed") G().seed = strtoull(next().c_str(), nullptr, 10);
      else if(a == "--tier") thorough = next() == "thorough";
      else if(a == "--budget") budget = atof(next().c_str());
      else if(a == "--scale") scale = atof(next().c_str());
      else if(a == "--shrink") shrinkS = atof(next().c_str());
      else if(a == "--workers") nw = atoi(next().c_str());
      else if(a == "--out") out = next();
      else if(a == "--dir") dir = next();
      else if(a == "--arm") only = next();
      else if(a == "--loud") mute = false;
      else if(a == "--known") { std::istringstream is(next()); std::string k; while(std::getline(is, k, ',')) if(!k.empty()) G().known.insert(k); }
      else if(a == "--replay") replayPath = next();
   }
   if(nw > MAX_WORKERS) nw = MAX_WORKERS;
   if(!replayPath.empty()) {
      // text format: "arm <name>" and "choices <n...>" lines
      std::string body = slurp(replayPath, 1 << 22), line, armName;
      std::vector<uint64_t> c;
      std::istringstream is(body);
      while(std::getline(is, line)) {
         if(line.rfind("arm ", 0) == 0) armName = line.substr(4);
         else if(line.rfind("choices", 0) == 0) { std::istringstream ls(line.substr(7)); uint64_t v; while(ls >> v) c.push_back(v); }
      }
      for(auto& a: arms()) {
         if(a.name != armName) continue;
         for(int k = 0; k < a.replays; ++k) {
            Replay r = replay(dir, a, c, true, a.hangSeconds);
            if(r.failed) { printf("%s\nreplay: FAILED: %s\n%s", r.trace.c_str(), r.msg.c_str(), r.err.c_str()); return 1; }
            if(k == 0) printf("%s", r.trace.c_str());
         }
         printf("replay: passed\n");
         return 0;
      }
      fprintf(stderr, "no arm %s\n", armName.c_str());
      return 2;
   }
   if(!only.empty()) {
      std::vector<Arm> keep;
      for(auto& a: arms()) if(a.name == only) keep.push_back(a);
      arms() = keep;
   }
   int64_t t0 = nowUs();
   uint64_t total = 0;
   for(auto& a: arms()) total += (uint64_t)((thorough ? a.thorough : a.quick) * scale);
   size_t maxHashes = total / nw + 16 * arms().size() + 1024;
   uint64_t* hashes = (uint64_t*)mmap(nullptr, maxHashes * nw * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   if(hashes == MAP_FAILED) { perror("mmap"); return 2; }
   std::vector<Shm*> shm(nw);
   std::vector<pid_t> pid(nw);
   fflush(nullptr);
   for(unsigned w = 0; w < nw; ++w) {
      shm[w] = newShm();
      pid[w] = fork();
      if(pid[w] == 0) {
         setpgid(0, 0);
         worker(shm[w], w, nw, thorough, scale, budget, hashes + w * maxHashes, maxHashes, dir + "/w" + std::to_string(w) + ".err", mute);
      }
   }
   int failedW = -1;
   bool failedHang = false;
   std::vector<bool> live(nw, true);
   unsigned nLive = nw;
   auto killAll = [&]() { for(unsigned w = 0; w < nw; ++w) if(live[w]) { kill(-pid[w], SIGKILL); kill(pid[w], SIGKILL); int st; waitpid(pid[w], &st, 0); live[w] = false; } nLive = 0; };
   uint64_t unconfirmed = 0;
   std::string fmsg, ferr, ftrace, farm;
   std::vector<uint64_t> fchoices;
   bool violation = false;
   int shrinkTried = 0;
   std::string unconfirmedMsg;
   std::map<std::pair<uint32_t, uint64_t>, int> seen;
   while(nLive) {
      int st;
      pid_t p = waitpid(-1, &st, WNOHANG);
      int w = -1;
      bool hang = false;
      if(p > 0) {
         for(unsigned k = 0; k < nw; ++k) if(live[k] && pid[k] == p) w = (int)k;
         if(w < 0) continue;
         live[w] = false; --nLive;
         if(shm[w]->state == 2 && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
      } else {
         for(unsigned k = 0; k < nw; ++k) {
            if(!live[k] || shm[k]->caseNo == 0) continue;
            double lim = arms()[shm[k]->arm].hangSeconds;
            if(nowUs() - shm[k]->startedUs > lim * 1e6) { kill(-pid[k], SIGKILL); kill(pid[k], SIGKILL); waitpid(pid[k], &st, 0); live[k] = false; --nLive; w = (int)k; hang = true; break; }
         }
         if(w < 0) { usleep(2000); continue; }
      }
      // a failing case
      const Arm& arm = arms()[shm[w]->arm];
      std::vector<uint64_t> c(shm[w]->choices, shm[w]->choices + shm[w]->nChoices);
      std::string m = shm[w]->state == 1 ? std::string(shm[w]->msg) : hang ? "hang" : "crash: " + firstLine(slurp(dir + "/w" + std::to_string(w) + ".err"));
      int ok = 0;
      Replay last;
      if(hang && !arm.hangIsFailure) { ++unconfirmed; unconfirmedMsg = arm.name + ": hang without verdict"; continue; }
      for(int k = 0; k < arm.replays; ++k) {
         Replay r = replay(dir, arm, c, true, arm.hangSeconds);
         if(r.failed) { ++ok; last = r; if(ok >= arm.needed) break; }
         else if(arm.needed == arm.replays) break;
      }
      if(ok >= arm.needed) {
         killAll();
         violation = true;
         failedW = w; failedHang = last.hang;
         std::vector<uint64_t> small = shrink(dir, arm, c, shrinkS, failedHang, shrinkTried);
         int good = 0; Replay fin;
         for(int k = 0; k < std::max(arm.replays, 3); ++k) { Replay r = replay(dir, arm, small, true, arm.hangSeconds); if(r.failed) { ++good; fin = r; if(good >= arm.needed) break; } }
         if(good < arm.needed) { small = c; fin = last; }
         fchoices = small; fmsg = fin.msg; ftrace = fin.trace; ferr = fin.err; farm = arm.name;
         break;
      }
      // not reproducible: never reported as a violation; counted, and the worker's remaining share goes on
      ++unconfirmed;
      unconfirmedMsg = arm.name + ": " + m;   // (the worker's remaining share is dropped; the counts say so)
   }
   // aggregate
   uint64_t evals = 0, nontriv = 0, disc = 0, known = 0;
   std::map<std::string, uint64_t> labels;
   std::set<uint64_t> distinct;
   std::set<std::string> knownIds;
   for(unsigned w = 0; w < nw; ++w) {
      evals += shm[w]->evals; nontriv += shm[w]->nontrivial; disc += shm[w]->discards; known += shm[w]->known;
      for(int i = 0; i < MAX_LABELS && shm[w]->labelName[i][0]; ++i) labels[shm[w]->labelName[i]] += shm[w]->labelCount[i];
      for(uint64_t i = 0; i < shm[w]->nHashes; ++i) distinct.insert(hashes[w * maxHashes + i]);
      std::istringstream is(shm[w]->knownIds); std::string k;
      while(std::getline(is, k, ';')) if(!k.empty()) knownIds.insert(k);
   }
   std::vector<std::pair<std::string, std::string>> samples;
   if(!violation) {
      std::map<uint32_t, int> per;
      for(unsigned w = 0; w < nw && samples.size() < 6; ++w)
         for(uint32_t q = 0; q < shm[w]->nSamples && samples.size() < 6; ++q) {
            uint32_t ai = shm[w]->sampleArm[q];
            if(per[ai]++ >= 2) continue;
            // replay by regenerating from the case seed, with tracing
            const Arm& arm = arms()[ai];
            Shm* sm = newShm();
            fflush(nullptr);
            pid_t pp = fork();
            if(pp == 0) {
               int nul = open("/dev/null", O_WRONLY); if(nul >= 0) { dup2(nul, 1); dup2(nul, 2); }
               if(G().perProcess) G().perProcess();
               Src s(sm, caseSeed(arm, shm[w]->sampleCase[q]), true);
               std::string msg;
               runCase(sm, arm, s, msg);
               _exit(0);
            }
            int64_t ts = nowUs(); int st2;
            while(waitpid(pp, &st2, WNOHANG) != pp) { if(nowUs() - ts > 20e6) { kill(pp, SIGKILL); waitpid(pp, &st2, 0); break; } usleep(1000); }
            std::string tr(sm->trace, sm->trace + std::min<uint64_t>(sm->traceLen, 1500));
            samples.push_back({arm.name, tr});
            munmap(sm, sizeof(Shm));
         }
   }
   std::ostringstream js;
   js << "{\"property\": " << jstr(property) << ", \"seed\": " << G().seed << ", \"planned\": " << total << ", \"evaluations\": " << evals
      << ", \"nontrivial\": " << nontriv << ", \"distinct_nontrivial\": " << distinct.size() << ", \"discarded\": " << disc
      << ", \"known_hits\": " << known << ", \"unconfirmed\": " << unconfirmed << ", \"unconfirmed_example\": " << jstr(unconfirmedMsg);
   js << ", \"known_ids\": [";
   { bool f = true; for(auto& k: knownIds) { js << (f ? "" : ", ") << jstr(k); f = false; } }
   js << "], \"labels\": {";
   { bool f = true; for(auto& l: labels) { js << (f ? "" : ", ") << jstr(l.first) << ": " << l.second; f = false; } }
   js << "}, \"samples\": [";
   { bool f = true; for(auto& s: samples) { js << (f ? "" : ", ") << "{\"arm\": " << jstr(s.first) << ", \"case\": " << jstr(s.second) << "}"; f = false; } }
   js << "], \"wall_s\": " << (nowUs() - t0) / 1e6 << ", \"violation\": " << (violation ? "true" : "false");
   if(violation) {
      js << ", \"arm\": " << jstr(farm) << ", \"message\": " << jstr(fmsg) << ", \"trace\": " << jstr(ftrace.substr(0, 60000)) << ", \"stderr\": " << jstr(ferr)
         << ", \"shrink_tried\": " << shrinkTried << ", \"choices\": [";
      for(size_t i = 0; i < fchoices.size(); ++i) js << (i ? ", " : "") << fchoices[i];
      js << "]";
   }
   js << "}\n";
   FILE* f = fopen(out.c_str(), "w");
   if(!f) { perror(out.c_str()); return 2; }
   fputs(js.str().c_str(), f);
   fclose(f);
   (void)failedW;
   return violation ? 1 : 0;
}

}

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
/// PBT_ARM(name, quick, thorough, leakCheck) { ... uses s ... }
#define PBT_ARM(NAME, QUICK, THOROUGH, LEAK) \
   static void PBT_CAT(arm_, NAME)(pbt::Src& s); \
   static pbt::AddArm PBT_CAT(add_, NAME)(pbt::Arm{#NAME, QUICK, THOROUGH, PBT_CAT(arm_, NAME), LEAK}); \
   static void PBT_CAT(arm_, NAME)([[maybe_unused]] pbt::Src& s)

/// Scheduler-driven arms: a wall-clock hang only says that the code blocks in ways the scheduler does not see.
#define PBT_ARM_COOP(NAME, QUICK, THOROUGH, LEAK) \
   static void PBT_CAT(arm_, NAME)(pbt::Src& s); \
   static pbt::AddArm PBT_CAT(add_, NAME)(pbt::Arm{#NAME, QUICK, THOROUGH, PBT_CAT(arm_, NAME), LEAK, 3, 3, 20, false}); \
   static void PBT_CAT(arm_, NAME)([[maybe_unused]] pbt::Src& s)
/// Real threads: a failure must show again in one of many replays.
#define PBT_ARM_RT(NAME, QUICK, THOROUGH, REPLAYS) \
   static void PBT_CAT(arm_, NAME)(pbt::Src& s); \
   static pbt::AddArm PBT_CAT(add_, NAME)(pbt::Arm{#NAME, QUICK, THOROUGH, PBT_CAT(arm_, NAME), false, REPLAYS, 1, 30, true}); \
   static void PBT_CAT(arm_, NAME)([[maybe_unused]] pbt::Src& s)

#endif

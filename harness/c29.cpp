// C29: test output is captured per test and reported as verbosity says.
#include "futmodel.hpp"
using namespace fm;
static size_t count(const std::string& in, const std::string& what) { size_t n = 0; for(size_t p = 0; (p = in.find(what, p)) != std::string::npos; p += what.size()) ++n; return n; }
static std::vector<std::string> linesOf(const std::string& t) { std::vector<std::string> o; std::istringstream is(t); std::string l; while(std::getline(is, l)) o.push_back(l); return o; }
/// The number in front of the test's name in a line "[ 12: name ...".
static int numberIn(const std::string& l) { size_t p = l.find('['); return p == std::string::npos ? -1 : atoi(l.c_str() + p + 1); }

PBT_ARM(programs, 40000, 1000000, true) {
   Opts o; o.textKind = s.pick({1, 2, 3}); o.failOf6 = (unsigned)s.pick({1, 3, 0, 5});
   World w(s, o); w.generate(7);
   // a failing stream would swallow the framework's own output when nothing is captured
   bool capture = s.coin(4, 5), breaks = false;
   if(capture) for(auto& p: w.plans) if(s.coin(1, 10)) { Act a; a.k = Act::BREAK; p.body.insert(p.body.begin() + (long)s.draw(p.body.size() + 1), a); NOTE(s, "test " << p.full() << " breaks its stream"); }
   if(capture) for(auto& p: w.plans) for(auto& a: p.body) breaks = breaks || a.k == Act::BREAK;
   size_t rounds = 1 + s.draw(2);
   for(size_t round = 0; round < rounds; ++round) {
   if(round && !breaks) capture = s.coin(4, 5);
   int verb = (int)s.draw(6);
   std::vector<std::string> args = {"some/dir/prog.x"};
   if(verb == 0 && s.coin()) args.push_back("-q"); else { args.push_back("-v"); args.push_back(std::to_string(verb)); }
   if(!capture) args.push_back("-c");
   if(s.coin(1, 4)) args.push_back("-e");
   auto sel = anySelection(s, w);
   for(size_t t: sel) { args.push_back("-t"); args.push_back(w.plans[t].full()); }
   auto e = w.expected(sel);
   auto flagsBefore = std::cout.flags();
   Result r = runMain(w, args);
   REQUIRE(s, std::cout.flags() == flagsBefore, "the standard output's format is changed");
   auto ex = executions(s, w, r.trace);
   auto ls = linesOf(r.out);
   std::vector<Expect> x; for(size_t i = 0; i < w.plans.size(); ++i) x.push_back(simulate(w.plans[i], capture));
   bool any = false, shown = false, failed = false;
   std::map<std::string, bool> compFailed; std::set<std::string> failedNames;
   for(size_t t: ex) if(!x[t].passed()) { failed = true; compFailed[w.plans[t].comp] = true; failedNames.insert(w.plans[t].full()); }
   // what was captured, test by test
   for(size_t i: std::set<size_t>(ex.begin(), ex.end())) {
      if(capture) {
         REQUIRE(s, x[i].out == w.tests[i]->capturedOut(), "the output captured for test " << i << " is " << pbt::show(w.tests[i]->capturedOut()) << " instead of " << pbt::show(x[i].out));
         REQUIRE(s, x[i].err == w.tests[i]->capturedErr(), "the error output captured for test " << i << " is " << pbt::show(w.tests[i]->capturedErr()) << " instead of " << pbt::show(x[i].err));
      } else REQUIRE(s, !*w.tests[i]->capturedOut() && !*w.tests[i]->capturedErr(), "test " << i << " has captured text although nothing is to be captured");
   }
   if(!capture) {
      std::string err, out; for(size_t t: ex) { err += x[t].err; out += x[t].out; }
      REQUIRE(s, r.err == err, "uncaptured error output comes out as " << pbt::show(r.err) << " instead of " << pbt::show(err));
      if(verb == 0) REQUIRE(s, r.out == out, "uncaptured output comes out as " << pbt::show(r.out) << " instead of " << pbt::show(out));
      size_t p = 0;
      for(size_t t: ex) { size_t q = r.out.find(x[t].out, p); REQUIRE(s, q != std::string::npos, "uncaptured output of test " << t << " is altered or out of order"); p = q + x[t].out.size(); }
   } else {
      REQUIRE(s, r.err.empty(), "something is written on the error stream: " << pbt::show(r.err));
      if(verb == 0) REQUIRE(s, r.out.empty(), "a silent run writes " << pbt::show(r.out));
      for(size_t i = 0; i < w.plans.size(); ++i) {
         size_t times = (size_t)std::count(ex.begin(), ex.end(), i);
         bool bad = !x[i].passed();
         auto shownAs = [&](const std::string& text, const char* head, bool show) {
            if(text.empty() || text.find('!') == std::string::npos) return;          // (a mere number is no mark)
            size_t n = count(r.out, text);
            size_t want = show ? times : 0;
            // a failed check's description may repeat the text
            REQUIRE(s, n == want, head << " of test " << i << " (" << (bad ? "failed" : "passed") << ") is shown " << n << " times instead of " << want << " at verbosity " << verb);
            any = any || text.size(); shown = shown || want;
            for(size_t p = 0, k = 0; k < want; ++k) {
               p = r.out.find(text, p);
               size_t h = r.out.rfind(head, p);
               REQUIRE(s, h != std::string::npos, "captured text is shown without saying what it is");
               std::string hl = r.out.substr(h, r.out.find('\n', h) - h);
               REQUIRE(s, hl == std::string(head) + " " + w.plans[i].full(), "captured text of test " << i << " is shown under " << pbt::show(hl));
               p += text.size();
            }
         };
         shownAs(x[i].out, "STDOUT", verb >= 5 || (verb > 0 && bad));
         shownAs(x[i].err, "STDERR", verb >= 4 || (verb > 0 && bad));
      }
   }
   if(verb == 0) { if(capture && failed) s.label("silent failure"); }
   else if(capture || o.textKind == 1) {
      // per execution: announcement and result; the lines of the framework start with a bracket, tests' texts with a letter
      size_t k = 0; std::string text = r.out;
      size_t pos = 0;
      for(size_t t: ex) {
         ++k;
         std::string n50 = w.plans[t].full().substr(0, 50);
         auto statusLine = [&](const char* word, size_t from) -> size_t {
            for(size_t p = from; (p = text.find(n50, p)) != std::string::npos; ++p) {
               size_t b = text.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1;
               size_t en = text.find('\n', p); if(en == std::string::npos) en = text.size();
               std::string l = text.substr(b, en - b);
               size_t br = l.rfind('[', p - b);
               if(br == std::string::npos || l.empty() || l.back() != ']') continue;
               l = l.substr(br);
               size_t wd = l.rfind(word);
               if(wd == std::string::npos || l.size() - wd > strlen(word) + 4) continue;
               if(numberIn(l) != (int)k) continue;
               return en;
            }
            return std::string::npos;
         };
         size_t go = statusLine("GO", pos);
         REQUIRE(s, (go != std::string::npos) == (verb >= 3), "execution " << k << " is " << (verb >= 3 ? "not announced" : "announced") << " at verbosity " << verb);
         if(go != std::string::npos) pos = go;
         if(x[t].passed()) {
            size_t ok = statusLine("OK", pos);
            REQUIRE(s, (ok != std::string::npos) == (verb >= 2), "the result of execution " << k << " is " << (verb >= 2 ? "not " : "") << "reported at verbosity " << verb);
            if(ok != std::string::npos) pos = ok;
         } else {
            REQUIRE(s, statusLine("OK", pos) == std::string::npos, "a failed execution is reported as good");
            auto st = w.tests[t]->status();
            if(st == TestCase::FAIL || st == TestCase::ERROR) {
               size_t nm = text.find(w.plans[t].full(), pos);
               REQUIRE(s, nm != std::string::npos, "failed test " << t << " is not reported");
               size_t ds = text.find(w.tests[t]->failDesc(), nm);
               REQUIRE(s, ds != std::string::npos, "the reason of the failure of test " << t << " is not reported");
            } else if(verb >= 2) { size_t fl = statusLine("FAIL", pos); REQUIRE(s, fl != std::string::npos, "the result of failed execution " << k << " is not reported"); pos = fl; }
         }
      }
      // the final report
      size_t fc = r.out.rfind("Failed cases: ");
      REQUIRE(s, (fc != std::string::npos) == failed, "failed cases are " << (failed ? "not listed" : "listed though none failed"));
      if(fc != std::string::npos) {
         std::string l = r.out.substr(fc + 14, r.out.find('\n', fc) - fc - 14);
         std::set<std::string> got; size_t p = 0;
         while(true) { size_t q = l.find(", ", p); got.insert(l.substr(p, q == std::string::npos ? q : q - p)); if(q == std::string::npos) break; p = q + 2; }
         REQUIRE(s, got == failedNames, "the failed cases are listed as " << pbt::show(l));
      }
      for(auto& c: e.byComp) {
         bool found = false, good = false;
         for(auto& l: ls) if(l.find("Component " + c.first + " ") != std::string::npos) { found = true; good = l.find("Passed") != std::string::npos && l.find("FAILED") == std::string::npos; }
         REQUIRE(s, found == (e.byComp.size() > 1), "component " << c.first << (found ? " is summed up alone" : " is not summed up"));
         if(found) REQUIRE(s, good == !compFailed[c.first], "component " << c.first << " is reported as " << (good ? "passed" : "failed"));
      }
      bool found = false;
      for(auto& l: ls) if(l.find("Unit Test prog ") != std::string::npos) { found = true; REQUIRE(s, (l.find("Passed") != std::string::npos) == !failed, "the run is reported as " << pbt::show(l)); }
      REQUIRE(s, found, "the run is not summed up");
   }
   if(capture && any && (shown || failed)) s.nontrivial();
   if(!capture) s.label("capture off");
   if(round) s.label("run again");
   }
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C29"); }

// C32: the test program's command line means what the help says.
#include "futmodel.hpp"
#include "xml.hpp"
#include <sys/mman.h>
using namespace fm;
struct File { // in memory, written through its path
   int fd = memfd_create("report", 0);
   ~File() { close(fd); }
   std::string path() const { return "/proc/self/fd/" + std::to_string(fd); }
   std::string text() const { std::string o; char b[4096]; ssize_t n; while((n = pread(fd, b, sizeof b, (off_t)o.size())) > 0) o.append(b, (size_t)n); return o; }
};
struct Line { // what the arguments mean
   bool refused = false, help = false, capture = true;
   std::string why, name, id; int verb = 2; int report = -1;    // file; -2: cannot be saved
   std::vector<size_t> sel;
};
PBT_ARM(lines, 40000, 1000000, true) {
   Opts o; o.textKind = 1; o.failOf6 = (unsigned)s.pick({1, 0, 3}); o.formats = false; o.nameKind = s.pick({0, 0, 1});
   World w(s, o); w.generate(5);
   for(size_t i = 0; i < w.plans.size(); ++i) { Act a; a.k = Act::OUT; a.t = "said by " + std::to_string(i) + "!"; w.plans[i].body.insert(w.plans[i].body.begin(), a); }
   File files[2];
   // the program's name
   std::string stem = s.coin(1, 3) ? s.pick({"prog", "a b", "x-1", "\xc3\xa9t\xc3\xa9", "P"}) : "u" + s.text(8, 0);
   std::string exe = s.pick({"", "./", "/", "/usr/lib.d/", "../up.x/", "dir/sub dir/", "a.b/c.d/"}) + stem + s.pick({"", ".exe", ".x", ".fut", "."});
   std::vector<std::string> args = {exe};
   Line l; l.name = l.id = stem;
   size_t nopts = s.coin(1, 8) ? 0 : 1 + s.draw(s.coin(1, 3) ? 12 : 4), odd = 0;
   std::set<char> seen; bool again = false;
   auto refuse = [&](const std::string& why) { if(!l.refused) { l.refused = true; l.why = why; } };
   bool wild = s.coin(1, 3);
   for(size_t k = 0; k < nopts; ++k) {
      size_t what = s.weighted({3, 3, 2, 6, 6, 5, 5, 5, wild ? 1u : 0u, wild ? 3u : 0u});
      const char* flags[] = {"-q", "-c", "-e", "-v", "-t", "-x", "-n", "-i", "-h"};
      bool takes = what >= 3 && what <= 7;
      if(what < 9) args.push_back(flags[what]);
      if(what < 8 && !l.refused) { char f = flags[what][1]; if(seen.count(f)) again = true; seen.insert(f); }
      if(takes && k + 1 == nopts && wild && s.coin(1, 3)) { refuse("the value is missing"); break; }
      switch(what) {
      case 0: if(!l.refused) l.verb = 0; break;
      case 1: if(!l.refused) l.capture = false; break;
      case 2: break;
      case 3:
         if(wild && s.coin(1, 4)) { args.push_back(s.pick({"6", "-1", "x", "", "100", "99999999999999999999", "-99999999999999999999", "loud", "-", "7", "-q", "4294967296", "4294967298"})); refuse("the verbosity is out of range"); }
         else { int v = (int)s.draw(6); args.push_back(std::to_string(v)); if(!l.refused) l.verb = v; }
         break;
      case 4:
         if(wild && s.coin(1, 4)) {
            std::string n = s.coin() ? s.pick({"", "::", "-q", "nothing", "C::", "-t"}) : w.plans[s.draw(w.plans.size())].full();
            if(s.coin()) n += "x"; else if(!n.empty()) n.erase(s.draw(n.size()), 1);
            bool is = false; for(auto& p: w.plans) is = is || p.full() == n;
            if(is) n = "no::such test";
            args.push_back(n); refuse("the test is unknown");
         } else { size_t t = s.draw(w.plans.size()); args.push_back(w.plans[t].full()); if(!l.refused) l.sel.push_back(t); }
         break;
      case 5: { int f = (int)s.draw(3); if(f == 2) f = s.coin(1, 4) ? -2 : 0; args.push_back(f == -2 ? "/no such directory/report.xml" : files[f].path()); if(!l.refused) l.report = f; break; }
      case 6: { std::string t = s.coin(1, 6) ? s.pick({"-q", "-h", "-t", "a name with  spaces", "-"}) : "n" + s.text(8, 1); args.push_back(t); if(!l.refused) l.name = t; break; }
      case 7: { std::string t = s.coin(1, 6) ? s.pick({"-q", "-h", "-t", "an id with  spaces", "-"}) : "i" + s.text(8, 1); args.push_back(t); if(!l.refused) l.id = t; break; }
      case 8: if(!l.refused) l.help = true; refuse("help was asked for"); ++odd; break;
      default: args.push_back(s.pick({"-z", "--help", "help", "", "-", "-vv", "-v3", "-T", "-qq", "--", "-Q", "3", "-hh", "-t=x"})); refuse("the option is unknown"); break;
      }
   }
   bool noArgs = s.coin(1, 40);
   if(noArgs) { args.clear(); l = Line(); }
   auto e = w.expected(l.sel);
   Result r = runMain(w, args, anyOrder(s, w.plans.size()));
   std::string cmd = "with" + show(args);
   std::string doc[2] = {files[0].text(), files[1].text()};
   if(l.refused) {
      s.label(l.why);
      if(args.size() > 2) s.nontrivial();
      REQUIRE(s, r.trace.empty(), "tests are run although " << l.why << ", " << cmd);
      REQUIRE(s, r.status != 0, "the status is 0 although " << l.why << ", " << cmd);
      REQUIRE(s, !(r.out + r.err).empty(), "nothing is said although " << l.why << ", " << cmd);
      if(l.help) for(const char* f: {"-c", "-e", "-h", "-i", "-n", "-q", "-t", "-v", "-x"}) REQUIRE(s, (r.out + r.err).find(f) != std::string::npos, "the help doesn't mention " << f);
      REQUIRE(s, doc[0].empty() && doc[1].empty(), "a report is written although " << l.why << ", " << cmd);
      return;
   }
   auto ex = executions(s, w, r.trace);
   checkGrouping(s, w, e, ex);
   bool all = true; for(size_t t: e.todo) all = all && simulate(w.plans[t], l.capture).passed();
   REQUIRE(s, (r.status == 0) == all, "the exit status is " << r.status << " although " << (all ? "every" : "not every") << " executed test passed, " << cmd);
   // the report
   for(int f = 0; f < 2; ++f) {
      REQUIRE(s, doc[f].empty() == (l.report != f), "the report " << (doc[f].empty() ? "isn't saved" : "is saved") << " in file " << f << ", " << cmd);
      if(doc[f].empty()) continue;
      try {
         xml::Elem x = xml::parse(doc[f]);
         REQUIRE(s, x.get("name") == l.name, "the report's name is " << pbt::show(x.get("name")) << " instead of " << pbt::show(l.name) << ", " << cmd);
         REQUIRE(s, x.get("id") == l.id, "the report's id is " << pbt::show(x.get("id")) << " instead of " << pbt::show(l.id) << ", " << cmd);
      } catch(xml::Bad& b) { s.fail(std::string("the report is not well formed: ") + b.what()); }
   }
   // capture and verbosity
   for(size_t t: std::set<size_t>(ex.begin(), ex.end())) {
      auto x = simulate(w.plans[t], l.capture);
      if(!x.bodyRan) continue;
      std::string mark = "said by " + std::to_string(t) + "!";
      size_t times = (size_t)std::count(ex.begin(), ex.end(), t), shown = 0;
      for(size_t p = 0; (p = r.out.find(mark, p)) != std::string::npos; ++p) ++shown;
      REQUIRE(s, (std::string(w.tests[t]->capturedOut()).find(mark) != std::string::npos) == l.capture, "text is " << (l.capture ? "not " : "") << "captured, " << cmd);
      size_t want = !l.capture || l.verb >= 5 || (l.verb && !x.passed()) ? times : 0;
      REQUIRE(s, shown == want, "the output of " << (x.passed() ? "passed" : "failed") << " test " << t << " is shown " << shown << " times instead of " << want << ", " << cmd);
      if(!x.passed()) continue;
      std::string nm = w.plans[t].full().substr(0, 50); size_t oks = 0, gos = 0;
      std::istringstream is(r.out); std::string li;
      while(std::getline(is, li)) { size_t at = li.rfind(nm), b = at == std::string::npos ? at : li.rfind('[', at ? at - 1 : 0); if(b == std::string::npos || li.back() != ']') continue; size_t g = li.rfind("GO"), k = li.rfind("OK"); if(g != std::string::npos && g + 6 > li.size()) ++gos; else if(k != std::string::npos && k + 6 > li.size()) ++oks; }
      bool once = true; for(size_t u = 0; u < w.plans.size(); ++u) once = once && (u == t || w.plans[u].full().substr(0, 50) != nm);
      if(!once) continue;
      REQUIRE(s, (oks > 0) == (l.verb >= 2), "test " << t << "'s result is " << (oks ? "" : "not ") << "reported at verbosity " << l.verb << ", " << cmd);
      REQUIRE(s, (gos > 0) == (l.verb >= 3), "test " << t << " is " << (gos ? "" : "not ") << "announced at verbosity " << l.verb << ", " << cmd);
   }
   REQUIRE(s, (r.out.find("Unit Test " + l.name + " ") != std::string::npos) == (l.verb > 0), "the run's name is " << (l.verb ? "not " : "") << "in the summary, " << cmd);
   if(l.verb == 0 && l.capture) REQUIRE(s, r.out.empty(), "a silent run writes " << pbt::show(r.out) << ", " << cmd);
   if(l.capture && l.report != -2) REQUIRE(s, r.err.empty(), "the run writes " << pbt::show(r.err) << " on the error stream, " << cmd);
   if(seen.size() > 1) s.nontrivial();
   if(again) s.label("repeated option");
   if(noArgs) s.label("no arguments at all");
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C32"); }

// C30: the XML report is well formed and says what happened.
#include "futmodel.hpp"
#include "xml.hpp"
#include <sys/mman.h>
using namespace fm;
static void checkReport(pbt::Src& s, const World& w, const World::Expected& e, const std::string& doc, const std::string& id, const std::string& name, bool capture) {
   xml::Elem root;
   try { root = xml::parse(doc); } catch(xml::Bad& b) { REQUIRE(s, false, "the report is not well formed: " << b.what() << ": " << pbt::show(doc, 400)); }
   try {
      auto num = [&](const xml::Elem& x, const char* a) { std::string v = x.get(a); REQUIRE(s, !v.empty() && v.find_first_not_of("0123456789") == std::string::npos, "attribute " << a << " of <" << x.name << "> is " << pbt::show(v)); return (size_t)std::stoull(v); };
      REQUIRE(s, root.name == "testsuites", "the report is a <" << root.name << ">");
      REQUIRE(s, root.get("id") == id, "the report's id is " << pbt::show(root.get("id")) << " instead of " << pbt::show(id));
      REQUIRE(s, root.get("name") == name, "the report's name is " << pbt::show(root.get("name")) << " instead of " << pbt::show(name));
      std::map<std::string, std::multiset<std::string>> want, got;
      std::map<std::pair<std::string, std::string>, std::vector<size_t>> byName;
      for(auto& c: e.byComp) for(size_t i: c.second) want[c.first].insert(w.plans[i].name);
      for(size_t i: std::set<size_t>(e.todo.begin(), e.todo.end())) byName[{w.plans[i].comp, w.plans[i].name}].push_back(i);
      size_t allTests = 0, allFailed = 0;
      for(auto& su: root.kids) {
         REQUIRE(s, su.name == "testsuite", "a <" << su.name << "> is among the suites");
         std::string comp = su.get("name");
         REQUIRE(s, !got.count(comp), "component " << pbt::show(comp) << " is listed twice");
         REQUIRE(s, su.get("id") == id + "." + comp, "component " << pbt::show(comp) << " has id " << pbt::show(su.get("id")));
         got[comp]; size_t failed = 0;
         std::map<std::string, std::vector<const xml::Elem*>> cases;
         for(auto& tc: su.kids) {
            REQUIRE(s, tc.name == "testcase", "a <" << tc.name << "> is among the tests");
            std::string n = tc.get("name");
            got[comp].insert(n); cases[n].push_back(&tc);
            REQUIRE(s, tc.get("id") == id + "." + comp + "." + n, "test " << pbt::show(n) << " has id " << pbt::show(tc.get("id")));
            size_t fs = 0; for(auto& f: tc.kids) { REQUIRE(s, f.name == "failure" || f.name == "error", "a <" << f.name << "> is in a test"); ++fs; }
            REQUIRE(s, fs <= 1, "a test has several failures");
            failed += fs;
         }
         REQUIRE(s, num(su, "tests") == su.kids.size(), "component " << pbt::show(comp) << " counts " << num(su, "tests") << " tests but lists " << su.kids.size());
         REQUIRE(s, num(su, "failures") == failed, "component " << pbt::show(comp) << " counts " << num(su, "failures") << " failures but lists " << failed);
         allTests += su.kids.size(); allFailed += failed;
         for(auto& c: cases) {
            auto& is = byName[{comp, c.first}];
            if(is.size() != 1) continue;        // (same name: which is which is left open)
            size_t i = is[0]; const Gen& g = *w.tests[i]; Expect x = simulate(w.plans[i], capture);
            for(auto* tc: c.second) {
               REQUIRE(s, tc->kids.empty() == x.passed(), "test " << pbt::show(c.first) << " is reported as " << (tc->kids.empty() ? "passed" : "failed"));
               if(tc->kids.empty()) continue;
               const xml::Elem& f = tc->kids[0];
               REQUIRE(s, f.get("message") == g.failDesc(), "the failure of test " << pbt::show(c.first) << " is reported as " << pbt::show(f.get("message")) << " instead of " << pbt::show(g.failDesc()));
               REQUIRE(s, f.get("type") == g.statusDesc(), "the failure of test " << pbt::show(c.first) << " has type " << pbt::show(f.get("type")));
               REQUIRE(s, f.text.find(g.failDesc()) != std::string::npos, "the failure of test " << pbt::show(c.first) << " is described as " << pbt::show(f.text));
               if(g.status() == TestCase::FAIL) {
                  REQUIRE(s, f.text.find("File: " + std::string(g.failFile()) + "\n") != std::string::npos, "the failure's file is not in " << pbt::show(f.text));
                  REQUIRE(s, f.text.find("Line: " + std::to_string(g.failLine()) + "\n") != std::string::npos, "the failure's line is not in " << pbt::show(f.text));
               }
            }
         }
      }
      REQUIRE(s, want == got, "the report lists other tests than those executed");
      REQUIRE(s, num(root, "tests") == allTests, "the report counts " << num(root, "tests") << " tests but lists " << allTests);
      REQUIRE(s, num(root, "failures") == allFailed, "the report counts " << num(root, "failures") << " failures but lists " << allFailed);
   } catch(xml::Bad& b) { REQUIRE(s, false, b.what()); }
}
static std::string spice(pbt::Src& s, std::string t) { if(s.coin(1, 5)) t.insert(s.draw(t.size() + 1), s.pick({"\xc3\xa9", "\xe6\xbc\xa2", "&amp;", "]]>", "<!--", "\xf0\x9f\x99\x82", "&#0;", "\"", "'", "\x7f", "\xc2\x85", "\r", "\t", "\n", "   ", "\xef\xbf\xbd", "%s", "\\", "?", "]]"})); return t; }
PBT_ARM(reports, 40000, 1000000, true) {
   Opts o; o.textKind = s.pick({1, 2}); o.nameKind = s.pick({0, 1, 2, 2}); o.failOf6 = (unsigned)s.pick({1, 3, 0, 5}); o.dupNames = s.coin(1, 8);
   World w(s, o); w.generate(8);
   auto& pl = w.plans;
   bool markup = false; auto marks = [](const std::string& t) { return t.find_first_of("<>&\"'\n") != std::string::npos; };
   // (the plans are the tests': change texts in place; the same component stays the same)
   std::map<std::string, std::string> ren;
   for(auto& p: pl) { if(!ren.count(p.comp)) ren[p.comp] = o.nameKind ? spice(s, p.comp) : p.comp; p.comp = ren[p.comp]; if(o.nameKind && !o.dupNames) p.name = spice(s, p.name); for(auto* v: {&p.setup, &p.body, &p.down}) for(auto& a: *v) if(a.k == Act::FAILMSG || a.k == Act::THROWSTD || a.k == Act::BADSTR || a.k == Act::FAILFN) { a.t = spice(s, a.t); markup = markup || marks(a.t); } markup = markup || marks(p.comp) || marks(p.name); NOTE(s, "named " << pbt::show(p.full(), 80)); }
   int fd = memfd_create("report", 0);
   std::string path = "/proc/self/fd/" + std::to_string(fd);
   std::string id = "prog", name = "prog";
   std::vector<std::string> args = {"/a/prog"};
   args.push_back("-x"); args.push_back(path);
   if(s.coin(1, 3)) { id = spice(s, s.text(10, o.textKind)); args.push_back("-i"); args.push_back(id); markup = markup || marks(id); }
   if(s.coin(1, 3)) { name = spice(s, s.text(10, o.textKind)); args.push_back("-n"); args.push_back(name); markup = markup || marks(name); }
   bool capture = s.coin(5, 6);
   if(!capture) args.push_back("-c");
   if(s.coin()) args.push_back("-q");
   size_t rounds = 1 + s.draw(4) / 3, base = args.size();
   World::Expected e; bool failed = false;
   if(s.coin(1, 3)) { s.label("over another file"); std::string junk = s.grown("<testsuites", 70000, 1, 2); NOTE(s, "the file had " << junk.size() << " bytes"); REQUIRE(s, write(fd, junk.data(), junk.size()) == (ssize_t)junk.size(), "(cannot write)"); }
   for(size_t k = 0; k < rounds; ++k) {
      auto sel = anySelection(s, w);
      args.resize(base);
      for(size_t t: sel) { args.push_back("-t"); args.push_back(pl[t].full()); }
      e = w.expected(sel);
      for(size_t i: e.todo) failed = failed || !simulate(pl[i], capture).passed();
      runMain(w, args);
      std::string doc; char buf[4096]; ssize_t n; off_t at = 0;
      while((n = pread(fd, buf, sizeof buf, at)) > 0) { doc.append(buf, (size_t)n); at += n; }
      checkReport(s, w, e, doc, id, name, capture);
   }
   close(fd);
   if(markup && failed) s.nontrivial();
   if(markup) s.label("markup");
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C30"); }

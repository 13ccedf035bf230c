// C15: compiled code reproduces its source.
#include "pbt.hpp"
#include <falcon/engine/compiler.h>
#include <memory>
using falcon::Code;

static std::string token(pbt::Src& s) {
   std::string t;
   size_t n;
   switch(s.weighted({4, 2, 3, 1})) {
   case 0: n = 1 + s.draw(30); break;
   case 1: n = 15 + s.draw(3); break;
   case 2: n = 990 + s.draw(25); break;
   default: n = s.coin(1, 8) ? s.pick({65535u, 65536u, 65537u, 70000u, 131072u, 200000u}) : 1 + s.draw(20000); break;
   }
   bool binary = s.coin(1, 3);
   uint64_t r = s.draw(1ull << 32);
   t.reserve(n);
   for(size_t i = 0; i < n; ++i) {
      r = pbt::mix(r);
      unsigned char c = binary ? (unsigned char)r : (unsigned char)(33 + r % 94);
      if(c == ' ' || (c >= 9 && c <= 13)) c = binary ? 0 : '_';
      t += (char)c;
   }
   return t;
}

PBT_ARM(compile, 40000, 600000, true) {
   std::string pre, t, post;
   static const char* ws[] = {"", " ", "\n", "\t  ", "\r\n", " \n\n"};
   bool empty = s.coin(1, 12);
   pre = ws[s.draw(6)];
   if(!empty) t = token(s);
   if(!empty && s.coin()) { post = ws[1 + s.draw(5)]; if(s.coin()) post += "second"; }
   NOTE(s, "source " << pbt::show(pre, 10) << " + " << pbt::show(t, 60) << " (" << t.size() << " bytes) + " << pbt::show(post, 20));
   std::istringstream in(pre + t + post);
   falcon::Compiler c;
   Code code = c.compile(in);
   REQUIRE(s, code.toString() == t, "a token of " << t.size() << " bytes renders as " << code.toString().size() << " bytes " << pbt::show(code.toString(), 60));
   Code again = code;
   REQUIRE(s, again.toString() == t && code.toString() == t, "a copy renders differently");
   // the rest of the stream is left for later compilations
   if(post.size() > 6 && post.find("second") != std::string::npos) { Code next = c.compile(in); REQUIRE(s, next.toString() == "second", "the next token renders as " << pbt::show(next.toString(), 60)); REQUIRE(s, code.toString() == t, "compiling again changed earlier code"); }
   if(t.size() > 15) s.nontrivial();
   if(t.size() >= 999) s.label("long");
   if(t.find('\0') != std::string::npos) s.label("binary");
}

PBT_ARM(histories, 40000, 800000, true) {
   struct Slot { std::unique_ptr<Code> c; std::string t; bool moved = false; };
   std::vector<Slot> sl(5);
   falcon::Compiler comp;
   size_t n = 5 + s.draw(30), transfers = 0;
   auto usable = [&](size_t k) { return sl[k].c && !sl[k].moved; };
   for(size_t q = 0; q < n; ++q) {
      size_t i = s.draw(sl.size()), j = s.draw(sl.size());
      switch(s.weighted({5, 4, 4, 3, 3, 2, 1, 1})) {
      case 0: {
         std::string t = s.coin(1, 6) ? "" : token(s);
         std::istringstream in(t);
         NOTE(s, "code " << i << " compiled from " << t.size() << " bytes");
         if(sl[i].c && s.coin()) *sl[i].c = comp.compile(in); else sl[i].c.reset(new Code(comp.compile(in)));
         sl[i].t = t; sl[i].moved = false;
         break; }
      case 1: if(usable(j) && i != j) { NOTE(s, "code " << i << " copy constructed from " << j); sl[i].c.reset(new Code(*sl[j].c)); sl[i].t = sl[j].t; sl[i].moved = false; ++transfers; } break;
      case 2: if(usable(j) && sl[i].c) { NOTE(s, "code " << i << " copy assigned from " << j); const Code& src = *sl[j].c; *sl[i].c = src; sl[i].t = sl[j].t; sl[i].moved = false; ++transfers; } break;
      case 3: if(usable(j) && i != j) { NOTE(s, "code " << i << " move constructed from " << j); sl[i].c.reset(new Code(std::move(*sl[j].c))); sl[i].t = sl[j].t; sl[i].moved = false; sl[j].moved = true; ++transfers; } break;
      case 4: if(usable(j) && sl[i].c && i != j) { NOTE(s, "code " << i << " move assigned from " << j); *sl[i].c = std::move(*sl[j].c); sl[i].t = sl[j].t; sl[i].moved = false; sl[j].moved = true; ++transfers; } break;
      case 5: if(sl[i].c) { NOTE(s, "code " << i << " destroyed"); sl[i].c.reset(); sl[i].moved = false; } break;
      case 6: if(usable(i) && usable(j) && i != j) { NOTE(s, "codes " << i << " and " << j << " swapped"); std::swap(*sl[i].c, *sl[j].c); std::swap(sl[i].t, sl[j].t); ++transfers; } break;
      default: { std::string t = s.coin() ? "" : token(s); NOTE(s, "code " << i << " constructed from " << t.size() << " bytes"); if(t.empty()) sl[i].c.reset(new Code()); else sl[i].c.reset(new Code(t, 3)); sl[i].t = t; sl[i].moved = false; break; }
      }
      for(size_t k = 0; k < sl.size(); ++k) if(usable(k)) REQUIRE(s, sl[k].c->toString() == sl[k].t, "code " << k << " renders " << pbt::show(sl[k].c->toString(), 40) << " instead of " << pbt::show(sl[k].t, 40));
   }
   for(size_t k = s.draw(5), c = 0; c < 5; ++c, k = (k + 1) % 5) sl[k].c.reset();
   if(transfers >= 3) s.nontrivial();
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C15"); }

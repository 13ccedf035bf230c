// Random regular expressions (the ECMAScript subset below) with a matcher of their own: sets of end positions.
#ifndef VERIF_RX_HPP
#define VERIF_RX_HPP
#include "pbt.hpp"
#include <memory>

namespace rx {
struct Node;
using P = std::shared_ptr<Node>;
struct Node {
   enum K { EMPTY, CHR, ANY, CLS, SEQ, ALT, REP, BEG, END } k;
   char c = 0;
   int group = 0;          // 1: (...), 2: (?:...)
   bool lazy = false;      // REP
   std::string form;       // CLS: how it is written, when not as its characters
   std::string cls; bool neg = false;
   std::vector<P> kids;
   int lo = 0, hi = -1;   // REP; hi -1: no limit
};
inline const char* alphabet() { return "abcAB:. _-1"; }

inline P mk(Node::K k) { auto n = std::make_shared<Node>(); n->k = k; return n; }
inline P gen(pbt::Src& s, int depth) {
   switch(depth <= 0 ? s.weighted({5, 2, 2}) : s.weighted({4, 2, 2, 5, 2, 3})) {
   case 0: { P n = mk(Node::CHR); n->c = alphabet()[s.draw(11)]; return n; }
   case 1: return mk(Node::ANY);
   case 2: {
      P n = mk(Node::CLS); n->neg = s.coin(1, 3);
      switch(s.weighted({4, 1, 1, 1, 1})) {
      case 0: { size_t k = 1 + s.draw(3); for(size_t i = 0; i < k; ++i) n->cls += "abcAB1:_"[s.draw(8)]; break; }
      case 1: n->cls = "0123456789"; n->form = n->neg ? "\\D" : "\\d"; break;
      case 2: n->cls = "_0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"; n->form = n->neg ? "\\W" : "\\w"; break;
      case 3: n->cls = " \t\n\v\f\r"; n->form = n->neg ? "\\S" : "\\s"; break;
      default: { char a = "abcA1"[s.draw(5)], b = (char)(a + s.draw(4)); for(char c = a; c <= b; ++c) n->cls += c; n->form = std::string(n->neg ? "[^" : "[") + a + "-" + b + "]"; break; }
      }
      return n; }
   case 3: { P n = mk(Node::SEQ); size_t k = 1 + s.draw(4); for(size_t i = 0; i < k; ++i) n->kids.push_back(gen(s, depth - 1)); if(s.coin(1, 8)) n->group = 1 + (int)s.draw(2); return n; }
   case 4: { P n = mk(Node::ALT); size_t k = 2 + s.draw(2); for(size_t i = 0; i < k; ++i) n->kids.push_back(gen(s, depth - 1)); if(s.coin(1, 4)) n->group = 1 + (int)s.draw(2); return n; }
   default: {
      P n = mk(Node::REP); n->kids.push_back(gen(s, 0));    // repetition of single characters only: no exponential matching
      switch(s.draw(4)) { case 0: n->lo = 0; n->hi = -1; break; case 1: n->lo = 1; n->hi = -1; break; case 2: n->lo = 0; n->hi = 1; break; default: n->lo = (int)s.draw(3); n->hi = n->lo + (int)s.draw(3); break; }
      n->lazy = s.coin(1, 5); if(s.coin(1, 5)) n->group = 1 + (int)s.draw(2);
      return n; }
   }
}
/// An expression, now and then with the anchors that change nothing for a whole-string match.
inline P top(pbt::Src& s, int depth) {
   P r = gen(s, depth);
   size_t how = s.weighted({8, 1, 1, 1});
   if(!how) return r;
   P n = mk(Node::SEQ);
   if(how & 1) n->kids.push_back(mk(Node::BEG));
   n->kids.push_back(r);
   if(how & 2) n->kids.push_back(mk(Node::END));
   return n;
}
inline std::string esc(char c, bool inClass) {
   static const std::string sp = ".*+?()[]{}|^$\\";
   if(inClass ? (c == '-' || c == ']' || c == '^' || c == '\\') : sp.find(c) != std::string::npos) return std::string("\\") + c;
   return std::string(1, c);
}
inline std::string str(const P& n);
inline std::string bare(const P& n) {
   switch(n->k) {
   case Node::EMPTY: return "";
   case Node::BEG: return "^";
   case Node::END: return "$";
   case Node::CHR: return esc(n->c, false);
   case Node::ANY: return ".";
   case Node::CLS: { if(!n->form.empty()) return n->form; std::string o = n->neg ? "[^" : "["; for(char c: n->cls) o += esc(c, true); return o + "]"; }
   case Node::SEQ: { std::string o; for(auto& k: n->kids) o += k->k == Node::ALT && !k->group ? "(" + str(k) + ")" : str(k); return o; }
   case Node::ALT: { std::string o; for(size_t i = 0; i < n->kids.size(); ++i) o += (i ? "|" : "") + str(n->kids[i]); return o; }
   default: {
      std::string o = str(n->kids[0]), z = n->lazy ? "?" : "";
      if(n->lo == 0 && n->hi < 0) return o + "*" + z;
      if(n->lo == 1 && n->hi < 0) return o + "+" + z;
      if(n->lo == 0 && n->hi == 1) return o + "?" + z;
      if(n->lo == n->hi && n->lo > 1) return o + "{" + std::to_string(n->lo) + "}" + z;
      return o + "{" + std::to_string(n->lo) + "," + std::to_string(n->hi) + "}" + z; }
   }
}
inline std::string str(const P& n) { std::string o = bare(n); return n->group == 1 ? "(" + o + ")" : n->group == 2 ? "(?:" + o + ")" : o; }
inline std::set<size_t> ends(const P& n, const std::string& t, const std::set<size_t>& from) {
   std::set<size_t> o;
   switch(n->k) {
   case Node::EMPTY: return from;
   case Node::BEG: if(from.count(0)) o.insert(0); return o;
   case Node::END: if(from.count(t.size())) o.insert(t.size()); return o;
   case Node::CHR: for(size_t i: from) if(i < t.size() && t[i] == n->c) o.insert(i + 1); return o;
   case Node::ANY: for(size_t i: from) if(i < t.size() && t[i] != '\n' && t[i] != '\r') o.insert(i + 1); return o;
   case Node::CLS: for(size_t i: from) if(i < t.size() && (n->cls.find(t[i]) != std::string::npos) != n->neg) o.insert(i + 1); return o;
   case Node::SEQ: { std::set<size_t> c = from; for(auto& k: n->kids) c = ends(k, t, c); return c; }
   case Node::ALT: for(auto& k: n->kids) { auto e = ends(k, t, from); o.insert(e.begin(), e.end()); } return o;
   default: {
      std::set<size_t> c = from;
      if(n->lo == 0) o = from;
      for(int i = 1; n->hi < 0 ? i <= (int)t.size() + n->lo + 1 : i <= n->hi; ++i) {
         c = ends(n->kids[0], t, c);
         if(c.empty()) break;
         if(i >= n->lo) o.insert(c.begin(), c.end());
      }
      return o; }
   }
}
inline bool match(const P& n, const std::string& t) { return ends(n, t, {0}).count(t.size()) > 0; }
/// A string the expression matches, more often than not.
inline std::string sample(pbt::Src& s, const P& n) {
   switch(n->k) {
   case Node::CHR: return std::string(1, n->c);
   case Node::ANY: return std::string(1, alphabet()[s.draw(11)]);
   case Node::CLS: { if(!n->neg) return std::string(1, n->cls[s.draw(n->form == "\\s" ? 2 : n->cls.size())]); for(int i = 0; i < 20; ++i) { char c = alphabet()[s.draw(11)]; if(n->cls.find(c) == std::string::npos) return std::string(1, c); } return "z"; }
   case Node::SEQ: { std::string o; for(auto& k: n->kids) o += sample(s, k); return o; }
   case Node::ALT: return sample(s, n->kids[s.draw(n->kids.size())]);
   case Node::REP: { int k = n->lo + (int)s.draw(n->hi < 0 ? 3 : (uint64_t)(n->hi - n->lo) + 1); std::string o; for(int i = 0; i < k; ++i) o += sample(s, n->kids[0]); return o; }
   default: return "";
   }
}
/// Near misses: a sample with a character more, less or changed.
inline std::string mutate(pbt::Src& s, std::string t) {
   switch(s.draw(5)) {
   case 0: t += alphabet()[s.draw(11)]; break;
   case 1: t.insert(t.begin(), alphabet()[s.draw(11)]); break;
   case 2: if(!t.empty()) t.erase(s.draw(t.size()), 1); break;
   case 3: if(!t.empty()) t[s.draw(t.size())] = alphabet()[s.draw(11)]; break;
   default: break;
   }
   return t;
}
inline const std::vector<std::string>& invalid() {
   static const std::vector<std::string> v = {"*", "(", ")", "[", "a(b", "[b-a]", "a{2,1}", "\\", "(?<x)", "a)b", "+a", "?", "a{", "[[:nope:]]"};
   return v;
}
}
#endif

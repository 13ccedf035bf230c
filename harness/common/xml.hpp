// A strict reader for XML 1.0 documents without DTD: anything not well formed is an error.
#ifndef VERIF_XML_HPP
#define VERIF_XML_HPP
#include <cstdint>
#include <cstring>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace xml {
struct Bad: std::runtime_error { using std::runtime_error::runtime_error; };
struct Elem { std::string name; std::map<std::string, std::string> attr; std::vector<Elem> kids; std::string text;
   std::string get(const char* a) const { auto i = attr.find(a); if(i == attr.end()) throw Bad("<" + name + "> has no attribute " + a); return i->second; } };
class Reader {
   const std::string& d; size_t p = 0;
   [[noreturn]] void bad(const std::string& why) { throw Bad(why + " at byte " + std::to_string(p)); }
   bool eat(const char* t) { size_t n = strlen(t); if(d.compare(p, n, t) == 0) { p += n; return true; } return false; }
   static bool space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
   bool ws() { bool any = false; while(p < d.size() && space(d[p])) { ++p; any = true; } return any; }
   static bool nameStart(unsigned char c) { return isalpha(c) || c == '_' || c == ':' || c >= 0x80; }
   std::string name() { size_t b = p; if(p >= d.size() || !nameStart((unsigned char)d[p])) bad("a name is missing"); while(p < d.size() && (nameStart((unsigned char)d[p]) || isdigit((unsigned char)d[p]) || d[p] == '-' || d[p] == '.')) ++p; return d.substr(b, p - b); }
   static void utf8(std::string& o, uint32_t c) {
      if(c < 0x80) o += (char)c;
      else if(c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
      else if(c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
      else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | ((c >> 12) & 63)); o += (char)(0x80 | ((c >> 6) & 63)); o += (char)(0x80 | (c & 63)); }
   }
   std::string reference() { // after '&'
      size_t e = d.find(';', p); if(e == std::string::npos || e - p > 10) bad("a lone '&'");
      std::string r = d.substr(p, e - p), o; p = e + 1;
      if(r == "lt") return "<"; if(r == "gt") return ">"; if(r == "amp") return "&"; if(r == "quot") return "\""; if(r == "apos") return "'";
      if(r.size() < 2 || r[0] != '#') bad("unknown entity &" + r + ";");
      bool hex = r[1] == 'x'; size_t used = 0; unsigned long v = 0;
      try { v = std::stoul(r.substr(hex ? 2 : 1), &used, hex ? 16 : 10); } catch(std::exception&) { bad("bad reference &" + r + ";"); }
      if(used != r.size() - (hex ? 2 : 1) || !(v == 9 || v == 10 || v == 13 || (v >= 0x20 && v <= 0xD7FF) || (v >= 0xE000 && v <= 0xFFFD) || (v >= 0x10000 && v <= 0x10FFFF))) bad("bad reference &" + r + ";");
      utf8(o, (uint32_t)v);
      return o;
   }
   char plain() { unsigned char c = (unsigned char)d[p]; if(c < 0x20 && c != 9 && c != 10 && c != 13) bad("a control character"); ++p; return (char)c; }
   void misc() { while(true) { ws(); if(eat("<!--")) { size_t e = d.find("-->", p); if(e == std::string::npos) bad("an endless comment"); p = e + 3; } else if(d.compare(p, 2, "<?") == 0) { size_t e = d.find("?>", p); if(e == std::string::npos) bad("an endless instruction"); p = e + 2; } else return; } }
   Elem element(int depth) {
      if(depth > 50) bad("too deep");
      if(!eat("<")) bad("an element is missing");
      Elem e; e.name = name();
      while(true) {
         bool sp = ws();
         if(eat("/>")) return e;
         if(eat(">")) break;
         if(!sp) bad("an attribute must follow a space");
         std::string a = name(); ws(); if(!eat("=")) bad("'=' is missing"); ws();
         if(p >= d.size() || (d[p] != '"' && d[p] != '\'')) bad("an attribute is not quoted");
         char q = d[p++]; std::string v;
         while(true) {
            if(p >= d.size()) bad("an endless attribute");
            if(d[p] == q) { ++p; break; }
            if(d[p] == '<') bad("'<' in an attribute");
            if(d[p] == '&') { ++p; v += reference(); continue; }
            char c = plain(); v += space(c) ? ' ' : c;         // attribute value normalization
         }
         if(!e.attr.insert({a, v}).second) bad("attribute " + a + " is given twice");
      }
      while(true) {
         if(p >= d.size()) bad("<" + e.name + "> is not closed");
         if(eat("<!--")) { size_t x = d.find("-->", p); if(x == std::string::npos) bad("an endless comment"); p = x + 3; continue; }
         if(eat("<![CDATA[")) { size_t x = d.find("]]>", p); if(x == std::string::npos) bad("an endless section"); e.text += d.substr(p, x - p); p = x + 3; continue; }
         if(eat("</")) { std::string n = name(); if(n != e.name) bad("</" + n + "> closes <" + e.name + ">"); ws(); if(!eat(">")) bad("'>' is missing"); return e; }
         if(d[p] == '<') { e.kids.push_back(element(depth + 1)); continue; }
         if(d[p] == '&') { ++p; e.text += reference(); continue; }
         if(d.compare(p, 3, "]]>") == 0) bad("']]>' in text");
         char c = plain(); if(c == '\r') { if(p < d.size() && d[p] == '\n') continue; c = '\n'; } e.text += c;
      }
   }
   void encoding() { // must be UTF-8
      for(size_t i = 0; i < d.size();) {
         unsigned char c = (unsigned char)d[i]; size_t n = c < 0x80 ? 1 : c >= 0xC2 && c < 0xE0 ? 2 : (c & 0xF0) == 0xE0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0;
         if(!n || i + n > d.size()) throw Bad("not UTF-8 at byte " + std::to_string(i));
         for(size_t k = 1; k < n; ++k) if(((unsigned char)d[i + k] & 0xC0) != 0x80) throw Bad("not UTF-8 at byte " + std::to_string(i));
         i += n;
      }
   }
public:
   explicit Reader(const std::string& doc): d(doc) {}
   Elem read() {
      encoding();
      if(d.compare(0, 5, "<?xml") == 0) { size_t e = d.find("?>"); if(e == std::string::npos) bad("an endless declaration"); p = e + 2; }
      misc(); Elem e = element(0); misc();
      if(p != d.size()) bad("something follows the document");
      return e;
   }
};
inline Elem parse(const std::string& doc) { return Reader(doc).read(); }
}
#endif

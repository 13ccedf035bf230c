// Generated item values with what they must convert to.
#ifndef VERIF_ITEMS_HPP
#define VERIF_ITEMS_HPP
#include "pbt.hpp"
#include <falcon/engine/item.h>
#include <cmath>
#include <limits>

namespace itm {
using falcon::Item; using falcon::BigNum; using falcon::int64; using falcon::uint64;
enum Type { NIL, BOOL, CHAR, BYTE, INT32, UINT32, INT64, UINT64, FLOAT, CSTR, STRING, BIGNUM, TYPES };
struct Val {
   Type t = NIL;
   int64 i = 0;
   double d = 0;
   std::string s;
   BigNum b;
   // expectations
   std::string name = "Nil", text = "nil";
   bool truth = false;
   bool hasInt = true;      // the integer is defined exactly
   int64 whole = 0;
   std::string show() const { return name + " " + pbt::show(t == BIGNUM ? s : text); }
   Item make() const {
      switch(t) {
      case NIL: return Item();
      case BOOL: return Item((bool)i);
      case CHAR: return Item((char)i);
      case BYTE: return Item((falcon::byte)i);
      case INT32: return Item((falcon::int32)i);
      case UINT32: return Item((falcon::uint32)i);
      case INT64: return Item(i);
      case UINT64: return Item((uint64)i);
      case FLOAT: return Item(d);
      case CSTR: return Item(s.c_str());
      case STRING: return Item(s);
      default: return Item(b);
      }
   }
};
inline double genFloat(pbt::Src& s) {
   switch(s.weighted({4, 3, 3, 2})) {
   case 0: return (double)((int64_t)s.draw(201) - 100) / (double)(1 << s.draw(5));
   case 1: { static const double e[] = {0.0, -0.0, 1e-300, 4.9e-324, 1e15, 1e16, 123456.5, 1234567.0, 999999.5, 0.1, -0.9999999, 9.2233720368547e18, -9.223372036854775808e18, 0.00001, 100000, 1000000, 1e100, -1e300}; return e[s.draw(18)]; }
   case 2: { double m = (double)(int64_t)s.drawWide(); int sh = (int)s.draw(120) - 60; return std::ldexp(m, sh - 60); }
   default: { uint64_t b = s.drawWide(); double d; memcpy(&d, &b, 8); return d; }
   }
}
inline Val gen(pbt::Src& s, int only = -1) {
   Val v;
   v.t = only >= 0 ? (Type)only : (Type)s.draw(TYPES);
   switch(v.t) {
   case NIL: break;
   case BOOL: v.i = s.draw(2); v.name = "Bool"; v.text = v.i ? "true" : "false"; v.truth = v.i; v.whole = v.i; break;
   case CHAR: v.i = (int64)s.draw(256) - 128; break;
   case BYTE: v.i = (int64)s.draw(256); break;
   case INT32: v.i = (int32_t)s.i64(); break;
   case UINT32: v.i = (uint32_t)s.i64(); break;
   case INT64: v.i = s.i64(); break;
   case UINT64: { uint64_t u = (uint64_t)s.i64(); if(u > (uint64_t)INT64_MAX) u >>= 1; v.i = (int64)u; break; }
   case FLOAT: {
      v.d = genFloat(s); v.name = "Float";
      std::ostringstream o; o << v.d; v.text = o.str();
      v.truth = v.d != 0.0;
      v.hasInt = v.d > -9.3e18 && v.d < 9.2233720368547748e18 && v.d >= -9223372036854775808.0;
      if(v.hasInt) v.whole = (int64)std::trunc(v.d);
      break; }
   case CSTR: case STRING: {
      switch(s.weighted({3, 3, 2, 1})) {
      case 0: v.s = s.text(60, v.t == CSTR ? 3 : 4); v.hasInt = false; break;
      case 1: { int64 n = s.i64(); v.s = std::to_string(n); if(n >= 0 && s.coin(1, 4)) v.s = "+" + v.s; if(s.coin(1, 6)) { size_t at = v.s[0] == '-' || v.s[0] == '+'; v.s.insert(at, s.draw(5), '0'); } v.whole = n; break; }
      case 2: { static const char* odd[] = {"", " ", "-", "+", "99999999999999999999999", "-99999999999999999999999", "9223372036854775808", "-9223372036854775809", "0x1f", "1e5", " 12", "12abc", "abc", "--5", "nan", "1 2", "\t\n", "00"}; v.s = odd[s.draw(18)]; v.hasInt = false; if(v.s == "00") { v.hasInt = true; v.whole = 0; } break; }
      default: v.s = s.grown(s.text(2000, 1), 70000, 1, 3); v.hasInt = false; break;
      }
      if(v.t == CSTR) v.s = v.s.c_str();
      // generated text may happen to be a number
      if(!v.hasInt) { size_t p = v.s.size() && (v.s[0] == '-' || v.s[0] == '+'); if(v.s.size() > p && v.s.size() - p < 18 && v.s.find_first_not_of("0123456789", p) == std::string::npos) { v.hasInt = true; v.whole = strtoll(v.s.c_str(), nullptr, 10); } }
      v.name = "String"; v.text = v.s; v.truth = !v.s.empty();
      break; }
   default: {
      int digits = 1 + (int)s.size(49);
      std::string ip;
      for(int k = 0; k < digits; ++k) ip += (char)('0' + s.draw(10));
      std::string fp;
      if(s.coin()) { size_t n = s.draw(std::max(1, 50 - digits)); for(size_t k = 0; k < n; ++k) fp += (char)('0' + s.draw(10)); }
      bool neg = s.coin();
      v.s = (neg ? "-" : "") + ip + (fp.empty() ? "" : "." + fp);
      v.b = BigNum(v.s);
      v.name = "BigNum";
      std::ostringstream o; o << v.b; v.text = o.str();
      v.truth = (ip + fp).find_first_not_of('0') != std::string::npos;
      size_t nz = ip.find_first_not_of('0');
      std::string sig = nz == std::string::npos ? "0" : ip.substr(nz);
      v.hasInt = sig.size() <= 18;
      if(v.hasInt) { v.whole = strtoll(sig.c_str(), nullptr, 10); if(neg) v.whole = -v.whole; }
      break; }
   }
   if(v.t >= CHAR && v.t <= UINT64) { v.name = "Int"; v.text = std::to_string(v.i); v.truth = v.i != 0; v.whole = v.i; }
   return v;
}
inline void verify(pbt::Src& s, const Item& it, const Val& v, const std::string& what) {
   REQUIRE(s, it.handler != nullptr, what << ": no handler");
   REQUIRE(s, it.handler->typeName() == v.name, what << ": the type of " << v.show() << " is reported as " << it.handler->typeName());
   REQUIRE(s, it.toString() == v.text, what << ": " << v.show() << " converts to text " << pbt::show(it.toString()));
   REQUIRE(s, it.toBool() == v.truth, what << ": " << v.show() << " converts to boolean " << it.toBool());
   int64 n = v.t == FLOAT && !v.hasInt ? 0 : it.toInt();
   if(v.hasInt) REQUIRE(s, n == v.whole, what << ": " << v.show() << " converts to integer " << n << " instead of " << v.whole);
}
}
#endif

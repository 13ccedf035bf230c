// C13: conversions of items.
#include "items.hpp"
using namespace itm;

PBT_ARM(conversions, 400000, 8000000, true) {
   Val v = gen(s);
   NOTE(s, v.show());
   Item it = v.make();
   verify(s, it, v, "item");
   verify(s, it, v, "item, converted again");
   switch(v.t) {
   case NIL: break;
   case BOOL: REQUIRE(s, it.get<bool>() == (bool)v.i, "get<bool>() of " << v.show()); break;
   case FLOAT: { double g = it.get<falcon::numeric>(); REQUIRE(s, memcmp(&g, &v.d, sizeof g) == 0 || (g != g && v.d != v.d), "get<numeric>() of " << v.show() << " is " << g); break; }
   case CSTR: case STRING: REQUIRE(s, it.get<falcon::String>() == v.s, "get<String>() of " << v.show() << " is " << pbt::show(it.get<falcon::String>())); break;
   case BIGNUM: REQUIRE(s, it.get<BigNum>() == v.b, "get<BigNum>() of " << v.show()); break;
   default:
      REQUIRE(s, it.get<int64>() == v.i, "get<int64>() of " << v.show() << " is " << it.get<int64>());
      if(v.i >= 0) REQUIRE(s, it.get<uint64>() == (uint64)v.i, "get<uint64>() of " << v.show() << " is " << it.get<uint64>());
      break;
   }
   s.label(v.name);
   if(v.t != NIL && v.t != BOOL) s.nontrivial();
}

/// The upper half of the unsigned range keeps its value in its native type.
PBT_ARM(unsigned_values, 40000, 800000, true) {
   uint64_t u = (uint64_t)s.i64();
   NOTE(s, u);
   Item it((uint64)u);
   REQUIRE(s, it.get<uint64>() == u, "get<uint64>() of " << u << " is " << it.get<uint64>());
   REQUIRE(s, it.toBool() == (u != 0), "truth of " << u);
   REQUIRE(s, it.handler->typeName() == "Int", "type of " << u);
   if(u > (uint64_t)INT64_MAX) s.nontrivial();
}

template<typename T> void rejected(pbt::Src& s, T v, const char* what) {
   bool threw = false;
   try { Item it(v); }
   catch(const std::exception&) { threw = true; }
   REQUIRE(s, threw, "an item was built from unsupported type " << what);
   threw = false;
   try { Item ok((int64)7); ok.get<T>(); }
   catch(const std::exception&) { threw = true; }
   REQUIRE(s, threw, "get() accepts unsupported type " << what);
}
struct Foreign { int a; };
PBT_ARM(unsupported, 4000, 40000, true) {
   int k = (int)s.draw(8);
   NOTE(s, "unsupported type " << k);
   switch(k) {
   case 0: rejected<float>(s, 1.5f, "float"); break;
   case 1: rejected<short>(s, 5, "short"); break;
   case 2: rejected<unsigned short>(s, 5, "unsigned short"); break;
   case 3: rejected<Foreign>(s, Foreign{3}, "a user structure"); break;
   case 4: rejected<Foreign*>(s, nullptr, "pointer"); break;
   case 5: rejected<long double>(s, 1.0L, "long double"); break;
   case 6: rejected<std::vector<int>>(s, {1, 2}, "vector"); break;
   default: rejected<wchar_t>(s, L'x', "wchar_t"); break;
   }
   s.nontrivial();
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C13"); }

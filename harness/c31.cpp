// C31: check macros decide exactly the relation they name.
#include "c31.hpp"
#include <cfloat>
#include <cmath>
#include <limits>
#include <memory>
using namespace ck;

// --- operand expressions of every precedence
PBT_ARM(shapes, 30000, 600000, true) {
   static const ShapeMaker makers[] = {shapeMaker0(), shapeMaker1(), shapeMaker2(), shapeMaker3(), shapeMaker4(), shapeMaker5(), truthMaker0(), truthMaker1()};
   size_t op = s.draw(8);
   auto t = makers[op]();
   t->l = (int)s.draw(NLSHAPES); t->r = (int)s.draw(NSHAPES);
   auto v = [&] { return s.coin(1, 4) ? (int)s.draw(2000) - 1000 : (int)s.draw(7) - 2; };
   t->a = v(); t->b = s.coin(1, 3) ? t->a : v(); t->c = v(); t->n = (unsigned)s.draw(4); t->str = "x"; t->arr[0] = v(); t->arr[1] = s.coin() ? t->arr[0] : v(); t->arr[2] = 3;
   if(t->a < 0) t->n = 0;
   NOTE(s, "macro " << op << " shapes " << t->l << ", " << t->r << " a " << t->a << " b " << t->b << " c " << t->c << " n " << t->n << " arr " << t->arr[0] << "," << t->arr[1]);
   t->perform();
   if(!t->line) s.discard();          // not a site
   NOTE(s, pbt::show(t->tells.empty() ? "" : t->tells[0]) << " / " << t->rt);
   if(t->rt.size() > 1 || t->lt.size() > 1) s.nontrivial();
   s.label(t->pass ? "passes" : "fails");
   expectRecord(s, *t, "check " + t->lt + (op < 6 ? std::string(" ") + opText((int)op) + " " : std::string(" is true or false: ")) + t->rt);
}

// --- operand values of many types
struct Subset { unsigned bits; };     // a partial order
static bool operator==(Subset x, Subset y) { return x.bits == y.bits; }
static bool operator!=(Subset x, Subset y) { return x.bits != y.bits; }
static bool operator<=(Subset x, Subset y) { return (x.bits & y.bits) == x.bits; }
static bool operator>=(Subset x, Subset y) { return (x.bits & y.bits) == y.bits; }
static bool operator<(Subset x, Subset y) { return x != y && x <= y; }
static bool operator>(Subset x, Subset y) { return x != y && x >= y; }
static std::ostream& operator<<(std::ostream& o, Subset x) { return o << "{" << x.bits << "}"; }
struct Rank { int r; };               // compared with numbers, on either side
static bool operator==(Rank x, int y) { return x.r == y; } static bool operator!=(Rank x, int y) { return x.r != y; }
static bool operator<(Rank x, int y) { return x.r < y; } static bool operator>(Rank x, int y) { return x.r > y; }
static bool operator<=(Rank x, int y) { return x.r <= y; } static bool operator>=(Rank x, int y) { return x.r >= y; }
struct Fixed {                        // neither copied nor moved
   int v; explicit Fixed(int x): v(x) {} Fixed(const Fixed&) = delete; Fixed& operator=(const Fixed&) = delete;
   bool operator==(const Fixed& o) const { return v == o.v; } bool operator!=(const Fixed& o) const { return v != o.v; }
   bool operator<(const Fixed& o) const { return v < o.v; } bool operator>(const Fixed& o) const { return v > o.v; }
   bool operator<=(const Fixed& o) const { return v <= o.v; } bool operator>=(const Fixed& o) const { return v >= o.v; }
};
static std::ostream& operator<<(std::ostream& o, const Fixed& x) { return o << "#" << x.v; }
enum Colour { RED, GREEN, BLUE };

template<class E, class A> struct Values: Probe {
   const E& expected; const A& actual; int op;
   Values(const E& x, const A& y, int o): expected(x), actual(y), op(o) { pass = holds(op, x, y); tells = {"expected", opText(op), "actual", rendered(y)}; file = "c31.cpp"; }
   void test() override {
      switch(op) {
      case EQ: line = __LINE__; EXPECT_EQ(expected, actual); break;
      case NE: line = __LINE__; EXPECT_NE(expected, actual); break;
      case GT: line = __LINE__; EXPECT_GT(expected, actual); break;
      case GE: line = __LINE__; EXPECT_GE(expected, actual); break;
      case LT: line = __LINE__; EXPECT_LT(expected, actual); break;
      default: line = __LINE__; EXPECT_LE(expected, actual); break;
      }
      past = true;
   }
};
template<class T> struct Truths: Probe {
   const T& lhs; bool want;
   Truths(const T& x, bool w): lhs(x), want(w) { pass = (x ? true : false) == w; tells = {"lhs", rendered(x)}; file = "c31.cpp"; }
   void test() override { if(want) { line = __LINE__; EXPECT_TRUE(lhs); } else { line = __LINE__; EXPECT_FALSE(lhs); } past = true; }
};
struct Handle { void* p; explicit operator bool() const { return p != nullptr; } };
static std::ostream& operator<<(std::ostream& o, Handle h) { return o << (h.p ? "full" : "empty"); }
template<class E, class A> static void tryValues(pbt::Src& s, const char* types, const E& e, const A& a) {
   int op = (int)s.draw(6);
   NOTE(s, types << ": " << pbt::show(rendered(e)) << " " << opText(op) << " " << pbt::show(rendered(a)));
   Values<E, A> t(e, a, op); t.perform();
   s.label(t.pass ? "passes" : "fails");
   expectRecord(s, t, std::string(types) + " " + rendered(e) + " " + opText(op) + " " + rendered(a));
}
template<class T> static void tryTruth(pbt::Src& s, const char* type, const T& v) {
   bool w = s.coin();
   NOTE(s, type << " " << pbt::show(rendered(v)) << " should be " << w);
   Truths<T> t(v, w); t.perform();
   s.label(t.pass ? "passes" : "fails");
   expectRecord(s, t, std::string(type) + " " + rendered(v) + (w ? " is true" : " is false"));
}
static double anyDouble(pbt::Src& s) {
   switch(s.weighted({4, 2, 1, 2, 1})) {
   case 0: return (double)((int)s.draw(9) - 4);
   case 1: return (double)s.i64() / 1024.0;
   case 2: return s.pick({0.0, -0.0, 1e-4, -1e-4, 5e-5, DBL_MAX, -DBL_MAX, DBL_MIN, 1e300, 1e-300});
   case 3: return (double)((int64_t)s.draw(2000001) - 1000000) / 1e6;
   default: return s.pick({INFINITY, -INFINITY, NAN});
   }
}
PBT_ARM(values, 40000, 1000000, true) {
   s.nontrivial();
   auto near64 = [&](int64_t x) { return s.coin(1, 3) ? x : s.coin() ? (int64_t)((uint64_t)x + s.draw(5) - 2) : s.i64(); };
   std::string x = s.text(6, s.pick({1, 1, 3})), y = s.coin(1, 3) ? x : s.coin() ? x + s.text(2, 1) : s.text(6, 1);
   static const int arr[4] = {1, 2, 3, 4};
   switch(s.draw(18)) {
   case 0: { int e = (int)s.draw(9) - 4, a = (int)s.draw(9) - 4; tryValues(s, "int, int", e, a); break; }
   case 1: { int64_t e = s.i64(), a = near64(e); tryValues(s, "int64, int64", e, a); break; }
   case 2: { uint64_t e = (uint64_t)s.i64(), a = (uint64_t)near64((int64_t)e); tryValues(s, "uint64, uint64", e, a); break; }
   case 3: { int e = (int)s.i64(); int64_t a = near64(e); tryValues(s, "int, int64", e, a); break; }
   case 4: { int64_t e = s.i64(); short a = (short)near64(e); tryValues(s, "int64, short", e, a); break; }
   case 5: { double e = anyDouble(s), a = s.coin() ? e : anyDouble(s); tryValues(s, "double, double", e, a); break; }
   case 6: { float e = (float)anyDouble(s); double a = s.coin() ? (double)e : anyDouble(s); tryValues(s, "float, double", e, a); break; }
   case 7: { int e = (int)s.draw(5); double a = s.coin() ? e : anyDouble(s); tryValues(s, "int, double", e, a); break; }
   case 8: { char e = (char)(s.draw(95) + ' '), a = s.coin() ? e : (char)(s.draw(95) + ' '); tryValues(s, "char, char", e, a); break; }
   case 9: { bool e = s.coin(), a = s.coin(); tryValues(s, "bool, bool", e, a); break; }
   case 10: tryValues(s, "string, string", x, y); break;
   case 11: { const char* p = y.c_str(); tryValues(s, "string, C string", x, p); break; }
   case 12: { const char* p = x.c_str(); tryValues(s, "C string, string", p, y); break; }
   case 13: { const int *e = arr + s.draw(4), *a = arr + s.draw(4); if(s.coin(1, 5)) a = nullptr; if(!a) { bool same = s.coin(); const int* z = nullptr; if(same) e = z; } int op = (int)s.draw(2);
      Values<const int*, const int*> t(e, a, op); t.perform(); expectRecord(s, t, "pointers"); break; }
   case 14: { Subset e{(unsigned)s.draw(8)}, a{(unsigned)s.draw(8)}; tryValues(s, "set, set", e, a); break; }
   case 15: { Rank e{(int)s.draw(5)}; int a = (int)s.draw(5); int op = (int)s.draw(6); NOTE(s, "rank " << e.r << opText(op) << a); Values<Rank, int> t(e, a, op); t.perform(); expectRecord(s, t, "rank and number"); break; }
   case 16: { Fixed e((int)s.draw(5)), a((int)s.draw(5)); tryValues(s, "fixed, fixed", e, a); break; }
   default: { Colour e = (Colour)s.draw(3), a = (Colour)s.draw(3); tryValues(s, "enum, enum", e, a); break; }
   }
   switch(s.draw(6)) {
   case 0: tryTruth(s, "bool", s.coin()); break;
   case 1: tryTruth(s, "int", s.coin() ? 0 : (int)s.i64()); break;
   case 2: tryTruth(s, "int64", s.coin() ? (int64_t)0 : s.i64()); break;
   case 3: tryTruth(s, "double", s.coin() ? 0.0 : anyDouble(s)); break;
   case 4: { const void* p = s.coin() ? nullptr : (const void*)arr; tryTruth(s, "pointer", p); break; }
   default: tryTruth(s, "handle", Handle{s.coin() ? nullptr : (void*)arr}); break;
   }
}

// --- strings
template<class E, class A> struct Strings: Probe {
   E e; A actual; bool eq; const std::string &l, &r; bool cond;
   Strings(E x, A y, bool q, const std::string& ll, const std::string& rr): e(x), actual(y), eq(q), l(ll), r(rr), cond(q) { file = "c31.cpp"; }
   int shape = 0;
   void test() override {
      bool same; const std::string ss = l, _s = r;
#define ST(N, X, Y) case N: same = std::string(X) == std::string(Y); pass = same == eq; tells = {#X, eq ? "==" : "!=", #Y, std::string(Y)}; if(eq) { line = __LINE__; EXPECT_STREQ(X, Y); } else { line = __LINE__; EXPECT_STRNE(X, Y); } break;
      switch(shape) {
      ST(0, e, actual) ST(1, ss, _s) ST(2, l + "x", r + "x") ST(3, "lit", actual) ST(4, e, cond ? l : r) ST(5, l.c_str(), r.c_str()) ST(6, cond ? r : l, actual) ST(7, e, l + r) ST(8, "", r)
      }
      past = true;
   }
};
PBT_ARM(strings, 20000, 500000, true) {
   int kind = s.pick({1, 1, 3, 4});
   std::string x = s.coin(1, 10) ? "lit" : s.text(s.coin(1, 10) ? 600 : 8, kind), y = s.coin(1, 3) ? x : s.coin(1, 3) ? x + s.text(2, kind) : s.coin(1, 10) ? "lit" : s.text(8, kind);
   if(s.coin(1, 6) && !x.empty()) { y = x; y[s.draw(y.size())] ^= (char)(1 << s.draw(8)); }
   bool eq = s.coin();
   int shape = (int)s.draw(9), types = (int)s.draw(4);
   NOTE(s, (eq ? "equal " : "different ") << pbt::show(x) << " and " << pbt::show(y) << " shape " << shape << " types " << types);
   auto go = [&](Probe& t) { t.perform(); s.label(t.pass ? "passes" : "fails"); expectRecord(s, t, "string check"); };
   switch(types) {
   case 0: { Strings<const std::string&, const std::string&> t(x, y, eq, x, y); t.shape = shape; go(t); break; }
   case 1: { Strings<const char*, const std::string&> t(x.c_str(), y, eq, x, y); t.shape = shape; go(t); break; }
   case 2: { Strings<const std::string&, const char*> t(x, y.c_str(), eq, x, y); t.shape = shape; go(t); break; }
   default: { Strings<const char*, const char*> t(x.c_str(), y.c_str(), eq, x, y); t.shape = shape; go(t); break; }
   }
   s.nontrivial();
}

// --- floating point values
template<class E, class A> struct Floats: Probe {
   E e; A a; bool eq; E zero = 0; int shape;
   Floats(E x, A y, bool q, int sh): e(x), a(y), eq(q), shape(sh) { file = "c31.cpp"; }
   void test() override {
      bool cond = true;
#define FT(N, X, Y) case N: tells = {#X, #Y, rendered(Y)}; if(eq) { line = __LINE__; EXPECT_FLOAT_EQ(X, Y); } else { line = __LINE__; EXPECT_FLOAT_NE(X, Y); } break;
      switch(shape) { FT(0, e, a) FT(1, zero + e, a - 0) FT(2, cond ? e : a, cond ? a : e) FT(3, e - zero, !cond ? 0 : a) FT(4, -(-e), - -a) }
      past = true;
   }
};
template<class E, class A> static void tryFloats(pbt::Src& s, E e, A a) {
   double de = (double)e, da = (double)a;
   bool known = true, equal = false;
   if(std::isnan(de) || std::isnan(da)) equal = false;
   else if(std::isinf(de) || std::isinf(da)) equal = de == da;
   else {
      long double d = fabsl((long double)de - (long double)da);
      equal = d < 1e-4L;
      known = d < 0.99e-4L || d > 1.01e-4L;
      if(d < 1e-3L && d > 1e-5L) { s.nontrivial(); s.label("close to the border"); }
   }
   int shape = (int)s.draw(5);
   NOTE(s, "shape " << shape << " of " << std::hexfloat << de << " and " << da << (known ? "" : " (on the border)"));
   Floats<E, A> t(e, a, true, shape), u(e, a, false, shape);
   t.perform(); u.perform();
   REQUIRE(s, (t.status() == TestCase::SUCCESS) != (u.status() == TestCase::SUCCESS), de << " and " << da << " are " << (t.status() == TestCase::SUCCESS ? "both" : "neither") << " equal and different");
   if(!known) equal = t.status() == TestCase::SUCCESS;
   t.pass = equal; u.pass = !equal;
   s.label(equal ? "equal" : "different");
   std::ostringstream w; w << "floating point check of " << de << " and " << da;
   expectRecord(s, t, "equality " + w.str()); expectRecord(s, u, "inequality " + w.str());
}
PBT_ARM(floats, 40000, 1000000, true) {
   double e = anyDouble(s), a;
   switch(s.weighted({5, 3, 1, 2, 1})) {
   case 0: { double d = s.pick({0.00005, 0.00009, 0.000098, 0.000102, 0.00011, 0.0002, 0.001, 0.00001, 1e-9}); a = s.coin() ? e + d : e - d; break; }
   case 1: { double d = (double)s.draw(400) * 1e-6; a = s.coin() ? e + d : e - d; break; }
   case 2: a = e; break;
   case 3: a = anyDouble(s); break;
   default: a = -e; break;
   }
   switch(s.weighted({5, 1, 1, 1, 1})) {
   case 0: tryFloats<double, double>(s, e, a); break;
   case 1: tryFloats<float, double>(s, (float)e, (double)(float)e + (a - e)); break;
   case 2: tryFloats<float, float>(s, (float)e, (float)a); break;
   case 3: { int i = std::isfinite(e) && std::fabs(e) < 1e9 ? (int)e : 1; tryFloats<int, double>(s, i, i + (std::isfinite(a - e) ? a - e : 0.5)); break; }
   default: { int i = std::isfinite(a) && std::fabs(a) < 1e9 ? (int)a : 1; tryFloats<double, int>(s, e, i); break; }
   }
}

// --- exceptions
struct Base { virtual ~Base() {} }; struct Derived: Base {}; struct Other {};
struct OwnError: std::runtime_error { OwnError(): std::runtime_error("own") {} };
enum { NTHROWN = 12, NCAUGHT = 9 };
static void thrower(int k) {
   switch(k) {
   case 1: throw 42; case 2: throw std::runtime_error("a runtime error"); case 3: throw std::logic_error("a logic error"); case 4: throw std::out_of_range("out of range"); case 5: throw OwnError();
   case 6: throw Base(); case 7: throw Derived(); case 8: throw Other(); case 9: throw std::string("text"); case 10: throw "literal"; case 11: throw (const char*)nullptr;
   default: return;
   }
}
// whether what is thrown is of the kind caught, spelled out
static bool isKind(int thrown, int caught) {
   switch(caught) {
   case 0: return thrown >= 2 && thrown <= 5;               // std::exception
   case 1: return thrown == 2 || thrown == 5;               // std::runtime_error
   case 2: return thrown == 3 || thrown == 4;               // std::logic_error
   case 3: return thrown == 4;                              // std::out_of_range
   case 4: return thrown == 5;                              // OwnError
   case 5: return thrown == 1;                              // int
   case 6: return thrown == 6 || thrown == 7;               // Base
   case 7: return thrown == 7;                              // Derived
   default: return thrown == 9;                             // std::string
   }
}
static const char* thrownName(int k) { static const char* n[] = {"nothing", "an int", "a runtime_error", "a logic_error", "an out_of_range", "an OwnError", "a Base", "a Derived", "an Other", "a string", "a literal", "a null C string"}; return n[k]; }
struct Throws: Probe {
   int macro = 0, thrown = 0, caught = 0, before = 0, did = 0;
   void test() override {
      file = "c31.cpp";
      switch(macro) {
      case 0:
         switch(caught) {
#define TH(N, T) case N: line = __LINE__; EXPECT_THROW(++did; thrower(before); thrower(thrown), T) tells = {#T}; break;
         TH(0, std::exception) TH(1, std::runtime_error) TH(2, std::logic_error) TH(3, std::out_of_range) TH(4, OwnError) TH(5, int) TH(6, Base) TH(7, Derived) TH(8, std::string)
         }
         break;
      case 1: line = __LINE__; EXPECT_ANY_THROW(++did; thrower(before); thrower(thrown)); break;
      default: line = __LINE__; EXPECT_NO_THROW(++did; thrower(before); thrower(thrown)); break;
      }
      past = true;
   }
};
PBT_ARM(exceptions, 15000, 300000, true) {
   Throws t; t.macro = (int)s.draw(3); t.thrown = (int)s.draw(NTHROWN); t.caught = (int)s.draw(NCAUGHT); if(s.coin(1, 6)) t.before = (int)s.draw(NTHROWN);
   int first = t.before ? t.before : t.thrown;
   static const char* names[] = {"EXPECT_THROW", "EXPECT_ANY_THROW", "EXPECT_NO_THROW"};
   bool pass = t.macro == 0 ? first && isKind(first, t.caught) : t.macro == 1 ? first != 0 : first == 0;
   bool escapes = t.macro == 0 && first && !pass;
   NOTE(s, names[t.macro] << " of kind " << t.caught << ", throwing " << thrownName(first));
   t.perform();
   std::ostringstream w; w << names[t.macro] << " of kind " << t.caught << " with " << thrownName(first) << " thrown";
   REQUIRE(s, t.did == 1, w.str() << " evaluates the expression " << t.did << " times");
   REQUIRE(s, (t.status() == TestCase::SUCCESS) == pass, w.str() << " has status " << t.statusDesc());
   if(first) s.nontrivial();
   s.label(pass ? "passes" : escapes ? "another escapes" : "fails");
   if(pass) { REQUIRE(s, t.past, "the test ends after passing " << w.str()); return; }
   if(escapes) { REQUIRE(s, !t.past && (t.status() == TestCase::ERROR || t.status() == TestCase::FAIL), w.str() << " is " << t.statusDesc()); return; }
   REQUIRE(s, t.status() == TestCase::FAIL, w.str() << " has status " << t.statusDesc());
   if(t.macro == 2 && first >= 2 && first <= 5) { try { thrower(first); } catch(std::exception& e) { t.tells = {e.what()}; } }
   t.pass = false; t.past = false;    // (whether the body goes on is left open)
   expectRecord(s, t, w.str());
}

// --- many checks in a body, in loops and conditionals; explicit failures
struct Body: Probe {
   int failAt = 0;
   struct Check { int k; int64_t e, a; std::string t; };
   std::vector<Check> cs;
   void test() override {
      file = "c31.cpp"; again = 0;
      int64_t value, result, ss, out, tmp, str, os, stream;     // (names the macros must not use)
      value = result = ss = out = tmp = str = os = stream = 0;
      for(auto& c: cs) {
         value = c.e; result = c.a; ss = c.a; out = c.e; tmp = c.a; str = c.e; os = c.a; stream = c.e;
         if(c.k == 0) { line = __LINE__; EXPECT_EQ(value, result); }
         else if(c.k == 1) { line = __LINE__; EXPECT_NE(out, ss); }
         else if(c.k == 2) { line = __LINE__; EXPECT_LT(out, ss); }
         else if(c.k == 3) { line = __LINE__; EXPECT_GE(str, tmp); }
         else if(c.k == 4) { line = __LINE__; EXPECT_TRUE(os == stream); }
         else if(c.k == 5) { line = __LINE__; EXPECT_FALSE(stream < os); }
         else if(c.k == 6) { line = __LINE__; EXPECT_STREQ(c.t, "right"); }
         else if(c.k == 7) { line = __LINE__; EXPECT_FLOAT_EQ(value, ss); }
         else { failAt = line = __LINE__; FAIL(c.t.c_str()); }
         ++again;
      }
      past = true;
   }
   static bool ok(const Check& c) {
      switch(c.k) { case 0: return c.e == c.a; case 1: return c.e != c.a; case 2: return c.e < c.a; case 3: return c.e >= c.a; case 4: return c.e == c.a; case 5: return !(c.e < c.a); case 6: return c.t == "right"; case 7: return c.e == c.a; default: return false; }
   }
};
PBT_ARM(bodies, 20000, 500000, true) {
   Body t; size_t n = s.draw(12);
   t.wantAgain = 0;
   bool failing = s.coin(2, 3); size_t at = failing && n ? s.draw(n) : n;
   bool explicitly = false;
   for(size_t i = 0; i < n; ++i) {
      Body::Check c;
      do { c.k = (int)s.weighted({3, 2, 2, 2, 2, 2, 2, 2, i == at ? 3u : 0u}); c.e = (int64_t)s.draw(100); c.a = s.coin(i == at ? 1 : 3, 4) ? c.e : (int64_t)s.draw(100); c.t = s.coin(i == at ? 1 : 3, 4) ? "right" : s.text(6, 1); } while(Body::ok(c) != (i != at) && !s.coin(1, 20));
      bool good = Body::ok(c);
      NOTE(s, "check of kind " << c.k << " with " << c.e << ", " << c.a << ", " << pbt::show(c.t) << (good ? "" : " fails"));
      t.cs.push_back(c);
      if(t.pass && !good) {
         t.pass = false; explicitly = c.k == 8;
         static const char* names[] = {"result", "ss", "ss", "tmp", "os == stream", "stream < os", "\"right\"", "ss", ""};
         t.tells = {c.k == 8 ? c.t : names[c.k]};
         if(c.k < 4 || c.k == 7) t.tells.push_back(std::to_string(c.a)); else if(c.k < 6) t.tells.push_back(c.k == 4 ? "0" : "1"); else if(c.k == 6) t.tells.push_back("right");
      }
      if(t.pass) ++t.wantAgain;
   }
   if(!t.pass && t.wantAgain) s.nontrivial();
   t.perform();
   if(explicitly && (t.past || t.again > t.wantAgain)) {
      s.label("FAIL goes on"); s.deviation("fail-goes-on", "the test goes on after FAIL");
      REQUIRE(s, t.status() == TestCase::FAIL, "after FAIL the status is " << t.statusDesc());
      for(size_t i = (size_t)t.wantAgain + 1; i < n; ++i) if(!Body::ok(t.cs[i])) return;
      t.past = false; t.again = t.wantAgain; t.line = t.failAt;
   }
   expectRecord(s, t, "a body of " + std::to_string(n) + " checks");
}
int main(int argc, char** argv) { return pbt::run(argc, argv, "C31"); }

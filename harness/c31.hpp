// Check macros: sites, each of which is one use of a macro with its operands' expressions spelled out.
#ifndef VERIF_C31_HPP
#define VERIF_C31_HPP
#define FALCON_TEST_DONT_DEFINE_TEST
#include "pbt.hpp"
#include <falcon/fut/fut.h>
#include <memory>
namespace ck {
using falcon::testing::TestCase;
enum Op { EQ, NE, GT, GE, LT, LE };
template<class E, class A> bool holds(int op, const E& e, const A& a) {
   switch(op) { case EQ: return e == a; case NE: return e != a; case GT: return e > a; case GE: return e >= a; case LT: return e < a; default: return e <= a; }
}
inline const char* opText(int op) { static const char* t[] = {"==", "!=", ">", ">=", "<", "<="}; return t[op]; }
template<class T> std::string rendered(const T& v) { std::ostringstream o; o << v; return o.str(); }

/// A test with what it should come to, as far as it was determined by the body itself before the check.
struct Probe: TestCase {
   bool pass = true;                  // the checks should pass
   int line = 0;                      // of the (first failing) check
   const char* file = nullptr;
   std::vector<std::string> tells;    // what the description should contain
   bool past = false;                 // the body went on after the check
   int again = -1, wantAgain = -1;    // statements of a loop
   void perform() { beginTest(false); run(); endTest(false); }
};
inline void expectRecord(pbt::Src& s, Probe& t, const std::string& what) {
   REQUIRE(s, t.status() == (t.pass ? TestCase::SUCCESS : TestCase::FAIL), what << " should have " << (t.pass ? "passed" : "failed") << " but the status is " << t.statusDesc());
   REQUIRE(s, t.past == t.pass, (t.past ? "the test goes on after failing " : "the test ends after passing ") << what);
   REQUIRE(s, t.again == t.wantAgain, "the test went on for " << t.again << " rounds instead of " << t.wantAgain << " of " << what);
   if(t.pass) return;
   std::string d = t.failDesc(), f = t.failFile();
   size_t at = 0;
   for(auto& x: t.tells) { at = d.find(x.c_str(), at); REQUIRE(s, at != std::string::npos, "failing " << what << " records " << pbt::show(d) << ", which doesn't tell (or not in this place) " << pbt::show(x)); at += strlen(x.c_str()); }
   REQUIRE(s, t.failLine() == t.line, "failing " << what << " records line " << t.failLine() << " instead of " << t.line);
   std::string want = t.file;
   REQUIRE(s, f == want, "failing " << what << " records file " << pbt::show(f) << " instead of " << pbt::show(want));
}

// --- expressions of every precedence, with operands of the names the macros might be tempted to use
struct Vals {
   int a, b, c; unsigned n; const char* str; int arr[3];
   int twice(int x) const { return 2 * x; }
};
#define SHAPES(X) X(0, a) X(1, a + b) X(2, a * b - c) X(3, a | b) X(4, a & b) X(5, a ^ c) X(6, a == b) X(7, b != c) X(8, a < b) X(9, a >= c) X(10, a && b) X(11, a || c) X(12, a ? b : c) X(13, a << n) X(14, -a) \
   X(15, !a) X(16, twice(a)) X(17, arr[1]) X(18, a - b - c) X(19, a ? b : c ? a : b) X(20, a % 7) X(21, ~c) X(22, [&]{ return c; }()) X(23, static_cast<int>(n) + 1) X(24, a > b == c) X(25, a | b & c)
// the same, fewer, as left operands and with other variables
#define LSHAPES(X) X(0, 3) X(1, a) X(2, a + b) X(3, c | b) X(4, c & a) X(5, b == a) X(6, a < c) X(7, b && c) X(8, c || a) X(9, c ? a : b) X(10, b ^ a) X(11, a << n) X(12, !c) X(13, arr[0])
enum { NSHAPES = 26, NLSHAPES = 14 };
struct ShapeProbe: Probe, Vals {
   int l = 0, r = 0;
   std::string lt, rt;
};
typedef std::unique_ptr<ShapeProbe> (*ShapeMaker)();
ShapeMaker shapeMaker0(); ShapeMaker shapeMaker1(); ShapeMaker shapeMaker2(); ShapeMaker shapeMaker3(); ShapeMaker shapeMaker4(); ShapeMaker shapeMaker5();
ShapeMaker truthMaker0(); ShapeMaker truthMaker1();
}
#endif

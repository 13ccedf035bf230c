// All shapes of operands with the comparison macro number PART (6 and 7: true and false).
#pragma clang diagnostic ignored "-Wparentheses"
#pragma clang diagnostic ignored "-Wbitwise-op-parentheses"
#pragma clang diagnostic ignored "-Wlogical-op-parentheses"
#pragma clang diagnostic ignored "-Wbool-operation"
#pragma clang diagnostic ignored "-Wint-in-bool-context"
#pragma clang diagnostic ignored "-Wsign-compare"
#include "c31.hpp"
namespace ck {
#if PART == 0
#define CHECK EXPECT_EQ
#elif PART == 1
#define CHECK EXPECT_NE
#elif PART == 2
#define CHECK EXPECT_GT
#elif PART == 3
#define CHECK EXPECT_GE
#elif PART == 4
#define CHECK EXPECT_LT
#elif PART == 5
#define CHECK EXPECT_LE
#elif PART == 6
#define CHECK EXPECT_TRUE
#else
#define CHECK EXPECT_FALSE
#endif
#define CAT2(A, B) A##B
#define CAT(A, B) CAT2(A, B)
#if PART < 6
// Every right operand with some left operand and every left operand with some right operand; pairs which are a site: a few
// rows and columns in full.
struct CAT(Shape, PART): ShapeProbe {
   void test() override {
      file = "c31_shapes.cpp";
      switch(l) {
#define SITE(N, E, A) case N: { auto ev = [&]{ return E; }(); auto av = [&]{ return A; }(); pass = holds(PART, ev, av); lt = #E; rt = #A; tells = {lt, opText(PART), rt, rendered(av)}; line = __LINE__; CHECK(E, A); past = true; break; }
#define R1(N, A) SITE(N, 3, A)
      case 0: switch(r) { SHAPES(R1) } break;
#undef R1
#define R1(N, A) SITE(N, a + b, A)
      case 2: switch(r) { SHAPES(R1) } break;
#undef R1
#define R1(N, A) SITE(N, c ? a : b, A)
      case 9: switch(r) { SHAPES(R1) } break;
#undef R1
#define R1(N, A) SITE(N, a < c, A)
      case 6: switch(r) { SHAPES(R1) } break;
#undef R1
#define L1(N, E) case N: switch(r) { SITE(0, E, a) SITE(1, E, a + b) SITE(6, E, a == b) SITE(3, E, a | b) SITE(10, E, a && b) SITE(12, E, a ? b : c) default: r = 99; } break;
      L1(1, a) L1(3, c | b) L1(4, c & a) L1(5, b == a) L1(7, b && c) L1(8, c || a) L1(10, b ^ a) L1(11, a << n) L1(12, !c) L1(13, arr[0])
      }
   }
};
ShapeMaker CAT(shapeMaker, PART)() { return []() -> std::unique_ptr<ShapeProbe> { return std::unique_ptr<ShapeProbe>(new CAT(Shape, PART)); }; }
#else
struct CAT(Truth, PART): ShapeProbe {
   void test() override {
      file = "c31_shapes.cpp";
      switch(r) {
#define R1(N, A) case N: { auto av = [&]{ return A; }(); pass = (bool)av == (PART == 6); rt = #A; tells = {rt, rendered(av)}; line = __LINE__; CHECK(A); past = true; break; }
      SHAPES(R1)
      }
   }
};
#if PART == 6
ShapeMaker truthMaker0() { return []() -> std::unique_ptr<ShapeProbe> { return std::unique_ptr<ShapeProbe>(new Truth6); }; }
#else
ShapeMaker truthMaker1() { return []() -> std::unique_ptr<ShapeProbe> { return std::unique_ptr<ShapeProbe>(new Truth7); }; }
#endif
#endif
}

// C26: the compile-time log level removes exactly the levels above it. One unit (and one copy of the Logger, in a
// namespace of its own) per level; part N is minimum level N - 1, part 0 none at all.
#ifdef PART
#if PART
#define COOP_NO_YIELD
#endif
#include "loggerprog.hpp"
#define CAT2(A, B) A##B
#define CAT(A, B) CAT2(A, B)
#define ARM(N) PBT_ARM(N, 1800, 45000, false)
ARM(CAT(part, PART)) { pbt::isolated(s, [&] { lp::program(s, lp::MINLEVEL, PART - 1); }); }
static_assert((int)FALCON_MIN_LOG_LEVEL == PART - 1, "the levels are numbered from critical on");
#else
#include "pbt.hpp"
int main(int argc, char** argv) { return pbt::run(argc, argv, "C26"); }
#endif

// C23: a log statement or block produces exactly the composed message.
#include "loggerprog.hpp"
PBT_ARM(programs, 12000, 300000, false) { pbt::isolated(s, [&] { lp::program(s, lp::TEXTS); }); }
int main(int argc, char** argv) { return pbt::run(argc, argv, "C23"); }

// C24: log categories are per thread, temporary ones last one message.
#include "loggerprog.hpp"
PBT_ARM(programs, 12000, 300000, false) { pbt::isolated(s, [&] { lp::program(s, lp::CATS); }); }
int main(int argc, char** argv) { return pbt::run(argc, argv, "C24"); }

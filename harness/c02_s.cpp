#include "c02.hpp"
PBT_ARM(strings, 100000, 1500000, false) { traverse<falcon::PagedStack<std::string>, std::string>(s); }

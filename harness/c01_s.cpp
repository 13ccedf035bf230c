#include "c01.hpp"
PBT_ARM(strings, 40000, 700000, true) { history<falcon::PagedStack<std::string>, std::string>(s); }

#include "c01.hpp"
PBT_ARM(records_mutex, 40000, 700000, true) { history<falcon::PagedStack<Rec, std::allocator, std::mutex>, Rec>(s); }

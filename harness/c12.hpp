// Types with observable construction, reached through falcon::Singleton in c12_ops.cpp.
#ifndef C12_HPP
#define C12_HPP
#include <cstdint>
#include <string>
void c12_point();     // inside constructors
template<int N> struct Kind {
   static int built;
   uint64_t magic, number;
   std::string text;
   Kind(): magic(0), number(0) { ++built; c12_point(); number = 40 + N; c12_point(); text = "instance of kind " + std::to_string(N) + ", built in steps"; c12_point(); magic = 0xfa1c0; }
   bool whole() const { return magic == 0xfa1c0 && number >= 40u + N && text.size() > 20; }
};
template<int N> int Kind<N>::built = 0;
enum { KINDS = 4, ACCESSORS = 6 };
struct Seen { const void* where; bool whole; };
/// Uses accessor a of handle h of kind k. Handles are numbered; 0..3 are global, others local to the call.
Seen c12_use(int kind, int accessor, int handle);
void* c12_newHandle(int kind);
Seen c12_useHandle(int kind, int accessor, void* handle);
void c12_deleteHandle(int kind, void* handle);
#endif

// The atomic primitives as the header defines them, instrumented access by access (see c11.cpp for the runtime).
#include <falcon/atomic.h>
#define OP __attribute__((noinline)) extern "C"
extern "C" {
int op_inc(volatile int* a) { return falcon::atomicInc(*(falcon::atomic_int*)a); }
int op_dec(volatile int* a) { return falcon::atomicDec(*(falcon::atomic_int*)a); }
int op_add(volatile int* a, int v) { return falcon::atomicAdd(*(falcon::atomic_int*)a, v); }
int op_fetch(volatile int* a) { return falcon::atomicFetch(*(falcon::atomic_int*)a); }
void op_set(volatile int* a, int v) { falcon::atomicSet(*(falcon::atomic_int*)a, v); }
int op_xchg(volatile int* a, int v) { return falcon::atomicExchange(*(falcon::atomic_int*)a, v); }
int op_cas(volatile int* a, int c, int n) { return falcon::atomicCAS(*(falcon::atomic_int*)a, c, n); }
int op_xor(volatile int* a, int v) { return falcon::atomicXor(*(falcon::atomic_int*)a, v); }
int op_and(volatile int* a, int v) { return falcon::atomicAnd(*(falcon::atomic_int*)a, v); }
int op_or(volatile int* a, int v) { return falcon::atomicOr(*(falcon::atomic_int*)a, v); }
}

// The runtime of the compiler's access instrumentation: every instrumented memory access is a scheduling point.
#ifndef VERIF_TSANRT_HPP
#define VERIF_TSANRT_HPP
#include "coop.hpp"
extern "C" {
void __tsan_vptr_update(void**, void*) { coop::point("vptr update"); }
void __tsan_vptr_read(void**) { coop::point("vptr read"); }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(K, N) void __tsan_##K##N(void*) { coop::point(#K); } void __tsan_volatile_##K##N(void*) { coop::point(#K); } void __tsan_unaligned_##K##N(void*) { coop::point(#K); } void __tsan_unaligned_volatile_##K##N(void*) { coop::point(#K); }
#define ACCS(K) ACC(K, 1) ACC(K, 2) ACC(K, 4) ACC(K, 8) ACC(K, 16)
ACCS(read) ACCS(write) ACCS(read_write)
void* __tsan_memcpy(void* d, const void* a, unsigned long n) { coop::point("memcpy"); return memcpy(d, a, n); }
void* __tsan_memset(void* d, int a, unsigned long n) { coop::point("memset"); return memset(d, a, n); }
void* __tsan_memmove(void* d, const void* a, unsigned long n) { coop::point("memmove"); return memmove(d, a, n); }
void __tsan_atomic_thread_fence(int) { coop::point("fence"); }
void __tsan_atomic_signal_fence(int) {}
#define AT(B, T) \
   T __tsan_atomic##B##_load(const volatile T* a, int) { coop::point("load"); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
   void __tsan_atomic##B##_store(volatile T* a, T v, int) { coop::point("store"); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { coop::point("exchange"); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { coop::point("add"); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { coop::point("sub"); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { coop::point("and"); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { coop::point("or"); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { coop::point("xor"); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { coop::point("nand"); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
   int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { coop::point("cas"); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
   int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { coop::point("cas"); if(coop::on() && coop::Sched::current()->s.draw(8) == 7) { *c = __atomic_load_n(a, __ATOMIC_SEQ_CST); return 0; } return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
   T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { coop::point("cas"); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, char) AT(16, short) AT(32, int) AT(64, long)
}
#endif

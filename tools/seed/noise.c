/* Timing noise for demonstrations: code compiled with -fsanitize=thread but linked without the sanitizer calls these
   functions at every memory access; they do the access (atomics) and now and then yield or sleep.  Real threads, real memory. */
#define _GNU_SOURCE
#include <stdint.h>
#include <string.h>
#include <sched.h>
#include <unistd.h>
#include <time.h>
#ifndef P_YIELD
#define P_YIELD 400
#endif
#ifndef P_SLEEP
#define P_SLEEP 3000
#endif
static __thread uint32_t s;
static inline void noise(void)
{
  if (!s) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); s = (uint32_t)(uintptr_t)&s * 2654435761u ^ (uint32_t)t.tv_nsec; s |= 1; }
  s ^= s << 13; s ^= s >> 17; s ^= s << 5;
  if (s % P_YIELD == 0) sched_yield();
  if (s % P_SLEEP == 1) usleep(s % 60);
}
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *p) { noise(); } void __tsan_write##n(void *p) { noise(); } void __tsan_volatile_read##n(void *p) { noise(); } void __tsan_volatile_write##n(void *p) { noise(); } void __tsan_unaligned_read##n(void *p) { noise(); } void __tsan_unaligned_write##n(void *p) { noise(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, long n) { noise(); }
void __tsan_write_range(void *p, long n) { noise(); }
#define AT(n, T) \
 T __tsan_atomic##n##_load(const volatile T *p, int m) { noise(); return __atomic_load_n(p, 5); } \
 void __tsan_atomic##n##_store(volatile T *p, T v, int m) { noise(); if (m == 5) __atomic_store_n(p, v, 5); else __atomic_store_n(p, v, 3); } \
 T __tsan_atomic##n##_exchange(volatile T *p, T v, int m) { noise(); return __atomic_exchange_n(p, v, 5); } \
 T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int m) { noise(); return __atomic_fetch_add(p, v, 5); } \
 T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int m) { noise(); return __atomic_fetch_sub(p, v, 5); } \
 T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int m) { noise(); return __atomic_fetch_and(p, v, 5); } \
 T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int m) { noise(); return __atomic_fetch_or(p, v, 5); } \
 T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int m) { noise(); return __atomic_fetch_xor(p, v, 5); } \
 int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int a, int b) { noise(); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
 int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int b) { noise(); return __atomic_compare_exchange_n(p, e, v, 1, 5, 5); } \
 T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T e, T v, int a, int b) { noise(); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { noise(); if (m == 5) __atomic_thread_fence(5); else __asm__ volatile("" ::: "memory"); }
void __tsan_atomic_signal_fence(int m) {}

// A stand-in for the runtime of the thread sanitizer: the library is compiled
// with -fsanitize=thread, so that each memory access and each atomic operation
// of it passes here, and the driver (drv_threads) decides which thread goes on.
// This file itself is compiled without instrumentation.
#include <stddef.h>
#include <stdint.h>

extern "C" void (*sched_access)(const volatile void *addr, size_t bytes, int write);
void (*sched_access)(const volatile void *addr, size_t bytes, int write);
static inline void at(const volatile void *p, size_t n, int w) {
  if (sched_access)
    sched_access(p, n, w);
}

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { at(p, 8, 1); }
void __tsan_vptr_read(void **p) { at(p, 8, 0); }
void __tsan_read_range(void *p, size_t n) { at(p, n, 0); }
void __tsan_write_range(void *p, size_t n) { at(p, n, 1); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N)                                                                                                                                 \
  void __tsan_read##N(void *p) { at(p, N, 0); }                                                                                               \
  void __tsan_write##N(void *p) { at(p, N, 1); }                                                                                              \
  void __tsan_unaligned_read##N(void *p) { at(p, N, 0); }                                                                                     \
  void __tsan_unaligned_write##N(void *p) { at(p, N, 1); }                                                                                    \
  void __tsan_volatile_read##N(void *p) { at(p, N, 0); }                                                                                      \
  void __tsan_volatile_write##N(void *p) { at(p, N, 1); }                                                                                     \
  void __tsan_unaligned_volatile_read##N(void *p) { at(p, N, 0); }                                                                            \
  void __tsan_unaligned_volatile_write##N(void *p) { at(p, N, 1); }                                                                           \
  void __tsan_read_write##N(void *p) { at(p, N, 1); }                                                                                         \
  void __tsan_read##N##_pc(void *p, void *) { at(p, N, 0); }                                                                                  \
  void __tsan_write##N##_pc(void *p, void *) { at(p, N, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(B, T)                                                                                                                              \
  T __tsan_atomic##B##_load(const volatile T *a, int) {                                                                                       \
    at(a, sizeof(T), 0);                                                                                                                      \
    return *a;                                                                                                                                \
  }                                                                                                                                           \
  void __tsan_atomic##B##_store(volatile T *a, T v, int) {                                                                                    \
    at(a, sizeof(T), 1);                                                                                                                      \
    *a = v;                                                                                                                                   \
  }                                                                                                                                           \
  T __tsan_atomic##B##_exchange(volatile T *a, T v, int) {                                                                                    \
    at(a, sizeof(T), 1);                                                                                                                      \
    T o = *a;                                                                                                                                 \
    *a = v;                                                                                                                                   \
    return o;                                                                                                                                 \
  }                                                                                                                                           \
  T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) {                                                                                   \
    at(a, sizeof(T), 1);                                                                                                                      \
    T o = *a;                                                                                                                                 \
    *a = o + v;                                                                                                                               \
    return o;                                                                                                                                 \
  }                                                                                                                                           \
  T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) {                                                                                   \
    at(a, sizeof(T), 1);                                                                                                                      \
    T o = *a;                                                                                                                                 \
    *a = o - v;                                                                                                                               \
    return o;                                                                                                                                 \
  }                                                                                                                                           \
  T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) {                                                                                   \
    at(a, sizeof(T), 1);                                                                                                                      \
    T o = *a;                                                                                                                                 \
    *a = o & v;                                                                                                                               \
    return o;                                                                                                                                 \
  }                                                                                                                                           \
  T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) {                                                                                    \
    at(a, sizeof(T), 1);                                                                                                                      \
    T o = *a;                                                                                                                                 \
    *a = o | v;                                                                                                                               \
    return o;                                                                                                                                 \
  }                                                                                                                                           \
  T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) {                                                                                   \
    at(a, sizeof(T), 1);                                                                                                                      \
    T o = *a;                                                                                                                                 \
    *a = o ^ v;                                                                                                                               \
    return o;                                                                                                                                 \
  }                                                                                                                                           \
  T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int) {                                                                                  \
    at(a, sizeof(T), 1);                                                                                                                      \
    T o = *a;                                                                                                                                 \
    *a = ~(o & v);                                                                                                                            \
    return o;                                                                                                                                 \
  }                                                                                                                                           \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) {                                                        \
    at(a, sizeof(T), 1);                                                                                                                      \
    if (*a == *c) {                                                                                                                           \
      *a = v;                                                                                                                                 \
      return 1;                                                                                                                               \
    }                                                                                                                                         \
    *c = *a;                                                                                                                                  \
    return 0;                                                                                                                                 \
  }                                                                                                                                           \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) {                                                   \
    return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo);                                                                      \
  }                                                                                                                                           \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int, int) {                                                              \
    at(a, sizeof(T), 1);                                                                                                                      \
    T o = *a;                                                                                                                                 \
    if (o == c)                                                                                                                               \
      *a = v;                                                                                                                                 \
    return o;                                                                                                                                 \
  }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

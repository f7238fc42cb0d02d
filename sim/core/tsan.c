/* runtime behind the compiler's instrumentation of the library */
#include "core.h"
extern unsigned char *cov_map; extern uint32_t cov_n;

void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { if (a == b || *a) return; for (; a < b; a++) *a = ++cov_n; }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { if (cov_map && *g < COV_MAX) cov_map[*g] = 1; step(); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; step(); }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; }
void __tsan_vptr_read(void **a) { (void)a; }
#define RW(n) \
    void __tsan_read##n(void *p) { step(); heap_acc(p, n, 0, "read"); } \
    void __tsan_write##n(void *p) { step(); heap_acc(p, n, 1, "write"); } \
    void __tsan_read_write##n(void *p) { step(); heap_acc(p, n, 1, "write"); } \
    void __tsan_unaligned_read##n(void *p) { step(); heap_acc(p, n, 0, "read"); } \
    void __tsan_unaligned_write##n(void *p) { step(); heap_acc(p, n, 1, "write"); } \
    void __tsan_unaligned_read_write##n(void *p) { step(); heap_acc(p, n, 1, "write"); } \
    void __tsan_volatile_read##n(void *p) { step(); heap_acc(p, n, 0, "read"); } \
    void __tsan_volatile_write##n(void *p) { step(); heap_acc(p, n, 1, "write"); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { step(); heap_acc(p, n, 0, "read"); }
void __tsan_write_range(void *p, unsigned long n) { step(); heap_acc(p, n, 1, "write"); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { step(); heap_acc(s, n, 0, "memcpy source"); heap_acc(d, n, 1, "memcpy target"); if (d < s ? (char *)d + n > (char *)s : (char *)s + n > (char *)d) return memmove(d, s, n); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { step(); heap_acc(s, n, 0, "memmove source"); heap_acc(d, n, 1, "memmove target"); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { step(); heap_acc(d, n, 1, "memset target"); return memset(d, c, n); }
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *a, int m) { (void)m; sched_point(); heap_acc((const void *)a, sizeof(T), 0, "atomic load"); return *a; } \
    void __tsan_atomic##bits##_store(volatile T *a, T v, int m) { (void)m; sched_point(); heap_acc((const void *)a, sizeof(T), 1, "atomic store"); *a = v; } \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int m) { (void)m; sched_point(); T o = *a; *a = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int m) { (void)m; sched_point(); T o = *a; *a = (T)(o + v); return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int m) { (void)m; sched_point(); T o = *a; *a = (T)(o - v); return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int m) { (void)m; sched_point(); T o = *a; *a = (T)(o & v); return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int m) { (void)m; sched_point(); T o = *a; *a = (T)(o | v); return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int m) { (void)m; sched_point(); T o = *a; *a = (T)(o ^ v); return o; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int m) { (void)m; sched_point(); T o = *a; *a = (T)~(o & v); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int m, int f) { (void)m; (void)f; sched_point(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int f) { (void)m; (void)f; sched_point(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int m, int f) { (void)m; (void)f; sched_point(); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { (void)m; sched_point(); }
void __tsan_atomic_signal_fence(int m) { (void)m; }
void sim___stack_chk_fail(void) { sim_fail("stack-smash", "a library function overran its stack frame"); }

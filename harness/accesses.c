// What gcc -fsanitize=thread calls: every access to memory that other threads
// may see becomes a point where the scheduler can switch.  (The runtime of
// the sanitizer itself isn't there.)
#include <stdint.h>
#include <stdbool.h>
#include "vsched.h"

int tsan_yields;        // how many of 1000 accesses

static int here(const void *p)
{
    static unsigned n=12345;
    const char *s=__builtin_frame_address(0);
    if (!tsan_yields || ((const char*)p>s-4096 && (const char*)p<s+65536))
        return 0;
    n=n*1103515245+12345;
    return (n>>16)%1000 < tsan_yields;
}
#define P(p) if (here(p)) sched_yield_here(0)

void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void *p, void *v) { P(p); }
void __tsan_vptr_read(void *p) { P(p); }
void __tsan_read_range(void *p, unsigned long n) { P(p); }
void __tsan_write_range(void *p, unsigned long n) { P(p); }
void __tsan_read1(void *p) { P(p); }
void __tsan_volatile_read1(void *p) { P(p); }
void __tsan_write1(void *p) { P(p); }
void __tsan_volatile_write1(void *p) { P(p); }
void __tsan_read2(void *p) { P(p); }
void __tsan_unaligned_read2(void *p) { P(p); }
void __tsan_volatile_read2(void *p) { P(p); }
void __tsan_unaligned_volatile_read2(void *p) { P(p); }
void __tsan_write2(void *p) { P(p); }
void __tsan_unaligned_write2(void *p) { P(p); }
void __tsan_volatile_write2(void *p) { P(p); }
void __tsan_unaligned_volatile_write2(void *p) { P(p); }
void __tsan_read4(void *p) { P(p); }
void __tsan_unaligned_read4(void *p) { P(p); }
void __tsan_volatile_read4(void *p) { P(p); }
void __tsan_unaligned_volatile_read4(void *p) { P(p); }
void __tsan_write4(void *p) { P(p); }
void __tsan_unaligned_write4(void *p) { P(p); }
void __tsan_volatile_write4(void *p) { P(p); }
void __tsan_unaligned_volatile_write4(void *p) { P(p); }
void __tsan_read8(void *p) { P(p); }
void __tsan_unaligned_read8(void *p) { P(p); }
void __tsan_volatile_read8(void *p) { P(p); }
void __tsan_unaligned_volatile_read8(void *p) { P(p); }
void __tsan_write8(void *p) { P(p); }
void __tsan_unaligned_write8(void *p) { P(p); }
void __tsan_volatile_write8(void *p) { P(p); }
void __tsan_unaligned_volatile_write8(void *p) { P(p); }
void __tsan_read16(void *p) { P(p); }
void __tsan_unaligned_read16(void *p) { P(p); }
void __tsan_volatile_read16(void *p) { P(p); }
void __tsan_unaligned_volatile_read16(void *p) { P(p); }
void __tsan_write16(void *p) { P(p); }
void __tsan_unaligned_write16(void *p) { P(p); }
void __tsan_volatile_write16(void *p) { P(p); }
void __tsan_unaligned_volatile_write16(void *p) { P(p); }
uint8_t __tsan_atomic8_load(const volatile uint8_t *a, int m) { P((void*)a); return __atomic_load_n(a, 5); }
void __tsan_atomic8_store(volatile uint8_t *a, uint8_t v, int m) { P((void*)a); __atomic_store_n(a, v, 5); }
uint8_t __tsan_atomic8_exchange(volatile uint8_t *a, uint8_t v, int m) { P((void*)a); return __atomic_exchange_n(a, v, 5); }
uint8_t __tsan_atomic8_fetch_add(volatile uint8_t *a, uint8_t v, int m) { P((void*)a); return __atomic_fetch_add(a, v, 5); }
uint8_t __tsan_atomic8_fetch_sub(volatile uint8_t *a, uint8_t v, int m) { P((void*)a); return __atomic_fetch_sub(a, v, 5); }
uint8_t __tsan_atomic8_fetch_and(volatile uint8_t *a, uint8_t v, int m) { P((void*)a); return __atomic_fetch_and(a, v, 5); }
uint8_t __tsan_atomic8_fetch_or(volatile uint8_t *a, uint8_t v, int m) { P((void*)a); return __atomic_fetch_or(a, v, 5); }
uint8_t __tsan_atomic8_fetch_xor(volatile uint8_t *a, uint8_t v, int m) { P((void*)a); return __atomic_fetch_xor(a, v, 5); }
uint8_t __tsan_atomic8_fetch_nand(volatile uint8_t *a, uint8_t v, int m) { P((void*)a); return __atomic_fetch_nand(a, v, 5); }
int __tsan_atomic8_compare_exchange_strong(volatile uint8_t *a, uint8_t *c, uint8_t v, int m, int f) { P((void*)a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }
int __tsan_atomic8_compare_exchange_weak(volatile uint8_t *a, uint8_t *c, uint8_t v, int m, int f) { P((void*)a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }
uint8_t __tsan_atomic8_compare_exchange_val(volatile uint8_t *a, uint8_t c, uint8_t v, int m, int f) { P((void*)a); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
uint16_t __tsan_atomic16_load(const volatile uint16_t *a, int m) { P((void*)a); return __atomic_load_n(a, 5); }
void __tsan_atomic16_store(volatile uint16_t *a, uint16_t v, int m) { P((void*)a); __atomic_store_n(a, v, 5); }
uint16_t __tsan_atomic16_exchange(volatile uint16_t *a, uint16_t v, int m) { P((void*)a); return __atomic_exchange_n(a, v, 5); }
uint16_t __tsan_atomic16_fetch_add(volatile uint16_t *a, uint16_t v, int m) { P((void*)a); return __atomic_fetch_add(a, v, 5); }
uint16_t __tsan_atomic16_fetch_sub(volatile uint16_t *a, uint16_t v, int m) { P((void*)a); return __atomic_fetch_sub(a, v, 5); }
uint16_t __tsan_atomic16_fetch_and(volatile uint16_t *a, uint16_t v, int m) { P((void*)a); return __atomic_fetch_and(a, v, 5); }
uint16_t __tsan_atomic16_fetch_or(volatile uint16_t *a, uint16_t v, int m) { P((void*)a); return __atomic_fetch_or(a, v, 5); }
uint16_t __tsan_atomic16_fetch_xor(volatile uint16_t *a, uint16_t v, int m) { P((void*)a); return __atomic_fetch_xor(a, v, 5); }
uint16_t __tsan_atomic16_fetch_nand(volatile uint16_t *a, uint16_t v, int m) { P((void*)a); return __atomic_fetch_nand(a, v, 5); }
int __tsan_atomic16_compare_exchange_strong(volatile uint16_t *a, uint16_t *c, uint16_t v, int m, int f) { P((void*)a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }
int __tsan_atomic16_compare_exchange_weak(volatile uint16_t *a, uint16_t *c, uint16_t v, int m, int f) { P((void*)a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }
uint16_t __tsan_atomic16_compare_exchange_val(volatile uint16_t *a, uint16_t c, uint16_t v, int m, int f) { P((void*)a); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
uint32_t __tsan_atomic32_load(const volatile uint32_t *a, int m) { P((void*)a); return __atomic_load_n(a, 5); }
void __tsan_atomic32_store(volatile uint32_t *a, uint32_t v, int m) { P((void*)a); __atomic_store_n(a, v, 5); }
uint32_t __tsan_atomic32_exchange(volatile uint32_t *a, uint32_t v, int m) { P((void*)a); return __atomic_exchange_n(a, v, 5); }
uint32_t __tsan_atomic32_fetch_add(volatile uint32_t *a, uint32_t v, int m) { P((void*)a); return __atomic_fetch_add(a, v, 5); }
uint32_t __tsan_atomic32_fetch_sub(volatile uint32_t *a, uint32_t v, int m) { P((void*)a); return __atomic_fetch_sub(a, v, 5); }
uint32_t __tsan_atomic32_fetch_and(volatile uint32_t *a, uint32_t v, int m) { P((void*)a); return __atomic_fetch_and(a, v, 5); }
uint32_t __tsan_atomic32_fetch_or(volatile uint32_t *a, uint32_t v, int m) { P((void*)a); return __atomic_fetch_or(a, v, 5); }
uint32_t __tsan_atomic32_fetch_xor(volatile uint32_t *a, uint32_t v, int m) { P((void*)a); return __atomic_fetch_xor(a, v, 5); }
uint32_t __tsan_atomic32_fetch_nand(volatile uint32_t *a, uint32_t v, int m) { P((void*)a); return __atomic_fetch_nand(a, v, 5); }
int __tsan_atomic32_compare_exchange_strong(volatile uint32_t *a, uint32_t *c, uint32_t v, int m, int f) { P((void*)a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }
int __tsan_atomic32_compare_exchange_weak(volatile uint32_t *a, uint32_t *c, uint32_t v, int m, int f) { P((void*)a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }
uint32_t __tsan_atomic32_compare_exchange_val(volatile uint32_t *a, uint32_t c, uint32_t v, int m, int f) { P((void*)a); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
uint64_t __tsan_atomic64_load(const volatile uint64_t *a, int m) { P((void*)a); return __atomic_load_n(a, 5); }
void __tsan_atomic64_store(volatile uint64_t *a, uint64_t v, int m) { P((void*)a); __atomic_store_n(a, v, 5); }
uint64_t __tsan_atomic64_exchange(volatile uint64_t *a, uint64_t v, int m) { P((void*)a); return __atomic_exchange_n(a, v, 5); }
uint64_t __tsan_atomic64_fetch_add(volatile uint64_t *a, uint64_t v, int m) { P((void*)a); return __atomic_fetch_add(a, v, 5); }
uint64_t __tsan_atomic64_fetch_sub(volatile uint64_t *a, uint64_t v, int m) { P((void*)a); return __atomic_fetch_sub(a, v, 5); }
uint64_t __tsan_atomic64_fetch_and(volatile uint64_t *a, uint64_t v, int m) { P((void*)a); return __atomic_fetch_and(a, v, 5); }
uint64_t __tsan_atomic64_fetch_or(volatile uint64_t *a, uint64_t v, int m) { P((void*)a); return __atomic_fetch_or(a, v, 5); }
uint64_t __tsan_atomic64_fetch_xor(volatile uint64_t *a, uint64_t v, int m) { P((void*)a); return __atomic_fetch_xor(a, v, 5); }
uint64_t __tsan_atomic64_fetch_nand(volatile uint64_t *a, uint64_t v, int m) { P((void*)a); return __atomic_fetch_nand(a, v, 5); }
int __tsan_atomic64_compare_exchange_strong(volatile uint64_t *a, uint64_t *c, uint64_t v, int m, int f) { P((void*)a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }
int __tsan_atomic64_compare_exchange_weak(volatile uint64_t *a, uint64_t *c, uint64_t v, int m, int f) { P((void*)a); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); }
uint64_t __tsan_atomic64_compare_exchange_val(volatile uint64_t *a, uint64_t c, uint64_t v, int m, int f) { P((void*)a); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
void __tsan_atomic_thread_fence(int m) {}
void __tsan_atomic_signal_fence(int m) {}

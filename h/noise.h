/* Noise at memory accesses (included by pbt.c in the variant "noise").
 * The library is compiled with -fsanitize=thread, but linked with the functions
 * below instead of the sanitizer's: each access to memory, each atomic operation
 * and the end of each function calls one. They delay the calling thread at drawn
 * places, so that the few instructions between two accesses last long enough for
 * the other threads to come in between. */
#include <sys/syscall.h>
static uint64_t noise_salt; static uint32_t noise_hot, noise_k, noise_len; static volatile int noise_left; static uint32_t noise_n[4096]; static uint64_t noise_end;
static void noise_case(void) {
	/* 0: none. Else one in noise_hot of the places delays its first visits, and the c-th with noise_k / (c + noise_k) */
	static const uint16_t hot[] = { 0, 1, 3, 10, 30, 100 }, left[] = { 30000, 5000, 1500, 150 };
	int h = (int)pbt_below(6);
	noise_left = 0;
	if (!h) return;
	noise_salt = pbt_below(1 << 20); noise_len = (uint32_t)pbt_below(4);
	noise_hot = hot[h]; noise_k = 1u << pbt_below(7);
	noise_left = left[noise_len]; noise_end = __builtin_ia32_rdtsc() + 1500000000ull;   /* however loaded the machine is, half a second */
	pbt_note("[delays: %s at one in %d places, %d] ", noise_len == 0 ? "2 us" : noise_len == 1 ? "20 us" : noise_len == 2 ? "200 us" : "2 ms", (int)noise_hot, (int)noise_k);
}
static __attribute__((noinline)) void noise_wait(void) {
	int e = errno;
	if (__atomic_fetch_sub(&noise_left, 1, __ATOMIC_RELAXED) > 0) {
		uint64_t t0 = __builtin_ia32_rdtsc();
		if (t0 > noise_end) noise_left = 0;
		else if (noise_len == 0) { while (__builtin_ia32_rdtsc() - t0 < 5000) __builtin_ia32_pause(); }
		else { struct timespec t = { 0, noise_len == 1 ? 20000 : noise_len == 2 ? 200000 : 2000000 }; syscall(SYS_nanosleep, &t, NULL); }
	}
	errno = e;
}
static inline __attribute__((always_inline)) void noise_at(void *pc) {
	if (__builtin_expect(noise_left > 0, 0)) {
		uint64_t h = ((uint64_t)(uintptr_t)pc + noise_salt * 0x9E3779B97F4A7C15ull) * 0xD1342543DE82EF95ull; h ^= h >> 29; h *= 0x9E3779B97F4A7C15ull;
		if ((uint32_t)(h >> 32) % noise_hot == 0) {
			uint32_t c = noise_n[h & 4095]++; uint64_t r = (__builtin_ia32_rdtsc() + h) * 0xD1342543DE82EF95ull;
			if ((uint32_t)(r >> 33) % (c + noise_k) < noise_k) noise_wait();
		}
	}
}
#define PC __builtin_return_address(0)
#define NZ(name, ...) void __tsan_##name(__VA_ARGS__) { noise_at(PC); }
NZ(read1, void *p) NZ(read2, void *p) NZ(read4, void *p) NZ(read8, void *p) NZ(read16, void *p)
NZ(write1, void *p) NZ(write2, void *p) NZ(write4, void *p) NZ(write8, void *p) NZ(write16, void *p)
NZ(unaligned_read2, void *p) NZ(unaligned_read4, void *p) NZ(unaligned_read8, void *p) NZ(unaligned_read16, void *p)
NZ(unaligned_write2, void *p) NZ(unaligned_write4, void *p) NZ(unaligned_write8, void *p) NZ(unaligned_write16, void *p)
NZ(volatile_read1, void *p) NZ(volatile_read2, void *p) NZ(volatile_read4, void *p) NZ(volatile_read8, void *p)
NZ(volatile_write1, void *p) NZ(volatile_write2, void *p) NZ(volatile_write4, void *p) NZ(volatile_write8, void *p)
NZ(read_range, void *p, size_t n) NZ(write_range, void *p, size_t n) NZ(vptr_update, void *p, void *q)
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) { noise_at(PC); }
void __tsan_init(void) {}
#define ATOM(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T *p, int mo) { noise_at(PC); if (mo == 0) return __atomic_load_n(p, __ATOMIC_RELAXED); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) { noise_at(PC); if (mo == 0) __atomic_store_n(p, v, __ATOMIC_RELAXED); else if (mo == 3) __atomic_store_n(p, v, __ATOMIC_RELEASE); else __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) { noise_at(PC); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) { noise_at(PC); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) { noise_at(PC); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) { noise_at(PC); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) { noise_at(PC); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) { noise_at(PC); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int mo) { noise_at(PC); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *o, T v, int mo, int fmo) { noise_at(PC); return __atomic_compare_exchange_n(p, o, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *o, T v, int mo, int fmo) { noise_at(PC); return __atomic_compare_exchange_n(p, o, v, 1, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T o, T v, int mo, int fmo) { noise_at(PC); __atomic_compare_exchange_n(p, &o, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { if (mo == 0) return; __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) { __asm__ volatile("" ::: "memory"); }
#undef PC

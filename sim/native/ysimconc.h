// Part of ysim.cc in the build for C10: what the compiler's thread instrumentation calls, and the
// blocking primitives the addon may use, both under the control of the simulated scheduler.
#include <pthread.h>
#include <uv.h>
static YsimConc* g_conc; static uintptr_t g_lo, g_len;
static void conc_attach(YsimConc* c, uintptr_t lo, uintptr_t hi) { g_conc = c; g_lo = lo; g_len = hi - lo; }

static inline __attribute__((always_inline)) void acc(const void* p, void* where) {
	YsimConc* c = g_conc;
	if(!c) return;
	c->n++;
	bool s = --c->any <= 0;
	if((uintptr_t)p - g_lo < g_len) s |= --c->glob <= 0;
	if(__builtin_expect(s, 0)) c->slow(where);
}
#define ACC(p) acc(p, __builtin_return_address(0))
#define HOOK(name) HID void name(void* p) { ACC(p); }
extern "C" {
HID void __tsan_init() {}
HID void __tsan_func_entry(void*) {}
HID void __tsan_func_exit() {}
HID void __tsan_vptr_update(void** p, void*) { ACC(p); }
HID void __tsan_vptr_read(void** p) { ACC(p); }
HOOK(__tsan_read1) HOOK(__tsan_read2) HOOK(__tsan_read4) HOOK(__tsan_read8) HOOK(__tsan_read16)
HOOK(__tsan_write1) HOOK(__tsan_write2) HOOK(__tsan_write4) HOOK(__tsan_write8) HOOK(__tsan_write16)
HOOK(__tsan_unaligned_read2) HOOK(__tsan_unaligned_read4) HOOK(__tsan_unaligned_read8) HOOK(__tsan_unaligned_read16)
HOOK(__tsan_unaligned_write2) HOOK(__tsan_unaligned_write4) HOOK(__tsan_unaligned_write8) HOOK(__tsan_unaligned_write16)
HOOK(__tsan_volatile_read1) HOOK(__tsan_volatile_read2) HOOK(__tsan_volatile_read4) HOOK(__tsan_volatile_read8) HOOK(__tsan_volatile_read16)
HOOK(__tsan_volatile_write1) HOOK(__tsan_volatile_write2) HOOK(__tsan_volatile_write4) HOOK(__tsan_volatile_write8) HOOK(__tsan_volatile_write16)
HOOK(__tsan_read1_pc) HOOK(__tsan_write1_pc)
HID void __tsan_read_range(void* p, size_t) { ACC(p); }
HID void __tsan_write_range(void* p, size_t) { ACC(p); }
HID void* __tsan_memcpy(void* d, const void* s, size_t n) { ACC(d); return memcpy(d, s, n); }
HID void* __tsan_memset(void* d, int v, size_t n) { ACC(d); return memset(d, v, n); }
HID void* __tsan_memmove(void* d, const void* s, size_t n) { ACC(d); return memmove(d, s, n); }
#define ATOMICS(W, T) \
	HID T __tsan_atomic##W##_load(const volatile T* p, int) { ACC((const void*)p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
	HID void __tsan_atomic##W##_store(volatile T* p, T v, int) { ACC((const void*)p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
	HID T __tsan_atomic##W##_exchange(volatile T* p, T v, int) { ACC((const void*)p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
	HID T __tsan_atomic##W##_fetch_add(volatile T* p, T v, int) { ACC((const void*)p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
	HID T __tsan_atomic##W##_fetch_sub(volatile T* p, T v, int) { ACC((const void*)p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
	HID T __tsan_atomic##W##_fetch_and(volatile T* p, T v, int) { ACC((const void*)p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
	HID T __tsan_atomic##W##_fetch_or(volatile T* p, T v, int) { ACC((const void*)p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
	HID T __tsan_atomic##W##_fetch_xor(volatile T* p, T v, int) { ACC((const void*)p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
	HID T __tsan_atomic##W##_fetch_nand(volatile T* p, T v, int) { ACC((const void*)p); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
	HID int __tsan_atomic##W##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { ACC((const void*)p); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	HID int __tsan_atomic##W##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { ACC((const void*)p); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	HID T __tsan_atomic##W##_compare_exchange_val(volatile T* p, T e, T v, int, int) { ACC((const void*)p); __atomic_compare_exchange_n(p, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
HID void __tsan_atomic_thread_fence(int) { __sync_synchronize(); }
HID void __tsan_atomic_signal_fence(int) {}

// ---- blocking primitives
#define IN_SIM (g_conc && g_conc->self() >= 0)
#define POINT acc((void*)g_lo, __builtin_return_address(0))
void __real_uv_once(uv_once_t*, void (*)(void)); int __real_pthread_once(pthread_once_t*, void (*)(void));
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
void __real_uv_mutex_lock(uv_mutex_t*); int __real_uv_mutex_trylock(uv_mutex_t*); void __real_uv_mutex_unlock(uv_mutex_t*);
int __real___cxa_guard_acquire(uint64_t*); void __real___cxa_guard_release(uint64_t*); void __real___cxa_guard_abort(uint64_t*);
// states as glibc uses them: 0 not run, 2 done; 1 running in a simulated thread
static void sim_once(int* o, void (*f)(void)) {
	POINT;
	for(;;) {
		if(*o == 2) return;
		if(*o != 1) { *o = 1; f(); *o = 2; g_conc->wake(o); POINT; return; }
		g_conc->block(o);
	}
}
HID void __wrap_uv_once(uv_once_t* o, void (*f)(void)) { if(IN_SIM || *(int*)o == 1) sim_once((int*)o, f); else __real_uv_once(o, f); }
HID int __wrap_pthread_once(pthread_once_t* o, void (*f)(void)) { if(!IN_SIM) return __real_pthread_once(o, f); sim_once((int*)o, f); return 0; }
// a lock word per mutex: the first int, as glibc uses it; owner in the third, count in the second
static int sim_trylock(int* m) {
	if(*m == 0) { *m = 1; m[2] = 0x10000 + g_conc->self(); m[1] = 1; return 0; }
	if(m[2] == 0x10000 + g_conc->self() && (m[4] & 3) == PTHREAD_MUTEX_RECURSIVE) { m[1]++; return 0; }
	return EBUSY;
}
static void sim_lock(int* m) { POINT; while(sim_trylock(m)) g_conc->block(m); }
static void sim_unlock(int* m) { if(--m[1] > 0) return; m[1] = 0; m[2] = 0; *m = 0; g_conc->wake(m); POINT; }
HID int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if(!IN_SIM) return __real_pthread_mutex_lock(m); sim_lock((int*)m); return 0; }
HID int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if(!IN_SIM) return __real_pthread_mutex_trylock(m); POINT; return sim_trylock((int*)m); }
HID int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if(!IN_SIM) return __real_pthread_mutex_unlock(m); sim_unlock((int*)m); return 0; }
HID void __wrap_uv_mutex_lock(uv_mutex_t* m) { if(!IN_SIM) __real_uv_mutex_lock(m); else sim_lock((int*)m); }
HID int __wrap_uv_mutex_trylock(uv_mutex_t* m) { if(!IN_SIM) return __real_uv_mutex_trylock(m); POINT; return sim_trylock((int*)m) ? UV_EBUSY : 0; }
HID void __wrap_uv_mutex_unlock(uv_mutex_t* m) { if(!IN_SIM) __real_uv_mutex_unlock(m); else sim_unlock((int*)m); }
// function-local statics: byte 0 done, byte 1 being initialised
HID int __wrap___cxa_guard_acquire(uint64_t* g) {
	if(!IN_SIM) return __real___cxa_guard_acquire(g);
	unsigned char* b = (unsigned char*)g;
	POINT;
	for(;;) { if(b[0]) return 0; if(!b[1]) { b[1] = 1; return 1; } g_conc->block(g); }
}
HID void __wrap___cxa_guard_release(uint64_t* g) { if(!IN_SIM) { __real___cxa_guard_release(g); return; } unsigned char* b = (unsigned char*)g; b[1] = 0; b[0] = 1; g_conc->wake(g); POINT; }
HID void __wrap___cxa_guard_abort(uint64_t* g) { if(!IN_SIM) { __real___cxa_guard_abort(g); return; } ((unsigned char*)g)[1] = 0; g_conc->wake(g); }
}

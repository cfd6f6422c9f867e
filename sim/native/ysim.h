// Interface between the simulation host (simhost.cc) and the seams linked into every copy of the
// addon under test (ysim.cc).
#pragma once
#include <stddef.h>
#include <stdint.h>

#define YSIM_MAXRULES 24
struct YsimCpuRule { // value = (host & and_) | or_, for one output register of one cpuid leaf
	uint32_t leaf, sub; // leaf 0xffffffff: xgetbv
	uint32_t reg;       // 0 eax, 1 ebx, 2 ecx, 3 edx
	uint32_t and_, or_;
};
struct YsimAllocHooks {
	void* (*alloc)(size_t size, size_t align, int zero);
	void* (*realloc_)(void* p, size_t size);
	void  (*free_)(void* p);
	int   (*refuse)();          // whether Node refuses the Buffer being created now (may be null)
};
// C10: the schedule of the threads of a simulated process. Memory accesses of the addon are counted
// by the instrumentation the compiler adds; when a budget runs out the scheduler is called.
struct YsimConc {
	int64_t any, glob;          // accesses left until the next preemption: of any kind, of the module's static data
	uint64_t n;                 // accesses so far
	void (*slow)(void* where);  // a budget ran out
	int (*self)();              // index of the calling simulated thread or -1
	void (*block)(const void* key); // wait until somebody wakes the key
	void (*wake)(const void* key);
};
struct YsimApi {
	int has_native;
	YsimAllocHooks* alloc;      // functions may be null: real allocator
	uint64_t* cpuid_calls;
	uint64_t* xgetbv_ud;        // xgetbv executed although OSXSAVE is not reported
	void (*set_profile)(const YsimCpuRule* rules, int n);
	void (*init)(int which);    // 1 encoder, 2 decoder, 4 crc
	int (*isa)(int which);      // 0 encoder, 1 decoder, 2 crc
	size_t (*decode)(int raw, const void* src, void* dest, size_t len, int* state);
	int (*decode_end)(const void** src, void** dest, size_t len, int* state);
	size_t (*encode)(int line_size, int* col, const void* src, void* dest, size_t len, int doEnd);
	uint32_t (*crc)(const void* data, size_t len, uint32_t init);
	uint32_t (*crc_combine)(uint32_t a, uint32_t b, uint64_t len);
	uint32_t (*crc_zeros)(uint32_t a, uint64_t len);
	uint32_t (*crc_unzero)(uint32_t a, uint64_t len);
	uint32_t (*crc_shift)(uint32_t a, uint32_t n);
	uint32_t (*crc_multiply)(uint32_t a, uint32_t b);
	void (*conc_attach)(YsimConc* c, uintptr_t lo, uintptr_t hi); // null unless built for C10
};

// Linked into every copy of the addon built for simulation: the simulated CPU (cpuid/xgetbv), the
// simulated allocator, and direct access to the native API of src/*.h.
#include "ysim.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <malloc.h>
#include <stdio.h>
#include <cpuid.h>
#ifndef YSIM_NO_NATIVE
# include "encoder.h"
# include "decoder.h"
# include "crc.h"
#endif

#define HID __attribute__((visibility("hidden")))

// ---- simulated CPU ------------------------------------------------------------------------
static YsimCpuRule g_rules[YSIM_MAXRULES];
static int g_nrules = -1;
static uint64_t g_cpuid_calls, g_xgetbv_ud;

static void parse_env() {
	g_nrules = 0;
	const char* e = getenv("YSIM_CPU"); // leaf.sub.reg.and.or;... (hex)
	while(e && *e && g_nrules < YSIM_MAXRULES) {
		YsimCpuRule r;
		if(sscanf(e, "%x.%x.%x.%x.%x", &r.leaf, &r.sub, &r.reg, &r.and_, &r.or_) == 5)
			g_rules[g_nrules++] = r;
		e = strchr(e, ';');
		if(e) e++;
	}
}
static void set_profile(const YsimCpuRule* rules, int n) {
	g_nrules = n < YSIM_MAXRULES ? n : YSIM_MAXRULES;
	memcpy(g_rules, rules, g_nrules * sizeof(*rules));
}
extern "C" HID __attribute__((target("general-regs-only"))) void ysim_cpuid_c(uint32_t leaf, uint32_t sub, uint32_t* out) {
	if(g_nrules < 0) parse_env();
	g_cpuid_calls++;
	__cpuid_count(leaf, sub, out[0], out[1], out[2], out[3]);
	for(int i=0; i<g_nrules; i++) {
		YsimCpuRule& r = g_rules[i];
		if(r.leaf == leaf && (r.sub == sub || (leaf != 7 && leaf != 0x24 && leaf != 0xd)))
			out[r.reg & 3] = (out[r.reg & 3] & r.and_) | r.or_;
	}
}
extern "C" HID __attribute__((target("general-regs-only"))) void ysim_xgetbv_c(uint32_t xcr, uint32_t, uint32_t* out) {
	if(g_nrules < 0) parse_env();
	g_cpuid_calls++;
	uint32_t a, b, c, d;
	__cpuid(1, a, b, c, d);
	out[0] = out[1] = out[2] = out[3] = 0;
	uint32_t c1 = c;
	for(int i=0; i<g_nrules; i++) if(g_rules[i].leaf == 1 && g_rules[i].reg == 2) c1 = (c1 & g_rules[i].and_) | g_rules[i].or_;
	if(!(c1 & (1<<27)) || xcr) g_xgetbv_ud++;
	if(c & (1<<27)) { // host has OSXSAVE
		uint32_t lo, hi;
		__asm__ __volatile__("xgetbv" : "=a"(lo), "=d"(hi) : "c"(xcr));
		out[0] = lo; out[3] = hi;
	}
	for(int i=0; i<g_nrules; i++)
		if(g_rules[i].leaf == 0xffffffff)
			out[g_rules[i].reg & 3] = (out[g_rules[i].reg & 3] & g_rules[i].and_) | g_rules[i].or_;
}
#define THUNK(name, cfn, restore) \
	".globl " name "\n.hidden " name "\n.type " name ",@function\n" name ":\n" \
	"	push %rbp\n	mov %rsp, %rbp\n" \
	"	push %rdi\n	push %rsi\n	push %r8\n	push %r9\n	push %r10\n	push %r11\n	push %rbx\n	push %rcx\n" \
	"	sub $32, %rsp\n	and $-16, %rsp\n" \
	"	mov %eax, %edi\n	mov %ecx, %esi\n	mov %rsp, %rdx\n" \
	restore
__asm__(".text\n"
	THUNK("ysim_cpuid_thunk", "ysim_cpuid_c",
	"	call ysim_cpuid_c\n"
	"	mov (%rsp), %eax\n	mov 4(%rsp), %ebx\n	mov 8(%rsp), %ecx\n	mov 12(%rsp), %edx\n"
	"	lea -48(%rbp), %rsp\n	pop %r11\n	pop %r10\n	pop %r9\n	pop %r8\n	pop %rsi\n	pop %rdi\n	pop %rbp\n	ret\n")
	THUNK("ysim_xgetbv_thunk", "ysim_xgetbv_c",
	"	mov %ecx, %edi\n	call ysim_xgetbv_c\n"
	"	mov (%rsp), %eax\n	mov 12(%rsp), %edx\n"
	"	lea -64(%rbp), %rsp\n	pop %rcx\n	pop %rbx\n	pop %r11\n	pop %r10\n	pop %r9\n	pop %r8\n	pop %rsi\n	pop %rdi\n	pop %rbp\n	ret\n")
);

// ---- simulated allocator ------------------------------------------------------------------
static YsimAllocHooks g_alloc;
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t,size_t); void* __real_realloc(void*,size_t); void __real_free(void*);
int __real_posix_memalign(void**,size_t,size_t);
void* __real_memalign(size_t,size_t);

HID void* __wrap_malloc(size_t n) { return g_alloc.alloc ? g_alloc.alloc(n, 16, 0) : __real_malloc(n); }
HID void* __wrap_calloc(size_t a, size_t b) {
	if(b && a > (size_t)-1 / b) return NULL;
	return g_alloc.alloc ? g_alloc.alloc(a*b, 16, 1) : __real_calloc(a, b);
}
HID void* __wrap_realloc(void* p, size_t n) { return g_alloc.alloc ? g_alloc.realloc_(p, n) : __real_realloc(p, n); }
HID void __wrap_free(void* p) { if(g_alloc.free_) g_alloc.free_(p); else __real_free(p); }
HID int __wrap_posix_memalign(void** p, size_t al, size_t n) {
	if(!g_alloc.alloc) return __real_posix_memalign(p, al, n);
	void* r = g_alloc.alloc(n, al, 0);
	if(!r) return ENOMEM;
	*p = r;
	return 0;
}
HID void* __wrap_memalign(size_t al, size_t n) { return g_alloc.alloc ? g_alloc.alloc(n, al, 0) : __real_memalign(al, n); }
HID void* __wrap_aligned_alloc(size_t al, size_t n) { return __wrap_memalign(al, n); }
HID void* __wrap_valloc(size_t n) { return __wrap_memalign(4096, n); }
HID void* __wrap__Znwm(size_t n) { void* p = __wrap_malloc(n ? n : 1); if(!p) abort(); return p; }
HID void* __wrap__Znam(size_t n) { return __wrap__Znwm(n); }
HID void* __wrap__ZnwmRKSt9nothrow_t(size_t n, const void*) { return __wrap_malloc(n ? n : 1); }
HID void* __wrap__ZnamRKSt9nothrow_t(size_t n, const void*) { return __wrap_malloc(n ? n : 1); }
HID void __wrap__ZdlPv(void* p) { __wrap_free(p); }
HID void __wrap__ZdlPvm(void* p, size_t) { __wrap_free(p); }
HID void __wrap__ZdaPv(void* p) { __wrap_free(p); }
HID void __wrap__ZdaPvm(void* p, size_t) { __wrap_free(p); }
}

// ---- Node refusing to create a Buffer: it throws, releases the memory it was given and returns nothing
#ifdef YSIM_NODE
# include <node.h>
# include <node_buffer.h>
typedef v8::MaybeLocal<v8::Object> MaybeBuffer;
static MaybeBuffer refused(v8::Isolate* isolate) {
	isolate->ThrowException(v8::Exception::RangeError(v8::String::NewFromUtf8(isolate, "Cannot create the Buffer (simulated)").ToLocalChecked()));
	return MaybeBuffer();
}
extern "C" {
MaybeBuffer __real__ZN4node6Buffer3NewEPN2v87IsolateEPcmPFvS4_PvES5_(v8::Isolate*, char*, size_t, node::Buffer::FreeCallback, void*);
MaybeBuffer __real__ZN4node6Buffer3NewEPN2v87IsolateEm(v8::Isolate*, size_t);
HID MaybeBuffer __wrap__ZN4node6Buffer3NewEPN2v87IsolateEPcmPFvS4_PvES5_(v8::Isolate* isolate, char* data, size_t len, node::Buffer::FreeCallback cb, void* hint) {
	if(!g_alloc.refuse || !g_alloc.refuse()) return __real__ZN4node6Buffer3NewEPN2v87IsolateEPcmPFvS4_PvES5_(isolate, data, len, cb, hint);
	MaybeBuffer r = refused(isolate);
	cb(data, hint);
	return r;
}
HID MaybeBuffer __wrap__ZN4node6Buffer3NewEPN2v87IsolateEm(v8::Isolate* isolate, size_t len) {
	if(!g_alloc.refuse || !g_alloc.refuse()) return __real__ZN4node6Buffer3NewEPN2v87IsolateEm(isolate, len);
	return refused(isolate);
}
}
#endif

// ---- native API ---------------------------------------------------------------------------
#ifndef YSIM_NO_NATIVE
static void n_init(int w) { if(w & 1) RapidYenc::encoder_init(); if(w & 2) RapidYenc::decoder_init(); if(w & 4) RapidYenc::crc32_init(); }
static int n_isa(int w) { return w == 0 ? RapidYenc::encode_isa_level() : w == 1 ? RapidYenc::decode_isa_level() : RapidYenc::crc32_isa_level(); }
// states and ends by their names: the numbers are the library's own business
static const RapidYenc::YencDecoderState STATES[] = { RapidYenc::YDEC_STATE_CRLF, RapidYenc::YDEC_STATE_EQ, RapidYenc::YDEC_STATE_CR, RapidYenc::YDEC_STATE_NONE, RapidYenc::YDEC_STATE_CRLFDT, RapidYenc::YDEC_STATE_CRLFDTCR, RapidYenc::YDEC_STATE_CRLFEQ };
static int state_no(RapidYenc::YencDecoderState s) { for(int i=0; i<7; i++) if(STATES[i] == s) return i; return 7; }
static size_t n_decode(int raw, const void* src, void* dest, size_t len, int* state) {
	RapidYenc::YencDecoderState s = STATES[state ? *state % 7 : 0];
	size_t r = RapidYenc::decode(raw, src, dest, len, state ? &s : NULL);
	if(state) *state = state_no(s);
	return r;
}
static int n_decode_end(const void** src, void** dest, size_t len, int* state) {
	RapidYenc::YencDecoderState s = STATES[*state % 7];
	RapidYenc::YencDecoderEnd r = RapidYenc::decode_end(src, dest, len, &s);
	*state = state_no(s);
	return r == RapidYenc::YDEC_END_NONE ? 0 : r == RapidYenc::YDEC_END_CONTROL ? 1 : r == RapidYenc::YDEC_END_ARTICLE ? 2 : 3;
}
static size_t n_encode(int ls, int* col, const void* src, void* dest, size_t len, int end) { return RapidYenc::encode(ls, col, src, dest, len, end); }
static uint32_t n_crc(const void* d, size_t l, uint32_t i) { return RapidYenc::crc32(d, l, i); }
static uint32_t n_comb(uint32_t a, uint32_t b, uint64_t l) { return RapidYenc::crc32_combine(a, b, l); }
static uint32_t n_zeros(uint32_t a, uint64_t l) { return RapidYenc::crc32_zeros(a, l); }
static uint32_t n_unzero(uint32_t a, uint64_t l) { return RapidYenc::crc32_unzero(a, l); }
static uint32_t n_shift(uint32_t a, uint32_t b) { return RapidYenc::crc32_shift(a, b); }
static uint32_t n_mul(uint32_t a, uint32_t b) { return RapidYenc::crc32_multiply(a, b); }
#endif

#ifdef YSIM_CONC
# include "ysimconc.h"
# define CONC_ATTACH conc_attach
#else
# define CONC_ATTACH 0
#endif

static YsimApi g_api = {
#ifndef YSIM_NO_NATIVE
	1, &g_alloc, &g_cpuid_calls, &g_xgetbv_ud, set_profile, n_init, n_isa, n_decode, n_decode_end, n_encode, n_crc, n_comb, n_zeros, n_unzero, n_shift, n_mul, CONC_ATTACH
#else
	0, &g_alloc, &g_cpuid_calls, &g_xgetbv_ud, set_profile, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, CONC_ATTACH
#endif
};
extern "C" __attribute__((visibility("default"))) YsimApi* ysim_get_api() { return &g_api; }

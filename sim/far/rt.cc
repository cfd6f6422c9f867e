// Runtime of a simulated far machine: start-up, system calls, the parts of libc the library uses, and the
// seams (what the machine says about its CPU). With FAR_HOSTED the host's libc is used instead.
#include "far.h"
#if defined(__x86_64__) || defined(__i386__)
# include <cpuid.h>
extern "C" void far_cpuid(uint32_t leaf, uint32_t sub, uint32_t* r) {
	__cpuid_count(leaf, sub, r[0], r[1], r[2], r[3]);
	for(int i = 0; i < far_nrules; i++)
		if(far_rules[i].leaf == leaf && far_rules[i].sub == sub)
			r[far_rules[i].reg & 3] = (r[far_rules[i].reg & 3] & far_rules[i].and_) | far_rules[i].or_;
}
#endif
#ifdef FAR_HOSTED
# include <unistd.h>
# include <sys/mman.h>
extern "C" {
long far_read(void* p, size_t n) { return read(0, p, n); }
long far_write(const void* p, size_t n) { return write(1, p, n); }
int far_protect_none(void* p, size_t n) { return mprotect(p, n, PROT_NONE); }
void far_exit(int c) { _exit(c); }
# if __SIZEOF_POINTER__ == 8
unsigned char* far_huge(size_t n, int repeat) {
	unsigned char* p = (unsigned char*)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if(p == MAP_FAILED) return 0;
	if(repeat) {
		int fd = memfd_create("far", 0);
		if(fd < 0 || ftruncate(fd, 1 << 20)) return 0;
		for(size_t i = 0; i + (1 << 20) <= n; i += 1 << 20) if(mmap(p + i, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return 0;
	}
	return p;
}
# endif
}
#else

#if defined(__aarch64__) || defined(__riscv)
enum { N_READ = 63, N_WRITE = 64, N_EXIT = 94, N_MPROTECT = 226 };
#elif defined(__arm__)
enum { N_READ = 3, N_WRITE = 4, N_EXIT = 248, N_MPROTECT = 125 };
#elif defined(__x86_64__)
enum { N_READ = 0, N_WRITE = 1, N_EXIT = 231, N_MPROTECT = 10 };
#elif defined(__i386__)
enum { N_READ = 3, N_WRITE = 4, N_EXIT = 252, N_MPROTECT = 125 };
#elif defined(__powerpc__)
enum { N_READ = 3, N_WRITE = 4, N_EXIT = 234, N_MPROTECT = 125 };
#elif defined(__mips64)
enum { N_READ = 5000, N_WRITE = 5001, N_EXIT = 5205, N_MPROTECT = 5010 };
#elif defined(__mips__)
enum { N_READ = 4003, N_WRITE = 4004, N_EXIT = 4246, N_MPROTECT = 4125 };
#elif defined(__s390x__)
enum { N_READ = 3, N_WRITE = 4, N_EXIT = 248, N_MPROTECT = 125 };
#endif

typedef intptr_t word;
static word sys3(word n, word a, word b, word c) {
#if defined(__aarch64__)
	register word x8 __asm__("x8") = n, x0 __asm__("x0") = a, x1 __asm__("x1") = b, x2 __asm__("x2") = c;
	__asm__ volatile("svc 0" : "+r"(x0) : "r"(x8), "r"(x1), "r"(x2) : "memory");
	return x0;
#elif defined(__arm__)
	register word r7 __asm__("r7") = n, r0 __asm__("r0") = a, r1 __asm__("r1") = b, r2 __asm__("r2") = c;
	__asm__ volatile("svc 0" : "+r"(r0) : "r"(r7), "r"(r1), "r"(r2) : "memory");
	return r0;
#elif defined(__riscv)
	register word a7 __asm__("a7") = n, a0 __asm__("a0") = a, a1 __asm__("a1") = b, a2 __asm__("a2") = c;
	__asm__ volatile("ecall" : "+r"(a0) : "r"(a7), "r"(a1), "r"(a2) : "memory");
	return a0;
#elif defined(__x86_64__)
	word r;
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "memory", "rcx", "r11");
	return r;
#elif defined(__i386__)
	word r;
	__asm__ volatile("int $0x80" : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c) : "memory");
	return r;
#elif defined(__powerpc__)
	register word r0 __asm__("r0") = n, r3 __asm__("r3") = a, r4 __asm__("r4") = b, r5 __asm__("r5") = c;
	__asm__ volatile("sc\n\tbns+ 1f\n\tneg %1, %1\n1:" : "+r"(r0), "+r"(r3), "+r"(r4), "+r"(r5) : : "memory", "cr0", "r6", "r7", "r8", "r9", "r10", "r11", "r12");
	return r3;
#elif defined(__mips__)
	register word v0 __asm__("$2") = n, a0 __asm__("$4") = a, a1 __asm__("$5") = b, a2 __asm__("$6") = c, a3 __asm__("$7") = 0;
	__asm__ volatile("syscall" : "+r"(v0), "+r"(a3) : "r"(a0), "r"(a1), "r"(a2) : "memory", "$1", "$3", "$8", "$9", "$10", "$11", "$12", "$13", "$14", "$15", "$24", "$25", "hi", "lo");
	return a3 ? -v0 : v0;
#elif defined(__s390x__)
	register word r1 __asm__("1") = n, r2 __asm__("2") = a, r3 __asm__("3") = b, r4 __asm__("4") = c;
	__asm__ volatile("svc 0" : "+d"(r2) : "d"(r1), "d"(r3), "d"(r4) : "memory");
	return r2;
#endif
}

#if defined(__x86_64__)
static word sys6(word n, word a, word b, word c, word d, word e, word f) {
	register word r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
	word r;
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "memory", "rcx", "r11");
	return r;
}
extern "C" unsigned char* far_huge(size_t n, int repeat) {
	word p = sys6(9, 0, (word)n, 3, 0x4022, -1, 0);
	if(p < 0 && p > -4096) return 0;
	if(repeat) {
		word fd = sys3(319, (word)"far", 0, 0);
		if(fd < 0 || sys3(77, fd, 1 << 20, 0)) return 0;
		for(size_t i = 0; i + (1 << 20) <= n; i += 1 << 20) { word q = sys6(9, p + (word)i, 1 << 20, 3, 0x11, fd, 0); if(q < 0 && q > -4096) return 0; }
	}
	return (unsigned char*)p;
}
#endif

#if defined(__aarch64__)
__asm__(".text\n.globl _start\n_start:\n\tmov x29, #0\n\tmov x30, #0\n\tmov x0, sp\n\tand sp, x0, #-16\n\tb far_start\n");
#elif defined(__arm__)
__asm__(".text\n.arm\n.globl _start\n_start:\n\tmov fp, #0\n\tbic sp, sp, #15\n\tbl far_start\n");
#elif defined(__riscv)
__asm__(".text\n.globl _start\n_start:\n.option push\n.option norelax\n\tla gp, __global_pointer$\n.option pop\n\tandi sp, sp, -16\n\tcall far_start\n");
#elif defined(__x86_64__)
__asm__(".text\n.globl _start\n_start:\n\txor %ebp, %ebp\n\tand $-16, %rsp\n\tsub $32, %rsp\n\tcall far_start\n");
#elif defined(__i386__)
__asm__(".text\n.globl _start\n_start:\n\txor %ebp, %ebp\n\tand $-16, %esp\n\tcall far_start\n");
#elif defined(__powerpc64__)
__asm__(".text\n.globl _start\n_start:\n\tlis 2, .TOC.@ha\n\taddi 2, 2, .TOC.@l\n\tclrrdi 1, 1, 4\n\tli 0, 0\n\tstdu 1, -128(1)\n\tbl far_start\n\tnop\n");
#elif defined(__powerpc__)
__asm__(".text\n.globl _start\n_start:\n\trlwinm 1, 1, 0, 0, 27\n\tli 0, 0\n\tstwu 1, -32(1)\n\tbl far_start\n");
#elif defined(__mips64)
__asm__(".text\n.globl _start\n_start:\n\tli $30, 0\n\tli $8, -16\n\tand $29, $29, $8\n\tdaddiu $29, $29, -64\n\tdla $25, far_start\n\tjalr $25\n\tnop\n");
#elif defined(__mips__)
__asm__(".text\n.globl _start\n_start:\n\tli $30, 0\n\tli $8, -16\n\tand $29, $29, $8\n\taddiu $29, $29, -32\n\tjal far_start\n\tnop\n");
#elif defined(__s390x__)
__asm__(".text\n.globl _start\n_start:\n\tlghi %r0, -8\n\tngr %r15, %r0\n\taghi %r15, -160\n\tbrasl %r14, far_start\n");
#endif

extern "C" {
long far_read(void* p, size_t n) { return (long)sys3(N_READ, 0, (word)p, (word)n); }
long far_write(const void* p, size_t n) { return (long)sys3(N_WRITE, 1, (word)p, (word)n); }
int far_protect_none(void* p, size_t n) { return (int)sys3(N_MPROTECT, (word)p, (word)n, 0); }
void far_exit(int c) { for(;;) sys3(N_EXIT, c, 0, 0); }

// ---- CPU features as the machine reports them
unsigned long getauxval(unsigned long t) { return t == 16 ? (unsigned long)far_hwcap : t == 26 ? (unsigned long)far_hwcap2 : 0; }
// the same questions as other systems ask them
int elf_aux_info(int t, void* p, int n) { if(n == (int)sizeof(unsigned long)) { *(unsigned long*)p = getauxval((unsigned long)t); return 0; } return 22; }
#if defined(_WIN32) && defined(__aarch64__)
int IsProcessorFeaturePresent(unsigned long f) { return f == 19 ? !!(far_hwcap & 2) : f == 30 ? !!(far_hwcap & 1 << 4) : f == 31 ? !!(far_hwcap & 1 << 7) : 0; }
#elif defined(_WIN32)
void* _aligned_malloc(size_t n, size_t al);
void _aligned_free(void*) {}
uint64_t far_xgetbv(unsigned x) { uint32_t a, d; __asm__ volatile("xgetbv" : "=a"(a), "=d"(d) : "c"(x)); return a | (uint64_t)d << 32; }
#elif defined(__ANDROID__) && defined(__aarch64__)
uint64_t android_getCpuFeatures() { return (far_hwcap & 2 ? 2 : 0) | (far_hwcap & 1 << 4 ? 8 : 0) | (far_hwcap & 1 << 7 ? 64 : 0); }
#elif defined(__ANDROID__)
uint64_t android_getCpuFeatures() { return (far_hwcap & 1 << 12 ? 4 : 0) | (far_hwcap2 & 2 ? 8192 : 0) | (far_hwcap2 & 1 << 4 ? 65536 : 0); }
#elif defined(__APPLE__)
static int same(const char* a, const char* b) { while(*a && *a == *b) a++, b++; return *a == *b; }
int sysctlbyname(const char* n, void* p, size_t* len, void*, size_t) {
	int v;
	if(same(n, "hw.optional.neon")) v = !!(far_hwcap & 2);
	else if(same(n, "hw.optional.armv8_crc32")) v = !!(far_hwcap & 1 << 7);
	else if(same(n, "hw.optional.arm.FEAT_PMULL")) v = !!(far_hwcap & 1 << 4);
	else return -1;
	if(*len < sizeof(int)) return -1;
	*(int*)p = v; *len = sizeof(int);
	return 0;
}
#endif
struct far_probe { int64_t key; uint64_t value; };
long syscall(long n, ...) {
	__builtin_va_list ap;
	__builtin_va_start(ap, n);
	if(n == 258) { // riscv_hwprobe
		struct far_probe* p = __builtin_va_arg(ap, struct far_probe*);
		size_t count = __builtin_va_arg(ap, size_t);
		for(size_t i = 0; i < count; i++) {
			if(p[i].key == 4) p[i].value = far_hwprobe;
			else { p[i].key = -1; p[i].value = 0; }
		}
		__builtin_va_end(ap);
		return 0;
	}
	__builtin_va_end(ap);
	return -1;
}

// ---- memory
static unsigned char heap[4 << 20] __attribute__((aligned(4096)));
static size_t heap_at;
static void* grab(size_t n, size_t al) {
	heap_at = (heap_at + al - 1) & ~(al - 1);
	if(n > sizeof(heap) - heap_at) return 0;
	void* p = heap + heap_at;
	heap_at += n;
	return p;
}
void* malloc(size_t n) { return grab(n ? n : 1, 16); }
void* calloc(size_t n, size_t m) { return grab(n * m ? n * m : 1, 16); }
void free(void*) {}
int posix_memalign(void** p, size_t al, size_t n) { *p = grab(n ? n : 1, al < 16 ? 16 : al); return *p ? 0 : 12; }
void* aligned_alloc(size_t al, size_t n) { return grab(n ? n : 1, al < 16 ? 16 : al); }
#ifdef _WIN32
void* _aligned_malloc(size_t n, size_t al) { return grab(n ? n : 1, al < 16 ? 16 : al); }
int _fltused;
int _purecall() { far_exit(134); return 0; }
#endif
void abort() { far_exit(134); for(;;); }
long long llabs(long long x) { return x < 0 ? -x : x; }

void* memcpy(void* d, const void* s, size_t n) { unsigned char* a = (unsigned char*)d; const unsigned char* b = (const unsigned char*)s; while(n--) *a++ = *b++; return d; }
void* memmove(void* d, const void* s, size_t n) {
	unsigned char* a = (unsigned char*)d; const unsigned char* b = (const unsigned char*)s;
	if(a <= b) while(n--) *a++ = *b++; else { while(n--) a[n] = b[n]; }
	return d;
}
void* memset(void* d, int c, size_t n) { unsigned char* a = (unsigned char*)d; while(n--) *a++ = (unsigned char)c; return d; }
int memcmp(const void* x, const void* y, size_t n) { const unsigned char *a = (const unsigned char*)x, *b = (const unsigned char*)y; for(; n--; a++, b++) if(*a != *b) return *a - *b; return 0; }
int bcmp(const void* x, const void* y, size_t n) { return memcmp(x, y, n); }
size_t strlen(const char* s) { size_t n = 0; while(s[n]) n++; return n; }
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
int __cxa_guard_acquire(char* g) { return !*g; }
void __cxa_guard_release(char* g) { *g = 1; }
void __cxa_pure_virtual() { far_exit(134); }
void* __dso_handle;
void __stack_chk_fail() { far_exit(134); }

#if __SIZEOF_POINTER__ == 4
static uint64_t udivmod(uint64_t a, uint64_t b, uint64_t* rem) {
	uint64_t q = 0, r = 0;
	for(int i = 63; i >= 0; i--) { r = r << 1 | (a >> i & 1); if(r >= b) { r -= b; q |= 1ull << i; } }
	if(rem) *rem = r;
	return q;
}
uint64_t __udivdi3(uint64_t a, uint64_t b) { return udivmod(a, b, 0); }
uint64_t __umoddi3(uint64_t a, uint64_t b) { uint64_t r; udivmod(a, b, &r); return r; }
# ifdef __arm__
static unsigned udiv32(unsigned a, unsigned b, unsigned* rem) {
	unsigned q = 0, r = 0;
	for(int i = 31; i >= 0; i--) { r = r << 1 | (a >> i & 1); if(r >= b) { r -= b; q |= 1u << i; } }
	*rem = r;
	return q;
}
unsigned __aeabi_uidiv(unsigned a, unsigned b) { unsigned r; return udiv32(a, b, &r); }
int __aeabi_idiv(int a, int b) { unsigned r; unsigned q = udiv32(a < 0 ? -(unsigned)a : a, b < 0 ? -(unsigned)b : b, &r); return (a < 0) != (b < 0) ? -(int)q : (int)q; }
uint64_t __aeabi_idivmod(int a, int b) { int q = __aeabi_idiv(a, b); return (uint32_t)q | (uint64_t)(uint32_t)(a - q * b) << 32; }
uint64_t __aeabi_uidivmod(unsigned a, unsigned b) { unsigned r; unsigned q = udiv32(a, b, &r); return q | (uint64_t)r << 32; }
void __aeabi_memcpy(void* d, const void* s, size_t n) { memcpy(d, s, n); }
void __aeabi_memcpy4(void* d, const void* s, size_t n) { memcpy(d, s, n); }
void __aeabi_memcpy8(void* d, const void* s, size_t n) { memcpy(d, s, n); }
void __aeabi_memmove(void* d, const void* s, size_t n) { memmove(d, s, n); }
void __aeabi_memset(void* d, size_t n, int c) { memset(d, c, n); }
void __aeabi_memset4(void* d, size_t n, int c) { memset(d, c, n); }
void __aeabi_memset8(void* d, size_t n, int c) { memset(d, c, n); }
void __aeabi_memclr(void* d, size_t n) { memset(d, 0, n); }
void __aeabi_memclr4(void* d, size_t n) { memset(d, 0, n); }
void __aeabi_memclr8(void* d, size_t n) { memset(d, 0, n); }
void __aeabi_unwind_cpp_pr0() {}
void __aeabi_unwind_cpp_pr1() {}
#  if 1
__asm__(".text\n.globl __aeabi_uldivmod\n__aeabi_uldivmod:\n\tpush {r4, lr}\n\tsub sp, sp, #16\n\tadd r4, sp, #8\n\tstr r4, [sp]\n\tbl far_uldivmod\n\tldr r2, [sp, #8]\n\tldr r3, [sp, #12]\n\tadd sp, sp, #16\n\tpop {r4, pc}\n");
uint64_t far_uldivmod(uint64_t a, uint64_t b, uint64_t* r) { return udivmod(a, b, r); }
#  endif
# endif
int __ctzsi2(unsigned x) { int n = 0; while(!(x & 1)) { x >>= 1; n++; } return n; }
int __clzsi2(unsigned x) { int n = 0; while(!(x >> 31)) { x <<= 1; n++; } return n; }
#endif
}
void operator delete(void*) noexcept {}
void operator delete(void*, size_t) noexcept {}
void operator delete[](void*) noexcept {}
void operator delete[](void*, size_t) noexcept {}
#ifdef __cpp_aligned_new
namespace std { enum class align_val_t : size_t; }
void operator delete(void*, std::align_val_t) noexcept {}
void operator delete(void*, size_t, std::align_val_t) noexcept {}
void* operator new(size_t n, std::align_val_t a) { return aligned_alloc((size_t)a, n); }
#endif
void* operator new(size_t n) { return malloc(n); }
void* operator new[](size_t n) { return malloc(n); }
#endif

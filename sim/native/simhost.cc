// Simulation host: a node addon (never shipped) giving the JavaScript simulator control over the
// memory, allocator, CPU and (in trapcpu.cc/conc.cc) instruction set and thread schedule seen by the
// copies of the addon under test.
#include <node_api.h>
#include <dlfcn.h>
#include <link.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include <cpuid.h>
#include <map>
#include <thread>
#include <string>
#include <vector>
#include <deque>
#include <algorithm>
#include "ysim.h"
#include "simhost.h"

#define ARGS(n) napi_value argv[n]; size_t argc = n; napi_get_cb_info(env, info, &argc, argv, NULL, NULL)
static napi_value num(napi_env env, double d) { napi_value v; napi_create_double(env, d, &v); return v; }
static double getd(napi_env env, napi_value v) { double d = 0; napi_get_value_double(env, v, &d); return d; }
static int64_t geti(napi_env env, napi_value v) { int64_t d = 0; napi_get_value_int64(env, v, &d); return d; }
static std::string gets(napi_env env, napi_value v) { char b[4096]; size_t n=0; napi_get_value_string_utf8(env, v, b, sizeof b, &n); return std::string(b, n); }
static napi_value str(napi_env env, const std::string& s) { napi_value v; napi_create_string_utf8(env, s.data(), s.size(), &v); return v; }
static void setp(napi_env env, napi_value o, const char* k, napi_value v) { napi_set_named_property(env, o, k, v); }

// ---- arena for the buffers of the simulated programs ---------------------------------------
// slots of SMALL (LARGE) bytes, each between two unmapped pages, at a fixed address
static const size_t PAGE = 4096, SMALL = 64*1024, LARGE = 1024*1024;
static const int NSMALL = 96, NLARGE = 12;
static char* const ARENA = (char*)0x480000000000ull;
static size_t arena_len() { return PAGE + NSMALL*(SMALL+PAGE) + NLARGE*(LARGE+PAGE); }
static bool arena_up = false;
static int crash_fd = 2;

static void describe(char* out, size_t n, const char* a);
static void on_crash(int sig, siginfo_t* si, void* uc) {
	char where[200], msg[600];
	describe(where, sizeof where, (char*)si->si_addr);
	Dl_info di; void* ip = (void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
	memset(&di, 0, sizeof di); dladdr(ip, &di);
	const char* f = di.dli_fname ? strrchr(di.dli_fname, '/') : NULL;
	int n = snprintf(msg, sizeof msg, "CRASH signal %d accessing %s (in %s+0x%lx)\n", sig, where, f ? f+1 : "node", di.dli_fbase ? (unsigned long)((char*)ip - (char*)di.dli_fbase) : 0ul);
	const char* dbg = getenv("YSIM_DEBUG"); if(dbg && *dbg) n += snprintf(msg + n, sizeof msg - n, "addr %p ip %p sym %s\n", si->si_addr, ip, di.dli_sname ? di.dli_sname : "?");
	if(write(crash_fd, msg, n)) {}
	signal(sig, SIG_DFL);
	if(sig == SIGILL || sig == SIGFPE || sig == SIGABRT) raise(sig);
}
static napi_value Arena(napi_env env, napi_callback_info info) {
	ARGS(1);
	if(!arena_up) {
		void* p = mmap(ARENA, arena_len(), PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
		if(p != ARENA) { napi_throw_error(env, NULL, "cannot map arena"); return NULL; }
		char* q = ARENA + PAGE;
		for(int i=0; i<NSMALL; i++, q += SMALL+PAGE) mprotect(q, SMALL, PROT_READ|PROT_WRITE);
		for(int i=0; i<NLARGE; i++, q += LARGE+PAGE) mprotect(q, LARGE, PROT_READ|PROT_WRITE);
		arena_up = true;
	}
	napi_value ab, o;
	napi_create_external_arraybuffer(env, ARENA, arena_len(), NULL, NULL, &ab);
	napi_create_object(env, &o);
	setp(env, o, "ab", ab);
	setp(env, o, "page", num(env, PAGE)); setp(env, o, "small", num(env, SMALL)); setp(env, o, "large", num(env, LARGE));
	setp(env, o, "nsmall", num(env, NSMALL)); setp(env, o, "nlarge", num(env, NLARGE));
	return o;
}
static napi_value CrashFd(napi_env env, napi_callback_info info) {
	ARGS(1);
	crash_fd = (int)geti(env, argv[0]);
	static char alt[65536];
	stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt;
	sigaltstack(&ss, NULL);
	struct sigaction sa; memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO|SA_ONSTACK;
	int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT};
	for(size_t i=0; i<sizeof(sigs)/sizeof(*sigs); i++) sigaction(sigs[i], &sa, NULL);
	return NULL;
}

// ---- buffers beyond 2 and 4 GiB: the same megabyte of memory over and over, then a megabyte of its own -----
static const size_t MIB = 1024*1024;
static char* const HUGE_AT = (char*)0x4a0000000000ull;
static size_t huge_len[2];
static char* hugeBase(int w) { return HUGE_AT + (size_t)w*(1ull<<36); }
static napi_value HugeMap(napi_env env, napi_callback_info info) { // which, megabytes repeated
	ARGS(2);
	int w = (int)geti(env, argv[0]); size_t k = (size_t)geti(env, argv[1]), len = (k+1)*MIB;
	char* a = hugeBase(w); bool ok = true;
	int fd = memfd_create("ysim", 0);
	if(fd < 0 || ftruncate(fd, MIB)) ok = false;
	if(ok && mmap(a - PAGE, len + 2*PAGE, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED, -1, 0) == MAP_FAILED) ok = false;
	for(size_t i=0; ok && i<k; i++) if(mmap(a + i*MIB, MIB, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_FIXED, fd, 0) == MAP_FAILED) ok = false;
	if(ok && mmap(a + k*MIB, MIB, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED, -1, 0) == MAP_FAILED) ok = false;
	if(fd >= 0) close(fd);
	if(!ok) { napi_throw_error(env, NULL, "cannot map a huge buffer"); return NULL; }
	huge_len[w] = len;
	napi_value ab; napi_create_external_arraybuffer(env, a, len, NULL, NULL, &ab);
	return ab;
}
static napi_value HugeFree(napi_env env, napi_callback_info info) { // which, its array buffer
	ARGS(2); int w = (int)geti(env, argv[0]);
	napi_detach_arraybuffer(env, argv[1]);
	if(huge_len[w]) munmap(hugeBase(w) - PAGE, huge_len[w] + 2*PAGE);
	huge_len[w] = 0;
	return NULL;
}

// ---- simulated allocator ---------------------------------------------------------------------
// every block ends (to 16 bytes) at an unmapped page; freed blocks become inaccessible
static char* const HEAP = (char*)0x490000000000ull;
struct Cls { size_t cap; int n; char* base; std::deque<int> freeList; std::vector<size_t> size; std::vector<char> used; };
static Cls cls[2];
static bool heap_up = false, heap_on = false;
static uint64_t a_calls, a_allocs, a_frees, a_failed, a_live, a_real, a_reallocs;
static std::vector<uint64_t> a_failAt;   // indices of calls to fail in this window
static uint64_t a_failFrom = ~0ull;
static int a_moveRealloc, a_failShrink;
static std::vector<std::string> a_errors;
static std::map<void*, size_t> a_big;
static std::vector<YsimApi*> copies;
static void aerr(const char* s) { if(a_errors.size() < 20) a_errors.push_back(s); }

static void heap_init() {
	if(heap_up) return;
	heap_up = true;
	cls[0].cap = 64*1024; cls[0].n = 2048; cls[1].cap = 4*1024*1024; cls[1].n = 96;
	size_t tot = PAGE;
	for(int c=0; c<2; c++) tot += cls[c].n*(cls[c].cap+PAGE);
	void* p = mmap(HEAP, tot, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
	if(p != HEAP) { fprintf(stderr, "cannot map heap\n"); _exit(2); }
	char* q = HEAP + PAGE;
	for(int c=0; c<2; c++) {
		cls[c].base = q; q += cls[c].n*(cls[c].cap+PAGE);
		for(int i=0; i<cls[c].n; i++) { cls[c].freeList.push_back(i); cls[c].size.push_back(0); cls[c].used.push_back(0); }
	}
}
static inline char* slotOf(int c, int i) { return cls[c].base + (size_t)i*(cls[c].cap+PAGE); }
static inline size_t r16(size_t n) { return (n+15)&~(size_t)15; }
static bool locate(void* p, int& c, int& i) {
	for(c=0; c<2; c++)
		if(heap_up && (char*)p >= cls[c].base && (char*)p < cls[c].base + cls[c].n*(cls[c].cap+PAGE)) {
			i = (int)(((char*)p - cls[c].base) / (cls[c].cap+PAGE));
			return true;
		}
	return false;
}
static void describe(char* out, size_t n, const char* a) {
	int c, i;
	if(arena_up && a >= ARENA && a < ARENA + arena_len()) {
		size_t off = a - ARENA; size_t sz = SMALL; size_t k;
		size_t smallEnd = PAGE + NSMALL*(SMALL+PAGE);
		if(off >= smallEnd) { off -= smallEnd; sz = LARGE; } else off = off < PAGE ? 0 : off - PAGE;
		k = off / (sz+PAGE); off %= sz+PAGE;
		if(off >= sz) snprintf(out, n, "%zu bytes past the page holding the end of an argument buffer (slot %zu)", off-sz, k);
		else snprintf(out, n, "argument buffer slot %zu+%zu", k, off);
	} else if(locate((void*)a, c, i)) {
		size_t off = a - slotOf(c, i);
		if(off >= cls[c].cap) snprintf(out, n, "%zu bytes past the end of a result allocation of %zu bytes", off - cls[c].cap, cls[c].size[i]);
		else snprintf(out, n, "a %s result allocation of %zu bytes", cls[c].used[i] ? "live" : "freed", cls[c].size[i]);
	} else if((huge_len[0] && a >= hugeBase(0) - PAGE && a < hugeBase(0) + huge_len[0] + PAGE) || (huge_len[1] && a >= hugeBase(1) - PAGE && a < hugeBase(1) + huge_len[1] + PAGE))
		snprintf(out, n, "the page before or after a buffer beyond 2 GiB");
	else snprintf(out, n, (uintptr_t)a < 65536 ? "a null pointer" : "memory outside all buffers");
}
static bool shouldFail() {
	uint64_t k = a_calls++;
	if(k >= a_failFrom || std::find(a_failAt.begin(), a_failAt.end(), k) != a_failAt.end()) { a_failed++; return true; }
	return false;
}
static void* heap_place(size_t n) {
	int c = n + 64 <= cls[0].cap ? 0 : 1;
	if(n + 64 > cls[c].cap || cls[c].freeList.empty()) {
		void* p = malloc(n ? n : 1); a_big[p] = n; a_real++; a_live++;
		return p;
	}
	int i = cls[c].freeList.front(); cls[c].freeList.pop_front();
	char* s = slotOf(c, i); size_t m = r16(n);
	char* p = s + cls[c].cap - m;
	char* from = (char*)((uintptr_t)(p - 64) & ~(uintptr_t)(PAGE-1));
	mprotect(from, s + cls[c].cap - from, PROT_READ|PROT_WRITE);
	memset(p - 64, 0xC7, 64);
	memset(p, 0xA5, n);
	memset(p + n, 0xC7, m - n);
	cls[c].size[i] = n; cls[c].used[i] = 1; a_live++;
	return p;
}
static void heap_check(int c, int i) {
	char* s = slotOf(c, i); size_t n = cls[c].size[i], m = r16(n); char* p = s + cls[c].cap - m;
	for(int k=1; k<=64; k++) if((unsigned char)p[-k] != 0xC7) { aerr("write before the start of a result allocation"); break; }
	for(size_t k=n; k<m; k++) if((unsigned char)p[k] != 0xC7) { aerr("write past the end of a result allocation"); break; }
}
static void* h_alloc(size_t n, size_t align, int zero) {
	if(!heap_on) { void* p; if(align <= 16) p = malloc(n); else if(posix_memalign(&p, align, n)) p = NULL; if(p && zero) memset(p, 0, n); return p; }
	if(shouldFail()) return NULL;
	a_allocs++;
	void* p;
	if(align > 16) { p = NULL; if(posix_memalign(&p, align, n)) return NULL; a_big[p] = n; a_real++; a_live++; }
	else p = heap_place(n);
	if(p && zero) memset(p, 0, n);
	return p;
}
static void h_free_i(void* p, bool count) {
	if(!p) return;
	int c, i;
	if(locate(p, c, i)) {
		if(!cls[c].used[i]) { aerr("memory of a result released twice"); return; }
		if((char*)p != slotOf(c, i) + cls[c].cap - r16(cls[c].size[i])) { aerr("release of a pointer that was never allocated"); return; }
		heap_check(c, i);
		char* s = slotOf(c, i);
		mprotect(s, cls[c].cap, PROT_NONE);
		cls[c].used[i] = 0; cls[c].freeList.push_back(i); a_live--;
		if(count) a_frees++;
		return;
	}
	std::map<void*, size_t>::iterator it = a_big.find(p);
	if(it != a_big.end()) { a_big.erase(it); a_live--; if(count) a_frees++; }
	free(p);
}
static void h_free(void* p) { h_free_i(p, true); }
static void* h_realloc(void* p, size_t n) {
	int c, i;
	if(!locate(p, c, i)) {
		std::map<void*, size_t>::iterator it = a_big.find(p);
		if(it == a_big.end()) return p ? realloc(p, n) : h_alloc(n, 16, 0);
		if(shouldFail()) return NULL;
		if(a_failShrink && n <= it->second) { a_failed++; return NULL; }
		a_big.erase(it);
		if(!n) { free(p); a_live--; a_frees++; return NULL; }
		void* q = realloc(p, n); a_big[q] = n;
		return q;
	}
	if(!cls[c].used[i]) { aerr("realloc of released memory"); return NULL; }
	if(n == 0) { a_calls++; h_free(p); return NULL; } // as glibc does
	if(shouldFail()) return NULL;
	if(a_failShrink && n <= cls[c].size[i]) { a_failed++; return NULL; }
	a_reallocs++;
	size_t old = cls[c].size[i];
	if(!a_moveRealloc && n <= old) {
		heap_check(c, i);
		// stay in place: the block can't move, so keep it where it is with the tail poisoned
		if(r16(n) == r16(old)) { memset((char*)p + n, 0xC7, r16(n) - n); cls[c].size[i] = n; }
		else memset((char*)p + n, 0x5A, old - n);
		return p;
	}
	void* q = heap_place(n);
	memcpy(q, p, n < old ? n : old);
	h_free_i(p, false);
	return q;
}
// Node refuses the k-th of the Buffers the copies create from now on
static int64_t a_refuse = -1; static uint64_t a_refused;
static int h_refuse() {
	if(a_refuse < 0 || a_refuse--) return 0;
	a_refused++; a_failed++;
	return 1;
}
static YsimAllocHooks hooks = { h_alloc, h_realloc, h_free, h_refuse };

// heapOn(bool): results of the copies come from the simulated heap
static napi_value HeapOn(napi_env env, napi_callback_info info) {
	ARGS(1); bool b; napi_get_value_bool(env, argv[0], &b);
	heap_init(); heap_on = b;
	return NULL;
}
// heapPlan(failAt[], failFrom, move, failShrink): new window of allocator calls
static napi_value HeapPlan(napi_env env, napi_callback_info info) {
	ARGS(4);
	a_failAt.clear(); uint32_t n = 0; napi_get_array_length(env, argv[0], &n);
	for(uint32_t i=0; i<n; i++) { napi_value v; napi_get_element(env, argv[0], i, &v); a_failAt.push_back(geti(env, v)); }
	double f = getd(env, argv[1]); a_failFrom = f < 0 ? ~0ull : (uint64_t)f;
	bool b; napi_get_value_bool(env, argv[2], &b); a_moveRealloc = b;
	b = false; if(argc > 3) napi_get_value_bool(env, argv[3], &b); a_failShrink = b;
	a_calls = 0;
	return NULL;
}
static napi_value HeapStats(napi_env env, napi_callback_info info) {
	ARGS(1);
	napi_value o, e; napi_create_object(env, &o);
	setp(env, o, "calls", num(env, a_calls)); setp(env, o, "allocs", num(env, a_allocs)); setp(env, o, "frees", num(env, a_frees));
	setp(env, o, "failed", num(env, a_failed)); setp(env, o, "refused", num(env, a_refused)); setp(env, o, "live", num(env, a_live)); setp(env, o, "real", num(env, a_real)); setp(env, o, "reallocs", num(env, a_reallocs));
	napi_create_array(env, &e);
	for(size_t i=0; i<a_errors.size(); i++) napi_set_element(env, e, i, str(env, a_errors[i]));
	setp(env, o, "errors", e);
	return o;
}
static napi_value RefuseBuffer(napi_env env, napi_callback_info info) { ARGS(1); a_refuse = geti(env, argv[0]); return NULL; } // -1: none
static napi_value HeapLive(napi_env env, napi_callback_info info) { return num(env, a_live); }
static napi_value HeapDropAll(napi_env env, napi_callback_info info) { // process memory of a rebooted copy is gone
	for(int c=0; c<2 && heap_up; c++) for(int i=0; i<cls[c].n; i++) if(cls[c].used[i]) h_free_i(slotOf(c, i) + cls[c].cap - r16(cls[c].size[i]), false);
	while(!a_big.empty()) h_free_i(a_big.begin()->first, false);
	return NULL;
}
static napi_value HeapCheck(napi_env env, napi_callback_info info) { // canaries of all live blocks; clears the error list
	for(int c=0; c<2; c++) for(int i=0; i<cls[c].n && heap_up; i++) if(cls[c].used[i]) heap_check(c, i);
	napi_value e; napi_create_array(env, &e);
	for(size_t i=0; i<a_errors.size(); i++) napi_set_element(env, e, i, str(env, a_errors[i]));
	a_errors.clear();
	return e;
}

// ---- copies of the addon under test ----------------------------------------------------------
static std::vector<void*> handles;
static std::vector<struct Snap> *snaps;
struct Seg { char* a; std::string data; };
struct Snap { std::vector<Seg> segs; };
static std::map<int, Snap> snapOf;

static napi_value Open(napi_env env, napi_callback_info info) {
	ARGS(1);
	std::string path = gets(env, argv[0]);
	// in another thread: node's addon registration (a constructor) uses thread-local storage
	void* h = NULL;
	std::thread([&]() { h = dlopen(path.c_str(), RTLD_LAZY|RTLD_LOCAL); }).join();
	if(!h) { napi_throw_error(env, NULL, dlerror()); return NULL; }
	YsimApi* (*get)() = (YsimApi*(*)())dlsym(h, "ysim_get_api");
	if(!get) { napi_throw_error(env, NULL, "no ysim_get_api"); return NULL; }
	YsimApi* api = get();
	*api->alloc = hooks;
	copies.push_back(api); handles.push_back(h);
	return num(env, copies.size()-1);
}
YsimApi* ysim_copy(int i) { return i >= 0 && i < (int)copies.size() ? copies[i] : NULL; }
void* ysim_handle(int i) { return handles[i]; }
struct FindSeg { const void* api; Snap* snap; };
static int seg_cb(struct dl_phdr_info* in, size_t, void* data) {
	FindSeg* f = (FindSeg*)data; bool mine = false;
	for(int i=0; i<in->dlpi_phnum; i++) {
		const ElfW(Phdr)& p = in->dlpi_phdr[i];
		if(p.p_type == PT_LOAD && (const char*)f->api >= (char*)in->dlpi_addr + p.p_vaddr && (const char*)f->api < (char*)in->dlpi_addr + p.p_vaddr + p.p_memsz) mine = true;
	}
	if(!mine) return 0;
	uintptr_t relro0 = 0, relro1 = 0;
	for(int i=0; i<in->dlpi_phnum; i++) if(in->dlpi_phdr[i].p_type == PT_GNU_RELRO) {
		relro0 = in->dlpi_addr + in->dlpi_phdr[i].p_vaddr; relro1 = (relro0 + in->dlpi_phdr[i].p_memsz) & ~(uintptr_t)(PAGE-1);
	}
	for(int i=0; i<in->dlpi_phnum; i++) {
		const ElfW(Phdr)& p = in->dlpi_phdr[i];
		if(p.p_type != PT_LOAD || !(p.p_flags & PF_W)) continue;
		uintptr_t a = in->dlpi_addr + p.p_vaddr, e = a + p.p_memsz;
		if(relro1 > a && relro0 <= a) a = relro1;
		if(e <= a) continue;
		Seg s; s.a = (char*)a; s.data.assign((char*)a, e - a);
		f->snap->segs.push_back(s);
	}
	return 1;
}
static void take(int c, Snap& s) { FindSeg f = { copies[c], &s }; dl_iterate_phdr(seg_cb, &f); }
void ysim_data(int c, uintptr_t& lo, uintptr_t& hi) {
	Snap s; take(c, s); lo = ~(uintptr_t)0; hi = 0;
	for(size_t i=0; i<s.segs.size(); i++) { uintptr_t a = (uintptr_t)s.segs[i].a; lo = std::min(lo, a); hi = std::max(hi, a + s.segs[i].data.size()); }
}
// snapshot(copy, k), restore(copy, k): "reboot" a copy: module data back to a recorded state
static napi_value Snapshot(napi_env env, napi_callback_info info) {
	ARGS(2); int c = (int)geti(env, argv[0]), k = argc > 1 ? (int)geti(env, argv[1]) : 0;
	Snap s; take(c, s);
	snapOf[c*2 + k] = s;
	return num(env, s.segs.size());
}
static napi_value Restore(napi_env env, napi_callback_info info) {
	ARGS(2); int c = (int)geti(env, argv[0]), k = argc > 1 ? (int)geti(env, argv[1]) : 0;
	Snap& s = snapOf[c*2 + k];
	YsimAllocHooks h = *copies[c]->alloc;
	for(size_t i=0; i<s.segs.size(); i++) memcpy(s.segs[i].a, s.segs[i].data.data(), s.segs[i].data.size());
	*copies[c]->alloc = h;
	return NULL;
}
static std::vector<YsimCpuRule> rules(napi_env env, napi_value a) {
	std::vector<YsimCpuRule> r; uint32_t n = 0; napi_get_array_length(env, a, &n);
	for(uint32_t i=0; i+4<n; i+=5) {
		uint32_t v[5];
		for(int k=0; k<5; k++) { napi_value x; napi_get_element(env, a, i+k, &x); v[k] = (uint32_t)geti(env, x); }
		YsimCpuRule q = { v[0], v[1], v[2], v[3], v[4] }; r.push_back(q);
	}
	return r;
}
static napi_value SetProfile(napi_env env, napi_callback_info info) {
	ARGS(2); std::vector<YsimCpuRule> r = rules(env, argv[1]);
	copies[geti(env, argv[0])]->set_profile(r.empty() ? NULL : &r[0], (int)r.size());
	return NULL;
}
static napi_value HasNative(napi_env env, napi_callback_info info) { ARGS(1); return num(env, copies[geti(env, argv[0])]->has_native); }
static napi_value Isa(napi_env env, napi_callback_info info) { ARGS(2); return num(env, copies[geti(env, argv[0])]->isa((int)geti(env, argv[1]))); }
static napi_value CpuidCalls(napi_env env, napi_callback_info info) { ARGS(1); return num(env, *copies[geti(env, argv[0])]->cpuid_calls); }

static napi_value XgetbvUd(napi_env env, napi_callback_info info) { ARGS(1); return num(env, *copies[geti(env, argv[0])]->xgetbv_ud); }
// trapLoad(copy, list): every instruction of the copy becomes known; trapSet(allowed): those of other extensions trap
static napi_value TrapLoad(napi_env env, napi_callback_info info) { ARGS(2); return num(env, trap_load(copies[geti(env, argv[0])], gets(env, argv[1]).c_str())); }
static napi_value TrapSet(napi_env env, napi_callback_info info) { ARGS(1); return num(env, trap_set((uint64_t)getd(env, argv[0]))); }
static napi_value TrapResult(napi_env env, napi_callback_info info) {
	ARGS(1);
	TrapStats s = trap_result(copies[geti(env, argv[0])]);
	napi_value o; napi_create_object(env, &o);
	setp(env, o, "bad", num(env, s.bad)); setp(env, o, "need", num(env, (double)s.need));
	setp(env, o, "bytes", str(env, s.bytes)); setp(env, o, "where", str(env, s.where));
	return o;
}

// ---- native calls (offsets are relative to the arena) ----------------------------------------
// op, copy, (unused), ...
napi_value NativeCall(napi_env env, napi_callback_info info) {
	ARGS(10);
	int op = (int)geti(env, argv[0]); YsimApi* a = copies[geti(env, argv[1])];
	double r[4] = {0,0,0,0}; int nr = 1;
	#define P(k) (ARENA + geti(env, argv[k]))
	switch(op) {
		case 0: { int w = (int)geti(env, argv[3]); a->init(w); break; }
		case 1: { // decode raw src dst len state|-1
			int raw = geti(env, argv[3]); char* s = P(4); char* d = P(5); size_t l = geti(env, argv[6]); int st = geti(env, argv[7]); size_t n;
			int* sp = st < 0 ? NULL : &st;
			n = a->decode(raw, s, d, l, sp); r[0] = n; r[1] = st; nr = 2; break;
		}
		case 2: { // decode_end src dst len state
			char* s = P(4); char* d = P(5); size_t l = geti(env, argv[6]); int st = geti(env, argv[7]); int e;
			const void* sp = s; void* dp = d;
			e = a->decode_end(&sp, &dp, l, &st); r[0] = (char*)dp - d; r[1] = st; r[2] = e; r[3] = (char*)sp - s; nr = 4; break;
		}
		case 3: { // encode src dst len line col end
			char* s = P(4); char* d = P(5); size_t l = geti(env, argv[6]); int ls = geti(env, argv[7]), col = geti(env, argv[8]), en = geti(env, argv[9]); size_t n;
			n = a->encode(ls, &col, s, d, l, en); r[0] = n; r[1] = col; nr = 2; break;
		}
		case 4: { char* s = P(4); size_t l = geti(env, argv[6]); uint32_t i = (uint32_t)geti(env, argv[7]), c; c = a->crc(s, l, i); r[0] = c; break; }
		case 5: { uint32_t x = geti(env, argv[4]), y = geti(env, argv[5]), c; int64_t l = geti(env, argv[6]); c = a->crc_combine(x, y, l); r[0] = c; break; }
		case 6: { uint32_t x = geti(env, argv[4]), c; int64_t l = geti(env, argv[6]); c = l < 0 ? a->crc_unzero(x, -l) : a->crc_zeros(x, l); r[0] = c; break; }
		case 7: { uint32_t x = geti(env, argv[4]), y = geti(env, argv[5]), c; c = a->crc_shift(x, y); r[0] = c; break; }
		case 8: { uint32_t x = geti(env, argv[4]), y = geti(env, argv[5]), c; c = a->crc_multiply(x, y); r[0] = c; break; }
	}
	if(nr == 1) return num(env, r[0]);
	napi_value o; napi_create_array_with_length(env, nr, &o);
	for(int i=0; i<nr; i++) napi_set_element(env, o, i, num(env, r[i]));
	return o;
}
// host features: raw cpuid leaves
static napi_value HostCpuid(napi_env env, napi_callback_info info) {
	ARGS(2); uint32_t v[4] = {0,0,0,0}; uint32_t leaf = (uint32_t)geti(env, argv[0]);
	if(leaf == 0xffffffffu) {
		uint32_t a,b,c,d; __cpuid(1,a,b,c,d);
		if(c & (1<<27)) __asm__ __volatile__("xgetbv" : "=a"(v[0]), "=d"(v[3]) : "c"(0));
	} else __cpuid_count(leaf, (uint32_t)geti(env, argv[1]), v[0], v[1], v[2], v[3]);
	napi_value o; napi_create_array_with_length(env, 4, &o);
	for(int i=0; i<4; i++) napi_set_element(env, o, i, num(env, v[i]));
	return o;
}

static void exportf(napi_env env, napi_value exports, const char* name, napi_callback f) {
	napi_value v; napi_create_function(env, name, NAPI_AUTO_LENGTH, f, NULL, &v); setp(env, exports, name, v);
}
void conc_exports(napi_env env, napi_value exports);
void far_exports(napi_env env, napi_value exports);
NAPI_MODULE_INIT() {
	exportf(env, exports, "arena", Arena); exportf(env, exports, "crashFd", CrashFd);
	exportf(env, exports, "hugeMap", HugeMap); exportf(env, exports, "hugeFree", HugeFree);
	exportf(env, exports, "heapOn", HeapOn); exportf(env, exports, "heapPlan", HeapPlan); exportf(env, exports, "heapStats", HeapStats);
	exportf(env, exports, "heapLive", HeapLive); exportf(env, exports, "heapCheck", HeapCheck);
	exportf(env, exports, "heapDropAll", HeapDropAll); exportf(env, exports, "refuseBuffer", RefuseBuffer);
	exportf(env, exports, "open", Open); exportf(env, exports, "snapshot", Snapshot); exportf(env, exports, "restore", Restore);
	exportf(env, exports, "setProfile", SetProfile); exportf(env, exports, "hasNative", HasNative); exportf(env, exports, "isa", Isa); exportf(env, exports, "cpuidCalls", CpuidCalls);
	exportf(env, exports, "call", NativeCall); exportf(env, exports, "hostCpuid", HostCpuid);
	exportf(env, exports, "xgetbvUd", XgetbvUd); exportf(env, exports, "trapLoad", TrapLoad); exportf(env, exports, "trapSet", TrapSet); exportf(env, exports, "trapResult", TrapResult);
	conc_exports(env, exports);
	far_exports(env, exports);
	return exports;
}

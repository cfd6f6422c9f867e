// Several threads of one simulated process (C10). The threads are node workers, real threads with a
// real V8 isolate each, but exactly one of them runs at any time: the one holding the turn. It gives
// the turn away where the schedule, drawn by the simulator, says so: after a number of memory accesses
// of the addon, or when it blocks or ends.
#include "simhost.h"
#include <dlfcn.h>
#include <node_version.h>
#include <v8.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <string>
#include <vector>

static const int NT = 6;
static const int64_t INF = (int64_t)1 << 60, FAIR = 2000000;
static const uint64_t LIMIT = 600000000;
enum { PARKED, JOB, READY, RUNNING, BLOCKED, DONE };
struct Thread { int st; const void* key; std::string job, result; std::condition_variable cv; uint64_t acc, allocs; };
struct Entry { int kind; int64_t count; int next; };
struct Switch { int from, to; uint64_t at; void* where; int why; };
static Thread th[NT];
static std::mutex mu; static std::condition_variable mainCv;
static YsimConc C;
static int cur = -1, nthr, registered;
static std::vector<Entry> sched; static size_t pos;
static std::vector<Switch> trace; static uint64_t switches, lastN, stolen, traceHash;
static const char* stuck;
static thread_local int me = -1;
static bool active;
struct Fail { int thread; uint64_t k; };
static std::vector<Fail> fails; static uint64_t failed;

static void arm() {
	C.any = C.glob = INF;
	if(pos < sched.size()) { if(sched[pos].kind) C.glob = sched[pos].count; else C.any = sched[pos].count; }
	else C.any = FAIR;
}
static bool runnable(int i) { return th[i].st == READY || th[i].st == RUNNING; }
static void give(int to, void* where, int why) { // mu held; the caller was running
	th[cur].acc += C.n - lastN; lastN = C.n;
	switches++;
	traceHash = (traceHash ^ (C.n * 8 + to)) * 0x9e3779b97f4a7c15ull;
	if(trace.size() < 400) { Switch s = { cur, to, C.n, where, why }; trace.push_back(s); }
	if(th[cur].st == RUNNING) th[cur].st = READY;
	cur = to; th[to].st = RUNNING;
	th[to].cv.notify_one();
}
static void fatal(const char* why) { if(!stuck) stuck = why; active = false; mainCv.notify_one(); }
static void await(std::unique_lock<std::mutex>& l, int id) {
	while(cur != id || stuck) {
		if(stuck) { th[id].cv.wait(l); continue; }
		uint64_t n0 = C.n; int c0 = cur; uint64_t s0 = switches;
		if(th[id].cv.wait_for(l, std::chrono::seconds(8)) == std::cv_status::timeout && !stuck && C.n == n0 && cur == c0 && switches == s0 && active && runnable(id)) {
			// the thread whose turn it is waits for something the simulator does not know: let others go on
			stolen++; give(id, NULL, 9);
		}
	}
}
static int nextAfter(int from, int skip) { // the runnable thread `skip` places after `from`
	int list[NT], n = 0;
	for(int k=1; k<=nthr; k++) { int i = (from + k) % nthr; if(i != from && runnable(i)) list[n++] = i; }
	return n ? list[skip % n] : -1;
}
static void slow(void* where) {
	if(me < 0 || !active) { if(me < 0) C.any = C.glob = INF; return; }
	std::unique_lock<std::mutex> l(mu);
	if(cur != me) { await(l, me); return; }
	if(C.n > LIMIT) { fatal("no-progress"); await(l, me); }
	int skip = 0; bool planned = pos < sched.size();
	if(planned) { skip = sched[pos].next; pos++; }
	arm();
	int to = nextAfter(me, skip);
	if(to < 0) return;
	give(to, where, planned ? 1 : 2);
	await(l, me);
}
static int self() { return active ? me : -1; }
static void block(const void* key) {
	std::unique_lock<std::mutex> l(mu);
	if(cur != me) await(l, me);
	int to = nextAfter(me, 0);
	th[me].st = BLOCKED; th[me].key = key;
	if(to < 0) { fatal("deadlock"); await(l, me); }
	give(to, NULL, 3);
	await(l, me);
}
static void wake(const void* key) {
	std::unique_lock<std::mutex> l(mu);
	for(int i=0; i<nthr; i++) if(th[i].st == BLOCKED && th[i].key == key) { th[i].st = READY; th[i].key = NULL; }
}

// ---- memory: never reused within a run, all gone with the process at its end
static char* const RUN = (char*)0x4a0000000000ull; static const size_t RUNLEN = (size_t)1 << 39, STEP = (size_t)1 << 21;
static size_t used, base; static bool up; // addresses are not used again by later runs: V8 may still hold results of earlier ones
struct Head { size_t n; uint64_t run, magic; void* self; char pad[32]; }; // of blocks allocated by simulated threads
static uint64_t runNo; static const uint64_t MAGIC = 0x8d1f3b5779c2e641ull;
static void* c_alloc(size_t n, size_t align, int zero) {
	if(align < 16) align = 16;
	void* p;
	if(me >= 0 && active) {
		uint64_t k = th[me].allocs++;
		for(size_t i=0; i<fails.size(); i++) if(fails[i].thread == me && fails[i].k == k) { failed++; return NULL; }
		size_t at = (used + sizeof(Head) + align - 1) / align * align;
		if(at + n > RUNLEN) return NULL;
		used = at + n;
		p = RUN + at;
		Head* h = (Head*)p - 1; h->n = n; h->run = runNo; h->magic = MAGIC; h->self = p;
	} else { // set-up of the process image
		if(posix_memalign(&p, align < 64 ? 64 : align, n + 64)) return NULL;
	}
	memset(p, zero ? 0 : 0xa5, n);
	return p;
}
static bool mine(void* p) { return (char*)p >= RUN && (char*)p < RUN + RUNLEN; }
static void c_free(void* p) {
	if(!mine(p)) { free(p); return; }
	Head* h = (Head*)p - 1; // V8 may release results of earlier runs at any time
	if(active && me >= 0 && h->run == runNo && h->magic == MAGIC && h->self == p) memset(p, 0x5f, h->n);
}
static void* c_realloc(void* p, size_t n) {
	if(!p) return c_alloc(n, 16, 0);
	if(!mine(p)) return realloc(p, n);
	if(!n) { c_free(p); return NULL; }
	void* q = c_alloc(n, 16, 0);
	if(q) { size_t o = ((Head*)p)[-1].n; memcpy(q, p, o < n ? o : n); c_free(p); }
	return q;
}

// ---- interface
#define ARGS(n) napi_value argv[n]; size_t argc = n; napi_get_cb_info(env, info, &argc, argv, NULL, NULL)
static napi_value num(napi_env env, double d) { napi_value v; napi_create_double(env, d, &v); return v; }
static int64_t geti(napi_env env, napi_value v) { int64_t d = 0; napi_get_value_int64(env, v, &d); return d; }
static napi_value str(napi_env env, const std::string& s) { napi_value v; napi_create_string_utf8(env, s.data(), s.size(), &v); return v; }
static std::string gets(napi_env env, napi_value v) { size_t n = 0; napi_get_value_string_utf8(env, v, NULL, 0, &n); std::string s(n + 1, 0); napi_get_value_string_utf8(env, v, &s[0], n + 1, &n); s.resize(n); return s; }

// concAttach(copy): the copy's memory accesses, blocking calls and allocations are the scheduler's from now on
static napi_value Attach(napi_env env, napi_callback_info info) {
	ARGS(3); YsimApi* a = ysim_copy((int)geti(env, argv[0]));
	if(!up) {
		if(mmap(RUN, RUNLEN, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0) != RUN) { napi_throw_error(env, NULL, "cannot map memory"); return NULL; }
		up = true;
		C.any = C.glob = INF; C.slow = slow; C.self = self; C.block = block; C.wake = wake;
	}
	if(!a->conc_attach) { napi_throw_error(env, NULL, "not built for threads"); return NULL; }
	uintptr_t lo, hi; ysim_data((int)geti(env, argv[0]), lo, hi);
	a->conc_attach(&C, lo, hi);
	YsimAllocHooks h = { c_alloc, c_realloc, c_free, NULL };
	*a->alloc = h;
	return NULL;
}
// concLoad(copy, exports, module): what process.dlopen does once the file is mapped
static napi_value Load(napi_env env, napi_callback_info info) {
	ARGS(3);
	#define S2(x) #x
	#define S1(x) S2(x)
	typedef void (*Init)(v8::Local<v8::Object>, v8::Local<v8::Value>, v8::Local<v8::Context>);
	Init f = (Init)dlsym(ysim_handle((int)geti(env, argv[0])), "node_register_module_v" S1(NODE_MODULE_VERSION));
	if(!f) { napi_throw_error(env, NULL, "no module initialiser"); return NULL; }
	v8::Local<v8::Value> e, m;
	memcpy((void*)&e, &argv[1], sizeof e); memcpy((void*)&m, &argv[2], sizeof m);
	f(e.As<v8::Object>(), m, v8::Isolate::GetCurrent()->GetCurrentContext());
	return NULL;
}
// in a worker: concNext() waits for a program; concBegin() for the first turn; concEnd(result)
static napi_value Next(napi_env env, napi_callback_info info) {
	std::unique_lock<std::mutex> l(mu);
	if(me < 0) me = registered++;
	th[me].st = PARKED; mainCv.notify_one();
	while(th[me].st != JOB) th[me].cv.wait(l);
	std::string j = th[me].job;
	l.unlock();
	return str(env, j);
}
static napi_value Begin(napi_env env, napi_callback_info info) {
	std::unique_lock<std::mutex> l(mu);
	th[me].st = cur == me ? RUNNING : READY; mainCv.notify_one();
	await(l, me);
	return NULL;
}
static napi_value Point(napi_env env, napi_callback_info info) { // between calls
	if(me >= 0 && active) { C.n++; bool s = --C.any <= 0; s |= --C.glob <= 0; if(s) slow(NULL); }
	return NULL;
}
static napi_value End(napi_env env, napi_callback_info info) {
	ARGS(1); std::string r = gets(env, argv[0]);
	std::unique_lock<std::mutex> l(mu);
	if(cur != me) await(l, me);
	th[me].result = r;
	int to = nextAfter(me, 0);
	th[me].st = DONE;
	if(to >= 0) give(to, NULL, 4);
	else {
		bool all = true; for(int i=0; i<nthr; i++) if(th[i].st == BLOCKED) all = false;
		if(!all) { fatal("deadlock"); }
		else { th[me].acc += C.n - lastN; lastN = C.n; active = false; cur = -1; mainCv.notify_one(); }
	}
	return NULL;
}
// concReady(n): n workers wait for programs
static napi_value Ready(napi_env env, napi_callback_info info) {
	ARGS(1); int n = (int)geti(env, argv[0]);
	std::unique_lock<std::mutex> l(mu);
	if(registered < n) return num(env, 0);
	for(int i=0; i<n; i++) if(th[i].st != PARKED) return num(env, 0);
	return num(env, 1);
}
// concRun(programs[], schedule [kind, count, next]..., first, fails [thread, k]...)
static napi_value Run(napi_env env, napi_callback_info info) {
	ARGS(4);
	uint32_t n = 0, m = 0, nf = 0; napi_get_array_length(env, argv[0], &n); napi_get_array_length(env, argv[1], &m); napi_get_array_length(env, argv[3], &nf);
	std::unique_lock<std::mutex> l(mu);
	if(stuck) { napi_throw_error(env, NULL, "threads of an earlier run are stuck"); return NULL; }
	nthr = (int)n;
	for(int i=0; i<nthr; i++) while(th[i].st != PARKED) mainCv.wait(l);
	sched.clear(); pos = 0; trace.clear(); switches = 0; stolen = 0; traceHash = 1; fails.clear(); failed = 0; madvise(RUN + base, used - base, MADV_DONTNEED); base = used = (used + STEP) / STEP * STEP; if(base + ((size_t)1 << 30) > RUNLEN) base = used = 0; C.n = 0; lastN = 0; runNo++;
	napi_value v;
	#define EL(a, i) (napi_get_element(env, a, i, &v), geti(env, v))
	for(uint32_t i=0; i+2<m; i+=3) { Entry e = { (int)EL(argv[1], i), EL(argv[1], i+1), (int)EL(argv[1], i+2) }; sched.push_back(e); }
	for(uint32_t i=0; i+1<nf; i+=2) { Fail f = { (int)EL(argv[3], i), (uint64_t)EL(argv[3], i+1) }; fails.push_back(f); }
	for(int i=0; i<nthr; i++) { napi_get_element(env, argv[0], i, &v); th[i].job = gets(env, v); th[i].result.clear(); th[i].acc = th[i].allocs = 0; th[i].key = NULL; th[i].st = JOB; th[i].cv.notify_one(); }
	cur = -1;
	// all at their start
	for(int i=0; i<nthr; i++) while(th[i].st != READY) mainCv.wait(l);
	active = true;
	cur = (int)geti(env, argv[2]) % nthr; th[cur].st = RUNNING;
	arm();
	th[cur].cv.notify_one();
	while(active) mainCv.wait(l);
	C.any = C.glob = INF;
	if(!stuck) for(int i=0; i<nthr; i++) while(th[i].st != PARKED) mainCv.wait(l); // workers are idle again
	napi_value o, a; napi_create_object(env, &o);
	#define SET(k, x) napi_set_named_property(env, o, k, x)
	napi_create_array(env, &a); for(int i=0; i<nthr; i++) napi_set_element(env, a, i, str(env, th[i].result)); SET("results", a);
	napi_create_array(env, &a); for(int i=0; i<nthr; i++) napi_set_element(env, a, i, num(env, th[i].acc)); SET("accesses", a);
	napi_create_array(env, &a);
	for(size_t i=0; i<trace.size(); i++) {
		Switch& s = trace[i]; double w = 0; Dl_info di;
		if(s.where && dladdr(s.where, &di)) w = (char*)s.where - (char*)di.dli_fbase;
		napi_set_element(env, a, i*5, num(env, s.from)); napi_set_element(env, a, i*5+1, num(env, s.to)); napi_set_element(env, a, i*5+2, num(env, s.at)); napi_set_element(env, a, i*5+3, num(env, w)); napi_set_element(env, a, i*5+4, num(env, s.why));
	}
	SET("trace", a);
	SET("switches", num(env, switches)); SET("hash", num(env, (double)(uint32_t)(traceHash >> 32))); SET("failed", num(env, failed)); SET("stolen", num(env, stolen)); SET("memory", num(env, used - base));
	SET("stuck", str(env, stuck ? stuck : ""));
	return o;
}
void conc_exports(napi_env env, napi_value exports) {
	struct { const char* n; napi_callback f; } t[] = { {"concAttach", Attach}, {"concLoad", Load}, {"concNext", Next}, {"concBegin", Begin}, {"concPoint", Point}, {"concEnd", End}, {"concReady", Ready}, {"concRun", Run} };
	for(size_t i=0; i<sizeof(t)/sizeof(*t); i++) { napi_value v; napi_create_function(env, t[i].n, NAPI_AUTO_LENGTH, t[i].f, NULL, &v); napi_set_named_property(env, exports, t[i].n, v); }
}

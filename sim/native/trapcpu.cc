// The simulated CPU at instruction granularity: every instruction of a copy of the addon which
// belongs to an ISA extension the simulated machine does not have is made to trap (as it would
// raise #UD on a real machine), recorded when executed, and then let through.
#include "simhost.h"
#include <algorithm>
#include <dlfcn.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <string>
#include <sys/mman.h>
#include <ucontext.h>
#include <vector>

struct Insn { unsigned char* at; uint64_t need; unsigned char orig, now; };
static std::vector<Insn> insns; // sorted by address
static volatile uint64_t bad, need1; static unsigned char* volatile badAt; static unsigned char badBytes[16];
static bool operator<(const Insn& a, unsigned char* b) { return a.at < b; }

uint64_t insn_need(const unsigned char* p) {
	bool p66 = false, pf2 = false, pf3 = false;
	for(;; p++) {
		switch(*p) {
			case 0x66: p66 = true; continue;
			case 0xf2: pf2 = true; continue;
			case 0xf3: pf3 = true; continue;
			case 0x2e: case 0x36: case 0x3e: case 0x26: case 0x64: case 0x65: case 0xf0: case 0x67: continue;
		}
		break;
	}
	if((*p & 0xf0) == 0x40) p++;
	if(*p == 0xc5 || *p == 0xc4) {
		int map, L, pp; unsigned op; const unsigned char* q;
		if(*p == 0xc5) { map = 1; L = p[1]>>2&1; pp = p[1]&3; op = p[2]; q = p+3; }
		else { map = p[1]&31; L = p[2]>>2&1; pp = p[2]&3; op = p[3]; q = p+4; }
		if(map == 1) {
			if((op >= 0x41 && op <= 0x4b) || (op >= 0x90 && op <= 0x93) || op == 0x98 || op == 0x99) return F_AVX512|F_AVX;
			bool integer = (op >= 0x60 && op <= 0x6d) || (op >= 0x70 && op <= 0x76) || (op >= 0xd1 && op <= 0xd5) || (op >= 0xd7 && op <= 0xe5)
				|| (op >= 0xe8 && op <= 0xef) || (op >= 0xf1 && op <= 0xf6) || (op >= 0xf8 && op <= 0xfe);
			return integer && L ? F_AVX|F_AVX2 : F_AVX;
		}
		if(map == 2) {
			switch(op) {
				case 0xf2: case 0xf3: return F_BMI1;
				case 0xf5: case 0xf6: return F_BMI2;
				case 0xf7: return pp ? F_BMI2 : F_BMI1;
				case 0x16: case 0x36: case 0x45: case 0x46: case 0x47: case 0x58: case 0x59: case 0x5a: case 0x78: case 0x79: case 0x8c: case 0x8e:
				case 0x90: case 0x91: case 0x92: case 0x93: return F_AVX|F_AVX2;
				case 0x18: case 0x19: return (q[0]>>6) == 3 ? F_AVX|F_AVX2 : F_AVX;
				case 0xcf: return F_AVX|F_GFNI;
				case 0x13: case 0xdb: case 0xdc: case 0xdd: case 0xde: case 0xdf: return F_AVX|F_OTHER;
			}
			if((op >= 0x50 && op <= 0x53) || (op >= 0x96 && op <= 0xbf)) return F_AVX|F_OTHER;
			if(op <= 0x0b || (op >= 0x1c && op <= 0x1e) || (op >= 0x20 && op <= 0x25) || (op >= 0x28 && op <= 0x2b) || (op >= 0x30 && op <= 0x41))
				return L ? F_AVX|F_AVX2 : F_AVX;
			return F_AVX;
		}
		if(map == 3) {
			switch(op) {
				case 0x00: case 0x01: case 0x02: case 0x38: case 0x39: case 0x46: return F_AVX|F_AVX2;
				case 0x0e: case 0x0f: case 0x42: case 0x4c: return L ? F_AVX|F_AVX2 : F_AVX;
				case 0x44: return L ? F_AVX|F_VPCLMUL : F_AVX|F_PCLMUL;
				case 0x30: case 0x31: case 0x32: case 0x33: return F_AVX|F_AVX512;
				case 0xf0: return F_BMI2;
				case 0xce: case 0xcf: return F_AVX|F_GFNI;
				case 0xdf: case 0x1d: return F_AVX|F_OTHER;
			}
			return F_AVX;
		}
		return F_OTHER;
	}
	if(*p == 0x62) {
		int map = p[1]&7; unsigned op = p[4];
		uint64_t r = F_AVX512|F_AVX|F_AVX2;
		if((p[3]>>5&3) == 2) r |= F_ZMM;
		if(map == 2) {
			if(op == 0x8d || op == 0x75 || op == 0x7d || op == 0x83) r |= F_VBMI;
			if(op == 0x62 || op == 0x63 || (op >= 0x70 && op <= 0x73)) r |= F_VBMI2;
			if(op == 0xcf) r |= F_GFNI;
			if(op == 0x54 || op == 0x55 || (op >= 0x50 && op <= 0x53) || op == 0xc4) r |= F_OTHER;
		} else if(map == 3) {
			if(op == 0x44) r |= F_VPCLMUL;
			if(op >= 0x70 && op <= 0x73) r |= F_VBMI2;
			if(op == 0xce || op == 0xcf) r |= F_GFNI;
		} else if(map > 3) r |= F_OTHER;
		return r;
	}
	if(*p != 0x0f) return 0;
	p++;
	if(*p == 0x38) {
		unsigned op = p[1];
		if(op <= 0x0b || (op >= 0x1c && op <= 0x1e)) return F_SSSE3;
		if(op == 0x37) return F_SSE42;
		if(op == 0xf0 || op == 0xf1) return pf2 ? F_SSE42 : F_MOVBE;
		if(op == 0xcf) return F_GFNI;
		if(op >= 0xc8) return F_OTHER;
		return F_SSE41;
	}
	if(*p == 0x3a) {
		unsigned op = p[1];
		if(op == 0x0f) return F_SSSE3;
		if(op == 0x44) return F_PCLMUL;
		if(op >= 0x60 && op <= 0x63) return F_SSE42;
		if(op == 0xce || op == 0xcf) return F_GFNI;
		if(op >= 0xcc) return F_OTHER;
		return F_SSE41;
	}
	if(pf3 && *p == 0xb8) return F_POPCNT;
	if(pf3 && *p == 0xbd) return F_LZCNT;
	if((pf2 && *p == 0xf0) || (pf3 && (*p == 0x12 || *p == 0x16)) || (pf2 && *p == 0x12) || ((pf2 || p66) && (*p == 0xd0 || *p == 0x7c || *p == 0x7d))) return F_SSE3;
	return 0;
}

static void on_trap(int, siginfo_t*, void* uc) {
	greg_t* g = ((ucontext_t*)uc)->uc_mcontext.gregs;
	unsigned char* ip = (unsigned char*)g[REG_RIP] - 1;
	std::vector<Insn>::iterator i = std::lower_bound(insns.begin(), insns.end(), ip);
	if(i == insns.end() || i->at != ip || i->now == i->orig) { signal(SIGTRAP, SIG_DFL); return; }
	if(!bad) { badAt = ip; need1 = i->need; }
	bad = bad + 1;
	*ip = i->now = i->orig;
	g[REG_RIP] = (greg_t)ip;
}
// list: file with the offsets of all instructions of the copy; returns how many belong to an extension
int trap_load(YsimApi* api, const char* list) {
	Dl_info di;
	if(!dladdr((void*)api, &di)) return -1;
	FILE* f = fopen(list, "rb"); if(!f) return -1;
	uint32_t off; unsigned char* base = (unsigned char*)di.dli_fbase; unsigned char *lo = NULL, *hi = NULL;
	while(fread(&off, 4, 1, f) == 1) {
		unsigned char* p = base + off;
		if(!lo || p < lo) lo = p;
		if(p > hi) hi = p;
		Insn x = { p, insn_need(p), *p, *p };
		if(x.need) insns.push_back(x);
	}
	fclose(f);
	std::sort(insns.begin(), insns.end(), [](const Insn& a, const Insn& b) { return a.at < b.at; });
	if(!lo) return -1;
	lo = (unsigned char*)((uintptr_t)lo & ~(uintptr_t)4095);
	if(mprotect(lo, ((hi - lo) | 4095) + 4097, PROT_READ|PROT_WRITE|PROT_EXEC) && mprotect(lo, ((hi - lo) | 4095) + 1, PROT_READ|PROT_WRITE|PROT_EXEC)) return -1;
	struct sigaction sa; memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO|SA_ONSTACK;
	sigaction(SIGTRAP, &sa, NULL);
	return (int)insns.size();
}
int trap_set(uint64_t allowed) {
	int n = 0;
	for(size_t i=0; i<insns.size(); i++) {
		Insn& x = insns[i];
		unsigned char b = x.need & ~allowed ? 0xcc : x.orig;
		if(b != x.now) *x.at = x.now = b;
		if(b != x.orig) n++;
	}
	bad = need1 = 0; badAt = NULL;
	return n;
}
TrapStats trap_result(YsimApi* api) {
	TrapStats s; s.bad = bad; s.need = need1; s.bytes[0] = 0; s.where[0] = 0;
	if(bad) {
		int n = 0; for(int i=0; i<12; i++) n += snprintf(s.bytes + n, sizeof s.bytes - n, "%02x", i ? badAt[i] : std::lower_bound(insns.begin(), insns.end(), (unsigned char*)badAt)->orig);
		Dl_info di; dladdr((void*)api, &di);
		snprintf(s.where, sizeof s.where, "+0x%lx", (unsigned long)(badAt - (unsigned char*)di.dli_fbase));
	}
	bad = need1 = 0;
	return s;
}

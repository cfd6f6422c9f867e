// A simulated machine of a foreign architecture or build configuration: the library's native code behind a pipe.
// Requests and replies: u32 length, body; all numbers little-endian whatever the machine's byte order.
// Functions of the library which are not there (renamed, other arguments) are not offered; what is there is told at start.
#include "far.h"
#include <string.h>
#include <type_traits>
#if __has_include("common.h")
# include "common.h"
#endif
#if __has_include("encoder.h")
# include "encoder.h"
#endif
#if __has_include("decoder.h")
# include "decoder.h"
#endif
#if __has_include("crc.h")
# include "crc.h"
#endif

namespace RapidYenc {}
namespace absent {
	struct No {};
#define F(n) template<int X = 0> static inline No n(...) { return No(); }
	F(encoder_init) F(decoder_init) F(crc32_init) F(encode_isa_level) F(decode_isa_level) F(crc32_isa_level)
	F(encode) F(decode) F(decode_end) F(crc32) F(crc32_combine) F(crc32_zeros) F(crc32_unzero) F(crc32_multiply) F(crc32_shift) F(crc32_2pow) F(crc32_256pow)
#undef F
}
using namespace RapidYenc;
using namespace absent;
static inline uint64_t num(uint64_t v) { return v; }
static inline uint64_t num(No) { return 0; }
#define HAS(call) (!std::is_same<decltype(call), No>::value)
#ifndef FAR_NO_DECODE
typedef YencDecoderState State;
// by their names: the numbers are the library's own business
static const State STATES[] = { YDEC_STATE_CRLF, YDEC_STATE_EQ, YDEC_STATE_CR, YDEC_STATE_NONE, YDEC_STATE_CRLFDT, YDEC_STATE_CRLFDTCR, YDEC_STATE_CRLFEQ };
static int state_no(State s) { for(int i = 0; i < 7; i++) if(STATES[i] == s) return i; return 7; }
static int end_no(YencDecoderEnd r) { return r == YDEC_END_NONE ? 0 : r == YDEC_END_CONTROL ? 1 : r == YDEC_END_ARTICLE ? 2 : 3; }
static int end_no(No) { return 3; }
#else
typedef unsigned char State;
static const State STATES[] = { 0, 1, 2, 3, 4, 5, 6 };
static int state_no(State s) { return s; }
static int end_no(No) { return 3; }
#endif
static uint32_t offers() {
	int c = 0; unsigned char b[1] = { 0 }; const void* s = b; void* d = b; State st = STATES[0];
	uint32_t o = 0;
	(void)c; (void)s; (void)d; (void)st; (void)b;
	if(HAS(encoder_init()) && HAS(encode(128, &c, (unsigned char*)b, (unsigned char*)b, (size_t)0, 0))) o |= 1;
#ifndef FAR_NO_DECODE
	if(HAS(decoder_init()) && HAS(decode(1, (unsigned char*)b, (unsigned char*)b, (size_t)0, &st))) o |= 2;
	if(HAS(decoder_init()) && HAS(decode_end(&s, &d, (size_t)0, &st))) o |= 4;
#endif
	if(HAS(crc32_init()) && HAS(crc32((unsigned char*)b, (size_t)0, (uint32_t)0))) o |= 8;
	uint32_t x = 0; uint64_t n = 0; (void)x; (void)n;
	if(HAS(crc32_init())) {
		if(HAS(crc32_combine(x, x, n))) o |= 16;
		if(HAS(crc32_zeros(x, n))) o |= 32;
		if(HAS(crc32_unzero(x, n))) o |= 64;
		if(HAS(crc32_multiply(x, x))) o |= 128;
		if(HAS(crc32_shift(x, x))) o |= 256;
		if(HAS(crc32_2pow((int64_t)n))) o |= 512;
		if(HAS(crc32_256pow(n))) o |= 1024;
	}
	return o;
}
extern "C" {
uint64_t far_hwcap, far_hwcap2, far_hwprobe;
FarCpuRule far_rules[64];
int far_nrules;
}
enum { PAGE = 65536, IN = 4 * PAGE, OUT = 26 * PAGE };
static unsigned char arena[PAGE * 4 + IN + OUT] __attribute__((aligned(65536)));
static unsigned char* const inbuf = arena + PAGE;
static unsigned char* const outbuf = arena + PAGE * 2 + IN;
static unsigned char body[IN + 4096], reply[OUT + 4096];
static unsigned char *rp, *wp;

static uint64_t rd(int n) { uint64_t v = 0; for(int i = 0; i < n; i++) v |= (uint64_t)*rp++ << (8 * i); return v; }
static void wr(uint64_t v, int n) { for(int i = 0; i < n; i++) *wp++ = (unsigned char)(v >> (8 * i)); }
static void must_read(void* p, size_t n) {
	unsigned char* c = (unsigned char*)p;
	while(n) { long r = far_read(c, n); if(r <= 0) far_exit(0); c += r; n -= r; }
}
static void must_write(const void* p, size_t n) {
	const unsigned char* c = (const unsigned char*)p;
	while(n) { long r = far_write(c, n); if(r <= 0) far_exit(0); c += r; n -= r; }
}

static const char* const POISON[] = { "\0", "\r\n.\r\n", "\r\n=y", "=y", ".\r\n", "\xd6\xe0\x3d\r\n" };
static const unsigned char PLEN[] = { 1, 5, 4, 2, 3, 5 };
enum { AROUND = 320 };
// room for len bytes in a region, `gap` bytes before its end (or, mode 1, after its start); returns its address
static unsigned char* place(unsigned char* region, size_t size, size_t len, int mode, size_t gap, int poison) {
	unsigned char* p = mode ? region + gap : region + size - len - gap;
	unsigned char* a = p - region > AROUND ? p - AROUND : region;
	for(unsigned char* q = p; q > a; ) { for(int k = PLEN[poison]; k-- && q > a; ) *--q = POISON[poison][k]; }
	unsigned char* e = region + size - (p + len) > AROUND ? p + len + AROUND : region + size;
	int k = 0;
	for(unsigned char* q = p + len; q < e; q++) { *q = POISON[poison][k]; k = (k + 1) % PLEN[poison]; }
	return p;
}
// were the surroundings of a placed buffer written? 0: no, 1: before, 2: after
static int stray(unsigned char* region, size_t size, unsigned char* p, size_t len, int poison) {
	unsigned char* a = p - region > AROUND ? p - AROUND : region;
	int r = 0;
	for(unsigned char* q = p; q > a; ) { for(int k = PLEN[poison]; k-- && q > a; ) if(*--q != (unsigned char)POISON[poison][k]) r |= 1; }
	unsigned char* e = region + size - (p + len) > AROUND ? p + len + AROUND : region + size;
	int k = 0;
	for(unsigned char* q = p + len; q < e; q++) { if(*q != (unsigned char)POISON[poison][k]) r |= 2; k = (k + 1) % PLEN[poison]; }
	return r;
}

struct Place { int mode, poison; size_t gap; };
static Place rdplace() { Place p; p.mode = (int)rd(1); p.poison = (int)rd(1) % 6; p.gap = (size_t)rd(2); return p; }

static void job() {
	wp = reply;
	int op = (int)rd(1);
	switch(op) {
	case 'B': {
		far_hwcap = rd(8); far_hwcap2 = rd(8); far_hwprobe = rd(8);
		far_nrules = (int)rd(1);
		for(int i = 0; i < far_nrules; i++) {
			far_rules[i].leaf = (uint32_t)rd(4); far_rules[i].sub = (uint32_t)rd(4); far_rules[i].reg = (uint32_t)rd(4);
			far_rules[i].and_ = (uint32_t)rd(4); far_rules[i].or_ = (uint32_t)rd(4);
		}
		encoder_init(); decoder_init(); crc32_init();
		wr(num(encode_isa_level()), 4); wr(num(decode_isa_level()), 4); wr(num(crc32_isa_level()), 4); wr(sizeof(void*), 1);
		uint16_t e = 1; wr(*(unsigned char*)&e, 1);
		wr(offers(), 4);
		break;
	}
	case 'E': {
		int line = (int)rd(4), col = (int)rd(4), end = (int)rd(1);
		size_t cap = (size_t)rd(4);
		Place a = rdplace(), b = rdplace();
		size_t len = (size_t)rd(4);
		unsigned char* src = place(inbuf, IN, len, a.mode, a.gap, a.poison);
		memcpy(src, rp, len);
		unsigned char* dst = place(outbuf, OUT, cap, b.mode, b.gap, b.poison);
		size_t n = (size_t)num(encode(line, &col, src, dst, len, end));
		wr(n, 4); wr((uint32_t)col, 4);
		wr(memcmp(src, rp, len) ? 1 : 0, 1);
		wr(stray(inbuf, IN, src, len, a.poison) | stray(outbuf, OUT, dst, cap, b.poison) << 4, 1);
		if(n > OUT) n = 0;
		memcpy(wp, dst, n); wp += n;
		break;
	}
#ifndef FAR_NO_DECODE
	case 'D': case 'X': {
		int raw = (int)rd(1), withState = (int)rd(1);
		State st = STATES[rd(1) % 7];
		int inplace = (int)rd(1);
		Place a = rdplace(), b = rdplace();
		size_t len = (size_t)rd(4);
		unsigned char* src = place(inbuf, IN, len, a.mode, a.gap, a.poison);
		memcpy(src, rp, len);
		unsigned char* dst = inplace ? src : place(outbuf, OUT, len, b.mode, b.gap, b.poison);
		size_t n, used = len; int ended = 0;
		if(op == 'D') n = (size_t)num(decode(raw, src, dst, len, withState ? &st : NULL));
		else {
			const void* s = src; void* d = dst;
			ended = end_no(decode_end(&s, &d, len, &st));
			used = (const unsigned char*)s - src; n = (unsigned char*)d - dst;
		}
		wr(n, 4); wr(used, 4); wr(ended, 1); wr(state_no(st), 1);
		wr(!inplace && memcmp(src, rp, len) ? 1 : 0, 1);
		wr(stray(inbuf, IN, src, len, a.poison) | (inplace ? 0 : stray(outbuf, OUT, dst, len, b.poison) << 4), 1);
		if(n > OUT) n = 0;
		memcpy(wp, dst, n); wp += n;
		break;
	}
#endif
	case 'C': {
		uint32_t init = (uint32_t)rd(4);
		Place a = rdplace();
		size_t len = (size_t)rd(4);
		unsigned char* src = place(inbuf, IN, len, a.mode, a.gap, a.poison);
		memcpy(src, rp, len);
		wr(num(crc32(src, len, init)), 4);
		wr(memcmp(src, rp, len) ? 1 : 0, 1);
		break;
	}
	case 'A': { // CRC arithmetic
		int f = (int)rd(1); uint32_t x = (uint32_t)rd(4), y = (uint32_t)rd(4); uint64_t n = rd(8);
		uint32_t r = 0;
		switch(f) {
			case 0: r = (uint32_t)num(crc32_combine(x, y, n)); break;
			case 1: r = (uint32_t)num(crc32_zeros(x, n)); break;
			case 2: r = (uint32_t)num(crc32_unzero(x, n)); break;
			case 3: r = (uint32_t)num(crc32_multiply(x, y)); break;
			case 4: r = (uint32_t)num(crc32_shift(x, y)); break;
			case 5: r = (uint32_t)num(crc32_2pow((int64_t)n)); break;
			case 6: r = (uint32_t)num(crc32_256pow(n)); break;
		}
		wr(r, 4);
		break;
	}
#ifdef __x86_64__
	case 'H': { // zeros without end, then the bytes given
		int f = (int)rd(1), raw = (int)rd(1);
		int line = (int)rd(4), col = (int)rd(4), end = (int)rd(1);
		uint32_t init = (uint32_t)rd(4);
		uint64_t zeros = rd(8), cap = rd(8);
		size_t tail = (size_t)rd(4), len = (size_t)zeros + tail, n = 0, used = len;
		const size_t MB = 1 << 20;
		unsigned char* in = far_huge(((len + MB) | (MB - 1)) + 1 + MB, 0);
		unsigned char* out = cap ? far_huge(((cap + MB) | (MB - 1)) + 1, 1) : in;
		if(!in || !out) { wr(1, 1); break; }
		memcpy(in + zeros, rp, tail);
		State st = STATES[3];
		int ended = 0;
		uint32_t c = 0;
		if(f == 'E') n = (size_t)num(encode(line, &col, in, out, len, end));
		else if(f == 'D') n = (size_t)num(decode(raw, in, out, len, &st));
		else if(f == 'X') { const void* s = in; void* d = out; ended = end_no(decode_end(&s, &d, len, &st)); used = (const unsigned char*)s - in; n = (unsigned char*)d - out; }
		else c = (uint32_t)num(crc32(in, len, init));
		size_t last = n < (size_t)900000 ? n : 900000;
		if(n > cap) last = 0;
		wr(0, 1); wr(n, 8); wr(used, 8); wr((uint32_t)col, 4); wr(state_no(st), 1); wr(ended, 1); wr(c, 4);
		memcpy(wp, out + n - last, last); wp += last;
		break;
	}
#endif
	}
}

static int far_main() {
	far_protect_none(arena, PAGE);
	far_protect_none(inbuf + IN, PAGE);
	far_protect_none(outbuf + OUT, PAGE);
	for(;;) {
		unsigned char h[4];
		must_read(h, 4);
		uint32_t n = h[0] | h[1] << 8 | h[2] << 16 | (uint32_t)h[3] << 24;
		if(n > sizeof(body)) far_exit(3);
		must_read(body, n);
		rp = body;
		job();
		n = (uint32_t)(wp - reply);
		h[0] = n; h[1] = n >> 8; h[2] = n >> 16; h[3] = n >> 24;
		must_write(h, 4);
		must_write(reply, n);
	}
}
#ifdef FAR_HOSTED
int main() { return far_main(); }
#else
extern "C" void far_start() { far_main(); }
#endif

/* what the sources use of Microsoft's intrin.h for ARM */
#pragma once
#include <stdint.h>
#include <arm_acle.h>
static inline unsigned char _BitScanReverse64(unsigned long* r, unsigned long long v) { if(!v) return 0; *r = 63 - __builtin_clzll(v); return 1; }
static inline unsigned char _BitScanReverse(unsigned long* r, unsigned long v) { if(!(unsigned)v) return 0; *r = 31 - __builtin_clz((unsigned)v); return 1; }
static inline unsigned char _BitScanForward(unsigned long* r, unsigned long v) { if(!(unsigned)v) return 0; *r = __builtin_ctz((unsigned)v); return 1; }

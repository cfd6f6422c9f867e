#pragma once
#include <node_api.h>
#include <stdint.h>
#include "ysim.h"
// feature bits used by the trapping CPU (trapcpu.cc) and the simulated machines (js/cpu.js)
enum { F_SSE3=1, F_SSSE3=2, F_SSE41=4, F_SSE42=8, F_POPCNT=16, F_LZCNT=32, F_BMI1=64, F_BMI2=128, F_PCLMUL=256, F_AVX=512, F_AVX2=1024,
	F_VPCLMUL=2048, F_AVX512=4096, F_AVX512BW=8192, F_VBMI=16384, F_VBMI2=32768, F_ZMM=65536, F_GFNI=131072, F_MOVBE=262144, F_OTHER=1<<20 };
struct TrapStats { uint64_t bad, need; char bytes[64], where[64]; };
int trap_load(YsimApi* api, const char* list);
int trap_set(uint64_t allowed);
TrapStats trap_result(YsimApi* api);
YsimApi* ysim_copy(int i);
void* ysim_handle(int i);
void ysim_data(int i, uintptr_t& lo, uintptr_t& hi); // the writable data of a copy

#pragma once
#include <stdint.h>
enum { ANDROID_CPU_FAMILY_UNKNOWN, ANDROID_CPU_FAMILY_ARM };
enum { ANDROID_CPU_ARM_FEATURE_NEON = 4, ANDROID_CPU_ARM_FEATURE_PMULL = 8192, ANDROID_CPU_ARM_FEATURE_CRC32 = 65536 };
enum { ANDROID_CPU_ARM64_FEATURE_ASIMD = 2, ANDROID_CPU_ARM64_FEATURE_PMULL = 8, ANDROID_CPU_ARM64_FEATURE_CRC32 = 64 };
#ifdef __cplusplus
extern "C"
#endif
uint64_t android_getCpuFeatures(void);

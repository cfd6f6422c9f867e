#pragma once
#define PF_ARM_NEON_INSTRUCTIONS_AVAILABLE 19
#define PF_ARM_V8_CRYPTO_INSTRUCTIONS_AVAILABLE 30
#define PF_ARM_V8_CRC32_INSTRUCTIONS_AVAILABLE 31
#ifdef __cplusplus
extern "C"
#endif
int IsProcessorFeaturePresent(unsigned long);

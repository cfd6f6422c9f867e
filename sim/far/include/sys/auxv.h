#pragma once
#define AT_HWCAP 16
#define AT_HWCAP2 26
#ifdef __cplusplus
extern "C"
#endif
#if defined(__FreeBSD__) || defined(__OpenBSD__)
int elf_aux_info(int, void*, int);
#else
unsigned long getauxval(unsigned long);
#endif

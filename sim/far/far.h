// What a simulated far machine consists of, besides the library: see far.cc
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
long far_read(void* p, size_t n);
long far_write(const void* p, size_t n);
int far_protect_none(void* p, size_t n);
void far_exit(int code);
// memory of any size: zeros, or one megabyte over and over
unsigned char* far_huge(size_t n, int repeat);
struct FarCpuRule { uint32_t leaf, sub, reg, and_, or_; };
extern struct FarCpuRule far_rules[64];
extern int far_nrules;
extern uint64_t far_hwcap, far_hwcap2, far_hwprobe;
void far_cpuid(uint32_t leaf, uint32_t sub, uint32_t* r);
#ifdef __cplusplus
}
#endif

/* pre-included where the library identifies the x86 processor: the answers come from the simulated machine */
#include <cpuid.h>
#ifdef __cplusplus
extern "C"
#endif
void far_cpuid(unsigned leaf, unsigned sub, unsigned* r);
#undef __cpuid
#undef __cpuid_count
#define __cpuid(l, a, b, c, d) do { unsigned far_r_[4]; far_cpuid((unsigned)(l), 0, far_r_); (a) = far_r_[0]; (b) = far_r_[1]; (c) = far_r_[2]; (d) = far_r_[3]; } while(0)
#define __cpuid_count(l, s, a, b, c, d) do { unsigned far_r_[4]; far_cpuid((unsigned)(l), (unsigned)(s), far_r_); (a) = far_r_[0]; (b) = far_r_[1]; (c) = far_r_[2]; (d) = far_r_[3]; } while(0)

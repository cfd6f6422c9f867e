/* pre-included on simulated Windows machines: what Microsoft's C library would declare */
#include <stddef.h>
#include <stdlib.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void* _aligned_malloc(size_t, size_t);
void _aligned_free(void*);
void far_cpuid(unsigned leaf, unsigned sub, unsigned* r);
uint64_t far_xgetbv(unsigned);
#ifdef __cplusplus
}
#endif
#include <intrin.h>
#define _byteswap_ulong(x) ((unsigned long)__builtin_bswap32(x))
#define _byteswap_uint64(x) __builtin_bswap64(x)
#if defined(__x86_64__) || defined(__i386__)
# define __cpuid(ar, l) far_cpuid((unsigned)(l), 0, (unsigned*)(ar))
# define __cpuidex(ar, l, s) far_cpuid((unsigned)(l), (unsigned)(s), (unsigned*)(ar))
# define _xgetbv(x) far_xgetbv(x)
# ifndef _XCR_XFEATURE_ENABLED_MASK
#  define _XCR_XFEATURE_ENABLED_MASK 0
# endif
#endif

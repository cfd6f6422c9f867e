#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#define FAR_T throw()
#else
#define FAR_T
#endif
void* malloc(size_t) FAR_T;
void* calloc(size_t, size_t) FAR_T;
void* realloc(void*, size_t) FAR_T;
void free(void*) FAR_T;
int posix_memalign(void**, size_t, size_t) FAR_T;
void* aligned_alloc(size_t, size_t) FAR_T;
void abort(void) FAR_T;
int abs(int) FAR_T;
long long llabs(long long) FAR_T;
#ifdef __cplusplus
}
#endif

#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C"
#endif
long syscall(long, ...);

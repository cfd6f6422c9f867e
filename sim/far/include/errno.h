#pragma once
#define EINVAL 22
#define ENOMEM 12
extern int errno;

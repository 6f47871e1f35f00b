#include <features.h>
#include <sys/types.h>
#undef __GLIBC_PREREQ
#define __GLIBC_PREREQ(a, b) 0

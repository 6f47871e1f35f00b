#include <limits.h>
typedef unsigned long ULONG;
#define BCRYPT_SUCCESS(x) ((x) >= 0)
#define BCRYPT_USE_SYSTEM_PREFERRED_RNG 2
long BCryptGenRandom(void* h, unsigned char* x, unsigned long n, unsigned long flags);
void* SecureZeroMemory(void* p, size_t n);

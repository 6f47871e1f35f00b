#include <stddef.h>
#include "tools/rng.h"
void hx_init(unsigned char* e, unsigned char* p, int s) { randombytes_init(e, p, s); }
int hx_random(unsigned char* x, unsigned long long n) { return randombytes(x, n); }

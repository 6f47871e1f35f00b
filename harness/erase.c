/* Does erasure survive the optimiser?  Built together with the library as one program (link-time optimisation). */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "compat.h"
#include "parameters.h"
static volatile uint8_t seed = 0xd7;
static uint8_t* volatile where;
static volatile unsigned sink;
#define N 64
__attribute__((noinline)) static unsigned use(const uint8_t* p, unsigned n) { unsigned s = 0; for (unsigned i = 0; i < n; ++i) s = s * 31 + ((const volatile uint8_t*)p)[i]; return s; }
__attribute__((noinline)) static int left(unsigned n) { volatile uint8_t* p = where; int k = 0; for (unsigned i = 0; i < n; ++i) k += p[i] == (uint8_t)(0xd7 ^ (i & 15)); return k; }
#define CASE(name, n, erase) \
  __attribute__((noinline)) static void stack_##name(void) { uint8_t b[n]; where = b; for (unsigned i = 0; i < n; ++i) b[i] = seed ^ (i & 15); sink = use(b, n); erase; } \
  __attribute__((noinline)) static void heap_##name(void) { uint8_t* b = malloc(n); where = b; for (unsigned i = 0; i < n; ++i) b[i] = seed ^ (i & 15); sink = use(b, n); erase; free(b); } \
  __attribute__((noinline)) static void keep_##name(void) { uint8_t b[n]; where = b; for (unsigned i = 0; i < n; ++i) b[i] = seed ^ (i & 15); sink = use(b, n); }
#define TRY(name, n) { keep_##name(); int c = left(n); stack_##name(); int a = left(n); heap_##name(); int h = left(n); printf("%s %d %d %d %d\n", #name, n, a, h, c); }
CASE(bzero, 48, faest_explicit_bzero(b, 48))
#define SETS(X) X(128S, 128s) X(128F, 128f) X(192S, 192s) X(192F, 192f) X(256S, 256s) X(256F, 256f) X(EM_128S, em_128s) X(EM_128F, em_128f) X(EM_192S, em_192s) X(EM_192F, em_192f) X(EM_256S, em_256s) X(EM_256F, em_256f)
#define D(U, L) void faest_##L##_clear_private_key(uint8_t*); CASE(clear_##L, FAEST_##U##_SK_SIZE, faest_##L##_clear_private_key(b))
SETS(D)
int rand_bytes(uint8_t* d, size_t n) { memset(d, 1, n); return 0; }
#define T(U, L) TRY(clear_##L, FAEST_##U##_SK_SIZE)
int main(void) { TRY(bzero, 48) SETS(T) return 0; }

/* One-shot ZK hashes: x has ell + 1 elements. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "universal_hashing.h"
#define ONE(B)                                                                                     \
  static void one##B(uint8_t* h, const uint8_t* sd, const uint8_t* x, unsigned int ell) {          \
    bf##B##_t* a = aligned_alloc(32, (((ell + 1) * sizeof *a) + 31) / 32 * 32);                    \
    for (unsigned int i = 0; i < ell + 1; ++i)                                                     \
      a[i] = bf##B##_load(x + i * (B / 8));                                                        \
    zk_hash_##B(h, sd, a, ell);                                                                    \
    free(a);                                                                                       \
  }
ONE(128) ONE(192) ONE(256)
void hx_zk_hash1(unsigned int lam, uint8_t* h, const uint8_t* sd, const uint8_t* x, unsigned int ell) {
  if (lam == 128)
    one128(h, sd, x, ell);
  else if (lam == 192)
    one192(h, sd, x, ell);
  else
    one256(h, sd, x, ell);
}

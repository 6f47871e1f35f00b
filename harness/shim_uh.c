/* Universal hashes; field elements as byte strings. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "universal_hashing.h"

void hx_vole_hash(unsigned int lam, uint8_t* h, const uint8_t* sd, const uint8_t* x, unsigned int ell, int generic) {
  if (generic)
    vole_hash(h, sd, x, ell, lam);
  else if (lam == 128)
    vole_hash_128(h, sd, x, ell);
  else if (lam == 192)
    vole_hash_192(h, sd, x, ell);
  else
    vole_hash_256(h, sd, x, ell);
}
#define ZK(B)                                                                                      \
  static void zk##B(uint8_t* h, const uint8_t* sd, const uint8_t* x, unsigned int ell, const uint8_t* x1) { \
    zk_hash_##B##_ctx c;                                                                           \
    zk_hash_##B##_init(&c, sd);                                                                    \
    for (unsigned int i = 0; i < ell; ++i)                                                         \
      zk_hash_##B##_update(&c, bf##B##_load(x + i * (B / 8)));                                     \
    zk_hash_##B##_finalize(h, &c, bf##B##_load(x1));                                               \
  }
ZK(128) ZK(192) ZK(256)
/* incremental */
void hx_zk_hash(unsigned int lam, uint8_t* h, const uint8_t* sd, const uint8_t* x, unsigned int ell, const uint8_t* x1) {
  if (lam == 128)
    zk128(h, sd, x, ell, x1);
  else if (lam == 192)
    zk192(h, sd, x, ell, x1);
  else
    zk256(h, sd, x, ell, x1);
}

/* Block ciphers, counter mode, one-way functions, extended witness. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "aes.h"
#include "owf.h"
#include "instances.h"

void hx_prg(const uint8_t* key, const uint8_t* iv, uint8_t* out, unsigned int bits, size_t n) {
  prg(key, iv, out, bits, n);
}
void hx_inc_iv(uint8_t* iv) { aes_increment_iv(iv); }
/* which: 0 AES-128, 1 AES-192, 2 AES-256, 3 Rijndael-192, 4 Rijndael-256; returns both functions' results */
int hx_cipher(int which, const uint8_t* key, const uint8_t* in, uint8_t* out) {
  aes_round_keys_t rk;
  memset(&rk, 0xa5, sizeof rk);
  switch (which) {
  case 0: { int a = aes128_init_round_keys(&rk, key); return 256 * a + aes128_encrypt_block(&rk, in, out); }
  case 1: { int a = aes192_init_round_keys(&rk, key); return 256 * a + aes192_encrypt_block(&rk, in, out); }
  case 2: { int a = aes256_init_round_keys(&rk, key); return 256 * a + aes256_encrypt_block(&rk, in, out); }
  case 3: { int a = rijndael192_init_round_keys(&rk, key); return 256 * a + rijndael192_encrypt_block(&rk, in, out); }
  default: { int a = rijndael256_init_round_keys(&rk, key); return 256 * a + rijndael256_encrypt_block(&rk, in, out); }
  }
}
int hx_owf(unsigned int lam, int em, const uint8_t* key, const uint8_t* in, uint8_t* out) {
  switch (lam) {
  case 128: return em ? owf_em_128(key, in, out) : owf_128(key, in, out);
  case 192: return em ? owf_em_192(key, in, out) : owf_192(key, in, out);
  default: return em ? owf_em_256(key, in, out) : owf_256(key, in, out);
  }
}
int hx_witness(int pid, const uint8_t* key, const uint8_t* in, uint8_t* out, size_t n) {
  faest_paramset_t p = faest_get_paramset(pid);
  uint8_t* w = aes_extend_witness(key, in, &p);
  if (!w)
    return -1;
  memcpy(out, w, n);
  free(w);
  return 0;
}

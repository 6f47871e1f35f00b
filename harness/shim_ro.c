/* Random oracles and the expandable-output functions, driven chunk by chunk. */
#include <stdint.h>
#include <stddef.h>
#include "random_oracle.h"

/* which: 0..3.  The input is cut into n chunks of the given lengths. */
void hx_oracle(int which, unsigned int sec, const uint8_t* data, const size_t* lens, int n, uint8_t* out1, size_t l1,
               uint8_t* out2, size_t l2) {
  switch (which) {
  case 0: {
    H0_context_t c;
    H0_init(&c, sec);
    for (int i = 0; i < n; data += lens[i++])
      H0_update(&c, data, lens[i]);
    H0_final(&c, out1, l1, out2, l2);
    break;
  }
  case 1: {
    H1_context_t c;
    H1_init(&c, sec);
    for (int i = 0; i < n; data += lens[i++])
      H1_update(&c, data, lens[i]);
    H1_final(&c, out1, l1);
    break;
  }
  case 2: {
    H2_context_t c;
    H2_init(&c, sec);
    for (int i = 0; i < n; data += lens[i++])
      H2_update(&c, data, lens[i]);
    H2_final(&c, out1, l1);
    break;
  }
  default: {
    H3_context_t c;
    H3_init(&c, sec);
    for (int i = 0; i < n; data += lens[i++])
      H3_update(&c, data, lens[i]);
    H3_final(&c, out1, l1, out2);
  }
  }
}

/* four lanes; data and outputs are four consecutive areas */
void hx_oracle_x4(unsigned int sec, const uint8_t* data, size_t stride, const size_t* lens, int n, uint8_t* sd, size_t l1,
                  uint8_t* com, size_t l2) {
  H0_context_x4_t c;
  H0_x4_init(&c, sec);
  for (int i = 0; i < n; data += lens[i++])
    H0_x4_update(&c, data, data + stride, data + 2 * stride, data + 3 * stride, lens[i]);
  H0_x4_final(&c, sd, sd + l1, sd + 2 * l1, sd + 3 * l1, l1, com, com + l2, com + 2 * l2, com + 3 * l2, l2);
}

/* the hash layer itself: chunked absorbing and squeezing; prefix < 0: none */
void hx_xof(unsigned int sec, int prefix, const uint8_t* data, const size_t* lens, int n, uint8_t* out,
            const size_t* olens, int m) {
  hash_context c;
  if (prefix >= 0)
    hash_init_prefix(&c, sec, (uint8_t)prefix);
  else
    hash_init(&c, sec);
  for (int i = 0; i < n; data += lens[i++])
    hash_update(&c, data, lens[i]);
  hash_final(&c);
  for (int i = 0; i < m; out += olens[i++])
    hash_squeeze(&c, out, olens[i]);
  hash_clear(&c);
}
void hx_xof_x4(unsigned int sec, int prefix, const uint8_t* data, size_t stride, const size_t* lens, int n, uint8_t* out,
               size_t ostride, const size_t* olens, int m) {
  hash_context_x4 c;
  if (prefix >= 0)
    hash_init_prefix_x4(&c, sec, (uint8_t)prefix);
  else
    hash_init_x4(&c, sec);
  for (int i = 0; i < n; data += lens[i++])
    hash_update_x4_4(&c, data, data + stride, data + 2 * stride, data + 3 * stride, lens[i]);
  hash_final_x4(&c);
  for (int i = 0; i < m; out += olens[i++])
    hash_squeeze_x4_4(&c, out, out + ostride, out + 2 * ostride, out + 3 * ostride, olens[i]);
  hash_clear_x4(&c);
}

/* head, body, tail, each absorbed at once */
void hx_oracle_big(int which, unsigned int sec, const uint8_t* h, size_t hl, const uint8_t* b, size_t bl, const uint8_t* t,
                   size_t tl, uint8_t* out, size_t n) {
  (void)which;
  H1_context_t c;
  H1_init(&c, sec);
  H1_update(&c, h, hl);
  H1_update(&c, b, bl);
  H1_update(&c, t, tl);
  H1_final(&c, out, n);
}

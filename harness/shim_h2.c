/* Programming the oracle for the last challenge: answers of hx_h2_len bytes are xored with hx_h2_mask, or (once) set to
   a wanted value, which fixes the mask.  Linked with --wrap=H2_final. */
#include <stdint.h>
#include <string.h>
#include "random_oracle.h"
static uint8_t mask[64], want[64];
static size_t h2_len;
static int want_on, h2_calls;
void hx_h2_want(const uint8_t* w, size_t len) {
  memcpy(want, w, len);
  memset(mask, 0, sizeof mask);
  h2_len = len;
  want_on = 1;
  h2_calls = 0;
}
void hx_h2_mask(const uint8_t* m, size_t len) {
  memcpy(mask, m, len);
  h2_len = len;
  want_on = 0;
  h2_calls = 0;
}
void hx_h2_off(void) { h2_len = 0; want_on = 0; h2_calls = 0; }
int hx_h2_calls(void) { return h2_calls; }
void hx_h2_get(uint8_t* m, size_t len) { memcpy(m, mask, len); }
void __real_H2_final(H2_context_t* ctx, uint8_t* digest, size_t len);
void __wrap_H2_final(H2_context_t* ctx, uint8_t* digest, size_t len) {
  __real_H2_final(ctx, digest, len);
  if (!h2_len || len != h2_len)
    return;
  ++h2_calls;
  for (size_t i = 0; i < len; ++i) {
    if (want_on)
      mask[i] = digest[i] ^ want[i];
    digest[i] ^= mask[i];
  }
  want_on = 0;
}

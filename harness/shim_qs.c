/* The zero-knowledge proof.  V/Q are lambda columns of len bytes, consecutive. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "faest_aes.h"
#include "instances.h"
static uint8_t** cols(unsigned int n, size_t len, const uint8_t* src) {
  uint8_t** v = malloc(n * sizeof *v);
  v[0] = malloc(n * len);
  memcpy(v[0], src, n * len);
  for (unsigned int i = 1; i < n; ++i)
    v[i] = v[0] + i * len;
  return v;
}
void hx_prove(int pid, const uint8_t* w, const uint8_t* u, const uint8_t* v, size_t len, const uint8_t* in,
              const uint8_t* out, const uint8_t* chall, uint8_t* a, uint8_t* b) {
  faest_paramset_t p = faest_get_paramset(pid);
  uint8_t** V = cols(p.faest_param.lambda, len, v);
  aes_prove(w, u, V, in, out, chall, a, b, &p);
  free(V[0]); free(V);
}
int hx_verify(int pid, const uint8_t* d, const uint8_t* q, size_t len, const uint8_t* chall2, const uint8_t* chall3,
              const uint8_t* a, const uint8_t* in, const uint8_t* out, uint8_t* b) {
  faest_paramset_t p = faest_get_paramset(pid);
  uint8_t** Q = cols(p.faest_param.lambda, len, q);
  uint8_t* r = aes_verify(d, Q, chall2, chall3, a, in, out, &p);
  free(Q[0]); free(Q);
  if (!r)
    return -1;
  memcpy(b, r, p.faest_param.lambda / 8);
  free(r);
  return 0;
}

/* VOLE. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "vole.h"
#include "instances.h"

int hx_chaldec(const uint8_t* chal, unsigned int i, unsigned int k0, unsigned int t0, unsigned int k1, unsigned int t1,
               uint8_t* out) {
  return ChalDec(chal, i, k0, t0, k1, t1, out);
}
static uint8_t** cols(unsigned int n, size_t len) {
  uint8_t** v = malloc(n * sizeof *v);
  v[0] = calloc(n, len);
  for (unsigned int i = 1; i < n; ++i)
    v[i] = v[0] + i * len;
  return v;
}
/* openings of every repetition for the challenge are produced on request (chal != NULL) */
void hx_vole_commit(int pid, const uint8_t* root, const uint8_t* iv, unsigned int ellhat, uint8_t* hcom, uint8_t* c,
                    uint8_t* u, uint8_t* v, const uint8_t* chal, uint8_t* open) {
  faest_paramset_t p = faest_get_paramset(pid);
  unsigned int lam = p.faest_param.lambda, lb = lam / 8, tau = p.faest_param.tau;
  size_t n = (ellhat + 7) / 8;
  vec_com_t* vc = calloc(tau, sizeof *vc);
  uint8_t** V = cols(lam, n);
  vole_commit(root, iv, ellhat, &p, hcom, vc, c, u, V);
  memcpy(v, V[0], lam * n);
  for (unsigned int i = 0; i < tau; ++i) {
    if (chal) {
      uint8_t b[32];
      unsigned int d = i < p.faest_param.t0 ? p.faest_param.k0 : p.faest_param.k1;
      ChalDec(chal, i, p.faest_param.k0, p.faest_param.t0, p.faest_param.k1, p.faest_param.t1, b);
      vector_open(vc[i].k, vc[i].com, b, open, open + d * lb, d, lb);
      open += (d + 2) * lb;
    }
    vec_com_clear(&vc[i]);
  }
  free(V[0]); free(V); free(vc);
}
void hx_vole_reconstruct(int pid, const uint8_t* iv, const uint8_t* chal, const uint8_t* open, unsigned int ellhat,
                         uint8_t* hcom, uint8_t* q) {
  faest_paramset_t p = faest_get_paramset(pid);
  unsigned int lam = p.faest_param.lambda, lb = lam / 8, tau = p.faest_param.tau;
  size_t n = (ellhat + 7) / 8;
  const uint8_t *pdec[64], *com[64];
  for (unsigned int i = 0; i < tau; ++i) {
    unsigned int d = i < p.faest_param.t0 ? p.faest_param.k0 : p.faest_param.k1;
    pdec[i] = open;
    com[i] = open + d * lb;
    open += (d + 2) * lb;
  }
  uint8_t** Q = cols(lam, n);
  vole_reconstruct(iv, chal, pdec, com, hcom, Q, ellhat, &p);
  memcpy(q, Q[0], lam * n);
  free(Q[0]); free(Q);
}

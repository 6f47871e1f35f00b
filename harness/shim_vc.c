/* Vector commitments. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "vc.h"
#include "instances.h"

/* commit and copy all parts out; k: all nodes in heap order */
void hx_vc_commit(int pid, unsigned int depth, const uint8_t* root, const uint8_t* iv, uint8_t* h, uint8_t* k,
                  uint8_t* com, uint8_t* sd) {
  faest_paramset_t p = faest_get_paramset(pid);
  unsigned int lb = p.faest_param.lambda / 8;
  vec_com_t c;
  memset(&c, 0, sizeof c);
  vector_commitment(root, iv, &p, p.faest_param.lambda, &c, depth);
  memcpy(h, c.h, 2 * lb);
  memcpy(k, c.k, ((2u << depth) - 1) * lb);
  memcpy(com, c.com, (lb * 2) << depth);
  memcpy(sd, c.sd, lb << depth);
  vec_com_clear(&c);
}
void hx_vc_open(const uint8_t* k, const uint8_t* com, const uint8_t* b, uint8_t* pdec, uint8_t* com_j,
                unsigned int depth, unsigned int lb) {
  vector_open(k, com, b, pdec, com_j, depth, lb);
}
void hx_vc_reconstruct(unsigned int lambda, unsigned int depth, const uint8_t* iv, const uint8_t* pdec,
                       const uint8_t* com_j, const uint8_t* b, uint8_t* h, uint8_t* com, uint8_t* sd, int fill) {
  unsigned int lb = lambda / 8;
  vec_com_rec_t r;
  r.h = malloc(2 * lb);
  r.k = malloc(((2u << depth) - 1) * lb);
  r.com = malloc((lb * 2) << depth);
  r.s = malloc(lb << depth);
  memset(r.k, fill, ((2u << depth) - 1) * lb);
  memset(r.com, fill, (lb * 2) << depth);
  memset(r.s, fill, lb << depth);
  vector_reconstruction(iv, pdec, com_j, b, lambda, depth, &r);
  memcpy(h, r.h, 2 * lb);
  memcpy(com, r.com, (lb * 2) << depth);
  memcpy(sd, r.s, lb << depth);
  vec_com_rec_clear(&r);
}
int hx_bitdec(unsigned int i, unsigned int depth, uint8_t* out) { return BitDec(i, depth, out); }
unsigned int hx_numrec(unsigned int depth, const uint8_t* b) { return NumRec(depth, b); }

/* Random source under control of the driver: a queue of draws, each either bytes or a failure. */
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>

static uint8_t* rq_data;      /* concatenated draw data, each draw cut to what is asked for */
static size_t rq_len, rq_pos;
static int rq_fail_at = -1;   /* index of the draw that fails, -1: none */
static int rq_fail_len = -1;  /* failing draws in a row */
static int rq_draws;
static size_t rq_sizes[4096];
static int rq_script[4096];
static int rq_nscript;
static uint8_t rq_log[8 << 20]; /* everything delivered since the last mark */
static size_t rq_logn;
static int rq_failed;
static uint64_t rq_prng = 0x9e3779b97f4a7c15ull;

void hx_rand_set(const uint8_t* data, size_t len, const int* script, int nscript) {
  free(rq_data);
  rq_data = malloc(len ? len : 1);
  memcpy(rq_data, data, len);
  rq_len = len;
  rq_pos = 0;
  rq_draws = 0;
  rq_logn = 0;
  rq_failed = 0;
  rq_nscript = nscript > 4096 ? 4096 : nscript;
  if (rq_nscript)
    memcpy(rq_script, script, sizeof(int) * rq_nscript);
}
void hx_rand_seed(uint64_t s) { rq_prng = s * 0x9e3779b97f4a7c15ull + 0x1234567; }
int hx_rand_draws(void) { return rq_draws; }
size_t hx_rand_size(int i) { return rq_sizes[i]; }
size_t hx_rand_used(void) { return rq_pos; }

size_t hx_rand_log(uint8_t* dst, size_t n) {
  if (dst && n <= rq_logn)
    memcpy(dst, rq_log, n);
  return rq_logn;
}
void hx_rand_mark(void) { rq_logn = 0; rq_failed = 0; }
int hx_rand_failed(void) { return rq_failed; }

/* script entry: 0 success, 1 failure without touching dst, 2 failure after writing half of dst */
int rand_bytes(uint8_t* dst, size_t n) {
  int i = rq_draws++;
  if (i < 4096)
    rq_sizes[i] = n;
  int s = i < rq_nscript ? rq_script[i] : 0;
  if (s == 1) {
    rq_failed = 1;
    return -1;
  }
  size_t want = s == 2 ? n / 2 : n;
  for (size_t k = 0; k < want; ++k) {
    if (rq_pos < rq_len)
      dst[k] = rq_data[rq_pos++];
    else {
      rq_prng ^= rq_prng << 13; rq_prng ^= rq_prng >> 7; rq_prng ^= rq_prng << 17;
      dst[k] = (uint8_t)(rq_prng >> 24);
    }
  }
  if (s == 2) {
    rq_failed = 1;
    return -1;
  }
  if (rq_logn + n > sizeof rq_log)
    abort();
  memcpy(rq_log + rq_logn, dst, n);
  rq_logn += n;
  return 0;
}

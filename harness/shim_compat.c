/* Exports the helper functions of compat.h, endian_compat.h and utils.h; an allocator that knows its blocks. */
#ifdef NOEXT
#include "noext.h"
#endif
#include "compat.h"
#include "utils.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>

int hx_parity(int n) { return parity8((uint8_t)n); }
uint32_t hx_clz(uint32_t x) { return clz(x); }
uint32_t hx_ceil_log2(uint32_t x) { return ceil_log2(x); }
int hx_rotl(int n, unsigned c) { return (uint8_t)rotl8((uint8_t)n, c); }
int hx_rotr(int n, unsigned c) { return (uint8_t)rotr8((uint8_t)n, c); }
int hx_sub(uint64_t x, uint64_t y, uint64_t* d) { size_t r = 0x5a5a; int rc = sub_overflow_size_t(x, y, &r); *d = r; return rc; }
void hx_order(int bits, const uint8_t* in, uint8_t* be, uint8_t* le, uint8_t* sw, uint8_t* be2, uint8_t* le2) {
#define DO(T, B) { T x; memcpy(&x, in, sizeof x); T a = htobe##B(x), b = htole##B(x), c = bswap##B(x), d = be##B##toh(x), f = le##B##toh(x); \
  memcpy(be, &a, sizeof x); memcpy(le, &b, sizeof x); memcpy(sw, &c, sizeof x); memcpy(be2, &d, sizeof x); memcpy(le2, &f, sizeof x); }
  if (bits == 16) DO(uint16_t, 16) else if (bits == 32) DO(uint32_t, 32) else DO(uint64_t, 64)
}
void hx_bits(const uint8_t* in, int n, int* get, uint8_t* set) {
  memset(set, 0, n);
  for (int i = 0; i < 8 * n; ++i) { get[i] = ptr_get_bit(in, i); ptr_set_bit(set, get_bit(in[i / 8], i % 8), i); }
}
int hx_bcmp(const void* a, const void* b, size_t n) { return faest_timingsafe_bcmp(a, b, n); }
void hx_bzero(void* a, size_t n) { faest_explicit_bzero(a, n); }
void hx_xor(const uint8_t* a, const uint8_t* b, uint8_t* o, size_t n) { xor_u8_array(a, b, o, n); }
void hx_mxor(const uint8_t* a, const uint8_t* b, uint8_t* o, int m, size_t n) { masked_xor_u8_array(a, b, o, (uint8_t)m, n); }

/* ---- allocator: one block at a time, with a header nobody may touch */
static uint8_t arena[1 << 20] __attribute__((aligned(4096)));
static size_t want_off;                   /* where the next block starts (multiple of 16) */
static uint8_t* blk;
static size_t blk_n;
static int live, freed, wrong;
static void* take(size_t al, size_t n) {
  if (n > sizeof(arena) / 2) { errno = ENOMEM; return NULL; }
  uintptr_t p = (uintptr_t)arena + 64 + want_off;
  p = (p + al - 1) & ~(uintptr_t)(al - 1);
  blk = (uint8_t*)p; blk_n = n; live++;
  memset(arena, 0xc3, sizeof arena);
  memset(blk, 0x77, n);
  return blk;
}
void* malloc(size_t n) { return take(16, n); }
void free(void* p) { if (!p) return; if (p == blk && live == 1) { live = 0; freed++; } else wrong = 1; }
int posix_memalign(void** r, size_t al, size_t n) {
  if (al % sizeof(void*) || (al & (al - 1)) || !al) return EINVAL;
  void* p = take(al, n);
  if (!p) return ENOMEM;
  *r = p;
  return 0;
}
void* memalign(size_t al, size_t n) { return take(al ? al : 1, n); }
void* aligned_alloc(size_t al, size_t n) { if (!al || (al & (al - 1)) || (n & (al - 1))) { errno = EINVAL; return NULL; } return take(al, n); }
int consttime_memequal(const void* a, const void* b, size_t n) { return memcmp(a, b, n) == 0; }

/* got, aligned, inside, freed, wrong, live */
void hx_alloc(size_t al, size_t size, size_t off, int* out) {
  want_off = off; live = freed = wrong = 0; blk = NULL; blk_n = 0;
  uint8_t* volatile hide = faest_aligned_alloc(al, size);    /* the compiler takes what malloc returns for something new */
  uint8_t* p = hide;
  memset(out, 0, 6 * sizeof(int));
  out[0] = p != NULL;
  if (p) {
    out[1] = al == 0 || (uintptr_t)p % al == 0;
    out[2] = blk && p >= blk && size <= blk_n && p + size <= blk + blk_n;
    if (out[2]) {
      memset(p, 0xee, size);
      for (uint8_t* q = arena; q < arena + sizeof arena; ++q)
        if ((q < blk || q >= blk + blk_n) && *q != 0xc3) out[2] = 0;
    }
    faest_aligned_free(p);
  }
  out[3] = freed; out[4] = wrong; out[5] = live;
  faest_aligned_free(NULL);
  out[4] |= wrong;
}

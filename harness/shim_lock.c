/* Receives the program points and memory accesses of library code compiled with -fsanitize=thread and
   -fsanitize-coverage=trace-pc (no sanitizer runtime is linked: the callbacks are here) and condenses them per segment.
   Hash outputs that the scheme publishes can be pinned, so that runs with different secrets have equal public data. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include "random_oracle.h"

#define MAXSEG 64
#define MAXCHUNK (1u << 16)
typedef struct {
  uint64_t nseg, rc, done, nchunk, pins, total;
  uint64_t n[MAXSEG], h[MAXSEG];
  uint64_t chunk[MAXCHUNK];      /* running digest after every CH events */
  uint64_t wlo, whi;             /* window of events to keep */
  uint64_t wn;
  uint64_t w[4096][4];
} rec_t;
enum { CH = 1 << 12 };

static int on, pin;
static rec_t* R;
static uint64_t h, n, tot;
static uint64_t pincnt;

static inline void ev(uint64_t kind, uint64_t a, uint64_t b, uint64_t pc) {
  uint64_t x = a * 0x9e3779b97f4a7c15ull + kind * 0xd6e8feb86659fd93ull + b * 0xa0761d6478bd642full + pc * 0xe7037ed1a0b428dbull;
  h = (h ^ x) * 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  ++n;
  if (R->whi && tot >= R->wlo && tot < R->whi && R->wn < 4096) {
    uint64_t* w = R->w[R->wn++];
    w[0] = kind, w[1] = a, w[2] = b, w[3] = pc;
  }
  if (++tot % CH == 0 && tot / CH <= MAXCHUNK)
    R->chunk[R->nchunk++] = h;
}
static void seg(void) {
  if (on && R->nseg < MAXSEG) {
    R->n[R->nseg] = n, R->h[R->nseg++] = h;
    n = 0;
  }
}
#define PC ((uint64_t)__builtin_return_address(0))
#define EV(k, a, b) do { if (on) ev(k, (uint64_t)(a), b, PC); } while (0)

#define RW(sz) \
  void __tsan_read##sz(void* p) { EV(1, p, sz); } \
  void __tsan_write##sz(void* p) { EV(2, p, sz); } \
  void __tsan_unaligned_read##sz(void* p) { EV(1, p, sz); } \
  void __tsan_unaligned_write##sz(void* p) { EV(2, p, sz); } \
  void __tsan_volatile_read##sz(void* p) { EV(1, p, sz); } \
  void __tsan_volatile_write##sz(void* p) { EV(2, p, sz); } \
  void __tsan_unaligned_volatile_read##sz(void* p) { EV(1, p, sz); } \
  void __tsan_unaligned_volatile_write##sz(void* p) { EV(2, p, sz); } \
  void __tsan_read_write##sz(void* p) { EV(2, p, sz); } \
  void __tsan_unaligned_read_write##sz(void* p) { EV(2, p, sz); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long s) { EV(1, p, s); }
void __tsan_write_range(void* p, unsigned long s) { EV(2, p, s); }
void __tsan_func_entry(void* pc) { EV(3, 0, 0); }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_vptr_update(void** a, void* b) {}
void __tsan_vptr_read(void** a) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __sanitizer_cov_trace_pc(void) { EV(4, 0, 0); }
void __sanitizer_cov_trace_gep(uintptr_t i) { EV(5, i, 0); }

void* __tsan_memcpy(void* d, const void* s, unsigned long k) { EV(6, d, k); EV(6, s, k); return memcpy(d, s, k); }
void* __tsan_memmove(void* d, const void* s, unsigned long k) { EV(6, d, k); EV(6, s, k); return memmove(d, s, k); }
void* __tsan_memset(void* d, int v, unsigned long k) { EV(6, d, k); return memset(d, v, k); }

void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t k) { EV(6, d, k); EV(6, s, k); return __real_memcpy(d, s, k); }
void* __wrap_memmove(void* d, const void* s, size_t k) { EV(6, d, k); EV(6, s, k); return __real_memmove(d, s, k); }
void* __wrap_memset(void* d, int v, size_t k) { EV(6, d, k); return __real_memset(d, v, k); }
/* the library's comparisons stop where the data differ */
static size_t common(const uint8_t* a, const uint8_t* b, size_t k, int str) {
  size_t i = 0;
  while (i < k && a[i] == b[i] && !(str && !a[i]))
    ++i;
  return i;
}
int __wrap_memcmp(const void* a, const void* b, size_t k) { EV(7, a, k); EV(7, b, common(a, b, k, 0)); return __real_memcmp(a, b, k); }
int __wrap_bcmp(const void* a, const void* b, size_t k) { EV(7, a, k); EV(7, b, common(a, b, k, 0)); return __real_memcmp(a, b, k); }
int __real_strncmp(const char*, const char*, size_t);
int __wrap_strncmp(const char* a, const char* b, size_t k) { EV(7, a, k); EV(7, b, common((const uint8_t*)a, (const uint8_t*)b, k, 1)); return __real_strncmp(a, b, k); }
int __real_strcmp(const char*, const char*);
int __wrap_strcmp(const char* a, const char* b) { EV(7, a, 0); EV(7, b, common((const uint8_t*)a, (const uint8_t*)b, (size_t)-1, 1)); return __real_strcmp(a, b); }
void* __real_memchr(const void*, int, size_t);
void* __wrap_memchr(const void* a, int c, size_t k) { void* r = __real_memchr(a, c, k); EV(7, a, k); EV(7, r, 0); return r; }

/* public hash outputs */
static void fill(uint8_t* p, size_t len, uint64_t tag) {
  uint64_t x = tag * 0x9e3779b97f4a7c15ull + pin * 0xd6e8feb86659fd93ull;
  for (size_t i = 0; i < len; ++i) {
    x ^= x << 13, x ^= x >> 7, x ^= x << 17;
    p[i] = x >> 24;
  }
}
void __real_H1_final(H1_context_t*, uint8_t*, size_t);
void __real_H2_final(H2_context_t*, uint8_t*, size_t);
void __real_H3_final(H3_context_t*, uint8_t*, size_t, uint8_t*);
void __wrap_H1_final(H1_context_t* c, uint8_t* d, size_t l) {
  __real_H1_final(c, d, l);
  if (on) seg();
  if (on && pin) fill(d, l, 1000 + pincnt++), R->pins |= 1;
}
void __wrap_H2_final(H2_context_t* c, uint8_t* d, size_t l) {
  __real_H2_final(c, d, l);
  if (on) seg();
  if (on && pin) fill(d, l, 2000 + pincnt++), R->pins |= 2;
}
void __wrap_H3_final(H3_context_t* c, uint8_t* d, size_t l, uint8_t* iv) {
  __real_H3_final(c, d, l, iv);
  if (on) seg();
  if (on && pin) fill(iv, 16, 3000 + pincnt++), R->pins |= 4;
}

typedef int (*f2)(const void*, const void*);
typedef _Bool (*fo)(const void*, const void*, void*);
typedef int (*fs)(const void*, const void*, size_t, const void*, size_t, void*, size_t*);

uint8_t lk_a[1 << 19], lk_b[1 << 16], lk_msg[1 << 16], lk_rho[256], lk_out[1 << 21];
static size_t drawn;
/* the random source: the prepared bytes */
int rand_bytes(uint8_t* d, size_t k) {
  __real_memcpy(d, lk_b + drawn, k);
  drawn += k;
  return 0;
}

static rec_t* recs;
static int nrecs;

int lk_alloc(int k) {
  recs   = mmap(NULL, (size_t)k * sizeof(rec_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  nrecs  = k;
  return recs != MAP_FAILED;
}
rec_t* lk_rec(int i) { return recs + i; }
size_t lk_sizeof(void) { return sizeof(rec_t); }

/* argument of a component: value, or offset into one of the areas (1 secret, 2 public, 3 output) */
static uint64_t argtag[12], argval[12];
void lk_args(const uint64_t* tag, const uint64_t* val) { memcpy(argtag, tag, sizeof argtag); memcpy(argval, val, sizeof argval); }
static uint64_t argof(int i) {
  return argtag[i] == 1 ? (uint64_t)(lk_a + argval[i]) : argtag[i] == 2 ? (uint64_t)(lk_b + argval[i]) : argtag[i] == 3 ? (uint64_t)(lk_out + argval[i]) : argval[i];
}
typedef uint64_t (*fg)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t);

/* kind 0: owf(a, b); 1: validate(pk = a, sk = b); 2: sign(sk = a); 3: keygen with random bytes b; 4: any function; inputs of run i at stride i*st.
   Runs in forked children, several at a time, all starting from the same process state. */
int lk_run(int kind, void* fn, const uint8_t* as, size_t la, const uint8_t* bs, size_t lb, size_t mlen, size_t rlen,
           int pinv, int runs, int par, uint64_t wlo, uint64_t whi) {
  int live = 0;
  for (int i = 0; i < runs; ++i) {
    R = recs + i;
    if (live == par) {
      wait(NULL);
      --live;
    }
    pid_t p = fork();
    if (p < 0)
      return -1;
    if (p == 0) {
      alarm(600);
      __real_memcpy(lk_a, as + i * la, la);
      __real_memcpy(lk_b, bs + i * lb, lb);
      h = n = tot = pincnt = 0;
      R->nseg = R->nchunk = R->pins = R->wn = R->done = 0;
      R->wlo = wlo, R->whi = whi;
      pin = pinv;
      size_t sl = sizeof(lk_out);
      on = 1;
      if (kind == 0)
        R->rc = ((fo)fn)(lk_a, lk_b, lk_out);
      else if (kind == 1)
        R->rc = (uint64_t)(int64_t)((f2)fn)(lk_a, lk_b);
      else if (kind == 4)
        (void)((fg)fn)(argof(0), argof(1), argof(2), argof(3), argof(4), argof(5), argof(6), argof(7), argof(8), argof(9), argof(10), argof(11));
      else if (kind == 3)
        R->rc = (uint64_t)(int64_t)((f2)fn)(lk_out, lk_out + 4096);
      else
        R->rc = (uint64_t)(int64_t)((fs)fn)(lk_a, lk_msg, mlen, lk_rho, rlen, lk_out, &sl);
      seg();
      on = 0;
      R->total = tot;
      R->done = 1;
      _exit(0);
    }
    ++live;
  }
  while (live--)
    wait(NULL);
  return 0;
}

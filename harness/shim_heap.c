/* Ledger of what library code takes and gives back during a call (linked with --wrap). */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include <fcntl.h>
#include <errno.h>

enum { MAXEV = 1 << 17, HASH = 1 << 18 };
enum { TAKE = 1, GIVE, CHURN, FOREIGN, FD };
enum { HEAP = 1, CIPHER, DIGEST };
typedef struct { uint64_t what, id, size, kind; } ev_t;
static ev_t evs[MAXEV];
static size_t nev;
static int on, overflow;
static uint64_t ids, cur, peak;
static struct { void* p; uint64_t id, size, kind; } tab[HASH];

static size_t slot(void* p) {
  size_t i = ((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull >> 46;
  while (tab[i & (HASH - 1)].p && tab[i & (HASH - 1)].p != p)
    ++i;
  return i & (HASH - 1);
}
static void drop(size_t i) {      /* linear probing: move later entries up */
  size_t j = i;
  for (;;) {
    tab[i].p = NULL;
    size_t k;
    do {
      j = (j + 1) & (HASH - 1);
      if (!tab[j].p)
        return;
      k = (((uintptr_t)tab[j].p >> 4) * 0x9e3779b97f4a7c15ull >> 46) & (HASH - 1);
    } while (i <= j ? (i < k && k <= j) : (i < k || k <= j));
    tab[i] = tab[j];
    i = j;
  }
}
static ev_t* put(uint64_t what, uint64_t id, uint64_t size, uint64_t kind) {
  if (nev == MAXEV) {
    overflow = 1;
    return evs;
  }
  evs[nev] = (ev_t){what, id, size, kind};
  return evs + nev++;
}
static void take(void* p, size_t size, uint64_t kind) {
  if (!on || !p)
    return;
  size_t i = slot(p);
  tab[i].p = p, tab[i].id = ++ids, tab[i].size = size, tab[i].kind = kind;
  cur += size;
  if (cur > peak)
    peak = cur;
  put(TAKE, ids, size, kind);
}
/* returns 1 if the block was taken by this call */
static int give(void* p, uint64_t kind) {
  if (!on || !p)
    return 1;
  size_t i = slot(p);
  if (!tab[i].p) {
    put(FOREIGN, 0, 0, kind);
    return 0;
  }
  cur -= tab[i].size;
  ev_t* l = nev ? evs + nev - 1 : NULL;
  if (l && l->what == TAKE && l->id == tab[i].id && kind == tab[i].kind) {
    l->what = CHURN, l->id = 1;
    if (nev > 1 && evs[nev - 2].what == CHURN && evs[nev - 2].size == l->size && evs[nev - 2].kind == kind) {
      ++evs[nev - 2].id;
      --nev;
    }
  } else
    put(GIVE, tab[i].id, 0, kind);
  drop(i);
  return 1;
}
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
void* __real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void**, size_t, size_t);
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); take(p, n, HEAP); return p; }
void* __wrap_calloc(size_t n, size_t m) { void* p = __real_calloc(n, m); take(p, n * m, HEAP); return p; }
void* __wrap_aligned_alloc(size_t a, size_t n) { void* p = __real_aligned_alloc(a, n); take(p, n, HEAP); return p; }
int __wrap_posix_memalign(void** q, size_t a, size_t n) { int r = __real_posix_memalign(q, a, n); if (!r) take(*q, n, HEAP); return r; }
void __wrap_free(void* p) { if (give(p, HEAP)) __real_free(p); }
void* __wrap_realloc(void* p, size_t n) {
  if (p && !give(p, HEAP))
    return NULL;
  void* q = __real_realloc(p, n);
  take(q, n, HEAP);
  return q;
}
#ifdef HAVE_OPENSSL
void* __real_EVP_CIPHER_CTX_new(void);
void __real_EVP_CIPHER_CTX_free(void*);
void* __real_EVP_MD_CTX_new(void);
void __real_EVP_MD_CTX_free(void*);
void* __wrap_EVP_CIPHER_CTX_new(void) { void* p = __real_EVP_CIPHER_CTX_new(); take(p, 0, CIPHER); return p; }
void __wrap_EVP_CIPHER_CTX_free(void* p) { if (give(p, CIPHER)) __real_EVP_CIPHER_CTX_free(p); }
void* __wrap_EVP_MD_CTX_new(void) { void* p = __real_EVP_MD_CTX_new(); take(p, 0, DIGEST); return p; }
void __wrap_EVP_MD_CTX_free(void* p) { if (give(p, DIGEST)) __real_EVP_MD_CTX_free(p); }
#endif

static uint64_t held(void) {
  struct mallinfo2 m = mallinfo2();
  return m.uordblks + m.hblkhd;
}
static int fds(void) {
  int n = 0, e = errno;
  for (int i = 0; i < 256; ++i)
    n += fcntl(i, F_GETFD) != -1;
  errno = e;
  return n;
}
typedef uint64_t (*fg)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t);
/* one call with the ledger open, and reps more without; inf: what the process holds after each of these */
uint64_t hp_call(fg f, const uint64_t* a, int reps, uint64_t* inf, int64_t* fdd) {
  memset(tab, 0, sizeof tab);
  nev = ids = cur = peak = overflow = 0;
  int n0 = fds();
  on = 1;
  uint64_t r = f(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
  on = 0;
  *fdd = fds() - n0;
  for (int i = 0; i < reps; ++i) {
    f(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
    inf[i] = held();
  }
  return r;
}
size_t hp_events(const ev_t** e) { *e = evs; return overflow ? (size_t)-1 : nev; }
uint64_t hp_peak(void) { return peak; }

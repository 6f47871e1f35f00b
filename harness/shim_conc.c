/* Calls by several threads: interleaved at chosen program points (library compiled with -fsanitize=thread and
   -fsanitize-coverage=trace-pc, whose callbacks are here), with a record of what memory a call uses besides its own; or at full speed. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/types.h>

enum { MAXT = 32, OUT = 1 << 18, STACK = 16 << 20 };
static const uint64_t ARENA = 1ull << 31;
typedef uint64_t (*fg)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t);
typedef struct {
  uint64_t fn, a[8], own;       /* own: bit i set: argument i is an offset into the caller's output area */
  uint64_t olen, seed;
  uint64_t initat, init;        /* a length variable in the output area (initat < 0: none) */
  uint64_t isvoid;
} job_t;
typedef struct { uint64_t rc, hash, t, job, start, end; } res_t;
typedef struct { uint64_t pc, where, what, sync, addr, size; } acc_t;   /* where: 1 library data, 2 shared input, 3 another's output or block, 4 elsewhere */
typedef struct { uint64_t pc, first, last, n; } pt_t;

typedef struct {
  uint64_t n, stop;
  int active, foot, prof, heap, id, locks, done;
  uint8_t *stack, *arena, *out;
  size_t used;
  sem_t go;
  const job_t* job;
  res_t res;
  uint64_t rng;
} th_t;
static th_t th[MAXT];
static __thread th_t* me __attribute__((tls_model("initial-exec")));
static sem_t back;
static uint64_t lib_lo[4], lib_hi[4], in_lo, in_hi;
static int nlib;
static acc_t acc[4096];
static int nacc;
static pt_t pts[1 << 16];

/* ---- observation */
static void touched(void* p, uint64_t size, int w, int sync, uint64_t pc) {
  th_t* m = me;
  uint64_t a = (uint64_t)p;
  if (a - (uint64_t)m->stack < STACK || a - (uint64_t)m->arena < ARENA || a - (uint64_t)m->out < OUT)
    return;
  uint64_t where = 0;
  for (int i = 0; i < nlib; ++i)
    if (a >= lib_lo[i] && a < lib_hi[i])
      where = 1;
  if (!where && a >= in_lo && a < in_hi)
    where = 2;
  for (int i = 0; i < MAXT && !where; ++i)
    if (th[i].out && (a - (uint64_t)th[i].out < OUT || a - (uint64_t)th[i].arena < ARENA || a - (uint64_t)th[i].stack < STACK))
      where = 3;
  if (!where) {
    if (!w)
      return;
    where = 4;
  }
  if (where == 2 && !w)
    return;
  sync |= m->locks > 0;
  for (int i = 0; i < nacc; ++i)
    if (acc[i].pc == pc && acc[i].where == where && acc[i].what == (uint64_t)w)
      return;
  if (nacc < 4096)
    acc[nacc++] = (acc_t){pc, where, w, sync, a, size};
}
static void pass(th_t* m) {
  sem_post(&back);
  while (sem_wait(&m->go))
    ;
}
static inline void point(uint64_t pc) {
  th_t* m = me;
  if (!m || !m->active)
    return;
  uint64_t n = ++m->n;
  if (m->prof) {
    size_t i = (pc * 0x9e3779b97f4a7c15ull) >> 48;
    while (pts[i].pc && pts[i].pc != pc)
      i = (i + 1) & 0xffff;
    if (!pts[i].pc)
      pts[i].pc = pc, pts[i].first = n;
    pts[i].last = n;
    ++pts[i].n;
  }
  if (n == m->stop) {
    m->active = 0;
    pass(m);
    m->active = 1;
  }
}
#define PC ((uint64_t)__builtin_return_address(0))
#define FT(p, s, w, y) do { if (me && me->active && me->foot) touched((void*)(p), s, w, y, PC); } while (0)
#define RW(sz) \
  void __tsan_read##sz(void* p) { FT(p, sz, 0, 0); } \
  void __tsan_write##sz(void* p) { FT(p, sz, 1, 0); } \
  void __tsan_unaligned_read##sz(void* p) { FT(p, sz, 0, 0); } \
  void __tsan_unaligned_write##sz(void* p) { FT(p, sz, 1, 0); } \
  void __tsan_volatile_read##sz(void* p) { FT(p, sz, 0, 0); } \
  void __tsan_volatile_write##sz(void* p) { FT(p, sz, 1, 0); } \
  void __tsan_unaligned_volatile_read##sz(void* p) { FT(p, sz, 0, 0); } \
  void __tsan_unaligned_volatile_write##sz(void* p) { FT(p, sz, 1, 0); } \
  void __tsan_read_write##sz(void* p) { FT(p, sz, 1, 0); } \
  void __tsan_unaligned_read_write##sz(void* p) { FT(p, sz, 1, 0); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long s) { FT(p, s, 0, 0); }
void __tsan_write_range(void* p, unsigned long s) { FT(p, s, 1, 0); }
void __tsan_func_entry(void* pc) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_vptr_update(void** a, void* b) {}
void __tsan_vptr_read(void** a) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __sanitizer_cov_trace_pc(void) { point(PC); }
void* __tsan_memcpy(void* d, const void* s, unsigned long k) { FT(d, k, 1, 0); FT(s, k, 0, 0); return memcpy(d, s, k); }
void* __tsan_memmove(void* d, const void* s, unsigned long k) { FT(d, k, 1, 0); FT(s, k, 0, 0); return memmove(d, s, k); }
void* __tsan_memset(void* d, int v, unsigned long k) { FT(d, k, 1, 0); return memset(d, v, k); }
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T* p, int o) { FT(p, b / 8, 0, 1); return __atomic_load_n(p, 5); } \
  void __tsan_atomic##b##_store(volatile T* p, T v, int o) { FT(p, b / 8, 1, 1); __atomic_store_n(p, v, 5); } \
  T __tsan_atomic##b##_exchange(volatile T* p, T v, int o) { FT(p, b / 8, 1, 1); return __atomic_exchange_n(p, v, 5); } \
  T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int o) { FT(p, b / 8, 1, 1); return __atomic_fetch_add(p, v, 5); } \
  T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int o) { FT(p, b / 8, 1, 1); return __atomic_fetch_sub(p, v, 5); } \
  T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int o) { FT(p, b / 8, 1, 1); return __atomic_fetch_and(p, v, 5); } \
  T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int o) { FT(p, b / 8, 1, 1); return __atomic_fetch_or(p, v, 5); } \
  T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int o) { FT(p, b / 8, 1, 1); return __atomic_fetch_xor(p, v, 5); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* c, T v, int o, int f) { FT(p, b / 8, 1, 1); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* c, T v, int o, int f) { FT(p, b / 8, 1, 1); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T c, T v, int o, int f) { FT(p, b / 8, 1, 1); __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int o) {}

/* what the library asks the C library for */
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t k) { FT(d, k, 1, 0); FT(s, k, 0, 0); return __real_memcpy(d, s, k); }
void* __wrap_memmove(void* d, const void* s, size_t k) { FT(d, k, 1, 0); FT(s, k, 0, 0); return __real_memmove(d, s, k); }
void* __wrap_memset(void* d, int v, size_t k) { FT(d, k, 1, 0); return __real_memset(d, v, k); }
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
void* __real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void**, size_t, size_t);
static void* bump(size_t al, size_t n) {
  size_t at = (me->used + al + 63) & ~(al > 64 ? al - 1 : 63);
  if (n > ARENA || at + n + 64 > ARENA)
    return NULL;
  *(size_t*)(me->arena + at - 8) = n;
  me->used = at + n;
  return me->arena + at;
}
#define MINE (me && me->active && me->heap)
void* __wrap_malloc(size_t n) { return MINE ? bump(64, n) : __real_malloc(n); }
void* __wrap_calloc(size_t n, size_t m) { return MINE ? bump(64, n * m) : __real_calloc(n, m); }
void* __wrap_aligned_alloc(size_t a, size_t n) { return MINE ? bump(a, n) : __real_aligned_alloc(a, n); }
int __wrap_posix_memalign(void** q, size_t a, size_t n) { return MINE ? (*q = bump(a, n)) ? 0 : 12 : __real_posix_memalign(q, a, n); }
void __wrap_free(void* p) { if (!(MINE && (uint64_t)p - (uint64_t)me->arena < ARENA)) __real_free(p); }
void* __wrap_realloc(void* p, size_t n) {
  if (!(MINE && (!p || (uint64_t)p - (uint64_t)me->arena < ARENA)))
    return __real_realloc(p, n);
  void* q = bump(64, n);
  if (p && q) {
    size_t k = ((size_t*)p)[-1];
    __real_memcpy(q, p, k < n ? k : n);
  }
  return q;
}
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_once(pthread_once_t*, void (*)(void));
/* the holder of a lock may be suspended: let it go on */
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (me && me->active) {
    while (__real_pthread_mutex_trylock(m)) {
      me->active = 0, me->locks |= 1 << 20;
      pass(me);
      me->active = 1, me->locks &= ~(1 << 20);
    }
    ++me->locks;
    return 0;
  }
  return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { int r = __real_pthread_mutex_trylock(m); if (!r && me) ++me->locks; return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (me) --me->locks; return __real_pthread_mutex_unlock(m); }
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void)) {
  int a = me ? me->active : 0;
  uint64_t s = me ? me->stop : 0;
  if (me) ++me->locks, me->stop = 0;    /* not suspended within */
  int r = __real_pthread_once(o, f);
  if (me) --me->locks, me->stop = s > me->n ? s : s ? me->n + 1 : 0;
  (void)a;
  return r;
}
/* randomness: a stream per call */
static __thread uint64_t plain_rng __attribute__((tls_model("initial-exec")));
ssize_t __wrap_getrandom(void* d, size_t n, unsigned fl) {
  uint64_t* s = me ? &me->rng : &plain_rng;
  for (size_t i = 0; i < n; ++i) {
    *s ^= *s << 13, *s ^= *s >> 7, *s ^= *s << 17;
    ((uint8_t*)d)[i] = *s >> 24;
  }
  return n;
}

/* ---- running */
static uint64_t digest(const uint8_t* p, size_t n) {
  uint64_t h = 0xcbf29ce484222325ull;
  for (size_t i = 0; i < n; ++i) {
    h = (h ^ p[i]) * 0xff51afd7ed558ccdull;
    h ^= h >> 29;
  }
  return h;
}
static uint64_t go(th_t* m, const job_t* j) {
  uint64_t a[8];
  for (int i = 0; i < 8; ++i)
    a[i] = j->own >> i & 1 ? (uint64_t)m->out + j->a[i] : j->a[i];
  __real_memset(m->out, 0xa5, j->olen);
  if (~j->initat)
    __real_memcpy(m->out + j->initat, &j->init, 8);
  m->rng = j->seed * 0x9e3779b97f4a7c15ull + 77;
  m->n = 0;
  m->active = m->stop || m->prof || m->foot;
  uint64_t rc = ((fg)j->fn)(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
  m->active = 0;
  return j->isvoid ? 0 : (uint64_t)(int64_t)(int32_t)rc;
}
static void* body(void* x) {
  th_t* m = me = x;
  while (sem_wait(&m->go))
    ;
  m->res.rc   = go(m, m->job);
  m->res.hash = digest(m->out, m->job->olen);
  m->done     = 1;
  sem_post(&back);
  return NULL;
}
static int phdr(struct dl_phdr_info* i, size_t sz, void* x) {
  int mine = 0;
  for (int k = 0; k < i->dlpi_phnum; ++k) {
    uint64_t lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, hi = lo + i->dlpi_phdr[k].p_memsz;
    mine |= i->dlpi_phdr[k].p_type == PT_LOAD && (uint64_t)&phdr >= lo && (uint64_t)&phdr < hi;
  }
  for (int k = 0; mine && k < i->dlpi_phnum && nlib < 4; ++k)
    if (i->dlpi_phdr[k].p_type == PT_LOAD && i->dlpi_phdr[k].p_flags & PF_W)
      lib_lo[nlib] = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, lib_hi[nlib] = lib_lo[nlib] + i->dlpi_phdr[k].p_memsz, ++nlib;
  return mine;
}
int cc_init(void* lo, size_t n) {
  in_lo = (uint64_t)lo, in_hi = in_lo + n;
  dl_iterate_phdr(phdr, NULL);
  sem_init(&back, 0, 0);
  for (int i = 0; i < MAXT; ++i) {
    th[i].id    = i;
    th[i].stack = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    th[i].arena = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    th[i].out   = mmap(NULL, OUT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (th[i].stack == MAP_FAILED || th[i].arena == MAP_FAILED || th[i].out == MAP_FAILED)
      return 0;
    sem_init(&th[i].go, 0, 0);
  }
  return nlib > 0;
}
/* one segment after another: segment k lets thread who[k] run until its event at[k] (~0: to its end).  ran[k]: 1 ran, 0 had finished already */
int cc_steps(const job_t* jobs, int n, const int* who, const uint64_t* at, int nseg, int foot, int prof, res_t* res, uint8_t* ran) {
  pthread_t p[MAXT];
  nacc = 0;
  if (prof)
    __real_memset(pts, 0, sizeof pts);
  for (int i = 0; i < n; ++i) {
    th[i].job  = jobs + i;
    th[i].foot = foot, th[i].prof = prof, th[i].heap = foot, th[i].done = th[i].locks = 0, th[i].stop = ~0ull;
    if (foot) {
      madvise(th[i].arena, th[i].used + 64, MADV_DONTNEED);
      th[i].used = 0;
    }
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, th[i].stack, STACK);
    if (pthread_create(p + i, &a, body, th + i))
      return -1;
    pthread_attr_destroy(&a);
  }
  int left = n;
  for (int k = 0; k < nseg + 64 * n && left; ++k) {
    int t = k < nseg ? who[k] : k % n;
    if (ran && k < nseg)
      ran[k] = !th[t].done;
    if (th[t].done)
      continue;
    th[t].stop = k < nseg ? at[k] : ~0ull;
    sem_post(&th[t].go);
    while (sem_wait(&back))
      ;
    left -= th[t].done;
  }
  if (left)
    return -2;
  for (int i = 0; i < n; ++i) {
    pthread_join(p[i], NULL);
    res[i] = th[i].res;
  }
  return 0;
}
uint64_t cc_events(int t) { return th[t].n; }
int cc_acc(const acc_t** a) { *a = acc; return nacc; }
const pt_t* cc_points(void) { return pts; }

/* at full speed: thread t carries out jobs pick[t * per ...] */
static const job_t* fjobs;
static const int* fpick;
static int fper;
static res_t* fres;
static uint64_t stamp;
static pthread_barrier_t bar;
static void* fbody(void* x) {
  th_t* m = me = x;
  m->stop = 0, m->foot = m->prof = m->heap = 0;
  pthread_barrier_wait(&bar);
  for (int i = 0; i < fper; ++i) {
    res_t* r   = fres + m->id * fper + i;
    int j      = fpick[m->id * fper + i];
    r->t       = m->id, r->job = j;
    r->start   = __atomic_add_fetch(&stamp, 1, __ATOMIC_SEQ_CST);
    r->rc      = go(m, fjobs + j);
    r->end     = __atomic_add_fetch(&stamp, 1, __ATOMIC_SEQ_CST);
    r->hash    = digest(m->out, fjobs[j].olen);
  }
  return NULL;
}
int cc_free(const job_t* jobs, const int* pick, int nth, int per, res_t* res) {
  pthread_t p[MAXT];
  fjobs = jobs, fpick = pick, fper = per, fres = res, stamp = 0;
  pthread_barrier_init(&bar, NULL, nth);
  for (int i = 0; i < nth; ++i)
    if (pthread_create(p + i, NULL, fbody, th + i))
      return -1;
  for (int i = 0; i < nth; ++i)
    pthread_join(p[i], NULL);
  return 0;
}
const uint8_t* cc_out(int t) { return th[t].out; }

/* The operating system's random facilities under control of the driver: a script of outcomes, a log of calls. */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <string.h>
#include <errno.h>
#include <sys/types.h>

enum { OPEN, IOCTL, READ, CLOSE, GETRANDOM, STATUS, FILL };
enum { OK, EINTR_, EAGAIN_, FAIL, EOF_ };
typedef struct { int call, out, n; } entry;      /* n: bytes delivered at most; -1: everything asked for */
typedef struct { int call, out, n, fd; } rec;
static entry script[8192];
static rec log_[16384];
static int ns, ps, nl, nextfd, outside;
static uint8_t stream[1 << 17];
static size_t sp;
static uint8_t *lo, *hi;

void hx_set(const int* s, int n, uint32_t seed, uint8_t* dst, size_t len) {
  memcpy(script, s, sizeof(entry) * n);
  ns = n; ps = nl = outside = 0; nextfd = 700 + seed % 50;
  for (size_t i = 0; i < sizeof stream; ++i) { seed = seed * 1664525u + 1013904223u; stream[i] = seed >> 24; }
  sp = 0; lo = dst; hi = dst + len;
}
int hx_log(rec* r) { memcpy(r, log_, sizeof(rec) * nl); return nl; }
size_t hx_stream(uint8_t* d) { memcpy(d, stream, sp); return sp; }

/* next outcome for this call; when the script does not foresee it: success (the recording shows it) */
static entry next(int call) {
  while (ps < ns && script[ps].call != call && (script[ps].call == IOCTL || script[ps].call == CLOSE)) ++ps;
  if (ps < ns && script[ps].call == call) return script[ps++];
  if (nl > 16000) return (entry){call, FAIL, 0};
  return (entry){call, OK, -1};
}
static void put(int call, int out, int n, int fd) { if (nl < 16384) log_[nl++] = (rec){call, out, n, fd}; }
static int deliver(uint8_t* d, size_t asked, int n) {
  size_t k = n < 0 || (size_t)n > asked ? asked : (size_t)n;
  if (sp + k > sizeof stream) k = sizeof stream - sp;
  memcpy(d, stream + sp, k);
  sp += k;
  return (int)k;
}
static int fail(int call, int out, int fd) {
  put(call, out, 0, fd);
  errno = out == EINTR_ ? EINTR : out == EAGAIN_ ? EAGAIN : EIO;
  return -1;
}
int open(const char* path, int flags, ...) {
  entry e = next(OPEN);
  if (e.out != OK) return fail(OPEN, e.out, -1);
  if (strcmp(path, "/dev/urandom") && strcmp(path, "/dev/random")) { put(OPEN, FAIL, 0, -1); errno = ENOENT; return -1; }
  put(OPEN, OK, 0, ++nextfd);
  return nextfd;
}
int open64(const char* path, int flags, ...) { return open(path, flags, 0); }
int openat(int d, const char* path, int flags, ...) { return open(path, flags, 0); }
int fcntl(int fd, int cmd, ...) { return 0; }
int ioctl(int fd, unsigned long req, ...) {
  entry e = next(IOCTL);
  if (e.out != OK) return fail(IOCTL, e.out, fd);
  put(IOCTL, OK, 0, fd);
  va_list a;
  va_start(a, req);
  int* p = va_arg(a, int*);
  va_end(a);
  *p = 256;
  return 0;
}
ssize_t read(int fd, void* buf, size_t n) {
  entry e = next(READ);
  if (e.out == EOF_) { put(READ, EOF_, 0, fd); return 0; }
  if (e.out != OK) return fail(READ, e.out, fd);
  int k = deliver(buf, n, e.n);
  put(READ, OK, k, fd);
  return k;
}
int close(int fd) {
  next(CLOSE);
  put(CLOSE, OK, 0, fd);
  return 0;
}
ssize_t getrandom(void* buf, size_t n, unsigned flags) {
  entry e = next(GETRANDOM);
  if (e.out != OK) return fail(GETRANDOM, e.out, -1);
  int k = deliver(buf, n, e.n);
  put(GETRANDOM, OK, k, -1);
  return k;
}
int getentropy(void* buf, size_t n) {
  if (n > 256) return fail(GETRANDOM, FAIL, -1);
  entry e = next(GETRANDOM);
  if (e.out != OK || (e.n >= 0 && (size_t)e.n < n)) return fail(GETRANDOM, FAIL, -1);
  put(GETRANDOM, OK, deliver(buf, n, -1), -1);
  return 0;
}
static void fill(void* buf, size_t n) { next(FILL); put(FILL, OK, deliver(buf, n, -1), -1); }
void arc4random_buf(void* buf, size_t n) { fill(buf, n); }
#ifdef RANDOMBYTES_SIZE
void randombytes(uint8_t* x, size_t n) { fill(x, n); }
#else
void randombytes(unsigned char* x, unsigned long long n) { fill(x, n); }
#endif
void OQS_randombytes(uint8_t* x, size_t n) { fill(x, n); }
int SecRandomCopyBytes(void* r, size_t n, void* x) {
  entry e = next(STATUS);
  if (e.out != OK) return fail(STATUS, FAIL, -1);
  put(STATUS, OK, deliver(x, n, -1), -1);
  return 0;
}
long BCryptGenRandom(void* h, unsigned char* x, unsigned long n, unsigned long flags) {
  entry e = next(STATUS);
  if (e.out != OK) { fail(STATUS, FAIL, -1); return (long)(int)0xC0000008; }
  put(STATUS, OK, deliver(x, n, -1), -1);
  return e.n & 1 ? 0 : 1;       /* other successes are successes, too */
}

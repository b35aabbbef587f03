// Controlled scheduler and fault injector, preloaded into the program under test.
//
// * One thread runs at a time. Scheduling points: thread creation and join, futex, file and
//   stream calls, yields, and, in programs compiled with thread sanitizer instrumentation (whose
//   callbacks are defined below), atomics (mode 1) or every memory access (mode 2).
// * A point is recorded when another thread could run. MC_SCHED="i:t,..." makes point i switch to t;
//   otherwise the running thread continues, or the lowest thread able to run takes over.
// * MC_FAULT="n:action,..." applies an action to the n-th recorded input/output call.
// * Everything is recorded in the file named by MC_LOG (shared mapping, survives a kill).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>

#define MAXT 256
#define MAXP (1 << 20)
#define MAXIO 16384

typedef struct { uint8_t cur, forced, pad[2]; uint32_t mask; } Pt;
typedef struct { char kind; uint8_t tid, pad[2]; int32_t fd; int64_t len, ret; char name[40]; } Io;
typedef struct {
  uint32_t magic, npoints, nio, status, nthreads, forcedsw, preempt, overflow;
  Pt pt[MAXP];
  Io io[MAXIO];
} Log;

static Log *L;
static int mode = -1; // -1 off, 0 calls only, 1 + atomics, 2 + memory accesses
static long maxread, maxwrite;
static struct { uint32_t i; int t; } dev[64];
static int ndev;
static struct { uint32_t n; char act[24]; long arg; int used; char kind; char name[40]; } flt[16];
static int nflt;
static char scratch[256];
static char fdname[1024][40];

enum { UNUSED, RUN, FUTEX_B, JOIN_B, DONE };
static struct { int st; void *addr; int join; pthread_t pt; int sem; int timed, woken; } T[MAXT];
static int nT = 1, cur = 0;
static __thread int me = -1;
static uint64_t streak;

static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
#define raw(n, a, b, c) raw6(n, (long)(a), (long)(b), (long)(c), 0, 0, 0)
static long ret(long r) {
  if (r < 0 && r > -4096) {
    errno = -r;
    return -1;
  }
  return r;
}
static void die(int status) {
  if (L) L->status = status;
  raw(SYS_exit_group, 97, 0, 0);
  __builtin_unreachable();
}

static void parse_sched(const char *s) {
  while (s && *s && ndev < 64) {
    char *e;
    dev[ndev].i = strtoul(s, &e, 10);
    if (*e != ':') break;
    dev[ndev].t = strtol(e + 1, &e, 10);
    ndev++;
    s = *e == ',' ? e + 1 : e;
  }
}
static void parse_fault(const char *s) {
  while (s && *s && nflt < 16) {
    char *e;
    flt[nflt].n = strtoul(s, &e, 10);
    if (*e != ':') break;
    s = e + 1;
    int k = 0;
    while (*s && *s != ',' && *s != '=') {
      if (k < 23) flt[nflt].act[k++] = *s;
      s++;
    }
    if (*s == '=') {
      flt[nflt].arg = strtol(s + 1, &e, 10);
      s = e;
    }
    nflt++;
    if (*s == ',') s++;
  }
}

// Serves runs of the same command: each request (a schedule, one line) is a fork of this process before main.
static void serve(void) {
  static char req[8192];
  for (;;) {
    int n = 0;
    for (;;) {
      long r = raw(SYS_read, 0, req + n, 1);
      if (r == -EINTR) continue;
      if (r <= 0 || n >= (int)sizeof req - 1) raw(SYS_exit_group, 0, 0, 0);
      if (req[n] == '\n') break;
      n++;
    }
    req[n] = 0;
    int p = fork();
    if (p == 0) {
      setenv("MC_SCHED", req, 1);
      static const struct { const char *name; int fl, to; } f[3] = {{".mc-stdin", O_RDONLY, 0}, {".mc-out", O_WRONLY | O_CREAT | O_TRUNC, 1}, {".mc-err", O_WRONLY | O_CREAT | O_TRUNC, 2}};
      for (int i = 0; i < 3; i++) {
        int fd = raw(SYS_open, f[i].name, f[i].fl, 0600);
        if (fd < 0) raw(SYS_exit_group, 98, 0, 0);
        raw(SYS_dup2, fd, f[i].to, 0);
        raw(SYS_close, fd, 0, 0);
      }
      return;
    }
    int st = -1;
    if (p > 0)
      while (raw6(SYS_wait4, p, (long)&st, 0, 0, 0, 0) == -EINTR) {}
    raw(SYS_write, 1, &st, 4);
  }
}

__attribute__((constructor)) static void init(void) {
  const char *lg = getenv("MC_LOG");
  if (!lg) return;
  if (getenv("MC_SERVE")) serve();
  int fd = raw(SYS_open, lg, O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
  if (fd < 0) return;
  raw(SYS_ftruncate, fd, sizeof(Log), 0);
  L = (Log *)raw6(SYS_mmap, 0, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  raw(SYS_close, fd, 0, 0);
  if ((long)L < 0 && (long)L > -4096) {
    L = 0;
    return;
  }
  L->magic = 0x6d63;
  const char *m = getenv("MC_MODE");
  mode = m ? atoi(m) : 0;
  parse_sched(getenv("MC_SCHED"));
  parse_fault(getenv("MC_FAULT"));
  if (getenv("MC_MAXREAD")) maxread = atol(getenv("MC_MAXREAD"));
  if (getenv("MC_MAXWRITE")) maxwrite = atol(getenv("MC_MAXWRITE"));
  if (getenv("MC_DIR")) strncpy(scratch, getenv("MC_DIR"), 255);
  strcpy(fdname[0], "<stdin>");
  strcpy(fdname[1], "<stdout>");
  strcpy(fdname[2], "<stderr>");
  if (getenv("MC_ALARM")) alarm(atoi(getenv("MC_ALARM")));
  T[0].st = RUN;
  T[0].pt = pthread_self();
  me = 0;
  L->nthreads = 1;
}

static void sem_wait_(int t) {
  while (__atomic_load_n(&T[t].sem, __ATOMIC_ACQUIRE) == 0) raw6(SYS_futex, (long)&T[t].sem, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(&T[t].sem, 0, __ATOMIC_RELEASE);
}
static void sem_post_(int t) {
  __atomic_store_n(&T[t].sem, 1, __ATOMIC_RELEASE);
  raw6(SYS_futex, (long)&T[t].sem, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
// pick the next thread; forced: the running thread cannot continue. yield: it prefers not to.
static void point(int forced, int yield) {
  int n = 0, first = -1, other = -1, next = -1;
  uint32_t m = 0; // only the first 32 threads are offered to the explorer
  for (int i = 0; i < nT; i++)
    if (T[i].st == RUN) {
      n++;
      if (i < 32) m |= 1u << i;
      if (first < 0) first = i;
      if (i != me && other < 0) other = i;
      if (i > me && next < 0) next = i;
    }
  int to = me;
  if (!forced && other < 0) return;
  if (n == 0) {
    // a timed wait ends when nothing else can run
    for (int i = 0; i < nT; i++)
      if (T[i].st == FUTEX_B && T[i].timed) {
        T[i].st = RUN;
        T[i].woken = 0;
        first = i;
        n = 1;
        break;
      }
    if (!n) die(2); // deadlock
  }
  if (forced) to = first;
  // fairness against spinning
  if (!forced && (yield || ++streak > 200000)) {
    streak = 0;
    to = next >= 0 ? next : other;
  }
  if (!forced || n > 1) {
    uint32_t i = L->npoints;
    if (i < MAXP) {
      L->pt[i].cur = to; // default choice
      L->pt[i].forced = forced || yield;
      L->pt[i].mask = m;
      L->npoints = i + 1;
    } else
      L->overflow = 1;
    for (int k = 0; k < ndev; k++)
      if (dev[k].i == i && dev[k].t < nT && T[dev[k].t].st == RUN) to = dev[k].t;
  }
  if (to != me) {
    streak = 0;
    int self = me;
    cur = to;
    sem_post_(to);
    if (T[self].st != DONE) sem_wait_(self);
  }
}
#define ON (L && me >= 0 && mode >= 0)

// ---- threads
struct start { void *(*f)(void *); void *arg; int id; };
static void *tramp(void *p) {
  struct start s = *(struct start *)p;
  free(p);
  me = s.id;
  sem_wait_(me);
  void *r = s.f(s.arg);
  int self = me;
  T[self].st = DONE;
  for (int i = 0; i < nT; i++)
    if (T[i].st == JOIN_B && T[i].join == self) T[i].st = RUN;
  point(1, 0);
  me = -1;
  return r;
}
typedef int (*create_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
  static create_t real;
  if (!real) real = (create_t)dlsym(RTLD_NEXT, "pthread_create");
  if (!ON) return real(t, a, f, arg);
  if (nT >= MAXT) die(3);
  struct start *s = malloc(sizeof *s);
  s->f = f;
  s->arg = arg;
  s->id = nT;
  memset(&T[nT], 0, sizeof T[nT]);
  int r = real(t, a, tramp, s);
  if (r) {
    free(s);
    return r;
  }
  T[nT].pt = *t;
  T[nT].st = RUN;
  nT++;
  L->nthreads = nT;
  point(0, 0);
  return 0;
}
typedef int (*join_t)(pthread_t, void **);
int pthread_join(pthread_t t, void **v) {
  static join_t real;
  if (!real) real = (join_t)dlsym(RTLD_NEXT, "pthread_join");
  if (ON)
    for (int i = nT - 1; i >= 0; i--)
      if (T[i].st != UNUSED && pthread_equal(T[i].pt, t)) {
        if (T[i].st != DONE) {
          T[me].st = JOIN_B;
          T[me].join = i;
          point(1, 0);
        } else
          point(0, 0);
        break;
      }
  return real(t, v);
}
int sched_yield(void) {
  if (ON) point(0, 1);
  return 0;
}
typedef int (*cnano_t)(clockid_t, int, const struct timespec *, struct timespec *);
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) {
  static cnano_t real;
  if (!real) real = (cnano_t)dlsym(RTLD_NEXT, "clock_nanosleep");
  if (!ON) return real(c, f, a, b);
  point(0, 1);
  return 0;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  if (!ON) return ret(raw(SYS_nanosleep, a, b, 0));
  point(0, 1);
  return 0;
}
static long fut(int *u, int op, long val, long to, long u2, long v3) {
  int c = op & 127;
  if (c == FUTEX_WAIT || c == FUTEX_WAIT_BITSET) {
    point(0, 0);
    if (__atomic_load_n(u, __ATOMIC_SEQ_CST) != (int)val) return -EAGAIN;
    T[me].st = FUTEX_B;
    T[me].addr = u;
    T[me].timed = to != 0;
    T[me].woken = 0;
    point(1, 0);
    return T[me].woken ? 0 : -ETIMEDOUT;
  }
  if (c == FUTEX_WAKE || c == FUTEX_WAKE_BITSET) {
    long n = 0;
    for (int i = 0; i < nT && n < val; i++)
      if (T[i].st == FUTEX_B && T[i].addr == u) {
        T[i].st = RUN;
        T[i].woken = 1;
        n++;
      }
    point(0, 0);
    return n;
  }
  return raw6(SYS_futex, (long)u, op, val, to, u2, v3);
}
static long rnd(unsigned char *, size_t);
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_getrandom && L) return rnd((void *)a, b);
  if (n == SYS_futex && ON) return ret(fut((int *)a, (int)b, c, d, e, f));
  return ret(raw6(n, a, b, c, d, e, f));
}

// ---- random numbers: a fixed sequence
static long rnd(unsigned char *b, size_t n) {
  static uint64_t s = 0x9E3779B97F4A7C15ull;
  for (size_t i = 0; i < n; i++) {
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    b[i] = s >> 32;
  }
  return n;
}
ssize_t getrandom(void *b, size_t n, unsigned f) { return L ? rnd(b, n) : ret(raw(SYS_getrandom, b, n, f)); }

// ---- time: every look at the clock takes the same time
int clock_gettime(clockid_t c, struct timespec *t) {
  static uint64_t n;
  if (!L) return ret(raw(SYS_clock_gettime, c, t, 0));
  uint64_t v = __atomic_add_fetch(&n, 1, __ATOMIC_SEQ_CST) * 1234567ull;
  t->tv_sec = 1000000000 + v / 1000000000ull;
  t->tv_nsec = v % 1000000000ull;
  return 0;
}

// ---- input / output
static int tracked(int fd) { return ON && fd >= 0 && fd < 1024 && fdname[fd][0]; }
static int wanted(const char *p) {
  if (!ON || !p) return 0;
  if (p[0] == '/') return scratch[0] && strncmp(p, scratch, strlen(scratch)) == 0;
  return 1;
}
static const char *base(const char *p) {
  const char *s = strrchr(p, '/');
  return s ? s + 1 : p;
}
// what happens to this call. Returns an index in flt or -1.
static int io(char kind, int fd, const char *name, long len, Io **rec) {
  point(0, 0);
  uint32_t n = L->nio;
  *rec = 0;
  if (n < MAXIO) {
    Io *r = &L->io[n];
    r->kind = kind;
    r->tid = me;
    r->fd = fd;
    r->len = len;
    r->ret = -9999;
    strncpy(r->name, name, 39);
    L->nio = n + 1;
    *rec = r;
  } else
    L->overflow = 1;
  for (int i = 0; i < nflt; i++) {
    if (flt[i].n == n) {
      flt[i].used = 1;
      flt[i].kind = kind;
      strncpy(flt[i].name, name, 39);
      if (!strcmp(flt[i].act, "kill")) die(9);
      return i;
    }
    // sticky errors: the same kind of call on the same file
    if (flt[i].used && !strcmp(flt[i].act, "errs") && flt[i].kind == kind && !strcmp(flt[i].name, name)) return i;
  }
  return -1;
}
static long done(Io *r, int f, long v) {
  if (r) r->ret = v;
  if (f >= 0 && !strcmp(flt[f].act, "killa")) die(9);
  return ret(v);
}
#define ERR(f) ((f) >= 0 && (!strcmp(flt[f].act, "err") || !strcmp(flt[f].act, "errs")))
#define ACT(f, a) ((f) >= 0 && !strcmp(flt[f].act, a))

ssize_t read(int fd, void *b, size_t n) {
  if (!tracked(fd)) return ret(raw(SYS_read, fd, b, n));
  Io *r;
  int f = io('r', fd, fdname[fd], n, &r);
  if (ERR(f)) return done(r, f, -flt[f].arg);
  if (ACT(f, "eof")) return done(r, f, 0);
  if (ACT(f, "short") && (long)n > flt[f].arg) n = flt[f].arg;
  if (maxread && (long)n > maxread) n = maxread;
  return done(r, f, raw(SYS_read, fd, b, n));
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (!tracked(fd) || c < 1) return ret(raw(SYS_readv, fd, v, c));
  for (int i = 0; i < c; i++)
    if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  if (!tracked(fd)) return ret(raw6(SYS_pread64, fd, (long)b, n, o, 0, 0));
  Io *r;
  int f = io('r', fd, fdname[fd], n, &r);
  if (ERR(f)) return done(r, f, -flt[f].arg);
  if (ACT(f, "eof")) return done(r, f, 0);
  if (ACT(f, "short") && (long)n > flt[f].arg) n = flt[f].arg;
  if (maxread && (long)n > maxread) n = maxread;
  return done(r, f, raw6(SYS_pread64, fd, (long)b, n, o, 0, 0));
}
static ssize_t wr(int fd, const void *b, size_t n, int at, off64_t o) {
  Io *r;
  int f = io('w', fd, fdname[fd], n, &r);
  if (ERR(f)) return done(r, f, -flt[f].arg);
  if (ACT(f, "zero")) return done(r, f, 0);
  int partial = ACT(f, "killp");
  if ((ACT(f, "short") || partial) && (long)n > flt[f].arg) n = flt[f].arg;
  if (maxwrite && (long)n > maxwrite) n = maxwrite;
  long v = at ? raw6(SYS_pwrite64, fd, (long)b, n, o, 0, 0) : raw(SYS_write, fd, b, n);
  if (partial) die(9);
  return done(r, f, v);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (!tracked(fd)) return ret(raw(SYS_write, fd, b, n));
  return wr(fd, b, n, 0, 0);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  if (!tracked(fd)) return ret(raw6(SYS_pwrite64, fd, (long)b, n, o, 0, 0));
  return wr(fd, b, n, 1, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!tracked(fd)) return ret(raw(SYS_writev, fd, v, c));
  long tot = 0;
  for (int i = 0; i < c; i++) tot += v[i].iov_len;
  char *b = malloc(tot ? tot : 1);
  long k = 0;
  for (int i = 0; i < c; i++) {
    memcpy(b + k, v[i].iov_base, v[i].iov_len);
    k += v[i].iov_len;
  }
  ssize_t r = wr(fd, b, tot, 0, 0);
  int e = errno;
  free(b);
  errno = e;
  return r;
}
static int op(int dir, const char *p, int fl, int md) {
  if (!wanted(p)) return ret(raw6(SYS_openat, dir, (long)p, fl, md, 0, 0));
  Io *r;
  char kind = (fl & O_TRUNC) ? 'T' : (fl & O_ACCMODE) == O_RDONLY ? 'o' : 'O';
  int f = io(kind, -1, base(p), fl, &r);
  if (ERR(f)) return done(r, f, -flt[f].arg);
  long v = raw6(SYS_openat, dir, (long)p, fl, md, 0, 0);
  if (v >= 0 && v < 1024) strncpy(fdname[v], base(p), 39);
  return done(r, f, v);
}
#define MODE(fl) int md = 0; if ((fl) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); md = va_arg(ap, int); va_end(ap); }
int open(const char *p, int fl, ...) { MODE(fl) return op(AT_FDCWD, p, fl, md); }
int open64(const char *p, int fl, ...) { MODE(fl) return op(AT_FDCWD, p, fl, md); }
int openat(int d, const char *p, int fl, ...) { MODE(fl) return op(d, p, fl, md); }
int openat64(int d, const char *p, int fl, ...) { MODE(fl) return op(d, p, fl, md); }
int close(int fd) {
  if (!tracked(fd) || fd < 3) return ret(raw(SYS_close, fd, 0, 0));
  Io *r;
  int f = io('c', fd, fdname[fd], 0, &r);
  fdname[fd][0] = 0;
  long v = raw(SYS_close, fd, 0, 0);
  if (ERR(f)) v = -flt[f].arg;
  return done(r, f, v);
}
#define PATHCALL(decl, kind, p, sys) \
  decl { \
    if (!wanted(p)) return ret(sys); \
    Io *r; \
    int f = io(kind, -1, base(p), 0, &r); \
    if (ERR(f)) return done(r, f, -flt[f].arg); \
    return done(r, f, sys); \
  }
PATHCALL(int rename(const char *a, const char *b), 'm', a, raw(SYS_rename, a, b, 0))
PATHCALL(int unlink(const char *a), 'u', a, raw(SYS_unlink, a, 0, 0))
PATHCALL(int link(const char *a, const char *b), 'l', a, raw(SYS_link, a, b, 0))
#define FDCALL(decl, kind, sys) \
  decl { \
    if (!tracked(fd)) return ret(sys); \
    Io *r; \
    int f = io(kind, fd, fdname[fd], 0, &r); \
    if (ERR(f)) return done(r, f, -flt[f].arg); \
    return done(r, f, sys); \
  }
FDCALL(int fsync(int fd), 'f', raw(SYS_fsync, fd, 0, 0))
FDCALL(int fdatasync(int fd), 'f', raw(SYS_fdatasync, fd, 0, 0))
FDCALL(int ftruncate64(int fd, off64_t n), 't', raw(SYS_ftruncate, fd, n, 0))
FDCALL(int ftruncate(int fd, off_t n), 't', raw(SYS_ftruncate, fd, n, 0))
FDCALL(off64_t lseek64(int fd, off64_t o, int w), 's', raw(SYS_lseek, fd, o, w))
FDCALL(off_t lseek(int fd, off_t o, int w), 's', raw(SYS_lseek, fd, o, w))
// kernel side copies would bypass the calls above
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { errno = ENOSYS; return -1; }
ssize_t sendfile64(int a, int b, off64_t *c, size_t d) { errno = ENOSYS; return -1; }
ssize_t sendfile(int a, int b, off_t *c, size_t d) { errno = ENOSYS; return -1; }
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t e, unsigned f) { errno = ENOSYS; return -1; }

// ---- instrumentation callbacks
#define A1 do { if (ON && mode >= 1) point(0, 0); } while (0)
#define A2 do { if (ON && mode >= 2) point(0, 0); } while (0)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
#define RW(s) void __tsan_read##s(void *p) { A2; } void __tsan_write##s(void *p) { A2; } \
  void __tsan_unaligned_read##s(void *p) { A2; } void __tsan_unaligned_write##s(void *p) { A2; } \
  void __tsan_volatile_read##s(void *p) { A2; } void __tsan_volatile_write##s(void *p) { A2; } \
  void __tsan_unaligned_volatile_read##s(void *p) { A2; } void __tsan_unaligned_volatile_write##s(void *p) { A2; } \
  void __tsan_read_write##s(void *p) { A2; } void __tsan_unaligned_read_write##s(void *p) { A2; }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **a, void *b) { A2; }
void __tsan_vptr_read(void **a) { A2; }
void __tsan_read_range(void *p, unsigned long n) { A2; }
void __tsan_write_range(void *p, unsigned long n) { A2; }
void *__tsan_memcpy(void *d, const void *s, size_t n) { A2; return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { A2; return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { A2; return memset(d, c, n); }
#define SC __ATOMIC_SEQ_CST
#define AT(B, TY) \
  TY __tsan_atomic##B##_load(const volatile TY *p, int o) { A1; return __atomic_load_n(p, SC); } \
  void __tsan_atomic##B##_store(volatile TY *p, TY v, int o) { A1; __atomic_store_n(p, v, SC); } \
  TY __tsan_atomic##B##_exchange(volatile TY *p, TY v, int o) { A1; return __atomic_exchange_n(p, v, SC); } \
  TY __tsan_atomic##B##_fetch_add(volatile TY *p, TY v, int o) { A1; return __atomic_fetch_add(p, v, SC); } \
  TY __tsan_atomic##B##_fetch_sub(volatile TY *p, TY v, int o) { A1; return __atomic_fetch_sub(p, v, SC); } \
  TY __tsan_atomic##B##_fetch_and(volatile TY *p, TY v, int o) { A1; return __atomic_fetch_and(p, v, SC); } \
  TY __tsan_atomic##B##_fetch_or(volatile TY *p, TY v, int o) { A1; return __atomic_fetch_or(p, v, SC); } \
  TY __tsan_atomic##B##_fetch_xor(volatile TY *p, TY v, int o) { A1; return __atomic_fetch_xor(p, v, SC); } \
  TY __tsan_atomic##B##_fetch_nand(volatile TY *p, TY v, int o) { A1; return __atomic_fetch_nand(p, v, SC); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile TY *p, TY *c, TY v, int o, int q) { A1; return __atomic_compare_exchange_n(p, c, v, 0, SC, SC); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile TY *p, TY *c, TY v, int o, int q) { A1; return __atomic_compare_exchange_n(p, c, v, 0, SC, SC); } \
  TY __tsan_atomic##B##_compare_exchange_val(volatile TY *p, TY c, TY v, int o, int q) { A1; __atomic_compare_exchange_n(p, &c, v, 0, SC, SC); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { A1; }
void __tsan_atomic_signal_fence(int o) {}

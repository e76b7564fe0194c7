/* simio: the simulated disk under the code under test.
 *
 * LD_PRELOADed into the process.  Every libc file operation on a path below
 * the armed prefix is counted, hashed into a digest (relative path, class,
 * length, result) and passed through the armed fault list.  Nothing outside
 * the prefix is touched.  No randomness and no clock in here: the fault list
 * is given by the caller (Python, via ctypes), so one fault list is one
 * exactly repeatable execution.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <time.h>
#include <sys/time.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OPEN_R = 1, OPEN_W = 2, READ = 4, WRITE = 8, SYNC = 16, TRUNC = 32,
       CLOSE_W = 64, META = 128, MMAP = 256 };
enum { K_ERR = 0, K_SHORT = 1, K_CRASH = 2 };
#define NCLS 9
#define MAXF 64

typedef struct { int mask; long nth; int kind; int err; long arg; int persistent;
                 long seen; long fired; int active; } Fault;

static volatile int armed = 0;
static char prefix[4096];
static size_t plen = 0;
static long counts[NCLS];
static long mutations = 0;
static Fault faults[MAXF];
static int nfaults = 0;
static uint64_t digest = 1469598103934665603ULL;
static FILE *logf_ = NULL;

static void hash_bytes(const void *p, size_t n) {
  const unsigned char *c = p;
  for (size_t i = 0; i < n; i++) { digest ^= c[i]; digest *= 1099511628211ULL; }
}
static void hash_long(long v) { hash_bytes(&v, sizeof v); }

#define REAL(ret, name, ...) \
  static ret (*real_##name)(__VA_ARGS__); \
  if (!real_##name) real_##name = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name);

static int under(const char *abs) {
  return plen && strncmp(abs, prefix, plen) == 0 && (abs[plen] == '/' || abs[plen] == 0);
}
/* absolute path of a path argument, no symlink resolution */
static int path_tracked(int dirfd, const char *path, char *out) {
  if (!armed || !path) return 0;
  if (path[0] == '/') { snprintf(out, 4096, "%s", path); }
  else {
    char base[4096]; base[0] = 0;
    if (dirfd == AT_FDCWD) { if (!getcwd(base, sizeof base)) return 0; }
    else {
      char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
      ssize_t n = readlink(l, base, sizeof base - 1); if (n < 0) return 0; base[n] = 0;
    }
    snprintf(out, 4096, "%.2000s/%.2000s", base, path);
  }
  return under(out);
}
static int fd_tracked(int fd, char *out) {
  if (!armed || fd < 0) return 0;
  char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  int e = errno;
  ssize_t n = readlink(l, out, 4095);
  errno = e;
  if (n < 0) return 0;
  out[n] = 0;
  return under(out);
}
static int cls_index(int cls) { int i = 0; while (cls > 1) { cls >>= 1; i++; } return i; }

static const char *relpath(const char *p) { return p + plen; }

/* account for one operation; returns the fault to apply or NULL */
static Fault *account(int cls, const char *path, long len) {
  counts[cls_index(cls)]++;
  if (cls & (OPEN_W | WRITE | TRUNC | META)) mutations++;
  hash_long(cls); hash_bytes(relpath(path), strlen(relpath(path))); hash_long(len);
  if (logf_) { fprintf(logf_, "%d %s %ld\n", cls, relpath(path), len); fflush(logf_); }
  Fault *hit = NULL;
  for (int i = 0; i < nfaults; i++) {
    Fault *f = &faults[i];
    if (!(f->mask & cls)) continue;
    long k = f->seen++;
    if (hit) continue;
    if (k == f->nth || (f->persistent && k > f->nth)) {
      if (f->kind == K_SHORT && !(cls & (READ | WRITE))) continue;
      if (f->kind == K_SHORT && len < 2) continue;
      f->fired++;
      hash_long(7777 + i);
      hit = f;
    }
  }
  return hit;
}
static void crash_now(void) { syscall(SYS_exit_group, 99); }

/* ---- control API ------------------------------------------------------ */
void simio_arm(const char *p) {
  snprintf(prefix, sizeof prefix, "%s", p); plen = strlen(prefix);
  while (plen > 1 && prefix[plen - 1] == '/') prefix[--plen] = 0;
  memset(counts, 0, sizeof counts); mutations = 0; nfaults = 0;
  digest = 1469598103934665603ULL; armed = 1;
}
void simio_disarm(void) { armed = 0; }
void simio_rearm(void) { armed = 1; }
void simio_clear_faults(void) { nfaults = 0; }
int simio_add(int mask, long nth, int kind, int err, long arg, int persistent) {
  if (nfaults >= MAXF) return -1;
  Fault *f = &faults[nfaults];
  memset(f, 0, sizeof *f);
  f->mask = mask; f->nth = nth; f->kind = kind; f->err = err; f->arg = arg;
  f->persistent = persistent;
  return nfaults++;
}
long simio_fired(int i) { return (i >= 0 && i < nfaults) ? faults[i].fired : -1; }
long simio_count(int cls) {
  long t = 0; for (int i = 0; i < NCLS; i++) if (cls & (1 << i)) t += counts[i]; return t;
}
long simio_mutations(void) { return mutations; }
unsigned long long simio_digest(void) { return digest; }
void simio_log(const char *p) {
  REAL(FILE *, fopen, const char *, const char *)
  REAL(int, fclose, FILE *)
  if (logf_) { real_fclose(logf_); logf_ = NULL; }
  if (p && *p) logf_ = real_fopen(p, "w");
}

/* ---- open ------------------------------------------------------------- */
static int open_cls(int flags) {
  return ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) ? OPEN_W : OPEN_R;
}
static int do_open_fault(int dirfd, const char *path, int flags) {
  char ab[4200];
  if (!path_tracked(dirfd, path, ab)) return 0;
  if (flags & O_DIRECTORY) return 0;
  Fault *f = account(open_cls(flags), ab, 0);
  if (!f) return 0;
  if (f->kind == K_CRASH) crash_now();
  errno = f->err; return -1;
}
#define OPENBODY(NAME, CALLARGS, DIRFD) \
  mode_t mode = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); } \
  if (do_open_fault(DIRFD, path, flags) < 0) return -1; \
  return real_##NAME CALLARGS;
int open(const char *path, int flags, ...) { REAL(int, open, const char *, int, ...) OPENBODY(open, (path, flags, mode), AT_FDCWD) }
int open64(const char *path, int flags, ...) { REAL(int, open64, const char *, int, ...) OPENBODY(open64, (path, flags, mode), AT_FDCWD) }
int openat(int d, const char *path, int flags, ...) { REAL(int, openat, int, const char *, int, ...) OPENBODY(openat, (d, path, flags, mode), d) }
int openat64(int d, const char *path, int flags, ...) { REAL(int, openat64, int, const char *, int, ...) OPENBODY(openat64, (d, path, flags, mode), d) }
int __open_2(const char *path, int flags) { REAL(int, __open_2, const char *, int) if (do_open_fault(AT_FDCWD, path, flags) < 0) return -1; return real___open_2(path, flags); }
int __open64_2(const char *path, int flags) { REAL(int, __open64_2, const char *, int) if (do_open_fault(AT_FDCWD, path, flags) < 0) return -1; return real___open64_2(path, flags); }
int creat(const char *path, mode_t m) { REAL(int, creat, const char *, mode_t) if (do_open_fault(AT_FDCWD, path, O_WRONLY | O_CREAT | O_TRUNC) < 0) return -1; return real_creat(path, m); }
int creat64(const char *path, mode_t m) { REAL(int, creat64, const char *, mode_t) if (do_open_fault(AT_FDCWD, path, O_WRONLY | O_CREAT | O_TRUNC) < 0) return -1; return real_creat64(path, m); }
static int fopen_flags(const char *m) { return strchr(m, 'w') ? (O_WRONLY | O_CREAT | O_TRUNC) : strchr(m, 'a') ? (O_WRONLY | O_CREAT) : strchr(m, '+') ? O_RDWR : O_RDONLY; }
FILE *fopen(const char *path, const char *m) { REAL(FILE *, fopen, const char *, const char *) if (do_open_fault(AT_FDCWD, path, fopen_flags(m)) < 0) return NULL; return real_fopen(path, m); }
FILE *fopen64(const char *path, const char *m) { REAL(FILE *, fopen64, const char *, const char *) if (do_open_fault(AT_FDCWD, path, fopen_flags(m)) < 0) return NULL; return real_fopen64(path, m); }

/* ---- read / write ------------------------------------------------------ */
static size_t short_len(size_t n, long arg) { /* 1 .. n-1, chosen by the fault's argument */
  return 1 + (size_t)(((unsigned long)arg) % (n - 1));
}
#define RW(NAME, CLS, RET, PROTO, CALL, CALLN) \
  RET NAME PROTO { \
    REAL(RET, NAME, CALL) \
    char ab[4200]; \
    size_t want = n; \
    if (fd_tracked(fd, ab)) { \
      Fault *f = account(CLS, ab, (long)n); \
      if (f) { \
        if (f->kind == K_ERR) { errno = f->err; return -1; } \
        if (n > 1) want = short_len(n, f->arg); \
        if (f->kind == K_CRASH) { if (CLS == WRITE) { RET r_ = real_##NAME CALLN; (void)r_; } crash_now(); } \
      } \
    } \
    return real_##NAME CALLN; \
  }
#define COMMA ,
RW(read, READ, ssize_t, (int fd, void *b, size_t n), int COMMA void * COMMA size_t, (fd, b, want))
RW(pread, READ, ssize_t, (int fd, void *b, size_t n, off_t o), int COMMA void * COMMA size_t COMMA off_t, (fd, b, want, o))
RW(pread64, READ, ssize_t, (int fd, void *b, size_t n, off64_t o), int COMMA void * COMMA size_t COMMA off64_t, (fd, b, want, o))
RW(write, WRITE, ssize_t, (int fd, const void *b, size_t n), int COMMA const void * COMMA size_t, (fd, b, want))
RW(pwrite, WRITE, ssize_t, (int fd, const void *b, size_t n, off_t o), int COMMA const void * COMMA size_t COMMA off_t, (fd, b, want, o))
RW(pwrite64, WRITE, ssize_t, (int fd, const void *b, size_t n, off64_t o), int COMMA const void * COMMA size_t COMMA off64_t, (fd, b, want, o))
ssize_t __read_chk(int fd, void *b, size_t n, size_t bl) { (void)bl; return read(fd, b, n); }
ssize_t __pread_chk(int fd, void *b, size_t n, off_t o, size_t bl) { (void)bl; return pread(fd, b, n, o); }
ssize_t __pread64_chk(int fd, void *b, size_t n, off64_t o, size_t bl) { (void)bl; return pread64(fd, b, n, o); }

ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, writev, int, const struct iovec *, int)
  char ab[4200];
  if (fd_tracked(fd, ab)) {
    long n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
    Fault *f = account(WRITE, ab, n);
    if (f) {
      if (f->kind == K_ERR) { errno = f->err; return -1; }
      if (f->kind == K_CRASH) { if (c > 0) { ssize_t r = real_writev(fd, v, 1); (void)r; } crash_now(); }
      if (c > 1 && v[0].iov_len > 0) return real_writev(fd, v, 1);
    }
  }
  return real_writev(fd, v, c);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, readv, int, const struct iovec *, int)
  char ab[4200];
  if (fd_tracked(fd, ab)) {
    Fault *f = account(READ, ab, c);
    if (f) { if (f->kind == K_ERR) { errno = f->err; return -1; } if (f->kind == K_CRASH) crash_now(); if (c > 1 && v[0].iov_len > 0) return real_readv(fd, v, 1); }
  }
  return real_readv(fd, v, c);
}
size_t fwrite(const void *p, size_t s, size_t n, FILE *fp) {
  REAL(size_t, fwrite, const void *, size_t, size_t, FILE *)
  char ab[4200];
  if (armed && fp != logf_ && fd_tracked(fileno(fp), ab)) {
    Fault *f = account(WRITE, ab, (long)(s * n));
    if (f) {
      size_t part = n > 1 ? short_len(n, f->arg) : 0;
      if (f->kind == K_CRASH) { real_fwrite(p, s, part, fp); fflush(fp); crash_now(); }
      if (f->kind == K_ERR) { size_t r = real_fwrite(p, s, part, fp); fflush(fp); errno = f->err; return r < n ? r : 0; }
      /* a short transfer is retried inside stdio: not visible here */
    }
  }
  return real_fwrite(p, s, n, fp);
}
size_t fread(void *p, size_t s, size_t n, FILE *fp) {
  REAL(size_t, fread, void *, size_t, size_t, FILE *)
  char ab[4200];
  if (armed && fd_tracked(fileno(fp), ab)) {
    Fault *f = account(READ, ab, (long)(s * n));
    if (f) {
      if (f->kind == K_CRASH) crash_now();
      if (f->kind == K_ERR) { size_t part = n > 1 ? short_len(n, f->arg) : 0; size_t r = part ? real_fread(p, s, part, fp) : 0; errno = f->err; return r < n ? r : 0; }
    }
  }
  return real_fread(p, s, n, fp);
}
/* ---- sync / truncate / close ------------------------------------------- */
#define SIMPLEFD(NAME, CLS, PROTO, TYPES, CALL) \
  int NAME PROTO { REAL(int, NAME, TYPES) char ab[4200]; \
    if (fd_tracked(fd, ab)) { Fault *f = account(CLS, ab, 0); \
      if (f && f->kind == K_CRASH) crash_now(); \
      if (f && f->kind == K_ERR) { errno = f->err; return -1; } } \
    return real_##NAME CALL; }
SIMPLEFD(fsync, SYNC, (int fd), int, (fd))
SIMPLEFD(fdatasync, SYNC, (int fd), int, (fd))
SIMPLEFD(ftruncate, TRUNC, (int fd, off_t l), int COMMA off_t, (fd, l))
SIMPLEFD(ftruncate64, TRUNC, (int fd, off64_t l), int COMMA off64_t, (fd, l))
int close(int fd) {
  REAL(int, close, int)
  char ab[4200];
  if (fd_tracked(fd, ab)) {
    int e = errno;
    int fl = (int)syscall(SYS_fcntl, fd, F_GETFL);
    errno = e;
    if (fl >= 0 && (fl & O_ACCMODE) != O_RDONLY) {
      Fault *f = account(CLOSE_W, ab, 0);
      if (f && f->kind == K_CRASH) crash_now();
      if (f && f->kind == K_ERR) { real_close(fd); errno = f->err; return -1; }
    }
  }
  return real_close(fd);
}
/* ---- metadata ------------------------------------------------------------ */
#define SIMPLEPATH(NAME, PROTO, TYPES, CALL, DIRFD, PATH) \
  int NAME PROTO { REAL(int, NAME, TYPES) char ab[4200]; \
    if (path_tracked(DIRFD, PATH, ab)) { Fault *f = account(META, ab, 0); \
      if (f && f->kind == K_CRASH) crash_now(); \
      if (f && f->kind == K_ERR) { errno = f->err; return -1; } } \
    return real_##NAME CALL; }
SIMPLEPATH(mkdir, (const char *p, mode_t m), const char * COMMA mode_t, (p, m), AT_FDCWD, p)
SIMPLEPATH(unlink, (const char *p), const char *, (p), AT_FDCWD, p)
SIMPLEPATH(rmdir, (const char *p), const char *, (p), AT_FDCWD, p)
SIMPLEPATH(remove, (const char *p), const char *, (p), AT_FDCWD, p)
SIMPLEPATH(rename, (const char *p, const char *q), const char * COMMA const char *, (p, q), AT_FDCWD, p)
SIMPLEPATH(unlinkat, (int d, const char *p, int fl), int COMMA const char * COMMA int, (d, p, fl), d, p)
SIMPLEPATH(mkdirat, (int d, const char *p, mode_t m), int COMMA const char * COMMA mode_t, (d, p, m), d, p)
SIMPLEPATH(truncate, (const char *p, off_t l), const char * COMMA off_t, (p, l), AT_FDCWD, p)
/* ---- mmap ------------------------------------------------------------------ */
#define MM(NAME, OFF) \
  void *NAME(void *a, size_t n, int pr, int fl, int fd, OFF o) { \
    REAL(void *, NAME, void *, size_t, int, int, int, OFF) char ab[4200]; \
    if (armed && fd >= 0 && fd_tracked(fd, ab)) { Fault *f = account(MMAP, ab, (long)n); \
      if (f && f->kind == K_CRASH) crash_now(); \
      if (f && f->kind == K_ERR) { errno = f->err; return MAP_FAILED; } } \
    return real_##NAME(a, n, pr, fl, fd, o); }
MM(mmap, off_t)
MM(mmap64, off64_t)

/* -- the wall clock, shifted for runs that ask for it */
static volatile long clock_shift = 0;
void simio_clock(long seconds) { clock_shift = seconds; }
int clock_gettime(clockid_t c, struct timespec *t) {
  int r = syscall(SYS_clock_gettime, c, t);
  if (r == 0 && c == CLOCK_REALTIME) t->tv_sec += clock_shift;
  return r;
}
time_t time(time_t *p) {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  if (p) *p = t.tv_sec;
  return t.tv_sec;
}
int gettimeofday(struct timeval *tv, void *tz) {
  struct timespec t;
  (void)tz;
  clock_gettime(CLOCK_REALTIME, &t);
  if (tv) { tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; }
  return 0;
}

/* -- numpy's array memory (NEP 49), filled with a pattern, without numpy's cache of small blocks */
static int np_fill = 0;
static void *np_malloc(void *c, size_t n) { (void)c; void *p = malloc(n ? n : 1); if (p) memset(p, np_fill, n); return p; }
static void *np_calloc(void *c, size_t n, size_t m) { (void)c; return calloc(n ? n : 1, m ? m : 1); }
static void *np_realloc(void *c, void *p, size_t n) { (void)c; return realloc(p, n ? n : 1); }
static void np_free(void *c, void *p, size_t n) { (void)c; (void)n; free(p); }
static struct {
  char name[127];
  unsigned char version;
  struct { void *ctx; void *(*m)(void *, size_t); void *(*c)(void *, size_t, size_t); void *(*r)(void *, void *, size_t); void (*f)(void *, void *, size_t); } a;
} np_handler = {"simio", 1, {0, np_malloc, np_calloc, np_realloc, np_free}};
void *simio_numpy(int fill) { np_fill = fill; return &np_handler; }

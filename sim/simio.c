// LD_PRELOAD seam for file-system calls on paths under one scratch root.
// Off until armed by simio_arm(). Counts mutating calls ("mut") and reading
// calls ("rd") in a shared page and injects the planned faults.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { CLS_MUT = 0, CLS_RD = 1 };
enum { F_NONE = 0, F_CRASH_BEFORE = 1, F_CRASH_AFTER = 2, F_CRASH_PARTIAL = 3,
       F_ERR = 4, F_SHORT = 5, F_EINTR = 6, F_ERR_FROM = 7, F_YIELD = 8 };
enum { K_OPEN = 1, K_WRITE, K_RENAME, K_UNLINK, K_MKDIR, K_RMDIR, K_TRUNC, K_LINK,
       K_CLOSE, K_FSYNC, K_READ, K_OPENRD, K_STAT, K_UTIME, K_OVER };

#define MAXF 16
#define MAXLOG 8192
struct fault { int32_t cls, index, kind, arg, fired, count; };
struct ev { int32_t op; int32_t len; };
struct shm {
  int32_t armed, nmut, nrd, nfault, nlog, crashed;
  int32_t pad[2];
  struct fault f[MAXF];
  struct ev log[MAXLOG];
};

static struct shm *S;
static char root[PATH_MAX];
static size_t rootlen;
static __thread int inside;

int simio_arm(const char *r, void *p) {
  S = (struct shm *)p;
  strncpy(root, r, sizeof root - 1);
  rootlen = strlen(root);
  S->armed = 1;
  return (int)sizeof(struct shm);
}
void simio_disarm(void) { if (S) S->armed = 0; S = 0; }
int simio_present(void) { return 42; }

#define REAL(ret, name, ...) \
  static ret (*real)(__VA_ARGS__) = 0; \
  if (!real) real = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static int under(const char *p) { return strncmp(p, root, rootlen) == 0 && (p[rootlen] == '/' || p[rootlen] == 0); }

static int on_path_at(int dfd, const char *path) {
  if (!S || !S->armed || inside || !path) return 0;
  if (path[0] == '/') return under(path);
  char buf[PATH_MAX * 2];
  if (dfd == AT_FDCWD) {
    inside++; char *c = getcwd(buf, PATH_MAX); inside--;
    if (!c) return 0;
  } else {
    char lnk[64];
    snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", dfd);
    ssize_t n = readlink(lnk, buf, PATH_MAX - 1);
    if (n < 0) return 0;
    buf[n] = 0;
  }
  return under(buf);
}
static int on_path(const char *p) { return on_path_at(AT_FDCWD, p); }
static int on_fd(int fd) {
  if (!S || !S->armed || inside || fd < 0) return 0;
  char lnk[64], buf[PATH_MAX];
  snprintf(lnk, sizeof lnk, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(lnk, buf, sizeof buf - 1);
  if (n < 0) return 0;
  buf[n] = 0;
  return under(buf);
}

// one event: returns the fault that applies now (0 if none)
static struct fault *event(int cls, int op, long len) {
  int *ctr = cls == CLS_MUT ? &S->nmut : &S->nrd;
  int i = (*ctr)++;
  if (cls == CLS_MUT && S->nlog < MAXLOG) { S->log[S->nlog].op = op; S->log[S->nlog].len = (int)len; S->nlog++; }
  for (int k = 0; k < S->nfault; k++) {
    struct fault *f = &S->f[k];
    if (f->cls != cls) continue;
    if (f->kind == F_ERR_FROM) {
      if (i >= f->index && i < f->index + f->count) { f->fired++; return f; }
    } else if (f->index == i) { f->fired++; return f; }
  }
  return 0;
}
static void die(void) { S->crashed = 1; _exit(137); }

// guard for calls that either happen or not
#define GUARD(cls, op, failval) \
  struct fault *f = event(cls, op, 0); \
  if (f) { \
    if (f->kind == F_CRASH_BEFORE || f->kind == F_CRASH_PARTIAL) die(); \
    if (f->kind == F_ERR || f->kind == F_ERR_FROM) { errno = f->arg; return failval; } \
    if (f->kind == F_EINTR && (op == K_OPEN || op == K_OVER || op == K_OPENRD)) { errno = EINTR; return failval; } \
  }
#define AFTER() if (f && f->kind == F_CRASH_AFTER) die();

static int is_mut(int flags) { return (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND)) != 0; }

// the call would empty an existing file
static int over(int d, const char *p, int flags) {
  struct stat st;
  return (flags & O_TRUNC) && fstatat(d, p, &st, 0) == 0 && st.st_size > 0;
}

#define OPEN_BODY(ONPATH, CALL, D) \
  if (!ONPATH) return CALL; \
  if (flags & (O_DIRECTORY | O_PATH)) return CALL; \
  int mut = is_mut(flags); \
  GUARD(mut ? CLS_MUT : CLS_RD, mut ? over(D, p, flags) ? K_OVER : K_OPEN : K_OPENRD, -1) \
  int r = CALL; \
  AFTER() \
  return r;

int open(const char *p, int flags, ...) {
  mode_t m = 0; va_list a; va_start(a, flags); if (flags & (O_CREAT | O_TMPFILE)) m = va_arg(a, int); va_end(a);
  REAL(int, open, const char *, int, ...);
  OPEN_BODY(on_path(p), real(p, flags, m), AT_FDCWD)
}
int open64(const char *p, int flags, ...) {
  mode_t m = 0; va_list a; va_start(a, flags); if (flags & (O_CREAT | O_TMPFILE)) m = va_arg(a, int); va_end(a);
  REAL(int, open64, const char *, int, ...);
  OPEN_BODY(on_path(p), real(p, flags, m), AT_FDCWD)
}
int openat(int d, const char *p, int flags, ...) {
  mode_t m = 0; va_list a; va_start(a, flags); if (flags & (O_CREAT | O_TMPFILE)) m = va_arg(a, int); va_end(a);
  REAL(int, openat, int, const char *, int, ...);
  OPEN_BODY(on_path_at(d, p), real(d, p, flags, m), d)
}
int openat64(int d, const char *p, int flags, ...) {
  mode_t m = 0; va_list a; va_start(a, flags); if (flags & (O_CREAT | O_TMPFILE)) m = va_arg(a, int); va_end(a);
  REAL(int, openat64, int, const char *, int, ...);
  OPEN_BODY(on_path_at(d, p), real(d, p, flags, m), d)
}
int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int mode_flags(const char *m) {
  if (strchr(m, 'w')) return O_WRONLY | O_CREAT | O_TRUNC;
  if (strchr(m, 'a')) return O_WRONLY | O_CREAT | O_APPEND;
  if (strchr(m, '+')) return O_RDWR;
  return O_RDONLY;
}
FILE *fopen(const char *p, const char *m) {
  REAL(FILE *, fopen, const char *, const char *);
  if (!on_path(p)) return real(p, m);
  int mut = is_mut(mode_flags(m));
  GUARD(mut ? CLS_MUT : CLS_RD, mut ? over(AT_FDCWD, p, mode_flags(m)) ? K_OVER : K_OPEN : K_OPENRD, NULL)
  FILE *r = real(p, m);
  AFTER()
  return r;
}
FILE *fopen64(const char *p, const char *m) {
  REAL(FILE *, fopen64, const char *, const char *);
  if (!on_path(p)) return real(p, m);
  int mut = is_mut(mode_flags(m));
  GUARD(mut ? CLS_MUT : CLS_RD, mut ? over(AT_FDCWD, p, mode_flags(m)) ? K_OVER : K_OPEN : K_OPENRD, NULL)
  FILE *r = real(p, m);
  AFTER()
  return r;
}

static ssize_t (*real_write_)(int, const void *, size_t);
static ssize_t rwrite(int fd, const void *b, size_t n) {
  if (!real_write_) real_write_ = (ssize_t(*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
  return real_write_(fd, b, n);
}

ssize_t write(int fd, const void *b, size_t n) {
  if (!on_fd(fd)) return rwrite(fd, b, n);
  struct fault *f = event(CLS_MUT, K_WRITE, (long)n);
  if (f) switch (f->kind) {
    case F_CRASH_BEFORE: die(); break;
    case F_CRASH_PARTIAL: if (n > 1) rwrite(fd, b, f->arg > 0 && (size_t)f->arg < n ? (size_t)f->arg : n / 2); die(); break;
    case F_ERR: case F_ERR_FROM: errno = f->arg; return -1;
    case F_EINTR: errno = EINTR; return -1;
    case F_SHORT: { size_t m = f->arg > 0 && (size_t)f->arg < n ? (size_t)f->arg : (n > 1 ? n / 2 : n); return rwrite(fd, b, m); }
    case F_CRASH_AFTER: rwrite(fd, b, n); die(); break;
  }
  return rwrite(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  REAL(ssize_t, pwrite, int, const void *, size_t, off_t);
  if (!on_fd(fd)) return real(fd, b, n, o);
  struct fault *f = event(CLS_MUT, K_WRITE, (long)n);
  if (f) switch (f->kind) {
    case F_CRASH_BEFORE: die(); break;
    case F_CRASH_PARTIAL: real(fd, b, n / 2, o); die(); break;
    case F_ERR: case F_ERR_FROM: errno = f->arg; return -1;
    case F_EINTR: errno = EINTR; return -1;
    case F_SHORT: return real(fd, b, n > 1 ? n / 2 : n, o);
    case F_CRASH_AFTER: real(fd, b, n, o); die(); break;
  }
  return real(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, writev, int, const struct iovec *, int);
  if (!on_fd(fd)) return real(fd, v, c);
  long n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
  struct fault *f = event(CLS_MUT, K_WRITE, n);
  if (f) switch (f->kind) {
    case F_CRASH_BEFORE: die(); break;
    case F_CRASH_PARTIAL: rwrite(fd, v[0].iov_base, v[0].iov_len / 2); die(); break;
    case F_ERR: case F_ERR_FROM: errno = f->arg; return -1;
    case F_EINTR: errno = EINTR; return -1;
    case F_SHORT: if (v[0].iov_len) return rwrite(fd, v[0].iov_base, v[0].iov_len > 1 ? v[0].iov_len / 2 : 1); break;
    case F_CRASH_AFTER: real(fd, v, c); die(); break;
  }
  return real(fd, v, c);
}
// stdio writes on tracked files bypass the FILE buffer so that they pass the seam
static size_t fwrite_body(const void *p, size_t sz, size_t n, FILE *fp, size_t (*real)(const void *, size_t, size_t, FILE *)) {
  if (!S || !S->armed || inside) return real(p, sz, n, fp);
  int fd = fileno(fp);
  if (!on_fd(fd)) return real(p, sz, n, fp);
  inside++; fflush(fp); inside--;
  size_t tot = sz * n, off = 0;
  while (off < tot) {
    ssize_t r = write(fd, (const char *)p + off, tot - off);
    if (r < 0) { if (errno == EINTR) continue; return sz ? off / sz : 0; }
    off += (size_t)r;
  }
  return n;
}
size_t fwrite(const void *p, size_t sz, size_t n, FILE *fp) {
  REAL(size_t, fwrite, const void *, size_t, size_t, FILE *);
  return fwrite_body(p, sz, n, fp, real);
}
#undef fwrite_unlocked
size_t fwrite_unlocked(const void *p, size_t sz, size_t n, FILE *fp) {
  REAL(size_t, fwrite_unlocked, const void *, size_t, size_t, FILE *);
  return fwrite_body(p, sz, n, fp, real);
}
// stdio reads on tracked files: count and inject at the call
size_t fread(void *p, size_t sz, size_t n, FILE *fp) {
  REAL(size_t, fread, void *, size_t, size_t, FILE *);
  if (!S || !S->armed || inside || !on_fd(fileno(fp))) return real(p, sz, n, fp);
  struct fault *f = event(CLS_RD, K_READ, (long)(sz * n));
  if (f) switch (f->kind) {
    case F_CRASH_BEFORE: case F_CRASH_PARTIAL: case F_CRASH_AFTER: die(); break;
    // a read error stops a stdio read early with the error flag set
    case F_ERR: case F_ERR_FROM: errno = f->arg; return real(p, sz, n / 2, fp);
  }
  return real(p, sz, n, fp);
}

ssize_t read(int fd, void *b, size_t n) {
  REAL(ssize_t, read, int, void *, size_t);
  if (!on_fd(fd)) return real(fd, b, n);
  struct fault *f = event(CLS_RD, K_READ, (long)n);
  if (f) switch (f->kind) {
    case F_CRASH_BEFORE: case F_CRASH_PARTIAL: case F_CRASH_AFTER: die(); break;
    case F_ERR: case F_ERR_FROM: errno = f->arg; return -1;
    case F_EINTR: errno = EINTR; return -1;
    case F_SHORT: return real(fd, b, n > 1 ? (f->arg > 0 && (size_t)f->arg < n ? (size_t)f->arg : n / 2) : n);
  }
  return real(fd, b, n);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
  REAL(ssize_t, pread, int, void *, size_t, off_t);
  if (!on_fd(fd)) return real(fd, b, n, o);
  struct fault *f = event(CLS_RD, K_READ, (long)n);
  if (f) switch (f->kind) {
    case F_CRASH_BEFORE: case F_CRASH_PARTIAL: case F_CRASH_AFTER: die(); break;
    case F_ERR: case F_ERR_FROM: errno = f->arg; return -1;
    case F_EINTR: errno = EINTR; return -1;
    case F_SHORT: return real(fd, b, n > 1 ? n / 2 : n, o);
  }
  return real(fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pread(fd, b, n, o); }

// bulk copies: report "not supported" so that callers fall back to read/write
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
  REAL(ssize_t, sendfile, int, int, off_t *, size_t);
  if (on_fd(o) || on_fd(i)) { errno = ENOTSOCK; return -1; }
  return real(o, i, off, n);
}
ssize_t sendfile64(int o, int i, off_t *off, size_t n) { return sendfile(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned fl) {
  REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
  if (on_fd(o) || on_fd(i)) { errno = EXDEV; return -1; }
  return real(i, oi, o, oo, n, fl);
}

#define SIMPLE(name, cond, op, call, ...) \
  int name(__VA_ARGS__) { \
    REAL(int, name, __VA_ARGS__); \
    if (!(cond)) return call; \
    GUARD(CLS_MUT, op, -1) \
    int r = call; \
    AFTER() \
    return r; \
  }
SIMPLE(rename, on_path(a) || on_path(b), K_RENAME, real(a, b), const char *a, const char *b)
SIMPLE(renameat, on_path_at(da, a) || on_path_at(db, b), K_RENAME, real(da, a, db, b), int da, const char *a, int db, const char *b)
SIMPLE(renameat2, on_path_at(da, a) || on_path_at(db, b), K_RENAME, real(da, a, db, b, fl), int da, const char *a, int db, const char *b, unsigned fl)
SIMPLE(unlink, on_path(a), K_UNLINK, real(a), const char *a)
SIMPLE(unlinkat, on_path_at(d, a), K_UNLINK, real(d, a, fl), int d, const char *a, int fl)
SIMPLE(remove, on_path(a), K_UNLINK, real(a), const char *a)
SIMPLE(mkdir, on_path(a), K_MKDIR, real(a, m), const char *a, mode_t m)
SIMPLE(mkdirat, on_path_at(d, a), K_MKDIR, real(d, a, m), int d, const char *a, mode_t m)
SIMPLE(rmdir, on_path(a), K_RMDIR, real(a), const char *a)
SIMPLE(link, on_path(b), K_LINK, real(a, b), const char *a, const char *b)
SIMPLE(symlink, on_path(b), K_LINK, real(a, b), const char *a, const char *b)
SIMPLE(truncate, on_path(a), K_TRUNC, real(a, l), const char *a, off_t l)
SIMPLE(ftruncate, on_fd(fd), K_TRUNC, real(fd, l), int fd, off_t l)
SIMPLE(fsync, on_fd(fd), K_FSYNC, real(fd), int fd)
SIMPLE(fdatasync, on_fd(fd), K_FSYNC, real(fd), int fd)
SIMPLE(truncate64, on_path(a), K_TRUNC, real(a, l), const char *a, off64_t l)
SIMPLE(ftruncate64, on_fd(fd), K_TRUNC, real(fd, l), int fd, off64_t l)

/* Preloaded into the process that saves checkpoints. Counts every file-system operation below one directory and, when
 * armed, ends the process (SIGKILL) before the k-th one, after a partial write, or makes it fail with an errno. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char root[2][4096];
static size_t rootlen[2];
static long armed = -1, count_;
static int mode_, err_;
static double frac_;
static unsigned char tracked[65536];
static char log_[1 << 16];
static size_t loglen;

#define REAL(t, n, ...) static t (*real)(__VA_ARGS__); if (!real) real = (t (*)(__VA_ARGS__))dlsym(RTLD_NEXT, n)

void pv_root(int i, const char *p) { strncpy(root[i], p, sizeof root[i] - 1); rootlen[i] = strlen(root[i]); }
void pv_arm(long k, int mode, int err, double frac) { armed = k; mode_ = mode; err_ = err; frac_ = frac; count_ = 0; loglen = 0; log_[0] = 0; }
long pv_count(void) { return count_; }
const char *pv_log(void) { return log_; }

static int below(int dirfd, const char *p) {
  char buf[8192];
  if (!p || !rootlen[0]) return 0;
  if (p[0] != '/') {
    if (dirfd == AT_FDCWD) { if (!getcwd(buf, 4096)) return 0; }
    else {
      char l[64]; ssize_t n; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
      n = readlink(l, buf, 4095); if (n < 0) return 0; buf[n] = 0;
    }
    strncat(buf, "/", sizeof buf - strlen(buf) - 1);
    strncat(buf, p, sizeof buf - strlen(buf) - 1);
    p = buf;
  }
  return strncmp(p, root[0], rootlen[0]) == 0 || (rootlen[1] && strncmp(p, root[1], rootlen[1]) == 0);
}
/* 0: go on; 1: fail with errno set; 2: partial write, then die */
static int op(const char *name) {
  if (armed < 0) return 0;
  if (loglen + 40 < sizeof log_) loglen += snprintf(log_ + loglen, 40, "%s ", name);
  count_++;
  if (count_ != armed) return 0;
  if (mode_ == 1) { errno = err_; return 1; }
  if (mode_ == 2 && strcmp(name, "write") == 0) return 2;
  kill(getpid(), SIGKILL);
  for (;;) pause();
}
static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }
static int is(int fd) { return fd >= 0 && fd < 65536 && tracked[fd]; }
static int wr(int flags) { return (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0; }

#define OPEN(NAME) \
int NAME(const char *p, int flags, ...) { \
  REAL(int, #NAME, const char *, int, ...); mode_t m = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
  int b = below(AT_FDCWD, p) && wr(flags); \
  if (b && op("open")) return -1; \
  int fd = real(p, flags, m); if (b && fd >= 0 && fd < 65536) tracked[fd] = 1; return fd; }
OPEN(open)
OPEN(open64)
#define OPENAT(NAME) \
int NAME(int d, const char *p, int flags, ...) { \
  REAL(int, #NAME, int, const char *, int, ...); mode_t m = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
  int b = below(d, p) && wr(flags); \
  if (b && op("open")) return -1; \
  int fd = real(d, p, flags, m); if (b && fd >= 0 && fd < 65536) tracked[fd] = 1; return fd; }
OPENAT(openat)
OPENAT(openat64)

ssize_t write(int fd, const void *b, size_t n) {
  REAL(ssize_t, "write", int, const void *, size_t);
  if (is(fd)) { int r = op("write"); if (r == 1) return -1; if (r == 2) { real(fd, b, (size_t)(n * frac_)); die(); } }
  return real(fd, b, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t);
  if (is(fd)) { int r = op("write"); if (r == 1) return -1; if (r == 2) { real(fd, b, (size_t)(n * frac_), o); die(); } }
  return real(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, "writev", int, const struct iovec *, int);
  if (is(fd) && op("writev")) return -1;
  return real(fd, v, c);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
  REAL(ssize_t, "sendfile", int, int, off_t *, size_t);
  if (is(o)) { int r = op("write"); if (r == 1) return -1; if (r == 2) { real(o, i, off, (size_t)(n * frac_)); die(); } }
  return real(o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) {
  REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t);
  if (is(o)) { int r = op("write"); if (r == 1) return -1; if (r == 2) { real(o, i, off, (size_t)(n * frac_)); die(); } }
  return real(o, i, off, n);
}
ssize_t copy_file_range(int i, off64_t *oi, int o, off64_t *oo, size_t n, unsigned f) {
  REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
  if (is(o)) { int r = op("write"); if (r == 1) return -1; if (r == 2) { real(i, oi, o, oo, (size_t)(n * frac_), f); die(); } }
  return real(i, oi, o, oo, n, f);
}
#define FD1(NAME) int NAME(int fd) { REAL(int, #NAME, int); if (is(fd) && op(#NAME)) return -1; return real(fd); }
FD1(fsync)
FD1(fdatasync)
int close(int fd) {
  REAL(int, "close", int);
  if (is(fd)) { int r = op("close"); tracked[fd] = 0; if (r) { int e = errno; real(fd); errno = e; return -1; } }
  return real(fd);
}
int ftruncate64(int fd, off64_t n) { REAL(int, "ftruncate64", int, off64_t); if (is(fd) && op("truncate")) return -1; return real(fd, n); }
int truncate64(const char *p, off64_t n) { REAL(int, "truncate64", const char *, off64_t); if (below(AT_FDCWD, p) && op("truncate")) return -1; return real(p, n); }
int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *); if ((below(AT_FDCWD, a) || below(AT_FDCWD, b)) && op("rename")) return -1; return real(a, b); }
int renameat(int x, const char *a, int y, const char *b) { REAL(int, "renameat", int, const char *, int, const char *); if ((below(x, a) || below(y, b)) && op("rename")) return -1; return real(x, a, y, b); }
int link(const char *a, const char *b) { REAL(int, "link", const char *, const char *); if (below(AT_FDCWD, b) && op("link")) return -1; return real(a, b); }
int linkat(int x, const char *a, int y, const char *b, int f) { REAL(int, "linkat", int, const char *, int, const char *, int); if (below(y, b) && op("link")) return -1; return real(x, a, y, b, f); }
int unlink(const char *a) { REAL(int, "unlink", const char *); if (below(AT_FDCWD, a) && op("unlink")) return -1; return real(a); }
int unlinkat(int x, const char *a, int f) { REAL(int, "unlinkat", int, const char *, int); if (below(x, a) && op("unlink")) return -1; return real(x, a, f); }

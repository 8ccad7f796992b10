// Library interposition for fault enumeration: counts the file operations of a process below one directory and,
// at the n-th one, kills the process (after a part of the write) or makes the operation fail.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char prefix[PATH_MAX];
static int armed, mode, frac, err;
static long countdown, seen, fired;
static char trace[1 << 16];
static size_t tlen;

enum { KILL = 1, FAIL_ONCE = 2, FAIL_STICKY = 3 };

void shim_arm(const char *p, long n, int m, int f, int e) {
  snprintf(prefix, sizeof prefix, "%s", p);
  countdown = n; mode = m; frac = f; err = e; seen = 0; fired = 0; tlen = 0; trace[0] = 0; armed = 1;
}
void shim_disarm(void) { armed = 0; }
long shim_seen(void) { return seen; }
long shim_fired(void) { return fired; }
const char *shim_trace(void) { return trace; }

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static int mine_path(const char *p) {
  if (!armed || !p) return 0;
  if (p[0] == '/') return strncmp(p, prefix, strlen(prefix)) == 0;
  return 0;
}
static int mine_fd(int fd) {
  if (!armed) return 0;
  char link[64], buf[PATH_MAX];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(link, buf, sizeof buf - 1);
  if (n <= 0) return 0;
  buf[n] = 0;
  return strncmp(buf, prefix, strlen(prefix)) == 0;
}
static void die(void) { raise(SIGKILL); _exit(137); }

// 0: do it; 1: fail with err; 2: (writes) do a part then die or fail
static int hit(const char *op, const char *what) {
  seen++;
  if (tlen + 200 < sizeof trace) tlen += snprintf(trace + tlen, 200, "%s %.120s\n", op, what ? strrchr(what, '/') ? strrchr(what, '/') + 1 : what : "");
  if (mode == 0) return 0;
  if (fired) return mode == FAIL_STICKY ? 1 : 0;
  if (seen < countdown) return 0;
  fired = seen;
  return 2;
}

static int simple(const char *op, const char *what) {
  int h = hit(op, what);
  if (h == 2 && mode == KILL) { if (frac == 0) die(); return 3; }  // 3: do it, then die
  return h ? 1 : 0;
}

#define PATHOP(name, sig, args, path) \
  int name sig { REAL(int, name, ARGT_##name); \
    if (mine_path(path)) { int h = simple(#name, path); if (h == 1) { errno = err; return -1; } \
      int r = real args; if (h == 3) die(); return r; } \
    return real args; }
#define ARGT_unlink const char *
#define ARGT_rmdir const char *
#define ARGT_mkdir const char *, mode_t
#define ARGT_rename const char *, const char *
#define ARGT_link const char *, const char *
#define ARGT_symlink const char *, const char *
#define ARGT_unlinkat int, const char *, int
#define ARGT_renameat int, const char *, int, const char *
#define ARGT_truncate const char *, off_t
PATHOP(unlink, (const char *p), (p), p)
PATHOP(rmdir, (const char *p), (p), p)
PATHOP(mkdir, (const char *p, mode_t m), (p, m), p)
PATHOP(rename, (const char *a, const char *b), (a, b), b)
PATHOP(link, (const char *a, const char *b), (a, b), b)
PATHOP(symlink, (const char *a, const char *b), (a, b), b)
PATHOP(unlinkat, (int d, const char *p, int f), (d, p, f), p)
PATHOP(renameat, (int d, const char *a, int e, const char *b), (d, a, e, b), b)
PATHOP(truncate, (const char *p, off_t n), (p, n), p)

#define OPEN(name) \
  int name(const char *p, int flags, ...) { \
    REAL(int, name, const char *, int, ...); mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    if ((flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && mine_path(p)) { \
      int h = simple("open", p); if (h == 1) { errno = err; return -1; } \
      int r = real(p, flags, m); if (h == 3) die(); return r; } \
    return real(p, flags, m); }
OPEN(open)
OPEN(open64)
#define OPENAT(name) \
  int name(int d, const char *p, int flags, ...) { \
    REAL(int, name, int, const char *, int, ...); mode_t m = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
    if ((flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && mine_path(p)) { \
      int h = simple("open", p); if (h == 1) { errno = err; return -1; } \
      int r = real(d, p, flags, m); if (h == 3) die(); return r; } \
    return real(d, p, flags, m); }
OPENAT(openat)
OPENAT(openat64)

static size_t part(size_t n) { size_t k = (size_t)((double)n * frac / 100.0); return k > n ? n : k; }

ssize_t write(int fd, const void *b, size_t n) {
  REAL(ssize_t, write, int, const void *, size_t);
  if (mine_fd(fd)) {
    int h = hit("write", "");
    if (h == 1) { errno = err; return -1; }
    if (h == 2) {
      size_t k = part(n);
      ssize_t r = k ? real(fd, b, k) : 0;
      if (mode == KILL) die();
      if (k && k < n) return r;  // a short write; in sticky mode the next one fails
      errno = err; return -1;
    }
  }
  return real(fd, b, n);
}
#define PWRITE(name, off) ssize_t name(int fd, const void *b, size_t n, off o) { \
  REAL(ssize_t, name, int, const void *, size_t, off); \
  if (mine_fd(fd)) { int h = hit("pwrite", ""); if (h == 1) { errno = err; return -1; } \
    if (h == 2) { size_t k = part(n); if (k) real(fd, b, k, o); if (mode == KILL) die(); errno = err; return -1; } } \
  return real(fd, b, n, o); }
PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)
ssize_t writev(int fd, const struct iovec *v, int n) {
  REAL(ssize_t, writev, int, const struct iovec *, int);
  if (mine_fd(fd)) { int h = simple("writev", ""); if (h == 1) { errno = err; return -1; } ssize_t r = real(fd, v, n); if (h == 3) die(); return r; }
  return real(fd, v, n);
}
size_t fwrite(const void *b, size_t sz, size_t n, FILE *f) {
  REAL(size_t, fwrite, const void *, size_t, size_t, FILE *);
  if (armed && mine_fd(fileno(f))) {
    int h = hit("fwrite", "");
    if (h == 1) { errno = err; return 0; }
    if (h == 2) {
      // a part of the bytes reaches the file
      size_t k = part(sz * n);
      if (k) { real(b, 1, k, f); fflush(f); }
      if (mode == KILL) die();
      errno = err; return sz ? k / sz : 0;
    }
  }
  return real(b, sz, n, f);
}
int fclose(FILE *f) {
  REAL(int, fclose, FILE *);
  if (armed && mine_fd(fileno(f))) { int h = simple("fclose", ""); if (h == 1) { real(f); errno = err; return EOF; } int r = real(f); if (h == 3) die(); return r; }
  return real(f);
}
#define FDOP(name, sig, args) int name sig { REAL(int, name, ARGT_##name); \
  if (mine_fd(fd)) { int h = simple(#name, ""); if (h == 1) { errno = err; return -1; } int r = real args; if (h == 3) die(); return r; } return real args; }
#define ARGT_ftruncate int, off_t
#define ARGT_ftruncate64 int, off64_t
#define ARGT_fsync int
#define ARGT_fdatasync int
FDOP(ftruncate, (int fd, off_t n), (fd, n))
FDOP(ftruncate64, (int fd, off64_t n), (fd, n))
FDOP(fsync, (int fd), (fd))
FDOP(fdatasync, (int fd), (fd))
ssize_t sendfile(int fd, int in, off_t *o, size_t n) {
  REAL(ssize_t, sendfile, int, int, off_t *, size_t);
  if (mine_fd(fd)) { int h = hit("sendfile", ""); if (h == 1) { errno = err; return -1; }
    if (h == 2) { size_t k = part(n); if (k) real(fd, in, o, k); if (mode == KILL) die(); errno = err; return -1; } }
  return real(fd, in, o, n);
}
ssize_t copy_file_range(int in, off64_t *oi, int fd, off64_t *oo, size_t n, unsigned fl) {
  REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
  if (mine_fd(fd)) { int h = simple("copy_file_range", ""); if (h == 1) { errno = err; return -1; } ssize_t r = real(in, oi, fd, oo, n, fl); if (h == 3) die(); return r; }
  return real(in, oi, fd, oo, n, fl);
}

/* Counts the file-system calls below one directory, records them and makes the n-th one crash or fail. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <unistd.h>
#define NFD 4096
static char root[PATH_MAX];
static int logfd = -1, mode = 0;       /* 0 nothing, 1 crash before, 2 crash after, 3 crash halfway through a write, 4 fail */
static long at = -1, count = 0;
static char mine[NFD];
static int busy = 0;
static void emit(const char *fmt, ...) {
  char b[2 * PATH_MAX + 64]; va_list a; int n;
  if (logfd < 0) return;
  va_start(a, fmt); n = vsnprintf(b, sizeof b, fmt, a); va_end(a);
  syscall(SYS_write, logfd, b, n);
}
static int below(const char *p) { return root[0] && p && strncmp(p, root, strlen(root)) == 0; }
static void die(void) { syscall(SYS_exit_group, 77); }
/* 1: make the call fail */
static int step(void) {
  long n = count++;
  if (at < 0 || n != at) return 0;
  if (mode == 1) { emit("crash\n"); die(); }
  if (mode == 4) { emit("fail\n"); errno = ENOSPC; return 1; }
  return 0;
}
static void after(void) { if (at >= 0 && count - 1 == at && (mode == 2 || mode == 3)) { emit("crash\n"); die(); } }
void shim_arm(const char *dir, int log, long n, int m) {
  strncpy(root, dir, sizeof root - 1); logfd = log; at = n; mode = m; count = 0; memset(mine, 0, sizeof mine);
}
long shim_count(void) { return count; }
void shim_env(void) __attribute__((constructor));
void shim_env(void) {
  const char *d = getenv("SHIM_DIR"), *l = getenv("SHIM_LOG");
  if (d && l) { strncpy(root, d, sizeof root - 1); logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644); }
}
static int opened(int fd, const char *p, int flags) {
  if (fd >= 0 && fd < NFD && below(p) && (flags & (O_WRONLY | O_RDWR))) {
    mine[fd] = 1; emit("open %d %d %s\n", fd, (flags & O_TRUNC) ? 1 : (flags & O_EXCL) ? 2 : 0, p); after();
  }
  return fd;
}
#define W(flags) ((flags) & (O_WRONLY | O_RDWR))
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)
#define MODE mode_t md = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); md = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int flags, ...) { REAL(int, "open", const char *, int, ...); MODE
  if (W(flags) && below(p) && step()) return -1; return opened(real(p, flags, md), p, flags); }
int open64(const char *p, int flags, ...) { REAL(int, "open64", const char *, int, ...); MODE
  if (W(flags) && below(p) && step()) return -1; return opened(real(p, flags, md), p, flags); }
int openat(int d, const char *p, int flags, ...) { REAL(int, "openat", int, const char *, int, ...); MODE
  if (W(flags) && below(p) && step()) return -1; return opened(real(d, p, flags, md), p, flags); }
int openat64(int d, const char *p, int flags, ...) { REAL(int, "openat64", int, const char *, int, ...); MODE
  if (W(flags) && below(p) && step()) return -1; return opened(real(d, p, flags, md), p, flags); }
#define MINE(fd) ((fd) >= 0 && (fd) < NFD && mine[fd])
ssize_t write(int fd, const void *b, size_t n) { REAL(ssize_t, "write", int, const void *, size_t);
  if (!MINE(fd)) return real(fd, b, n);
  if (step()) return -1;
  if (at >= 0 && count - 1 == at && mode == 3) { real(fd, b, n / 2); emit("write %d %zu\n", fd, n / 2); after(); }
  ssize_t r = real(fd, b, n); emit("write %d %zd\n", fd, r); after(); return r; }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { REAL(ssize_t, "pwrite64", int, const void *, size_t, off64_t);
  if (!MINE(fd)) return real(fd, b, n, o);
  if (step()) return -1; ssize_t r = real(fd, b, n, o); emit("write %d %zd\n", fd, r); after(); return r; }
ssize_t writev(int fd, const struct iovec *v, int n) { REAL(ssize_t, "writev", int, const struct iovec *, int);
  if (!MINE(fd)) return real(fd, v, n);
  if (step()) return -1; ssize_t r = real(fd, v, n); emit("write %d %zd\n", fd, r); after(); return r; }
ssize_t sendfile(int o, int i, off_t *f, size_t n) { REAL(ssize_t, "sendfile", int, int, off_t *, size_t);
  if (!MINE(o)) return real(o, i, f, n);
  if (step()) return -1; ssize_t r = real(o, i, f, n); emit("write %d %zd\n", o, r); after(); return r; }
ssize_t sendfile64(int o, int i, off64_t *f, size_t n) { REAL(ssize_t, "sendfile64", int, int, off64_t *, size_t);
  if (!MINE(o)) return real(o, i, f, n);
  if (step()) return -1; ssize_t r = real(o, i, f, n); emit("write %d %zd\n", o, r); after(); return r; }
ssize_t copy_file_range(int i, off64_t *a, int o, off64_t *c, size_t n, unsigned f) { REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
  if (!MINE(o)) return real(i, a, o, c, n, f);
  if (step()) return -1; ssize_t r = real(i, a, o, c, n, f); emit("write %d %zd\n", o, r); after(); return r; }
int ftruncate64(int fd, off64_t n) { REAL(int, "ftruncate64", int, off64_t);
  if (!MINE(fd)) return real(fd, n);
  if (step()) return -1; int r = real(fd, n); emit("write %d 0\n", fd); after(); return r; }
int close(int fd) { REAL(int, "close", int);
  if (!MINE(fd)) return real(fd);
  if (step()) errno = 0;
  mine[fd] = 0; int r = real(fd); emit("close %d\n", fd); after(); return r; }
int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *);
  if (!below(a) && !below(b)) return real(a, b);
  if (step()) return -1; int r = real(a, b); if (!r) emit("rename %s\t%s\n", a, b); after(); return r; }
int renameat(int d, const char *a, int e, const char *b) { REAL(int, "renameat", int, const char *, int, const char *);
  if (!below(a) && !below(b)) return real(d, a, e, b);
  if (step()) return -1; int r = real(d, a, e, b); if (!r) emit("rename %s\t%s\n", a, b); after(); return r; }
int link(const char *a, const char *b) { REAL(int, "link", const char *, const char *);
  if (!below(a) && !below(b)) return real(a, b);
  if (step()) return -1; int r = real(a, b); if (!r) emit("link %s\t%s\n", a, b); after(); return r; }
int unlink(const char *a) { REAL(int, "unlink", const char *);
  if (!below(a)) return real(a);
  if (step()) return -1; int r = real(a); if (!r) emit("unlink %s\n", a); after(); return r; }
int unlinkat(int d, const char *a, int f) { REAL(int, "unlinkat", int, const char *, int);
  if (!below(a)) return real(d, a, f);
  if (step()) return -1; int r = real(d, a, f); if (!r) emit("unlink %s\n", a); after(); return r; }

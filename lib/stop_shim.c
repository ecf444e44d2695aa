/* Counts the file system steps a process makes below a directory and stops it at a chosen one.
   stop_arm(prefix, at, mode): mode 0 count only, 1 exit before step <at>, 2 exit after half of
   the write that is step <at>, 3 every step from <at> on fails (no space).
   Armed from the environment instead (STOP_PREFIX, STOP_AT, STOP_MODE, STOP_LOG), the steps of all
   processes of the group are counted together (as bytes of STOP_LOG): 5 the group is killed before
   step <at>, 6 it is interrupted (SIGINT) before step <at>, 7 it is killed after half of the write,
   8 every write from <at> on fails (no space). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
void stop_arm(const char *, int, int);
static char prefix[4096]; static int armed, at, mode; static long count; static char mine[65536];
void stop_arm(const char *p, int a, int m) { armed = 0; strncpy(prefix, p, sizeof prefix - 1); at = a; mode = m; count = 0; memset(mine, 0, sizeof mine); armed = 1; }
long stop_count(void) { return count; }
void stop_disarm(void) { armed = 0; }
static int slog = -1;
static void die(void) { kill(0, SIGKILL); for (;;) pause(); }
__attribute__((constructor)) static void from_env(void) {
  const char *p = getenv("STOP_PREFIX");
  if (!p) return;
  slog = syscall(SYS_openat, AT_FDCWD, getenv("STOP_LOG"), O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600);
  if (slog >= 0) { int hi = fcntl(slog, F_DUPFD_CLOEXEC, 900); if (hi >= 0) { syscall(SYS_close, slog); slog = hi; } }
  stop_arm(p, atoi(getenv("STOP_AT")), atoi(getenv("STOP_MODE")));
}
static int under(const char *p) {
  char buf[8192];
  if (!armed || !p) return 0;
  if (p[0] == '/') return strncmp(p, prefix, strlen(prefix)) == 0;
  if (!getcwd(buf, 4000)) return 0;
  strcat(buf, "/"); strncat(buf, p, 4000);
  return strncmp(buf, prefix, strlen(prefix)) == 0;
}
/* 0: go on, 1: fail with ENOSPC */
static int step(void) {
  if (slog >= 0) {
    syscall(SYS_write, slog, "x", 1);
    count = lseek(slog, 0, SEEK_CUR);      /* O_APPEND: position after the own byte */
    if (mode == 5 && count >= at) die();
    if (mode == 6 && count == at) kill(0, SIGINT);
    return 0;
  }
  count++;
  if (mode == 1 && count == at) _exit(77);
  if (mode == 3 && count >= at) { errno = ENOSPC; return 1; }
  return 0;
}
#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))
#define OPENLIKE(fn) \
  int fn(const char *p, int flags, ...) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); \
    static int (*r)(const char *, int, ...); if (!r) r = dlsym(RTLD_NEXT, #fn); \
    int w = (flags & O_ACCMODE) != O_RDONLY && under(p); \
    if (w && step()) return -1; \
    int fd = r(p, flags, m); if (fd >= 0 && fd < 65536) mine[fd] = w; return fd; }
OPENLIKE(open)
OPENLIKE(open64)
#define OPENATLIKE(fn) \
  int fn(int d, const char *p, int flags, ...) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); \
    static int (*r)(int, const char *, int, ...); if (!r) r = dlsym(RTLD_NEXT, #fn); \
    int w = (flags & O_ACCMODE) != O_RDONLY && under(p); \
    if (w && step()) return -1; \
    int fd = r(d, p, flags, m); if (fd >= 0 && fd < 65536) mine[fd] = w; return fd; }
OPENATLIKE(openat)
OPENATLIKE(openat64)
#define FOPENLIKE(fn) \
  FILE *fn(const char *p, const char *m) { static FILE *(*r)(const char *, const char *); if (!r) r = dlsym(RTLD_NEXT, #fn); \
    int w = (m[0] != 'r' || strchr(m, '+')) && under(p); \
    if (w && step()) return NULL; \
    FILE *f = r(p, m); if (f && fileno(f) >= 0 && fileno(f) < 65536) mine[fileno(f)] = w; return f; }
FOPENLIKE(fopen)
FOPENLIKE(fopen64)
static int half(void) { return (mode == 2 && count == at) || (mode == 7 && count == at); }
static void out(void) { if (mode == 7) die(); _exit(77); }
static int full(void) { if (mode == 8 && count >= at) { errno = ENOSPC; return 1; } return 0; }
static int wr(int fd) { return armed && fd >= 0 && fd < 65536 && mine[fd]; }
ssize_t write(int fd, const void *b, size_t n) { static ssize_t (*r)(int, const void *, size_t); if (!r) r = dlsym(RTLD_NEXT, "write");
  if (wr(fd)) { if (step() || full()) return -1; if (half()) { r(fd, b, n / 2); out(); } } return r(fd, b, n); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { static ssize_t (*r)(int, const void *, size_t, off_t); if (!r) r = dlsym(RTLD_NEXT, "pwrite");
  if (wr(fd)) { if (step() || full()) return -1; if (half()) { r(fd, b, n / 2, o); out(); } } return r(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { static ssize_t (*r)(int, const void *, size_t, off64_t); if (!r) r = dlsym(RTLD_NEXT, "pwrite64");
  if (wr(fd)) { if (step() || full()) return -1; if (half()) { r(fd, b, n / 2, o); out(); } } return r(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int n) { static ssize_t (*r)(int, const struct iovec *, int); if (!r) r = dlsym(RTLD_NEXT, "writev");
  if (wr(fd)) { if (step() || full()) return -1; if (half()) { r(fd, v, n / 2); out(); } } return r(fd, v, n); }
int mkdir(const char *p, mode_t m) { static int (*r)(const char *, mode_t); if (!r) r = dlsym(RTLD_NEXT, "mkdir"); if (under(p) && step()) return -1; return r(p, m); }
int rename(const char *a, const char *b) { static int (*r)(const char *, const char *); if (!r) r = dlsym(RTLD_NEXT, "rename"); if (under(b) && step()) return -1; return r(a, b); }
int unlink(const char *p) { static int (*r)(const char *); if (!r) r = dlsym(RTLD_NEXT, "unlink"); if (under(p) && step()) return -1; return r(p); }
int ftruncate(int fd, off_t n) { static int (*r)(int, off_t); if (!r) r = dlsym(RTLD_NEXT, "ftruncate"); if (wr(fd) && step()) return -1; return r(fd, n); }
int ftruncate64(int fd, off64_t n) { static int (*r)(int, off64_t); if (!r) r = dlsym(RTLD_NEXT, "ftruncate64"); if (wr(fd) && step()) return -1; return r(fd, n); }
int close(int fd) { static int (*r)(int); if (!r) r = dlsym(RTLD_NEXT, "close"); if (fd >= 0 && fd < 65536) mine[fd] = 0; return r(fd); }

// LD_PRELOAD monitor and fault injector for file-system calls below one
// directory.  Armed from the process under test through vpf_arm(); at every
// intercepted call it records what the watched target path currently holds
// (online trace), and at call number k it injects a fault.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char g_dir[4096], g_target[4096];
static int g_armed, g_k, g_n, g_mode, g_log = -1;
static __thread int g_in;
enum { NONE = 0, EIO_ = 1, ENOSPC_ = 2, KILL_ = 3, INT_ = 4, SHORT_ = 5, EINTR_ = 6 };

void vpf_arm(const char* dir, const char* target, int k, int mode, int logfd) {
  strncpy(g_dir, dir, sizeof g_dir - 1);
  strncpy(g_target, target, sizeof g_target - 1);
  g_k = k; g_mode = mode; g_n = 0; g_log = logfd;
  g_armed = 1;
}
int vpf_disarm(void) { g_armed = 0; return g_n; }
int vpf_count(void) { return g_n; }

static int below(const char* p) {
  char buf[8192];
  if (!p) return 0;
  if (p[0] != '/') {
    if (!getcwd(buf, 4096)) return 0;
    strcat(buf, "/");
    strncat(buf, p, 4000);
    p = buf;
  }
  size_t n = strlen(g_dir);
  return strncmp(p, g_dir, n) == 0 && (p[n] == '/' || p[n] == 0);
}
static int fd_below(int fd) {
  char l[64], buf[4096];
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, l, buf, sizeof buf - 1);
  if (n <= 0) return 0;
  buf[n] = 0;
  return below(buf);
}
static unsigned long target_hash(long* size) {
  int fd = syscall(SYS_openat, AT_FDCWD, g_target, O_RDONLY, 0);
  *size = -1;
  if (fd < 0) return 0;
  unsigned long h = 1469598103934665603UL;
  static char b[1 << 16];
  ssize_t n; *size = 0;
  while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) {
    *size += n;
    for (ssize_t i = 0; i < n; ++i) { h ^= (unsigned char)b[i]; h *= 1099511628211UL; }
  }
  syscall(SYS_close, fd);
  return h;
}
// returns the fault to inject in this call
static int hit(const char* what) {
  g_in = 1;
  int n = ++g_n, f = NONE;
  if (g_log >= 0) {
    long sz; unsigned long h = target_hash(&sz);
    char line[128];
    int l = snprintf(line, sizeof line, "%d %s %ld %lx\n", n, what, sz, h);
    syscall(SYS_write, g_log, line, l);
  }
  if (n == g_k) {
    f = g_mode;
    if (f == KILL_) { syscall(SYS_kill, getpid(), SIGKILL); }
    if (f == INT_) { raise(SIGINT); f = NONE; }
  }
  g_in = 0;
  return f;
}
#define REAL(name) static __typeof__(&name) r; if (!r) r = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
#define ON (g_armed && !g_in)
static int err(int f) { errno = f == ENOSPC_ ? ENOSPC : f == EINTR_ ? EINTR : EIO; return -1; }
#define FAIL(f) ((f) == EIO_ || (f) == ENOSPC_)

ssize_t write(int fd, const void* b, size_t n) {
  REAL(write);
  if (ON && fd > 2 && fd_below(fd)) {
    int f = hit("write");
    if (FAIL(f)) return err(f);
    if (f == SHORT_ && n > 1) return r(fd, b, n / 2);
    if (f == EINTR_) return err(f);
  }
  return r(fd, b, n);
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
  REAL(pwrite);
  if (ON && fd_below(fd)) { int f = hit("pwrite"); if (FAIL(f)) return err(f); if (f == SHORT_ && n > 1) return r(fd, b, n / 2, o); }
  return r(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) {
  REAL(pwrite64);
  if (ON && fd_below(fd)) { int f = hit("pwrite"); if (FAIL(f)) return err(f); if (f == SHORT_ && n > 1) return r(fd, b, n / 2, o); }
  return r(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  REAL(writev);
  if (ON && fd > 2 && fd_below(fd)) { int f = hit("writev"); if (FAIL(f)) return err(f); }
  return r(fd, v, c);
}
int rename(const char* a, const char* b) {
  REAL(rename);
  if (ON && (below(a) || below(b))) { int f = hit("rename"); if (FAIL(f)) return err(f); }
  return r(a, b);
}
int renameat(int da, const char* a, int db, const char* b) {
  REAL(renameat);
  if (ON && (below(a) || below(b))) { int f = hit("rename"); if (FAIL(f)) return err(f); }
  return r(da, a, db, b);
}
int link(const char* a, const char* b) {
  REAL(link);
  if (ON && (below(a) || below(b))) { int f = hit("link"); if (FAIL(f)) return err(f); }
  return r(a, b);
}
// removal is observed but never made to fail: cleaning up is what is judged
int unlink(const char* a) {
  REAL(unlink);
  if (ON && below(a)) hit("unlink");
  return r(a);
}
int ftruncate(int fd, off_t n) {
  REAL(ftruncate);
  if (ON && fd_below(fd)) { int f = hit("ftruncate"); if (FAIL(f)) return err(f); }
  return r(fd, n);
}
int ftruncate64(int fd, off64_t n) {
  REAL(ftruncate64);
  if (ON && fd_below(fd)) { int f = hit("ftruncate"); if (FAIL(f)) return err(f); }
  return r(fd, n);
}
int fsync(int fd) {
  REAL(fsync);
  if (ON && fd_below(fd)) { int f = hit("fsync"); if (FAIL(f)) return err(f); }
  return r(fd);
}
int close(int fd) {
  REAL(close);
  if (ON && fd > 2 && fd_below(fd)) {
    int f = hit("close");
    if (FAIL(f)) { r(fd); return err(f); }
  }
  return r(fd);
}
static int do_open(const char* p, int fl, mode_t m, int at, int big) {
  if (ON && below(p) && (fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC))) {
    int f = hit("open");
    if (FAIL(f)) return err(f);
  }
  (void)big;
  int rc = (int)syscall(SYS_openat, at, p, fl | (big ? O_LARGEFILE : 0), m);
  return rc;
}
#define MODE() mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, int); va_end(ap); }
int open(const char* p, int fl, ...) { MODE() return do_open(p, fl, m, AT_FDCWD, 0); }
int open64(const char* p, int fl, ...) { MODE() return do_open(p, fl, m, AT_FDCWD, 1); }
int openat(int d, const char* p, int fl, ...) { MODE() return do_open(p, fl, m, d, 0); }
int openat64(int d, const char* p, int fl, ...) { MODE() return do_open(p, fl, m, d, 1); }
FILE* fopen(const char* p, const char* mode) {
  REAL(fopen);
  if (ON && below(p) && mode[0] != 'r') { int f = hit("open"); if (FAIL(f)) { err(f); return NULL; } }
  return r(p, mode);
}

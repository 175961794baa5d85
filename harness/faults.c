// LD_PRELOAD library: counts htmlext's calls that open, read and write the
// files of one directory and the standard streams, and lets one of them fail.
//   VH_ROOT   directory whose files are watched
//   VH_LOG    file that receives one line per call: "<op> <k> <path or fd> <fate>"
//   VH_FAULT  "<op> <k> <errno|short|eof>": what happens to the k-th call of that kind
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static int started, log_fd = -1, fault_k, fault_errno, fault_short, busy;
static char root[512], fault_op[16];
static int n_open, n_read, n_write;

static void start(void) {
  if (started) return;
  started = 1;
  const char* r = getenv("VH_ROOT");
  if (r && strlen(r) < sizeof root) strcpy(root, r);
  const char* l = getenv("VH_LOG");
  if (l) log_fd = (int)syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
  const char* f = getenv("VH_FAULT");
  char how[16] = "";
  if (f && sscanf(f, "%15s %d %15s", fault_op, &fault_k, how) == 3) {
    if (!strcmp(how, "short")) fault_short = 1;
    else fault_errno = atoi(how);
  }
}
static int by_path(const char* p) { return root[0] && p && !strncmp(p, root, strlen(root)); }
static int by_fd(int fd) {
  if (fd == log_fd) return 0;
  if (fd == 0 || fd == 1) return 1;
  char l[64], p[1024];
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, l, p, sizeof p - 1);
  if (n <= 0) return 0;
  p[n] = 0;
  return by_path(p);
}
// 0: go on; 1: fail with errno set; 2: transfer less than asked
static int decide(const char* op, int* n, const char* what) {
  int k = ++*n, fate = 0;
  if (fault_k == k && !strcmp(op, fault_op)) fate = fault_short ? 2 : 1;
  if (log_fd >= 0) {
    char b[1200];
    int m = snprintf(b, sizeof b, "%s %d %s %s\n", op, k, what, fate == 1 ? "failed" : fate == 2 ? "short" : "ok");
    syscall(SYS_write, log_fd, b, (size_t)m);
  }
  if (fate == 1) errno = fault_errno;
  return fate;
}
#define REAL(T, name, ...) static T (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, name); start();

FILE* fopen(const char* p, const char* m) {
  REAL(FILE*, "fopen", const char*, const char*)
  if (by_path(p) && decide("open", &n_open, p) == 1) return NULL;
  return real(p, m);
}
FILE* fopen64(const char* p, const char* m) {
  REAL(FILE*, "fopen64", const char*, const char*)
  if (by_path(p) && decide("open", &n_open, p) == 1) return NULL;
  return real(p, m);
}
static int mode_of(int f, va_list a) { return (f & (O_CREAT | O_TMPFILE)) ? va_arg(a, int) : 0; }
#define OPEN(name)                                                             \
  int name(const char* p, int f, ...) {                                        \
    va_list a; va_start(a, f); int m = mode_of(f, a); va_end(a);               \
    REAL(int, #name, const char*, int, ...)                                    \
    if (by_path(p) && decide("open", &n_open, p) == 1) return -1;              \
    return real(p, f, m);                                                      \
  }
OPEN(open)
OPEN(open64)
#define OPENAT(name)                                                           \
  int name(int d, const char* p, int f, ...) {                                 \
    va_list a; va_start(a, f); int m = mode_of(f, a); va_end(a);               \
    REAL(int, #name, int, const char*, int, ...)                               \
    if (by_path(p) && decide("open", &n_open, p) == 1) return -1;              \
    return real(d, p, f, m);                                                   \
  }
OPENAT(openat)
OPENAT(openat64)

static int io(int fd, const char* op, int* n) {
  char b[24];
  snprintf(b, sizeof b, "fd%d", fd);
  return decide(op, n, b);
}
ssize_t read(int fd, void* p, size_t n) {
  REAL(ssize_t, "read", int, void*, size_t)
  if (by_fd(fd)) { int d = io(fd, "read", &n_read); if (d == 1) return -1; if (d == 2 && n > 1) n = 1; }
  return real(fd, p, n);
}
ssize_t readv(int fd, const struct iovec* v, int c) {
  REAL(ssize_t, "readv", int, const struct iovec*, int)
  if (by_fd(fd) && io(fd, "read", &n_read) == 1) return -1;
  return real(fd, v, c);
}
ssize_t pread(int fd, void* p, size_t n, off_t o) {
  REAL(ssize_t, "pread", int, void*, size_t, off_t)
  if (by_fd(fd)) { int d = io(fd, "read", &n_read); if (d == 1) return -1; if (d == 2 && n > 1) n = 1; }
  return real(fd, p, n, o);
}
ssize_t write(int fd, const void* p, size_t n) {
  REAL(ssize_t, "write", int, const void*, size_t)
  if (fd != 2 && by_fd(fd)) { int d = io(fd, "write", &n_write); if (d == 1) return -1; if (d == 2 && n > 1) n = n / 2; }
  return real(fd, p, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  REAL(ssize_t, "writev", int, const struct iovec*, int)
  if (fd != 2 && by_fd(fd)) { int d = io(fd, "write", &n_write); if (d == 1) return -1; if (d == 2 && c > 1) c = 1; }
  return real(fd, v, c);
}

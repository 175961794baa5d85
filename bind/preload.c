/* Preloaded into the interpreters. Opening /proc/self/vh-live gives the number
   of bytes that are allocated on the heap (from ASan's allocator), and
   dlopen() ignores RTLD_DEEPBIND, which ASan cannot work with. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

extern size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));

static int live(const char *p) {
  if (!p || strcmp(p, "/proc/self/vh-live") != 0) return -1;
  char b[32];
  size_t n = __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0;
  int len = snprintf(b, sizeof b, "%zu\n", n);
  int fd = memfd_create("live", MFD_CLOEXEC);
  if (fd < 0 || write(fd, b, len) != len || lseek(fd, 0, SEEK_SET) != 0) return -1;
  return fd;
}

#define MODE(last) \
  mode_t m = 0; \
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, last); m = va_arg(ap, mode_t); va_end(ap); }

int open(const char *p, int flags, ...) {
  static int (*f)(const char *, int, ...);
  if (!f) f = dlsym(RTLD_NEXT, "open");
  MODE(flags)
  int fd = live(p);
  return fd >= 0 ? fd : f(p, flags, m);
}
int open64(const char *p, int flags, ...) {
  static int (*f)(const char *, int, ...);
  if (!f) f = dlsym(RTLD_NEXT, "open64");
  MODE(flags)
  int fd = live(p);
  return fd >= 0 ? fd : f(p, flags, m);
}
int openat(int d, const char *p, int flags, ...) {
  static int (*f)(int, const char *, int, ...);
  if (!f) f = dlsym(RTLD_NEXT, "openat");
  MODE(flags)
  int fd = live(p);
  return fd >= 0 ? fd : f(d, p, flags, m);
}
int openat64(int d, const char *p, int flags, ...) {
  static int (*f)(int, const char *, int, ...);
  if (!f) f = dlsym(RTLD_NEXT, "openat64");
  MODE(flags)
  int fd = live(p);
  return fd >= 0 ? fd : f(d, p, flags, m);
}
void *dlopen(const char *f, int flags) {
  static void *(*real)(const char *, int);
  if (!real) real = dlsym(RTLD_NEXT, "dlopen");
#ifdef RTLD_DEEPBIND
  flags &= ~RTLD_DEEPBIND;
#endif
  return real(f, flags);
}

// Variadic libc entry points, redirected to the simulator (see src/interpose.rs).
#include <stdarg.h>
#include <sys/types.h>

extern long sim_syscall(long n, long a, long b, long c, long d, long e, long f);
extern int sim_open(const char *p, int flags, unsigned mode);
extern int sim_openat(int dfd, const char *p, int flags, unsigned mode);
extern int sim_fcntl(int fd, int cmd, long arg);
extern int sim_ioctl(int fd, unsigned long req, long arg);

long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long);
  long d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  return sim_syscall(n, a, b, c, d, e, f);
}
#define OPEN(name) int name(const char *p, int flags, ...) { \
  va_list ap; va_start(ap, flags); unsigned m = va_arg(ap, unsigned); va_end(ap); \
  return sim_open(p, flags, m); }
OPEN(open) OPEN(open64)
#define OPENAT(name) int name(int d, const char *p, int flags, ...) { \
  va_list ap; va_start(ap, flags); unsigned m = va_arg(ap, unsigned); va_end(ap); \
  return sim_openat(d, p, flags, m); }
OPENAT(openat) OPENAT(openat64)
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  return sim_fcntl(fd, cmd, a);
}
int fcntl64(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  return sim_fcntl(fd, cmd, a);
}
int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); long a = va_arg(ap, long); va_end(ap);
  return sim_ioctl(fd, req, a);
}

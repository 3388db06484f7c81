// Preloaded into a tool: reads of some files fail after a number of bytes.
//   BREAK_READ=name=bytes[:name=bytes...]   (last component of the path)
//   BREAK_MARK=path                         (created when a read was made to fail)
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static long seen[1024];

static long Limit(int fd) {
  const char* spec = getenv("BREAK_READ");
  char link[64], path[4096];
  if (!spec || fd < 0 || fd >= 1024) return -1;
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  const ssize_t n = readlink(link, path, sizeof path - 1);
  if (n <= 0) return -1;
  path[n] = 0;
  const char* base = strrchr(path, '/');
  if (!base) return -1;
  ++base;
  const size_t len = strlen(base);
  while (*spec) {
    const char* end = strchr(spec, ':');
    const char* eq = strchr(spec, '=');
    if (eq && (size_t)(eq - spec) == len && strncmp(spec, base, len) == 0) return atol(eq + 1);
    if (!end) break;
    spec = end + 1;
  }
  return -1;
}

static ssize_t Broken(void) {
  const char* mark = getenv("BREAK_MARK");
  if (mark) {
    const int fd = open(mark, O_CREAT | O_WRONLY, 0666);
    if (fd >= 0) close(fd);
  }
  errno = EIO;
  return -1;
}

ssize_t read(int fd, void* buf, size_t n) {
  static ssize_t (*real)(int, void*, size_t);
  if (!real) real = (ssize_t(*)(int, void*, size_t))dlsym(RTLD_NEXT, "read");
  const long limit = Limit(fd);
  if (limit < 0) return real(fd, buf, n);
  if (seen[fd] >= limit && n > 0) return Broken();
  if (n > (size_t)(limit - seen[fd])) n = limit - seen[fd];
  const ssize_t r = real(fd, buf, n);
  if (r > 0) seen[fd] += r;
  return r;
}

ssize_t readv(int fd, const struct iovec* iov, int cnt) {
  static ssize_t (*real)(int, const struct iovec*, int);
  if (!real) real = (ssize_t(*)(int, const struct iovec*, int))dlsym(RTLD_NEXT, "readv");
  if (Limit(fd) < 0) return real(fd, iov, cnt);
  return cnt > 0 ? read(fd, iov[0].iov_base, iov[0].iov_len) : 0;
}

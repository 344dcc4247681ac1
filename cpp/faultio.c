// Preloaded into a tool: makes reads or writes of a chosen file fail, or transfer fewer bytes.
// FAULT_PATH: suffix of the file's path ("stdin"/"stdout": descriptor 0/1)   FAULT_OP: read | write
// FAULT_AT: number of bytes after which it fails   FAULT_ERR: errno   FAULT_HOW: stay | once | short
//   kill: the process is killed instead of failing
// FAULT_OP=calls: the process is killed at the FAULT_AT'th call which changes a file whose path contains FAULT_PATH
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>

static const char* path;
static int         rd, err, how, calls; // how: 0 stay, 1 once, 2 short, 3 kill
static long        at, done, failed;
static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
static ssize_t (*real_read)(int, void*, size_t);
static ssize_t (*real_write)(int, const void*, size_t);

__attribute__((constructor)) static void init(void) {
  real_read  = (ssize_t(*)(int, void*, size_t))dlsym(RTLD_NEXT, "read");
  real_write = (ssize_t(*)(int, const void*, size_t))dlsym(RTLD_NEXT, "write");
  path = getenv("FAULT_PATH");
  if (!path) return;
  const char* h = getenv("FAULT_HOW");
  rd  = !strcmp(getenv("FAULT_OP"), "read");
  calls = !strcmp(getenv("FAULT_OP"), "calls");
  at  = atol(getenv("FAULT_AT"));
  err = getenv("FAULT_ERR") ? atoi(getenv("FAULT_ERR")) : EIO;
  if (!h) h = "stay";
  how = !strcmp(h, "once") ? 1 : !strcmp(h, "short") ? 2 : !strcmp(h, "kill") ? 3 : 0;
}

static int matches(int fd) {
  if (!strcmp(path, "stdin")) return fd == 0;
  if (!strcmp(path, "stdout")) return fd == 1;
  if (fd < 3) return 0;
  char l[64], t[4096];
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, t, sizeof t - 1);
  if (n < 0) return 0;
  t[n] = 0;
  size_t k = strlen(path);
  return (size_t)n >= k && !strcmp(t + n - k, path);
}

static void call(const char* p) {
  if (!path || !calls || !p || !strstr(p, path)) return;
  pthread_mutex_lock(&m);
  if (done++ == at) raise(SIGKILL);
  pthread_mutex_unlock(&m);
}

static void fcall(int fd) {
  if (!path || !calls || fd < 3) return;
  char l[64], t[4096];
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, t, sizeof t - 1);
  if (n < 0) return;
  t[n] = 0;
  call(t);
}

// how many of n bytes may be transferred now; -1: fail
static ssize_t allow(size_t n) {
  ssize_t r = n;
  pthread_mutex_lock(&m);
  if (how == 2) {
    if (n > 1) r = 1 + (size_t)at % (n - 1);
    at = at * 1103515245 + 12345;
    at &= 0x7fffffff;
  } else if (how == 1 && failed) {
  } else if (done >= at) {
    if (how == 3) raise(SIGKILL);
    failed = 1;
    r = -1;
  } else if ((long)n > at - done) {
    r = at - done;
  }
  if (r > 0) done += r;
  pthread_mutex_unlock(&m);
  if (r < 0) errno = err;
  return r;
}

ssize_t read(int fd, void* b, size_t n) {
  if (path && !calls && rd && n && matches(fd)) {
    ssize_t r = allow(n);
    if (r < 0) return -1;
    n = r;
  }
  return real_read(fd, b, n);
}

ssize_t write(int fd, const void* b, size_t n) {
  fcall(fd);
  if (path && !calls && !rd && n && matches(fd)) {
    ssize_t r = allow(n);
    if (r < 0) return -1;
    n = r;
  }
  return real_write(fd, b, n);
}

// as one write of the first non-empty part: a valid short transfer
ssize_t writev(int fd, const struct iovec* v, int c) {
  fcall(fd);
  if (path && !calls && !rd && matches(fd)) {
    for (int i = 0; i < c; ++i)
      if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
  }
  ssize_t (*f)(int, const struct iovec*, int) = (ssize_t(*)(int, const struct iovec*, int))dlsym(RTLD_NEXT, "writev");
  return f(fd, v, c);
}

#define REAL(name, type) static __typeof__(type) real; if (!real) real = (__typeof__(type))dlsym(RTLD_NEXT, name)
int rename(const char* a, const char* b) { REAL("rename", int (*)(const char*, const char*)); call(strstr(a, path ? path : "") ? a : b); return real(a, b); }
int unlink(const char* a) { REAL("unlink", int (*)(const char*)); call(a); return real(a); }
int remove(const char* a) { REAL("remove", int (*)(const char*)); call(a); return real(a); }
int truncate(const char* a, off_t n) { REAL("truncate", int (*)(const char*, off_t)); call(a); return real(a, n); }
int truncate64(const char* a, off64_t n) { REAL("truncate64", int (*)(const char*, off64_t)); call(a); return real(a, n); }
int ftruncate(int fd, off_t n) { REAL("ftruncate", int (*)(int, off_t)); fcall(fd); return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL("ftruncate64", int (*)(int, off64_t)); fcall(fd); return real(fd, n); }
int posix_fallocate(int fd, off_t o, off_t n) { REAL("posix_fallocate", int (*)(int, off_t, off_t)); fcall(fd); return real(fd, o, n); }
int fsync(int fd) { REAL("fsync", int (*)(int)); fcall(fd); return real(fd); }
FILE* fopen(const char* a, const char* mode) { REAL("fopen", FILE* (*)(const char*, const char*)); if (*mode != 'r') call(a); return real(a, mode); }
FILE* fopen64(const char* a, const char* mode) { REAL("fopen64", FILE* (*)(const char*, const char*)); if (*mode != 'r') call(a); return real(a, mode); }
int fclose(FILE* f) { REAL("fclose", int (*)(FILE*)); if (f && fileno(f) >= 3) fcall(fileno(f)); return real(f); }

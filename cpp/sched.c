// Preloaded into several tools at once: before each call on a file whose path contains SCHED_PATH the process asks
// for permission (a byte to descriptor SCHED_ASK) and waits for it (a byte from SCHED_GO: 'g' go on, 'k' be killed).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

static const char* path;
static int         ask = -1, go = -1;
static ssize_t (*real_read)(int, void*, size_t);
static ssize_t (*real_write)(int, const void*, size_t);

__attribute__((constructor)) static void init(void) {
  real_read  = (ssize_t(*)(int, void*, size_t))dlsym(RTLD_NEXT, "read");
  real_write = (ssize_t(*)(int, const void*, size_t))dlsym(RTLD_NEXT, "write");
  path = getenv("SCHED_PATH");
  if (!path) return;
  ask = atoi(getenv("SCHED_ASK"));
  go  = atoi(getenv("SCHED_GO"));
}

static void wait_turn(char what) {
  int  e = errno;
  char c = what;
  if (real_write(ask, &c, 1) != 1 || real_read(go, &c, 1) != 1) _exit(99);
  if (c == 'k') raise(SIGKILL);
  errno = e;
}

static void call(const char* p, char what) {
  if (path && p && strstr(p, path)) wait_turn(what);
}

static void fcall(int fd, char what) {
  if (!path || fd < 3 || fd == ask || fd == go) return;
  char l[64], t[4096];
  snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(l, t, sizeof t - 1);
  if (n < 0) return;
  t[n] = 0;
  call(t, what);
}

#define REAL(name, type) static __typeof__(type) real; if (!real) real = (__typeof__(type))dlsym(RTLD_NEXT, name)
ssize_t read(int fd, void* b, size_t n) { fcall(fd, 'r'); return real_read(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { fcall(fd, 'w'); return real_write(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) { REAL("writev", ssize_t (*)(int, const struct iovec*, int)); fcall(fd, 'w'); return real(fd, v, c); }
int rename(const char* a, const char* b) { REAL("rename", int (*)(const char*, const char*)); call(strstr(a, path ? path : "") ? a : b, 'n'); return real(a, b); }
int unlink(const char* a) { REAL("unlink", int (*)(const char*)); call(a, 'u'); return real(a); }
int remove(const char* a) { REAL("remove", int (*)(const char*)); call(a, 'u'); return real(a); }
int truncate(const char* a, off_t n) { REAL("truncate", int (*)(const char*, off_t)); call(a, 't'); return real(a, n); }
int truncate64(const char* a, off64_t n) { REAL("truncate64", int (*)(const char*, off64_t)); call(a, 't'); return real(a, n); }
int ftruncate(int fd, off_t n) { REAL("ftruncate", int (*)(int, off_t)); fcall(fd, 't'); return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL("ftruncate64", int (*)(int, off64_t)); fcall(fd, 't'); return real(fd, n); }
int fsync(int fd) { REAL("fsync", int (*)(int)); fcall(fd, 'f'); return real(fd); }
FILE* fopen(const char* a, const char* mode) { REAL("fopen", FILE* (*)(const char*, const char*)); call(a, *mode == 'r' ? 'o' : 'O'); return real(a, mode); }
FILE* fopen64(const char* a, const char* mode) { REAL("fopen64", FILE* (*)(const char*, const char*)); call(a, *mode == 'r' ? 'o' : 'O'); return real(a, mode); }
int fclose(FILE* f) { REAL("fclose", int (*)(FILE*)); if (f && fileno(f) >= 3) fcall(fileno(f), 'c'); return real(f); }
int stat(const char* a, struct stat* s) { REAL("stat", int (*)(const char*, struct stat*)); call(a, 's'); return real(a, s); }
int stat64(const char* a, struct stat64* s) { REAL("stat64", int (*)(const char*, struct stat64*)); call(a, 's'); return real(a, s); }
int lstat(const char* a, struct stat* s) { REAL("lstat", int (*)(const char*, struct stat*)); call(a, 's'); return real(a, s); }
int lstat64(const char* a, struct stat64* s) { REAL("lstat64", int (*)(const char*, struct stat64*)); call(a, 's'); return real(a, s); }
int open(const char* a, int f, ...) {
  REAL("open", int (*)(const char*, int, ...));
  va_list l;
  va_start(l, f);
  mode_t m = f & (O_CREAT | O_TMPFILE) ? va_arg(l, mode_t) : 0;
  va_end(l);
  call(a, f & (O_WRONLY | O_RDWR) ? 'O' : 'o');
  return real(a, f, m);
}
int open64(const char* a, int f, ...) {
  REAL("open64", int (*)(const char*, int, ...));
  va_list l;
  va_start(l, f);
  mode_t m = f & (O_CREAT | O_TMPFILE) ? va_arg(l, mode_t) : 0;
  va_end(l);
  call(a, f & (O_WRONLY | O_RDWR) ? 'O' : 'o');
  return real(a, f, m);
}

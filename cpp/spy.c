// Preloaded into a tool: writes down which environment variables it asks for ("E name") and which paths it looks
// at ("P path"), to the file named by SPY_LOG, NUL-terminated. With SPY_CLOCK the clock is that many seconds off.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
extern char** environ;
static int log_fd = -2;

static const char* find(const char* n) {
  size_t k = strlen(n);
  for (char** e = environ; e && *e; ++e)
    if (!strncmp(*e, n, k) && (*e)[k] == '=') return *e + k + 1;
  return NULL;
}
static void note(char kind, const char* s) {
  int saved = errno;
  if (!s) return;
  if (log_fd == -2) {
    const char* p = find("SPY_LOG");
    log_fd = p ? (int)syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600) : -1;
  }
  char b[4200];
  size_t n = strlen(s);
  if (log_fd >= 0 && n < 4096) {
    b[0] = kind;
    b[1] = ' ';
    memcpy(b + 2, s, n + 1);
    syscall(SYS_write, log_fd, b, n + 3);
  }
  errno = saved;
}
#define REAL(name, type) static __typeof__(type) real; if (!real) real = (__typeof__(type))dlsym(RTLD_NEXT, name)
char* getenv(const char* n) { note('E', n); return (char*)find(n); }
char* secure_getenv(const char* n) { note('E', n); return (char*)find(n); }
FILE* fopen(const char* a, const char* mode) { REAL("fopen", FILE* (*)(const char*, const char*)); note('P', a); return real(a, mode); }
FILE* fopen64(const char* a, const char* mode) { REAL("fopen64", FILE* (*)(const char*, const char*)); note('P', a); return real(a, mode); }
#define OPEN(name) \
  int name(const char* a, int f, ...) { \
    va_list l; va_start(l, f); mode_t m = va_arg(l, mode_t); va_end(l); \
    REAL(#name, int (*)(const char*, int, ...)); note('P', a); return real(a, f, m); }
OPEN(open)
OPEN(open64)
#define OPENAT(name) \
  int name(int d, const char* a, int f, ...) { \
    va_list l; va_start(l, f); mode_t m = va_arg(l, mode_t); va_end(l); \
    REAL(#name, int (*)(int, const char*, int, ...)); if (d == AT_FDCWD) note('P', a); return real(d, a, f, m); }
OPENAT(openat)
OPENAT(openat64)
int stat(const char* a, struct stat* s) { REAL("stat", int (*)(const char*, struct stat*)); note('P', a); return real(a, s); }
int stat64(const char* a, struct stat64* s) { REAL("stat64", int (*)(const char*, struct stat64*)); note('P', a); return real(a, s); }
int lstat(const char* a, struct stat* s) { REAL("lstat", int (*)(const char*, struct stat*)); note('P', a); return real(a, s); }
int lstat64(const char* a, struct stat64* s) { REAL("lstat64", int (*)(const char*, struct stat64*)); note('P', a); return real(a, s); }
int access(const char* a, int m) { REAL("access", int (*)(const char*, int)); note('P', a); return real(a, m); }

static long off(void) {
  static long o;
  static int  known;
  if (!known) {
    const char* p = find("SPY_CLOCK");
    o     = p ? atol(p) : 0;
    known = 1;
  }
  return o;
}
int clock_gettime(clockid_t c, struct timespec* t) {
  int r = (int)syscall(SYS_clock_gettime, c, t);
  if (!r && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) t->tv_sec += off();
  return r;
}
time_t time(time_t* p) {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  if (p) *p = t.tv_sec;
  return t.tv_sec;
}
int gettimeofday(struct timeval* v, void* z) {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  if (v) { v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000; }
  return 0;
}

/* LD_PRELOAD: when the process ends, writes what it used to $METER_OUT: peak resident memory (kB), bytes and calls of
   all reads, open descriptors */
#define _GNU_SOURCE
#include <dirent.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static void copy(int out, const char* name) {
  char    b[4096];
  ssize_t n;
  int     f = open(name, O_RDONLY);
  if (f < 0) return;
  while ((n = read(f, b, sizeof b)) > 0)
    if (write(out, b, (size_t)n) != n) break;
  close(f);
}

__attribute__((destructor)) static void report(void) {
  const char* name = getenv("METER_OUT");
  int         out;
  if (!name || (out = open(name, O_WRONLY | O_CREAT | O_TRUNC, 0666)) < 0) return;
  copy(out, "/proc/self/io");
  copy(out, "/proc/self/status");
  close(out);
}

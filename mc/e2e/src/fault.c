// Preloaded into the lapex command line: fails, shortens or ends the run at one chosen system call on
// the grammar file (reads) or on a file of the target directory (opens and writes), and logs them.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static char kind[1024]; // by descriptor: 'w' in the target directory, 'r' the grammar
static int nopen, nwrite, nread, ready, logfd = -1;
static long written, disk = -1;
static char dir[4096], gram[4096];
static struct { char call; int from, to; char what; long arg; } plan[8];
static int nplan;
static int (*ropen)(const char *, int, ...);
static ssize_t (*rwrite)(int, const void *, size_t);
static ssize_t (*rread)(int, void *, size_t);
static int (*rclose)(int);

static void init(void) {
  if (ready) return;
  ready = 1;
  ropen = dlsym(RTLD_NEXT, "open64");
  rwrite = dlsym(RTLD_NEXT, "write");
  rread = dlsym(RTLD_NEXT, "read");
  rclose = dlsym(RTLD_NEXT, "close");
  const char *e;
  if ((e = getenv("FAULT_DIR"))) snprintf(dir, sizeof dir, "%s/", e);
  if ((e = getenv("FAULT_GRAMMAR"))) snprintf(gram, sizeof gram, "%s", e);
  if ((e = getenv("FAULT_DISK"))) disk = atol(e);
  if ((e = getenv("FAULT_LOG"))) logfd = ropen(e, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
  // a plan is a list of <call><from>-<to><action><argument>, calls counted from 0
  if ((e = getenv("FAULT_PLAN")))
    while (*e && nplan < 8) {
      int n = 0;
      char c, w;
      int a, b;
      long g;
      if (sscanf(e, "%c%d-%d%c%ld%n", &c, &a, &b, &w, &g, &n) != 5) abort();
      plan[nplan].call = c; plan[nplan].from = a; plan[nplan].to = b; plan[nplan].what = w; plan[nplan].arg = g;
      nplan++;
      e += n;
      if (*e == ',') e++;
    }
}
static void note(char c, int i, long n) {
  char b[64];
  if (logfd < 0) return;
  int k = snprintf(b, sizeof b, "%c %d %ld\n", c, i, n);
  rwrite(logfd, b, k);
}
// 0: go on; 1: fail with errno; 2: shorten to *n
static int fault(char c, int i, long *n) {
  for (int p = 0; p < nplan; p++)
    if (plan[p].call == c && plan[p].from <= i && i <= plan[p].to) {
      if (plan[p].what == 'e') { errno = plan[p].arg; return 1; }
      if (plan[p].what == 'k') { kill(getpid(), SIGKILL); for (;;) pause(); }
      if (plan[p].what == 's') { if (*n > plan[p].arg) *n = plan[p].arg; return 2; }
      if (plan[p].what == 'x') { if (*n > plan[p].arg) *n = plan[p].arg; return 3; } // shorten, then end the run
    }
  return 0;
}
static int doopen(const char *path, int flags, mode_t mode) {
  init();
  char k = 0;
  if (dir[0] && strncmp(path, dir, strlen(dir)) == 0) k = 'w';
  else if (gram[0] && strcmp(path, gram) == 0) k = 'r';
  if (k == 'w') {
    int i = nopen++;
    long n = 0;
    note('o', i, 0);
    if (fault('o', i, &n) == 1) return -1;
  }
  int fd = ropen(path, flags, mode);
  if (fd >= 0 && fd < (int)sizeof kind) kind[fd] = k;
  return fd;
}
int open64(const char *path, int flags, ...) {
  va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a);
  return doopen(path, flags, m);
}
int open(const char *path, int flags, ...) {
  va_list a; va_start(a, flags); mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a);
  return doopen(path, flags, m);
}
ssize_t write(int fd, const void *p, size_t n) {
  init();
  if (fd < 0 || fd >= (int)sizeof kind || kind[fd] != 'w') return rwrite(fd, p, n);
  long k = n;
  int i = nwrite++;
  note('w', i, n);
  int f = fault('w', i, &k);
  if (f == 1) return -1;
  if (disk >= 0 && n > 0) {
    long room = disk - written;
    if (room <= 0) { errno = ENOSPC; return -1; }
    if (k > room) k = room;
  }
  if (k == 0 && n > 0) return 0;
  ssize_t r = rwrite(fd, p, k);
  if (r > 0) written += r;
  if (f == 3) { kill(getpid(), SIGKILL); for (;;) pause(); }
  return r;
}
ssize_t read(int fd, void *p, size_t n) {
  init();
  if (fd < 0 || fd >= (int)sizeof kind || kind[fd] != 'r') return rread(fd, p, n);
  long k = n;
  int i = nread++;
  if (fault('r', i, &k) == 1) { note('r', i, -1); return -1; }
  ssize_t r = rread(fd, p, k);
  note('r', i, r);
  return r;
}
int close(int fd) {
  init();
  if (fd >= 0 && fd < (int)sizeof kind) kind[fd] = 0;
  return rclose(fd);
}

/* LD_PRELOAD stand-in for the realtime facilities of the system: it only records what it was asked
 * for and answers as configured; no scheduling or memory setting of the sandbox is touched.
 * VR_KERNEL=0|1 realtime kernel, VR_SCHED / VR_MLOCK = errno (0: success), VR_PRIO = max priority,
 * VR_LOG = file the calls are appended to. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
static int conf(const char *k, int d) { const char *v = getenv(k); return v ? atoi(v) : d; }
static void rec(const char *fmt, ...) {
  const char *p = getenv("VR_LOG");
  if (!p) return;
  char b[200];
  va_list a;
  va_start(a, fmt);
  int n = vsnprintf(b, sizeof b, fmt, a);
  va_end(a);
  int fd = syscall(SYS_openat, AT_FDCWD, p, O_WRONLY | O_APPEND | O_CREAT, 0600);
  if (fd >= 0) { if (write(fd, b, n) < 0) {} close(fd); }
}
static int is_rt(const char *p) { return p && strcmp(p, "/sys/kernel/realtime") == 0; }
static int tid(void) { return (int)syscall(SYS_gettid); }
static int answer(void) {
  int k = conf("VR_KERNEL", 0);
  rec("kernel %d %d\n", tid(), k);
  if (!k) { errno = ENOENT; return -1; }
  return 0;
}
int statx(int d, const char *p, int f, unsigned m, struct statx *s) {
  if (is_rt(p)) { int r = answer(); if (!r && s) { memset(s, 0, sizeof *s); s->stx_mask = 0x7ff; s->stx_mode = 0100444; s->stx_nlink = 1; s->stx_size = 4096; } return r; }
  return (int)syscall(SYS_statx, d, p, f, m, s);
}
#define STAT(name, real, T) int name(const char *p, struct T *s) { if (is_rt(p)) { int r = answer(); if (!r && s) { memset(s, 0, sizeof *s); s->st_mode = 0100444; s->st_nlink = 1; } return r; } int (*f)(const char *, struct T *) = dlsym(RTLD_NEXT, #real); return f(p, s); }
STAT(stat, stat, stat) STAT(lstat, lstat, stat)
STAT(stat64, stat64, stat64) STAT(lstat64, lstat64, stat64)
int access(const char *p, int m) { if (is_rt(p)) return answer(); return (int)syscall(SYS_access, p, m); }
int faccessat(int d, const char *p, int m, int fl) { if (is_rt(p)) return answer(); int (*f)(int, const char *, int, int) = dlsym(RTLD_NEXT, "faccessat"); return f(d, p, m, fl); }
static int opened(void) {
  if (answer()) return -1;
  int fds[2];
  if (pipe(fds)) return -1;
  if (write(fds[1], "1\n", 2) < 0) {}
  close(fds[1]);
  return fds[0];
}
#define OPEN(name) int name(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (is_rt(p)) return opened(); return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m); }
OPEN(open) OPEN(open64)
#define OPENAT(name) int name(int d, const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (is_rt(p)) return opened(); return (int)syscall(SYS_openat, d, p, fl, m); }
OPENAT(openat) OPENAT(openat64)
int sched_get_priority_max(int pol) {
  int m = conf("VR_PRIO", 99);
  if (pol != SCHED_FIFO && pol != SCHED_RR) return 0;
  if (m < 0) { errno = EINVAL; return -1; }
  return m;
}
int pthread_setschedparam(pthread_t t, int pol, const struct sched_param *p) {
  int r = conf("VR_SCHED", 0);
  rec("sched %d %d %d %d\n", pthread_equal(t, pthread_self()) ? tid() : -1, pol & ~SCHED_RESET_ON_FORK, p->sched_priority, r);
  return r;
}
int pthread_setschedprio(pthread_t t, int prio) {
  rec("prio %d %d\n", pthread_equal(t, pthread_self()) ? tid() : -1, prio);
  return conf("VR_SCHED", 0);
}
int sched_setscheduler(pid_t pid, int pol, const struct sched_param *p) {
  int r = conf("VR_SCHED", 0);
  rec("sched %d %d %d %d\n", pid ? pid : tid(), pol & ~SCHED_RESET_ON_FORK, p->sched_priority, r);
  if (r) { errno = r; return -1; }
  return 0;
}
int sched_setparam(pid_t pid, const struct sched_param *p) {
  int r = conf("VR_SCHED", 0);
  rec("setparam %d %d %d\n", pid ? pid : tid(), p->sched_priority, r);
  if (r) { errno = r; return -1; }
  return 0;
}
int mlockall(int fl) {
  int r = conf("VR_MLOCK", 0);
  rec("mlock %d %d %d\n", tid(), fl, r);
  if (r) { errno = r; return -1; }
  return 0;
}

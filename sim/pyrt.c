/* Runtime under the Python scripts (LD_PRELOAD): simulated clocks, entropy and process id, and injected faults on files.
   A run is configured through sim_py_config() and sim_py_fault() in the forked child; events go to a trace descriptor. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

static int on, trace_fd = -1;
static uint64_t rng;
static int64_t wall, mono, step;
static int pid_value;
static char names[1024][96];
static char cwd[512];
static struct fault { char op[16], path[96], action[16]; long nth, arg, seen; int lasting; } faults[64];
static int n_faults;
static long capacity = -1, used;

static uint64_t next(void) {
  uint64_t z = (rng += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

static void note(const char* fmt, ...) {
  if (trace_fd < 0) return;
  char b[256];
  va_list a;
  va_start(a, fmt);
  int n = vsnprintf(b, sizeof b, fmt, a);
  va_end(a);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  syscall(SYS_write, trace_fd, b, n);
}

void sim_py_config(uint64_t seed, int64_t wall_ns, int64_t mono_ns, int64_t step_ns, int pid, int tfd, const char* dir, long cap) {
  rng = seed; wall = wall_ns; mono = mono_ns; step = step_ns; pid_value = pid; trace_fd = tfd; capacity = cap;
  snprintf(cwd, sizeof cwd, "%s", dir);
  snprintf(names[1], 96, "stdout");
  snprintf(names[2], 96, "stderr");
  on = 1;
}

void sim_py_fault(const char* op, const char* path, long nth, int lasting, const char* action, long arg) {
  struct fault* f = &faults[n_faults++ & 63];
  snprintf(f->op, sizeof f->op, "%s", op);
  snprintf(f->path, sizeof f->path, "%s", path);
  snprintf(f->action, sizeof f->action, "%s", action);
  f->nth = nth; f->lasting = lasting; f->arg = arg; f->seen = 0;
}

static int err_of(const char* a) {
  if (!strcmp(a, "EIO")) return EIO;
  if (!strcmp(a, "ENOSPC")) return ENOSPC;
  if (!strcmp(a, "EINTR")) return EINTR;
  if (!strcmp(a, "EACCES")) return EACCES;
  if (!strcmp(a, "EMFILE")) return EMFILE;
  if (!strcmp(a, "EDQUOT")) return EDQUOT;
  if (!strcmp(a, "EBADF")) return EBADF;
  return EIO;
}

static struct fault* hit(const char* op, const char* path) {
  struct fault* res = 0;
  for (int i = 0; i < n_faults; ++i) {
    struct fault* f = &faults[i];
    if (strcmp(f->op, op) || (f->path[0] && !strstr(path, f->path))) continue;
    ++f->seen;
    if (!res && (f->seen == f->nth || (f->lasting && f->seen > f->nth))) res = f;
  }
  return res;
}

static int64_t tick(int64_t* c) { *c += step; return *c; }
#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

int clock_gettime(clockid_t id, struct timespec* t) {
  if (!on) return syscall(SYS_clock_gettime, id, t);
  int64_t v = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? tick(&wall) : tick(&mono);
  t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000;
  return 0;
}
int gettimeofday(struct timeval* t, void* z) {
  (void)z;
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* p) {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  if (p) *p = s.tv_sec;
  return s.tv_sec;
}
ssize_t getrandom(void* buf, size_t n, unsigned flags) {
  if (!on) return syscall(SYS_getrandom, buf, n, flags);
  for (size_t i = 0; i < n; ++i) ((unsigned char*)buf)[i] = next() >> 32;
  note("entropy %zu\n", n);
  return n;
}
int getentropy(void* buf, size_t n) { return getrandom(buf, n, 0) < 0 ? -1 : 0; }
pid_t getpid(void) {
  if (!on) return syscall(SYS_getpid);
  note("getpid\n");
  return pid_value;
}

static int is_ours(const char* p) { return on && (p[0] != '/' || !strncmp(p, cwd, strlen(cwd))); }

static int do_open(const char* p, int fl, mode_t m) {
  if (is_ours(p)) {
    const char* op = (fl & O_ACCMODE) == O_RDONLY ? "open_r" : "open_w";
    struct fault* f = hit(op, p);
    note("%s %s%s%s\n", op, strrchr(p, '/') ? strrchr(p, '/') + 1 : p, f ? " " : "", f ? f->action : "");
    if (f) { note("fault_%s_%s\n", op, f->action); errno = err_of(f->action); return -1; }
  }
  int fd = syscall(SYS_openat, AT_FDCWD, p, fl, m);
  if (fd >= 0 && fd < 1024) snprintf(names[fd], 96, "%s", is_ours(p) && (fl & O_ACCMODE) != O_RDONLY ? p : "");
  return fd;
}
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(p, fl, m); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(p, fl | O_LARGEFILE, m); }

ssize_t write(int fd, const void* b, size_t n) {
  if (!on || fd < 0 || fd >= 1024 || !names[fd][0]) return syscall(SYS_write, fd, b, n);
  struct fault* f = hit("write", names[fd]);
  const char* what = f ? f->action : "";
  if (f && !strcmp(what, "short")) {
    size_t k = f->arg > 0 ? (size_t)f->arg : 1;
    note("fault_write_short\n");
    if (k < n) n = k;
  } else if (f) {
    note("write %s %zu %s\nfault_write_%s\n", strrchr(names[fd], '/') ? strrchr(names[fd], '/') + 1 : names[fd], n, what, what);
    errno = err_of(what);
    return -1;
  }
  if (capacity >= 0 && fd != 2) {
    if (used >= capacity && n) { note("disk_full\n"); errno = ENOSPC; return -1; }
    if (used + (long)n > capacity) n = capacity - used;
    used += n;
  }
  note("write %s %zu\n", strrchr(names[fd], '/') ? strrchr(names[fd], '/') + 1 : names[fd], n);
  return syscall(SYS_write, fd, b, n);
}

int close(int fd) {
  if (on && fd >= 0 && fd < 1024 && names[fd][0]) {
    struct fault* f = hit("close", names[fd]);
    note("close %s%s%s\n", strrchr(names[fd], '/') ? strrchr(names[fd], '/') + 1 : names[fd], f ? " " : "", f ? f->action : "");
    names[fd][0] = 0;
    if (f) { note("fault_close_%s\n", f->action); syscall(SYS_close, fd); errno = err_of(f->action); return -1; }
  }
  return syscall(SYS_close, fd);
}

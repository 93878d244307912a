// One thread at a time: a seeded scheduler decides which of the threads of the simulated process runs.
#include "threads.h"

#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>
#include <dlfcn.h>

#include "rt.h"

namespace sim {
namespace {

long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  long ret;
  asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}

enum State { kRunnable, kBlocked, kDone };
struct Thread {
  int go;              // futex: 1 when this thread holds the baton
  int id, tid;
  State state;
  const void* key;     // what it waits for
  std::uint64_t deadline;  // simulated monotonic ns, 0: none
  bool timed_out, woken;
  long priority;
  void* (*fn)(void*);
  void* arg;
  pthread_t handle;
};
constexpr int kMax = 64;
Thread g_t[kMax];
int g_n = 0;
bool g_on = false;
Rng g_rng;
long g_rate = 8, g_mode = 0, g_tick = 0;
std::uint64_t g_steps = 0, g_change[16];
int g_changes = 0;
int g_dying = 0;  // tid of a thread that has passed on the baton and is about to end
thread_local Thread* t_me = nullptr;
thread_local int t_off = 0;
struct Range {
  std::uintptr_t lo, hi;
};
Range g_libc[8];
int g_nlibc = 0;

void park(Thread* t) {
  while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) raw(SYS_futex, (long)&t->go, FUTEX_WAIT, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELEASE);
  if (int tid = g_dying) {
    while (raw(SYS_tgkill, raw(SYS_getpid), tid, 0) != -ESRCH) raw(SYS_sched_yield);
    g_dying = 0;
  }
}
void wake(Thread* t) {
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  raw(SYS_futex, (long)&t->go, FUTEX_WAKE, 1);
}

Thread* pick() {
  for (;;) {
    Thread* c[kMax];
    int n = 0;
    for (int i = 0; i < g_n; ++i)
      if (g_t[i].state == kRunnable) c[n++] = &g_t[i];
    if (n) {
      if (g_mode == 1) {
        Thread* best = c[0];
        for (int i = 1; i < n; ++i)
          if (c[i]->priority > best->priority) best = c[i];
        return best;
      }
      return c[g_rng.below(n)];
    }
    Thread* e = nullptr;
    for (int i = 0; i < g_n; ++i)
      if (g_t[i].state == kBlocked && g_t[i].deadline && (!e || g_t[i].deadline < e->deadline)) e = &g_t[i];
    if (!e) {
      trace("DEADLOCK");
      for (int i = 0; i < g_n; ++i)
        if (g_t[i].state == kBlocked) trace("thread %d blocked", g_t[i].id);
      raw(SYS_exit_group, 98);
    }
    if (e->deadline > mono_ns()) advance_ns(e->deadline - mono_ns());
    e->state = kRunnable;
    e->timed_out = true;
    e->deadline = 0;
  }
}

void hand_over(Thread* next) {
  Thread* me = t_me;
  if (next == me) return;
  ++shared->counters[kSwitches];
  shared->sched_hash = (shared->sched_hash ^ (next->id + 1)) * 0x100000001B3ull + g_steps;
  mix(next->id);
  wake(next);
  park(me);
}

void expire() {  // timers of other threads that are over by now
  for (int i = 0; i < g_n; ++i)
    if (g_t[i].state == kBlocked && g_t[i].deadline && g_t[i].deadline <= mono_ns()) {
      g_t[i].state = kRunnable;
      g_t[i].timed_out = true;
      g_t[i].deadline = 0;
    }
}

bool mine() { return g_on && t_me && !t_off; }

void point(const char*) {
  if (!mine() || g_n == 1) return;
  ++g_steps;
  if (g_tick && t_me->id) {  // (the first thread's work takes no time: it would starve the others)
    int n = 0;
    for (int i = 0; i < g_n; ++i) n += g_t[i].state == kRunnable;
    bool more = n > 1;
    for (int i = 0; i < g_n && !more; ++i) more = g_t[i].state == kBlocked && g_t[i].deadline;
    if (more) advance_ns(g_tick);  // work takes time while another thread could run or waits for its time
  }
  if (g_mode == 1) {
    for (int i = 0; i < g_changes; ++i)
      if (g_change[i] == g_steps) t_me->priority = -1 - i;
  } else if (g_rng.below(g_rate)) {
    return;
  }
  expire();
  hand_over(pick());
}

// Blocks until woken or until the deadline; false: timed out.
bool wait_on(const void* key, std::uint64_t deadline) {
  Thread* me = t_me;
  me->state = kBlocked;
  me->key = key;
  me->deadline = deadline;
  me->timed_out = false;
  ++g_steps;
  Thread* n = pick();
  if (n != me) hand_over(n);
  me->key = nullptr;
  me->deadline = 0;
  return !me->timed_out;
}

int wake_key(const void* key, int max) {
  int n = 0;
  while (n < max) {
    Thread* c[kMax];
    int k = 0;
    for (int i = 0; i < g_n; ++i)
      if (g_t[i].state == kBlocked && g_t[i].key == key) c[k++] = &g_t[i];
    if (!k) break;
    Thread* t = c[max == 1 ? g_rng.below(k) : 0];
    t->state = kRunnable;
    t->key = nullptr;
    ++n;
  }
  return n;
}

void* entry(void* a) {
  Thread* t = (Thread*)a;
  t_me = t;
  t->tid = raw(SYS_gettid);
  park(t);
  void* r = t->fn(t->arg);
  return r;  // end_thread() runs as the destructor of a thread-specific key, after the others
}

pthread_key_t g_end_key;
void end_thread(void* v) {
  // Rounds 1-3: let other destructors run first.
  long round = (long)v;
  if (round < 4) {
    pthread_setspecific(g_end_key, (void*)(round + 1));
    return;
  }
  Thread* t = t_me;
  t->state = kDone;
  wake_key(t, kMax);
  Thread* n = pick();
  ++shared->counters[kSwitches];
  g_dying = t->tid;
  t_off = 1;
  wake(n);
}
void* entry2(void* a) {
  void* r;
  pthread_setspecific(g_end_key, (void*)1);
  r = entry(a);
  return r;
}

int find_libc(dl_phdr_info* info, size_t, void*) {
  const char* n = info->dlpi_name;
  if (n && (strstr(n, "/libc.so") || strstr(n, "/ld-linux"))) {
    for (int i = 0; i < info->dlpi_phnum; ++i)
      if (info->dlpi_phdr[i].p_type == PT_LOAD && (info->dlpi_phdr[i].p_flags & PF_X) && g_nlibc < 8) {
        std::uintptr_t lo = info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
        g_libc[g_nlibc++] = {lo, lo + info->dlpi_phdr[i].p_memsz};
      }
  }
  return 0;
}

std::uint64_t to_mono(const timespec* abs, bool monotonic) {
  std::uint64_t t = (std::uint64_t)abs->tv_sec * 1000000000ull + abs->tv_nsec;
  std::uint64_t now = monotonic ? mono_ns() : wall_ns();
  std::uint64_t d = t > now ? t - now : 0;
  std::uint64_t r = mono_ns() + d;
  return r ? r : 1;
}

}  // namespace

bool sched_on() { return g_on; }
int sched_self() { return t_me ? t_me->id : -1; }
std::uint64_t sched_steps() { return g_steps; }

void sched_start(const Plan& plan) {
  g_rng.seed(plan.num("sched.seed", 1));
  g_rate = plan.num("sched.rate", 8);
  if (g_rate < 1) g_rate = 1;
  g_mode = plan.num("sched.mode", 0);
  g_tick = plan.num("sched.tick_ns", 0);
  g_changes = plan.num("sched.changes", 3);
  if (g_changes > 16) g_changes = 16;
  long span = plan.num("sched.span", 2000);
  for (int i = 0; i < g_changes; ++i) g_change[i] = 1 + g_rng.below(span);
  dl_iterate_phdr(find_libc, nullptr);
  pthread_key_create(&g_end_key, end_thread);
  Thread* t = &g_t[0];
  memset(t, 0, sizeof *t);
  t->id = 0;
  t->tid = raw(SYS_gettid);
  t->priority = 1 + g_rng.below(1000000);
  t->handle = pthread_self();
  t_me = t;
  g_n = 1;
  g_on = true;
  yield_hook = point;
}

void sched_point(const char* where) { point(where); }
void sched_alloc_point(const void* caller) {
  if (!mine() || g_n == 1) return;
  std::uintptr_t p = (std::uintptr_t)caller;
  for (int i = 0; i < g_nlibc; ++i)
    if (p >= g_libc[i].lo && p < g_libc[i].hi) return;
  point("alloc");
}
bool sched_mine() { return mine(); }
bool sched_sleep_until(std::uint64_t mono) { return wait_on(nullptr, mono ? mono : 1); }
bool sched_wait(const void* key, std::uint64_t deadline) { return wait_on(key, deadline); }
void sched_wake(const void* key) { wake_key(key, kMax); }
SchedOff::SchedOff() { ++t_off; }
SchedOff::~SchedOff() { --t_off; }

}  // namespace sim

// ================================================================ interposed symbols
using namespace sim;

extern "C" {
int libc_mutex_lock(pthread_mutex_t*);
asm(".symver libc_mutex_lock, __pthread_mutex_lock@GLIBC_2.2.5");

static void* real_sym(const char* name, const char* ver) { return dlvsym(RTLD_NEXT, name, ver); }
#define REAL(ret, name, ver, ...)                        \
  static ret (*real)(__VA_ARGS__) = nullptr;             \
  if (!real) real = (ret(*)(__VA_ARGS__))real_sym(#name, ver)

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && mine()) {
    int op = (int)b & 127;
    int* addr = (int*)a;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      if (__atomic_load_n(addr, __ATOMIC_ACQUIRE) != (int)c) {
        errno = EAGAIN;
        return -1;
      }
      std::uint64_t deadline = 0;
      if (d) {
        const timespec* ts = (const timespec*)d;
        if (op == FUTEX_WAIT)
          deadline = mono_ns() + (std::uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec + 1;
        else
          deadline = to_mono(ts, !((int)b & FUTEX_CLOCK_REALTIME));
      }
      if (!wait_on(addr, deadline)) {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      int r = wake_key(addr, (int)c < 0 || (int)c > kMax ? kMax : (int)c);
      point("futex");
      return r;
    }
    if (op == FUTEX_WAKE_OP) {  // as used by Qt's semaphore
      int r = wake_key(addr, kMax);
      int* addr2 = (int*)e;
      int oparg = ((int)f >> 12) & 0xfff, what = ((int)f >> 28) & 7, cmp = ((int)f >> 24) & 15, cmparg = (int)f & 0xfff;
      if (((int)f >> 28) & 8) oparg = 1 << oparg;
      int old = *addr2;
      *addr2 = what == 0 ? oparg : what == 1 ? old + oparg : what == 2 ? old | oparg : what == 3 ? old & ~oparg : old ^ oparg;
      bool hit = cmp == 0 ? old == cmparg : cmp == 1 ? old != cmparg : cmp == 2 ? old < cmparg : cmp == 3 ? old <= cmparg : cmp == 4 ? old > cmparg : old >= cmparg;
      if (hit) r += wake_key(addr2, kMax);
      point("futex");
      return r;
    }
  }
  long r = raw(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) {
    errno = -r;
    return -1;
  }
  return r;
}

int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  REAL(int, pthread_create, "GLIBC_2.34", pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  if (!mine()) return real(th, attr, fn, arg);
  int slot = -1;
  for (int i = 0; i < g_n && slot < 0; ++i)
    if (g_t[i].state == kDone && !g_dying) slot = i;
  if (slot < 0) {
    if (g_n == kMax) return EAGAIN;
    slot = g_n;
  }
  static int ids = 0;
  Thread* t = &g_t[slot];
  memset(t, 0, sizeof *t);
  t->id = ++ids;
  t->fn = fn;
  t->arg = arg;
  t->state = kRunnable;
  t->priority = 1 + g_rng.below(1000000);
  int r;
  {
    SchedOff off;
    r = real(th, attr, entry2, t);
  }
  if (r) {
    t->state = kDone;
    if (slot == g_n) return r;
    return r;
  }
  t->handle = *th;
  if (slot == g_n) ++g_n;
  trace("thread %d starts", t->id);
  point("create");
  return 0;
}

int pthread_join(pthread_t th, void** ret) {
  REAL(int, pthread_join, "GLIBC_2.34", pthread_t, void**);
  if (mine())
    for (int i = 0; i < g_n; ++i)
      if (pthread_equal(g_t[i].handle, th) && &g_t[i] != t_me)
        while (g_t[i].state != kDone) wait_on(&g_t[i], 0);
  return real(th, ret);
}

int pthread_mutex_trylock(pthread_mutex_t* m) {
  REAL(int, pthread_mutex_trylock, "GLIBC_2.34", pthread_mutex_t*);
  return real(m);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!mine()) return libc_mutex_lock(m);
  point("lock");
  for (;;) {
    int r = pthread_mutex_trylock(m);
    if (r != EBUSY) return r;
    wait_on(m, 0);
  }
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  REAL(int, pthread_mutex_unlock, "GLIBC_2.2.5", pthread_mutex_t*);
  int r = real(m);
  if (g_on && t_me) {
    wake_key(m, kMax);
    if (mine()) point("unlock");
  }
  return r;
}

static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, std::uint64_t deadline) {
  REAL(int, pthread_mutex_unlock, "GLIBC_2.2.5", pthread_mutex_t*);
  real(m);
  wake_key(m, kMax);
  bool ok = wait_on(c, deadline);
  for (;;) {
    int r = pthread_mutex_trylock(m);
    if (r != EBUSY) break;
    wait_on(m, 0);
  }
  return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  REAL(int, pthread_cond_wait, "GLIBC_2.3.2", pthread_cond_t*, pthread_mutex_t*);
  if (!mine()) return real(c, m);
  return cond_wait(c, m, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
  REAL(int, pthread_cond_timedwait, "GLIBC_2.3.2", pthread_cond_t*, pthread_mutex_t*, const timespec*);
  if (!mine()) return real(c, m, ts);
  bool monotonic = c->__data.__wrefs & 2;
  return cond_wait(c, m, to_mono(ts, monotonic));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clock, const timespec* ts) {
  REAL(int, pthread_cond_clockwait, "GLIBC_2.34", pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
  if (!mine()) return real(c, m, clock, ts);
  return cond_wait(c, m, to_mono(ts, clock == CLOCK_MONOTONIC));
}
int pthread_cond_signal(pthread_cond_t* c) {
  REAL(int, pthread_cond_signal, "GLIBC_2.3.2", pthread_cond_t*);
  if (!(g_on && t_me)) return real(c);
  wake_key(c, 1);
  if (mine()) point("signal");
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  REAL(int, pthread_cond_broadcast, "GLIBC_2.3.2", pthread_cond_t*);
  if (!(g_on && t_me)) return real(c);
  wake_key(c, kMax);
  if (mine()) point("broadcast");
  return 0;
}
int pthread_once(pthread_once_t* o, void (*f)()) {
  REAL(int, pthread_once, "GLIBC_2.34", pthread_once_t*, void (*)());
  if (!mine() || (*o & 3) == 2) return real(o, f);
  static const void* busy[8];
  for (;;) {
    bool wait = false;
    for (auto b : busy) wait |= b == o;
    if (!wait) break;
    wait_on(o, 0);
  }
  if ((*o & 3) == 2) return 0;
  const void** mark = nullptr;
  for (auto& b : busy)
    if (!b) mark = &b;
  if (mark) *mark = o;
  int r = real(o, f);
  if (mark) *mark = nullptr;
  wake_key(o, kMax);
  return r;
}
int sched_yield() {
  if (mine()) {
    if (g_n > 1) {
      expire();
      hand_over(pick());
    }
    return 0;
  }
  return raw(SYS_sched_yield);
}
static int sleep_ns(std::uint64_t ns) {
  wait_on(nullptr, mono_ns() + ns + 1);
  return 0;
}
int nanosleep(const timespec* t, timespec* rem) {
  if (mine()) return sleep_ns((std::uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec);
  return syscall(SYS_nanosleep, t, rem);
}
int clock_nanosleep(clockid_t clock, int flags, const timespec* t, timespec* rem) {
  if (mine()) {
    if (flags & TIMER_ABSTIME) {
      wait_on(nullptr, to_mono(t, clock == CLOCK_MONOTONIC));
      return 0;
    }
    return sleep_ns((std::uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec);
  }
  return -raw(SYS_clock_nanosleep, clock, flags, (long)t, (long)rem);
}
int usleep(useconds_t us) {
  if (mine()) return sleep_ns(us * 1000ull);
  timespec ts{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return syscall(SYS_nanosleep, &ts, nullptr);
}

// ---- stdio: the lock of a stream is one of the scheduler's
namespace {
struct FileLock {
  FILE* f;
  const void* owner;
  int depth;
};
FileLock g_file[16];
FileLock* file_lock(FILE* f) {
  for (auto& l : g_file)
    if (l.f == f) return &l;
  for (auto& l : g_file)
    if (!l.depth) {
      l.f = f;
      return &l;
    }
  return nullptr;
}
void hold(FILE* f) {
  __fsetlocking(f, FSETLOCKING_BYCALLER);
  point("stdio");
  FileLock* l;
  for (;;) {
    l = file_lock(f);
    if (!l || !l->depth || l->owner == t_me) break;
    wait_on(f, 0);
  }
  if (!l) return;
  l->owner = t_me;
  ++l->depth;
}
void release(FILE* f) {
  FileLock* l = file_lock(f);
  if (l && l->owner == t_me && l->depth && !--l->depth) {
    wake_key(f, kMax);
    point("stdio");
  }
}
struct Hold {
  FILE* f;
  explicit Hold(FILE* file) : f(file && mine() ? file : nullptr) {
    if (f) hold(f);
  }
  ~Hold() {
    if (f) release(f);
  }
};
}  // namespace
int fputs(const char* s, FILE* f) {
  REAL(int, fputs, "GLIBC_2.2.5", const char*, FILE*);
  Hold h(f);
  return real(s, f);
}
size_t fwrite(const void* p, size_t a, size_t b, FILE* f) {
  REAL(size_t, fwrite, "GLIBC_2.2.5", const void*, size_t, size_t, FILE*);
  Hold h(f);
  return real(p, a, b, f);
}
int fflush(FILE* f) {
  REAL(int, fflush, "GLIBC_2.2.5", FILE*);
  Hold h(f);
  return real(f);
}
int fputc(int c, FILE* f) {
  REAL(int, fputc, "GLIBC_2.2.5", int, FILE*);
  Hold h(f);
  return real(c, f);
}
int putc(int c, FILE* f) {
  REAL(int, putc, "GLIBC_2.2.5", int, FILE*);
  Hold h(f);
  return real(c, f);
}
int vfprintf(FILE* f, const char* fmt, va_list ap) {
  REAL(int, vfprintf, "GLIBC_2.2.5", FILE*, const char*, va_list);
  Hold h(f);
  return real(f, fmt, ap);
}
int fprintf(FILE* f, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  int r = vfprintf(f, fmt, ap);
  va_end(ap);
  return r;
}
void flockfile(FILE* f) {
  REAL(void, flockfile, "GLIBC_2.2.5", FILE*);
  mine() ? hold(f) : real(f);
}
void funlockfile(FILE* f) {
  REAL(void, funlockfile, "GLIBC_2.2.5", FILE*);
  mine() ? release(f) : real(f);
}
}  // extern "C"

// See rt.h.  Everything below is the simulator; no line of the code under test lives here.
#include "rt.h"
#include "threads.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <new>
#include <random>
#include <type_traits>

namespace sim {

const char* const kCounterNames[kCounterMax] = {
    "ticks", "allocs", "alloc_failed", "opens", "reads", "writes", "closes", "renames",
    "stats", "dlopens", "dlsyms", "clock_reads", "random_reads",
    "fault_open", "fault_read", "fault_write", "fault_close", "fault_rename", "fault_stat",
    "short_read", "short_write", "early_eof", "disk_full", "crash", "fault_dl",
    "clock_jump", "fault_log", "yields", "switches", "timers"};

static Shared dummy_shared;
Shared* shared = &dummy_shared;
void (*yield_hook)(const char*) = nullptr;
void (*file_hook)(const char*, const char*) = nullptr;

void Rng::seed(std::uint64_t v) {
  s = v * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull;
  if (!s) s = 1;
  for (int i = 0; i < 4; ++i) next();
}
std::uint64_t Rng::next() {
  s ^= s >> 12;
  s ^= s << 25;
  s ^= s >> 27;
  return s * 2685821657736338717ull;
}

static std::atomic<bool> g_armed{false};
static thread_local int g_quiet = 0;
Quiet::Quiet() { ++g_quiet; }
Quiet::~Quiet() { --g_quiet; }
bool armed() { return g_armed.load(std::memory_order_relaxed) && g_quiet == 0; }

void mix(std::uint64_t v) {
  std::uint64_t h = shared->hash ^ v;
  h *= 0x100000001B3ull;
  h ^= h >> 29;
  shared->hash = h;
}

void trace(const char* fmt, ...) {
  char buf[512];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf - 1, fmt, ap);
  va_end(ap);
  if (n < 0) return;
  if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
  buf[n++] = '\n';
  for (int i = 0; i < n; ++i) mix((unsigned char)buf[i]);
  if (shared->trace_len + n >= sizeof shared->trace) {
    ++shared->trace_dropped;
    return;
  }
  memcpy(shared->trace + shared->trace_len, buf, n);
  shared->trace_len += n;
}

static std::uint64_t g_max_ticks = 0, g_crash_tick = 0;

void crash_now(const char* why) {
  trace("CRASH %s", why);
  ++shared->counters[kFaultCrash];
  syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
  for (;;) pause();
}

static inline void tick(const char* where) {
  if (++shared->counters[kTicks] > g_max_ticks && g_max_ticks) {
    trace("TICK-LIMIT");
    _exit(97);
  }
  if (g_crash_tick && shared->counters[kTicks] == g_crash_tick) crash_now(where);
  if (yield_hook) yield_hook(where);
}

// ---------------------------------------------------------------- plan

std::string Plan::get(const std::string& key, const std::string& def) const {
  for (auto& it : items)
    if (it.first == key) return it.second;
  return def;
}
long Plan::num(const std::string& key, long def) const {
  for (auto& it : items)
    if (it.first == key) return strtol(it.second.c_str(), nullptr, 10);
  return def;
}
std::vector<std::string> Plan::all(const std::string& key) const {
  std::vector<std::string> r;
  for (auto& it : items)
    if (it.first == key) r.push_back(it.second);
  return r;
}

// ---------------------------------------------------------------- allocator

namespace heap {
constexpr std::uintptr_t kBase = 0x100000000000ull;
constexpr std::size_t kArena = 16ull << 30;
constexpr std::uintptr_t kLists = 0x200000000000ull;
constexpr std::size_t kListCap = 1ull << 23;
constexpr int kClasses = 160;

struct Header {
  std::uint64_t size;   // requested
  std::uint32_t cls;
  std::uint32_t magic;
};
static_assert(sizeof(Header) == 16, "");
constexpr std::uint32_t kLive = 0x51A11CE5, kDead = 0xDEADBEE1, kAligned = 0xA11611ED;

enum Mode { kSeq = 0, kRandom = 1, kFifo = 2, kDescending = 3 };

struct State {
  bool ready;
  Mode mode;
  char* bump;
  char* top;
  std::size_t len[kClasses];
  std::size_t head[kClasses];  // for FIFO
  Rng rng;
  int fill_new, fill_free;  // -1: none
  std::size_t gap_max;
  long fail_at, fail_every, fail_sticky_from;
  std::size_t fail_min_size;
  char* armed_base;
};
static State st;
static std::atomic_flag lock_flag = ATOMIC_FLAG_INIT;
struct Lock {
  Lock() { while (lock_flag.test_and_set(std::memory_order_acquire)) syscall(SYS_sched_yield); }
  ~Lock() { lock_flag.clear(std::memory_order_release); }
};

static inline void** list(int cls) {
  return reinterpret_cast<void**>(kLists) + std::size_t(cls) * kListCap;
}

static void setup() {
  void* a = mmap((void*)kBase, kArena, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void* b = mmap((void*)kLists, std::size_t(kClasses) * kListCap * sizeof(void*), PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (a != (void*)kBase || b != (void*)kLists) {
    const char m[] = "sim: cannot map the arena\n";
    (void)!::write(2, m, sizeof m - 1);
    _exit(96);
  }
  st.bump = (char*)kBase;
  st.top = (char*)kBase + kArena;
  st.fill_new = st.fill_free = -1;
  st.rng.seed(1);
  st.ready = true;
}

static inline int class_of(std::size_t n, std::size_t* chunk) {
  if (n <= 512) {
    int c = n ? (n + 15) / 16 - 1 : 0;
    *chunk = (c + 1) * 16;
    return c;
  }
  int lg = 63 - __builtin_clzll(n - 1);  // 2^lg <= n-1 < 2^(lg+1)
  std::size_t base = 1ull << lg, step = base / 4;
  int q = (n - 1 - base) / step;
  *chunk = base + (q + 1) * step;
  return 32 + (lg - 9) * 4 + q;
}

static void* carve(std::size_t chunk) {
  std::size_t total = chunk + sizeof(Header);
  if (st.gap_max && armed()) total += 16 * st.rng.below(st.gap_max);
  char* p;
  if (st.mode == kDescending) {
    st.top -= total;
    p = st.top;
  } else {
    p = st.bump;
    st.bump += total;
  }
  if (st.bump > st.top) return nullptr;
  return p;
}

static void* take(std::size_t n, bool zero) {
  if (!st.ready) setup();
  std::size_t chunk;
  int cls = class_of(n, &chunk);
  if (cls >= kClasses || n > (kArena >> 1)) return nullptr;
  void** l = list(cls);
  void* p = nullptr;
  bool fresh = false;
  switch (st.mode) {
    case kSeq:
      if (st.len[cls] > st.head[cls]) p = l[--st.len[cls]];
      break;
    case kDescending:
    case kRandom: {
      if (st.mode == kRandom && chunk <= 512 && st.len[cls] - st.head[cls] < 8) {
        for (int i = 0; i < 24; ++i) {  // keep a pool so that fresh addresses are shuffled, too
          void* c = carve(chunk);
          if (!c) return nullptr;
          ((Header*)c)->magic = kDead;
          ((Header*)c)->size = ~0ull;  // never used
          l[st.len[cls]++] = c;
        }
      }
      std::size_t cnt = st.len[cls] - st.head[cls];
      if (cnt) {
        std::size_t i = st.head[cls] + st.rng.below(cnt);
        p = l[i];
        l[i] = l[--st.len[cls]];
      }
      break;
    }
    case kFifo:
      if (st.len[cls] - st.head[cls] > 64) p = l[st.head[cls]++];
      break;
  }
  if (!p) {
    p = carve(chunk);
    fresh = true;
    if (!p) return nullptr;
  }
  Header* h = (Header*)p;
  if (!fresh && h->size == ~0ull) fresh = true;
  h->size = n;
  h->cls = cls;
  h->magic = kLive;
  char* u = (char*)p + sizeof(Header);
  if (zero) {
    memset(u, 0, n);
  } else if (st.fill_new >= 0) {
    memset(u, st.fill_new, n);
  }
  return u;
}

static void put(void* u) {
  Header* h = (Header*)((char*)u - sizeof(Header));
  if (h->magic == kAligned) {
    u = (void*)h->size;
    h->magic = kDead;
    h = (Header*)((char*)u - sizeof(Header));
  }
  if (h->magic != kLive) {
    trace("HEAP-CORRUPTION bad free");
    syscall(SYS_kill, syscall(SYS_getpid), SIGABRT);
    return;
  }
  h->magic = kDead;
  if ((char*)h < st.armed_base && g_armed) return;  // memory of the server: never recycled in a run
  if (st.fill_free >= 0) memset(u, st.fill_free, h->size);
  int cls = h->cls;
  if (st.len[cls] >= kListCap) {
    if (st.head[cls] > kListCap / 2) {
      memmove(list(cls), list(cls) + st.head[cls], (st.len[cls] - st.head[cls]) * sizeof(void*));
      st.len[cls] -= st.head[cls];
      st.head[cls] = 0;
    } else {
      return;  // leak
    }
  }
  list(cls)[st.len[cls]++] = h;
}

static std::size_t usable(void* u) {
  Header* h = (Header*)((char*)u - sizeof(Header));
  if (h->magic == kAligned) {
    Header* r = (Header*)((char*)h->size - sizeof(Header));
    return r->size - ((char*)u - (char*)h->size);
  }
  return h->size;
}

// Distinct allocation sites of a run (chains of callers), in the order of their first allocation.
struct Site {
  std::uint64_t key;
  std::uint32_t order, count, first, last;
  std::uint64_t max;
};
static constexpr int kSites = 32768;
static Site* g_sites = nullptr;  // shared with the server
static bool g_sites_on = false;
static std::uint32_t* g_nsites = nullptr;

__attribute__((noinline)) static void note_site(std::uint64_t k, std::size_t n) {
  std::uint64_t h = 1469598103934665603ull;
  char* fp = (char*)__builtin_frame_address(0);
  char* low = fp;
  for (int i = 0; i < 12; ++i) {
    h = (h ^ *(std::uint64_t*)(fp + 8)) * 0x100000001B3ull;
    h ^= h >> 31;
    char* next = *(char**)fp;
    if (next <= fp || next > low + (1 << 17) || ((std::uintptr_t)next & 7)) break;
    fp = next;
  }
  if (!h) h = 1;
  for (std::uint32_t i = h % kSites, tries = 0; tries < 64; ++tries, i = (i + 1) % kSites) {
    Site& t = g_sites[i];
    if (!t.key) t.key = h, t.order = (*g_nsites)++, t.first = k;
    if (t.key == h) {
      ++t.count;
      t.last = k;
      if (n > t.max) t.max = n;
      return;
    }
  }
}

static bool should_fail(std::size_t n) {
  std::uint64_t k = ++shared->counters[kAllocs];
  if (g_sites_on) note_site(k, n);
  if (st.fail_at || st.fail_sticky_from || st.fail_every) {
    if (n < st.fail_min_size) return false;
    bool f = (st.fail_at && (long)k == st.fail_at) ||
             (st.fail_sticky_from && (long)k >= st.fail_sticky_from) ||
             (st.fail_every && k % st.fail_every == 0);
    if (f) {
      ++shared->counters[kAllocFailed];
      if (shared->counters[kAllocFailed] <= 3) trace("alloc #%lu size=%zu FAIL", (unsigned long)k, n);
      return true;
    }
  }
  return false;
}

static void* alloc(std::size_t n, bool zero) {
  bool on = armed();
  if (on) {
    tick("alloc");
    if (should_fail(n)) {
      errno = ENOMEM;
      return nullptr;
    }
  }
  void* p;
  {
    Lock l;
    p = take(n, zero);
    if (on && p) mix((std::uintptr_t)p ^ (n << 20));
  }
  if (!p) errno = ENOMEM;
  return p;
}
}  // namespace heap

// ---------------------------------------------------------------- faults

static std::vector<Fault>* g_faults = nullptr;
static long g_capacity = -1;  // bytes the simulated disk still accepts; -1 unlimited
static Rng g_io_rng;
static bool g_short_reads = false, g_short_writes = false;
static std::string* g_cwd = nullptr;
static std::string* g_dir = nullptr;  // the directory behind cwd, if cwd is but another name of it
static Rng* g_entropy = nullptr;

static int errno_of(const std::string& s) {
  static const struct { const char* n; int v; } t[] = {
      {"EIO", EIO}, {"ENOSPC", ENOSPC}, {"EACCES", EACCES}, {"ENOENT", ENOENT}, {"EMFILE", EMFILE}, {"ENFILE", ENFILE},
      {"EDQUOT", EDQUOT}, {"EROFS", EROFS}, {"EBADF", EBADF}, {"EFBIG", EFBIG}, {"EXDEV", EXDEV}, {"ENOMEM", ENOMEM},
      {"EPERM", EPERM}, {"EISDIR", EISDIR}, {"EPIPE", EPIPE}, {"ETXTBSY", ETXTBSY}, {"EBUSY", EBUSY}, {"ELOOP", ELOOP}};
  for (auto& e : t)
    if (s == e.n) return e.v;
  return EIO;
}

static const char* rel(const char* path) {
  if (g_dir && !g_dir->empty() && strncmp(path, g_dir->c_str(), g_dir->size()) == 0) {
    path += g_dir->size();
    while (*path == '/') ++path;
  } else if (g_cwd && !g_cwd->empty() && strncmp(path, g_cwd->c_str(), g_cwd->size()) == 0) {
    path += g_cwd->size();
    while (*path == '/') ++path;
  } else if (const char* share = strstr(path, "/share/scram/")) {
    return share;  // the build directory's name is no part of the run
  }
  return path;
}

// Finds the fault that fires for this operation.
static Fault* hit(const char* op, const char* path) {
  if (!g_faults) return nullptr;
  for (Fault& f : *g_faults) {
    if (f.op != op) continue;
    if (f.path != "*" && !strstr(path, f.path.c_str())) continue;
    ++f.seen;
    if (f.seen == f.nth || (f.sticky && f.seen > f.nth)) {
      ++f.fired;
      if (f.action == "crash") crash_now(op);
      return &f;
    }
  }
  return nullptr;
}

// fd table: which fds belong to the simulated disk.
struct FdInfo {
  bool used = false;
  bool write = false;
  char path[200] = {0};
};
static FdInfo g_fds[1024];

static bool is_sim_path(const char* path) {
  // Everything below the scratch directory of the run, and relative paths, plus the schema directory.
  if (!path) return false;
  if (path[0] != '/') return true;
  if (g_cwd && strncmp(path, g_cwd->c_str(), g_cwd->size()) == 0 && path[g_cwd->size()] == '/') return true;
  if (g_dir && !g_dir->empty() && strncmp(path, g_dir->c_str(), g_dir->size()) == 0 && path[g_dir->size()] == '/') return true;
  if (strstr(path, "/share/scram/")) return true;
  return false;
}

static int sim_open(const char* path, int flags, mode_t mode) {
  bool w = (flags & O_ACCMODE) != O_RDONLY;
  ++shared->counters[kOpens];
  tick("open");
  if (w && file_hook) file_hook("open_w", rel(path));
  if (Fault* f = hit(w ? "open_w" : "open_r", rel(path))) {
    ++shared->counters[kFaultOpen];
    errno = errno_of(f->action);
    trace("open %s %s = %s FAULT", rel(path), w ? "w" : "r", f->action.c_str());
    return -1;
  }
  int fd = syscall(SYS_openat, AT_FDCWD, path, flags, mode);
  int e = errno;
  trace("open %s %s = %s", rel(path), w ? "w" : "r", fd >= 0 ? "ok" : "error");
  if (fd >= 0 && fd < 1024) {
    g_fds[fd].used = true;
    g_fds[fd].write = w;
    strncpy(g_fds[fd].path, rel(path), sizeof g_fds[fd].path - 1);
  }
  errno = e;
  return fd;
}

static ssize_t sim_read(int fd, void* buf, std::size_t n) {
  const char* path = g_fds[fd].path;
  ++shared->counters[kReads];
  tick("read");
  if (Fault* f = hit("read", path)) {
    if (f->action == "eof") {
      ++shared->counters[kFaultEof];
      trace("read %s = 0 EARLY-EOF", path);
      return 0;
    }
    if (f->action == "short") {
      ++shared->counters[kFaultShortRead];
      if ((std::size_t)f->arg < n && f->arg > 0) n = f->arg;
    } else {
      ++shared->counters[kFaultRead];
      errno = errno_of(f->action);
      trace("read %s = %s FAULT", path, f->action.c_str());
      return -1;
    }
  } else if (g_short_reads && n > 1 && g_io_rng.below(2)) {
    ++shared->counters[kFaultShortRead];
    std::size_t m = g_io_rng.below(4) == 0 ? 1 : 1 + g_io_rng.below(n < 4096 ? n : 4096);
    if (m < n) n = m;
  }
  ssize_t r = syscall(SYS_read, fd, buf, n);
  int e = errno;
  trace("read %s n=%zu = %zd", path, n, r);
  // Early end of file at an absolute offset.
  if (g_faults)
    for (Fault& f : *g_faults)
      if (f.op == "truncate_r" && (f.path == "*" || strstr(path, f.path.c_str())) && r > 0) {
        off_t pos = syscall(SYS_lseek, fd, 0, SEEK_CUR);
        if (pos > f.arg) {
          off_t over = pos - f.arg;
          ++f.fired;
          ++shared->counters[kFaultEof];
          r = over >= r ? 0 : r - over;
          trace("read %s EARLY-EOF at %ld", path, f.arg);
        }
      }
  errno = e;
  return r;
}

static ssize_t sim_write(int fd, const void* buf, std::size_t n) {
  const char* path = g_fds[fd].path;
  ++shared->counters[kWrites];
  tick("write");
  if (file_hook) file_hook("write", path);
  if (Fault* f = hit("write", path)) {
    if (f->action == "short") {
      ++shared->counters[kFaultShortWrite];
      if ((std::size_t)f->arg < n && f->arg > 0) n = f->arg;
    } else if (f->action == "torn") {  // part of the data reaches the disk, then the machine dies
      std::size_t m = n ? (std::size_t)f->arg % (n + 1) : 0;
      (void)!syscall(SYS_write, fd, buf, m);
      crash_now("torn write");
    } else {
      ++shared->counters[kFaultWrite];
      errno = errno_of(f->action);
      trace("write %s n=%zu = %s FAULT", path, n, f->action.c_str());
      return -1;
    }
  } else if (g_short_writes && n > 1 && g_io_rng.below(2)) {
    ++shared->counters[kFaultShortWrite];
    n = 1 + g_io_rng.below(n);
  }
  if (g_capacity >= 0) {
    if (g_capacity == 0 && n) {
      ++shared->counters[kFaultFull];
      errno = ENOSPC;
      trace("write %s n=%zu = ENOSPC FULL", path, n);
      return -1;
    }
    if ((long)n > g_capacity) n = g_capacity;
    g_capacity -= n;
  }
  ssize_t r = syscall(SYS_write, fd, buf, n);
  int e = errno;
  trace("write %s n=%zu = %zd", path, n, r);
  errno = e;
  return r;
}

static int sim_close(int fd) {
  char path[200];
  memcpy(path, g_fds[fd].path, sizeof path);
  bool w = g_fds[fd].write;
  g_fds[fd].used = false;
  ++shared->counters[kCloses];
  tick("close");
  if (w && file_hook) file_hook("close", path);
  Fault* f = w ? hit("close", path) : nullptr;
  int r = syscall(SYS_close, fd);
  int e = errno;
  if (f) {
    ++shared->counters[kFaultClose];
    r = -1;
    e = errno_of(f->action);
    trace("close %s = %s FAULT", path, f->action.c_str());
  } else {
    trace("close %s = %d", path, r);
  }
  errno = e;
  return r;
}

// ---------------------------------------------------------------- FILE streams

struct Cookie {
  int fd;
};
static ssize_t cookie_read(void* c, char* buf, size_t n) { return sim_read(((Cookie*)c)->fd, buf, n); }
static ssize_t cookie_write(void* c, const char* buf, size_t n) {
  // As glibc does for ordinary files: loop over short writes, stop at the first error.
  std::size_t done = 0;
  while (done < n) {
    ssize_t r = sim_write(((Cookie*)c)->fd, buf + done, n - done);
    if (r < 0) return done;  // the caller marks the stream as failed since done < n
    done += r;
  }
  return done;
}
static int cookie_seek(void* c, off64_t* off, int whence) {
  off_t r = syscall(SYS_lseek, ((Cookie*)c)->fd, *off, whence);
  if (r < 0) return -1;
  *off = r;
  return 0;
}
static int cookie_close(void* c) {
  int r = sim_close(((Cookie*)c)->fd);
  int e = errno;
  free(c);
  errno = e;
  return r;
}

std::FILE* make_stream(int fd, const char* name, bool write, const char* mode) {
  Cookie* c = (Cookie*)malloc(sizeof(Cookie));
  if (!c) return nullptr;
  c->fd = fd;
  g_fds[fd].used = true;
  g_fds[fd].write = write;
  strncpy(g_fds[fd].path, name, sizeof g_fds[fd].path - 1);
  cookie_io_functions_t io = {cookie_read, cookie_write, cookie_seek, cookie_close};
  std::FILE* f = fopencookie(c, mode ? mode : write ? "w" : "r", io);
  if (!f) free(c);
  else __fsetlocking(f, FSETLOCKING_BYCALLER);  // simulated threads take the scheduler's lock
  return f;
}

// ---------------------------------------------------------------- clocks

static std::uint64_t g_wall = 0, g_mono = 0;
static long g_wall_step = 1000, g_mono_step = 1000;
static long g_jump_at = 0, g_jump_s = 0, g_clock_n = 0;
std::uint64_t wall_ns() { return g_wall; }
std::uint64_t mono_ns() { return g_mono; }
void advance_ns(std::uint64_t ns) {
  g_wall += ns;
  g_mono += ns;
  shared->sim_ns += ns;
}
static void clock_tick() {
  ++shared->counters[kClockReads];
  ++g_clock_n;
  g_wall += g_wall_step;
  g_mono += g_mono_step;
  shared->sim_ns += g_mono_step;
  if (g_jump_at && g_clock_n == g_jump_at) {
    ++shared->counters[kFaultClock];
    g_wall += (std::uint64_t)(g_jump_s * 1000000000ll);
    trace("clock jump %ld s", g_jump_s);
  }
  mix(g_wall);
}

// ---------------------------------------------------------------- dynamic loader
namespace dl {
struct Lib {
  std::string name;
  bool fail = false;
};
// f<salt>_<return type>_<parameter types>: every interface, told apart by library, position and type.
static const double kWeight[5] = {0.45, 0.225, 0.1125, 0.05625, 0.028125};
static double term(int i, double x) { return kWeight[i] * x; }
static double term(int i, int x) { return kWeight[i] * 0.25 * x; }
template <int S, typename R, typename... A>
R fn(A... a) {
  double s = 0.01 * (S + 1);
  int i = 0;
  ((s += term(i++, a)), ...);
  if (std::is_same<R, int>::value) return (R)(s * 100);
  return (R)s;
}
typedef std::map<std::string, void*> Symbols;
template <int N, int S, typename R, typename... A>
static void define(Symbols* m, const std::string& sig) {
  (*m)["f" + std::to_string(S) + (std::is_same<R, int>::value ? "_i_" : "_d_") + sig] = (void*)&fn<S, R, A...>;
  if constexpr (N > 0) {
    define<N - 1, S, R, A..., int>(m, sig + "i");
    define<N - 1, S, R, A..., double>(m, sig + "d");
  }
}
static const int kSalts = 4;
static Symbols* g_symbols = nullptr;
static void define_all() {
  g_symbols = new Symbols();
  define<5, 0, int>(g_symbols, ""), define<5, 0, double>(g_symbols, "");
  define<5, 1, int>(g_symbols, ""), define<5, 1, double>(g_symbols, "");
  define<5, 2, int>(g_symbols, ""), define<5, 2, double>(g_symbols, "");
  define<5, 3, int>(g_symbols, ""), define<5, 3, double>(g_symbols, "");
}
/// A library exports the functions of its own salt under the names f_... .
static void* symbol(int salt, const char* n) {
  if (strncmp(n, "f_", 2)) return nullptr;
  auto it = g_symbols->find("f" + std::to_string(salt) + (n + 1));
  return it == g_symbols->end() ? nullptr : it->second;
}
static char handle_tag[64];
static thread_local char err[256];
static thread_local bool has_err;
}  // namespace dl
static std::string* g_dl_known = nullptr;  // comma separated path#salt (end of path) of libraries that exist

// ---------------------------------------------------------------- arming

void arm(const Plan& plan) {
  g_faults = new std::vector<Fault>();
  for (const std::string& s : plan.all("fault")) {  // op|path|nth[+]|action|arg
    Fault f;
    std::vector<std::string> p;
    std::string cur;
    for (char c : s) {
      if (c == '|') {
        p.push_back(cur);
        cur.clear();
      } else {
        cur += c;
      }
    }
    p.push_back(cur);
    p.resize(5);
    f.op = p[0];
    f.path = p[1].empty() ? "*" : p[1];
    f.nth = p[2].empty() ? 1 : strtol(p[2].c_str(), nullptr, 10);
    f.sticky = !p[2].empty() && p[2].back() == '+';
    f.action = p[3];
    f.arg = p[4].empty() ? 0 : strtol(p[4].c_str(), nullptr, 10);
    g_faults->push_back(f);
  }
  g_cwd = new std::string(plan.get("cwd"));
  g_dir = new std::string(plan.get("dir"));
  g_dl_known = new std::string(plan.get("dl.known"));
  if (!g_dl_known->empty()) dl::define_all();
  g_crash_tick = plan.num("crash.tick", 0);
  g_capacity = plan.num("disk.capacity", -1);
  g_short_reads = plan.num("io.short_reads", 0);
  g_short_writes = plan.num("io.short_writes", 0);
  std::uint64_t seed = plan.num("seed", 1);
  g_io_rng.seed(seed * 7 + 3);
  g_entropy = new Rng();
  g_entropy->seed(plan.num("entropy", seed * 11 + 5));
  g_wall = (std::uint64_t)plan.num("clock.wall", 1500000000) * 1000000000ull;
  g_mono = (std::uint64_t)plan.num("clock.mono", 1000) * 1000000000ull;
  g_wall_step = plan.num("clock.wall_step", 1000);
  g_mono_step = plan.num("clock.mono_step", 1000);
  g_jump_at = plan.num("clock.jump_at", 0);
  g_jump_s = plan.num("clock.jump", 0);
  g_max_ticks = plan.num("max_ticks", 0);
  shared->hash = 1469598103934665603ull;
  shared->sched_hash = 0;
  shared->trace_len = shared->trace_dropped = shared->finished = 0;
  shared->sim_ns = 0;
  memset(shared->counters, 0, sizeof shared->counters);
  // (Read the plan before taking the lock: reading allocates.)
  long hseed = plan.num("heap.seed", 1), hmode = plan.num("heap.mode", 0), hgap = plan.num("heap.gap", 0);
  long fnew = plan.num("heap.fill_new", -1), ffree = plan.num("heap.fill_free", -1);
  long fat = plan.num("alloc.fail_at", 0), fevery = plan.num("alloc.fail_every", 0);
  bool sites = plan.num("alloc.sites", 0);
  if (sites || *heap::g_nsites) {
    memset(heap::g_sites, 0, sizeof(heap::Site) * heap::kSites);
    *heap::g_nsites = 0;
  }
  heap::g_sites_on = sites;
  long ffrom = plan.num("alloc.fail_from", 0), fmin = plan.num("alloc.fail_min", 0);
  {
    heap::Lock l;
    heap::st.rng.seed(hseed);
    heap::st.mode = (heap::Mode)hmode;
    heap::st.gap_max = hgap;
    heap::st.fill_new = fnew;
    heap::st.fill_free = ffree;
    heap::st.fail_at = fat;
    heap::st.fail_every = fevery;
    heap::st.fail_sticky_from = ffrom;
    heap::st.fail_min_size = fmin;
    // Start from empty free lists at a well-defined arena position, whatever the server did before.
    for (int i = 0; i < heap::kClasses; ++i) heap::st.len[i] = heap::st.head[i] = 0;
    heap::st.bump = (char*)(heap::kBase + (1ull << 30));
    heap::st.top = (char*)heap::kBase + heap::kArena;
    heap::st.armed_base = heap::st.bump;
  }
  g_armed = true;
}
void disarm() { g_armed = false; }

void init_runtime() {
  shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (shared == MAP_FAILED) _exit(95);
  void* m = mmap(nullptr, sizeof(heap::Site) * heap::kSites + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) _exit(95);
  heap::g_nsites = (std::uint32_t*)m;
  heap::g_sites = (heap::Site*)((char*)m + 64);
}

// ---------------------------------------------------------------- fork server

static bool read_exact(int fd, char* p, std::size_t n) {
  while (n) {
    ssize_t r = syscall(SYS_read, fd, p, n);
    if (r <= 0) return false;
    p += r;
    n -= r;
  }
  return true;
}
static void write_all(int fd, const char* p, std::size_t n) {
  while (n) {
    ssize_t r = syscall(SYS_write, fd, p, n);
    if (r <= 0) _exit(94);
    p += r;
    n -= r;
  }
}

// Request:  "<len>\n" + len bytes of "key=value\n" lines ("\\n" and "\\\\" escaped).
// Response: "<len>\n" + len bytes: header lines, blank line, trace.
void serve(int (*run)(const Plan&)) {
  int in = fcntl(0, F_DUPFD_CLOEXEC, 200), out = fcntl(1, F_DUPFD_CLOEXEC, 201);
  init_runtime();
  for (;;) {
    std::string num;
    char c;
    for (;;) {
      if (!read_exact(in, &c, 1)) return;
      if (c == '\n') break;
      num += c;
    }
    std::string body(strtoul(num.c_str(), nullptr, 10), '\0');
    if (!read_exact(in, &body[0], body.size())) return;
    Plan plan;
    std::size_t pos = 0;
    while (pos < body.size()) {
      std::size_t nl = body.find('\n', pos);
      if (nl == std::string::npos) nl = body.size();
      std::string line = body.substr(pos, nl - pos);
      pos = nl + 1;
      std::size_t eq = line.find('=');
      if (eq == std::string::npos) continue;
      std::string v;
      for (std::size_t i = eq + 1; i < line.size(); ++i) {
        if (line[i] == '\\' && i + 1 < line.size()) {
          ++i;
          v += line[i] == 'n' ? '\n' : line[i];
        } else {
          v += line[i];
        }
      }
      plan.items.emplace_back(line.substr(0, eq), v);
    }
    memset(shared, 0, offsetof(Shared, trace));
    pid_t pid = fork();
    if (pid == 0) {
      setpgid(0, 0);
      syscall(SYS_close, in);
      syscall(SYS_close, out);
      rlimit rl{0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      if (long cpu = plan.num("cpu_s", 60)) {
        rl = {(rlim_t)cpu, (rlim_t)cpu};
        setrlimit(RLIMIT_CPU, &rl);
      }
      int rc = run(plan);
      exit(rc);
    }
    int status = 0;
    long limit_ms = plan.num("wall_ms", 120000);
    bool timed_out = false;
    timespec t0;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t0);
    // Poll with short sleeps; the watchdog is a backstop only.
    long slept = 50;
    for (;;) {
      pid_t r = waitpid(pid, &status, WNOHANG);
      if (r == pid) break;
      timespec ts{0, slept * 1000};
      syscall(SYS_nanosleep, &ts, nullptr);
      if (slept < 2000) slept += slept / 4 + 1;
      timespec t1;
      syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t1);
      long ms = (t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000;
      if (!timed_out && ms > limit_ms) {
        timed_out = true;
        kill(-pid, SIGKILL);
        kill(pid, SIGKILL);
      }
    }
    kill(-pid, SIGKILL);
    std::string res;
    char b[128];
    if (timed_out)
      res += "end=timeout\n";
    else if (WIFSIGNALED(status))
      snprintf(b, sizeof b, "end=signal %d\n", WTERMSIG(status)), res += b;
    else
      snprintf(b, sizeof b, "end=exit %d\n", WEXITSTATUS(status)), res += b;
    snprintf(b, sizeof b, "hash=%016lx\nsched=%016lx\nfinished=%u\nsim_ns=%lu\ndropped=%u\n", (unsigned long)shared->hash,
             (unsigned long)shared->sched_hash, shared->finished, (unsigned long)shared->sim_ns, shared->trace_dropped);
    res += b;
    for (int i = 0; i < kCounterMax; ++i)
      if (shared->counters[i]) {
        snprintf(b, sizeof b, "c.%s=%lu\n", kCounterNames[i], (unsigned long)shared->counters[i]);
        res += b;
      }
    if (*heap::g_nsites) {
      std::vector<const heap::Site*> v(*heap::g_nsites);
      for (int i = 0; i < heap::kSites; ++i)
        if (heap::g_sites[i].key) v[heap::g_sites[i].order] = &heap::g_sites[i];
      res += "sites=";
      for (auto* t : v) {
        snprintf(b, sizeof b, "%u:%u:%u:%lu;", t->first, t->last, t->count, (unsigned long)t->max);
        res += b;
      }
      res += "\n";
      memset(heap::g_sites, 0, sizeof(heap::Site) * heap::kSites);
      *heap::g_nsites = 0;
    }
    res += "\n";
    res.append(shared->trace, shared->trace_len);
    snprintf(b, sizeof b, "%zu\n", res.size());
    write_all(out, b, strlen(b));
    write_all(out, res.data(), res.size());
  }
}

}  // namespace sim

// ================================================================ interposed symbols

using namespace sim;

// (Defined here so that the callers of operator new can be told apart; they behave like the library's.)
void* operator new(std::size_t n) {
  if (yield_hook) sched_point("new");
  for (;;) {
    if (void* p = heap::alloc(n ? n : 1, false)) return p;
    std::new_handler h = std::get_new_handler();
    if (!h) throw std::bad_alloc();
    h();
  }
}
void* operator new[](std::size_t n) { return operator new(n); }

extern "C" {

void* malloc(size_t n) {
  if (yield_hook) sched_alloc_point(__builtin_return_address(0));
  return heap::alloc(n, false);
}
void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return nullptr;
  }
  return heap::alloc(n, true);
}
void free(void* p) {
  if (!p) return;
  int e = errno;
  {
    heap::Lock l;
    heap::put(p);
  }
  errno = e;
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (!n) {
    free(p);
    return nullptr;
  }
  size_t old = heap::usable(p);
  void* q = heap::alloc(n, false);
  if (!q) return nullptr;
  memcpy(q, p, old < n ? old : n);
  free(p);
  return q;
}
void* memalign(size_t al, size_t n) {
  if (al <= 16) return malloc(n);
  char* raw = (char*)heap::alloc(n + al + 32, false);
  if (!raw) return nullptr;
  uintptr_t u = ((uintptr_t)raw + 32 + al - 1) & ~(uintptr_t)(al - 1);
  heap::Header* h = (heap::Header*)(u - sizeof(heap::Header));
  h->size = (uint64_t)raw;
  h->magic = heap::kAligned;
  h->cls = 0;
  return (void*)u;
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
void* valloc(size_t n) { return memalign(4096, n); }
int posix_memalign(void** out, size_t al, size_t n) {
  void* p = memalign(al, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
size_t malloc_usable_size(void* p) { return p ? heap::usable(p) : 0; }
void* reallocarray(void* p, size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    errno = ENOMEM;
    return nullptr;
  }
  return realloc(p, n);
}
char* strdup(const char* s) {
  size_t n = strlen(s) + 1;
  char* p = (char*)malloc(n);
  return p ? (char*)memcpy(p, s, n) : nullptr;
}

// ---- files

static bool fd_sim(int fd) { return armed() && fd >= 0 && fd < 1024 && g_fds[fd].used; }

static int open_impl(const char* path, int flags, mode_t mode) {
  if (armed() && path) {
    if (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random")) {
      trace("open entropy device");
      ++shared->counters[kRandomReads];
      int p[2];
      if (::pipe(p) == 0) {  // a finite seeded stream
        unsigned char buf[4096];
        for (auto& b : buf) b = g_entropy->next() >> 32;
        (void)!syscall(SYS_write, p[1], buf, sizeof buf);
        syscall(SYS_close, p[1]);
        return p[0];
      }
    }
    if (is_sim_path(path)) return sim_open(path, flags, mode);
  }
  return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
int open(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  return open_impl(path, flags, m);
}
int open64(const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  return open_impl(path, flags, m);
}
int openat(int dir, const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  if (dir == AT_FDCWD || (path && path[0] == '/')) return open_impl(path, flags, m);
  return syscall(SYS_openat, dir, path, flags, m);
}
int openat64(int dir, const char* path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  mode_t m = (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  if (dir == AT_FDCWD || (path && path[0] == '/')) return open_impl(path, flags, m);
  return syscall(SYS_openat, dir, path, flags, m);
}
int creat(const char* path, mode_t m) { return open_impl(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
// A program that runs in a directory with a fixed second name sees that name, so that nothing it draws or counts
// depends on where the run takes place.
char* getcwd(char* b, size_t n) {
  char own[4096];
  if (g_dir && !g_dir->empty()) {
    snprintf(own, sizeof own, "%s", g_cwd->c_str());
  } else if (syscall(SYS_getcwd, own, sizeof own) < 0) {
    return nullptr;
  }
  if (!b) return strdup(own);
  if (n <= strlen(own)) {
    errno = ERANGE;
    return nullptr;
  }
  return strcpy(b, own);
}

ssize_t read(int fd, void* b, size_t n) { return fd_sim(fd) ? sim_read(fd, b, n) : syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) {
  return fd_sim(fd) ? sim_write(fd, b, n) : syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (!fd_sim(fd)) return syscall(SYS_writev, fd, v, c);
  ssize_t done = 0;
  for (int i = 0; i < c; ++i) {
    if (!v[i].iov_len) continue;
    ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len);
    if (r < 0) return done ? done : r;
    done += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return done;
}
int close(int fd) { return fd_sim(fd) ? sim_close(fd) : syscall(SYS_close, fd); }

static FILE* fopen_impl(const char* path, const char* mode, bool native) {
  if (!armed() || !is_sim_path(path) || native) {
    int flags = mode[0] == 'r' ? O_RDONLY : O_WRONLY | O_CREAT | (mode[0] == 'a' ? O_APPEND : O_TRUNC);
    if (strchr(mode, '+')) flags = (flags & ~O_ACCMODE) | O_RDWR;
    int fd = open_impl(path, flags | O_CLOEXEC, 0666);
    if (fd < 0) return nullptr;
    FILE* f = fdopen(fd, mode);
    if (!f) close(fd);
    return f;
  }
  bool plus = strchr(mode, '+');
  bool w = mode[0] != 'r' || plus;
  int flags = mode[0] != 'r' ? O_WRONLY | O_CREAT | (mode[0] == 'a' ? O_APPEND : O_TRUNC) : O_RDONLY;
  if (plus) flags = (flags & ~O_ACCMODE) | O_RDWR;
  char m[3] = {mode[0], plus ? '+' : '\0', '\0'};
  int fd = sim_open(path, flags, 0666);
  if (fd < 0) return nullptr;
  std::string name = rel(path);
  FILE* f = make_stream(fd, name.c_str(), w, m);
  if (!f) syscall(SYS_close, fd);
  return f;
}
FILE* fopen(const char* path, const char* mode) { return fopen_impl(path, mode, false); }
FILE* fopen64(const char* path, const char* mode) { return fopen_impl(path, mode, true); }

int rename(const char* a, const char* b) {
  if (armed() && is_sim_path(b)) {
    ++shared->counters[kRenames];
    tick("rename");
    if (file_hook) file_hook("rename", rel(b));
    if (Fault* f = hit("rename", rel(b))) {
      if (f->action == "crash_after") {
        syscall(SYS_rename, a, b);
        crash_now("after rename");
      }
      ++shared->counters[kFaultRename];
      errno = errno_of(f->action);
      trace("rename -> %s = %s FAULT", rel(b), f->action.c_str());
      return -1;
    }
    int r = syscall(SYS_rename, a, b);
    int e = errno;
    trace("rename -> %s = %d", rel(b), r);
    if (!r && file_hook) file_hook("renamed", rel(b));
    errno = e;
    return r;
  }
  return syscall(SYS_rename, a, b);
}
int unlink(const char* p) {
  if (armed() && is_sim_path(p)) {
    tick("unlink");
    if (file_hook) file_hook("unlink", rel(p));
    if (Fault* f = hit("unlink", rel(p))) {
      errno = errno_of(f->action);
      return -1;
    }
    trace("unlink %s", rel(p));
  }
  return syscall(SYS_unlink, p);
}
static int stat_gate(const char* p) {
  if (armed() && p && is_sim_path(p)) {
    ++shared->counters[kStats];
    tick("stat");
    if (Fault* f = hit("stat", rel(p))) {
      ++shared->counters[kFaultStat];
      errno = errno_of(f->action);
      trace("stat %s = %s FAULT", rel(p), f->action.c_str());
      return -1;
    }
  }
  return 0;
}
// The links that make up the fixed name of the directory pass for plain directories.
static int nofollow(const char* p) {
  if (p && g_dir && !g_dir->empty() && *p == '/') {
    std::size_t n = strlen(p);
    while (n > 1 && p[n - 1] == '/') --n;
    if (n <= g_cwd->size() && !strncmp(p, g_cwd->c_str(), n) && (n == g_cwd->size() || (*g_cwd)[n] == '/')) return 0;
  }
  return AT_SYMLINK_NOFOLLOW;
}
char* realpath(const char* p, char* out) {
  char* r = canonicalize_file_name(p);
  if (!r) return nullptr;
  char own[4096];
  bool ours = g_dir && !g_dir->empty() && !strncmp(r, g_dir->c_str(), g_dir->size());
  snprintf(own, sizeof own, "%s%s", ours ? g_cwd->c_str() : "", ours ? r + g_dir->size() : r);
  free(r);
  return out ? strcpy(out, own) : strdup(own);
}
int stat(const char* p, struct stat* s) { return stat_gate(p) ? -1 : syscall(SYS_newfstatat, AT_FDCWD, p, s, 0); }
int stat64(const char* p, struct stat64* s) { return stat_gate(p) ? -1 : syscall(SYS_newfstatat, AT_FDCWD, p, s, 0); }
int lstat(const char* p, struct stat* s) {
  return stat_gate(p) ? -1 : syscall(SYS_newfstatat, AT_FDCWD, p, s, nofollow(p));
}
int lstat64(const char* p, struct stat64* s) {
  return stat_gate(p) ? -1 : syscall(SYS_newfstatat, AT_FDCWD, p, s, nofollow(p));
}
int statx(int dir, const char* p, int flags, unsigned mask, struct statx* s) {
  if (dir == AT_FDCWD && p && *p && stat_gate(p)) return -1;
  if ((flags & AT_SYMLINK_NOFOLLOW) && !nofollow(p)) flags &= ~AT_SYMLINK_NOFOLLOW;
  return syscall(SYS_statx, dir, p, flags, mask, s);
}

// ---- clocks

static const time_t kIdleTime = 1500000000;

int clock_gettime(clockid_t id, struct timespec* ts) {
  if (!ts) return -1;
  if (!armed()) {  // Before the run starts nothing may leak in from the real world either.
    ts->tv_sec = kIdleTime;
    ts->tv_nsec = 0;
    return 0;
  }
  clock_tick();
  std::uint64_t v = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? g_wall : g_mono;
  ts->tv_sec = v / 1000000000ull;
  ts->tv_nsec = v % 1000000000ull;
  return 0;
}
int gettimeofday(struct timeval* tv, void*) {
  if (!armed()) {
    tv->tv_sec = kIdleTime;
    tv->tv_usec = 0;
    return 0;
  }
  clock_tick();
  tv->tv_sec = g_wall / 1000000000ull;
  tv->tv_usec = g_wall / 1000 % 1000000;
  return 0;
}
time_t time(time_t* t) {
  time_t r;
  if (armed()) {
    clock_tick();
    r = g_wall / 1000000000ull;
  } else {
    r = kIdleTime;
  }
  if (t) *t = r;
  return r;
}

// ---- entropy

ssize_t getrandom(void* b, size_t n, unsigned fl) {
  if (!armed() || !g_entropy) {
    memset(b, 0x5a, n);
    return n;
  }
  ++shared->counters[kRandomReads];
  for (size_t i = 0; i < n; ++i) ((unsigned char*)b)[i] = g_entropy->next() >> 32;
#ifdef SIM_NO_DL  // (Qt's XML reader salts its tables all the time.)
  mix(n);
#else
  trace("getrandom %zu", n);
#endif
  return n;
}
int getentropy(void* b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
void arc4random_buf(void* b, size_t n) { getrandom(b, n, 0); }
uint32_t arc4random() {
  uint32_t v;
  getrandom(&v, sizeof v, 0);
  return v;
}

// ---- dynamic loader (only for the code under test: the exe's own references)

#ifndef SIM_NO_DL
void* dlopen(const char* file, int flags) {
  static void* (*real)(const char*, int) = nullptr;
  if (!armed()) {
    (void)real;
    return nullptr;
  }
  ++shared->counters[kDlopens];
  tick("dlopen");
  dl::has_err = false;
  const char* r = file ? rel(file) : "(self)";
  Fault* f = hit("dlopen", r);
  int salt = -1;
  if (file && g_dl_known) {
    std::string k = *g_dl_known + ",", cur, path;
    std::vector<std::string> parts;  // the path without . and ..
    for (const char* q = file; ; ++q) {
      if (*q && *q != '/') {
        cur += *q;
        continue;
      }
      if (cur == ".." && !parts.empty() && parts.back() != "..") parts.pop_back();
      else if (!cur.empty() && cur != ".") parts.push_back(cur);
      cur.clear();
      if (!*q) break;
    }
    for (auto& part : parts) path += (strchr(file, '/') ? "/" : "") + part;
    for (char c : k) {
      if (c == ',') {
        std::size_t at = cur.find('#');
        std::string end = cur.substr(0, at);
        if (!end.empty() && path.size() >= end.size() && !path.compare(path.size() - end.size(), end.size(), end))
          salt = at == std::string::npos ? 0 : atoi(cur.c_str() + at + 1) % dl::kSalts;
        cur.clear();
      } else {
        cur += c;
      }
    }
  }
  if (f || salt < 0) {
    if (f) ++shared->counters[kFaultDl];
    snprintf(dl::err, sizeof dl::err, "%s: cannot open shared object file: simulated", r);
    dl::has_err = true;
    trace("dlopen %s = null%s", r, f ? " FAULT" : "");
    return nullptr;
  }
  trace("dlopen %s = ok", r);
  return dl::handle_tag + salt;
}
void* dlsym(void* h, const char* name) {
  if (h < (void*)dl::handle_tag || h >= (void*)(dl::handle_tag + dl::kSalts)) return nullptr;
  int salt = (char*)h - dl::handle_tag;
  ++shared->counters[kDlsyms];
  dl::has_err = false;
  Fault* f = hit("dlsym", name);
  void* s = f ? nullptr : dl::symbol(salt, name);
  if (f) ++shared->counters[kFaultDl];
  if (!s) {
    snprintf(dl::err, sizeof dl::err, "undefined symbol: %s", name);
    dl::has_err = true;
  }
  trace("dlsym %s = %s", name, s ? "ok" : "null");
  return s;
}
int dlclose(void*) { return 0; }
char* dlerror() {
  if (!dl::has_err) return nullptr;
  dl::has_err = false;
  return dl::err;
}
#endif

}  // extern "C"

// The C++ runtime reads the clock with a direct system call on some builds: answer from the simulated clock.
namespace std {
namespace chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return time_point(duration(chrono::seconds(ts.tv_sec) + chrono::nanoseconds(ts.tv_nsec)));
}
system_clock::time_point system_clock::now() noexcept {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  return time_point(chrono::duration_cast<duration>(chrono::seconds(ts.tv_sec) + chrono::nanoseconds(ts.tv_nsec)));
}
}  // namespace _V2
}  // namespace chrono
random_device::result_type random_device::_M_getval() {
  unsigned v = 0;
  if (getrandom(&v, sizeof v, 0) < 0) abort();
  return v;
}
}  // namespace std

// Simulator runtime: every source of nondeterminism of the process under test
// goes through here.  One plan (text) fixes one execution.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <map>
#include <string>
#include <vector>

namespace sim {

// Result block shared with the parent process (survives any death of the child).
enum Counter {
  kTicks, kAllocs, kAllocFailed, kOpens, kReads, kWrites, kCloses, kRenames,
  kStats, kDlopens, kDlsyms, kClockReads, kRandomReads,
  kFaultOpen, kFaultRead, kFaultWrite, kFaultClose, kFaultRename, kFaultStat,
  kFaultShortRead, kFaultShortWrite, kFaultEof, kFaultFull, kFaultCrash, kFaultDl,
  kFaultClock, kFaultLog, kYields, kSwitches, kTimers, kCounterMax
};
extern const char* const kCounterNames[kCounterMax];

struct Shared {
  std::uint64_t hash;
  std::uint64_t sched_hash;  // hash of scheduling decisions only
  std::uint64_t counters[kCounterMax];
  std::uint64_t sim_ns;  // simulated time covered
  std::uint32_t finished;  // reached the normal end of the plan
  std::uint32_t trace_len;
  std::uint32_t trace_dropped;
  char trace[1 << 20];
};
extern Shared* shared;

// Seeded generator (xorshift*), one stream per purpose.
struct Rng {
  std::uint64_t s = 88172645463325252ull;
  void seed(std::uint64_t v);
  std::uint64_t next();
  std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
};

struct Fault {
  std::string op;    // open_r open_w read write close rename stat dlopen dlsym
  std::string path;  // substring of the path, or *
  long nth = 1;      // 1-based index among matching operations
  bool sticky = false;  // from nth on
  std::string action;  // errno name | short | eof | crash
  long arg = 0;
  long seen = 0;
  long fired = 0;
};

struct Plan {
  std::vector<std::pair<std::string, std::string>> items;
  std::string get(const std::string& key, const std::string& def = "") const;
  long num(const std::string& key, long def) const;
  std::vector<std::string> all(const std::string& key) const;
};

void init_runtime();  // maps the shared block; once in the server
void arm(const Plan& plan);  // in the child: installs seeds, layout, faults, clocks
void disarm();
bool armed();
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void mix(std::uint64_t v);
[[noreturn]] void crash_now(const char* why);
std::FILE* make_stream(int fd, const char* name, bool write, const char* mode = nullptr);
std::uint64_t wall_ns();
std::uint64_t mono_ns();
void advance_ns(std::uint64_t ns);

// Scheduling hook: called (armed, outside of the runtime) at allocation and I/O points.
extern void (*yield_hook)(const char* where);
// Called (armed) before every change of a file: open_w, write, close, rename, unlink; "renamed" after a rename.
extern void (*file_hook)(const char* op, const char* path);

struct Quiet {  // harness code: no faults, no trace, no yields
  Quiet();
  ~Quiet();
};

void serve(int (*run)(const Plan&));  // fork server main loop
}  // namespace sim

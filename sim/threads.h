// The seeded thread scheduler (off until sched_start).
#pragma once
#include <cstdint>

namespace sim {
struct Plan;
void sched_start(const Plan& plan);  // the calling thread becomes thread 0
bool sched_on();
bool sched_mine();  // the caller is a scheduled thread
int sched_self();
std::uint64_t sched_steps();
void sched_point(const char* where);  // another thread may run here
void sched_alloc_point(const void* caller);
bool sched_sleep_until(std::uint64_t mono_ns);
bool sched_wait(const void* key, std::uint64_t deadline_ns);  // false: timed out
void sched_wake(const void* key);
struct SchedOff {  // no switches within
  SchedOff();
  ~SchedOff();
};
}  // namespace sim

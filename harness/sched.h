// A scheduler that decides which thread runs next, one at a time.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sched {

struct Policy {
  enum Kind { DFS, RANDOM, PCT } kind = RANDOM;
  uint64_t seed = 1;
  // DFS: number of preemptions
  int bound = 2;
  // DFS: 1 only at synchronisations, 2 also at atomic operations
  int level = 1;
  // RANDOM: chance (per mille) of a switch at a synchronisation, an atomic
  // operation and a plain memory access
  int pSync = 300, pAtomic = 100, pMem = 5;
  // PCT: number of priority changes
  int depth = 2;
  // chance (per mille) of a wake-up of a condition variable without a reason
  int pSpurious = 0;
};

struct Outcome {
  bool deadlock = false;   // some threads wait for ever
  bool livelock = false;   // too many steps
  long steps = 0;
};

// Runs body (on the calling thread, which is thread 0) under the policy. For
// DFS, repeated calls go through the schedules; false when there are no more.
// A deadlock does not return: onDeadlock is called and must end the process.
bool run(const Policy& p, const std::function<void()>& body, Outcome* out,
         const std::function<void(const char*)>& onDeadlock);
// Forget the schedules gone through so far.
void restart();
// A point where another thread may run.
void point();
// Is this the scheduler's own work?
bool ownWork();
// The history of the current run; recording is atomic.
void record(const char* event);
std::string takeHistory();
const std::string& currentHistory();
}  // namespace sched

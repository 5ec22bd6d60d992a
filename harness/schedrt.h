// Controlled scheduler: the tasks of the parallel regions run as coroutines of
// one thread, which are switched at the synchronization operations only. The
// order is dictated by the explorer (see explore() in schedx.h). Every plain
// access is checked for data races (happens-before, vector clocks).
#ifndef VERIF_SCHEDRT_H
#define VERIF_SCHEDRT_H
#include <cstddef>
#include <cstdint>

namespace schedrt {
enum Base { Ascending, Descending, RoundRobin };
struct Deviation {
  uint32_t step;
  uint32_t choice;
};
struct Race {
  uintptr_t addr;
  void *pc1, *pc2;
  bool write1, write2;
};
struct Result {
  bool deadlock;
  bool misuse; // unlock of a mutex that is not owned
  uint32_t steps;
  const uint16_t *enabled; // number of enabled tasks at each step
  uint32_t numRaces;
  const Race *races;
  uint32_t regions, tasks;
  uint64_t accesses;
};
// Runs fn(arg) under the given schedule.
Result execute(void (*fn)(void *), void *arg, Base base, const Deviation *deviations, uint32_t numDeviations);

// Used by the replacement of mlir/IR/Threading.h. Runs fn(arg, i) for i in [0, n), concurrently.
void region(size_t n, void (*fn)(void *, size_t), void *arg);
} // namespace schedrt
#endif

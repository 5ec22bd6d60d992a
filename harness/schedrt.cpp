// See schedrt.h. Compiled without instrumentation; no library containers are
// used, so that nothing in here is shared with the instrumented code.
#include "schedrt.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <ucontext.h>
#include <unistd.h>

extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
}

using namespace schedrt;
namespace {
const unsigned MaxTasks = 192;
const size_t StackSize = 512 * 1024;
const uint32_t MaxSteps = 1 << 16;

[[noreturn]] void die(const char *what) {
  fprintf(stderr, "schedrt: %s\n", what);
  _exit(86);
}

struct Clock {
  uint32_t c[MaxTasks];
};
void join(Clock &a, const Clock &b) {
  for (unsigned i = 0; i < MaxTasks; ++i) {
    if (b.c[i] > a.c[i]) {
      a.c[i] = b.c[i];
    }
  }
}

struct Task {
  ucontext_t uc;
  char *stack;
  Clock vc;
  bool done, waitingChildren;
  unsigned pendingChildren;
  Task *parent;
  void *waitLock;
  bool waitShared;
  void (*fn)(void *, size_t);
  void *arg;
  size_t index;
};
Task *tasks = nullptr; // tasks[0] is the main one
unsigned numTasks = 0; // alive or finished, of the current outermost region
unsigned current = 0;
bool active = false; // within a parallel region
bool inRuntime = false;

// Schedule.
Base base = Ascending;
const Deviation *deviations = nullptr;
uint32_t numDeviations = 0, nextDeviation = 0;
uint32_t step = 0;
uint16_t enabledCounts[MaxSteps];
bool executing = false;
ucontext_t escape;
volatile int escaped = 0;

// Result.
bool deadlock = false, misuse = false;
const uint32_t MaxRaces = 16;
Race races[MaxRaces];
uint32_t numRaces = 0;
uint32_t regions = 0, totalTasks = 0;
uint64_t accesses = 0;

// Synchronization objects.
struct Sync {
  uintptr_t addr;
  uint64_t epoch;
  int owner;       // task id or -1
  unsigned shared; // shared holders
  int user;        // the only task that used it, or -1 if none, or -2 if many
  unsigned depth;
  Clock vc, readers;
};
const unsigned SyncSlots = 1 << 14;
Sync *syncs = nullptr;
unsigned numSyncs = 0;
uint64_t epoch = 1; // of the outermost regions

Sync &sync(void *p) {
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (!syncs) {
    syncs = static_cast<Sync *>(mmap(nullptr, sizeof(Sync) * SyncSlots, PROT_READ | PROT_WRITE,
                                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  }
  for (unsigned i = (a * 0x9E3779B97F4A7C15ull) >> 50, n = 0; n < SyncSlots; i = (i + 1) % SyncSlots, ++n) {
    Sync &s = syncs[i];
    if (s.addr == a && s.epoch == epoch) {
      return s;
    }
    if (s.epoch != epoch) { // free in this region
      s.addr = a;
      s.epoch = epoch;
      s.owner = s.user = -1;
      s.shared = s.depth = 0;
      memset(&s.vc, 0, sizeof s.vc);
      memset(&s.readers, 0, sizeof s.readers);
      return s;
    }
  }
  die("too many synchronization objects");
}

// Shadow memory, by granules of 8 bytes.
struct Cell {
  void *pc;
  uint32_t clock;
  uint8_t task, mask, write;
};
struct Granule {
  uintptr_t addr;
  uint32_t first; // list of cells
};
struct Slot {
  uint32_t epoch, index;
};
struct Node {
  Cell cell;
  uint32_t next;
};
const unsigned Slots = 1 << 17;
const unsigned MaxGranules = Slots / 2;
const unsigned MaxNodes = 1 << 19;
Slot *slots = nullptr;
Granule *granules = nullptr;
Node *nodes = nullptr;
uint32_t numGranules = 0, numNodes = 1, freeNode = 0;

template <typename T>
T *reserve(size_t n) {
  return static_cast<T *>(
      mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
}
void resetShadow() {
  numGranules = 0;
  numNodes = 1;
  freeNode = 0;
}

Granule *granule(uintptr_t g, bool create) {
  if (!slots) {
    slots = reserve<Slot>(Slots);
    granules = reserve<Granule>(MaxGranules);
    nodes = reserve<Node>(MaxNodes);
  }
  // Neighbours are kept close to each other.
  uint64_t h = (g >> 9) * 0x9E3779B97F4A7C15ull >> 40;
  for (unsigned i = (h + (g & 511)) % Slots;; i = (i + 1) % Slots) {
    Slot &s = slots[i];
    if (s.epoch != (uint32_t)epoch) {
      if (!create) {
        return nullptr;
      }
      if (numGranules >= MaxGranules) {
        die("shadow memory exhausted");
      }
      s.epoch = epoch;
      s.index = numGranules++;
      granules[s.index] = Granule{g, 0};
      return &granules[s.index];
    }
    if (granules[s.index].addr == g) {
      return &granules[s.index];
    }
  }
}

void access1(uintptr_t g, uint8_t mask, bool write, void *pc) {
  ++accesses;
  Granule *s = granule(g, true);
  const Clock &vc = tasks[current].vc;
  for (uint32_t *link = &s->first; *link;) {
    Node &n = nodes[*link];
    Cell &c = n.cell;
    bool drop = false;
    if (c.mask & mask) {
      if (c.task == current && c.clock == vc.c[current] && (mask & ~c.mask) == 0 && (c.write || !write)) {
        return; // Nothing new.
      }
      bool ordered = c.task == current || c.clock <= vc.c[c.task];
      if (!ordered && (c.write || write)) {
        if (numRaces < MaxRaces) {
          races[numRaces++] = Race{g * 8, c.pc, pc, (bool)c.write, write};
        }
        drop = true;
      } else if (ordered && (c.mask & ~mask) == 0 && (write || !c.write)) {
        // Implied by the new access: what is concurrent with the old one is concurrent with the new one.
        drop = true;
      }
    }
    if (drop) {
      uint32_t i = *link;
      *link = n.next;
      n.next = freeNode;
      freeNode = i;
    } else {
      link = &n.next;
    }
  }
  uint32_t i = freeNode;
  if (i) {
    freeNode = nodes[i].next;
  } else {
    if (numNodes >= MaxNodes) {
      die("shadow memory exhausted");
    }
    i = numNodes++;
  }
  nodes[i].cell = Cell{pc, vc.c[current], (uint8_t)current, mask, write};
  nodes[i].next = s->first;
  s->first = i;
}

void accessRange(const void *p, size_t n, bool write, void *pc) {
  if (!active || inRuntime || n == 0) {
    return;
  }
  inRuntime = true;
  uintptr_t a = reinterpret_cast<uintptr_t>(p), e = a + n;
  for (uintptr_t g = a >> 3; g <= (e - 1) >> 3; ++g) {
    uint8_t mask = 0xff;
    if (g << 3 < a) {
      mask &= 0xff << (a - (g << 3));
    }
    if ((g << 3) + 8 > e) {
      mask &= 0xff >> ((g << 3) + 8 - e);
    }
    access1(g, mask, write, pc);
  }
  inRuntime = false;
}
void clearRange(const void *p, size_t n) {
  if (!active || !p || n == 0) {
    return;
  }
  uintptr_t a = reinterpret_cast<uintptr_t>(p), e = a + n;
  for (uintptr_t g = a >> 3; g <= (e - 1) >> 3; ++g) {
    if (Granule *s = granule(g, false)) {
      s->first = 0;
    }
  }
}

// --- Scheduling -------------------------------------------------------------
bool isEnabled(const Task &t) {
  if (t.done || t.waitingChildren) {
    return false;
  }
  if (t.waitLock) {
    Sync &s = sync(t.waitLock);
    return s.owner < 0 && (t.waitShared || s.shared == 0);
  }
  return true;
}

Sync *pending = nullptr; // object about to be used by the current task
Sync *stepObjects[MaxSteps];
uint32_t regionFirstStep = 0;

// At the end of a region: a deviation in front of the use of an object which no
// other task of the region uses is equivalent to one at the next point.
void dropPrivateSteps() {
  if (base == RoundRobin) {
    return;
  }
  for (uint32_t i = regionFirstStep; i < step; ++i) {
    if (stepObjects[i] && stepObjects[i]->user != -2) {
      enabledCounts[i] = 1;
    }
  }
}

// Chooses the next task. The current one may be disabled.
unsigned choose() {
  unsigned list[MaxTasks], n = 0;
  auto add = [&](unsigned i) {
    if (isEnabled(tasks[i])) {
      list[n++] = i;
    }
  };
  if (base == Ascending) {
    add(current);
    for (unsigned i = 0; i < numTasks; ++i) {
      if (i != current) {
        add(i);
      }
    }
  } else if (base == Descending) {
    add(current);
    for (unsigned i = numTasks; i-- > 0;) {
      if (i != current) {
        add(i);
      }
    }
  } else {
    for (unsigned k = 1; k <= numTasks; ++k) {
      add((current + k) % numTasks);
    }
  }
  if (n == 0) {
    deadlock = true;
    escaped = 1;
    active = false;
    setcontext(&escape);
  }
  unsigned pick = 0;
  if (n > 1) {
    if (step < MaxSteps) {
      enabledCounts[step] = n;
      stepObjects[step] = pending;
    }
    if (nextDeviation < numDeviations && deviations[nextDeviation].step == step) {
      pick = deviations[nextDeviation++].choice;
      if (pick >= n) {
        die("the execution is not deterministic");
      }
    }
    if (++step > MaxSteps) {
      die("too many scheduling points");
    }
  }
  return list[pick];
}

void switchTo(unsigned t) {
  if (t == current) {
    return;
  }
  unsigned from = current;
  current = t;
  bool saved = inRuntime;
  swapcontext(&tasks[from].uc, &tasks[t].uc);
  inRuntime = saved;
}

// Before the current task uses a synchronization object.
void point(void *object) {
  if (object) {
    Sync &s = sync(object);
    s.user = s.user == -1 || s.user == (int)current ? (int)current : -2;
    pending = &s;
  }
  unsigned next = choose();
  pending = nullptr;
  switchTo(next);
}

void tick() { ++tasks[current].vc.c[current]; }

void entry() {
  Task &t = tasks[current];
  inRuntime = false;
  t.fn(t.arg, t.index);
  inRuntime = true;
  t.done = true;
  Task &p = *t.parent;
  join(p.vc, t.vc);
  if (--p.pendingChildren == 0) {
    p.waitingChildren = false;
  }
  unsigned next = choose();
  current = next;
  setcontext(&tasks[next].uc);
  die("unreachable");
}

void initTasks() {
  if (!tasks) {
    tasks = static_cast<Task *>(mmap(nullptr, sizeof(Task) * MaxTasks, PROT_READ | PROT_WRITE,
                                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  }
}

// Locks taken by the main task outside of the parallel regions.
void *heldOutside[64];
unsigned numHeldOutside = 0;

void lock(void *m, bool shared, bool recursive) {
  if (!active) {
    if (numHeldOutside < 64) {
      heldOutside[numHeldOutside++] = m;
    }
    return;
  }
  inRuntime = true;
  Task &t = tasks[current];
  if (recursive && sync(m).owner == (int)current) {
    ++sync(m).depth;
    inRuntime = false;
    return;
  }
  t.waitLock = m;
  t.waitShared = shared;
  point(m); // Comes back when the lock is available.
  t.waitLock = nullptr;
  Sync &s = sync(m);
  join(t.vc, s.vc);
  if (shared) {
    ++s.shared;
  } else {
    join(t.vc, s.readers);
    s.owner = current;
    s.depth = 1;
  }
  inRuntime = false;
}
void unlock(void *m) {
  if (!active) {
    for (unsigned i = numHeldOutside; i-- > 0;) {
      if (heldOutside[i] == m) {
        heldOutside[i] = heldOutside[--numHeldOutside];
        return;
      }
    }
    return;
  }
  inRuntime = true;
  Sync &s = sync(m);
  Task &t = tasks[current];
  if (s.owner == (int)current) {
    if (--s.depth == 0) {
      s.owner = -1;
      s.vc = t.vc;
      tick();
    }
  } else if (s.owner < 0 && s.shared > 0) {
    --s.shared;
    join(s.readers, t.vc);
    tick();
  } else {
    misuse = true;
  }
  inRuntime = false;
}
bool tryLock(void *m, bool shared, bool recursive) {
  if (!active) {
    lock(m, shared, recursive);
    return true;
  }
  inRuntime = true;
  point(m);
  Sync &s = sync(m);
  bool ok = s.owner < 0 && (shared || s.shared == 0);
  bool again = recursive && s.owner == (int)current;
  inRuntime = false;
  if (ok || again) {
    lock(m, shared, recursive);
    return true;
  }
  return false;
}

void atomicOp(const volatile void *p, bool acquire, bool release, bool store) {
  if (!active || inRuntime) {
    return;
  }
  inRuntime = true;
  point(const_cast<void *>(p));
  Sync &s = sync(const_cast<void *>(p));
  Task &t = tasks[current];
  if (acquire) {
    join(t.vc, s.vc);
  }
  if (release) {
    if (store) {
      s.vc = t.vc;
    } else {
      join(s.vc, t.vc);
    }
    tick();
  }
  inRuntime = false;
}
} // namespace

namespace schedrt {
Result execute(void (*fn)(void *), void *arg, Base b, const Deviation *devs, uint32_t n) {
  initTasks();
  __libc_single_threaded = 0;
  base = b;
  deviations = devs;
  numDeviations = n;
  nextDeviation = 0;
  step = 0;
  deadlock = misuse = false;
  numRaces = 0;
  regions = totalTasks = 0;
  accesses = 0;
  active = inRuntime = false;
  current = 0;
  numTasks = 0;
  escaped = 0;
  numHeldOutside = 0;
  executing = true;
  ++epoch;
  getcontext(&escape);
  if (!escaped) {
    fn(arg);
  }
  executing = false;
  active = inRuntime = false;
  if (!escaped && nextDeviation != numDeviations) {
    die("the execution is not deterministic");
  }
  return Result{deadlock, misuse, step, enabledCounts, numRaces, races, regions, totalTasks, accesses};
}

void region(size_t n, void (*fn)(void *, size_t), void *arg) {
  if (!executing) {
    for (size_t i = 0; i < n; ++i) {
      fn(arg, i);
    }
    return;
  }
  inRuntime = true;
  ++regions;
  bool outermost = !active;
  if (outermost) {
    ++epoch;
    resetShadow();
    regionFirstStep = step;
    current = 0;
    numTasks = 1;
    memset(&tasks[0].vc, 0, sizeof(Clock));
    tasks[0].vc.c[0] = 1;
    tasks[0].done = tasks[0].waitingChildren = false;
    tasks[0].waitLock = nullptr;
    for (unsigned i = 0; i < numHeldOutside; ++i) {
      sync(heldOutside[i]).owner = 0;
      ++sync(heldOutside[i]).depth;
    }
    active = true;
  }
  Task &self = tasks[current];
  if (numTasks + n > MaxTasks) {
    die("too many tasks");
  }
  for (size_t i = 0; i < n; ++i) {
    Task &t = tasks[numTasks];
    if (!t.stack) {
      t.stack = static_cast<char *>(mmap(nullptr, StackSize, PROT_READ | PROT_WRITE,
                                         MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
      mprotect(t.stack, 4096, PROT_NONE);
    }
    getcontext(&t.uc);
    t.uc.uc_stack.ss_sp = t.stack;
    t.uc.uc_stack.ss_size = StackSize;
    t.uc.uc_link = nullptr;
    makecontext(&t.uc, entry, 0);
    t.vc = self.vc;
    t.vc.c[numTasks] = 1;
    t.done = t.waitingChildren = false;
    t.pendingChildren = 0;
    t.parent = &self;
    t.waitLock = nullptr;
    t.fn = fn;
    t.arg = arg;
    t.index = i;
    ++numTasks;
    ++totalTasks;
  }
  tick();
  self.waitingChildren = true;
  self.pendingChildren = n;
  point(nullptr);
  tick();
  if (outermost) {
    dropPrivateSteps();
    active = false;
  }
  inRuntime = false;
}
} // namespace schedrt

// --- Interposed functions ----------------------------------------------------
static bool isRecursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return lock(m, false, isRecursive(m)), 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return tryLock(m, false, isRecursive(m)) ? 0 : EBUSY; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { return unlock(m), 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { return lock(m, true, false), 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return lock(m, false, false), 0; }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { return tryLock(m, true, false) ? 0 : EBUSY; }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *m) { return tryLock(m, false, false) ? 0 : EBUSY; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { return unlock(m), 0; }

void __real___cxa_guard_release(void *g);
void __wrap___cxa_guard_release(void *g) {
  if (active && !inRuntime) {
    inRuntime = true;
    Sync &s = sync(g);
    join(s.vc, tasks[current].vc);
    tick();
    inRuntime = false;
  }
  __real___cxa_guard_release(g);
}

void *malloc(size_t n) {
  void *p = __libc_malloc(n);
  if (active) {
    clearRange(p, malloc_usable_size(p));
  }
  return p;
}
void *calloc(size_t a, size_t b) {
  void *p = __libc_calloc(a, b);
  if (active) {
    clearRange(p, malloc_usable_size(p));
  }
  return p;
}
void free(void *p) {
  if (active && p) {
    accessRange(p, malloc_usable_size(p), true, __builtin_return_address(0));
  }
  __libc_free(p);
}
void *realloc(void *p, size_t n) {
  if (active && p) {
    accessRange(p, malloc_usable_size(p), true, __builtin_return_address(0));
  }
  void *q = __libc_realloc(p, n);
  if (active) {
    clearRange(q, malloc_usable_size(q));
    accessRange(q, n, true, __builtin_return_address(0));
  }
  return q;
}
void *memalign(size_t a, size_t n) {
  void *p = __libc_memalign(a, n);
  if (active) {
    clearRange(p, malloc_usable_size(p));
  }
  return p;
}
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { return (*r = memalign(a, n)) ? 0 : ENOMEM; }

void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
#define PC __builtin_return_address(0)
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  accessRange(s, n, false, PC);
  accessRange(d, n, true, PC);
  return __real_memcpy(d, s, n);
}
void *__wrap_memmove(void *d, const void *s, size_t n) {
  accessRange(s, n, false, PC);
  accessRange(d, n, true, PC);
  return __real_memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n) {
  accessRange(d, n, true, PC);
  return __real_memset(d, c, n);
}
int __wrap_memcmp(const void *a, const void *b, size_t n) {
  accessRange(a, n, false, PC);
  accessRange(b, n, false, PC);
  return __real_memcmp(a, b, n);
}

void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n)                                                                                                          \
  void __tsan_read##n(void *p) { accessRange(p, n, false, PC); }                                                       \
  void __tsan_write##n(void *p) { accessRange(p, n, true, PC); }                                                       \
  void __tsan_unaligned_read##n(void *p) { accessRange(p, n, false, PC); }                                             \
  void __tsan_unaligned_write##n(void *p) { accessRange(p, n, true, PC); }                                             \
  void __tsan_volatile_read##n(void *p) { accessRange(p, n, false, PC); }                                              \
  void __tsan_volatile_write##n(void *p) { accessRange(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { accessRange(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { accessRange(p, n, true, PC); }
void __tsan_vptr_update(void **p, void *v) { accessRange(p, 8, *p != v, PC); }
void __tsan_vptr_read(void **p) { accessRange(p, 8, false, PC); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define ACQ(o) ((o) != __ATOMIC_RELAXED && (o) != __ATOMIC_RELEASE)
#define REL(o) ((o) == __ATOMIC_RELEASE || (o) == __ATOMIC_ACQ_REL || (o) == __ATOMIC_SEQ_CST)
#define RMW(bits, T, name, expr)                                                                                       \
  T __tsan_atomic##bits##_##name(volatile T *p, T v, int o) {                                                          \
    atomicOp(p, ACQ(o), REL(o), false);                                                                                \
    T old = *p;                                                                                                        \
    *p = (T)(expr);                                                                                                    \
    return old;                                                                                                        \
  }
#define ATOMICS(bits, T)                                                                                               \
  T __tsan_atomic##bits##_load(const volatile T *p, int o) {                                                           \
    atomicOp(p, ACQ(o), false, false);                                                                                 \
    return *p;                                                                                                         \
  }                                                                                                                    \
  void __tsan_atomic##bits##_store(volatile T *p, T v, int o) {                                                        \
    atomicOp(p, false, REL(o), true);                                                                                  \
    *p = v;                                                                                                            \
  }                                                                                                                    \
  RMW(bits, T, exchange, v)                                                                                            \
  RMW(bits, T, fetch_add, old + v)                                                                                     \
  RMW(bits, T, fetch_sub, old - v)                                                                                     \
  RMW(bits, T, fetch_and, old &v)                                                                                      \
  RMW(bits, T, fetch_or, old | v)                                                                                      \
  RMW(bits, T, fetch_xor, old ^ v)                                                                                     \
  RMW(bits, T, fetch_nand, ~(old & v))                                                                                 \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int o, int f) {                          \
    atomicOp(p, ACQ(o), REL(o), false);                                                                                \
    if (*p == *e) {                                                                                                    \
      *p = v;                                                                                                          \
      return 1;                                                                                                        \
    }                                                                                                                  \
    *e = *p;                                                                                                           \
    return 0;                                                                                                          \
  }                                                                                                                    \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int o, int f) {                            \
    return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, o, f);                                               \
  }                                                                                                                    \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int o, int f) {                                \
    __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, o, f);                                                     \
    return e;                                                                                                          \
  }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
}

// Minimal stateless-enumeration framework shared by all the harnesses.
//
// A harness enumerates a finite space of cases in a deterministic order. Each
// case is executed against the real code by exactly one worker process; the
// orchestrator (tools/check.py) starts the workers, restarts them behind a case
// that crashed or hung, replays such a case alone before believing it, and
// merges the counters.
#ifndef VERIF_MC_H
#define VERIF_MC_H

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include <signal.h>

namespace mc {
struct Shared {
  volatile uint64_t current;  // counter of the case being executed (+1)
  volatile uint64_t finished; // 1 when the enumeration has been completed
};

class Ctx {
public:
  bool thorough = false;
  uint64_t seed = 1;
  std::string suiteFilter;

  void parse(int argc, char **argv) {
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto next = [&]() -> std::string { return argv[++i]; };
      if (a == "--tier") {
        thorough = next() == "thorough";
      } else if (a == "--shard") {
        shard = strtoull(next().c_str(), nullptr, 10);
      } else if (a == "--shards") {
        shards = strtoull(next().c_str(), nullptr, 10);
      } else if (a == "--start") {
        start = strtoull(next().c_str(), nullptr, 10);
      } else if (a == "--only") {
        onlyMode = true;
        only = strtoull(next().c_str(), nullptr, 10);
      } else if (a == "--out") {
        outPath = next();
      } else if (a == "--shm") {
        shmPath = next();
      } else if (a == "--table") {
        tablePath = next();
      } else if (a == "--suite") {
        suiteFilter = next();
      } else if (a == "--budget") {
        budget = strtod(next().c_str(), nullptr);
      } else if (a == "--case-cpu") {
        caseCpu = strtoull(next().c_str(), nullptr, 10);
      } else if (a == "--seed") {
        seed = strtoull(next().c_str(), nullptr, 10);
      }
    }
    if (!shmPath.empty()) {
      int fd = open(shmPath.c_str(), O_RDWR);
      shm = static_cast<Shared *>(mmap(nullptr, sizeof(Shared),
                                       PROT_READ | PROT_WRITE, MAP_SHARED, fd,
                                       0));
      close(fd);
    }
    if (!tablePath.empty()) {
      int fd = open(tablePath.c_str(), O_RDWR);
      struct stat st;
      fstat(fd, &st);
      tableSize = st.st_size / sizeof(uint64_t);
      table = static_cast<uint64_t *>(mmap(nullptr, st.st_size,
                                           PROT_READ | PROT_WRITE, MAP_SHARED,
                                           fd, 0));
      close(fd);
    }
    if (!outPath.empty()) {
      out = fopen(outPath.c_str(), "a");
    } else {
      out = stdout;
    }
    t0 = now();
    self() = this;
    // CPU-time watchdog: a case that makes no progress for caseCpu seconds of
    // CPU time ends the process with a distinguished exit code.
    struct sigaction sa;
    memset(&sa, 0, sizeof(sa));
    sa.sa_handler = &Ctx::tick;
    sa.sa_flags = SA_RESTART;
    sigaction(SIGPROF, &sa, nullptr);
    itimerval tv;
    tv.it_interval.tv_sec = 1;
    tv.it_interval.tv_usec = 0;
    tv.it_value = tv.it_interval;
    setitimer(ITIMER_PROF, &tv, nullptr);
  }

  static double now() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
  }

  bool suite(const std::string &name) {
    currentSuite = name;
    return suiteFilter.empty() || suiteFilter == name;
  }

  // Returns true when the next case of the enumeration must be executed by
  // this worker.
  bool take() {
    uint64_t id = counter++;
    if (stop) {
      return false;
    }
    if (onlyMode) {
      if (id != only) {
        return false;
      }
    } else {
      if (id < start || id % shards != shard) {
        return false;
      }
      if ((++sinceBudget & 63) == 0 && budget > 0 && now() - t0 > budget) {
        stop = true;
        truncated = true;
        return false;
      }
    }
    activity = activity + 1;
    caseId = id;
    if (shm) {
      shm->current = id + 1;
    }
    ++cases;
    return true;
  }

  // To be called right after take(), to say what the case is about.
  template <typename F>
  void describe(F &&f) {
    if (onlyMode) {
      std::string d = f();
      fprintf(out, "{\"k\":\"case\",\"id\":%llu,\"desc\":%s}\n",
              (unsigned long long)caseId, q(d).c_str());
      fflush(out);
    }
    if (samples.size() < 3) {
      samples.push_back(currentSuite + ": " + f());
    }
  }

  // Report a violation. 'sig' is the stable class of what fails, 'desc' the
  // specific input / history.
  void fail(const std::string &sig, const std::string &desc) {
    ++failures;
    uint64_t &n = failuresPerSig[currentSuite + "/" + sig];
    if (++n > 2000) {
      return;
    }
    fprintf(out, "{\"k\":\"fail\",\"id\":%llu,\"suite\":%s,\"sig\":%s,\"desc\":%s}\n",
            (unsigned long long)caseId, q(currentSuite).c_str(),
            q(sig).c_str(), q(desc).c_str());
    fflush(out);
  }

  // True for the first caller among all the workers. Used to evaluate an
  // expensive state invariant once per distinct state.
  bool claim(uint64_t key) {
    if (key == 0) {
      key = 1;
    }
    if (!table) {
      return local.insert(key).second;
    }
    uint64_t i = (key * 0x9E3779B97F4A7C15ull) >> 20;
    for (uint64_t probes = 0; probes < 4096; ++probes, ++i) {
      uint64_t *slot = &table[i % tableSize];
      uint64_t expected = 0;
      if (__atomic_compare_exchange_n(slot, &expected, key, false,
                                      __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
        return true;
      }
      if (expected == key) {
        return false;
      }
    }
    return local.insert(key).second;
  }

  void state(uint64_t h) { states.insert(h); }
  void state(const std::string &s) { states.insert(hash(s)); }
  static uint64_t hash(const std::string &s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) {
      h = (h ^ c) * 1099511628211ull;
    }
    return h ^ (h >> 29);
  }

  void outcome(const std::string &s, uint64_t n = 1) { outcomes[s] += n; }

  // Inner loops that run for long inside one case can signal progress.
  void progress() { activity = activity + 1; }

  int finish() {
    fprintf(out,
            "{\"k\":\"sum\",\"cases\":%llu,\"total\":%llu,\"transitions\":%llu,"
            "\"traces\":%llu,\"failures\":%llu,\"truncated\":%s,\"samples\":[",
            (unsigned long long)cases, (unsigned long long)counter,
            (unsigned long long)transitions, (unsigned long long)traces,
            (unsigned long long)failures, truncated ? "true" : "false");
    for (size_t i = 0; i < samples.size(); ++i) {
      fprintf(out, "%s%s", i ? "," : "", q(samples[i]).c_str());
    }
    fprintf(out, "],\"outcomes\":{");
    bool first = true;
    for (auto &o : outcomes) {
      fprintf(out, "%s%s:%llu", first ? "" : ",", q(o.first).c_str(),
              (unsigned long long)o.second);
      first = false;
    }
    fprintf(out, "}}\n");
    fflush(out);
    if (!outPath.empty()) {
      FILE *f = fopen((outPath + ".states").c_str(), "ab");
      std::vector<uint64_t> v(states.begin(), states.end());
      if (!v.empty()) {
        fwrite(v.data(), sizeof(uint64_t), v.size(), f);
      }
      fclose(f);
    } else {
      fprintf(out, "states=%zu\n", states.size());
    }
    if (shm) {
      shm->finished = 1;
    }
    if (out != stdout) {
      fclose(out);
    }
    fflush(stdout);
    _exit(0); // No destructors: nothing else to be observed.
  }

  static std::string q(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') {
        r += '\\';
        r += (char)c;
      } else if (c == '\n') {
        r += "\\n";
      } else if (c < 32 || c >= 127) {
        char b[8];
        snprintf(b, sizeof b, "\\u%04x", c);
        r += b;
      } else {
        r += (char)c;
      }
    }
    return r + "\"";
  }

  uint64_t transitions = 0;
  uint64_t traces = 0;
  bool replaying() const { return onlyMode; }
  bool stopped() const { return stop; }
  uint64_t cases = 0;

private:
  static Ctx *&self() {
    static Ctx *s = nullptr;
    return s;
  }
  static void tick(int) {
    Ctx *s = self();
    if (s->activity != s->lastActivity) {
      s->lastActivity = s->activity;
      s->idleTicks = 0;
      return;
    }
    if (s->cases > 0 && ++s->idleTicks > s->caseCpu) {
      _exit(97);
    }
  }

  uint64_t shard = 0, shards = 1, start = 0, only = 0, counter = 0, caseId = 0;
  uint64_t sinceBudget = 0;
  uint64_t caseCpu = 15;
  volatile uint64_t activity = 0;
  volatile uint64_t lastActivity = 0;
  volatile uint64_t idleTicks = 0;
  bool onlyMode = false, stop = false, truncated = false;
  double budget = 0, t0 = 0;
  std::string outPath, shmPath, currentSuite;
  FILE *out = nullptr;
  Shared *shm = nullptr;
  std::unordered_set<uint64_t> states, local;
  std::string tablePath;
  uint64_t *table = nullptr;
  uint64_t tableSize = 0;
  std::map<std::string, uint64_t> outcomes, failuresPerSig;
  std::vector<std::string> samples;
  uint64_t failures = 0;
};
} // namespace mc

#endif // VERIF_MC_H

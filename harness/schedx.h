// Exploration of the schedules of a piece of code that uses mlir::parallelForEach.
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include "mc.h"
#include "schedrt.h"
#include <sys/wait.h>

namespace sched {
struct Shared {
  schedrt::Result result;
  uint16_t enabled[1 << 14];
  schedrt::Race races[16];
  char verdict[4096];
};
inline Shared *shared() {
  static Shared *s = static_cast<Shared *>(
      mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  return s;
}
inline std::string symbolize(void *pc) {
  char cmd[256];
  snprintf(cmd, sizeof cmd, "addr2line -Cfse /proc/%d/exe %p 2>/dev/null", (int)getpid(), (char *)pc - 1);
  std::string r;
  if (FILE *f = popen(cmd, "r")) {
    char b[512];
    while (fgets(b, sizeof b, f)) {
      std::string l = b;
      while (!l.empty() && l.back() == '\n') {
        l.pop_back();
      }
      if (l.size() > 100) {
        l = l.substr(0, 100) + "...";
      }
      r += (r.empty() ? "" : " ") + l;
    }
    pclose(f);
  }
  return r;
}

struct Stats {
  uint64_t executions = 0, steps = 0, maxSteps = 0, regions = 0, tasks = 0, accesses = 0;
};

// Runs 'body' (which returns "" or "class|what") under every schedule that
// deviates from the base one at most 'bound' times. Each execution takes place
// in a process of its own, so that all of them start from the same state.
// Returns "" or "class|what" of the first failure. The exploration can be split
// in parts, according to the first deviation.
inline std::string explore(mc::Ctx &ctx, schedrt::Base base, unsigned bound, const std::function<std::string()> &body,
                           Stats &stats, unsigned part = 0, unsigned parts = 1) {
  std::string failure;
  std::function<void(std::vector<schedrt::Deviation>)> rec = [&](std::vector<schedrt::Deviation> devs) {
    Shared *sh = shared();
    fflush(nullptr);
    sh->verdict[0] = 0;
    pid_t pid = fork();
    if (pid == 0) {
      signal(SIGPROF, SIG_IGN);
      alarm(20);
      static std::string verdict;
      static const std::function<std::string()> *fn;
      fn = &body;
      sh->result = schedrt::execute([](void *) { verdict = (*fn)(); }, nullptr, base, devs.data(), devs.size());
      memcpy(sh->enabled, sh->result.enabled, sizeof(uint16_t) * std::min<uint32_t>(sh->result.steps, 1 << 14));
      memcpy(sh->races, sh->result.races, sizeof(schedrt::Race) * sh->result.numRaces);
      snprintf(sh->verdict, sizeof sh->verdict, "%s", verdict.c_str());
      _exit(0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    ctx.progress();
    std::string where = " [";
    where += base == schedrt::Ascending ? "ascending" : base == schedrt::Descending ? "descending" : "round robin";
    for (auto &d : devs) {
      where += " step " + std::to_string(d.step) + " choice " + std::to_string(d.choice);
    }
    where += "]";
    if (WIFEXITED(status) && WEXITSTATUS(status) == 86) {
      fprintf(stderr, "the exploration is not possible\n");
      _exit(3);
    }
    if (WIFSIGNALED(status) || (WIFEXITED(status) && WEXITSTATUS(status))) {
      failure = "crash|signal " + std::to_string(WIFSIGNALED(status) ? WTERMSIG(status) : 0) + where;
      return;
    }
    auto &r = sh->result;
    if (part == 0 || !devs.empty()) {
      ++stats.executions;
      ++ctx.traces;
    }
    ctx.transitions += r.steps;
    stats.steps += r.steps;
    stats.maxSteps = std::max<uint64_t>(stats.maxSteps, r.steps);
    stats.regions += r.regions;
    stats.tasks += r.tasks;
    stats.accesses += r.accesses;
    if (r.deadlock) {
      failure = "deadlock|no task can go on" + where;
      return;
    }
    if (r.numRaces) {
      auto &x = sh->races[0];
      failure = std::string("data race|") + (x.write1 ? "write in " : "read in ") + symbolize(x.pc1) + " and " +
                (x.write2 ? "write in " : "read in ") + symbolize(x.pc2) + where;
      return;
    }
    if (r.misuse) {
      failure = "unlock|unlock of a mutex that is not held" + where;
      return;
    }
    if (sh->verdict[0]) {
      failure = std::string(sh->verdict) + where;
      return;
    }
    if (devs.size() >= bound) {
      return;
    }
    uint32_t first = devs.empty() ? 0 : devs.back().step + 1;
    std::vector<uint16_t> enabled(sh->enabled, sh->enabled + std::min<uint32_t>(r.steps, 1 << 14));
    for (uint32_t i = first; i < enabled.size(); ++i) {
      for (uint32_t c = 1; c < enabled[i]; ++c) {
        if (devs.empty() && (i + c) % parts != part) {
          continue;
        }
        auto next = devs;
        next.push_back({i, c});
        rec(next);
        if (!failure.empty()) {
          return;
        }
      }
    }
  };
  rec({});
  return failure;
}
} // namespace sched
#endif

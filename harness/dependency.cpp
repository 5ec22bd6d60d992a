// Dependency graphs and strongly connected components of matched systems.
#include "depjudge.h"
using namespace dg;
static mc::Ctx ctx;

#ifndef MC_STRIDE
#define MC_STRIDE 1
#endif
static uint64_t total = 0;

static const Judge judge{[](const std::string &sig, const std::string &what) { ctx.fail(sig, what); },
                         [] { ++ctx.transitions; }, [](const std::string &o) { ctx.outcome(o); }};

int main(int argc, char **argv) {
  ctx.parse(argc, argv);
  for (auto &f : families(ctx.thorough)) {
    for (int what = 0; what < 3; ++what) {
      static const char *names[]{"array: ", "scalar: ", "components: "};
      if (!ctx.suite(names[what] + f.name)) {
        continue;
      }
      forSystems(f.base, f.menu, f.maxReads, f.stride, [&](const DSystem &s) {
        if (total++ % MC_STRIDE != 0 || !ctx.take()) {
          return;
        }
        ctx.describe([&] { return s.str(); });
        ++ctx.traces;
        auto deps = s.deps();
        std::string key;
        for (auto &d : deps) {
          key += instStr(d.first) + ":";
          for (auto &t : d.second) {
            key += instStr(t);
          }
        }
        ctx.state(key);
        if (what == 0) {
          runArray(judge, s, deps);
        } else if (what == 1) {
          runScalar(judge, s, deps);
        } else {
          runSCCs(judge, s, deps);
        }
      });
    }
  }
  return ctx.finish();
}

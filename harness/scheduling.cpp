// Scheduling of matched systems: every schedule is simulated, instance by instance.
#include "schedjudge.h"
using namespace dg;
static mc::Ctx ctx;

#ifndef MC_STRIDE
#define MC_STRIDE 1
#endif
static uint64_t total = 0;

static const Judge judge{[](const std::string &sig, const std::string &what) { ctx.fail(sig, what); },
                         [] { ++ctx.transitions; }, [](const std::string &o) { ctx.outcome(o); }};

int main(int argc, char **argv) {
  ctx.parse(argc, argv);
  for (auto &f : families(ctx.thorough)) {
    for (bool pieces : {false, true}) {
      if (!ctx.suite((pieces ? "pieces: " : "arrays: ") + f.name)) {
        continue;
      }
      forSystems(f.base, f.menu, f.maxReads, f.stride, [&](const DSystem &s) {
        if (total++ % MC_STRIDE != 0 || !ctx.take()) {
          return;
        }
        ctx.describe([&] { return s.str(); });
        ++ctx.traces;
        ctx.state(s.str());
        runSchedule(judge, s, pieces);
      });
    }
  }
  return ctx.finish();
}

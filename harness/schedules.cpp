// Schedules of the parallel sections of the modeling algorithms.
#include "schedjudge.h"
#include "schedx.h"
static mc::Ctx ctx;
using namespace dg;
using Opt = marco::modeling::matching::MatchingOptions;

// Explores the schedules of 'body'. One case per base schedule and part of the exploration.
static void explore(const std::string &what, unsigned bound, unsigned roundRobinBound,
                    const std::function<std::string()> &body) {
  static const char *names[]{"ascending", "descending", "round robin"};
  for (int b = 0; b < 3; ++b) {
    unsigned n = b == 2 ? roundRobinBound : bound;
    unsigned parts = n == 0 ? 1 : 8;
    for (unsigned part = 0; part < parts; ++part) {
      if (!ctx.take()) {
        continue;
      }
      ctx.describe([&] { return what + " [" + names[b] + ", bound " + std::to_string(n) + "]"; });
      sched::Stats stats;
      std::string e = sched::explore(ctx, (schedrt::Base)b, n, body, stats, part, parts);
      ctx.state(what + names[b]);
      ctx.outcome("schedules with up to " + std::to_string(n) + " deviations", stats.executions);
      ctx.outcome("accesses checked for races", stats.accesses);
      ctx.outcome("parallel regions", stats.regions);
      if (!e.empty()) {
        ctx.fail(e.substr(0, e.find('|')), what + " => " + e.substr(e.find('|') + 1));
      }
    }
  }
}

int main(int argc, char **argv) {
  ctx.parse(argc, argv);
  bool th = ctx.thorough;
  EP d = D(0);
  auto fn1 = [](EP e) { return Fn{1, {e}}; };
  auto E = [&](int64_t id, PtSet idx, std::vector<std::pair<int64_t, EP>> acc) {
    mg::Eq e{id, idx, {}};
    for (auto &a : acc) {
      e.accesses.push_back({a.first, fn1(a.second)});
    }
    return e;
  };
  auto matching = [&](const std::string &name, unsigned bound, std::vector<mg::Var> vars, std::vector<mg::Eq> eqs) {
    mg::System s{vars, eqs};
    bool exp = mg::solvable(s);
    static const std::vector<std::pair<std::string, Opt>> opts{
        {"plain", {false, false, 0.5}}, {"default", {true, true, 0.5}}, {"all-scalar", {false, true, 0.0}}};
    for (auto &o : opts) {
      if (!th && o.first == "all-scalar" && s.numVars() > 3) {
        continue;
      }
      // The default options lead to many more scheduling points.
      unsigned n = !th && o.first != "plain" ? s.numVars() > 4 ? 0 : std::min(bound, 1u) : bound;
      explore(name + ", " + o.first + ": " + s.str(), n, th || bound == 2 ? 1 : 0,
              [&, exp, s] { return mg::judge(s, exp, o.second, mctx()); });
    }
  };
  if (ctx.suite("matching")) {
    auto sc = [](int64_t id) { return mg::Var{id, line(0, 1)}; };
    auto z = C(0);
    PtSet one = line(0, 1);
    matching("two scalars", 2, {sc(0), sc(1)}, {E(0, one, {{0, z}, {1, z}}), E(1, one, {{0, z}})});
    matching("two scalars, full", 2, {sc(0), sc(1)}, {E(0, one, {{0, z}, {1, z}}), E(1, one, {{0, z}, {1, z}})});
    matching("three scalars, chain", th ? 2 : 1, {sc(0), sc(1), sc(2)},
             {E(0, one, {{0, z}, {1, z}}), E(1, one, {{0, z}, {2, z}}), E(2, one, {{0, z}})});
    matching("three scalars, unsolvable", 1, {sc(0), sc(1), sc(2)},
             {E(0, one, {{0, z}, {1, z}}), E(1, one, {{0, z}, {1, z}}), E(2, one, {{0, z}, {1, z}, {2, z}})});
    matching("four scalars, cycle", 1, {sc(0), sc(1), sc(2), sc(3)},
             {E(0, one, {{0, z}, {1, z}}), E(1, one, {{1, z}, {2, z}}), E(2, one, {{2, z}, {3, z}}), E(3, one, {{3, z}, {0, z}})});
    matching("array and its elements", 1, {{0, line(0, 2)}, {1, line(0, 2)}},
             {E(0, line(0, 2), {{0, d}, {1, d}}), E(1, one, {{0, C(0)}, {1, C(1)}}), E(2, one, {{0, C(1)}, {1, C(1)}})});
    matching("three arrays", 1, {{0, line(0, 3)}, {1, line(0, 2)}, sc(2)},
             {E(0, line(0, 3), {{0, d}, {1, d}}), E(1, line(0, 2), {{0, d + C(1)}, {1, d}}), E(2, one, {{2, z}, {0, z}})});
    matching("two arrays", 1, {{0, line(0, 3)}, {1, line(0, 3)}},
             {E(0, line(0, 3), {{0, d}, {1, C(2) - d}}), E(1, line(0, 3), {{0, d}, {1, d}})});
    matching("overlapping elements", 1, {{0, line(0, 3)}},
             {E(0, line(0, 2), {{0, d}, {0, d + C(1)}}), E(1, one, {{0, R(0, 3)}})});
    matching("rank 2", 1, {{0, {{0, 0}, {0, 1}, {1, 0}, {1, 1}}}},
             {{0, line(0, 2), {{0, Fn{1, {d, d}}}, {0, Fn{1, {C(0), d}}}}}, {1, line(0, 2), {{0, Fn{1, {d, C(1) - d}}}, {0, Fn{1, {C(1), d}}}}}});
  }
  auto W = [&](int64_t id, PtSet idx, int64_t v, EP w, std::vector<std::pair<int64_t, EP>> reads) {
    DEq e{id, idx, {v, fn1(w)}, {}};
    for (auto &a : reads) {
      e.reads.push_back({a.first, fn1(a.second)});
    }
    return e;
  };
  struct Named {
    std::string name;
    unsigned bound;
    DSystem s;
  };
  PtSet one = line(0, 1), two = line(0, 2), three = line(0, 3);
  auto z = C(0);
  std::vector<Named> systems{
      {"two equations", 2, {{W(0, two, 0, d, {{1, d}}), W(1, two, 1, d, {{0, d - C(1)}})}}},
      {"scalar chain", 2, {{W(0, one, 0, z, {{1, z}}), W(1, one, 1, z, {{2, z}}), W(2, one, 2, z, {})}}},
      {"scalar cycle", 2, {{W(0, one, 0, z, {{1, z}}), W(1, one, 1, z, {{2, z}}), W(2, one, 2, z, {{0, z}})}}},
      {"two cycles", 1, {{W(0, one, 0, z, {{1, z}}), W(1, one, 1, z, {{0, z}}), W(2, one, 2, z, {{3, z}, {0, z}}), W(3, one, 3, z, {{2, z}})}}},
      {"one variable", 2, {{W(0, two, 0, d, {{0, d + C(2)}}), W(1, line(2, 4), 0, d, {{0, d - C(1)}})}}},
      {"diamond", 1, {{W(0, two, 0, d, {{1, d}, {2, d}}), W(1, two, 1, d, {{3, C(0)}}), W(2, two, 2, d, {{3, C(1)}}), W(3, two, 3, d, {{3, d - C(1)}})}}},
      {"array cycles", 1, {{W(0, three, 0, d, {{1, d}}), W(1, three, 1, d, {{0, d}, {0, d - C(1)}}), W(2, three, 2, d, {{3, d + C(1)}}), W(3, three, 3, d, {{2, d + C(1)}})}}},
      {"independent", 1, {{W(0, two, 0, d, {}), W(1, two, 1, d, {{1, d - C(1)}}), W(2, two, 2, d, {{2, d + C(1)}})}}},
      {"elements", 1, {{W(0, one, 0, C(0), {{0, C(1)}, {1, z}}), W(1, one, 0, C(1), {{1, z}}), W(2, one, 1, z, {})}}},
      {"range reads", 1, {{W(0, two, 0, d, {{1, R(0, 2)}}), W(1, two, 1, d, {{2, z}}), W(2, one, 2, z, {})}}},
  };
  static const char *names[]{"array graph", "scalar graph", "components", "schedule", "schedule of pieces"};
  for (int what = 0; what < 5; ++what) {
    if (!ctx.suite(names[what])) {
      continue;
    }
    for (auto &n : systems) {
      auto deps = n.s.deps();
      explore(n.name + ": " + n.s.str(), th ? 2 : what < 3 ? n.bound : 1, 1, [&] {
        std::string r;
        Judge j{[&](const std::string &sig, const std::string &msg) {
          if (r.empty()) {
            r = sig + "|" + msg;
          }
        }};
        switch (what) {
        case 0: runArray(j, n.s, deps); break;
        case 1: runScalar(j, n.s, deps); break;
        case 2: runSCCs(j, n.s, deps); break;
        default: runSchedule(j, n.s, what == 4);
        }
        return r;
      });
    }
  }
  return ctx.finish();
}

// Array matching on every small system, against brute-force bipartite matching.
#include "matchgen.h"
using namespace mg;
static mc::Ctx ctx;
using Opt = marco::modeling::matching::MatchingOptions;

#ifndef MC_STRIDE
#define MC_STRIDE 1
#endif
static void run(const System &s) {
  static uint64_t total = 0;
  if (total++ % MC_STRIDE != 0) {
    return;
  }
  if (!ctx.take()) {
    return;
  }
  ctx.describe([&] { return s.str(); });
  ++ctx.traces;
  bool exp = solvable(s);
  static const std::vector<std::pair<std::string, Opt>> opts{
      {"plain", {false, false, 0.5}}, {"leaf", {true, false, 0.5}},
      {"scalar", {false, true, 0.5}}, {"default", {true, true, 0.5}},
      {"all-scalar", {false, true, 0.0}}};
  for (auto &o : opts) {
    ++ctx.transitions;
    std::string e = judge(s, exp, o.second, mctx());
    if (!e.empty()) {
      ctx.fail(o.first + " " + e.substr(0, e.find('|')), s.str() + " => " + e.substr(e.find('|') + 1));
    }
  }
  auto inc = s.incidence();
  std::string k;
  for (auto &r : inc) {
    for (auto &v : r.second) {
      k += std::to_string(v.first) + ptStr(v.second);
    }
    k += ";";
  }
  ctx.state(k);
  ctx.outcome(exp ? "solvable" : "unsolvable");
}

// All the ways of choosing the accesses of each equation.
static void systems(const std::vector<Var> &vars, const std::vector<PtSet> &eqSets,
                    const std::vector<std::vector<Acc>> &menu, unsigned maxAcc, uint64_t stride) {
  // For each equation, the list of subsets (as bit masks) of its menu.
  std::vector<std::vector<uint64_t>> choices;
  for (auto &m : menu) {
    std::vector<uint64_t> c;
    for (uint64_t k = 1; k < (1ull << m.size()); ++k) {
      if ((unsigned)__builtin_popcountll(k) <= maxAcc) {
        c.push_back(k);
      }
    }
    choices.push_back(c);
  }
  System s;
  s.vars = vars;
  for (size_t i = 0; i < eqSets.size(); ++i) {
    s.eqs.push_back({(int64_t)i, eqSets[i], {}});
  }
  uint64_t n = 0;
  std::function<void(size_t)> rec = [&](size_t i) {
    if (i == eqSets.size()) {
      if (n++ % stride == 0) {
        run(s);
      }
      return;
    }
    for (uint64_t k : choices[i]) {
      s.eqs[i].accesses.clear();
      for (size_t b = 0; b < menu[i].size(); ++b) {
        if (k >> b & 1) {
          s.eqs[i].accesses.push_back(menu[i][b]);
        }
      }
      rec(i + 1);
    }
  };
  rec(0);
}

int main(int argc, char **argv) {
  ctx.parse(argc, argv);
  bool th = ctx.thorough;
  auto fn1 = [](EP e) { return Fn{1, {e}}; };
  auto fn2 = [](EP a, EP b) { return Fn{2, {a, b}}; };
  EP d = D(0);

  // Scalar systems: every bipartite graph.
  if (ctx.suite("scalars")) {
    for (int n = 1; n <= 3; ++n) {
      for (int m = std::max(1, n - 1); m <= std::min(3, n + 1); ++m) {
        std::vector<Var> vars;
        std::vector<Acc> menu;
        for (int i = 0; i < m; ++i) {
          vars.push_back({i, {{0}}});
          menu.push_back({i, fn1(C(0))});
        }
        systems(vars, std::vector<PtSet>(n, PtSet{{0}}), std::vector<std::vector<Acc>>(n, menu), 3, 1);
      }
    }
    // One array of scalars accessed element by element.
    std::vector<Acc> menu;
    for (int i = 0; i < 4; ++i) {
      menu.push_back({0, fn1(C(i))});
    }
    systems({{0, line(0, 4)}}, std::vector<PtSet>(4, PtSet{{0}}), std::vector<std::vector<Acc>>(4, menu), 2, 1);
    std::vector<Acc> mixed{{0, fn1(C(0))}, {0, fn1(C(1))}, {1, fn1(C(0))}, {1, fn1(C(1))}};
    systems({{0, line(0, 2)}, {1, line(0, 2)}}, std::vector<PtSet>(4, PtSet{{0}}),
            std::vector<std::vector<Acc>>(4, mixed), th ? 3 : 2, 1);
  }
  // Arrays of rank 1.
  std::vector<EP> at{d, d + C(1), d - C(1), C(2) - d, C(0), C(1), R(0, 2)};
  auto menuFor = [&](std::vector<std::pair<int64_t, std::vector<EP>>> what) {
    std::vector<Acc> m;
    for (auto &w : what) {
      for (auto &e : w.second) {
        m.push_back({w.first, fn1(e)});
      }
    }
    return m;
  };
  if (ctx.suite("one array")) {
    auto m = menuFor({{0, at}});
    systems({{0, line(0, 3)}}, {line(0, 3)}, {m}, 3, 1);
    systems({{0, line(0, 3)}}, {line(0, 2), line(2, 3)}, {m, m}, 3, 1);
    systems({{0, line(0, 3)}}, {line(0, 2), line(0, 1)}, {m, m}, 2, 1);
    systems({{0, line(0, 4)}}, {line(0, 2), line(1, 3)}, {m, m}, 3, 1);
    systems({{0, line(0, 3)}}, {line(0, 1), line(1, 2), line(2, 3)}, {m, m, m}, 2, 1);
    systems({{0, {{0}, {2}, {3}}}}, {{{0}, {2}}, {{1}}}, {m, m}, 3, 1);
    systems({{0, line(0, 3)}}, {line(0, 3), line(0, 1)}, {m, m}, 2, 1);
    systems({{0, line(0, 4)}}, {line(0, 3)}, {m}, 2, 1);
  }
  if (ctx.suite("two arrays")) {
    std::vector<EP> few{d, d + C(1), C(1) - d, C(0), C(1)};
    auto m = menuFor({{0, few}, {1, few}});
    systems({{0, line(0, 2)}, {1, line(0, 2)}}, {line(0, 2), line(0, 2)}, {m, m}, 2, 1);
    systems({{0, line(0, 3)}, {1, line(0, 2)}}, {line(0, 3), line(0, 2)}, {m, m}, 2, 1);
    systems({{0, line(0, 3)}, {1, line(0, 1)}}, {line(0, 2), line(1, 3)}, {m, m}, 3, 1);
    auto mr = menuFor({{0, {d, C(1), R(0, 2), R(0, 3)}}, {1, {d, d - C(1), R(1, 3), C(2)}}});
    systems({{0, line(0, 3)}, {1, line(0, 3)}}, {line(0, 3), line(0, 3)}, {mr, mr}, 3, th ? 1 : 3);
    systems({{0, line(0, 2)}, {1, line(0, 3)}}, {line(0, 2), line(1, 3), line(0, 1)}, {mr, mr, mr}, 2, th ? 1 : 7);
    auto ms = menuFor({{0, {d, C(0), C(1)}}, {1, {d, C(1) - d}}, {2, {C(0)}}});
    systems({{0, line(0, 2)}, {1, line(0, 2)}, {2, line(0, 1)}}, {line(0, 2), line(0, 2), line(0, 1)},
            {ms, ms, ms}, 2, 1);
  }
  // Scalarization joined with arrays that stay whole.
  if (ctx.suite("scalarization")) {
    auto m = menuFor({{0, {C(0), C(1), d}}, {1, {d, C(2), d + C(1)}}});
    systems({{0, line(0, 2)}, {1, line(0, 3)}}, {line(0, 1), line(0, 1), line(0, 3)}, {m, m, m}, 2, 1);
    systems({{0, line(0, 2)}, {1, line(0, 3)}}, {line(0, 2), line(1, 2), line(0, 2)}, {m, m, m}, 2, 1);
  }
  // Rank 2.
  if (ctx.suite("rank 2")) {
    PtSet g22, g21;
    for (int i = 0; i < 2; ++i) {
      for (int j = 0; j < 2; ++j) {
        g22.insert({i, j});
      }
    }
    auto rect = [](int a, int b) {
      PtSet r;
      for (int i = 0; i < a; ++i) {
        for (int j = 0; j < b; ++j) {
          r.insert({i, j});
        }
      }
      return r;
    };
    std::vector<Acc> m2{{0, fn2(D(0), D(1))}, {0, fn2(D(1), D(0))}, {0, fn2(D(0), C(0))}, {0, fn2(C(1), D(1))},
                        {0, fn2(C(1) - D(0), D(1))}, {0, fn2(D(0), R(0, 2))}, {1, Fn{2, {D(0)}}},
                        {1, Fn{2, {D(1)}}}, {1, Fn{2, {C(0)}}}};
    std::vector<Acc> m1{{0, Fn{1, {d, d}}}, {0, Fn{1, {d, C(0)}}}, {0, Fn{1, {C(1), d}}}, {0, Fn{1, {C(0), C(1)}}},
                        {1, fn1(d)}, {1, fn1(C(1))}, {0, Fn{1, {d, R(0, 2)}}}};
    systems({{0, g22}}, {g22}, {m2}, 3, 1);
    systems({{0, g22}, {1, line(0, 2)}}, {g22, line(0, 2)}, {m2, m1}, 2, 1);
    systems({{0, g22}, {1, line(0, 2)}}, {rect(1, 2), rect(2, 2)}, {m2, m2}, 2, 1);
    systems({{0, g22}}, {line(0, 2), line(0, 2)}, {m1, m1}, 3, 1);
    systems({{0, rect(2, 3)}, {1, line(0, 2)}}, {rect(2, 3), line(0, 2)}, {m2, m1}, 2, 1);
    systems({{0, {{0, 0}, {0, 1}, {1, 0}}}, {1, line(0, 2)}}, {{{0, 0}, {0, 1}, {1, 1}}, line(0, 2)}, {m2, m1}, 2, 1);
  }
  if (th && ctx.suite("deep")) {
    std::vector<Acc> menu;
    std::vector<Var> vars;
    for (int i = 0; i < 4; ++i) {
      vars.push_back({i, {{0}}});
      menu.push_back({i, fn1(C(0))});
    }
    systems(vars, std::vector<PtSet>(4, PtSet{{0}}), std::vector<std::vector<Acc>>(4, menu), 4, 1);
    std::vector<EP> few{d, d + C(1), C(1) - d, C(0), C(2)};
    auto m = menuFor({{0, few}, {1, few}});
    systems({{0, line(0, 3)}, {1, line(0, 3)}}, {line(0, 3), line(0, 2), line(2, 3)}, {m, m, m}, 2, 1);
    systems({{0, line(0, 5)}}, {line(0, 3), line(1, 3)}, {menuFor({{0, at}}), menuFor({{0, at}})}, 4, 1);
  }
  return ctx.finish();
}

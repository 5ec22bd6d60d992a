// Local matching solutions: every set of accesses over every small index set.
#include "accessgen.h"
#include "marco/Modeling/LocalMatchingSolutions.h"
#include "marco/Modeling/MCIM.h"
using namespace ag;
using marco::modeling::internal::MCIM;
using marco::modeling::internal::solveLocalMatchingProblem;
static mc::Ctx ctx;
using Pair = std::pair<Pt, Pt>;
using Ones = std::set<Pair>;

static std::string pairsStr(const Ones &s) {
  std::string r = "{";
  for (auto &p : s) {
    r += ptStr(p.first) + "->" + ptStr(p.second) + " ";
  }
  return r + "}";
}
static Ones read(const MCIM &m, const PtSet &eq, const PtSet &var) {
  Ones r;
  for (auto &e : eq) {
    for (auto &v : var) {
      if (m.get(toPoint(e), toPoint(v))) {
        r.insert({e, v});
      }
    }
  }
  return r;
}

template <typename S>
static std::string check(S &&sols, const PtSet &eq, const PtSet &var, const Ones &exp, bool backwards) {
  size_t n = sols.size();
  if (n > 200) {
    return "size|" + std::to_string(n) + " solutions";
  }
  if (backwards && n) {
    (void)sols[n - 1];
  }
  size_t count = 0;
  Ones all;
  for (auto &m : sols) {
    ++count;
    if (points(m.getEquationSpace()) != eq || points(m.getVariableSpace()) != var) {
      return "spaces|solution " + std::to_string(count) + " has different spaces";
    }
    Ones o = read(m, eq, var);
    PtSet es, vs;
    for (auto &p : o) {
      if (!exp.count(p)) {
        return "extra|solution contains " + ptStr(p.first) + "->" + ptStr(p.second);
      }
      if (!es.insert(p.first).second || !vs.insert(p.second).second) {
        return "matching|not a matching: " + pairsStr(o);
      }
    }
    if (points(m.flattenRows()) != vs || points(m.flattenColumns()) != es) {
      return "outside|solution refers to coordinates outside of the matrix";
    }
    all.insert(o.begin(), o.end());
    ++ctx.transitions;
  }
  if (count != n) {
    return "size|" + std::to_string(count) + " of " + std::to_string(n) + " solutions visited";
  }
  if (all != exp) {
    return "cover|solutions cover " + pairsStr(all) + " of " + pairsStr(exp);
  }
  return "";
}

static void run(const PtSet &eq, const PtSet &var, const std::vector<Fn> &fs) {
  if (!ctx.take()) {
    return;
  }
  auto name = [&] {
    std::string s = "eq " + setStr(eq) + " var " + setStr(var);
    for (auto &f : fs) {
      s += " " + f.str();
    }
    return s;
  };
  ctx.describe(name);
  ++ctx.traces;
  llvm::SmallVector<std::unique_ptr<AccessFunction>> afs;
  Ones exp;
  for (auto &f : fs) {
    afs.push_back(f.build());
    for (auto &e : eq) {
      for (auto &v : f.eval(e)) {
        if (var.count(v)) {
          exp.insert({e, v});
        }
      }
    }
  }
  ctx.state(pairsStr(exp));
  IndexSet es = toSet(eq), vs = toSet(var);
  std::string e;
  for (int back = 0; back < 2 && e.empty(); ++back) {
    e = check(solveLocalMatchingProblem(es, vs, afs), eq, var, exp, back);
  }
  if (!e.empty()) {
    ctx.fail("accesses " + e.substr(0, e.find('|')), name() + " => " + e.substr(e.find('|') + 1));
    return;
  }
  MCIM m(es, vs);
  for (auto &a : afs) {
    m.apply(*a);
  }
  e = check(solveLocalMatchingProblem(m), eq, var, exp, false);
  if (!e.empty()) {
    ctx.fail("matrix " + e.substr(0, e.find('|')), name() + " => " + e.substr(e.find('|') + 1));
    return;
  }
  ctx.outcome(std::to_string(exp.size()) + " coordinates");
}

int main(int argc, char **argv) {
  ctx.parse(argc, argv);
  bool th = ctx.thorough;
  Spaces sp;
  auto all = [](const std::vector<Pt> &g, std::vector<uint64_t> masks = {}) {
    std::vector<PtSet> r;
    if (masks.empty()) {
      for (uint64_t m = 1; m < (1ull << g.size()); ++m) {
        r.push_back(subset(g, m));
      }
    } else {
      for (auto m : masks) {
        r.push_back(subset(g, m));
      }
    }
    return r;
  };
  auto combos = [&](const std::vector<PtSet> &eqs, const std::vector<PtSet> &vars,
                    const std::vector<Fn> &fs, unsigned maxFns) {
    for (auto &e : eqs) {
      for (auto &v : vars) {
        for (size_t i = 0; i < fs.size(); ++i) {
          run(e, v, {fs[i]});
          if (maxFns < 2) {
            continue;
          }
          for (size_t j = 0; j < fs.size(); ++j) {
            run(e, v, {fs[i], fs[j]});
            if (maxFns < 3) {
              continue;
            }
            for (size_t k = 0; k < fs.size(); ++k) {
              run(e, v, {fs[i], fs[j], fs[k]});
            }
          }
        }
      }
    }
  };
  auto g1 = grid({{0, 4}});
  auto g2 = grid({{0, 2}, {0, 2}});
  auto g23 = grid({{0, 2}, {0, 3}});
  auto g3 = grid({{0, 2}, {0, 2}, {0, 2}});
  if (ctx.suite("1D to 1D")) {
    std::vector<Fn> fs;
    for (auto &e : singles(1, th)) {
      fs.push_back({1, {e}});
    }
    for (auto &e : multis(1, sp)) {
      fs.push_back({1, {e}});
    }
    fs.push_back({1, {D(0) * D(0)}});
    combos(all(g1), all(g1, {15, 7, 10, 13, 2}), fs, 1);
    combos(all(g1, {15, 11, 5}), all(g1, {15, 6}), fs, 2);
    std::vector<Fn> small{{1, {D(0)}}, {1, {D(0) + C(1)}}, {1, {C(2)}}, {1, {R(0, 2)}}, {1, {C(3)}},
                          {1, {D(0) / C(2)}}, {1, {C(9)}}, {1, {D(0) + R(0, 2)}}};
    combos(all(g1, {15, 13}), all(g1, {15, 11}), small, 3);
  }
  if (ctx.suite("2D to 1D")) {
    std::vector<Fn> fs;
    for (auto &e : singles(2, th)) {
      fs.push_back({2, {e}});
    }
    for (auto &e : {R(0, 2), D(1) + R(0, 2), D(0) - R(0, 2)}) {
      fs.push_back({2, {e}});
    }
    combos(all(g2), all(g1, {3, 7, 14, 5}), fs, 1);
    combos(all(g2, {15, 7, 9}), all(g1, {3, 7}), fs, 2);
    combos(all(g23, {63, 0x1b, 0x2d, 0x31}), all(g1, {7, 15, 2}), fs, 1);
  }
  if (ctx.suite("1D to 2D")) {
    std::vector<EP> at{D(0), D(0) + C(1), C(1), D(0) / C(2), C(1) - D(0), R(0, 2)};
    std::vector<Fn> fs;
    for (auto &a : at) {
      for (auto &b : at) {
        fs.push_back({1, {a, b}});
      }
    }
    combos(all(g1, {1, 3, 7, 5, 14}), all(g2), fs, 1);
    combos(all(g1, {7, 5}), all(g2, {15, 13}), fs, 2);
  }
  if (ctx.suite("2D to 2D")) {
    std::vector<EP> at{D(0), D(1), D(1) + C(1), C(1), D(0) + D(1), R(0, 2)};
    std::vector<Fn> fs;
    for (auto &a : at) {
      for (auto &b : at) {
        fs.push_back({2, {a, b}});
      }
    }
    combos(all(g2), all(g23, {63, 0x1b, 0x2d}), fs, 1);
    combos(all(g2, {15, 7}), all(g23, {63}), fs, 2);
  }
  if (ctx.suite("3D to 2D")) {
    std::vector<EP> at{D(0), D(1), D(2), C(0), D(2) + C(1)};
    std::vector<Fn> fs;
    for (auto &a : at) {
      for (auto &b : at) {
        fs.push_back({3, {a, b}});
      }
    }
    std::vector<uint64_t> masks{255, 0x7f, 0x5b, 0x81};
    if (th) {
      masks.clear();
    }
    combos(all(g3, masks), all(g23, {63, 0x1b}), fs, 1);
    combos(all(g3, {255, 0x7f}), all(g23, {63}), fs, th ? 3 : 2);
  }
  return ctx.finish();
}

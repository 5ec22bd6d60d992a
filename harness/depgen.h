// Matched systems of array equations for the dependency/scheduling harnesses.
#ifndef VERIF_DEPGEN_H
#define VERIF_DEPGEN_H
#include "matchgen.h"
#include "marco/Modeling/DependencyGraph.h"
#include "marco/Modeling/Scheduling.h"

namespace dg {
using namespace ag;
using mg::line;
struct DVar {
  int64_t id;
};
inline DVar *var(int64_t id) {
  static std::vector<DVar> vars{{0}, {1}, {2}, {3}, {4}, {5}, {6}, {7}};
  return &vars[id];
}
struct DAcc {
  int64_t var;
  Fn fn;
};
struct DEq {
  int64_t id;
  PtSet indices;
  DAcc write;
  std::vector<DAcc> reads;
  std::string str() const {
    std::string s = "e" + std::to_string(id) + setStr(indices) + ": v" + std::to_string(write.var) + write.fn.str() +
                    " := f(";
    for (auto &a : reads) {
      s += " v" + std::to_string(a.var) + a.fn.str();
    }
    return s + ")";
  }
};
} // namespace dg

namespace marco::modeling::dependency {
template <>
struct VariableTraits<dg::DVar *> {
  using Id = int64_t;
  static Id getId(dg::DVar *const *v) { return (*v)->id; }
};
template <>
struct EquationTraits<dg::DEq *> {
  using Id = int64_t;
  static Id getId(dg::DEq *const *e) { return (*e)->id; }
  static size_t getNumOfIterationVars(dg::DEq *const *e) { return (*e)->indices.begin()->size(); }
  static IndexSet getIterationRanges(dg::DEq *const *e) { return ag::toSet((*e)->indices); }
  using VariableType = dg::DVar *;
  using AccessProperty = int;
  using A = Access<VariableType, AccessProperty>;
  static std::vector<A> getWrites(dg::DEq *const *e) {
    std::vector<A> r;
    r.push_back(A(dg::var((*e)->write.var), (*e)->write.fn.build(), -1));
    return r;
  }
  static std::vector<A> getReads(dg::DEq *const *e) {
    std::vector<A> r;
    int k = 0;
    for (auto &a : (*e)->reads) {
      r.push_back(A(dg::var(a.var), a.fn.build(), k++));
    }
    return r;
  }
};
} // namespace marco::modeling::dependency

namespace dg {
using Inst = std::pair<int64_t, Pt>; // equation id, index

struct DSystem {
  std::vector<DEq> eqs;
  std::string str() const {
    std::string s;
    for (auto &e : eqs) {
      s += e.str() + " ";
    }
    return s;
  }
  // Writer of each scalar variable; false if some variable has two writers.
  bool writers(std::map<mg::Node, Inst> &w) const {
    for (auto &e : eqs) {
      for (auto &p : e.indices) {
        auto img = e.write.fn.eval(p);
        if (img.size() != 1) {
          return false;
        }
        if (!w.insert({{e.write.var, *img.begin()}, {e.id, p}}).second) {
          return false;
        }
      }
    }
    return true;
  }
  // instance -> instances it depends on.
  std::map<Inst, std::set<Inst>> deps() const {
    std::map<mg::Node, Inst> w;
    writers(w);
    std::map<Inst, std::set<Inst>> r;
    for (auto &e : eqs) {
      for (auto &p : e.indices) {
        auto &row = r[{e.id, p}];
        for (auto &a : e.reads) {
          for (auto &q : a.fn.eval(p)) {
            auto it = w.find({a.var, q});
            if (it != w.end()) {
              row.insert(it->second);
            }
          }
        }
      }
    }
    return r;
  }
};

template <typename N>
std::map<N, std::set<N>> closure(const std::map<N, std::set<N>> &g) {
  std::map<N, std::set<N>> r;
  for (auto &n : g) {
    auto &s = r[n.first];
    std::vector<N> work(n.second.begin(), n.second.end());
    while (!work.empty()) {
      N x = work.back();
      work.pop_back();
      if (!s.insert(x).second) {
        continue;
      }
      auto it = g.find(x);
      if (it != g.end()) {
        work.insert(work.end(), it->second.begin(), it->second.end());
      }
    }
  }
  return r;
}
inline std::string instStr(const Inst &i) { return "e" + std::to_string(i.first) + ptStr(i.second); }

using ArrayGraph = marco::modeling::ArrayEquationsDependencyGraph<DVar *, DEq *>;
using DepGraph = marco::modeling::DependencyGraph<DVar *, DEq *>;

// Enumerates systems: every equation takes every subset (up to maxReads) of its menu of reads.
inline void forSystems(const std::vector<DEq> &base, const std::vector<std::vector<DAcc>> &menu, unsigned maxReads,
                       uint64_t stride, const std::function<void(const DSystem &)> &fn) {
  DSystem s;
  s.eqs = base;
  {
    std::map<mg::Node, Inst> w;
    if (!s.writers(w)) {
      fprintf(stderr, "bad base system: %s\n", s.str().c_str());
      abort();
    }
  }
  uint64_t n = 0;
  std::function<void(size_t)> rec = [&](size_t i) {
    if (i == s.eqs.size()) {
      if (n++ % stride == 0) {
        fn(s);
      }
      return;
    }
    for (uint64_t k = 0; k < (1ull << menu[i].size()); ++k) {
      if ((unsigned)__builtin_popcountll(k) > maxReads) {
        continue;
      }
      s.eqs[i].reads.clear();
      for (size_t b = 0; b < menu[i].size(); ++b) {
        if (k >> b & 1) {
          s.eqs[i].reads.push_back(menu[i][b]);
        }
      }
      rec(i + 1);
    }
  };
  rec(0);
}

// The families of systems shared by the harnesses.
struct Family {
  std::string name;
  std::vector<DEq> base;
  std::vector<std::vector<DAcc>> menu;
  unsigned maxReads;
  uint64_t stride = 1;
};
inline std::vector<Family> families(bool th) {
  EP d = D(0);
  auto f1 = [](EP e) { return Fn{1, {e}}; };
  auto menu1 = [&](std::vector<std::pair<int64_t, std::vector<EP>>> what) {
    std::vector<DAcc> m;
    for (auto &w : what) {
      for (auto &e : w.second) {
        m.push_back({w.first, f1(e)});
      }
    }
    return m;
  };
  auto eq = [&](int64_t id, PtSet idx, int64_t v, Fn w) { return DEq{id, idx, {v, w}, {}}; };
  std::vector<Family> r;
  std::vector<EP> all{d, d + C(1), d - C(1), d - C(2), C(2) - d, C(0), C(2), R(0, 2), R(0, 3)};
  std::vector<EP> some{d, d + C(1), d - C(1), C(2) - d, C(1), R(0, 2)};
  std::vector<EP> few{d, d + C(1), d - C(1), C(0)};
  // One equation depending on itself.
  {
    auto m = menu1({{0, all}});
    r.push_back({"self", {eq(0, line(0, 3), 0, f1(d))}, {m}, 3});
    r.push_back({"self shifted", {eq(0, line(1, 4), 0, f1(d - C(1)))}, {m}, 2});
    r.push_back({"self reversed", {eq(0, line(0, 3), 0, f1(C(2) - d))}, {m}, 2});
    r.push_back({"self with holes", {eq(0, {{0}, {1}, {3}}, 0, f1(d))}, {menu1({{0, {d, d + C(1), d - C(1), d - C(2), R(0, 2), C(3), C(3) - d}}})}, 3});
    r.push_back({"self wide", {eq(0, line(0, 5), 0, f1(d + C(1)))}, {menu1({{0, {d, d + C(1), d + C(2), d - C(1), C(5), C(1), C(6) - d, R(1, 3)}}})}, 3});
    r.push_back({"self strided", {eq(0, line(0, 3), 0, f1(d * C(2)))}, {menu1({{0, {d, d * C(2), d + C(1), d * C(2) - C(2), C(0), C(4)}}})}, 2});
  }
  // Two equations writing two variables.
  {
    auto m = menu1({{0, some}, {1, some}});
    r.push_back({"two equations", {eq(0, line(0, 3), 0, f1(d)), eq(1, line(0, 3), 1, f1(d))}, {m, m}, 2});
    auto mf = menu1({{0, few}, {1, few}});
    r.push_back({"two equations, different bounds", {eq(0, line(0, 3), 0, f1(d)), eq(1, line(1, 3), 1, f1(d - C(1)))}, {mf, mf}, 2});
    r.push_back({"two equations, reversed", {eq(0, line(0, 3), 0, f1(C(2) - d)), eq(1, line(0, 2), 1, f1(d + C(1)))}, {mf, mf}, 2});
  }
  // Two equations writing parts of the same variable.
  {
    auto m = menu1({{0, some}});
    r.push_back({"one variable, two equations", {eq(0, line(0, 2), 0, f1(d)), eq(1, line(2, 4), 0, f1(d))}, {m, m}, 3});
    r.push_back({"one variable, interleaved", {eq(0, line(0, 2), 0, f1(d * C(2))), eq(1, line(0, 2), 0, f1(d * C(2) + C(1)))}, {m, m}, 2});
    r.push_back({"one variable, border", {eq(0, line(0, 1), 0, f1(C(0))), eq(1, line(1, 4), 0, f1(d))}, {m, m}, 3});
  }
  // Three equations.
  {
    auto m = menu1({{0, {d, d - C(1)}}, {1, {d, d + C(1)}}, {2, {d, C(0)}}});
    r.push_back({"three equations", {eq(0, line(0, 2), 0, f1(d)), eq(1, line(0, 2), 1, f1(d)), eq(2, line(0, 2), 2, f1(d))}, {m, m, m}, 2, th ? 1u : 2u});
    auto s = menu1({{0, {C(0), C(1)}}, {1, {C(0)}}, {2, {C(0)}}});
    r.push_back({"scalars", {eq(0, line(0, 1), 0, f1(C(0))), eq(1, line(0, 1), 0, f1(C(1))), eq(2, line(0, 1), 1, f1(C(0))), eq(3, line(0, 1), 2, f1(C(0)))}, {s, s, s, s}, 2});
    auto x = menu1({{0, {d, d - C(1), d + C(1)}}, {1, {d, C(0)}}});
    r.push_back({"three equations, shared variable", {eq(0, line(0, 2), 0, f1(d)), eq(1, line(2, 4), 0, f1(d)), eq(2, line(0, 4), 1, f1(d))}, {x, x, x}, 2, th ? 1u : 1u});
    auto l = menu1({{0, {d, d - C(1)}}, {1, {d, d - C(1), C(1)}}, {2, {d, d + C(1)}}});
    r.push_back({"three equations, longer", {eq(0, line(0, 3), 0, f1(d)), eq(1, line(1, 3), 1, f1(d)), eq(2, line(0, 2), 2, f1(d))}, {l, l, l}, 2, th ? 1u : 3u});
  }
  // Rank 2.
  {
    auto f2 = [](EP a, EP b) { return Fn{2, {a, b}}; };
    EP i = D(0), j = D(1);
    auto rect = [](int a, int b) {
      PtSet s;
      for (int x = 0; x < a; ++x) {
        for (int y = 0; y < b; ++y) {
          s.insert({x, y});
        }
      }
      return s;
    };
    std::vector<DAcc> m{{0, f2(i, j)}, {0, f2(j, i)}, {0, f2(i - C(1), j)}, {0, f2(i, j - C(1))}, {0, f2(i + C(1), j)},
                        {0, f2(i, j + C(1))}, {0, f2(i - C(1), j + C(1))}, {0, f2(i + C(1), j - C(1))},
                        {0, f2(i - C(1), j - C(1))}, {0, f2(C(0), j)}, {0, f2(i, C(0))}, {0, f2(i, R(0, 2))},
                        {0, f2(C(1) - i, j)}, {0, f2(R(0, 2), C(0))}};
    r.push_back({"rank 2", {eq(0, rect(2, 3), 0, f2(i, j))}, {m}, 3});
    r.push_back({"rank 2, transposed", {eq(0, rect(3, 2), 0, f2(j, i))}, {m}, 2});
    r.push_back({"rank 2, shifted", {eq(0, rect(3, 3), 0, f2(i + C(1), j - C(1)))}, {m}, 2});
    r.push_back({"rank 2, not rectangular", {eq(0, {{0, 0}, {0, 1}, {1, 1}, {1, 2}}, 0, f2(i, j))}, {m}, 2});
    std::vector<DAcc> n{{0, f2(i, j)}, {0, f2(i, j - C(1))}, {0, f2(i - C(1), j)}, {1, Fn{2, {i}}}, {1, Fn{2, {j}}}, {1, Fn{2, {C(0)}}}};
    std::vector<DAcc> n1{{0, Fn{1, {d, d}}}, {0, Fn{1, {C(0), d}}}, {0, Fn{1, {d, R(0, 2)}}}, {1, f1(d)}, {1, f1(d - C(1))}, {1, f1(C(1))}};
    r.push_back({"rank 2 and 1", {eq(0, rect(2, 2), 0, f2(i, j)), eq(1, line(0, 2), 1, f1(d))}, {n, n1}, 2});
    std::vector<DAcc> row{{0, Fn{1, {C(0), d}}}, {0, Fn{1, {C(1), d}}}, {0, Fn{1, {C(0), d - C(1)}}}, {0, Fn{1, {C(1), d + C(1)}}}, {0, Fn{1, {d, C(0)}}}};
    r.push_back({"rows", {eq(0, line(0, 3), 0, Fn{1, {C(0), d}}), eq(1, line(0, 3), 0, Fn{1, {C(1), d}})}, {row, row}, 3});
    EP k = D(2);
    auto f3 = [](EP a, EP b, EP c) { return Fn{3, {a, b, c}}; };
    PtSet cube;
    for (int x = 0; x < 2; ++x) {
      for (int y = 0; y < 2; ++y) {
        for (int z = 0; z < 2; ++z) {
          cube.insert({x, y, z});
        }
      }
    }
    std::vector<DAcc> c{{0, f3(i, j, k)}, {0, f3(i - C(1), j, k)}, {0, f3(i, j + C(1), k)}, {0, f3(i, j, k - C(1))}, {0, f3(i - C(1), j + C(1), k)},
                        {0, f3(i, j - C(1), k + C(1))}, {0, f3(j, k, i)}, {0, f3(k, i, j)}, {0, f3(k - C(1), i, j)}, {0, f3(j, k - C(1), i)}, {0, f3(i, k, j)}};
    r.push_back({"rank 3", {eq(0, cube, 0, f3(i, j, k))}, {c}, 2});
    r.push_back({"rank 3, rotated", {eq(0, cube, 0, f3(k, i, j))}, {c}, 2});
    r.push_back({"rank 3, rotated and shifted", {eq(0, cube, 0, f3(j + C(1), k, i - C(1)))}, {c}, 2});
  }
  if (th) {
    auto m = menu1({{0, all}, {1, all}});
    r.push_back({"two equations, all accesses", {eq(0, line(0, 3), 0, f1(d)), eq(1, line(0, 3), 1, f1(d))}, {m, m}, 2});
    auto mf = menu1({{0, few}, {1, few}});
    r.push_back({"two equations, longer", {eq(0, line(0, 4), 0, f1(d)), eq(1, line(0, 4), 1, f1(d))}, {mf, mf}, 3});
    auto ms = menu1({{0, some}, {1, some}, {2, some}});
    r.push_back({"three equations, wide", {eq(0, line(0, 3), 0, f1(d)), eq(1, line(0, 3), 1, f1(d)), eq(2, line(0, 3), 2, f1(d))}, {ms, ms, ms}, 2, 101});
  }
  return r;
}
} // namespace dg
#endif

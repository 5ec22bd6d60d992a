// Histories of operations on the real MCIM against a set of pairs.
#include "accessgen.h"
#include "marco/Modeling/LocalMatchingSolutions.h"
#include "marco/Modeling/LocalMatchingSolutionsImpl.h"
#include "marco/Modeling/MCIM.h"
using namespace ag;
using marco::modeling::internal::MCIM;
static mc::Ctx ctx;

using Pair = std::pair<Pt, Pt>;
struct Model {
  PtSet eq, var;
  std::set<Pair> ones;
};
struct State {
  MCIM real;
  Model model;
};
static std::shared_ptr<const IndexSet> sp(const PtSet &s) {
  return std::make_shared<const IndexSet>(toSet(s));
}
static std::string pairsStr(const std::set<Pair> &s) {
  std::string r = "{";
  for (auto &p : s) {
    r += ptStr(p.first) + "->" + ptStr(p.second) + " ";
  }
  return r + "}";
}
static Pt cat(const Pt &a, const Pt &b) {
  Pt r = a;
  r.insert(r.end(), b.begin(), b.end());
  return r;
}

struct Config {
  std::string name;
  PtSet eq, var;
  std::vector<Fn> accesses;
  std::vector<PtSet> eqSubsets, varSubsets; // also used as new spaces
  std::vector<Pair> pairs;
};
struct Op {
  std::string name;
  std::function<void(State &)> run;
};

static void applyModel(Model &m, const PtSet &keys, const Fn &f) {
  for (auto &k : keys) {
    if (!m.eq.count(k)) {
      continue;
    }
    for (auto &v : f.eval(k)) {
      if (m.var.count(v)) {
        m.ones.insert({k, v});
      }
    }
  }
}
static void applyReal(State &s, const PtSet &keys, const Fn &f) {
  PtSet k;
  for (auto &p : keys) {
    if (s.model.eq.count(p)) {
      k.insert(p);
    }
  }
  s.real.apply(toSet(k), *f.build());
  applyModel(s.model, k, f);
}
static void setPair(State &s, const Pair &p) {
  if (s.model.eq.count(p.first) && s.model.var.count(p.second)) {
    s.real.set(toPoint(p.first), toPoint(p.second));
    s.model.ones.insert(p);
  }
}
static State fresh(const PtSet &eq, const PtSet &var) {
  return State{MCIM(toSet(eq), toSet(var)), Model{eq, var, {}}};
}
static PtSet inter(const PtSet &a, const PtSet &b) {
  PtSet r;
  for (auto &p : a) {
    if (b.count(p)) {
      r.insert(p);
    }
  }
  return r;
}
static void cut(Model &m, const PtSet *eq, const PtSet *var) {
  for (auto it = m.ones.begin(); it != m.ones.end();) {
    if ((eq && !eq->count(it->first)) || (var && !var->count(it->second))) {
      it = m.ones.erase(it);
    } else {
      ++it;
    }
  }
}

static std::vector<Op> operations(const Config &c) {
  std::vector<Op> ops;
  for (auto &f : c.accesses) {
    ops.push_back({"apply" + f.str(), [f](State &s) { applyReal(s, s.model.eq, f); }});
  }
  for (size_t i = 0; i < c.accesses.size() && i < 3; ++i) {
    Fn f = c.accesses[i];
    for (auto &k : c.eqSubsets) {
      ops.push_back({"apply" + setStr(k) + f.str(), [f, k](State &s) { applyReal(s, k, f); }});
    }
  }
  for (auto &p : c.pairs) {
    ops.push_back({"set " + ptStr(p.first) + ptStr(p.second), [p](State &s) { setPair(s, p); }});
    ops.push_back({"unset " + ptStr(p.first) + ptStr(p.second), [p](State &s) {
                     if (s.model.eq.count(p.first) && s.model.var.count(p.second)) {
                       s.real.unset(toPoint(p.first), toPoint(p.second));
                       s.model.ones.erase(p);
                     }
                   }});
  }
  // Right-hand sides built over the current spaces.
  std::vector<std::pair<std::string, std::function<State(const State &)>>> rhs;
  for (auto &f : c.accesses) {
    rhs.push_back({f.str(), [f](const State &s) {
                     State r = fresh(s.model.eq, s.model.var);
                     applyReal(r, r.model.eq, f);
                     return r;
                   }});
  }
  if (c.pairs.size() > 1) {
    auto a = c.pairs[0], b = c.pairs.back();
    auto f = c.accesses[0];
    auto k = c.eqSubsets[0];
    rhs.push_back({"points", [a, b](const State &s) {
                     State r = fresh(s.model.eq, s.model.var);
                     setPair(r, a);
                     setPair(r, b);
                     return r;
                   }});
    rhs.push_back({"mixed", [a, f, k](const State &s) {
                     State r = fresh(s.model.eq, s.model.var);
                     applyReal(r, k, f);
                     setPair(r, a);
                     return r;
                   }});
  }
  for (auto &[name, make] : rhs) {
    auto mk = make;
    ops.push_back({"+=" + name, [mk](State &s) {
                     State r = mk(s);
                     s.real += r.real;
                     s.model.ones.insert(r.model.ones.begin(), r.model.ones.end());
                   }});
    ops.push_back({"-=" + name, [mk](State &s) {
                     State r = mk(s);
                     s.real -= r.real;
                     for (auto &p : r.model.ones) {
                       s.model.ones.erase(p);
                     }
                   }});
  }
  ops.push_back({"-=self", [](State &s) {
                   s.real -= s.real;
                   s.model.ones.clear();
                 }});
  ops.push_back({"+=self", [](State &s) { s.real += s.real; }});
  ops.push_back({"clear", [](State &s) {
                   s.real.clear();
                   s.model.ones.clear();
                 }});
  ops.push_back({"=self", [](State &s) { s.real = *&s.real; }});
  ops.push_back({"copy+move", [](State &s) {
                   MCIM a(s.real);
                   s.real.clear();
                   MCIM b(std::move(a));
                   s.real = std::move(b);
                 }});
  for (auto &e : c.eqSubsets) {
    ops.push_back({"filterRows" + setStr(e), [e](State &s) {
                     s.real = s.real.filterRows(toSet(e));
                     cut(s.model, &e, nullptr);
                   }});
    ops.push_back({"eqSpace" + setStr(e), [e](State &s) {
                     s.real.setEquationSpace(sp(e));
                     cut(s.model, &e, nullptr);
                     s.model.eq = e;
                   }});
  }
  for (auto &v : c.varSubsets) {
    ops.push_back({"filterColumns" + setStr(v), [v](State &s) {
                     s.real = s.real.filterColumns(toSet(v));
                     cut(s.model, nullptr, &v);
                   }});
    ops.push_back({"varSpace" + setStr(v), [v](State &s) {
                     s.real.setVariableSpace(sp(v));
                     cut(s.model, nullptr, &v);
                     s.model.var = v;
                   }});
  }
  for (size_t i = 0; i < c.eqSubsets.size(); ++i) {
    auto e = c.eqSubsets[i];
    auto v = c.varSubsets[i % c.varSubsets.size()];
    ops.push_back({"withSpace" + setStr(e) + setStr(v), [e, v](State &s) {
                     s.real = s.real.withSpace(sp(e), sp(v));
                     cut(s.model, &e, &v);
                     s.model.eq = e;
                     s.model.var = v;
                   }});
    ops.push_back({"withEqSpace" + setStr(e), [e](State &s) {
                     s.real = s.real.withSpace(sp(e), sp(s.model.var));
                     cut(s.model, &e, nullptr);
                     s.model.eq = e;
                   }});
    ops.push_back({"setSpaces" + setStr(e) + setStr(v), [e, v](State &s) {
                     s.real.setEquationSpace(sp(e));
                     s.real.setVariableSpace(sp(v));
                     cut(s.model, &e, &v);
                     s.model.eq = e;
                     s.model.var = v;
                   }});
  }
  for (auto &v : c.varSubsets) {
    ops.push_back({"withVarSpace" + setStr(v), [v](State &s) {
                     s.real = s.real.withSpace(sp(s.model.eq), sp(v));
                     cut(s.model, nullptr, &v);
                     s.model.var = v;
                   }});
  }
  return ops;
}

static std::set<Pair> read(const MCIM &m, const Model &spaces) {
  std::set<Pair> r;
  for (auto &e : spaces.eq) {
    for (auto &v : spaces.var) {
      if (m.get(toPoint(e), toPoint(v))) {
        r.insert({e, v});
      }
    }
  }
  return r;
}

static std::string check(const State &s, bool deep) {
  const Model &m = s.model;
  auto got = read(s.real, m);
  if (got != m.ones) {
    return "content|got " + pairsStr(got) + " expected " + pairsStr(m.ones);
  }
  if (points(s.real.getEquationSpace()) != m.eq || points(s.real.getVariableSpace()) != m.var) {
    return "spaces|wrong spaces";
  }
  PtSet rows, cols;
  for (auto &p : m.ones) {
    cols.insert(p.first);
    rows.insert(p.second);
  }
  if (points(s.real.flattenRows()) != rows) {
    return "flattenRows|got " + setStr(points(s.real.flattenRows())) + " expected " + setStr(rows);
  }
  if (points(s.real.flattenColumns()) != cols) {
    return "flattenColumns|got " + setStr(points(s.real.flattenColumns())) + " expected " + setStr(cols);
  }
  if (s.real.empty() != m.ones.empty()) {
    return "empty|" + std::to_string(s.real.empty());
  }
  if (!deep) {
    return "";
  }
  // Equality with an independently built matrix, and inequality when any
  // single coordinate differs.
  MCIM same(toSet(m.eq), toSet(m.var));
  for (auto &p : m.ones) {
    same.set(toPoint(p.first), toPoint(p.second));
  }
  if (!(s.real == same) || s.real != same || !(same == s.real)) {
    return "equal|differs from a matrix with the same content";
  }
  for (auto &e : m.eq) {
    for (auto &v : m.var) {
      MCIM other(same);
      if (m.ones.count({e, v})) {
        other.unset(toPoint(e), toPoint(v));
      } else {
        other.set(toPoint(e), toPoint(v));
      }
      if (s.real == other || !(s.real != other)) {
        return "equal|equal to a matrix differing at " + ptStr(e) + ptStr(v);
      }
    }
  }
  // Filters, for all the subsets of the spaces.
  std::vector<Pt> eqs(m.eq.begin(), m.eq.end()), vars(m.var.begin(), m.var.end());
  for (uint64_t mask = 0; mask < (1u << eqs.size()); ++mask) {
    PtSet f = subset(eqs, mask);
    Model e = m;
    cut(e, &f, nullptr);
    MCIM r = s.real.filterRows(toSet(f));
    auto g = read(r, m);
    PtSet er;
    for (auto &p : e.ones) {
      er.insert(p.second);
    }
    if (g != e.ones || r.empty() != e.ones.empty() || points(r.flattenRows()) != er) {
      return "filterRows|filter " + setStr(f) + " got " + pairsStr(g) + " expected " + pairsStr(e.ones);
    }
  }
  for (uint64_t mask = 0; mask < (1u << vars.size()); ++mask) {
    PtSet f = subset(vars, mask);
    Model e = m;
    cut(e, nullptr, &f);
    MCIM r = s.real.filterColumns(toSet(f));
    auto g = read(r, m);
    PtSet er;
    for (auto &p : e.ones) {
      er.insert(p.first);
    }
    if (g != e.ones || r.empty() != e.ones.empty() || points(r.flattenColumns()) != er) {
      return "filterColumns|filter " + setStr(f) + " got " + pairsStr(g) + " expected " + pairsStr(e.ones);
    }
  }
  // Groups: valid local matchings that together give the matrix back.
  std::set<Pair> all;
  for (MCIM &g : s.real.splitGroups()) {
    if (points(g.getEquationSpace()) != m.eq || points(g.getVariableSpace()) != m.var) {
      return "splitGroups|spaces changed";
    }
    auto p = read(g, m);
    std::set<Pt> es, vs;
    for (auto &x : p) {
      if (!es.insert(x.first).second || !vs.insert(x.second).second) {
        return "splitGroups|group is not a matching: " + pairsStr(p);
      }
    }
    PtSet gv;
    for (auto &x : p) {
      gv.insert(x.second);
    }
    if (points(g.flattenRows()) != gv) {
      return "splitGroups|group refers to variables outside of the matrix: " + setStr(points(g.flattenRows()));
    }
    all.insert(p.begin(), p.end());
  }
  if (all != m.ones) {
    return "splitGroups|union " + pairsStr(all) + " of " + pairsStr(m.ones);
  }
  return "";
}

static void explore(const Config &c, int depth) {
  auto ops = operations(c);
  std::vector<size_t> idx;
  std::function<void()> rec = [&]() {
    if (idx.size() == (size_t)depth) {
      if (!ctx.take()) {
        return;
      }
      auto hist = [&](size_t n) {
        std::string s = c.name + ":";
        for (size_t i = 0; i < n; ++i) {
          s += " " + ops[idx[i]].name + ";";
        }
        return s;
      };
      ctx.describe([&] { return hist(idx.size()); });
      ++ctx.traces;
      State s = fresh(c.eq, c.var);
      for (size_t i = 0; i < idx.size(); ++i) {
        ops[idx[i]].run(s);
        ++ctx.transitions;
        std::string prefix;
        for (size_t j = 0; j <= i; ++j) {
          prefix += std::to_string(idx[j]) + ",";
        }
        // A prefix shared by several histories is examined only once.
        if (!ctx.claim(mc::Ctx::hash(c.name + prefix))) {
          continue;
        }
        std::string e = check(s, ctx.thorough || i < 2);
        ctx.state(c.name + setStr(s.model.eq) + setStr(s.model.var) + pairsStr(s.model.ones));
        if (!e.empty()) {
          size_t bar = e.find('|');
          ctx.fail(e.substr(0, bar) + " after " + ops[idx[i]].name.substr(0, 5), hist(i + 1) + " => " + e.substr(bar + 1));
          return;
        }
      }
      ctx.outcome(std::to_string(s.model.ones.size()) + " ones");
      return;
    }
    for (size_t i = 0; i < ops.size(); ++i) {
      idx.push_back(i);
      rec();
      idx.pop_back();
    }
  };
  rec();
}

int main(int argc, char **argv) {
  ctx.parse(argc, argv);
  bool th = ctx.thorough;
  std::vector<Config> cfgs;
  {
    Config c;
    c.name = "1D";
    c.eq = {{0}, {1}, {2}};
    c.var = {{0}, {1}, {2}};
    c.accesses = {{1, {D(0)}}, {1, {D(0) + C(1)}}, {1, {C(1)}}, {1, {C(2) - D(0)}},
                  {1, {D(0) / C(2)}}, {1, {R(0, 2)}}, {1, {D(0) + R(0, 2)}}};
    c.eqSubsets = {{{0}, {2}}, {{1}, {2}, {3}}};
    c.varSubsets = {{{1}, {2}}, {{0}, {2}, {3}}};
    c.pairs = {{{1}, {1}}, {{0}, {1}}, {{2}, {0}}};
    cfgs.push_back(c);
  }
  {
    Config c;
    c.name = "sparse";
    c.eq = {{0}, {1}, {3}};
    c.var = {{0}, {2}, {3}};
    c.accesses = {{1, {D(0)}}, {1, {D(0) - C(1)}}, {1, {C(3)}}, {1, {R(1, 4)}}, {1, {D(0) * D(0)}}};
    c.eqSubsets = {{{1}, {3}}, {{0}, {3}, {4}}};
    c.varSubsets = {{{0}, {2}}, {{2}, {3}, {1}}};
    c.pairs = {{{0}, {0}}, {{3}, {2}}};
    cfgs.push_back(c);
  }
  {
    Config c;
    c.name = "2Dto1D";
    c.eq = {{0, 0}, {0, 1}, {1, 0}};
    c.var = {{0}, {1}};
    c.accesses = {{2, {D(0)}}, {2, {D(1)}}, {2, {D(0) + D(1)}}, {2, {C(1)}}, {2, {R(0, 2)}}, {2, {C(1) - D(1)}}};
    c.eqSubsets = {{{0, 0}, {1, 0}}, {{0, 1}, {1, 1}, {1, 0}}};
    c.varSubsets = {{{1}}, {{0}, {2}}};
    c.pairs = {{{0, 1}, {0}}, {{1, 0}, {1}}};
    cfgs.push_back(c);
  }
  {
    Config c;
    c.name = "1Dto2D";
    c.eq = {{0}, {1}};
    c.var = {{0, 0}, {0, 1}, {1, 0}, {1, 1}};
    c.accesses = {{1, {D(0), D(0)}}, {1, {D(0), C(0)}}, {1, {C(1), D(0)}}, {1, {C(0), C(1)}},
                  {1, {D(0), R(0, 2)}}, {1, {R(0, 2), C(1) - D(0)}}};
    c.eqSubsets = {{{1}}, {{0}, {2}}};
    c.varSubsets = {{{0, 0}, {0, 1}, {1, 1}}, {{0, 0}, {1, 0}, {2, 0}}};
    c.pairs = {{{1}, {0, 1}}, {{0}, {0, 0}}};
    cfgs.push_back(c);
  }
  for (auto &c : cfgs) {
    if (ctx.suite(c.name)) {
      explore(c, 3);
    }
  }
  if (th && ctx.suite("depth 4")) {
    for (auto &c : cfgs) {
      Config d = c;
      d.name += " depth 4";
      d.eqSubsets.resize(1);
      d.varSubsets.resize(1);
      explore(d, 4);
    }
  }
  return ctx.finish();
}

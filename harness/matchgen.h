// Systems of array equations for the matching harnesses.
#ifndef VERIF_MATCHGEN_H
#define VERIF_MATCHGEN_H
#include "accessgen.h"
#include "marco/Modeling/Matching.h"

namespace mg {
using namespace ag;
struct Var {
  int64_t id;
  PtSet indices;
};
struct Acc {
  int64_t var;
  Fn fn;
};
struct Eq {
  int64_t id;
  PtSet indices;
  std::vector<Acc> accesses;
};
} // namespace mg

namespace marco::modeling::matching {
template <>
struct VariableTraits<mg::Var> {
  using Id = int64_t;
  static Id getId(const mg::Var *v) { return v->id; }
  static size_t getRank(const mg::Var *v) { return v->indices.begin()->size(); }
  static IndexSet getIndices(const mg::Var *v) { return ag::toSet(v->indices); }
  static llvm::raw_ostream &dump(const mg::Var *v, llvm::raw_ostream &os) { return os << v->id; }
};
template <>
struct EquationTraits<mg::Eq> {
  using Id = int64_t;
  static Id getId(const mg::Eq *e) { return e->id; }
  static size_t getNumOfIterationVars(const mg::Eq *e) { return e->indices.begin()->size(); }
  static IndexSet getIndices(const mg::Eq *e) { return ag::toSet(e->indices); }
  using VariableType = mg::Var;
  static std::vector<Access<int64_t>> getAccesses(const mg::Eq *e) {
    std::vector<Access<int64_t>> r;
    for (auto &a : e->accesses) {
      r.emplace_back(a.var, a.fn.build());
    }
    return r;
  }
  static llvm::raw_ostream &dump(const mg::Eq *e, llvm::raw_ostream &os) { return os << e->id; }
};
} // namespace marco::modeling::matching

namespace mg {
using Graph = marco::modeling::MatchingGraph<Var, Eq>;
using Node = std::pair<int64_t, Pt>;

struct System {
  std::vector<Var> vars;
  std::vector<Eq> eqs;
  std::string str() const {
    std::string s;
    for (auto &v : vars) {
      s += "v" + std::to_string(v.id) + setStr(v.indices) + " ";
    }
    for (auto &e : eqs) {
      s += "| e" + std::to_string(e.id) + setStr(e.indices) + ":";
      for (auto &a : e.accesses) {
        s += " v" + std::to_string(a.var) + a.fn.str();
      }
      s += " ";
    }
    return s;
  }
  // Scalar incidence relation.
  std::map<Node, std::set<Node>> incidence() const {
    std::map<Node, std::set<Node>> r;
    std::map<int64_t, const Var *> byId;
    for (auto &v : vars) {
      byId[v.id] = &v;
    }
    for (auto &e : eqs) {
      for (auto &p : e.indices) {
        auto &row = r[{e.id, p}];
        for (auto &a : e.accesses) {
          for (auto &q : a.fn.eval(p)) {
            if (byId.count(a.var) && byId[a.var]->indices.count(q)) {
              row.insert({a.var, q});
            }
          }
        }
      }
    }
    return r;
  }
  size_t numVars() const {
    size_t n = 0;
    for (auto &v : vars) {
      n += v.indices.size();
    }
    return n;
  }
};

// Maximum bipartite matching by augmenting paths.
template <typename A, typename B>
size_t maxMatching(const std::map<A, std::set<B>> &inc) {
  std::map<B, A> owner;
  size_t n = 0;
  for (auto &row : inc) {
    std::set<B> seen;
    std::function<bool(const A &)> aug = [&](const A &a) {
      for (auto &b : inc.at(a)) {
        if (!seen.insert(b).second) {
          continue;
        }
        auto it = owner.find(b);
        if (it == owner.end() || aug(A(it->second))) {
          owner[b] = a;
          return true;
        }
      }
      return false;
    };
    n += aug(row.first);
  }
  return n;
}
inline bool solvable(const System &s) {
  auto inc = s.incidence();
  return inc.size() == s.numVars() && maxMatching(inc) == inc.size();
}

// Runs the matching and judges the outcome. Returns "" or "class|what".
inline std::string judge(const System &s, bool expected, const marco::modeling::matching::MatchingOptions &opt,
                         mlir::MLIRContext *context) {
  Graph g(context);
  for (auto &v : s.vars) {
    g.addVariable(v);
  }
  for (auto &e : s.eqs) {
    g.addEquation(e);
  }
  llvm::SmallVector<Graph::MatchingSolution> sol;
  auto inc0 = s.incidence();
  if (g.getNumberOfScalarVariables() != s.numVars() || g.getNumberOfScalarEquations() != inc0.size()) {
    return "counts|the graph counts " + std::to_string(g.getNumberOfScalarVariables()) + " scalar variables and " +
           std::to_string(g.getNumberOfScalarEquations()) + " scalar equations";
  }
  bool got = g.match(sol, opt);
  if (got != expected) {
    return std::string("verdict|match() returned ") + (got ? "true" : "false") +
           " on a system that is " + (expected ? "solvable" : "unsolvable");
  }
  if (!got) {
    return "";
  }
  auto inc = s.incidence();
  std::set<Node> eqs, vars;
  std::string desc;
  for (auto &m : sol) {
    desc += " e" + std::to_string(m.getEquation()) + setStr(points(m.getEquationIndices())) + "=v" +
            std::to_string(m.getVariable()) + setStr(points(m.getVariableIndices()));
  }
  for (auto &m : sol) {
    PtSet ep = points(m.getEquationIndices()), vp = points(m.getVariableIndices());
    if (ep.size() != vp.size()) {
      return "sizes|" + desc;
    }
    std::map<Node, std::set<Node>> block;
    for (auto &p : ep) {
      Node e{m.getEquation(), p};
      if (!inc.count(e) || !eqs.insert(e).second) {
        return "equation matched twice or unknown|" + desc;
      }
      auto &row = block[e];
      for (auto &v : inc[e]) {
        if (v.first == m.getVariable() && vp.count(v.second)) {
          row.insert(v);
        }
      }
    }
    for (auto &q : vp) {
      if (!vars.insert({m.getVariable(), q}).second) {
        return "variable matched twice|" + desc;
      }
    }
    if (maxMatching(block) != ep.size()) {
      return "not accessed|" + desc;
    }
  }
  if (eqs.size() != inc.size() || vars.size() != s.numVars()) {
    return "incomplete|" + desc;
  }
  return "";
}

inline PtSet line(int64_t a, int64_t b) {
  PtSet r;
  for (int64_t i = a; i < b; ++i) {
    r.insert({i});
  }
  return r;
}
} // namespace mg
#endif

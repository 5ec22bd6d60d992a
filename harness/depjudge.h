// Judges the dependency graphs of a matched system.
#ifndef VERIF_DEPJUDGE_H
#define VERIF_DEPJUDGE_H
#include "depgen.h"

namespace dg {
struct Judge {
  std::function<void(const std::string &, const std::string &)> fail;
  std::function<void()> step = [] {};
  std::function<void(const std::string &)> outcome = [](const std::string &) {};
};

inline void runArray(const Judge &j, const DSystem &s, const std::map<Inst, std::set<Inst>> &deps) {
  // Reference array-level graph.
  std::map<int64_t, std::set<int64_t>> g;
  for (auto &e : s.eqs) {
    g[e.id];
  }
  for (auto &d : deps) {
    for (auto &t : d.second) {
      g[d.first.first].insert(t.first);
    }
  }
  auto reach = closure(g);
  std::vector<DEq> eqs = s.eqs;
  std::vector<DEq *> ptrs;
  for (auto &e : eqs) {
    ptrs.push_back(&e);
  }
  // All the equations at once.
  ArrayGraph graph(mctx());
  graph.addEquations(ptrs);
  j.step();
  auto sccs = graph.getSCCs();
  std::set<int64_t> seen;
  for (auto &scc : sccs) {
    std::set<int64_t> members;
    for (auto &d : scc) {
      members.insert(graph[d]->id);
    }
    if (members.size() != scc.size()) {
      j.fail("array scc repeats", s.str());
    }
    for (auto m : members) {
      if (!seen.insert(m).second) {
        j.fail("array scc overlap", s.str());
      }
    }
    for (auto a : members) {
      for (auto &e : s.eqs) {
        bool together = a == e.id || (reach[a].count(e.id) && reach[e.id].count(a));
        if (together != (bool)members.count(e.id)) {
          j.fail("array scc", s.str() + "=> e" + std::to_string(a) + " and e" + std::to_string(e.id) +
                                    (together ? " belong to the same component" : " belong to different components"));
        }
      }
      for (auto b : g[a]) {
        if (!seen.count(b)) {
          j.fail("array order", s.str() + "=> a component precedes one it depends on");
        }
      }
    }
  }
  if (seen.size() != s.eqs.size()) {
    j.fail("array missing", s.str());
  }
}

inline void runScalar(const Judge &j, const DSystem &s, const std::map<Inst, std::set<Inst>> &deps) {
  auto reach = closure(deps);
  std::vector<DEq> eqs = s.eqs;
  std::vector<DEq *> ptrs;
  for (auto &e : eqs) {
    ptrs.push_back(&e);
  }
  marco::modeling::ScalarEquationsDependencyGraph<DVar *, DEq *> graph(mctx());
  graph.addEquations(ptrs);
  j.step();
  std::set<Inst> seen;
  std::vector<Inst> order;
  for (auto d : graph.postOrder()) {
    auto &q = graph[d];
    Pt p;
    for (auto c : q.getIndex()) {
      p.push_back(c);
    }
    Inst i{q.getProperty()->id, p};
    order.push_back(i);
    if (!deps.count(i)) {
      j.fail("scalar unknown", s.str() + "=> " + instStr(i));
      return;
    }
    if (!seen.insert(i).second) {
      j.fail("scalar repeats", s.str() + "=> " + instStr(i));
    }
    for (auto &b : deps.at(i)) {
      if (!seen.count(b) && !reach[b].count(i)) {
        j.fail("scalar order", s.str() + "=> " + instStr(i) + " precedes " + instStr(b) + " it depends on");
      }
    }
  }
  if (seen.size() != deps.size()) {
    j.fail("scalar missing", s.str());
  }
  auto rev = graph.reversePostOrder();
  auto fwd = graph.postOrder();
  std::reverse(rev.begin(), rev.end());
  if (rev != fwd) {
    j.fail("reverse post order", s.str());
  }
}

inline void runSCCs(const Judge &j, const DSystem &s, const std::map<Inst, std::set<Inst>> &deps) {
  auto reach = closure(deps);
  std::vector<DEq> eqs = s.eqs;
  std::vector<DEq *> ptrs;
  for (auto &e : eqs) {
    ptrs.push_back(&e);
  }
  std::map<int64_t, std::set<int64_t>> g;
  for (auto &d : deps) {
    g[d.first.first];
    for (auto &t : d.second) {
      g[d.first.first].insert(t.first);
    }
  }
  auto areach = closure(g);
  DepGraph graph(mctx());
  graph.addEquations(ptrs);
  j.step();
  auto sccs = graph.getSCCs();
  std::map<Inst, int> owner;
  std::string txt;
  int k = 0;
  for (auto &scc : sccs) {
    txt += " [";
    std::set<int64_t> ids;
    for (auto &v : scc) {
      int64_t id = graph[*v]->id;
      ids.insert(id);
      auto pts = points(v.getIndices());
      txt += " e" + std::to_string(id) + setStr(pts);
      for (auto &p : pts) {
        if (!deps.count({id, p})) {
          j.fail("scc unknown", s.str() + "=>" + txt);
          return;
        }
        if (!owner.insert({{id, p}, k}).second) {
          j.fail("scc overlap", s.str() + "=>" + txt);
          return;
        }
      }
    }
    for (auto a : ids) {
      for (auto b : ids) {
        if (a != b && !(areach[a].count(b) && areach[b].count(a))) {
          j.fail("scc joins independent equations", s.str() + "=>" + txt);
        }
      }
    }
    txt += " ]";
    ++k;
  }
  if (owner.size() != deps.size()) {
    j.fail("scc missing", s.str() + "=>" + txt);
    return;
  }
  std::map<int, std::set<int>> quotient;
  for (auto &d : deps) {
    for (auto &t : d.second) {
      if (reach[t].count(d.first) && owner[d.first] != owner[t]) {
        j.fail("scc splits a cycle", s.str() + "=>" + txt);
        return;
      }
      if (owner[d.first] != owner[t]) {
        quotient[owner[d.first]].insert(owner[t]);
      }
    }
  }
  for (auto &q : closure(quotient)) {
    if (q.second.count(q.first)) {
      j.fail("scc cannot be ordered", s.str() + "=>" + txt);
      return;
    }
  }
  j.outcome(std::to_string(sccs.size()) + " components");
}
} // namespace dg
#endif

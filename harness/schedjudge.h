// Simulates the schedules of a matched system.
#ifndef VERIF_SCHEDJUDGE_H
#define VERIF_SCHEDJUDGE_H
#include "depjudge.h"

namespace dg {
struct MySCC {
  std::vector<DEq *> eqs;
  std::map<DEq *, std::vector<DEq *>> deps;
};
} // namespace dg

namespace marco::modeling::dependency {
template <>
struct SCCTraits<dg::MySCC *> {
  using ElementRef = dg::DEq *;
  static std::vector<ElementRef> getElements(dg::MySCC *const *s) { return (*s)->eqs; }
  static std::vector<ElementRef> getDependencies(dg::MySCC *const *s, ElementRef e) { return (*s)->deps.at(e); }
};
} // namespace marco::modeling::dependency

namespace dg {
using Sched = marco::modeling::Scheduler<DVar *, MySCC *>;
using Dir = marco::modeling::scheduling::Direction;

// Does an instance of a read something written by an instance of b?
inline bool reads(const DEq &a, const DEq &b) {
  for (auto &r : a.reads) {
    if (r.var != b.write.var) {
      continue;
    }
    std::set<Pt> w;
    for (auto &p : b.indices) {
      auto img = b.write.fn.eval(p);
      w.insert(img.begin(), img.end());
    }
    for (auto &p : a.indices) {
      for (auto &q : r.fn.eval(p)) {
        if (w.count(q)) {
          return true;
        }
      }
    }
  }
  return false;
}

// The instances of a range-scheduled equation, in the order of the loop nest.
inline std::vector<Pt> loopOrder(const PtSet &idx, const std::vector<bool> &backward) {
  std::vector<Pt> r(idx.begin(), idx.end());
  std::sort(r.begin(), r.end(), [&](const Pt &a, const Pt &b) {
    for (size_t i = 0; i < a.size(); ++i) {
      if (a[i] != b[i]) {
        return backward[i] ? a[i] > b[i] : a[i] < b[i];
      }
    }
    return false;
  });
  return r;
}

inline void check(const Judge &j, const DSystem &s, const std::map<Inst, std::set<Inst>> &deps, std::vector<MySCC *> sccs,
                  const std::map<DEq *, int64_t> &original, const std::string &mode) {
  j.step();
  std::map<Inst, int> comp;
  std::map<int, bool> multi;
  int k = 0;
  for (auto *c : sccs) {
    for (auto *e : c->eqs) {
      for (auto &p : e->indices) {
        comp[{original.at(e), p}] = k;
      }
    }
    multi[k++] = c->eqs.size() > 1;
  }
  auto sched = Sched(mctx()).schedule(sccs);
  std::set<Inst> done;
  std::string txt = " [" + mode + "]";
  std::string shape;
  auto once = [&](const Inst &i) {
    if (!deps.count(i)) {
      j.fail("unknown instance", s.str() + "=>" + txt);
      return false;
    }
    if (!done.insert(i).second) {
      j.fail("scheduled twice", s.str() + "=>" + txt);
      return false;
    }
    return true;
  };
  auto ready = [&](const Inst &i, const std::set<Inst> &computed) {
    for (auto &d : deps.at(i)) {
      if (d == i || computed.count(d)) {
        continue;
      }
      if (comp.at(d) == comp.at(i) && multi[comp.at(i)]) {
        continue;
      }
      return std::optional<Inst>(d);
    }
    return std::optional<Inst>();
  };
  auto reach = closure(deps);
  for (auto &g : sched) {
    txt += " {";
    std::vector<std::pair<int64_t, PtSet>> parts;
    std::vector<std::vector<Dir>> dirs;
    for (auto &e : g) {
      PtSet pts = points(e.getIndexes());
      int64_t id = original.at(e.getEquation());
      parts.push_back({id, pts});
      dirs.push_back(std::vector<Dir>(e.getIterationDirections().begin(), e.getIterationDirections().end()));
      txt += " e" + std::to_string(id) + setStr(pts);
      for (auto d : dirs.back()) {
        char c = d == Dir::Any ? 'A' : d == Dir::Forward ? 'F' : d == Dir::Backward ? 'B' : 'U';
        txt += c;
        shape += c;
      }
    }
    shape += ";";
    txt += " }";
    for (size_t k2 = 0; k2 < parts.size(); ++k2) {
      if (dirs[k2].size() != parts[k2].second.begin()->size()) {
        j.fail("directions", s.str() + "=>" + txt);
        return;
      }
    }
    bool unknown = false;
    for (auto &d : dirs) {
      for (auto x : d) {
        unknown |= x == Dir::Unknown;
      }
    }
    if (parts.size() > 1 || unknown) {
      // A cycle, computed at once.
      std::set<Inst> computed = done;
      for (auto &p : parts) {
        for (auto &q : p.second) {
          computed.insert({p.first, q});
        }
      }
      for (auto &p : parts) {
        for (auto &q : p.second) {
          if (!once({p.first, q})) {
            return;
          }
          if (auto d = ready({p.first, q}, computed)) {
            j.fail("component too early", s.str() + "=>" + txt + " " + instStr({p.first, q}) + " needs " + instStr(*d));
            return;
          }
          // Unordered computation is allowed within a cycle of equations only.
          if (parts.size() == 1 && !multi[comp.at({p.first, q})]) {
            j.fail("unordered", s.str() + "=>" + txt);
            return;
          }
        }
      }
      continue;
    }
    // A loop nest: try all the directions that are allowed.
    size_t rank = dirs[0].size();
    for (uint64_t m = 0; m < (1ull << rank); ++m) {
      std::vector<bool> backward;
      bool ok = true;
      for (size_t i = 0; i < rank; ++i) {
        bool b = m >> i & 1;
        ok &= !(b && dirs[0][i] == Dir::Forward) && !(!b && dirs[0][i] == Dir::Backward);
        backward.push_back(b);
      }
      if (!ok) {
        continue;
      }
      std::set<Inst> computed = done;
      for (auto &p : loopOrder(parts[0].second, backward)) {
        Inst i{parts[0].first, p};
        if (!deps.count(i)) {
          j.fail("unknown instance", s.str() + "=>" + txt);
          return;
        }
        if (auto d = ready(i, computed)) {
          // A cycle among the instances of one equation can't be ordered.
          if (!(reach[*d].count(i))) {
            j.fail("order", s.str() + "=>" + txt + " " + instStr(i) + " needs " + instStr(*d));
            return;
          }
        }
        computed.insert(i);
      }
    }
    for (auto &p : parts[0].second) {
      if (!once({parts[0].first, p})) {
        return;
      }
    }
  }
  if (done.size() != deps.size()) {
    j.fail("missing", s.str() + "=>" + txt);
  }
  j.outcome(shape);
}

inline void runSchedule(const Judge &j, const DSystem &s, bool pieces) {
  auto deps = s.deps();
  std::vector<DEq> eqs = s.eqs;
  std::vector<DEq *> ptrs;
  for (auto &e : eqs) {
    ptrs.push_back(&e);
  }
  std::list<DEq> storage;
  std::list<MySCC> sccs;
  std::map<DEq *, int64_t> original;
  auto add = [&](MySCC &c, const DEq &e, PtSet idx) {
    storage.push_back(e);
    storage.back().indices = idx;
    original[&storage.back()] = e.id;
    storage.back().id = storage.size() - 1;
    c.eqs.push_back(&storage.back());
  };
  if (!pieces) {
    ArrayGraph graph(mctx());
    graph.addEquations(ptrs);
    for (auto &scc : graph.getSCCs()) {
      sccs.emplace_back();
      for (auto d : scc) {
        add(sccs.back(), *graph[d], graph[d]->indices);
      }
    }
  } else {
    DepGraph graph(mctx());
    graph.addEquations(ptrs);
    for (auto &scc : graph.getSCCs()) {
      sccs.emplace_back();
      for (auto &v : scc) {
        add(sccs.back(), *graph[*v], points(v.getIndices()));
      }
    }
  }
  for (auto &c : sccs) {
    for (auto *a : c.eqs) {
      auto &row = c.deps[a];
      for (auto &b : storage) {
        if (reads(*a, b)) {
          row.push_back(&b);
        }
      }
    }
  }
  std::vector<MySCC *> order;
  for (auto &c : sccs) {
    order.push_back(&c);
  }
  std::string mode = pieces ? "components" : "array components";
  if (order.size() <= 3) {
    std::sort(order.begin(), order.end());
    do {
      check(j, s, deps, order, original, mode);
    } while (std::next_permutation(order.begin(), order.end()));
  } else {
    check(j, s, deps, order, original, mode);
    std::reverse(order.begin(), order.end());
    check(j, s, deps, order, original, mode);
    std::rotate(order.begin(), order.begin() + 1, order.end());
    check(j, s, deps, order, original, mode);
  }
}
} // namespace dg
#endif

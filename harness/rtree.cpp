// Exhaustive exploration of operation histories on the generic R-tree, against
// a multiset of objects.
#include "mc.h"
#include "marco/Modeling/RTree.h"
#include "llvm/Support/raw_ostream.h"
#include <algorithm>

using namespace marco::modeling;
static mc::Ctx ctx;

struct Obj {
  int id;
  MultidimensionalRange shape;
};

namespace marco::modeling {
template <>
struct RTreeInfo<Obj> {
  static const MultidimensionalRange &getShape(const Obj &o) { return o.shape; }
  static bool isEqual(const Obj &a, const Obj &b) {
    return a.id == b.id && a.shape == b.shape;
  }
};
} // namespace marco::modeling

using Tree = RTree<Obj>;
using Model = std::vector<int>; // how many copies of each object of the pool

struct Pool {
  std::string name;
  std::vector<Obj> objs;
  std::vector<MultidimensionalRange> queries;
};

static MultidimensionalRange mr(std::vector<std::pair<int, int>> v) {
  llvm::SmallVector<Range> r;
  for (auto &p : v) {
    r.push_back(Range(p.first, p.second));
  }
  return MultidimensionalRange(r);
}

#define REQ(cond, what)                                                        \
  do {                                                                         \
    if (!(cond))                                                               \
      return std::string(what);                                                \
  } while (0)

static std::string check(const Pool &pool, Tree &t, const Model &m) {
  Model got(pool.objs.size(), 0);
  size_t n = 0, expected = 0;
  for (const Obj &o : llvm::make_range(t.begin(), t.end())) {
    REQ(o.id >= 0 && o.id < (int)pool.objs.size() &&
            o.shape == pool.objs[o.id].shape,
        "iteration yields an object never inserted");
    ++got[o.id];
    REQ(++n < 1000, "iteration does not end");
  }
  for (int c : m) {
    expected += c;
  }
  REQ(got == m, "iterated objects differ from the inserted ones");
  REQ(t.size() == expected, "size() is wrong");
  REQ(t.empty() == (expected == 0), "empty() is wrong");
  for (size_t i = 0; i < m.size(); ++i) {
    REQ(t.contains(pool.objs[i]) == (m[i] > 0), "contains(object) is wrong");
  }
  for (const auto &q : pool.queries) {
    Model hit(m.size(), 0), hitc(m.size(), 0);
    t.walkOverlappingObjects(q, [&](Obj &o) { ++hit[o.id]; });
    const Tree &ct = t;
    ct.walkOverlappingObjects(q, [&](const Obj &o) { ++hitc[o.id]; });
    for (size_t i = 0; i < m.size(); ++i) {
      int e = pool.objs[i].shape.overlaps(q) ? m[i] : 0;
      REQ(hit[i] == e, "search for the objects overlapping a range is wrong");
      REQ(hitc[i] == e, "const search is wrong");
    }
  }
  return "";
}

struct Op {
  std::string name;
  std::function<void(Tree &, Model &)> run;
};

struct Explorer {
  const Pool &pool;
  std::vector<Op> ops;
  std::string tag;

  std::string history(const std::vector<int> &h) {
    std::string r = tag;
    for (int o : h) {
      r += "; " + ops[o].name;
    }
    return r;
  }
  bool node(Tree &t, const Model &m, const std::vector<int> &h) {
    ++ctx.transitions;
    std::string key = tag;
    for (const Obj &o : llvm::make_range(t.begin(), t.end())) {
      key += (char)o.id;
    }
    ctx.state(key);
    std::string e = check(pool, t, m);
    if (!e.empty()) {
      ctx.fail("tree", history(h) + " => " + e);
      return false;
    }
    return true;
  }
  void dfs(Tree &t, const Model &m, std::vector<int> &h, int depth) {
    if (depth == 0) {
      ++ctx.traces;
      return;
    }
    for (size_t o = 0; o < ops.size(); ++o) {
      Tree c(t);
      Model cm = m;
      h.push_back(o);
      ops[o].run(c, cm);
      if (node(c, cm, h)) {
        dfs(c, cm, h, depth - 1);
      }
      h.pop_back();
    }
    std::string e = check(pool, t, m);
    if (!e.empty()) {
      ctx.fail("alias", history(h) + " => changed through a copy: " + e);
    }
  }
  void explore(const std::function<void(Tree &, Model &)> &init,
               std::pair<int, int> params, int depth) {
    for (size_t o = 0; o < ops.size(); ++o) {
      if (!ctx.take()) {
        continue;
      }
      ctx.describe([&] { return history({(int)o}) + "; ..."; });
      Tree t = makeTree(params);
      Model m(pool.objs.size(), 0);
      init(t, m);
      std::vector<int> h;
      if (o == 0) {
        node(t, m, h);
      }
      h.push_back(o);
      ops[o].run(t, m);
      if (node(t, m, h)) {
        dfs(t, m, h, depth - 1);
      }
    }
  }
  static Tree makeTree(std::pair<int, int> p);
};

// RTree exposes only the default node sizes; the base class takes them.
struct Sized : public Tree {
  Sized(int a, int b) {
    using Base = r_tree::impl::RTreeCRTP<Tree, Obj>;
    Base::operator=(Mk(a, b));
  }
  struct Mk : public r_tree::impl::RTreeCRTP<Tree, Obj> {
    Mk(int a, int b) : r_tree::impl::RTreeCRTP<Tree, Obj>(a, b) {}
  };
};

Tree Explorer::makeTree(std::pair<int, int> p) {
  if (p.first == 0) {
    return Tree();
  }
  return Tree(Sized(p.first, p.second));
}

static std::vector<Op> makeOps(const Pool &pool, const std::vector<int> &ids,
                               bool trees) {
  std::vector<Op> ops;
  for (int i : ids) {
    Obj o = pool.objs[i];
    ops.push_back({"insert #" + std::to_string(i), [=](Tree &t, Model &m) {
                     if (m[i] < 2) {
                       t.insert(o);
                       ++m[i];
                     }
                   }});
    ops.push_back({"remove #" + std::to_string(i), [=](Tree &t, Model &m) {
                     t.remove(o);
                     m[i] = 0;
                   }});
  }
  if (trees) {
    for (int k = 0; k < 3; ++k) {
      auto sub = std::make_shared<Tree>();
      std::string n;
      std::vector<int> sm(pool.objs.size(), 0);
      for (size_t i = 0; i < pool.objs.size(); ++i) {
        if ((int)(i % 3) >= k) {
          sub->insert(pool.objs[i]);
          sm[i] = 1;
          n += " " + std::to_string(i);
        }
      }
      ops.push_back({"insert tree" + n, [=](Tree &t, Model &m) {
                       for (size_t i = 0; i < m.size(); ++i) {
                         if (sm[i] && m[i] >= 2) {
                           return;
                         }
                       }
                       t.insert(*sub);
                       for (size_t i = 0; i < m.size(); ++i) {
                         m[i] += sm[i];
                       }
                     }});
      ops.push_back({"remove tree" + n, [=](Tree &t, Model &m) {
                       t.remove(*sub);
                       for (size_t i = 0; i < m.size(); ++i) {
                         if (sm[i]) {
                           m[i] = 0;
                         }
                       }
                     }});
    }
    ops.push_back({"clear", [](Tree &t, Model &m) {
                     t.clear();
                     m.assign(m.size(), 0);
                   }});
    ops.push_back({"remove itself", [](Tree &t, Model &m) {
                     Tree &u = t;
                     t.remove(u);
                     m.assign(m.size(), 0);
                   }});
    ops.push_back({"remove its own first object", [](Tree &t, Model &m) {
                     if (!t.empty()) {
                       const Obj &o = *t.begin();
                       int id = o.id;
                       t.remove(o);
                       m[id] = 0;
                     }
                   }});
    ops.push_back({"move out and back", [](Tree &t, Model &m) {
                     Tree u(std::move(t));
                     t = std::move(u);
                   }});
    ops.push_back({"assign itself", [](Tree &t, Model &m) {
                     Tree &u = t;
                     t = u;
                   }});
    ops.push_back({"equality with a copy", [](Tree &t, Model &m) {
                     Tree u(t);
                     if (!(u == t) || u != t || !u.contains(t)) {
                       m[0] = -1; // reported by the next check
                     }
                   }});
  }
  return ops;
}

int main(int argc, char **argv) {
  ctx.parse(argc, argv);
  bool th = ctx.thorough;
  std::vector<std::pair<int, int>> params = {{1, 2}, {1, 3}, {2, 4}, {2, 5}, {3, 6}};

  Pool line{"line", {}, {}};
  for (int i = 0; i < 10; ++i) {
    // Overlapping, nested, equal and isolated shapes.
    static const std::pair<int, int> s[] = {{0, 1},  {0, 4},  {2, 3}, {2, 3},
                                            {3, 9},  {5, 6},  {8, 12}, {-4, 13},
                                            {-4, -3}, {11, 12}};
    line.objs.push_back({i, mr({s[i]})});
  }
  for (int a = -5; a < 14; a += 2) {
    line.queries.push_back(mr({{a, a + 1}}));
    line.queries.push_back(mr({{a, a + 3}}));
  }
  Pool plane{"plane", {}, {}};
  for (int i = 0; i < 36; ++i) {
    int x = (i * 7) % 6, y = (i * 5) / 6 % 6;
    plane.objs.push_back(
        {i, mr({{x * 2, x * 2 + 1 + i % 3}, {y * 2, y * 2 + 1 + (i / 3) % 2}})});
  }
  for (int a = -1; a < 14; a += 3) {
    for (int b = -1; b < 14; b += 4) {
      plane.queries.push_back(mr({{a, a + 2}, {b, b + 1}}));
      plane.queries.push_back(mr({{a, a + 5}, {b, b + 5}}));
    }
  }

  ctx.suite("from-empty");
  std::vector<int> few = {0, 1, 2, 3, 4, 7};
  for (auto p : params) {
    Explorer e{line, makeOps(line, few, false),
               "line tree(" + std::to_string(p.first) + "," +
                   std::to_string(p.second) + ")"};
    e.explore([](Tree &, Model &) {}, p, th ? 6 : 4);
    Explorer f{line, makeOps(line, {0, 3, 8}, true), e.tag};
    f.explore([](Tree &, Model &) {}, p, th ? 4 : 3);
  }

  // Populated trees; the removal orders are explored exhaustively up to the
  // depth, from several insertion orders and tree sizes.
  ctx.suite("populated");
  for (auto p : std::vector<std::pair<int, int>>{{1, 2}, {1, 3}, {2, 4}, {3, 6}, {0, 0}}) {
    for (int n : {8, 14, 20, 36}) {
      for (int stride : {1, 5, 7, 11}) {
        std::vector<int> sel;
        for (int i = 0; i < n; i += std::max(1, n / (th ? 12 : 7))) {
          sel.push_back(i);
        }
        Explorer e{plane, makeOps(plane, sel, true),
                   "plane tree(" + std::to_string(p.first) + "," +
                       std::to_string(p.second) + ") with " + std::to_string(n) +
                       " objects, stride " + std::to_string(stride)};
        e.explore(
            [&](Tree &t, Model &m) {
              for (int i = 0; i < n; ++i) {
                int id = (i * stride) % n;
                if (n % stride == 0 && stride > 1) {
                  id = n - 1 - i;
                }
                t.insert(plane.objs[id]);
                ++m[id];
              }
            },
            p, th ? 3 : 2);
        // Remove everything but in every rotation of two orders.
        for (int rot = 0; rot < n; ++rot) {
          if (!ctx.take()) {
            continue;
          }
          ctx.describe([&] { return e.tag + " removal rotation " + std::to_string(rot); });
          for (int dir = 0; dir < 2; ++dir) {
            Tree t = Explorer::makeTree(p);
            Model m(plane.objs.size(), 0);
            for (int i = 0; i < n; ++i) {
              t.insert(plane.objs[i]);
              ++m[i];
            }
            for (int i = 0; i < n; ++i) {
              int id = dir ? (rot + i * 5) % n : (rot + n - i) % n;
              if (n % 5 == 0) {
                id = (rot + i) % n;
              }
              t.remove(plane.objs[id]);
              m[id] = 0;
              ++ctx.transitions;
              std::string err = check(plane, t, m);
              if (!err.empty()) {
                ctx.fail("tree", e.tag + " removal rotation " +
                                     std::to_string(rot) + " dir " +
                                     std::to_string(dir) + " step " +
                                     std::to_string(i) + " => " + err);
                break;
              }
            }
            ++ctx.traces;
          }
        }
      }
    }
  }
  return ctx.finish();
}

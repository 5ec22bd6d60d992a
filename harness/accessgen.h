// Shared by the access function harnesses: a small expression grammar with an
// independent evaluator.
#ifndef VERIF_ACCESSGEN_H
#define VERIF_ACCESSGEN_H
#include "mc.h"
#include "marco/Modeling/AccessFunction.h"
#include "marco/Modeling/AccessFunctionConstant.h"
#include "marco/Modeling/DimensionAccessAdd.h"
#include "marco/Modeling/DimensionAccessConstant.h"
#include "marco/Modeling/DimensionAccessDimension.h"
#include "marco/Modeling/DimensionAccessDiv.h"
#include "marco/Modeling/DimensionAccessIndices.h"
#include "marco/Modeling/DimensionAccessMul.h"
#include "marco/Modeling/DimensionAccessRange.h"
#include "marco/Modeling/DimensionAccessSub.h"
#include "mlir/IR/AffineExpr.h"
#include "mlir/IR/AffineMap.h"
#include "mlir/IR/MLIRContext.h"
#include "llvm/Support/raw_ostream.h"
#include <memory>
#include <set>

namespace ag {
using namespace marco::modeling;
using Pt = std::vector<int64_t>;
using PtSet = std::set<Pt>;

inline mlir::MLIRContext *mctx() {
  static mlir::MLIRContext *c =
      new mlir::MLIRContext(mlir::MLIRContext::Threading::DISABLED);
  return c;
}

inline int64_t floorDiv(int64_t a, int64_t b) {
  int64_t q = a / b;
  return (a % b != 0 && ((a < 0) != (b < 0))) ? q - 1 : q;
}

struct Space {
  std::shared_ptr<IndexSet> set;
  std::vector<Pt> points;
  std::string name;
};

inline std::string ptStr(const Pt &p) {
  std::string s = "(";
  for (size_t i = 0; i < p.size(); ++i) {
    s += (i ? "," : "") + std::to_string(p[i]);
  }
  return s + ")";
}
inline std::string setStr(const PtSet &s) {
  std::string r = "{";
  for (auto &p : s) {
    r += ptStr(p);
  }
  return r + "}";
}

struct E;
using EP = std::shared_ptr<const E>;
struct E {
  enum K { Const, Dim, Add, Sub, Mul, Div, Rng, Ind } k;
  int64_t a = 0, b = 0;
  EP l, r;
  Space *space = nullptr;
  std::vector<uint64_t> deps;

  std::string str() const {
    switch (k) {
    case Const: return std::to_string(a);
    case Dim: return "d" + std::to_string(a);
    case Add: return "(" + l->str() + "+" + r->str() + ")";
    case Sub: return "(" + l->str() + "-" + r->str() + ")";
    case Mul: return "(" + l->str() + "*" + r->str() + ")";
    case Div: return "(" + l->str() + "/" + r->str() + ")";
    case Rng: return "[" + std::to_string(a) + "," + std::to_string(b) + ")";
    case Ind: {
      std::string s = space->name + "[" + std::to_string(a) + "]";
      for (auto d : deps) {
        s += "~" + std::to_string(d);
      }
      return s;
    }
    }
    return "?";
  }
  bool multi() const {
    if (k == Rng || k == Ind) {
      return true;
    }
    return (l && l->multi()) || (r && r->multi());
  }
  void dims(std::vector<int> &uses) const {
    if (k == Dim) {
      if ((int)uses.size() <= a) {
        uses.resize(a + 1);
      }
      ++uses[a];
    }
    if (l) {
      l->dims(uses);
    }
    if (r) {
      r->dims(uses);
    }
  }
  void jointSpaces(std::set<Space *> &s) const {
    if (k == Ind && !deps.empty()) {
      s.insert(space);
    }
    if (l) {
      l->jointSpaces(s);
    }
    if (r) {
      r->jointSpaces(s);
    }
  }
  // All the values the expression can take.
  std::set<int64_t> eval(const Pt &p,
                         const std::map<Space *, Pt> &env) const {
    std::set<int64_t> res;
    switch (k) {
    case Const: res.insert(a); return res;
    case Dim: res.insert(p[a]); return res;
    case Rng:
      for (int64_t i = a; i < b; ++i) {
        res.insert(i);
      }
      return res;
    case Ind:
      if (deps.empty()) {
        for (auto &q : space->points) {
          res.insert(q[a]);
        }
      } else {
        res.insert(env.at(space)[a]);
      }
      return res;
    default: break;
    }
    for (int64_t x : l->eval(p, env)) {
      for (int64_t y : r->eval(p, env)) {
        switch (k) {
        case Add: res.insert(x + y); break;
        case Sub: res.insert(x - y); break;
        case Mul: res.insert(x * y); break;
        case Div: res.insert(floorDiv(x, y)); break;
        default: break;
        }
      }
    }
    return res;
  }
  std::unique_ptr<DimensionAccess> build() const {
    mlir::MLIRContext *c = mctx();
    switch (k) {
    case Const: return std::make_unique<DimensionAccessConstant>(c, a);
    case Dim: return std::make_unique<DimensionAccessDimension>(c, a);
    case Rng: return std::make_unique<DimensionAccessRange>(c, Range(a, b));
    case Ind: {
      llvm::SetVector<uint64_t> d;
      for (auto x : deps) {
        d.insert(x);
      }
      return std::make_unique<DimensionAccessIndices>(c, space->set, a, d);
    }
    case Add: return *l->build() + *r->build();
    case Sub: return *l->build() - *r->build();
    case Mul: return *l->build() * *r->build();
    case Div: return *l->build() / *r->build();
    }
    return nullptr;
  }
  mlir::AffineExpr affine() const {
    mlir::MLIRContext *c = mctx();
    switch (k) {
    case Const: return mlir::getAffineConstantExpr(a, c);
    case Dim: return mlir::getAffineDimExpr(a, c);
    case Add: return l->affine() + r->affine();
    case Sub: return l->affine() - r->affine();
    case Mul: return l->affine() * r->affine();
    case Div: return l->affine().floorDiv(r->affine());
    default: return {};
    }
  }
};

inline EP C(int64_t v) { E e{E::Const}; e.a = v; return std::make_shared<E>(e); }
inline EP D(int64_t v) { E e{E::Dim}; e.a = v; return std::make_shared<E>(e); }
inline EP R(int64_t a, int64_t b) { E e{E::Rng}; e.a = a; e.b = b; return std::make_shared<E>(e); }
inline EP I(Space *s, uint64_t dim, std::vector<uint64_t> deps = {}) {
  E e{E::Ind};
  e.space = s;
  e.a = dim;
  e.deps = deps;
  return std::make_shared<E>(e);
}
inline EP bin(E::K k, EP l, EP r) { E e{k}; e.l = l; e.r = r; return std::make_shared<E>(e); }
inline EP operator+(EP l, EP r) { return bin(E::Add, l, r); }
inline EP operator-(EP l, EP r) { return bin(E::Sub, l, r); }
inline EP operator*(EP l, EP r) { return bin(E::Mul, l, r); }
inline EP operator/(EP l, EP r) { return bin(E::Div, l, r); }

struct Fn {
  unsigned dims;
  std::vector<EP> res;
  bool multi() const {
    for (auto &r : res) {
      if (r->multi()) {
        return true;
      }
    }
    return false;
  }
  std::string str() const {
    std::string s = "(";
    for (unsigned i = 0; i < dims; ++i) {
      s += (i ? ",d" : "d") + std::to_string(i);
    }
    s += ")->(";
    for (size_t i = 0; i < res.size(); ++i) {
      s += (i ? ", " : "") + res[i]->str();
    }
    return s + ")";
  }
  PtSet eval(const Pt &p) const {
    std::set<Space *> joint;
    for (auto &r : res) {
      r->jointSpaces(joint);
    }
    std::vector<std::map<Space *, Pt>> envs{{}};
    for (Space *s : joint) {
      std::vector<std::map<Space *, Pt>> next;
      for (auto &e : envs) {
        for (auto &q : s->points) {
          auto n = e;
          n[s] = q;
          next.push_back(n);
        }
      }
      envs = next;
    }
    PtSet out;
    for (auto &env : envs) {
      std::vector<Pt> cur{{}};
      for (auto &r : res) {
        std::vector<Pt> next;
        for (int64_t v : r->eval(p, env)) {
          for (auto &c : cur) {
            Pt n = c;
            n.push_back(v);
            next.push_back(n);
          }
        }
        cur = next;
      }
      out.insert(cur.begin(), cur.end());
    }
    return out;
  }
  std::unique_ptr<AccessFunction> build() const {
    llvm::SmallVector<std::unique_ptr<DimensionAccess>> r;
    for (auto &e : res) {
      r.push_back(e->build());
    }
    return AccessFunction::build(mctx(), dims, r);
  }
};

inline PtSet points(const IndexSet &s) {
  PtSet r;
  for (Point p : s) {
    r.insert(Pt(p.begin(), p.end()));
  }
  return r;
}
inline Point toPoint(const Pt &p) { return Point(llvm::ArrayRef<int64_t>(p)); }
inline IndexSet toSet(const PtSet &s) {
  llvm::SmallVector<Point> v;
  for (auto &p : s) {
    v.push_back(toPoint(p));
  }
  return IndexSet(v);
}

// A grid of points [lo, lo+ext) per dimension.
inline std::vector<Pt> grid(const std::vector<std::pair<int, int>> &ext) {
  std::vector<Pt> r{{}};
  for (auto &e : ext) {
    std::vector<Pt> n;
    for (auto &p : r) {
      for (int v = e.first; v < e.second; ++v) {
        Pt q = p;
        q.push_back(v);
        n.push_back(q);
      }
    }
    r = n;
  }
  return r;
}
inline PtSet subset(const std::vector<Pt> &g, uint64_t mask) {
  PtSet r;
  for (size_t i = 0; i < g.size(); ++i) {
    if (mask >> i & 1) {
      r.insert(g[i]);
    }
  }
  return r;
}

// Iteration spaces used by the grammar.
struct Spaces {
  Space s1, diag, ell, line3;
  Spaces() {
    mk(s1, "S", {{0}, {2}});
    mk(diag, "Dg", {{0, 1}, {1, 0}});
    mk(ell, "L", {{0, 0}, {0, 1}, {1, 0}});
    mk(line3, "T", {{0, 2, 1}, {1, 1, 0}});
  }
  static void mk(Space &s, const char *n, std::vector<Pt> p) {
    s.name = n;
    s.points = p;
    s.set = std::make_shared<IndexSet>(toSet(PtSet(p.begin(), p.end())));
  }
};

// Single-valued expressions over the given number of dimensions.
inline std::vector<EP> singles(unsigned dims, bool rich) {
  std::vector<EP> r{C(0), C(2), C(-1)};
  for (unsigned i = 0; i < dims; ++i) {
    EP d = D(i);
    r.push_back(d);
    r.push_back(d + C(1));
    r.push_back(d - C(2));
    r.push_back(d * C(2));
    r.push_back(d / C(2));
    if (rich) {
      r.push_back(C(3) + d);
      r.push_back(C(1) - d);
      r.push_back(d * C(-1));
      r.push_back(d * C(2) + C(1));
      r.push_back((d - C(3)) / C(2));
      r.push_back((d + C(1)) * C(2));
      r.push_back(d - (d / C(2)) * C(2));
      r.push_back(d * C(3) / C(2));
    }
  }
  if (dims >= 2) {
    r.push_back(D(0) + D(1));
    r.push_back(D(0) - D(1));
    if (rich) {
      r.push_back((D(0) + D(1)) / C(2));
      r.push_back(D(0) * C(2) + D(1));
      r.push_back(D(1) + D(0) - C(1));
    }
  }
  return r;
}

inline std::vector<EP> multis(unsigned dims, Spaces &s) {
  std::vector<EP> r{R(0, 2), R(2, 5), R(1, 2), I(&s.s1, 0), I(&s.ell, 1),
                    I(&s.diag, 0), R(0, 2) * C(2), R(-3, 1) / C(2),
                    R(0, 2) + R(0, 2), R(0, 2) - I(&s.s1, 0)};
  if (dims) {
    r.push_back(D(0) + R(0, 2));
    r.push_back(D(0) - R(0, 2));
    r.push_back(R(0, 3) + D(0) * C(2));
    r.push_back((D(0) + R(0, 2)) / C(2));
    r.push_back(D(dims - 1) + I(&s.s1, 0));
  }
  return r;
}
} // namespace ag
#endif

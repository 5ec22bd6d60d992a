// Access functions: evaluation, images, inverses, inverse images and equality,
// for every expression tuple of a small grammar, against direct evaluation.
#include "accessgen.h"
using namespace ag;
static mc::Ctx ctx;

static void checkIdentityFlags(const Fn &f, const AccessFunction &a,
                               const std::vector<Pt> &g) {
  if (a.getNumOfDims() != f.dims || a.getNumOfResults() != f.res.size()) {
    ctx.fail("shape", f.str() + " => wrong number of dimensions or results");
  }
  bool constant = true, identity = f.res.size() == f.dims;
  PtSet first;
  bool have = false;
  for (auto &p : g) {
    PtSet v = f.eval(p);
    if (!have) {
      first = v;
      have = true;
    }
    constant &= v == first;
    identity = identity && v == PtSet{p};
  }
  if (a.isConstant() && !constant) {
    ctx.fail("isConstant", f.str() + " => isConstant() but the value depends on the point");
  }
  bool syntConst = true;
  for (auto &r : f.res) {
    syntConst &= r->k == E::Const || r->k == E::Rng || r->k == E::Ind;
  }
  if (syntConst && !a.isConstant()) {
    ctx.fail("isConstant", f.str() + " => constant access not recognised");
  }
  if (a.isIdentity() && !identity) {
    ctx.fail("isIdentity", f.str() + " => isIdentity() but it is not the identity");
  }
  bool syntId = f.dims == f.res.size();
  for (size_t i = 0; i < f.res.size(); ++i) {
    syntId = syntId && f.res[i]->k == E::Dim && f.res[i]->a == (int64_t)i;
  }
  if (syntId && f.dims > 0 && !a.isIdentity()) {
    ctx.fail("isIdentity", f.str() + " => identity access not recognised");
  }
  if (a.isAffine()) {
    mlir::AffineMap m = a.getAffineMap();
    for (auto &p : g) {
      auto v = m.compose(llvm::ArrayRef<int64_t>(p));
      if (PtSet{Pt(v.begin(), v.end())} != f.eval(p)) {
        ctx.fail("affine map", f.str() + " => the affine map evaluates differently");
        break;
      }
    }
  } else if (!f.multi()) {
    ctx.fail("affine map", f.str() + " => not recognised as affine");
  }
}

static void checkInverse(const Fn &f, const AccessFunction &a,
                         const std::vector<Pt> &g) {
  bool perm = f.dims == f.res.size() && f.dims > 0;
  std::set<int64_t> seen;
  for (auto &r : f.res) {
    const E *e = r.get();
    if ((e->k == E::Add || e->k == E::Sub) && e->l->k == E::Dim && e->r->k == E::Const) {
      e = e->l.get();
    } else if (e->k == E::Add && e->r->k == E::Dim && e->l->k == E::Const) {
      e = e->r.get();
    }
    perm = perm && e->k == E::Dim && seen.insert(e->a).second;
  }
  if (perm && !a.isInvertible()) {
    ctx.fail("isInvertible", f.str() + " => not recognised as invertible");
    return;
  }
  auto inv = a.inverse();
  if (a.isInvertible() != (inv != nullptr)) {
    ctx.fail("isInvertible", f.str() + " => isInvertible() and inverse() disagree");
  }
  if (!inv) {
    return;
  }
  for (auto &p : g) {
    PtSet v = f.eval(p);
    if (v.size() != 1) {
      ctx.fail("inverse", f.str() + " => invertible although not a function");
      return;
    }
    if (points(inv->map(toPoint(*v.begin()))) != PtSet{p}) {
      ctx.fail("inverse", f.str() + " => the inverse maps the image of " + ptStr(p) + " elsewhere");
      return;
    }
    if (points(a.map(inv->map(toPoint(p)))) != PtSet{p}) {
      ctx.fail("inverse", f.str() + " => mapping the inverse image of " + ptStr(p) + " leads elsewhere");
      return;
    }
  }
}

static void checkMaps(const Fn &f, const AccessFunction &a,
                      const std::vector<Pt> &g, const std::string &tag) {
  for (auto &p : g) {
    ++ctx.transitions;
    IndexSet r = a.map(toPoint(p));
    if (points(r) != f.eval(p)) {
      ctx.fail("map point", f.str() + tag + " at " + ptStr(p) + " => got " +
                                setStr(points(r)) + " expected " + setStr(f.eval(p)));
      return;
    }
  }
}

static void checkSets(const Fn &f, const AccessFunction &a,
                      const std::vector<Pt> &g,
                      const std::vector<uint64_t> &masks,
                      const std::vector<uint64_t> &parents, bool inverse) {
  PtSet image;
  std::vector<PtSet> values;
  for (auto &p : g) {
    values.push_back(f.eval(p));
    image.insert(values.back().begin(), values.back().end());
  }
  for (uint64_t m : masks) {
    ++ctx.transitions;
    PtSet dom = subset(g, m), exp;
    for (size_t i = 0; i < g.size(); ++i) {
      if (m >> i & 1) {
        exp.insert(values[i].begin(), values[i].end());
      }
    }
    if (dom.empty() && f.dims == 0) {
      continue;
    }
    IndexSet r = a.map(toSet(dom));
    ctx.state(setStr(exp) + f.str());
    if (points(r) != exp || (uint64_t)r.size() != exp.size()) {
      ctx.fail("map set", f.str() + " over " + setStr(dom) + " => got " +
                              setStr(points(r)) + " expected " + setStr(exp));
      return;
    }
  }
  if (!inverse || f.multi()) {
    return;
  }
  // One accessed point may be out of the image.
  std::vector<Pt> acc(image.begin(), image.end());
  if (acc.empty()) {
    return;
  }
  Pt outside = acc.back();
  outside.back() += 1;
  acc.push_back(outside);
  uint64_t na = acc.size() > 7 ? 7 : acc.size();
  for (uint64_t am = 0; am < (1ull << na); ++am) {
    PtSet accessed;
    for (size_t i = 0; i < na; ++i) {
      if (am >> i & 1) {
        accessed.insert(acc[acc.size() - 1 - i]);
      }
    }
    IndexSet accSet = toSet(accessed);
    for (uint64_t pm : parents) {
      ++ctx.transitions;
      PtSet parent = subset(g, pm), exp;
      for (size_t i = 0; i < g.size(); ++i) {
        if ((pm >> i & 1) && accessed.count(*values[i].begin())) {
          exp.insert(g[i]);
        }
      }
      IndexSet r = a.inverseMap(accSet, toSet(parent));
      if (points(r) != exp || (uint64_t)r.size() != exp.size()) {
        ctx.fail("inverse map", f.str() + " accessed " + setStr(accessed) +
                                    " parent " + setStr(parent) + " => got " +
                                    setStr(points(r)) + " expected " + setStr(exp));
        return;
      }
      ctx.progress();
    }
  }
}

struct Built {
  Fn f;
  std::unique_ptr<AccessFunction> a;
  std::vector<PtSet> table;
};

static void run(const Fn &f, const std::vector<Pt> &g, const std::vector<Pt> &eval,
                const std::vector<uint64_t> &masks,
                const std::vector<uint64_t> &parents, bool inverse) {
  if (!ctx.take()) {
    return;
  }
  ctx.describe([&] { return f.str(); });
  ++ctx.traces;
  auto a = f.build();
  checkIdentityFlags(f, *a, eval);
  checkInverse(f, *a, eval);
  checkMaps(f, *a, eval, "");
  checkMaps(f, *a->clone(), eval, " cloned");
  if (f.dims > 0) {
    auto wider = a->getWithGivenDimensions(f.dims + 1);
    std::vector<Pt> ext;
    for (auto p : eval) {
      p.push_back(7);
      ext.push_back(p);
    }
    checkMaps(f, *wider, ext, " with one more dimension");
    if (wider->getNumOfDims() != f.dims + 1) {
      ctx.fail("shape", f.str() + " => getWithGivenDimensions ignored");
    }
  }
  if (!f.multi()) {
    llvm::SmallVector<mlir::AffineExpr> ex;
    for (auto &r : f.res) {
      ex.push_back(r->affine());
    }
    auto b = AccessFunction::build(mlir::AffineMap::get(f.dims, 0, ex, mctx()));
    checkMaps(f, *b, eval, " from affine map");
  }
  if (*a != *a->clone() || !(*a == *a->clone())) {
    ctx.fail("equality", f.str() + " => differs from its clone");
  }
  auto again = f.build();
  if (!(*a == *again) || *a != *again) {
    ctx.fail("equality", f.str() + " => two accesses built alike are different");
  }
  auto gen = a->getGeneralizedAccesses();
  auto rebuilt = AccessFunction::build(mctx(), f.dims, gen);
  checkMaps(f, *rebuilt, eval, " rebuilt from its generalised accesses");
  checkSets(f, *a, g, masks, parents, inverse);
  ctx.outcome("kind " + std::to_string((int)a->getKind()));
}

static std::vector<uint64_t> allMasks(size_t n) {
  std::vector<uint64_t> r;
  for (uint64_t m = 0; m < (1ull << n); ++m) {
    r.push_back(m);
  }
  return r;
}

static void equality(const std::vector<Fn> &fns, const std::vector<std::vector<Pt>> &grids) {
  std::vector<Built> b;
  bool prepared = false;
  for (size_t i = 0; i < fns.size(); ++i) {
    if (!ctx.take()) {
      continue;
    }
    ctx.describe([&] { return "equality of " + fns[i].str() + " with all the others"; });
    if (!prepared) {
      for (auto &f : fns) {
        Built x;
        x.f = f;
        x.a = f.build();
        for (auto &p : grids[f.dims]) {
          x.table.push_back(f.eval(p));
        }
        b.push_back(std::move(x));
        ctx.progress();
      }
      prepared = true;
    }
    for (size_t j = 0; j < fns.size(); ++j) {
      ++ctx.transitions;
      bool eq = *b[i].a == *b[j].a, ne = *b[i].a != *b[j].a;
      if (eq == ne) {
        ctx.fail("equality", fns[i].str() + " vs " + fns[j].str() + " => == and != agree");
      }
      if (eq && (fns[i].dims != fns[j].dims || fns[i].res.size() != fns[j].res.size() ||
                 b[i].table != b[j].table)) {
        ctx.fail("equality", fns[i].str() + " vs " + fns[j].str() + " => equal but different functions");
      }
      if (eq != (*b[j].a == *b[i].a)) {
        ctx.fail("equality", fns[i].str() + " vs " + fns[j].str() + " => not symmetric");
      }
    }
    ++ctx.traces;
  }
}

int main(int argc, char **argv) {
  ctx.parse(argc, argv);
  bool th = ctx.thorough;
  Spaces s;

  // No dimension: scalar equations accessing array elements.
  ctx.suite("0 dimensions");
  {
    std::vector<EP> at = singles(0, true);
    for (auto &m : multis(0, s)) {
      at.push_back(m);
    }
    std::vector<Pt> g{{}};
    for (auto &x : at) {
      run({0, {x}}, g, g, {}, {}, false);
      for (auto &y : at) {
        run({0, {x, y}}, g, g, {}, {}, false);
      }
    }
    // The image of an empty set of (no) dimensions is the accessed element.
    for (auto &x : singles(0, true)) {
      if (!ctx.take()) {
        continue;
      }
      Fn f{0, {x}};
      ctx.describe([&] { return f.str() + " over {}"; });
      IndexSet r = f.build()->map(IndexSet());
      if (points(r) != f.eval({})) {
        ctx.fail("map set", f.str() + " over {} => got " + setStr(points(r)));
      }
    }
  }

  std::vector<Fn> eqs;
  ctx.suite("1 dimension");
  {
    std::vector<EP> si = singles(1, true), at = si;
    for (auto &m : multis(1, s)) {
      at.push_back(m);
    }
    auto g = grid({{-1, 4}});
    auto ev = grid({{-5, 7}});
    auto masks = allMasks(g.size());
    for (auto &x : at) {
      run({1, {x}}, g, ev, masks, masks, true);
      eqs.push_back({1, {x}});
    }
    for (auto &x : at) {
      for (auto &y : at) {
        run({1, {x, y}}, g, ev, masks, masks, true);
      }
    }
    for (auto &x : singles(1, false)) {
      for (auto &y : singles(1, false)) {
        eqs.push_back({1, {x, y}});
        for (auto &z : singles(1, false)) {
          run({1, {x, y, z}}, g, ev, masks, masks, true);
        }
      }
    }
  }

  ctx.suite("dependent iteration spaces");
  {
    auto g = grid({{0, 3}});
    auto masks = allMasks(3);
    std::vector<EP> at{I(&s.diag, 0, {1}), I(&s.diag, 1, {0}), I(&s.ell, 0, {1}),
                       I(&s.ell, 1, {0}), I(&s.ell, 1, {0}) + D(0), D(0), C(1),
                       I(&s.s1, 0), I(&s.ell, 0, {1}) + I(&s.ell, 1, {0}),
                       I(&s.line3, 0, {1, 2}), I(&s.line3, 2, {0}), R(0, 2)};
    for (auto &x : at) {
      run({1, {x}}, g, g, masks, masks, true);
      eqs.push_back({1, {x}});
      for (auto &y : at) {
        run({1, {x, y}}, g, g, masks, masks, true);
        for (auto &z : at) {
          run({1, {x, y, z}}, g, g, masks, masks, true);
        }
      }
    }
  }

  ctx.suite("2 dimensions");
  {
    std::vector<EP> si = singles(2, th), at = si;
    for (auto &m : multis(2, s)) {
      at.push_back(m);
    }
    auto g = grid({{0, 2}, {0, 3}});
    auto ev = grid({{-2, 3}, {-1, 3}});
    auto masks = allMasks(g.size());
    std::vector<uint64_t> few;
    for (uint64_t m : masks) {
      // Rectangles, L-shapes and scattered sets.
      if (th || m % 5 == 0 || m == 63 || m == 31 || m == 27 || m == 3) {
        few.push_back(m);
      }
    }
    for (auto &x : at) {
      run({2, {x}}, g, ev, masks, few, true);
      eqs.push_back({2, {x}});
    }
    for (auto &x : at) {
      for (auto &y : at) {
        run({2, {x, y}}, g, ev, few, few, true);
        if (!x->multi() && !y->multi()) {
          eqs.push_back({2, {x, y}});
        }
      }
    }
    std::vector<EP> rt{C(0), D(0), D(1), D(0) + C(1), D(1) - C(1), D(0) + D(1)};
    for (auto &x : rt) {
      for (auto &y : rt) {
        for (auto &z : rt) {
          run({2, {x, y, z}}, g, ev, few, few, true);
        }
      }
    }
  }

  ctx.suite("3 dimensions");
  {
    std::vector<EP> rt{C(1), D(0), D(1), D(2), D(0) + C(1), D(2) - C(2), D(1) + D(2)};
    auto g = grid({{0, 2}, {0, 2}, {0, 2}});
    auto ev = grid({{-1, 2}, {0, 3}, {2, 4}});
    std::vector<uint64_t> few;
    for (uint64_t m = 0; m < 256; ++m) {
      if (th ? m % 3 != 1 : (m % 17 == 0 || m == 127 || m == 63 || m == 3)) {
        few.push_back(m);
      }
    }
    for (auto &x : rt) {
      run({3, {x}}, g, ev, few, few, true);
      for (auto &y : rt) {
        run({3, {x, y}}, g, ev, few, few, true);
        eqs.push_back({3, {x, y}});
        for (auto &z : rt) {
          run({3, {x, y, z}}, g, ev, few, few, true);
        }
      }
    }
  }

  ctx.suite("equality");
  equality(eqs, {{{}}, grid({{-5, 7}}), grid({{-2, 4}, {-2, 4}}),
                 grid({{-1, 3}, {-1, 3}, {-1, 3}})});
  return ctx.finish();
}

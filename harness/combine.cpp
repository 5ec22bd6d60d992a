// Composition of access functions, for every pair of compatible access
// functions of a small grammar, against composition of their evaluation.
#include "accessgen.h"
using namespace ag;
static mc::Ctx ctx;

static void run(const Fn &f, const Fn &g, const std::vector<Pt> &pts) {
  // A result that takes several values can be represented only if the second
  // function uses it at most once.
  if (f.multi()) {
    std::vector<int> uses(f.res.size(), 0);
    for (auto &r : g.res) {
      r->dims(uses);
    }
    for (size_t i = 0; i < f.res.size(); ++i) {
      if (f.res[i]->multi() && uses[i] > 1) {
        return;
      }
    }
  }
  if (!ctx.take()) {
    return;
  }
  ctx.describe([&] { return f.str() + " then " + g.str(); });
  ++ctx.traces;
  auto a = f.build(), b = g.build();
  auto c = a->combine(*b);
  std::string name = f.str() + " then " + g.str();
  if (c->getNumOfDims() != f.dims || c->getNumOfResults() != g.res.size()) {
    ctx.fail("shape", name + " => " + std::to_string(c->getNumOfDims()) + " dimensions, " +
                          std::to_string(c->getNumOfResults()) + " results");
    return;
  }
  for (auto &p : pts) {
    PtSet exp;
    for (auto &q : f.eval(p)) {
      Pt r = q;
      PtSet v = g.eval(r);
      exp.insert(v.begin(), v.end());
    }
    ++ctx.transitions;
    ctx.state(setStr(exp));
    PtSet got = points(c->map(toPoint(p)));
    if (got != exp) {
      std::string s;
      llvm::raw_string_ostream os(s);
      c->dump(os);
      ctx.fail("combine", name + " at " + ptStr(p) + " => got " + setStr(got) +
                              " expected " + setStr(exp) + " from " + s);
      return;
    }
  }
  ctx.outcome("kind " + std::to_string((int)c->getKind()));
}

static std::vector<Fn> fns(unsigned dims, unsigned results, const std::vector<EP> &at) {
  std::vector<Fn> r{{dims, {}}};
  for (unsigned i = 0; i < results; ++i) {
    std::vector<Fn> n;
    for (auto &f : r) {
      for (auto &x : at) {
        Fn h = f;
        h.res.push_back(x);
        n.push_back(h);
      }
    }
    r = n;
  }
  return r;
}

int main(int argc, char **argv) {
  ctx.parse(argc, argv);
  bool th = ctx.thorough;
  Spaces s;
  auto with = [](std::vector<EP> a, const std::vector<EP> &b) {
    a.insert(a.end(), b.begin(), b.end());
    return a;
  };
  auto a1 = with(singles(1, true), multis(1, s));
  auto a2 = with(singles(2, true), multis(2, s));
  auto s2 = with(singles(2, false), multis(2, s));
  std::vector<EP> d1{I(&s.diag, 0, {1}), I(&s.diag, 1, {0}), I(&s.ell, 0, {1}) + D(0),
                     I(&s.ell, 1, {0}), D(0), C(1), R(0, 2)};
  std::vector<EP> tiny2{C(1), D(0), D(1), D(1) - C(1), D(0) * C(2), D(1) / C(2),
                        D(0) + D(1), R(0, 2), D(1) + R(0, 2), I(&s.s1, 0)};
  auto g1 = grid({{-3, 5}});
  auto g2 = grid({{-2, 3}, {-1, 3}});

  ctx.suite("1-1-1");
  for (auto &f : fns(1, 1, a1)) {
    for (auto &g : fns(1, 1, a1)) {
      run(f, g, g1);
    }
  }
  ctx.suite("0-1-1");
  for (auto &f : fns(0, 1, with(singles(0, true), multis(0, s)))) {
    for (auto &g : fns(1, 1, a1)) {
      run(f, g, {{}});
    }
  }
  ctx.suite("1-2-1");
  for (auto &f : fns(1, 2, a1)) {
    for (auto &g : fns(2, 1, a2)) {
      run(f, g, g1);
    }
  }
  ctx.suite("1-2-1 with a second function that ignores trailing results");
  for (auto &f : fns(1, 2, with(singles(1, false), multis(1, s)))) {
    for (auto &g : fns(1, 1, a1)) {
      run(f, g, g1);
    }
  }
  ctx.suite("2-1-2");
  for (auto &f : fns(2, 1, a2)) {
    for (auto &g : fns(1, 2, a1)) {
      run(f, g, g2);
    }
  }
  ctx.suite("dependent iteration spaces");
  for (auto &f : fns(1, 2, d1)) {
    for (auto &g : fns(2, 2, tiny2)) {
      run(f, g, g1);
    }
  }
  for (auto &f : fns(2, 2, tiny2)) {
    for (auto &g : fns(2, 2, with(d1, {D(1)}))) {
      run(f, g, g2);
    }
  }
  ctx.suite("2-2-2");
  auto f22 = fns(2, 2, th ? s2 : tiny2);
  auto g22 = fns(2, 2, tiny2);
  for (auto &f : f22) {
    for (auto &g : g22) {
      run(f, g, g2);
    }
  }
  ctx.suite("3-3-3");
  {
    std::vector<EP> t{D(0), D(1), D(2), D(1) + C(1), R(0, 2)};
    auto g3 = grid({{0, 2}, {1, 3}, {5, 7}});
    for (auto &f : fns(3, 3, t)) {
      for (auto &g : fns(3, 3, {D(0), D(1), D(2), D(2) - C(1)})) {
        run(f, g, g3);
      }
    }
  }
  ctx.suite("identity");
  for (unsigned dims = 1; dims <= 2; ++dims) {
    std::vector<EP> idr;
    for (unsigned i = 0; i < dims; ++i) {
      idr.push_back(D(i));
    }
    Fn id{dims, idr};
    for (auto &f : fns(dims, dims, dims == 1 ? a1 : tiny2)) {
      if (!ctx.take()) {
        continue;
      }
      ctx.describe([&] { return f.str() + " and identity"; });
      auto a = f.build(), i = id.build();
      if (*a->combine(*i) != *a || *i->combine(*a) != *a) {
        ctx.fail("identity", f.str() + " => combining with the identity changes it");
      }
      ++ctx.transitions;
    }
  }
  return ctx.finish();
}

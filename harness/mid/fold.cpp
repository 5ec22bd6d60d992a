// C28: folding, canonicalisation and distribution preserve the values of expressions.
#include "mid/exprs.h"
#include "marco/Dialect/BaseModelica/Transforms/OpDistribution.h"
#include "mlir/Pass/PassManager.h"
#include "mlir/Transforms/Passes.h"
#include "mlir/Transforms/GreedyPatternRewriteDriver.h"

static mc::Ctx ctx;
static FrozenRewritePatternSet *patterns;
static PassManager *distNeg, *distMul, *distDiv, *cse;

static std::string modText(ModuleOp m) { return print(m.getOperation()); }

// Returns the values computed, or why there are none.
static std::vector<Val> run(ModuleOp m, func::FuncOp f, const std::vector<Val> &in, std::string &undefined, std::string &unsupported) {
  Interp it;
  it.module = m;
  for (size_t i = 0; i < in.size(); ++i)
    it.env[f.getArgument(i)] = in[i];
  it.block(f.getBody().front());
  undefined = it.undefined;
  unsupported = it.unsupported;
  return it.bad() ? std::vector<Val>() : it.gets(f.getBody().front().getTerminator()->getOperands());
}

static void judge(const Prog &p, int how, const char *suite) {
  func::FuncOp f;
  const char *why;
  OwningOpRef<ModuleOp> m = makeProgram(p, f, why);
  if (!m) {
    ctx.outcome(why);
    return;
  }
  std::string before = modText(*m);
  static const char *hows[] = {"canonicalisation", "distribution of negations", "distribution of multiplications", "distribution of divisions", "removal of common subexpressions"};
  auto report = [&](const std::string &sig, const std::string &what) {
    ctx.fail(std::string(suite) + "/" + sig, std::string(hows[how]) + " of " + before + " => " + what + "; result: " + modText(*m));
  };
  std::vector<std::vector<Val>> want;
  std::vector<bool> defined;
  for (auto &in : p.inputs) {
    std::string u, s;
    want.push_back(run(*m, f, in, u, s));
    if (!s.empty()) {
      ctx.outcome("unsupported: " + s);
      return;
    }
    defined.push_back(u.empty());
  }
  ctx.state(before);
  {
    Diags d(mctx);
    bool ok;
    if (how == 0) {
      ok = succeeded(applyPatternsGreedily(m->getOperation(), *patterns));
      if (!ok) {
        report("no fixpoint", "the rewriting does not converge");
        return;
      }
    } else {
      ok = succeeded((how == 1 ? distNeg : how == 2 ? distMul : how == 3 ? distDiv : cse)->run(*m));
      if (!ok) {
        report("failed", "the pass fails: " + d.text);
        return;
      }
    }
    if (failed(verify(*m))) {
      // Accesses that are out of bounds may be reported.
      if (std::find(defined.begin(), defined.end(), true) == defined.end())
        ctx.outcome("undefined");
      else
        report("invalid", "the result is not valid: " + d.text);
      return;
    }
  }
  ++ctx.transitions;
  for (size_t k = 0; k < p.inputs.size(); ++k) {
    if (!defined[k]) {
      ctx.outcome("undefined");
      continue;
    }
    std::string u, s;
    auto got = run(*m, f, p.inputs[k], u, s);
    ++ctx.traces;
    if (!s.empty()) {
      report("unsupported", "the result cannot be interpreted: " + s);
      return;
    }
    bool ok = u.empty() && got.size() == want[k].size();
    for (size_t i = 0; ok && i < got.size(); ++i)
      ok = same(got[i], want[k][i]);
    if (!ok) {
      std::string w, g, in;
      for (auto &x : want[k])
        w += " " + show(x);
      for (auto &x : got)
        g += " " + show(x);
      for (auto &x : p.inputs[k])
        in += " " + show(x);
      report("value", "with arguments" + in + " the value was" + w + " and becomes" + (u.empty() ? g : " undefined (" + u + ")"));
      return;
    }
  }
  ctx.outcome(before == modText(*m) ? "unchanged" : "preserved");
}

static void one(const Prog &p, const char *suite, int how = 0) {
  if (!ctx.take())
    return;
  ctx.describe([&] {
    std::string r = suite;
    for (auto &e : p.outs)
      r += "; " + text(e);
    for (auto t : p.args)
      r += " | " + str(t);
    return r;
  });
  judge(p, how, suite);
  if (ctx.replaying())
    ctx.progress();
}

int main(int argc, char **argv) {
  ctx.parse(argc, argv);
  MLIRContext c(MLIRContext::Threading::DISABLED);
  c.loadDialect<bm::BaseModelicaDialect, func::FuncDialect, arith::ArithDialect>();
  initTypes(&c);
  RewritePatternSet set(&c);
  for (Dialect *d : c.getLoadedDialects())
    d->getCanonicalizationPatterns(set);
  for (RegisteredOperationName n : c.getRegisteredOperations())
    n.getCanonicalizationPatterns(set, &c);
  FrozenRewritePatternSet frozen(std::move(set));
  patterns = &frozen;
  PassManager pn(&c), pm(&c), pd(&c), pc(&c);
  pc.addPass(createCSEPass());
  cse = &pc;
  pn.addPass(bm::createNegateOpDistributionPass());
  pm.addPass(bm::createMulOpDistributionPass());
  pd.addPass(bm::createDivOpDistributionPass());
  distNeg = &pn;
  distMul = &pm;
  distDiv = &pd;
  const bool T = ctx.thorough;

  const std::vector<std::string> unary = {"neg", "not", "abs", "acos", "asin", "atan", "ceil", "floor", "integer", "cos", "cosh", "exp", "log", "log10", "sign", "sin", "sinh", "sqrt", "tan", "tanh"};
  const std::vector<std::string> binary = {"add", "sub", "mul", "div", "pow", "add_ew", "sub_ew", "mul_ew", "div_ew", "pow_ew", "eq", "neq", "gt", "gte", "lt", "lte", "and", "or", "div_trunc", "mod", "rem", "max", "min", "atan2"};
  const std::vector<std::vector<Val>> none = {{}};

  std::vector<E> consts;
  for (bool v : {false, true})
    consts.push_back(B_(v));
  for (int64_t v : {-7, -3, -2, -1, 0, 1, 2, 3, 5, 7})
    consts.push_back(I_(v));
  for (double v : {-7.5, -2.5, -2.0, -1.0, -0.5, -0.0, 0.0, 0.25, 0.5, 1.0, 1.5, 2.0, 2.999999, 3.0, 7.25})
    consts.push_back(R_(v));
  for (int64_t v : {-2, 0, 1, 3})
    consts.push_back(X_(v));
  if (T)
    for (int64_t v : {4, 8, -8, 10, 100})
      for (double q : {0.0, 0.125})
        consts.push_back(q == 0 ? I_(v) : R_(double(v) + q));

  if (ctx.suite("unary")) {
    for (auto &op : unary)
      for (auto &x : consts)
        one({{node(op, {x})}, {}, none}, "unary");
    for (Type t : {BT, IT, RT, XT})
      for (auto &x : consts) {
        one({{node("cast", {x}, t)}, {}, none}, "cast");
        for (Type u : {BT, IT, RT, XT})
          one({{node("cast", {node("cast", {x}, t)}, u)}, {}, none}, "cast");
      }
    // Compositions of two unary operations.
    for (auto &op : unary)
      for (auto &op2 : unary)
        for (auto &x : consts)
          one({{node(op2, {node(op, {x})})}, {}, none}, "unary");
  }
  if (ctx.suite("binary")) {
    for (auto &op : binary)
      for (auto &x : consts)
        for (auto &y : consts)
          one({{node(op, {x, y})}, {}, none}, "binary");
    // Conversion of the results.
    for (auto &op : binary)
      for (auto &x : consts)
        for (auto &y : consts)
          for (Type t : {BT, IT, RT})
            one({{node("cast", {node(op, {x, y})}, t)}, {}, none}, "binary");
  }

  // Expressions of two operations over constants and variables.
  std::vector<std::vector<Val>> inputs = {
      {S(Sc::integer(3)), S(Sc::real(2.5)), S(Sc::boolean(true)), S(Sc::integer(2))},
      {S(Sc::integer(-2)), S(Sc::real(-1.5)), S(Sc::boolean(false)), S(Sc::integer(1))},
      {S(Sc::integer(0)), S(Sc::real(0.0)), S(Sc::boolean(true)), S(Sc::integer(0))}};
  std::vector<Type> argTypes = {IT, RT, BT, XT};
  std::vector<E> leaves = {argE(0, IT), argE(1, RT), I_(0), I_(1), I_(2), R_(0), R_(1), R_(-0.5), B_(true)};
  if (T) {
    leaves.push_back(I_(-1));
    leaves.push_back(R_(2));
    leaves.push_back(argE(2, BT));
    leaves.push_back(X_(1));
  }
  const std::vector<std::string> algebra = {"add", "sub", "mul", "div", "pow", "add_ew", "sub_ew", "mul_ew", "div_ew", "pow_ew"};
  if (ctx.suite("trees")) {
    for (auto &op : binary)
      for (auto &x : leaves)
        for (auto &y : leaves)
          one({{node(op, {x, y})}, argTypes, inputs}, "trees");
    for (auto &op : unary)
      for (auto &x : leaves)
        for (auto &y : leaves)
          for (auto &op2 : algebra) {
            one({{node(op, {node(op2, {x, y})})}, argTypes, inputs}, "trees");
            one({{node(op2, {node(op, {x}), y})}, argTypes, inputs}, "trees");
            one({{node(op2, {y, node(op, {x})})}, argTypes, inputs}, "trees");
          }
    for (auto &op : binary)
      for (auto &op2 : binary) {
        bool a = std::find(algebra.begin(), algebra.end(), op) != algebra.end(), a2 = std::find(algebra.begin(), algebra.end(), op2) != algebra.end();
        if (!T && !a && !a2)
          continue;
        size_t stride = T ? 1 : 2, k = 0;
        for (auto &x : leaves)
          for (auto &y : leaves)
            for (auto &z : leaves) {
              if (k++ % stride)
                continue;
              one({{node(op, {node(op2, {x, y}), z})}, argTypes, inputs}, "trees");
              one({{node(op, {x, node(op2, {y, z})})}, argTypes, inputs}, "trees");
            }
      }
  }
  // Distribution of negations, multiplications and divisions over all the trees of up to three operations.
  if (ctx.suite("distribution")) {
    std::vector<E> l = {argE(0, IT), argE(1, RT), I_(2), R_(-0.5)};
    std::vector<E> d1; // trees of one operation
    for (auto &op : algebra)
      if (op != "pow" && op != "pow_ew")
        for (auto &x : l)
          for (auto &y : l)
            d1.push_back(node(op, {x, y}));
    for (auto &x : l)
      d1.push_back(node("neg", {x}));
    for (int how = 1; how <= 3; ++how) {
      std::vector<std::string> roots = how == 1 ? std::vector<std::string>{"neg"} : how == 2 ? std::vector<std::string>{"mul"} : std::vector<std::string>{"div"};
      for (auto &r : roots) {
        // The root over trees of one or two operations.
        for (auto &x : d1) {
          if (r == "neg") {
            one({{node(r, {x})}, argTypes, inputs}, "distribution", how);
            // also used elsewhere
            one({{node(r, {x}), x}, argTypes, inputs}, "distribution", how);
          } else
            for (auto &y : l) {
              one({{node(r, {x, y})}, argTypes, inputs}, "distribution", how);
              one({{node(r, {y, x})}, argTypes, inputs}, "distribution", how);
            }
          for (auto &op : algebra) {
            if (op == "pow" || op == "pow_ew")
              continue;
            for (auto &y : l)
              for (int side = 0; side < 2; ++side) {
                E two = side ? node(op, {y, x}) : node(op, {x, y});
                if (r == "neg")
                  one({{node(r, {two})}, argTypes, inputs}, "distribution", how);
                else
                  for (size_t q = 0; q < (T ? l.size() : 2); ++q) {
                    one({{node(r, {two, l[q]})}, argTypes, inputs}, "distribution", how);
                    one({{node(r, {l[q], two})}, argTypes, inputs}, "distribution", how);
                  }
              }
          }
        }
        if (r != "neg")
          for (auto &x : d1)
            for (size_t q = 0; q < d1.size(); q += T ? 1 : 3)
              one({{node(r, {x, d1[q]})}, argTypes, inputs}, "distribution", how);
      }
    }
    // Tensors.
    std::vector<std::vector<Val>> in(1);
    auto vec = [](std::vector<int64_t> s, std::vector<double> v) {
      Val x = Val::tensor(s, Sc::real(0));
      for (size_t i = 0; i < v.size(); ++i)
        x.e[i] = Sc::real(v[i]);
      return x;
    };
    in[0] = {vec({2}, {1.5, -2}), vec({2}, {4, 0.5}), vec({2, 2}, {1, 2, -3, 0.5}), S(Sc::real(3))};
    std::vector<Type> at = {RankedTensorType::get({2}, RT), RankedTensorType::get({2}, RT), RankedTensorType::get({2, 2}, RT), RT};
    std::vector<E> tl;
    for (int i = 0; i < 4; ++i)
      tl.push_back(argE(i, at[i]));
    std::vector<E> t1;
    for (auto &x : tl) {
      t1.push_back(node("neg", {x}));
      for (auto &y : tl)
        for (auto &op : algebra)
          if (op != "pow" && op != "pow_ew")
            t1.push_back(node(op, {x, y}));
    }
    for (auto &x : t1) {
      one({{node("neg", {x})}, at, in}, "distribution of tensors", 1);
      for (auto &y : tl)
        for (int how = 2; how <= 3; ++how) {
          const char *r = how == 2 ? "mul" : "div";
          one({{node(r, {x, y})}, at, in}, "distribution of tensors", how);
          one({{node(r, {y, x})}, at, in}, "distribution of tensors", how);
          for (auto &z : tl)
            for (auto &op : algebra)
              if (op != "pow" && op != "pow_ew")
                one({{node(r, {node(op, {x, z}), y})}, at, in}, "distribution of tensors", how);
        }
    }
  }
  // Common subexpressions.
  if (ctx.suite("common subexpressions"))
    for (auto &op : binary)
      for (auto &a : leaves)
        for (auto &b : leaves) {
          E x = node(op, {a, b}), y = node(op, {b, a});
          one({{x, y, x}, argTypes, inputs}, "common subexpressions", 4);
          one({{node("sub", {x, y})}, argTypes, inputs}, "common subexpressions", 4);
        }
  if (ctx.suite("ranges")) {
    std::vector<E> ranges;
    for (int64_t a : {-2, 0, 1, 3})
      for (int64_t b : {-3, 0, 1, 4, 5})
        for (int64_t s : {-2, -1, 1, 2, 3}) {
          if ((b - a) * s < 0)
            continue;
          ranges.push_back(IR_(a, b, s));
          ranges.push_back(IR_(a, b, s, XT));
        }
    for (double a : {-1.5, 0.0, 1.0})
      for (double b : {-2.0, 0.0, 1.5, 4.0})
        for (double s : {-0.5, 0.5, 1.0, 2.0}) {
          if ((b - a) * s < 0)
            continue;
          ranges.push_back(RR_(a, b, s));
        }
    auto observe = [&](const E &r) { return std::vector<E>{r, node("range_begin", {r}), node("range_end", {r}), node("range_step", {r}), node("range_size", {r})}; };
    for (auto &r : ranges) {
      one({observe(r), argTypes, inputs}, "ranges");
      one({observe(node("neg", {r})), argTypes, inputs}, "ranges");
      for (auto &op : {"add", "sub", "mul"})
        for (auto &s : leaves) {
          one({observe(node(op, {r, s})), argTypes, inputs}, "ranges");
          one({observe(node(op, {s, r})), argTypes, inputs}, "ranges");
        }
    }
    auto boolean = [](const E &e) { return e.op == "cst" ? isa<bm::BooleanAttr>(e.value) : isa<bm::BooleanType>(e.type); };
    for (auto &a : leaves)
      for (auto &b : leaves)
        for (auto &s : leaves)
          if (!boolean(a) && !boolean(b) && !boolean(s))
            one({observe(node("range", {a, b, s})), argTypes, inputs}, "ranges");
  }
  if (ctx.suite("tensors")) {
    // Tensors made of constants.
    std::vector<E> el = {B_(true), I_(0), I_(-3), R_(2.5), R_(-1.0), argE(0, IT), argE(1, RT)};
    for (Type t : {BT, IT, RT})
      for (auto &a : el)
        for (auto &b : el) {
          E v = node("tensor_from_elements", {a, b}, RankedTensorType::get({2}, t));
          one({{v}, argTypes, inputs}, "tensors");
          one({{node("tensor_extract", {v, X_(0)}), node("tensor_extract", {v, X_(1)})}, argTypes, inputs}, "tensors");
          for (auto &op : algebra)
            for (auto &s : el) {
              one({{node(op, {v, s})}, argTypes, inputs}, "tensors");
              one({{node(op, {s, v})}, argTypes, inputs}, "tensors");
              if (op != "pow")
                one({{node(op, {v, node("tensor_from_elements", {s, a}, RankedTensorType::get({2}, t))})}, argTypes, inputs}, "tensors");
            }
        }
    // Operations between constants and arguments of any rank.
    auto vec = [](std::vector<int64_t> s, std::vector<double> v) {
      Val x = Val::tensor(s, Sc::real(0));
      for (size_t i = 0; i < v.size(); ++i)
        x.e[i] = Sc::real(v[i]);
      return x;
    };
    std::vector<std::vector<Val>> in = {{vec({2}, {1.5, -2}), vec({2, 2}, {1, 2, -3, 0.5}), S(Sc::real(3)), vec({2, 2}, {-1, 0.25, 4, 2})}};
    std::vector<Type> at = {RankedTensorType::get({2}, RT), RankedTensorType::get({2, 2}, RT), RT, RankedTensorType::get({2, 2}, RT)};
    std::vector<E> ops;
    for (int i = 0; i < 4; ++i)
      ops.push_back(argE(i, at[i]));
    ops.push_back(cst(bm::DenseRealElementsAttr::get(mlir::cast<RankedTensorType>(at[0]), std::vector<double>{0.5, 3})));
    ops.push_back(cst(bm::DenseRealElementsAttr::get(mlir::cast<RankedTensorType>(at[1]), std::vector<double>{0.5, 3, -2, 4})));
    ops.push_back(node("tensor_broadcast", {R_(2)}, at[0]));
    ops.push_back(node("tensor_broadcast", {I_(0)}, at[1]));
    ops.push_back(node("tensor_from_elements", {R_(-1), argE(2, RT)}, at[0]));
    ops.push_back(R_(2.5));
    ops.push_back(I_(-3));
    std::vector<E> roots;
    for (auto &a : ops)
      for (auto &b : ops)
        for (auto &op : algebra) {
          roots.push_back(node(op, {a, b}));
          for (int how = 0; how <= 4; ++how) {
            one({{roots.back()}, at, in}, "tensors", how);
            one({{roots.back(), node(op, {b, a})}, at, in}, "tensors", how);
          }
        }
    for (auto &x : roots)
      if (x.op != "pow" && x.op != "pow_ew")
        for (auto &a : ops)
          for (auto &op : {"add", "sub", "mul", "div"})
            for (int how = 0; how <= 3; ++how) {
              one({{node(op, {x, a})}, at, in}, "tensors", how);
              one({{node(op, {a, x})}, at, in}, "tensors", how);
            }
    for (Type t : {BT, IT, RT})
      for (auto &a : el)
        one({{node("tensor_broadcast", {a}, RankedTensorType::get({2, 2}, t))}, argTypes, inputs}, "tensors");
  }
  if (ctx.suite("views")) {
    // Chains of views, followed by the extraction of an element.
    std::vector<std::vector<int64_t>> shapes = {{3}, {2, 3}, {3, 2}, {2, 2, 3}};
    for (auto &sh : shapes) {
      Val t = Val::tensor(sh, Sc::real(0));
      for (size_t i = 0; i < t.e.size(); ++i)
        t.e[i] = Sc::real(10.0 + double(i));
      std::vector<Type> at = {RankedTensorType::get(sh, RT), XT, bm::RangeType::get(mctx, XT)};
      Val r;
      r.kind = Val::Range;
      r.e = {Sc::integer(0), Sc::integer(1), Sc::integer(1)};
      std::vector<std::vector<Val>> in = {{t, S(Sc::integer(1)), r}, {t, S(Sc::integer(0)), r}};
      E T0 = argE(0, at[0]);
      std::vector<E> subs = {X_(0), X_(1), argE(1, XT), IR_(0, 1, 1, XT), IR_(1, 1, 1, XT), IR_(0, 2, 2, XT), argE(2, at[2])};
      // Lists of up to two subscripts.
      std::vector<std::vector<E>> lists;
      for (auto &a : subs) {
        lists.push_back({a});
        for (auto &b : subs)
          lists.push_back({a, b});
      }
      auto rankAfter = [](int rank, const std::vector<E> &l) {
        for (auto &s : l)
          if (!(s.op == "arg" ? isa<bm::RangeType>(s.type) : isa<bm::IntegerRangeAttr>(s.value)))
            --rank;
        return rank;
      };
      auto viewOf = [&](const E &x, const std::vector<E> &l) {
        std::vector<E> k = {x};
        k.insert(k.end(), l.begin(), l.end());
        return node("tensor_view", k);
      };
      int rank = sh.size();
      for (auto &l1 : lists) {
        if (int(l1.size()) > rank)
          continue;
        E v1 = viewOf(T0, l1);
        int r1 = rankAfter(rank, l1);
        one({{v1}, at, in}, "views");
        for (auto &l2 : lists) {
          if (int(l2.size()) > r1)
            continue;
          E v2 = viewOf(v1, l2);
          int r2 = rankAfter(r1, l2);
          one({{v2}, at, in}, "views");
          one({{v1, v2}, at, in}, "views");
          if (r2 == 1)
            for (int64_t i : {0, 1})
              one({{node("tensor_extract", {v2, X_(i)})}, at, in}, "views");
          for (auto &l3 : lists) {
            if (int(l3.size()) > r2)
              continue;
            one({{viewOf(v2, l3)}, at, in}, "views");
          }
        }
        if (r1 == 1)
          for (auto &i : {X_(0), X_(1), argE(1, XT)})
            one({{node("tensor_extract", {v1, i})}, at, in}, "views");
        if (r1 == 2)
          for (auto &i : {X_(0), X_(1), argE(1, XT)})
            for (auto &j : {X_(0), X_(1), argE(1, XT)})
              one({{node("tensor_extract", {v1, i, j})}, at, in}, "views");
      }
    }
  }
  return ctx.finish();
}

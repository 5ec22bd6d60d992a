// C29: the lowering of expressions to the core dialects preserves their values.
#include "mid/exprs.h"
#include "mid/lowinterp.h"
#include "marco/Dialect/BaseModelica/Transforms/ExplicitCastInsertion.h"
#include "marco/Dialect/BaseModelica/Transforms/RangeBoundariesInference.h"
#include "marco/Codegen/Conversion/BaseModelicaToMLIRCore/BaseModelicaToMLIRCore.h"
#include "mlir/Pass/PassManager.h"

static mc::Ctx ctx;
static PassManager *pm;

// Findings that concern a site rather than a program.
static void once(const std::string &sig, const std::string &what) {
  static std::set<std::string> seen;
  if (seen.insert(sig + what).second)
    ctx.fail(sig, what);
}

template <class It>
static std::vector<Val> run(ModuleOp m, const std::vector<Val> &in, std::string &undefined, std::string &unsupported, Operation **at = nullptr) {
  It it;
  it.module = m;
  auto f = m.lookupSymbol<func::FuncOp>("f");
  for (size_t i = 0; i < in.size(); ++i)
    it.env[f.getArgument(i)] = in[i];
  it.block(f.getBody().front());
  if constexpr (std::is_same_v<It, LowInterp>)
    for (auto &n : it.uninitialised)
      once("uninitialised accumulator", n + " adds to a tensor that has no content");
  undefined = it.undefined;
  unsupported = it.unsupported;
  return it.bad() ? std::vector<Val>() : it.gets(f.getBody().front().getTerminator()->getOperands());
}

// Programs that the language, or the passes running before, can produce: no arithmetic on Booleans, no logic on numbers.
static bool sensible(ModuleOp m) {
  bool ok = true;
  m.walk([&](Operation *op) {
    llvm::StringRef n = op->getName().getStringRef();
    if (!n.consume_front("bmodelica."))
      return;
    auto boolean = [](Type t) { return isa<bm::BooleanType>(Interp::elem(t)); };
    static const std::set<llvm::StringRef> any = {"eq", "neq", "gt", "gte", "lt", "lte", "cast", "select", "max", "min", "tensor_view", "tensor_extract", "tensor_insert", "tensor_insert_slice", "tensor_from_elements", "tensor_broadcast", "fill", "transpose", "diagonal", "symmetric", "size", "ndims", "constant"};
    static const std::set<llvm::StringRef> logic = {"not", "and", "or"};
    for (Value v : op->getOperands())
      if (!any.count(n) && boolean(v.getType()) != (logic.count(n) != 0))
        ok = false;
    static const std::set<llvm::StringRef> same = {"eq", "neq", "gt", "gte", "lt", "lte", "max", "min"};
    if (same.count(n) && op->getNumOperands() == 2 && boolean(op->getOperand(0).getType()) != boolean(op->getOperand(1).getType()))
      ok = false;
    if (n == "select" && boolean(op->getOperand(1).getType()) != boolean(op->getOperand(2).getType()))
      ok = false;
    // Elements of an aggregate have the kind of the aggregate.
    static const std::set<llvm::StringRef> agg = {"tensor_from_elements", "tensor_broadcast", "fill", "tensor_insert", "tensor_insert_slice", "select"};
    if (agg.count(n) && boolean(op->getOperand(n == "select" ? 1 : 0).getType()) != boolean(op->getResult(0).getType()))
      ok = false;
    if (n == "pow" && (isa<ShapedType>(op->getOperand(1).getType()) || (isa<ShapedType>(op->getOperand(0).getType()) && Interp::isReal(op->getOperand(1).getType()))))
      ok = false; // only matrices to the power of integers
    if (n == "cast" && boolean(op->getResult(0).getType()) && !boolean(op->getOperand(0).getType()))
      ok = false;
  });
  return ok;
}

static void judge(const Prog &p, const char *suite) {
  func::FuncOp f;
  const char *why;
  OwningOpRef<ModuleOp> m = makeProgram(p, f, why);
  if (!m) {
    ctx.outcome(why);
    return;
  }
  if (!sensible(*m)) {
    ctx.outcome("not generated");
    return;
  }
  std::string before = print(m.get());
  std::vector<std::vector<Val>> want;
  std::vector<bool> defined;
  for (auto &in : p.inputs) {
    std::string u, s;
    want.push_back(run<Interp>(*m, in, u, s));
    if (!s.empty()) {
      ctx.outcome("unsupported: " + s);
      return;
    }
    defined.push_back(u.empty());
  }
  auto report = [&](const std::string &sig, const std::string &what) {
    ctx.fail(std::string(suite) + "/" + sig, "lowering of " + before + " => " + what + "; result: " + print(m.get()));
  };
  if (getenv("VERIF_TRACE")) fprintf(stderr, "%s\n", before.c_str());
  ctx.state(before);
  {
    Diags d(mctx);
    if (failed(pm->run(*m))) {
      static const bool verbose = getenv("VERIF_NOTLOWERED");
      if (verbose) {
        std::string t;
        for (auto &e : p.outs)
          t += e.op + " ";
        for (auto &e : p.outs)
          for (auto &k : e.kids)
            t += " " + (k.op == "arg" ? str(k.type) : text(k));
        fprintf(stderr, "NOTLOWERED %s\n", t.c_str());
      }
      bool scalar = true;
      for (auto t : p.args)
        scalar &= !isa<ShapedType>(t);
      for (auto &v : want)
        for (auto &x : v)
          scalar &= x.kind == Val::Scalar;
      ctx.outcome(scalar ? "scalar not lowered" : "not lowered");
      if (scalar)
        ctx.fail(std::string(suite) + "/not lowered", before);
      return;
    }
  }
  ++ctx.transitions;
  for (size_t k = 0; k < p.inputs.size(); ++k) {
    if (!defined[k]) {
      ctx.outcome("undefined");
      continue;
    }
    std::string u, s;
    auto got = run<LowInterp>(*m, p.inputs[k], u, s);
    ++ctx.traces;
    if (!s.empty()) {
      report("unsupported", "the result cannot be interpreted: " + s);
      return;
    }
    bool ok = u.empty() && got.size() == want[k].size();
    for (size_t i = 0; ok && i < got.size(); ++i)
      ok = same(got[i], want[k][i]);
    if (!ok && u.empty() && p.outs[0].op == "size" && p.outs[0].kids.size() == 1) {
      // Elements that are not written.
      bool junk = got.size() == 1 && got[0].e.size() == want[k][0].e.size();
      for (size_t i = 0; junk && i < got[0].e.size(); ++i)
        junk = same(S(got[0].e[i]), S(i ? LowInterp::junk(XT) : want[k][0].e[i]));
      if (junk) {
        once("size of arrays", "the sizes of an array with " + std::to_string(got[0].e.size()) + " dimensions: only the first element is written");
        ctx.outcome("size of arrays");
        continue;
      }
    }
    if (!ok && u.empty() && p.outs[0].op == "pow" && want[k][0].kind == Val::Tensor && want[k][0].shape.size() == 2 && got.size() == 1) {
      // Products starting from a matrix of ones rather than from the identity.
      Val x = p.inputs[k][0], a = Val::tensor(x.shape, Sc::integer(1));
      Interp ari;
      int64_t d = x.shape[0], e = p.outs[0].kids[1].op == "cst" ? Interp().attr(p.outs[0].kids[1].value).e[0].i : p.inputs[k][p.outs[0].kids[1].arg].e[0].i;
      for (; e > 0; --e) {
        Val q = Val::tensor(x.shape, Sc::integer(0));
        for (int64_t i = 0; i < d; ++i)
          for (int64_t j = 0; j < d; ++j)
            for (int64_t l = 0; l < d; ++l)
              q.e[i * d + j] = ari.op2(Interp::Add, q.e[i * d + j], ari.op2(Interp::Mul, a.e[i * d + l], x.e[l * d + j]));
        a = q;
      }
      if (same(got[0], a)) {
        once("power of matrices", "the power of a matrix starts from a matrix of ones");
        ctx.outcome("power of matrices");
        continue;
      }
    }
    if (!ok && p.outs[0].op == "tensor_insert_slice" && u == "slice out of bounds") {
      // Slices taken downwards from the end of a descending range.
      bool down = false;
      for (auto &e : p.outs[0].kids)
        if (e.op == "cst")
          if (auto r = dyn_cast<bm::IntegerRangeAttr>(e.value))
            down |= r.getStep() < 0 && r.getLowerBound() != r.getUpperBound();
      if (down) {
        once("insertion of descending slices", "the slice starts from the end of the range and goes down from there, out of the array");
        ctx.outcome("insertion of descending slices");
        continue;
      }
    }
    if (!ok) {
      std::string w, g, in;
      for (auto &x : want[k])
        w += " " + show(x);
      for (auto &x : got)
        g += " " + show(x);
      for (auto &x : p.inputs[k])
        in += " " + show(x);
      report("value", "with arguments" + in + " the value is" + w + " and the code computes" + (u.empty() ? g : " nothing (" + u + ")"));
      return;
    }
    ctx.outcome("preserved");
  }
}

static void one(const Prog &p, const char *suite) {
  if (!ctx.take())
    return;
  ctx.describe([&] {
    std::string r = suite;
    for (auto &e : p.outs)
      r += "; " + text(e);
    for (auto t : p.args)
      r += " | " + str(t);
    return r;
  });
  judge(p, suite);
}

int main(int argc, char **argv) {
  ctx.parse(argc, argv);
  MLIRContext c(MLIRContext::Threading::DISABLED);
  c.loadDialect<bm::BaseModelicaDialect, func::FuncDialect, arith::ArithDialect, tensor::TensorDialect, linalg::LinalgDialect, memref::MemRefDialect, scf::SCFDialect, bufferization::BufferizationDialect, LLVM::LLVMDialect, mlir::runtime::RuntimeDialect>();
  initTypes(&c);
  PassManager p(&c);
  p.addPass(bm::createRangeBoundariesInferencePass());
  p.addPass(bm::createExplicitCastInsertionPass());
  p.addPass(createBaseModelicaToMLIRCoreConversionPass());
  pm = &p;
  const bool T = ctx.thorough;
  const std::vector<std::string> unary = {"neg", "not", "abs", "acos", "asin", "atan", "ceil", "floor", "integer", "cos", "cosh", "exp", "log", "log10", "sign", "sin", "sinh", "sqrt", "tan", "tanh"};
  const std::vector<std::string> binary = {"add", "sub", "mul", "div", "pow", "add_ew", "sub_ew", "mul_ew", "div_ew", "pow_ew", "eq", "neq", "gt", "gte", "lt", "lte", "and", "or", "div_trunc", "mod", "rem", "max", "min", "atan2"};
  // Values given to the arguments of each type.
  std::vector<Sc> bools = {Sc::boolean(false), Sc::boolean(true)}, ints, reals, idxs;
  for (int64_t v : {-7, -2, -1, 0, 1, 2, 3, 8})
    ints.push_back(Sc::integer(v));
  for (double v : {-7.5, -2.0, -1.0, -0.5, 0.0, 0.25, 0.5, 1.0, 2.0, 2.999999, 3.0})
    reals.push_back(Sc::real(v));
  for (int64_t v : {-2, 0, 1, 3})
    idxs.push_back(Sc::integer(v));
  auto values = [&](Type t) -> const std::vector<Sc> & { return t == BT ? bools : t == IT ? ints : t == RT ? reals : idxs; };
  const std::vector<Type> types = {BT, IT, RT, XT};
  auto product = [&](const std::vector<Type> &ts) {
    std::vector<std::vector<Val>> r = {{}};
    for (Type t : ts) {
      std::vector<std::vector<Val>> n;
      for (auto &x : r)
        for (auto &s : values(t)) {
          n.push_back(x);
          n.back().push_back(S(s));
        }
      r = n;
    }
    return r;
  };
  std::vector<E> consts = {B_(true), B_(false), I_(0), I_(1), I_(-3), R_(0), R_(2.5), X_(2)};
  if (ctx.suite("scalars")) {
    for (Type t : types)
      for (Type rt : types) {
        one({{node("cast", {argE(0, t)}, rt)}, {t}, product({t})}, "cast");
      }
    for (Type t : types)
      for (auto &op : unary) {
        one({{node(op, {argE(0, t)})}, {t}, product({t})}, "unary");
        for (auto &op2 : unary)
          one({{node(op2, {node(op, {argE(0, t)})})}, {t}, product({t})}, "unary");
      }
    for (Type t : types)
      for (Type u : types)
        for (auto &op : binary) {
          one({{node(op, {argE(0, t), argE(1, u)})}, {t, u}, product({t, u})}, "binary");
        }
    for (auto &k : consts)
      for (Type t : types)
        for (auto &op : binary) {
          one({{node(op, {argE(0, t), k})}, {t}, product({t})}, "binary");
          one({{node(op, {k, argE(0, t)})}, {t}, product({t})}, "binary");
        }
    for (Type t : types)
      for (Type u : types)
        for (Type rt : types)
          one({{node("select", {argE(2, BT), argE(0, t), argE(1, u)}, rt)}, {t, u, BT}, product({t, u, BT})}, "select");
  }
  if (ctx.suite("trees")) {
    // Combinations of the values: all of them, or those of the first, second and last values.
    auto combos = [&](const std::vector<Type> &ts) {
      if (T)
        return product(ts);
      std::vector<std::vector<Val>> r = {{}};
      for (Type t : ts) {
        std::vector<std::vector<Val>> n;
        for (auto &x : r)
          for (int k = 0; k < (t == BT ? 2 : 3); ++k) {
            n.push_back(x);
            n.back().push_back(S(k == 2 ? values(t).back() : values(t)[k]));
          }
        r = n;
      }
      return r;
    };
    for (Type t : types)
      for (Type u : types)
        for (auto &op : binary)
          for (auto &op2 : binary)
            for (int side = 0; side < 2; ++side) {
              E in = node(op2, {argE(0, t), argE(1, u)});
              for (Type v : types) {
                if (!T && v != t && v != IT)
                  continue;
                one({{side ? node(op, {in, argE(2, v)}) : node(op, {argE(2, v), in})}, {t, u, v}, combos({t, u, v})}, "trees");
              }
            }
  }
  if (ctx.suite("ranges")) {
    for (Type t : {IT, XT, RT}) {
      std::vector<std::vector<Val>> in;
      for (int64_t a : {-2, 0, 1, 3})
        for (int64_t b : {-3, -1, 0, 1, 2, 4, 5})
          for (int64_t s : {-3, -2, -1, 1, 2, 3})
            in.push_back({S(t == RT ? Sc::real(a) : Sc::integer(a)), S(t == RT ? Sc::real(b + 0.25) : Sc::integer(b)), S(t == RT ? Sc::real(s * 0.5) : Sc::integer(s))});
      E r = node("range", {argE(0, t), argE(1, t), argE(2, t)});
      for (auto &i : in) {
        auto num = [&](int k) { return i[k].e[0].num(); };
        one({{node("range_begin", {r}), node("range_end", {r}), node("range_step", {r})}, {t, t, t}, {i}}, "ranges");
        if (num(2) > 0 ? num(0) <= num(1) : num(0) >= num(1))
          one({{node("range_size", {r})}, {t, t, t}, {i}}, "range size");
      }
      // The number of elements of empty ranges, all together.
      if (ctx.take()) {
        ctx.describe([&] { return "empty ranges of " + str(t); });
        std::string wrong;
        for (auto &i : in) {
          auto num = [&](int k) { return i[k].e[0].num(); };
          if (num(2) > 0 ? num(0) <= num(1) : num(0) >= num(1))
            continue;
          Prog p{{node("range_size", {r})}, {t, t, t}, {i}};
          func::FuncOp f;
          const char *why;
          auto m = makeProgram(p, f, why);
          if (!m || failed(pm->run(*m))) {
            wrong = "not lowered";
            break;
          }
          std::string u, s;
          auto got = run<LowInterp>(*m, i, u, s);
          ++ctx.traces;
          if (!u.empty() || !s.empty())
            wrong += " " + u + s;
          else if (!same(got[0], S(Sc::integer(0))))
            wrong += " " + show(i[0]) + ":" + show(i[2]) + ":" + show(i[1]) + "=" + show(got[0]);
        }
        if (!wrong.empty())
          ctx.fail("size of empty ranges", "over " + str(t) + " the number of elements computed for empty ranges is not zero:" + wrong);
        else
          ctx.outcome("preserved");
      }
    }
  }
  if (ctx.suite("reductions")) {
    // Reductions over one or two ranges, of expressions of the inductions and of an argument.
    for (const char *action : {"add", "mul", "min", "max"})
      for (Type rt : {IT, RT, XT})
        for (Type t : {IT, XT}) {
          struct Rg {
            int64_t a, b, s;
          };
          const std::vector<Rg> rgs = {{1, 3, 1}, {0, 4, 2}, {-2, 1, 1}, {2, 2, 1}, {3, 1, -1}, {5, 0, -2}, {4, 1, -2}, {1, 6, 3}, {2, 1, 1}, {1, 2, -1}};
          auto make = [&](std::vector<E> rs, E body, std::vector<Type> at, std::vector<std::vector<Val>> in) {
            E e = node("reduction", rs, rt);
            e.value = StringAttr::get(mctx, action);
            e.body = {body};
            one({{e}, at, in}, "reductions");
          };
          const std::vector<Type> at1 = {t, t, t, RT};
          E r1 = node("range", {argE(0, t), argE(1, t), argE(2, t)});
          E ind = argE(4, XT), x = argE(3, RT);
          std::vector<std::vector<Val>> in1;
          for (auto &g : rgs)
            for (double v : {-1.5, 2.0})
              in1.push_back({S(Sc::integer(g.a)), S(Sc::integer(g.b)), S(Sc::integer(g.s)), S(Sc::real(v))});
          const std::vector<E> bodies = {ind, node("mul", {ind, ind}), node("neg", {ind}), node("add", {ind, x}), node("mul", {ind, x}), x, node("select", {node("gt", {ind, X_(1)}), ind, node("neg", {ind})}, XT), node("mul", {X_(2), ind}), node("max", {x, ind}), node("sub", {R_(0.5), ind})};
          for (auto &body : bodies) {
            make({r1}, body, at1, in1);
            for (auto &g : rgs)
              make({IR_(g.a, g.b, g.s, t)}, body, at1, {in1[0]});
          }
          const std::vector<Type> at2 = {t, t, t, RT};
          for (auto &h : rgs) {
            E i = argE(4, XT), j = argE(5, XT);
            for (auto &body : std::vector<E>{node("add", {i, j}), node("sub", {node("mul", {i, j}), i}), node("mul", {j, x}), j, node("add", {node("mul", {X_(10), i}), j})}) {
              make({r1, IR_(h.a, h.b, h.s, t)}, body, at2, in1);
              make({IR_(h.a, h.b, h.s, t), r1}, body, at2, in1);
            }
          }
          // Elements of arrays.
          std::vector<E> as = {argE(0, RankedTensorType::get({4}, RT)), argE(0, RankedTensorType::get({ShapedType::kDynamic}, RT))};
          for (auto &a : as) {
            Val w = Val::tensor({4}, Sc::real(0));
            for (int k = 0; k < 4; ++k)
              w.e[k] = Sc::real(k == 2 ? -3.25 : 1.5 * k);
            for (auto &g : std::vector<Rg>{{0, 3, 1}, {3, 0, -1}, {1, 3, 2}, {3, 1, -2}})
              make({IR_(g.a, g.b, g.s, t)}, node("tensor_extract", {a, argE(1, XT)}), {a.type}, {{w}});
          }
        }
  }
  if (ctx.suite("tensors")) {
    auto tens = [&](std::vector<int64_t> sh, Type t, int salt) {
      Val v = Val::tensor(sh, Sc::real(0));
      static const double pool[] = {1.5, -2, 0, 3, 0.5, -1, 4, 2.25, -3.5, 1, 2, 7};
      for (size_t i = 0; i < v.e.size(); ++i) {
        double x = pool[(i * 5 + salt) % 12];
        v.e[i] = t == RT ? Sc::real(x) : t == IT ? Sc::integer(int64_t(x)) : t == XT ? Sc::integer(int64_t(std::fabs(x))) : Sc::boolean(x > 0);
      }
      return v;
    };
    const int64_t D = ShapedType::kDynamic;
    struct Sh {
      std::vector<int64_t> stat, real;
    };
    std::vector<Sh> shapes = {{{2}, {2}}, {{3}, {3}}, {{D}, {2}}, {{D}, {3}}, {{2, 3}, {2, 3}}, {{3, 2}, {3, 2}}, {{2, 2}, {2, 2}}, {{D, D}, {2, 3}}, {{D, 2}, {3, 2}}, {{3, D}, {3, 3}}, {{D}, {0}}, {{2, 2, 2}, {2, 2, 2}}};
    std::vector<Type> ts = {BT, IT, RT};
    auto both = [&](const Sh &s, Type t, int arg, std::vector<Type> &at, std::vector<std::vector<Val>> &in) {
      at.push_back(RankedTensorType::get(s.stat, t));
      in[0].push_back(tens(s.real, t, arg));
      in[1].push_back(tens(s.real, t, 7 - arg));
    };
    for (auto &s : shapes)
      for (Type t : ts) {
        std::vector<Type> at;
        std::vector<std::vector<Val>> in(2);
        both(s, t, 0, at, in);
        at.push_back(XT);
        in[0].push_back(S(Sc::integer(0)));
        in[1].push_back(S(Sc::integer(1)));
        E a = argE(0, at[0]);
        for (auto &op : unary) {
          one({{node(op, {a})}, at, in}, "tensor unary");
        }
        for (Type rt : ts)
          one({{node("cast", {a}, RankedTensorType::get(s.stat, rt))}, at, in}, "tensor cast");
        for (auto &op : {"sum", "product", "max", "min"}) {
          one({{node(op, {a})}, at, in}, "tensor reduction");
        }
        one({{node("ndims", {a}, IT)}, at, in}, "tensor size");
        one({{node("ndims", {a}, XT)}, at, in}, "tensor size");
        for (Type rt : {IT, XT}) {
          one({{node("size", {a}, RankedTensorType::get({int64_t(s.stat.size())}, rt))}, at, in}, "tensor size");
          one({{node("size", {a, argE(1, XT)}, rt)}, at, in}, "tensor size");
          for (int64_t k = 0; k < int64_t(s.stat.size()); ++k)
            one({{node("size", {a, X_(k)}, rt)}, at, in}, "tensor size");
        }
        if (s.stat.size() == 2) {
          for (Type rt : {t}) {
            one({{node("transpose", {a}, RankedTensorType::get({s.stat[1], s.stat[0]}, rt))}, at, in}, "tensor transpose");
            one({{node("transpose", {a}, RankedTensorType::get({D, D}, rt))}, at, in}, "tensor transpose");
            if (s.real[0] == s.real[1]) {
              one({{node("symmetric", {a}, RankedTensorType::get(s.stat, rt))}, at, in}, "tensor symmetric");
              one({{node("symmetric", {a}, RankedTensorType::get({D, D}, rt))}, at, in}, "tensor symmetric");
            }
          }
          for (Type rt : {t})
            for (auto &e : {I_(0), I_(1), I_(2), I_(3)})
              one({{node("pow", {a, e}, RankedTensorType::get(s.stat, rt))}, at, in}, "tensor pow");
        }
        if (s.stat.size() == 1)
          for (Type rt : {t}) {
            one({{node("diagonal", {a}, RankedTensorType::get({s.real[0], s.real[0]}, rt))}, at, in}, "tensor diagonal");
            one({{node("diagonal", {a}, RankedTensorType::get({D, D}, rt))}, at, in}, "tensor diagonal");
          }
        // Binary operations with tensors and scalars.
        for (auto &s2 : shapes)
          for (Type u : ts)
            for (auto &op : binary) {
              auto at2 = std::vector<Type>{at[0]};
              std::vector<std::vector<Val>> in2 = {{in[0][0]}, {in[1][0]}};
              both(s2, u, 3, at2, in2);
              if (!T && s.stat != s2.stat && op != "mul" && s.real != s2.real)
                continue;
              one({{node(op, {a, argE(1, at2[1])})}, at2, in2}, "tensor binary");
            }
        for (Type u : types)
          for (auto &op : binary) {
            std::vector<Type> at2 = {at[0], u};
            std::vector<std::vector<Val>> in2 = {{in[0][0], S(values(u).back())}, {in[1][0], S(values(u)[1])}};
            for (int side = 0; side < 2; ++side) {
              std::vector<E> kids = {a, argE(1, u)};
              if (side)
                std::swap(kids[0], kids[1]);
              one({{node(op, kids)}, at2, in2}, "tensor scalar");
            }
          }
      }
    // Construction.
    for (Type t : types)
      for (Type rt : ts) {
        std::vector<Type> at = {t, t, IT, XT};
        std::vector<std::vector<Val>> in = {{S(values(t)[0]), S(values(t)[1]), S(Sc::integer(2)), S(Sc::integer(3))}, {S(values(t).back()), S(values(t)[0]), S(Sc::integer(1)), S(Sc::integer(2))}};
        E x = argE(0, t), y = argE(1, t), n = argE(2, IT), q = argE(3, XT);
        auto ten = [&](std::vector<int64_t> s) { return RankedTensorType::get(s, rt); };
        one({{node("tensor_from_elements", {x, y, x, y}, ten({2, 2}))}, at, in}, "construction");
        one({{node("tensor_from_elements", {x, y}, ten({2}))}, at, in}, "construction");
        one({{node("tensor_broadcast", {x}, ten({2, 3}))}, at, in}, "construction");
        one({{node("tensor_broadcast", {x, q}, ten({D, 2}))}, at, in}, "construction");
        one({{node("fill", {x}, ten({2, 3}))}, at, in}, "construction");
        for (auto &op : {"zeros", "ones"}) {
          for (auto &d : {n, q}) {
            one({{node(op, {d}, ten({D}))}, at, in}, "construction");
            one({{node(op, {d, q}, ten({D, D}))}, at, in}, "construction");
            one({{node(op, {I_(2), d}, ten({2, D}))}, at, in}, "construction");
            one({{node(op, {d, I_(2)}, ten({D, 2}))}, at, in}, "construction");
          }
          one({{node(op, {I_(2), I_(3)}, ten({2, 3}))}, at, in}, "construction");
        }
        for (auto &d : {n, q})
          one({{node("identity", {d}, ten({D, D}))}, at, in}, "construction");
        one({{node("identity", {I_(3)}, ten({3, 3}))}, at, in}, "construction");
        for (auto &d : {n, q})
          one({{node("linspace", {x, y, d}, ten({D}))}, at, in}, "construction");
        one({{node("linspace", {x, y, I_(3)}, ten({3}))}, at, in}, "construction");
      }
    // Views, extractions and insertions.
    for (auto &s : shapes)
      for (Type t : ts) {
        std::vector<Type> at;
        std::vector<std::vector<Val>> in(2);
        both(s, t, 0, at, in);
        Type xr = bm::RangeType::get(mctx, XT);
        at.insert(at.end(), {XT, XT, IT, XT, XT});
        for (int k = 0; k < 2; ++k)
          for (int64_t v : {k, 1 - k, k, k, 1})
            in[k].push_back(S(Sc::integer(v)));
        E a = argE(0, at[0]);
        std::vector<E> subs = {X_(0), X_(1), argE(1, XT), argE(2, XT), IR_(0, 1, 1, XT), IR_(1, 1, 1, XT), IR_(0, 2, 2, XT), node("range", {argE(4, XT), argE(5, XT), X_(1)}, xr), node("unbounded_range", {}, xr), IR_(2, 0, -1, XT), IR_(1, 0, -1, XT)};
        std::vector<std::vector<E>> lists;
        for (auto &i : subs) {
          lists.push_back({i});
          if (s.stat.size() > 1)
            for (auto &j : subs) {
              lists.push_back({i, j});
              if (s.stat.size() > 2 && T)
                for (auto &k : subs)
                  lists.push_back({i, j, k});
            }
        }
        for (auto &l : lists) {
          std::vector<E> k = {a};
          k.insert(k.end(), l.begin(), l.end());
          one({{node("tensor_view", k)}, at, in}, "views");
          bool scalars = true;
          for (auto &q : l)
            scalars &= q.op == "cst" ? !isa<bm::IntegerRangeAttr>(q.value) : q.op == "arg";
          if (l.size() == s.stat.size() && scalars) {
            one({{node("tensor_extract", k)}, at, in}, "extract");
            for (Type u : ts) {
              auto at2 = at;
              auto in2 = in;
              at2.push_back(u);
              in2[0].push_back(S(values(u)[0]));
              in2[1].push_back(S(values(u)[1]));
              std::vector<E> k2 = {argE(6, u), a};
              k2.insert(k2.end(), l.begin(), l.end());
              one({{node("tensor_insert", k2, at[0])}, at2, in2}, "insert");
            }
          } else
            for (Type u : ts) {
              // Store of a tensor with the shape of the view.
              Interp it;
              it.module = nullptr;
              std::vector<std::vector<Val>> in2 = in;
              std::vector<int64_t> shp;
              bool ok = true;
              OpBuilder b(mctx);
              for (int q = 0; q < 2 && ok; ++q) {
                std::vector<Val> sv;
                for (auto &e : l) {
                  Val v;
                  if (e.op == "cst")
                    v = it.attr(e.value);
                  else if (e.op == "arg")
                    v = in[q][e.arg];
                  else if (e.op == "range") {
                    v.kind = Val::Range;
                    v.e = {in[q][4].e[0], in[q][5].e[0], Sc::integer(1)};
                  }
                  sv.push_back(v);
                }
                Val w = it.view(in[q][0], sv);
                ok = !it.bad() && (q == 0 || w.shape.size() == shp.size());
                shp = w.shape;
                if (ok)
                  in2[q].push_back(tens(w.shape, u, 2 + q));
              }
              if (!ok || shp.empty())
                continue;
              auto at2 = at;
              std::vector<int64_t> dyn(shp.size(), D);
              at2.push_back(RankedTensorType::get(dyn, u));
              std::vector<E> k2 = {argE(6, at2.back()), a};
              k2.insert(k2.end(), l.begin(), l.end());
              one({{node("tensor_insert_slice", k2, at[0])}, at2, in2}, "insert slice");
            }
        }
      }
  }
  return ctx.finish();
}

// Symbolic differentiation: the derivatives the compiler produces against dual numbers.
#include "mc.h"
#include "mid/exprs.h"
#include "marco/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/DerivableTypeInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/ClassInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/ConstantMaterializableTypeInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/EquationExpressionOpInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/ForwardAD.h"
#include "marco/Dialect/BaseModelica/Transforms/Passes.h"
#include "mlir/Pass/PassManager.h"
#include <set>

static mc::Ctx ctx;
namespace fad = mlir::bmodelica::ad::forward;

// Statements of functions.
struct St {
  enum K { Set, If, For, While } k;
  std::string var;          // Set
  std::vector<E> e;         // Set: value and subscripts; If, While: condition; For: range
  std::vector<St> a, b;     // bodies
};
struct Var {
  std::string name;
  Type type;
  bm::IOProperty io;
};
struct Fn {
  std::string name;
  std::vector<Var> vars;
  std::vector<St> body;
};

static E var(const std::string &n, Type t) {
  E e;
  e.op = "var";
  e.value = StringAttr::get(mctx, n);
  e.type = t;
  return e;
}
static St set_(const std::string &v, E e, std::vector<E> subs = {}) {
  St s{St::Set, v, {e}, {}, {}};
  s.e.insert(s.e.end(), subs.begin(), subs.end());
  return s;
}

static std::string text(const std::vector<St> &b) {
  std::string r;
  for (auto &s : b) {
    if (s.k == St::Set) {
      r += s.var;
      for (size_t i = 1; i < s.e.size(); ++i)
        r += "[" + text(s.e[i]) + "]";
      r += " := " + text(s.e[0]) + "; ";
    } else if (s.k == St::If)
      r += "if " + text(s.e[0]) + " { " + text(s.a) + "} else { " + text(s.b) + "} ";
    else
      r += std::string(s.k == St::For ? "for " : "while ") + text(s.e[0]) + " { " + text(s.a) + "} ";
  }
  return r;
}
static std::string text(const Fn &f) {
  std::string r = f.name + "(";
  for (auto &v : f.vars)
    r += (v.io == bm::IOProperty::input ? "input " : v.io == bm::IOProperty::output ? "output " : "") + str(v.type) + " " + v.name + "; ";
  return r + ") { " + text(f.body) + "}";
}

static bool emit(OpBuilder &b, const std::vector<St> &body, ValueRange args) {
  Location loc = b.getUnknownLoc();
  for (auto &s : body) {
    if (s.k == St::Set) {
      Value v = build(b, s.e[0], args);
      std::vector<Value> subs;
      for (size_t i = 1; i < s.e.size(); ++i)
        subs.push_back(build(b, s.e[i], args));
      if (!v)
        return false;
      b.create<bm::VariableSetOp>(loc, s.var, subs, v);
    } else if (s.k == St::If) {
      Value c = build(b, s.e[0], args);
      auto op = b.create<bm::IfOp>(loc, c, !s.b.empty());
      OpBuilder::InsertionGuard g(b);
      b.setInsertionPointToStart(op.thenBlock());
      if (!emit(b, s.a, args))
        return false;
      if (!s.b.empty()) {
        b.setInsertionPointToStart(op.elseBlock());
        if (!emit(b, s.b, args))
          return false;
      }
    } else {
      auto op = b.create<bm::WhileOp>(loc);
      OpBuilder::InsertionGuard g(b);
      b.setInsertionPointToStart(b.createBlock(&op.getConditionRegion()));
      b.create<bm::ConditionOp>(loc, build(b, s.e[0], args), ValueRange());
      b.setInsertionPointToStart(b.createBlock(&op.getBodyRegion()));
      if (!emit(b, s.a, args))
        return false;
    }
  }
  return true;
}

static Type varType(const Var &v) {
  SmallVector<int64_t> shape;
  if (auto s = dyn_cast<ShapedType>(v.type))
    shape.assign(s.getShape().begin(), s.getShape().end());
  return bm::VariableType::get(shape, Interp::elem(v.type), bm::VariabilityProperty::none, v.io);
}

static bm::FunctionOp emit(OpBuilder &b, const Fn &f, bool &ok) {
  Location loc = b.getUnknownLoc();
  OpBuilder::InsertionGuard g(b);
  auto fn = b.create<bm::FunctionOp>(loc, f.name);
  b.setInsertionPointToStart(b.createBlock(&fn.getBodyRegion()));
  for (auto &v : f.vars)
    b.create<bm::VariableOp>(loc, v.name, cast<bm::VariableType>(varType(v)));
  auto alg = b.create<bm::AlgorithmOp>(loc);
  b.setInsertionPointToStart(b.createBlock(&alg.getBodyRegion()));
  ok = emit(b, f.body, {});
  return fn;
}

static bool finite(const Val &v, bool der) {
  for (auto &x : v.e)
    if (!std::isfinite(x.num()) || (der && !std::isfinite(x.der())))
      return false;
  return true;
}
static bool finite(const std::vector<Val> &v) {
  for (auto &x : v)
    if (!finite(x, false))
      return false;
  return true;
}
static Val tangent(Val v) {
  for (auto &x : v.e)
    x = Sc::real(x.der());
  return v;
}
static bool realVar(const Var &v) { return isa<bm::RealType>(Interp::elem(v.type)); }

// The numbers given to variables, with their derivatives.
static Val number(const Var &v, int salt, int dsalt) {
  static const double pool[] = {0.5, -0.75, 2, 0.25, 1.5, -2, 0.75, -0.5};
  static const double ders[] = {1, 0, -2, 0.5, 3};
  auto one = [&](int k) {
    if (isa<bm::RealType>(Interp::elem(v.type)))
      return Sc::real(pool[(salt + k * 3) % 8], ders[(dsalt + k) % 5]);
    if (isa<bm::BooleanType>(Interp::elem(v.type)))
      return Sc::boolean((salt + k) & 1);
    return Sc::integer((salt + k) % 3);
  };
  if (auto s = dyn_cast<ShapedType>(v.type)) {
    std::vector<int64_t> shape(s.getShape().begin(), s.getShape().end());
    for (auto &d : shape)
      if (d == ShapedType::kDynamic)
        d = 2;
    Val r = Val::tensor(shape, Sc::real(0));
    for (size_t k = 0; k < r.e.size(); ++k)
      r.e[k] = one(k);
    return r;
  }
  return S(one(0));
}

static std::string names(const std::vector<Val> &v, bool der = false) {
  std::string r;
  for (auto &x : v)
    r += " " + show(der ? tangent(x) : x);
  return r;
}

// Does the derivative have to exist wherever the function does? Not for powers of variable exponent.
static bool variablePower(ModuleOp m) {
  bool r = false;
  m.walk([&](Operation *op) {
    if (isa<bm::PowOp, bm::PowEWOp>(op) && !op->getOperand(1).getDefiningOp<bm::ConstantOp>() && isa<bm::RealType>(Interp::elem(op->getOperand(1).getType())))
      r = true;
  });
  return r;
}

struct Result {
  bool singular = false;
  std::vector<Val> v;
  std::string bad;
};
static Result evaluate(ModuleOp m, llvm::StringRef f, const std::vector<Val> &args) {
  Interp it;
  it.module = m;
  Result r;
  Operation *fn = SymbolTable::lookupSymbolIn(m, f);
  if (!fn) {
    r.bad = "there is no function " + f.str();
    return r;
  }
  r.v = it.call(fn, args);
  r.singular = it.singular;
  r.bad = !it.unsupported.empty() ? "unsupported: " + it.unsupported : it.undefined;
  return r;
}

static bool arrays(const E &e) {
  bool r = isa_and_nonnull<ShapedType>(e.type);
  for (auto &k : e.kids)
    r |= arrays(k);
  return r;
}

// Expressions made of these operations only have to be derived.
static bool derivable(const E &e) {
  static const std::set<std::string> ops = {"var", "arg", "cst", "neg", "acos", "asin", "atan", "cos", "cosh", "exp", "log", "log10", "sin", "sinh", "sqrt", "tan", "tanh", "add", "sub", "mul", "div", "pow", "add_ew", "sub_ew", "mul_ew", "div_ew", "pow_ew", "atan2", "time", "tensor_extract", "tensor_view", "tensor_from_elements", "tensor_broadcast", "fill"};
  if (!ops.count(e.op) || (e.op == "pow" && arrays(e) && e.kids[1].op != "cst"))
    return false;
  for (auto &k : e.kids)
    if (!derivable(k) || (k.op == "arg" && e.op != "tensor_extract" && e.op != "tensor_view"))
      return false; // indexes have no derivative
  return true;
}
static bool derivable(const std::vector<St> &b) {
  for (auto &s : b) {
    for (auto &e : s.e)
      if (s.k == St::Set && !derivable(e))
        return false;
    if (!derivable(s.a) || !derivable(s.b))
      return false;
  }
  return true;
}

// Is there a point where the function can be evaluated?
static bool meaningful(ModuleOp m, const Fn &f) {
  for (int salt = 0; salt < 12; ++salt) {
    std::vector<Val> x;
    int k = 0;
    for (auto &v : f.vars)
      if (v.io == bm::IOProperty::input)
        x.push_back(number(v, salt + 3 * k, 0)), ++k;
    if (evaluate(m, f.name, x).bad.empty())
      return true;
  }
  return false;
}

// Time derivative of a function, up to an order.
static void timeDerivative(const std::vector<Fn> &fs, const char *suite, int order) {
  if (!ctx.take())
    return;
  std::string t;
  ctx.describe([&] {
    std::string r = std::string(suite) + ", order " + std::to_string(order) + ":";
    for (auto &f : fs)
      r += " " + text(f);
    return r;
  });
  const Fn &f = fs.back();
  OwningOpRef<ModuleOp> m = ModuleOp::create(UnknownLoc::get(mctx));
  OpBuilder b(mctx);
  b.setInsertionPointToEnd(m->getBody());
  for (auto &g : fs) {
    bool ok;
    auto fn = emit(b, g, ok);
    if (!ok) {
      ctx.outcome("not typed");
      return;
    }
    fn.setDerivativeAttr(bm::FunctionDerivativeAttr::get(mctx, g.name + "_der", 1));
  }
  {
    Diags d(mctx);
    if (failed(verify(*m))) {
      ctx.outcome("not valid");
      return;
    }
  }
  std::string before = print(m.get());
  ctx.state(before);
  bool vp = variablePower(*m);
  if (!meaningful(*m, f)) {
    ctx.outcome("undefined");
    return;
  }
  std::string der = f.name;
  for (int o = 1; o <= order; ++o) {
    Diags d(mctx);
    if (o > 1)
      for (auto &g : fs)
        cast<bm::FunctionOp>(SymbolTable::lookupSymbolIn(*m, g.name)).removeDerivativeAttr();
    if (o > 1)
      for (auto &g : fs) {
        auto fn = cast<bm::FunctionOp>(SymbolTable::lookupSymbolIn(*m, g.name + "_der"));
        fn.setDerivativeAttr(bm::FunctionDerivativeAttr::get(mctx, g.name + "_der2", 2));
      }
    PassManager p(mctx);
    p.addPass(bm::createAutomaticDifferentiationPass());
    if (failed(p.run(*m))) {
      if (derivable(f.body) && fs.size() == 1)
        ctx.fail(std::string(suite) + "/refused", before + " => is not derived");
      ctx.outcome("not derived");
      if (getenv("VERIF_NOTDERIVED"))
        fprintf(stderr, "NOTDERIVED %s\n", text(f).c_str());
      return;
    }
    der = o == 1 ? f.name + "_der" : f.name + "_der2";
  }
  ++ctx.transitions;
  auto report = [&](const std::string &sig, const std::string &what) { ctx.fail(std::string(suite) + "/" + sig, "derivative of " + before + " => " + what + "; result: " + print(m.get())); };
  for (int salt = 0; salt < (ctx.thorough ? 40 : 12); ++salt) {
    std::vector<Val> x, dx, ddx;
    int k = 0;
    for (auto &v : f.vars)
      if (v.io == bm::IOProperty::input) {
        x.push_back(number(v, salt + 3 * k, salt / 3 + 2 * k));
        if (realVar(v)) {
          dx.push_back(tangent(x.back()));
          Val d2 = number(v, salt + k, salt + k);
          for (size_t q = 0; q < d2.e.size(); ++q)
            dx.back().e[q].t = order > 1 ? d2.e[q].t : 0;
          ddx.push_back(tangent(d2));
        }
        ++k;
      }
    std::string base = f.name;
    std::vector<Val> args = x;
    if (order == 2) {
      base = f.name + "_der";
      args.insert(args.end(), dx.begin(), dx.end());
    }
    auto want = evaluate(*m, base, args);
    if (want.bad.compare(0, 11, "unsupported") == 0) {
      ctx.outcome(want.bad);
      return;
    }
    bool fin = want.bad.empty() && !want.singular;
    for (auto &v : want.v)
      fin &= finite(v, true);
    if (!fin) {
      ctx.outcome("undefined");
      continue;
    }
    std::vector<Val> all = args;
    for (auto &v : order == 2 ? ddx : dx)
      all.push_back(v);
    for (auto &v : all)
      for (auto &s : v.e)
        s.t = 0;
    auto got = evaluate(*m, der, all);
    ++ctx.traces;
    bool ok = got.bad.empty();
    std::vector<Val> wt;
    for (auto &v : want.v)
      wt.push_back(tangent(v));
    if (vp && (!ok || !finite(got.v)) && got.bad.compare(0, 11, "unsupported") != 0) {
      ctx.outcome("power of variable exponent");
      continue;
    }
    // Only the outputs made of reals have derivatives.
    size_t at = 0;
    std::vector<Val> real;
    for (auto &v : f.vars)
      if (v.io == bm::IOProperty::output) {
        if (realVar(v) && at < wt.size())
          real.push_back(wt[at]);
        ++at;
      }
    wt = real;
    ok = ok && wt.size() == got.v.size();
    for (size_t i = 0; ok && i < wt.size(); ++i)
      ok = same(wt[i], got.v[i], false, 1e-7);
    if (!ok) {
      report("time derivative", "with arguments" + names(args) + " of derivatives" + names(order == 2 ? ddx : dx) + " the derivative is" + names(wt) + " and the function computes" + (got.bad.empty() ? names(got.v) : " nothing (" + got.bad + ")"));
      return;
    }
    ctx.outcome("derived");
  }
}

// Partial derivatives of a function with respect to one or two inputs.
static void partialDerivative(const std::vector<Fn> &fs, const std::vector<std::string> &wrt, const char *suite) {
  if (!ctx.take())
    return;
  const Fn &f = fs.back();
  ctx.describe([&] {
    std::string r = std::string(suite) + ", with respect to";
    for (auto &w : wrt)
      r += " " + w;
    for (auto &g : fs)
      r += " " + text(g);
    return r;
  });
  OwningOpRef<ModuleOp> m = ModuleOp::create(UnknownLoc::get(mctx));
  OpBuilder b(mctx);
  b.setInsertionPointToEnd(m->getBody());
  for (auto &g : fs) {
    bool ok;
    emit(b, g, ok);
    if (!ok) {
      ctx.outcome("not typed");
      return;
    }
  }
  auto request = [&](const std::string &name, ArrayRef<std::string> vars) {
    SmallVector<Attribute> a;
    for (auto &v : vars)
      a.push_back(StringAttr::get(mctx, v));
    OperationState st(b.getUnknownLoc(), "bmodelica.der_function");
    st.addAttribute("sym_name", StringAttr::get(mctx, name));
    st.addAttribute("derivedFunction", FlatSymbolRefAttr::get(mctx, f.name));
    st.addAttribute("independentVars", ArrayAttr::get(mctx, a));
    b.create(st);
  };
  request("d1", ArrayRef(wrt).take_front());
  if (wrt.size() > 1)
    request("d2", wrt);
  {
    Diags d(mctx);
    if (failed(verify(*m))) {
      ctx.outcome("not valid");
      return;
    }
  }
  std::string before = print(m.get());
  ctx.state(before);
  bool vp = variablePower(*m);
  if (!meaningful(*m, f)) {
    ctx.outcome("undefined");
    return;
  }
  {
    Diags d(mctx);
    PassManager p(mctx);
    p.addPass(bm::createAutomaticDifferentiationPass());
    if (failed(p.run(*m))) {
      if (derivable(f.body) && fs.size() == 1)
        ctx.fail(std::string(suite) + "/refused", before + " => is not derived");
      ctx.outcome("not derived");
      return;
    }
  }
  ++ctx.transitions;
  auto report = [&](const std::string &sig, const std::string &what) { ctx.fail(std::string(suite) + "/" + sig, "derivative of " + before + " => " + what + "; result: " + print(m.get())); };
  for (int salt = 0; salt < (ctx.thorough ? 40 : 12); ++salt) {
    std::vector<Val> x, plain;
    int k = 0;
    for (auto &v : f.vars)
      if (v.io == bm::IOProperty::input) {
        x.push_back(number(v, salt + 3 * k, 0));
        for (auto &s : x.back().e)
          s.t = 0;
        plain.push_back(x.back());
        if (v.name == wrt.back())
          x.back().e[0].t = 1;
        ++k;
      }
    auto want = evaluate(*m, wrt.size() == 1 ? f.name : "d1", x);
    if (want.bad.compare(0, 11, "unsupported") == 0) {
      ctx.outcome(want.bad);
      return;
    }
    bool fin = want.bad.empty() && !want.singular;
    for (auto &v : want.v)
      fin &= finite(v, true);
    if (!fin) {
      ctx.outcome("undefined");
      continue;
    }
    auto got = evaluate(*m, wrt.size() == 1 ? "d1" : "d2", plain);
    ++ctx.traces;
    if (vp && (!got.bad.empty() || !finite(got.v)) && got.bad.compare(0, 11, "unsupported") != 0) {
      ctx.outcome("power of variable exponent");
      continue;
    }
    std::vector<Val> wt;
    for (auto &v : want.v)
      wt.push_back(tangent(v));
    bool ok = got.bad.empty() && got.v.size() == wt.size();
    for (size_t i = 0; ok && i < wt.size(); ++i)
      ok = same(wt[i], got.v[i], false, 1e-7);
    if (!ok) {
      report("partial derivative", "with arguments" + names(plain) + " the derivative is" + names(wt) + " and the function computes" + (got.bad.empty() ? names(got.v) : " nothing (" + got.bad + ")"));
      return;
    }
    ctx.outcome("derived");
  }
}

// der(expression) within a function.
static void chainRule(const std::vector<Var> &in, const E &e, Type out, const char *suite) {
  if (!ctx.take())
    return;
  ctx.describe([&] { return std::string(suite) + " der(" + text(e) + ")"; });
  Fn f{"f", {}, {set_("z", node("der", {e}, out))}};
  for (auto &v : in)
    f.vars.push_back(v);
  for (auto &v : in)
    if (realVar(v))
      f.vars.push_back({"der_" + v.name, v.type, v.io});
  f.vars.push_back({"z", out, bm::IOProperty::output});
  OwningOpRef<ModuleOp> m = ModuleOp::create(UnknownLoc::get(mctx));
  OpBuilder b(mctx);
  b.setInsertionPointToEnd(m->getBody());
  bool ok;
  emit(b, f, ok);
  {
    Diags d(mctx);
    if (!ok || failed(verify(*m))) {
      ctx.outcome("not valid");
      return;
    }
  }
  std::string before = print(m.get());
  ctx.state(before);
  bool vp = variablePower(*m);
  if (!meaningful(*m, f)) {
    ctx.outcome("undefined");
    return;
  }
  OwningOpRef<ModuleOp> orig = m->clone();
  {
    Diags d(mctx);
    PassManager p(mctx);
    p.addPass(bm::createDerivativeChainRulePass());
    if (failed(p.run(*m))) {
      if (derivable(e))
        ctx.fail(std::string(suite) + "/refused", before + " => is not derived");
      ctx.outcome("refused");
      return;
    }
    if (failed(verify(*m))) {
      ctx.fail(std::string(suite) + "/invalid", "the result is not valid: " + before + " => " + print(m.get()));
      return;
    }
  }
  bool left = false;
  m->walk([&](bm::DerOp) { left = true; });
  if (left) {
    if (derivable(e) && !e.kids.empty())
      ctx.fail(std::string(suite) + "/refused", before + " => is not derived");
    ctx.outcome("not derived");
    return;
  }
  ++ctx.transitions;
  for (int salt = 0; salt < 12; ++salt) {
    std::vector<Val> args;
    int k = 0;
    for (auto &v : in)
      args.push_back(number(v, salt + 3 * k, salt / 3 + 2 * k)), ++k;
    auto plain = args;
    for (size_t i = 0; i < in.size(); ++i)
      if (realVar(in[i])) {
        args.push_back(tangent(args[i]));
        plain.push_back(tangent(args[i]));
      }
    for (auto &v : plain)
      for (auto &s : v.e)
        s.t = 0;
    auto want = evaluate(*orig, "f", args);
    if (want.bad.compare(0, 11, "unsupported") == 0) {
      ctx.outcome(want.bad);
      return;
    }
    if (!want.bad.empty() || want.singular || !finite(want.v[0], false)) {
      ctx.outcome("undefined");
      continue;
    }
    auto got = evaluate(*m, "f", plain);
    ++ctx.traces;
    if (vp && (!got.bad.empty() || !finite(got.v)) && got.bad.compare(0, 11, "unsupported") != 0)
      continue;
    if (!got.bad.empty() || got.v.size() != 1 || !same(want.v[0], got.v[0], false, 1e-7)) {
      ctx.fail(std::string(suite) + "/chain rule", "derivative of " + before + " => with arguments" + names(plain) + " the derivative is" + names(want.v) + " and the function computes" + (got.bad.empty() ? names(got.v) : " nothing (" + got.bad + ")") + "; result: " + print(m.get()));
      return;
    }
    ctx.outcome("derived");
  }
}

// Derivative of an equation of a model.
static void equation(const std::vector<Var> &vs, const E &lhs, const E &rhs, int inductions, const char *suite, const std::set<std::string> &constants = {}) {
  auto varies = [&](const Var &v) { return realVar(v) && !constants.count(v.name); };
  if (!ctx.take())
    return;
  ctx.describe([&] { 
    std::string c;
    for (auto &n : constants)
      c += ", " + n + " constant";
    return std::string(suite) + " " + text(lhs) + " = " + text(rhs) + c;
  });
  OwningOpRef<ModuleOp> m = ModuleOp::create(UnknownLoc::get(mctx));
  OpBuilder b(mctx);
  Location loc = b.getUnknownLoc();
  b.setInsertionPointToEnd(m->getBody());
  auto model = b.create<bm::ModelOp>(loc, "M");
  b.setInsertionPointToStart(b.createBlock(&model.getBodyRegion()));
  std::vector<bm::VariableOp> vars, ders;
  for (auto &v : vs)
    vars.push_back(b.create<bm::VariableOp>(loc, v.name, cast<bm::VariableType>(varType(v))));
  for (auto &v : vs)
    ders.push_back(varies(v) ? b.create<bm::VariableOp>(loc, "der_" + v.name, cast<bm::VariableType>(varType(v))) : bm::VariableOp());
  auto tpl = b.create<bm::EquationTemplateOp>(loc);
  tpl.createBody(inductions);
  {
    OpBuilder::InsertionGuard g(b);
    b.setInsertionPointToStart(tpl.getBody());
    std::vector<Value> args(tpl.getInductionVariables().begin(), tpl.getInductionVariables().end());
    Value l = build(b, lhs, args), r = build(b, rhs, args);
    if (!l || !r) {
      ctx.outcome("not typed");
      return;
    }
    auto le = b.create<bm::EquationSideOp>(loc, l), re = b.create<bm::EquationSideOp>(loc, r);
    b.create<bm::EquationSidesOp>(loc, le, re);
  }
  {
    Diags d(mctx);
    if (failed(verify(*m))) {
      ctx.outcome("not valid");
      return;
    }
  }
  std::string before = print(m.get());
  ctx.state(before);
  bool vp = variablePower(*m);
  bool singular = false;
  auto eval = [&](bm::EquationTemplateOp t, int salt, bool dual, std::string &bad) {
    Interp it;
    it.module = *m;
    it.time = 0.375;
    for (size_t i = 0; i < vs.size(); ++i) {
      Val v = number(vs[i], salt + 3 * i, salt / 3 + 2 * i);
      if (ders[i])
        it.vars["der_" + vs[i].name] = tangent(v);
      if (!dual || !ders[i])
        for (auto &s : v.e)
          s.t = 0;
      it.vars[vs[i].name] = v;
    }
    int q = 0;
    for (Value iv : t.getInductionVariables())
      it.env[iv] = S(Sc::integer((salt + q++) % 2));
    it.block(*t.getBody());
    std::vector<Val> r;
    auto sides = cast<bm::EquationSidesOp>(t.getBody()->getTerminator());
    for (Value s : {sides.getLhs(), sides.getRhs()})
      for (Value v : s.getDefiningOp<bm::EquationSideOp>().getValues())
        if (!it.bad()) {
          r.push_back(it.get(v));
          auto t = dyn_cast<ShapedType>(v.getType());
          if (bool(t) != (r.back().kind == Val::Tensor) || (t && t.hasStaticShape() && std::vector<int64_t>(t.getShape().begin(), t.getShape().end()) != r.back().shape))
            it.undef("a value is not of its type");
        }
    if (dual)
      singular = it.singular;
    bad = !it.unsupported.empty() ? "unsupported: " + it.unsupported : it.undefined;
    return r;
  };
  {
    bool any = false;
    for (int salt = 0; salt < 12 && !any; ++salt) {
      std::string bad;
      eval(tpl, salt, true, bad);
      any = bad.empty();
    }
    if (!any) {
      ctx.outcome("undefined");
      return;
    }
  }
  fad::Options options;
  options.unknowVariablesAsConstants = !constants.empty();
  fad::State st(options);
  for (size_t i = 0; i < vs.size(); ++i)
    if (ders[i])
      st.mapGenericOpDerivative(vars[i], ders[i]);
  SymbolTableCollection tables;
  IRRewriter rw(mctx);
  bm::EquationTemplateOp dt;
  {
    Diags d(mctx);
    dt = fad::createEquationTimeDerivative(rw, tables, st, tpl);
    if (!dt) {
      if (derivable(lhs) && derivable(rhs))
        ctx.fail(std::string(suite) + "/refused", before + " => is not derived");
      ctx.outcome("not derived");
      if (getenv("VERIF_NOTDERIVED"))
        fprintf(stderr, "NOTDERIVED %s = %s\n", text(lhs).c_str(), text(rhs).c_str());
      return;
    }
    if (failed(verify(*m))) {
      ctx.fail(std::string(suite) + "/invalid", "the derivative is not valid: " + before + " => " + print(m.get()));
      return;
    }
  }
  ++ctx.transitions;
  for (int salt = 0; salt < (ctx.thorough ? 40 : 12); ++salt) {
    std::string bw, bg;
    auto w = eval(tpl, salt, true, bw);
    if (bw.compare(0, 11, "unsupported") == 0) {
      ctx.outcome(bw);
      return;
    }
    bool fin = bw.empty() && !singular;
    std::vector<Val> wt;
    for (auto &v : w) {
      fin &= finite(v, true);
      wt.push_back(tangent(v));
    }
    if (!fin) {
      ctx.outcome("undefined");
      continue;
    }
    auto g = eval(dt, salt, false, bg);
    ++ctx.traces;
    if (vp && (!bg.empty() || !finite(g)) && bg.compare(0, 11, "unsupported") != 0) {
      ctx.outcome("power of variable exponent");
      continue;
    }
    bool ok = bg.empty() && g.size() == wt.size();
    for (size_t i = 0; ok && i < g.size(); ++i)
      ok = same(wt[i], g[i], false, 1e-7);
    if (!ok) {
      ctx.fail(std::string(suite) + "/equation", "derivative of " + before + " => the derivatives of the sides are" + names(wt) + " and the equation has" + (bg.empty() ? names(g) : " nothing (" + bg + ")") + "; result: " + print(m.get()));
      return;
    }
    ctx.outcome("derived");
  }
}

int main(int argc, char **argv) {
  ctx.parse(argc, argv);
  MLIRContext c(MLIRContext::Threading::DISABLED);
  DialectRegistry reg;
  bm::registerClassInterfaceExternalModels(reg);
  bm::registerConstantMaterializableTypeInterfaceExternalModels(reg);
  bm::registerEquationExpressionOpInterfaceExternalModels(reg);
  bm::registerDerivableOpInterfaceExternalModels(reg);
  bm::registerDerivableTypeInterfaceExternalModels(reg);
  c.appendDialectRegistry(reg);
  c.loadDialect<bm::BaseModelicaDialect>();
  initTypes(&c);
  const bool T = ctx.thorough;
  const auto IN = bm::IOProperty::input, OUT = bm::IOProperty::output, LOC = bm::IOProperty::none;
  const std::vector<std::string> unary = {"neg", "abs", "acos", "asin", "atan", "cos", "cosh", "exp", "log", "log10", "sign", "sin", "sinh", "sqrt", "tan", "tanh", "floor", "ceil", "integer"};
  const std::vector<std::string> binary = {"add", "sub", "mul", "div", "pow", "add_ew", "sub_ew", "mul_ew", "div_ew", "pow_ew", "atan2", "max", "min", "div_trunc", "mod", "rem"};
  E x = var("x", RT), y = var("y", RT), n = var("n", IT);
  std::vector<E> leaves = {x, y, n, R_(2.5), R_(-1.5), R_(0), I_(2), I_(3), I_(-1), I_(0), I_(1)};
  auto lift = [&](const std::vector<E> &l) {
    std::vector<E> r;
    for (auto &a : l)
      for (auto &op : unary)
        r.push_back(node(op, {a}));
    return r;
  };
  auto pairs = [&](const std::vector<E> &l, const std::vector<E> &k) {
    std::vector<E> r;
    for (auto &a : l)
      for (auto &b : k)
        for (auto &op : binary)
          r.push_back(node(op, {a, b}));
    return r;
  };
  std::vector<E> one = leaves, depth1 = lift(leaves), p = pairs(leaves, leaves);
  depth1.insert(depth1.end(), p.begin(), p.end());
  std::vector<E> depth2;
  {
    std::vector<E> few = {x, y, R_(2.5), I_(2)};
    if (T)
      few.insert(few.end(), {R_(-1.5), I_(3), I_(-1)});
    auto d = lift(few);
    auto q = pairs(few, few);
    d.insert(d.end(), q.begin(), q.end());
    depth2 = lift(d);
    for (auto &e : pairs(d, few))
      depth2.push_back(e);
    for (auto &e : pairs(few, d))
      depth2.push_back(e);
  }
  const std::vector<Var> xyn = {{"x", RT, IN}, {"y", RT, IN}, {"n", IT, IN}}, xy = {{"x", RT, IN}, {"y", RT, IN}};
  auto fn = [&](std::vector<Var> in, E e, Type t) {
    Fn f{"f", in, {set_("z", e)}};
    f.vars.push_back({"z", t, OUT});
    return f;
  };
  auto every = [&](auto &&go) {
    for (auto *l : {&one, &depth1, &depth2})
      for (auto &e : *l)
        go(e);
  };
  if (ctx.suite("equations")) {
    std::vector<Var> v = {{"x", RT, LOC}, {"y", RT, LOC}, {"n", IT, LOC}};
    every([&](const E &e) { equation(v, e, x, 0, "equations"); });
    every([&](const E &e) {
      equation(v, e, x, 0, "equations", {"y"});
      if (T)
        equation(v, y, e, 0, "equations", {"x", "y"});
    });
    E tm = node("time", {}, RT);
    for (auto &e : lift({tm}))
      equation(v, x, e, 0, "equations");
    for (auto &e : pairs({tm, x}, {tm, y}))
      equation(v, y, e, 0, "equations");
    // Arrays.
    for (int64_t sz : {2, 3}) {
      Type at = RankedTensorType::get({sz}, RT), mt = RankedTensorType::get({sz, 2}, RT);
      std::vector<Var> w = {{"a", at, LOC}, {"b", mt, LOC}, {"x", RT, LOC}};
      E a = var("a", at), bb = var("b", mt), i = argE(0, XT), j = argE(1, XT);
      std::vector<E> el = {node("tensor_extract", {a, i}), node("tensor_extract", {a, X_(1)}), node("tensor_extract", {bb, i, j}), node("tensor_extract", {bb, j, X_(0)}), node("tensor_extract", {node("tensor_view", {bb, i}), j}), x, i, I_(2)};
      for (auto &e : pairs(el, el))
        equation(w, el[0], e, 2, "equations");
      for (auto &e : lift(el))
        equation(w, e, el[2], 2, "equations");
      std::vector<E> whole = {a, node("neg", {a}), node("tensor_view", {bb, X_(1)}), node("mul", {x, a}), node("add", {a, a}), node("tensor_from_elements", {x, node("mul", {x, x})}, RankedTensorType::get({2}, RT)), node("tensor_broadcast", {x}, at), node("fill", {x}, at), bb, node("mul", {bb, bb}), node("tensor_view", {a, IR_(0, 1, 1, XT)}), node("tensor_view", {a, IR_(1, 0, -1, XT)}), node("tensor_insert", {x, a, i}, at), node("tensor_insert", {node("mul", {x, x}), node("neg", {a}), X_(1)}, at), node("tensor_insert", {I_(2), bb, j, X_(0)}, mt), node("tensor_insert_slice", {node("tensor_view", {bb, X_(0)}), bb, X_(1)}, mt), node("tensor_insert_slice", {a, a, IR_(0, sz - 1, 1, XT)}, at), cst(bm::DenseRealElementsAttr::get(RankedTensorType::get({2}, RT), std::vector<double>{0.5, 3}))};
      for (auto &e : whole)
        equation(w, e, e, 2, "equations");
      for (auto &e : pairs(whole, whole))
        equation(w, e, e, 2, "equations");
      for (auto &e : pairs(whole, {x, I_(2), R_(-1.5)}))
        equation(w, e, e, 2, "equations");
      for (auto &e : pairs({x, I_(2), R_(-1.5)}, whole))
        equation(w, e, e, 2, "equations");
      for (auto &e : lift(whole))
        equation(w, e, e, 2, "equations");
      // Reductions.
      for (Type t : {IT, XT}) {
        E k = argE(2, t);
        for (auto &body : std::vector<E>{node("tensor_extract", {a, k}), node("mul", {node("tensor_extract", {a, k}), x}), node("sin", {node("tensor_extract", {a, k})}), x, k, node("mul", {k, x}), node("tensor_extract", {bb, k, i})})
          for (const char *action : {"add", "mul", "min", "max"}) {
            E e = node("reduction", {IR_(0, sz - 1, 1, t)}, RT);
            e.value = StringAttr::get(mctx, action);
            e.body = {body};
            equation(w, x, e, 2, "equations");
            equation(w, x, node("mul", {e, x}), 2, "equations");
          }
      }
    }
  }
  if (ctx.suite("chain rule"))
    every([&](const E &e) { chainRule(xyn, e, RT, "chain rule"); });
  if (ctx.suite("functions")) {
    for (int order : {1, 2})
      every([&](const E &e) { timeDerivative({fn(xy, e, RT)}, "functions", order); });
    for (int order : {1, 2})
      for (auto &e : depth1)
        timeDerivative({fn(xyn, e, RT)}, "functions", order);
  }
  if (ctx.suite("partial derivatives")) {
    every([&](const E &e) {
      for (auto &w : std::vector<std::vector<std::string>>{{"x"}, {"y"}, {"x", "x"}, {"x", "y"}, {"y", "x"}}) {
        partialDerivative({fn(xy, e, RT)}, w, "partial derivatives");
      }
    });
  }
  if (ctx.suite("algorithms")) {
    for (int64_t size : {int64_t(2), ShapedType::kDynamic}) {
      Type at = RankedTensorType::get({size}, RT), mt = RankedTensorType::get({size, size}, RT);
      E a = var("a", at), b = var("b", mt);
      std::vector<E> es = {node("tensor_extract", {a, X_(1)}), node("tensor_extract", {b, X_(0), X_(1)}), node("tensor_extract", {node("tensor_view", {b, X_(1)}), X_(0)}), node("mul", {a, a})};
      E k = argE(0, XT);
      for (auto &body : std::vector<E>{node("tensor_extract", {a, k}), node("mul", {node("tensor_extract", {a, k}), x}), node("sin", {node("tensor_extract", {b, k, k})})}) {
        E e = node("reduction", {IR_(0, 1, 1, XT)}, RT);
        e.value = StringAttr::get(mctx, "add");
        e.body = {body};
        es.push_back(e);
      }
      auto q = es;
      for (auto &e : q)
        for (auto &o : binary) {
          es.push_back(node(o, {e, x}));
          es.push_back(node(o, {x, e}));
          for (auto &g : q)
            es.push_back(node(o, {e, g}));
        }
      for (auto &e : es)
        for (int at0 : {0, 1, 2}) { // the scalar goes first, between the arrays, last
          std::vector<Var> in = {{"a", at, IN}, {"b", mt, IN}};
          in.insert(in.begin() + at0, {"x", RT, IN});
          for (int order : {1, 2})
            timeDerivative({fn(in, e, RT)}, "algorithms", order);
          partialDerivative({fn(in, e, RT)}, {"x"}, "algorithms");
          partialDerivative({fn(in, e, RT)}, {"x", "x"}, "algorithms");
        }
    }
    // Functions with local variables, several statements, branches, loops, arrays, calls.
    E z = var("z", RT), l = var("l", RT);
    std::vector<std::vector<St>> bodies;
    const std::vector<E> es = {node("mul", {x, y}), node("add", {z, node("mul", {x, z})}), node("sin", {z}), x, node("mul", {l, z}), node("div", {l, y}), R_(1.5), node("sub", {z, l}), node("pow", {x, I_(2)})};
    std::vector<St> sets;
    for (auto &e : es) {
      sets.push_back(set_("z", e));
      sets.push_back(set_("l", e));
    }
    for (auto &a : sets)
      for (auto &b : sets) {
        bodies.push_back({set_("z", x), set_("l", y), a, b});
        for (auto &d : sets)
          if (T || (&a - &sets[0] + &b - &sets[0] + &d - &sets[0]) % 3 == 0)
            bodies.push_back({set_("z", x), set_("l", y), a, b, d});
      }
    const std::vector<E> conds = {node("gt", {x, y}, BT), node("lt", {z, R_(0)}, BT), node("gte", {var("n", IT), I_(1)}, BT)};
    for (auto &q : conds)
      for (auto &a : sets)
        for (auto &b : sets) {
          bodies.push_back({set_("z", y), set_("l", x), {St::If, "", {q}, {a}, {b}}});
          bodies.push_back({set_("z", y), set_("l", x), {St::If, "", {q}, {a, b}, {}}});
          // A loop bounded by a counter.
          bodies.push_back({set_("z", y), set_("l", x), set_("k", I_(0)), {St::While, "", {node("lt", {var("k", IT), I_(2)}, BT)}, {a, b, set_("k", node("add", {var("k", IT), I_(1)}))}, {}}});
        }
    for (auto &b : bodies) {
      for (bool counter : {false, true}) {
        bool uses = text(b).find("k :=") != std::string::npos;
        if (uses != counter)
          continue;
        Fn f{"f", xyn, b};
        f.vars.push_back({"z", RT, OUT});
        f.vars.push_back({"l", RT, LOC});
        if (counter)
          f.vars.push_back({"k", IT, LOC});
        Fn g = f; // the local as a second output
        g.vars[4].io = OUT;
        for (auto &h : {f, g}) {
          timeDerivative({h}, "algorithms", 1);
          if (T)
            timeDerivative({h}, "algorithms", 2);
          partialDerivative({h}, {"x"}, "algorithms");
          partialDerivative({h}, {"y"}, "algorithms");
          if (T)
            partialDerivative({h}, {"x", "y"}, "algorithms");
        }
        // Outputs and locals declared before the inputs.
        Fn o = g;
        std::rotate(o.vars.begin(), o.vars.begin() + 3, o.vars.end());
        timeDerivative({o}, "algorithms", 1);
        partialDerivative({o}, {"x"}, "algorithms");
        partialDerivative({o}, {"y"}, "algorithms");
      }
    }
    // Arrays.
    Type at = RankedTensorType::get({2}, RT);
    E a = var("a", at), w = var("w", at);
    std::vector<St> as = {set_("w", a), set_("w", node("neg", {a})), set_("w", node("mul", {x, a})), set_("w", node("add", {w, a})), set_("w", x, {X_(0)}), set_("w", node("mul", {node("tensor_extract", {w, X_(0)}), x}), {X_(1)}), set_("w", node("tensor_extract", {a, X_(1)}), {X_(0)}), set_("w", node("mul_ew", {a, w})), set_("w", a, {IR_(0, 1, 1, XT)}), set_("w", node("tensor_from_elements", {x, node("mul", {x, x})}, at))};
    for (auto &s : as)
      for (auto &t : as)
        for (bool local : {false, true}) {
          Fn f{"f", {{"x", RT, IN}, {"a", at, IN}, {"w", at, local ? LOC : OUT}}, {set_("w", a), s, t}};
          if (local) {
            f.vars.push_back({"z", RT, OUT});
            f.body.push_back(set_("z", node("mul", {node("tensor_extract", {w, X_(0)}), node("tensor_extract", {w, X_(1)})})));
          }
          timeDerivative({f}, "algorithms", 1);
          timeDerivative({f}, "algorithms", 2);
          partialDerivative({f}, {"x"}, "algorithms");
        }
    // Calls.
    for (auto &e : depth1) {
      if (text(e).find("\"n\"") != std::string::npos)
        continue;
      Fn g = fn(xy, e, RT);
      g.name = "g";
      for (auto &args : std::vector<std::vector<E>>{{x, y}, {y, x}, {node("mul", {x, y}), x}, {R_(0.5), y}}) {
        E call;
        call.op = "call";
        call.value = StringAttr::get(mctx, "g");
        call.kids = args;
        call.type = RT;
        for (auto &h : std::vector<E>{call, node("mul", {call, x})}) {
          timeDerivative({g, fn(xy, h, RT)}, "algorithms", 1);
          partialDerivative({g, fn(xy, h, RT)}, {"x"}, "algorithms");
        }
      }
    }
  }
  return ctx.finish();
}

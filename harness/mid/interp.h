// A reference interpreter of the BaseModelica dialect (and of the part of arith, math, tensor, linalg and scf its
// scalar lowerings produce). Real values carry a time derivative, so that "der" and differentiation can be judged.
#ifndef VERIF_MID_INTERP_H
#define VERIF_MID_INTERP_H
#include "mid/common.h"
#include "llvm/ADT/StringMap.h"
#include <cmath>
#include <functional>
#include <map>
#include <vector>

namespace mid {
namespace bm = mlir::bmodelica;

// Kind of a scalar: Boolean, Integer-like, Real-like.
enum K : uint8_t { B, I, R };
struct Sc {
  K k = I;
  int64_t i = 0;
  double d = 0; // value of reals
  double t = 0; // derivative of reals
  static Sc integer(int64_t v) { return {I, v, 0, 0}; }
  static Sc boolean(bool v) { return {B, v ? 1 : 0, 0, 0}; }
  static Sc real(double v, double t = 0) { return {R, 0, v, t}; }
  bool isReal() const { return k == R; }
  double num() const { return k == R ? d : double(i); }
  double der() const { return k == R ? t : 0; }
  bool truth() const { return k == R ? d != 0 : i != 0; }
};

struct Val {
  enum Kind { Scalar, Tensor, Range, Record, Tuple, None } kind = None;
  std::vector<int64_t> shape;
  std::vector<Sc> e;     // Scalar: 1; Range: begin, end, step; Tensor: row major
  std::vector<Val> sub;  // Record components, tuple elements
  std::string recordName;
  static Val scalar(Sc s) {
    Val v;
    v.kind = Scalar;
    v.e.push_back(s);
    return v;
  }
  static Val tensor(std::vector<int64_t> shape, Sc fill) {
    Val v;
    v.kind = Tensor;
    v.shape = std::move(shape);
    size_t n = 1;
    for (auto d : v.shape)
      n *= d;
    v.e.assign(n, fill);
    return v;
  }
};

inline std::string show(const Sc &s) {
  char b[64];
  if (s.k == B)
    return s.i ? "true" : "false";
  if (s.k == I)
    return std::to_string(s.i);
  snprintf(b, sizeof b, "%.12g", s.d);
  return b;
}
inline std::string show(const Val &v) {
  std::string r;
  if (v.kind == Val::Scalar)
    return show(v.e[0]);
  if (v.kind == Val::Range)
    return show(v.e[0]) + ":" + show(v.e[2]) + ":" + show(v.e[1]);
  if (v.kind == Val::None)
    return "none";
  if (v.kind == Val::Tensor) {
    r = "[";
    for (auto d : v.shape)
      r += std::to_string(d) + "x";
    r += ":";
  } else
    r = "{";
  for (auto &x : v.e)
    r += " " + show(x);
  for (auto &x : v.sub)
    r += " " + show(x);
  return r + (v.kind == Val::Tensor ? "]" : "}");
}

// Are two numbers equal up to rounding?
inline bool close(double a, double b, double tol = 1e-9) {
  if (std::isnan(a) || std::isnan(b))
    return std::isnan(a) && std::isnan(b);
  if (a == b)
    return true;
  if (std::isinf(a) || std::isinf(b))
    return false;
  return std::fabs(a - b) <= tol * std::max({1.0, std::fabs(a), std::fabs(b)});
}
inline bool same(const Val &a, const Val &b, bool ders = false, double tol = 1e-9) {
  if (a.kind != b.kind || a.shape != b.shape || a.e.size() != b.e.size() || a.sub.size() != b.sub.size())
    return false;
  for (size_t i = 0; i < a.e.size(); ++i) {
    if (!close(a.e[i].num(), b.e[i].num(), tol))
      return false;
    if (ders && !close(a.e[i].der(), b.e[i].der(), tol))
      return false;
  }
  for (size_t i = 0; i < a.sub.size(); ++i)
    if (!same(a.sub[i], b.sub[i], ders, tol))
      return false;
  return true;
}

class Interp {
public:
  // undefined: the program divides by zero, overflows, reads out of bounds... (anything goes, short of a crash).
  // unsupported: something the interpreter does not know.
  std::string undefined, unsupported;
  bool singular = false; // an outer derivative does not exist
  bool bad() const { return !undefined.empty() || !unsupported.empty(); }
  std::map<std::string, Val> vars; // variables of the class being executed
  double time = 0;
  Operation *module = nullptr;
  int64_t fuel = 200000;
  DenseMap<Value, Val> env;
  // Values of global symbols (global variables).
  std::map<std::string, Val> *globals = nullptr;

  Val undef(const std::string &why) {
    if (undefined.empty())
      undefined = why;
    return Val::scalar(Sc::real(0));
  }
  Val unsup(const std::string &why) {
    if (unsupported.empty())
      unsupported = why;
    return Val::scalar(Sc::real(0));
  }

  static bool isBool(Type t) { return isa<bm::BooleanType>(t) || t.isInteger(1); }
  static bool isInt(Type t) { return isa<bm::IntegerType, IndexType>(t) || (isa<mlir::IntegerType>(t) && !t.isInteger(1)); }
  static bool isReal(Type t) { return isa<bm::RealType, FloatType>(t); }
  static Type elem(Type t) {
    if (auto s = dyn_cast<ShapedType>(t))
      return s.getElementType();
    if (auto r = dyn_cast<bm::RangeType>(t))
      return r.getInductionType();
    return t;
  }

  // Conversion of a scalar to a type.
  Sc conv(Sc s, Type t) {
    t = elem(t);
    if (isReal(t))
      return s.k == R ? s : Sc::real(double(s.i));
    if (isInt(t)) {
      if (s.k != R)
        return Sc::integer(s.i);
      if (!(std::fabs(s.d) < 9e15)) {
        undef("conversion of a real out of range");
        return Sc::integer(0);
      }
      return Sc::integer(int64_t(s.d));
    }
    if (isBool(t))
      return Sc::boolean(s.truth());
    return s;
  }
  Val conv(Val v, Type t) {
    if (v.kind == Val::Tensor || v.kind == Val::Scalar || v.kind == Val::Range)
      for (auto &x : v.e)
        x = conv(x, t);
    return v;
  }

  Sc check(Sc s) {
    if (s.k == R) {
      if (!std::isfinite(s.d))
        undef("not a finite number");
    } else if (s.i > (int64_t(1) << 53) || s.i < -(int64_t(1) << 53))
      undef("integer overflow");
    return s;
  }

  // ---- scalar operations; results are in the widest kind of the operands unless stated.
  enum Op2 { Add, Sub, Mul, Div, Pow, Eq, Ne, Gt, Ge, Lt, Le, And, Or, Atan2, DivTrunc, Mod, Rem, Max, Min };
  Sc op2(Op2 o, Sc a, Sc b) {
    bool r = a.isReal() || b.isReal();
    double x = a.num(), y = b.num(), dx = a.der(), dy = b.der();
    auto ck = [&](__int128 v) {
      if (v > (__int128(1) << 53) || v < -(__int128(1) << 53)) {
        undef("integer overflow");
        return Sc::integer(0);
      }
      return Sc::integer(int64_t(v));
    };
    switch (o) {
    case Add:
      return r ? check(Sc::real(x + y, dx + dy)) : ck(__int128(a.i) + b.i);
    case Sub:
      return r ? check(Sc::real(x - y, dx - dy)) : ck(__int128(a.i) - b.i);
    case Mul:
      return r ? check(Sc::real(x * y, dx * y + x * dy)) : ck(__int128(a.i) * b.i);
    case Div:
      if (y == 0) {
        undef("division by zero");
        return Sc::real(0);
      }
      return check(Sc::real(x / y, (dx * y - x * dy) / (y * y)));
    case Pow: {
      if ((x == 0 && y <= 0 && !(y == 0)) || (x < 0 && y != std::floor(y))) {
        undef("power out of its domain");
        return Sc::real(0);
      }
      double v = std::pow(x, y);
      double d = 0;
      singular |= x == 0 && y < 1;
      if (dx != 0)
        d += y == 0 ? 0 : y * std::pow(x, y - 1) * dx;
      if (dy != 0)
        d += x <= 0 ? std::nan("") : v * std::log(x) * dy;
      return check(Sc::real(v, d));
    }
    case Eq:
      return Sc::boolean(x == y);
    case Ne:
      return Sc::boolean(x != y);
    case Gt:
      return Sc::boolean(x > y);
    case Ge:
      return Sc::boolean(x >= y);
    case Lt:
      return Sc::boolean(x < y);
    case Le:
      return Sc::boolean(x <= y);
    case And:
      return Sc::boolean(a.truth() && b.truth());
    case Or:
      return Sc::boolean(a.truth() || b.truth());
    case Atan2:
      if (x == 0 && y <= 0) { // the origin, or the cut of the branches
        undef("atan2 on its cut");
        return Sc::real(0);
      }
      return Sc::real(std::atan2(x, y), (dx * y - x * dy) / (x * x + y * y));
    case DivTrunc:
      if (y == 0) {
        undef("division by zero");
        return Sc::real(0);
      }
      return r ? check(Sc::real(std::trunc(x / y))) : Sc::integer(a.i / b.i);
    case Mod:
      if (y == 0) {
        undef("division by zero");
        return Sc::real(0);
      }
      if (r)
        return check(Sc::real(x - std::floor(x / y) * y, dx));
      else {
        int64_t m = a.i % b.i;
        if (m != 0 && ((m < 0) != (b.i < 0)))
          m += b.i;
        return Sc::integer(m);
      }
    case Rem:
      if (y == 0) {
        undef("division by zero");
        return Sc::real(0);
      }
      return r ? check(Sc::real(std::fmod(x, y), dx)) : Sc::integer(a.i % b.i);
    case Max:
      return r ? Sc::real(std::max(x, y), x >= y ? dx : dy) : Sc::integer(std::max(a.i, b.i));
    case Min:
      return r ? Sc::real(std::min(x, y), x <= y ? dx : dy) : Sc::integer(std::min(a.i, b.i));
    }
    return {};
  }

  Sc op1(llvm::StringRef n, Sc a) {
    double x = a.num(), dx = a.der();
    auto dom = [&](bool ok) {
      if (!ok)
        undef(n.str() + " out of its domain");
      return ok;
    };
    auto out = [&](double v, double d) { singular |= !std::isfinite(d); return check(Sc::real(v, dx == 0 ? 0 : d * dx)); };
    if (n == "neg")
      return a.isReal() ? Sc::real(-x, -dx) : Sc::integer(-a.i);
    if (n == "not")
      return Sc::boolean(!a.truth());
    if (n == "abs")
      return a.isReal() ? Sc::real(std::fabs(x), x < 0 ? -dx : dx) : Sc::integer(a.i < 0 ? -a.i : a.i);
    if (n == "acos")
      return dom(x >= -1 && x <= 1) ? out(std::acos(x), -1 / std::sqrt(1 - x * x)) : Sc::real(0);
    if (n == "asin")
      return dom(x >= -1 && x <= 1) ? out(std::asin(x), 1 / std::sqrt(1 - x * x)) : Sc::real(0);
    if (n == "atan")
      return out(std::atan(x), 1 / (1 + x * x));
    if (n == "ceil")
      return a.isReal() ? Sc::real(std::ceil(x)) : a;
    if (n == "floor")
      return a.isReal() ? Sc::real(std::floor(x)) : a;
    if (n == "integer")
      return a.isReal() ? conv(Sc::real(std::floor(x)), IntegerType::get(module->getContext(), 64)) : a;
    if (n == "cos")
      return out(std::cos(x), -std::sin(x));
    if (n == "cosh")
      return out(std::cosh(x), std::sinh(x));
    if (n == "exp")
      return out(std::exp(x), std::exp(x));
    if (n == "log")
      return dom(x > 0) ? out(std::log(x), 1 / x) : Sc::real(0);
    if (n == "log10")
      return dom(x > 0) ? out(std::log10(x), 1 / (x * std::log(10.0))) : Sc::real(0);
    if (n == "sign")
      return Sc::integer(x > 0 ? 1 : x < 0 ? -1 : 0);
    if (n == "sin")
      return out(std::sin(x), std::cos(x));
    if (n == "sinh")
      return out(std::sinh(x), std::cosh(x));
    if (n == "sqrt")
      return dom(x >= 0) ? out(std::sqrt(x), 0.5 / std::sqrt(x)) : Sc::real(0);
    if (n == "tan")
      return out(std::tan(x), 1 / (std::cos(x) * std::cos(x)));
    if (n == "tanh")
      return out(std::tanh(x), 1 - std::tanh(x) * std::tanh(x));
    unsup("operation " + n.str());
    return {};
  }

  // ---- attributes
  Val attr(Attribute a) {
    if (auto x = dyn_cast<bm::BooleanAttr>(a))
      return Val::scalar(Sc::boolean(x.getValue()));
    if (auto x = dyn_cast<bm::IntegerAttr>(a))
      return Val::scalar(Sc::integer(x.getValue().getSExtValue()));
    if (auto x = dyn_cast<bm::RealAttr>(a))
      return Val::scalar(Sc::real(x.getValue().convertToDouble()));
    if (auto x = dyn_cast<mlir::IntegerAttr>(a))
      return Val::scalar(x.getType().isInteger(1) ? Sc::boolean(!x.getValue().isZero()) : Sc::integer(x.getValue().getSExtValue()));
    if (auto x = dyn_cast<mlir::FloatAttr>(a))
      return Val::scalar(Sc::real(x.getValueAsDouble()));
    Val v;
    if (auto x = dyn_cast<bm::IntegerRangeAttr>(a)) {
      v.kind = Val::Range;
      v.e = {Sc::integer(x.getLowerBound()), Sc::integer(x.getUpperBound()), Sc::integer(x.getStep())};
      return v;
    }
    if (auto x = dyn_cast<bm::RealRangeAttr>(a)) {
      v.kind = Val::Range;
      v.e = {Sc::real(x.getLowerBound().convertToDouble()), Sc::real(x.getUpperBound().convertToDouble()), Sc::real(x.getStep().convertToDouble())};
      return v;
    }
    auto shaped = [&](Type t) {
      v.kind = Val::Tensor;
      auto s = cast<ShapedType>(t).getShape();
      v.shape.assign(s.begin(), s.end());
    };
    if (auto x = dyn_cast<bm::DenseBooleanElementsAttr>(a)) {
      shaped(x.getType());
      for (bool b : x.getValues())
        v.e.push_back(Sc::boolean(b));
      return fix(v);
    }
    if (auto x = dyn_cast<bm::DenseIntegerElementsAttr>(a)) {
      shaped(x.getType());
      for (auto b : x.getValues())
        v.e.push_back(Sc::integer(b));
      return fix(v);
    }
    if (auto x = dyn_cast<bm::DenseRealElementsAttr>(a)) {
      shaped(x.getType());
      for (auto b : x.getValues())
        v.e.push_back(Sc::real(b.convertToDouble()));
      return fix(v);
    }
    if (auto x = dyn_cast<DenseElementsAttr>(a)) {
      shaped(x.getType());
      Type et = x.getElementType();
      if (isReal(et))
        for (auto f : x.getValues<APFloat>())
          v.e.push_back(Sc::real(f.convertToDouble()));
      else
        for (auto f : x.getValues<APInt>())
          v.e.push_back(isBool(et) ? Sc::boolean(!f.isZero()) : Sc::integer(f.getSExtValue()));
      return v;
    }
    return unsup("attribute " + str(a));
  }
  // A dense attribute may hold a single value for all the elements.
  Val fix(Val v) {
    size_t n = 1;
    for (auto d : v.shape)
      n *= d;
    if (v.e.size() == 1 && n != 1)
      v.e.assign(n, v.e[0]);
    if (v.e.size() != n)
      return unsup("dense attribute with a wrong number of elements");
    return v;
  }

  // ---- tensors
  static size_t product(const std::vector<int64_t> &s) {
    size_t n = 1;
    for (auto d : s)
      n *= d;
    return n;
  }
  static int64_t rangeSize(const Val &r, bool &ok) {
    ok = true;
    double st = r.e[2].num();
    if (st == 0) {
      ok = false;
      return 0;
    }
    double n = std::floor((r.e[1].num() - r.e[0].num()) / st + 1e-9);
    return n < 0 ? 0 : int64_t(n) + 1;
  }
  static int64_t rangeAt(const Val &r, int64_t k) { return r.e[0].i + k * r.e[2].i; }

  // The flat positions selected by subscripts (scalars or ranges, zero-based), and the resulting shape.
  bool select(const std::vector<int64_t> &shape, const std::vector<Val> &subs, std::vector<int64_t> &outShape, std::vector<size_t> &pos) {
    if (subs.size() > shape.size()) {
      undef("too many subscripts");
      return false;
    }
    std::vector<std::vector<int64_t>> idx;
    outShape.clear();
    for (size_t k = 0; k < shape.size(); ++k) {
      std::vector<int64_t> l;
      if (k >= subs.size()) {
        for (int64_t i = 0; i < shape[k]; ++i)
          l.push_back(i);
        outShape.push_back(shape[k]);
      } else if (subs[k].kind == Val::Range) {
        if (subs[k].e[0].isReal()) {
          undef("real range as a subscript");
          return false;
        }
        bool ok;
        int64_t n = rangeSize(subs[k], ok);
        if (!ok) {
          undef("range with a null step");
          return false;
        }
        for (int64_t i = 0; i < n; ++i)
          l.push_back(rangeAt(subs[k], i));
        outShape.push_back(n);
      } else if (subs[k].kind == Val::None) { // whole dimension
        for (int64_t i = 0; i < shape[k]; ++i)
          l.push_back(i);
        outShape.push_back(shape[k]);
      } else if (subs[k].kind == Val::Scalar && !subs[k].e[0].isReal())
        l.push_back(subs[k].e[0].i);
      else {
        unsup("subscript");
        return false;
      }
      for (auto i : l)
        if (i < 0 || i >= shape[k]) {
          undef("access out of bounds");
          return false;
        }
      idx.push_back(std::move(l));
    }
    pos.assign(1, 0);
    for (size_t k = 0; k < shape.size(); ++k) {
      std::vector<size_t> next;
      for (auto p : pos)
        for (auto i : idx[k])
          next.push_back(p * shape[k] + i);
      pos = std::move(next);
    }
    return true;
  }
  Val view(const Val &src, const std::vector<Val> &subs) {
    if (src.kind != Val::Tensor)
      return unsup("view of something that is not a tensor");
    std::vector<int64_t> s;
    std::vector<size_t> p;
    if (!select(src.shape, subs, s, p))
      return Val::tensor({}, Sc::real(0));
    Val v;
    v.kind = Val::Tensor;
    v.shape = s;
    for (auto q : p)
      v.e.push_back(src.e[q]);
    return v;
  }
  // Store into a part of a tensor; broadcasts scalars.
  void store(Val &dst, const std::vector<Val> &subs, const Val &val, Type elemType) {
    if (subs.empty() && dst.kind != Val::Tensor) {
      dst = conv(val, elemType);
      return;
    }
    if (subs.empty() && val.kind == Val::Tensor) {
      if (dst.kind == Val::Tensor && dst.shape != val.shape)
        undef("store of a tensor of another shape");
      dst = conv(val, elemType);
      return;
    }
    std::vector<int64_t> s;
    std::vector<size_t> p;
    if (!select(dst.shape, subs, s, p))
      return;
    if (val.kind == Val::Tensor && val.e.size() != p.size()) {
      undef("store of a tensor of another shape");
      return;
    }
    for (size_t k = 0; k < p.size(); ++k)
      dst.e[p[k]] = conv(val.kind == Val::Tensor ? val.e[k] : val.e[0], elemType);
  }

  // Elementwise operation with broadcast of scalars, ranges handled as begin/end/step.
  Val zip(const Val &a, const Val &b, std::function<Sc(Sc, Sc)> f) {
    if (a.kind == Val::Scalar && b.kind == Val::Scalar)
      return Val::scalar(f(a.e[0], b.e[0]));
    if (a.kind == Val::Tensor && b.kind == Val::Tensor) {
      if (a.shape != b.shape)
        return undef("operands of different shapes");
      Val v = a;
      for (size_t i = 0; i < v.e.size(); ++i)
        v.e[i] = f(a.e[i], b.e[i]);
      return v;
    }
    if (a.kind == Val::Tensor && b.kind == Val::Scalar) {
      Val v = a;
      for (auto &x : v.e)
        x = f(x, b.e[0]);
      return v;
    }
    if (a.kind == Val::Scalar && b.kind == Val::Tensor) {
      Val v = b;
      for (auto &x : v.e)
        x = f(a.e[0], x);
      return v;
    }
    return unsup("operands");
  }

  Val binary(Op2 o, const Val &a, const Val &b) {
    bool ra = a.kind == Val::Range, rb = b.kind == Val::Range;
    if (ra || rb) {
      if (ra && rb)
        return unsup("operation on two ranges");
      const Val &r = ra ? a : b;
      Sc s = ra ? b.e[0] : a.e[0];
      Val v = r;
      auto f = [&](Sc x) { return ra ? op2(o, x, s) : op2(o, s, x); };
      v.e[0] = f(r.e[0]);
      v.e[1] = f(r.e[1]);
      // The step is what takes the first image to the second.
      Sc second = op2(Add, r.e[0], r.e[2]);
      v.e[2] = op2(Sub, f(second), v.e[0]);
      if (o != Add && o != Sub && o != Mul && !(o == Div && ra))
        return unsup("operation on a range");
      return v;
    }
    return zip(a, b, [&](Sc x, Sc y) { return op2(o, x, y); });
  }

  Val matmul(const Val &a, const Val &b) {
    if (a.kind != Val::Tensor || b.kind != Val::Tensor)
      return binary(Mul, a, b);
    size_t ra = a.shape.size(), rb = b.shape.size();
    if (ra < 1 || ra > 2 || rb < 1 || rb > 2)
      return undef("product of tensors of these ranks");
    int64_t n = ra == 2 ? a.shape[0] : 1, k = a.shape.back(), m = rb == 2 ? b.shape[1] : 1;
    if (b.shape[0] != k)
      return undef("product of tensors of incompatible shapes");
    Val v;
    v.kind = Val::Tensor;
    for (int64_t i = 0; i < n; ++i)
      for (int64_t j = 0; j < m; ++j) {
        Sc s = k ? op2(Mul, a.e[i * k], b.e[j]) : Sc::integer(0);
        for (int64_t q = 1; q < k; ++q)
          s = op2(Add, s, op2(Mul, a.e[i * k + q], b.e[q * m + j]));
        v.e.push_back(s);
      }
    if (ra == 2)
      v.shape.push_back(n);
    if (rb == 2)
      v.shape.push_back(m);
    if (v.shape.empty())
      return Val::scalar(v.e[0]);
    return v;
  }

  // ---- execution
  Val get(Value v) { // by value: the environment grows while references are alive
    auto it = env.find(v);
    if (it != env.end())
      return it->second;
    if (Operation *op = v.getDefiningOp()) {
      // Operations of graph-like regions may be evaluated on demand.
      exec(op);
      it = env.find(v);
      if (it != env.end())
        return it->second;
    }
    static Val none;
    unsup("value without definition");
    none = Val::scalar(Sc::real(0));
    return none;
  }
  std::vector<Val> gets(ValueRange r) {
    std::vector<Val> o;
    for (Value v : r)
      o.push_back(get(v));
    return o;
  }
  void set(Operation *op, Val v, unsigned k = 0) { env[op->getResult(k)] = conv(std::move(v), op->getResult(k).getType()); }

  enum Flow { Next, Break, Return };
  Flow block(Block &b) {
    for (Operation &op : b) {
      if (bad())
        return Return;
      Flow f = exec(&op);
      if (f != Next)
        return f;
    }
    return Next;
  }
  // Values given to the terminator of a block just executed.
  std::vector<Val> yielded(Block &b) { return b.empty() ? std::vector<Val>() : gets(b.back().getOperands()); }

  static int64_t product2(ArrayRef<int64_t> s) {
    int64_t n = 1;
    for (auto x : s)
      n *= x;
    return n;
  }

  virtual ~Interp() {}
  // Hook for operations unknown to the interpreter; returns false if not handled.
  virtual bool other(Operation *op, llvm::StringRef name) { return false; }

  Val defaultOf(Type t, const std::vector<Val> &dims = {}) {
    Val v;
    Type et = elem(t);
    Sc z = isReal(et) ? Sc::real(0) : isBool(et) ? Sc::boolean(false) : Sc::integer(0);
    if (auto s = dyn_cast<ShapedType>(t)) {
      std::vector<int64_t> shape;
      size_t k = 0;
      for (auto d : s.getShape())
        shape.push_back(d >= 0 ? d : k < dims.size() ? dims[k++].e[0].i : 0);
      return Val::tensor(shape, z);
    }
    if (auto r = dyn_cast<bm::RecordType>(t)) {
      v.kind = Val::Record;
      v.recordName = str(r);
      if (Operation *rec = findSymbol(r.getName()))
        for (auto var : rec->getRegion(0).getOps<bm::VariableOp>())
          v.sub.push_back(defaultOf(var.getVariableType().unwrap()));
      return v;
    }
    return Val::scalar(z);
  }

  Operation *findSymbol(SymbolRefAttr ref) {
    if (!module)
      return nullptr;
    return SymbolTable::lookupSymbolIn(module, ref);
  }

  // Call of a function: inputs in order, results in order.
  std::vector<Val> call(Operation *f, const std::vector<Val> &args, const std::vector<std::string> &names = {}) {
    auto fn = dyn_cast<bm::FunctionOp>(f);
    if (!fn) {
      unsup("call to " + f->getName().getStringRef().str());
      return {};
    }
    if (--fuel < 0) {
      undef("too long");
      return {};
    }
    std::map<std::string, Val> saved;
    std::swap(saved, vars);
    std::vector<std::string> ins, outs;
    std::map<std::string, bm::VariableOp> byName;
    std::map<std::string, bm::DefaultOp> defaults;
    for (auto v : fn.getBodyRegion().getOps<bm::VariableOp>()) {
      byName[v.getSymName().str()] = v;
      if (v.isInput())
        ins.push_back(v.getSymName().str());
      else if (v.isOutput())
        outs.push_back(v.getSymName().str());
    }
    for (auto d : fn.getBodyRegion().getOps<bm::DefaultOp>())
      defaults[d.getVariable().str()] = d;
    std::map<std::string, bool> given;
    if (names.empty()) {
      for (size_t i = 0; i < args.size() && i < ins.size(); ++i) {
        vars[ins[i]] = conv(args[i], byName[ins[i]].getVariableType().unwrap());
        given[ins[i]] = true;
      }
    } else
      for (size_t i = 0; i < args.size() && i < names.size(); ++i) {
        if (!byName.count(names[i])) {
          unsup("argument " + names[i]);
          continue;
        }
        vars[names[i]] = conv(args[i], byName[names[i]].getVariableType().unwrap());
        given[names[i]] = true;
      }
    // Other variables: dimensions, then default values, in dependency order (by repetition).
    std::vector<std::string> todo;
    for (auto v : fn.getBodyRegion().getOps<bm::VariableOp>())
      if (!given[v.getSymName().str()])
        todo.push_back(v.getSymName().str());
    for (size_t round = 0; !todo.empty() && round <= 20; ++round) {
      std::vector<std::string> left;
      for (auto &n : todo) {
        bool ready = true;
        auto needs = [&](Region &r) {
          r.walk([&](bm::VariableGetOp g) {
            if (std::find(todo.begin(), todo.end(), g.getVariable().str()) != todo.end() && !vars.count(g.getVariable().str()))
              ready = false;
          });
        };
        auto v = byName[n];
        needs(v.getConstraintsRegion());
        if (defaults.count(n))
          needs(defaults[n].getBodyRegion());
        if (!ready) {
          left.push_back(n);
          continue;
        }
        std::vector<Val> dims;
        if (!v.getConstraintsRegion().empty()) {
          block(v.getConstraintsRegion().front());
          dims = yielded(v.getConstraintsRegion().front());
        }
        Val val = defaultOf(v.getVariableType().unwrap(), dims);
        if (defaults.count(n)) {
          Block &b = defaults[n].getBodyRegion().front();
          block(b);
          auto y = yielded(b);
          if (!y.empty())
            val = conv(y[0], v.getVariableType().unwrap());
        }
        vars[n] = val;
      }
      todo = left;
    }
    if (!todo.empty())
      unsup("circular default values");
    for (Operation &op : fn.getBodyRegion().front()) {
      if (bad())
        break;
      if (auto a = dyn_cast<bm::AlgorithmOp>(op))
        if (block(a.getBodyRegion().front()) == Return)
          break;
    }
    std::vector<Val> res;
    for (auto &n : outs)
      res.push_back(vars[n]);
    std::swap(saved, vars);
    return res;
  }

  virtual Flow exec(Operation *op) {
    if (--fuel < 0) {
      undef("too long");
      return Return;
    }
    llvm::StringRef full = op->getName().getStringRef();
    if (full.starts_with("bmodelica."))
      return bmodelica(op, full.drop_front(10));
    if (full.starts_with("arith.")) {
      arith(op, full.drop_front(6));
      return Next;
    }
    if (full == "builtin.unrealized_conversion_cast" && op->getNumOperands() == 1) {
      env[op->getResult(0)] = get(op->getOperand(0));
      return Next;
    }
    if (full == "func.return" || full == "scf.yield")
      return Next;
    if (!other(op, full))
      unsup("operation " + full.str());
    return Next;
  }

  Flow bmodelica(Operation *op, llvm::StringRef n) {
    static const std::map<std::string, Op2> two = {{"add", Add}, {"add_ew", Add}, {"sub", Sub}, {"sub_ew", Sub}, {"mul_ew", Mul}, {"div", Div}, {"div_ew", Div}, {"pow", Pow}, {"pow_ew", Pow}, {"eq", Eq}, {"neq", Ne}, {"gt", Gt}, {"gte", Ge}, {"lt", Lt}, {"lte", Le}, {"and", And}, {"or", Or}, {"atan2", Atan2}, {"div_trunc", DivTrunc}, {"mod", Mod}, {"rem", Rem}};
    static const std::set<std::string> one = {"neg", "not", "abs", "acos", "asin", "atan", "ceil", "floor", "integer", "cos", "cosh", "exp", "log", "log10", "sign", "sin", "sinh", "sqrt", "tan", "tanh"};
    auto o = [&](unsigned k) -> Val { return get(op->getOperand(k)); };
    auto it = two.find(n.str());
    if (it != two.end()) {
      Val a = o(0), b = o(1);
      if (n == "pow" && a.kind == Val::Tensor) { // power of a matrix
        if (b.kind != Val::Scalar || a.shape.size() != 2 || a.shape[0] != a.shape[1] || b.e[0].num() < 0 || b.e[0].num() != std::floor(b.e[0].num()))
          set(op, undef("power of a matrix"));
        else {
          Val r = Val::tensor(a.shape, Sc::integer(0));
          for (int64_t i = 0; i < a.shape[0]; ++i)
            r.e[i * a.shape[0] + i] = Sc::integer(1);
          for (int64_t i = 0, e = int64_t(b.e[0].num()); i < e && i < 64; ++i)
            r = matmul(r, a);
          set(op, r);
        }
        return Next;
      }
      set(op, binary(it->second, a, b));
      return Next;
    }
    if (one.count(n.str())) {
      Val v = o(0);
      if (v.kind == Val::Range) {
        if (n != "neg")
          unsup("operation on a range");
        for (auto &x : v.e)
          x = op1(n, x);
      } else
        for (auto &x : v.e)
          x = op1(n, x);
      set(op, v);
      return Next;
    }
    if (n == "mul") {
      Val a = o(0), b = o(1);
      set(op, matmul(a, b));
      return Next;
    }
    if (n == "constant") {
      env[op->getResult(0)] = attr(op->getAttr("value") ? op->getAttr("value") : cast<bm::ConstantOp>(op).getValue());
      return Next;
    }
    if (n == "cast") {
      set(op, o(0));
      return Next;
    }
    if (n == "max" || n == "min") {
      Val a = o(0);
      Op2 f = n == "max" ? Max : Min;
      if (op->getNumOperands() == 2) {
        Val b = o(1);
        set(op, zip(a, b, [&](Sc x, Sc y) { return op2(f, x, y); }));
      } else if (a.e.empty())
        set(op, undef("extremum of nothing"));
      else {
        Sc s = a.e[0];
        for (auto &x : a.e)
          s = op2(f, s, x);
        set(op, Val::scalar(s));
      }
      return Next;
    }
    if (n == "sum" || n == "product") {
      Val a = o(0);
      Sc s = n == "sum" ? Sc::integer(0) : Sc::integer(1);
      for (auto &x : a.e)
        s = op2(n == "sum" ? Add : Mul, s, x);
      set(op, Val::scalar(s));
      return Next;
    }
    if (n == "range") {
      Val v;
      v.kind = Val::Range;
      v.e = {o(0).e[0], o(1).e[0], o(2).e[0]};
      set(op, v);
      return Next;
    }
    if (n == "unbounded_range") {
      Val v;
      v.kind = Val::None;
      env[op->getResult(0)] = v;
      return Next;
    }
    if (n == "range_begin" || n == "range_end" || n == "range_step") {
      if (o(0).e.size() != 3) {
        unsup("bounds of an unbounded range");
        return Next;
      }
      set(op, Val::scalar(o(0).e[n == "range_begin" ? 0 : n == "range_end" ? 1 : 2]));
      return Next;
    }
    if (n == "range_size") {
      bool ok;
      int64_t k = rangeSize(o(0), ok);
      set(op, ok ? Val::scalar(Sc::integer(k)) : undef("range with a null step"));
      return Next;
    }
    if (n == "tensor_from_elements" || n == "array_from_elements") {
      Val v;
      v.kind = Val::Tensor;
      auto s = cast<ShapedType>(op->getResult(0).getType()).getShape();
      v.shape.assign(s.begin(), s.end());
      for (Value x : op->getOperands())
        v.e.push_back(get(x).e[0]);
      if (v.e.size() != product(v.shape))
        v = unsup("number of elements");
      set(op, v);
      return Next;
    }
    if (n == "tensor_broadcast") {
      std::vector<Val> dims = gets(op->getOperands().drop_front());
      Val v = defaultOf(op->getResult(0).getType(), dims);
      Val x = o(0);
      for (auto &q : v.e)
        q = x.e[0];
      set(op, v);
      return Next;
    }
    if (n == "tensor_view") {
      std::vector<Val> s = gets(op->getOperands().drop_front());
      Val x = o(0);
      set(op, view(x, s));
      return Next;
    }
    if (n == "tensor_extract") {
      std::vector<Val> s = gets(op->getOperands().drop_front());
      Val v = view(o(0), s);
      if (v.kind == Val::Tensor && v.e.size() == 1 && v.shape.empty())
        v = Val::scalar(v.e[0]);
      else if (!bad())
        v = unsup("extraction of more than an element");
      set(op, v);
      return Next;
    }
    if (n == "tensor_insert" || n == "tensor_insert_slice") {
      Val dst = o(1);
      store(dst, gets(op->getOperands().drop_front(2)), o(0), op->getResult(0).getType());
      set(op, dst);
      return Next;
    }
    if (n == "size" || n == "dim") {
      const Val a = o(0);
      if (op->getNumOperands() == 2) {
        int64_t d = o(1).e[0].i;
        if (a.kind != Val::Tensor || d < 0 || d >= int64_t(a.shape.size()))
          set(op, undef("dimension"));
        else
          set(op, Val::scalar(Sc::integer(a.shape[d])));
      } else {
        Val v;
        v.kind = Val::Tensor;
        v.shape = {int64_t(a.shape.size())};
        for (auto d : a.shape)
          v.e.push_back(Sc::integer(d));
        set(op, v);
      }
      return Next;
    }
    if (n == "ndims") {
      set(op, Val::scalar(Sc::integer(o(0).shape.size())));
      return Next;
    }
    if (n == "zeros" || n == "ones" || n == "fill") {
      std::vector<Val> dims = gets(n == "fill" ? op->getOperands().drop_front() : op->getOperands());
      std::vector<int64_t> shape;
      for (auto &d : dims)
        shape.push_back(d.e[0].i);
      if (auto t = dyn_cast<ShapedType>(op->getResult(0).getType()); t && dims.empty() && t.hasStaticShape())
        shape = t.getShape().vec();
      Val v = Val::tensor(shape, n == "zeros" ? Sc::integer(0) : n == "ones" ? Sc::integer(1) : o(0).e[0]);
      set(op, v);
      return Next;
    }
    if (n == "identity") {
      int64_t k = o(0).e[0].i;
      Val v = Val::tensor({k, k}, Sc::integer(0));
      for (int64_t i = 0; i < k; ++i)
        v.e[i * k + i] = Sc::integer(1);
      set(op, v);
      return Next;
    }
    if (n == "diagonal") {
      Val a = o(0);
      int64_t k = a.e.size();
      Val v = Val::tensor({k, k}, Sc::integer(0));
      for (int64_t i = 0; i < k; ++i)
        v.e[i * k + i] = a.e[i];
      set(op, v);
      return Next;
    }
    if (n == "transpose" || n == "symmetric") {
      Val a = o(0);
      if (a.shape.size() != 2) {
        set(op, undef("rank"));
        return Next;
      }
      int64_t r = a.shape[0], c = a.shape[1];
      Val v = a;
      if (n == "transpose")
        v.shape = {c, r};
      for (int64_t i = 0; i < r; ++i)
        for (int64_t j = 0; j < c; ++j)
          if (n == "transpose")
            v.e[j * r + i] = a.e[i * c + j];
          else if (i > j)
            v.e[i * c + j] = a.e[j * c + i];
      set(op, v);
      return Next;
    }
    if (n == "linspace") {
      double a = o(0).e[0].num(), b = o(1).e[0].num();
      int64_t k = o(2).e[0].i;
      Val v = Val::tensor({k}, Sc::real(0));
      for (int64_t i = 0; i < k; ++i)
        v.e[i] = Sc::real(k > 1 ? a + (b - a) * i / (k - 1) : a);
      set(op, v);
      return Next;
    }
    if (n == "select") {
      unsigned k = op->getNumResults();
      bool c = o(0).e[0].truth();
      for (unsigned i = 0; i < k; ++i) {
        Val v = o(1 + (c ? 0 : k) + i);
        set(op, v, i);
      }
      return Next;
    }
    if (n == "reduction") {
      reduction(op);
      return Next;
    }
    if (n == "time") {
      set(op, Val::scalar(Sc::real(time, 1)));
      return Next;
    }
    if (n == "der") {
      Val v = o(0);
      for (auto &x : v.e)
        x = Sc::real(x.der(), std::nan(""));
      set(op, v);
      return Next;
    }
    if (n == "variable_get") {
      auto name = cast<bm::VariableGetOp>(op).getVariable().str();
      auto f = vars.find(name);
      if (f == vars.end())
        set(op, unsup("variable " + name));
      else
        env[op->getResult(0)] = f->second;
      return Next;
    }
    if (n == "variable_set") {
      auto s = cast<bm::VariableSetOp>(op);
      auto name = s.getVariable().str();
      if (!vars.count(name)) {
        unsup("variable " + name);
        return Next;
      }
      Val v = get(s.getValue());
      std::vector<Val> subs = gets(s.getIndices());
      Val &dst = vars[name];
      if (v.kind == Val::Record || v.kind == Val::None)
        dst = v;
      else {
        Type t;
        if (Operation *p = op->getParentWithTrait<OpTrait::SymbolTable>())
          if (auto vo = dyn_cast_or_null<bm::VariableOp>(SymbolTable::lookupSymbolIn(p, s.getVariable())))
            t = vo.getVariableType().unwrap();
        // Whole assignment to an array of unknown size changes its size.
        auto st = t ? dyn_cast<ShapedType>(t) : ShapedType();
        if (subs.empty() && v.kind == Val::Tensor && st && !st.hasStaticShape())
          dst = conv(v, t);
        else
          store(dst, subs, v, t ? t : s.getValue().getType());
      }
      return Next;
    }
    if (n == "global_variable_get" && globals) {
      auto f = globals->find(cast<bm::GlobalVariableGetOp>(op).getVariable().str());
      if (f == globals->end())
        set(op, unsup("global variable"));
      else
        env[op->getResult(0)] = f->second;
      return Next;
    }
    if (n == "record_create") {
      Val v;
      v.kind = Val::Record;
      v.sub = gets(op->getOperands());
      env[op->getResult(0)] = v;
      return Next;
    }
    if (n == "component_get") {
      auto g = cast<bm::ComponentGetOp>(op);
      Val v = o(0);
      auto rt = dyn_cast<bm::RecordType>(op->getOperand(0).getType());
      Operation *rec = rt ? findSymbol(rt.getName()) : nullptr;
      if (!rec || v.kind != Val::Record) {
        set(op, unsup("component of a record"));
        return Next;
      }
      size_t k = 0;
      for (auto var : rec->getRegion(0).getOps<bm::VariableOp>()) {
        if (var.getSymName() == g.getComponentName() && k < v.sub.size()) {
          set(op, v.sub[k]);
          return Next;
        }
        ++k;
      }
      set(op, unsup("component of a record"));
      return Next;
    }
    if (n == "if") {
      bool c = o(0).e[0].truth();
      Region &r = op->getRegion(c ? 0 : 1);
      if (r.empty())
        return Next;
      return block(r.front());
    }
    if (n == "while" || n == "for") {
      // condition, body (, step)
      std::vector<Val> args = n == "for" ? gets(op->getOperands()) : std::vector<Val>();
      auto bind = [&](Block &b) {
        for (unsigned i = 0; i < b.getNumArguments() && i < args.size(); ++i)
          env[b.getArgument(i)] = args[i];
      };
      while (!bad()) {
        if (--fuel < 0) {
          undef("too long");
          return Return;
        }
        Block &c = op->getRegion(0).front();
        bind(c);
        block(c);
        if (bad())
          return Return;
        auto y = yielded(c);
        if (y.empty() || !y[0].e[0].truth())
          break;
        if (n == "for")
          args.assign(y.begin() + 1, y.end());
        Block &b = op->getRegion(1).front();
        bind(b);
        Flow f = block(b);
        if (f == Return)
          return Return;
        if (f == Break)
          break;
        if (n == "for") {
          if (!b.empty() && b.back().getName().getStringRef() == "bmodelica.yield")
            args = yielded(b);
          Block &s = op->getRegion(2).front();
          bind(s);
          block(s);
          args = yielded(s);
        }
      }
      return Next;
    }
    if (n == "break")
      return Break;
    if (n == "return")
      return Return;
    if (n == "yield" || n == "condition" || n == "equation_side" || n == "equation_sides" || n == "assert" || n == "raw_return")
      return Next;
    if (n == "call") {
      auto c = cast<bm::CallOp>(op);
      Operation *f = findSymbol(c.getCallee());
      if (!f) {
        unsup("callee");
        return Next;
      }
      std::vector<std::string> names;
      if (auto an = c.getArgNames())
        for (auto a : an->getAsRange<FlatSymbolRefAttr>())
          names.push_back(a.getValue().str());
      auto args = gets(c.getArgs());
      // Elementwise calls: functions of scalars given tensors.
      auto res = callVectorised(f, args, names, op);
      if (bad())
        return Next;
      for (unsigned i = 0; i < op->getNumResults() && i < res.size(); ++i)
        env[op->getResult(i)] = res[i];
      return Next;
    }
    if (!other(op, op->getName().getStringRef()))
      unsup("operation bmodelica." + n.str());
    return Next;
  }

  virtual std::vector<Val> callVectorised(Operation *f, const std::vector<Val> &args, const std::vector<std::string> &names, Operation *) { return call(f, args, names); }

  void reduction(Operation *op) {
    auto r = cast<bm::ReductionOp>(op);
    std::vector<Val> it = gets(r.getIterables());
    Block &b = r.getExpressionRegion().front();
    std::vector<int64_t> n;
    for (auto &x : it) {
      bool ok;
      n.push_back(rangeSize(x, ok));
      if (!ok || x.e[0].isReal()) {
        set(op, undef("range of a reduction"));
        return;
      }
    }
    std::vector<int64_t> k(n.size(), 0);
    llvm::StringRef a = r.getAction();
    bool any = false;
    Sc acc = a == "add" ? Sc::integer(0) : Sc::integer(1);
    for (auto x : n)
      if (x == 0)
        goto done;
    for (;;) {
      for (size_t i = 0; i < k.size(); ++i)
        env[b.getArgument(i)] = conv(Val::scalar(Sc::integer(rangeAt(it[i], k[i]))), b.getArgument(i).getType());
      block(b);
      if (bad()) {
        set(op, Val::scalar(Sc::real(0)));
        return;
      }
      Sc v = yielded(b)[0].e[0];
      if (a == "add")
        acc = op2(Add, acc, v);
      else if (a == "mul")
        acc = op2(Mul, acc, v);
      else if (a == "min" || a == "max")
        acc = any ? op2(a == "min" ? Min : Max, acc, v) : v;
      else
        unsup("reduction " + a.str());
      any = true;
      size_t i = k.size();
      while (i > 0 && ++k[i - 1] == n[i - 1])
        k[--i] = 0;
      if (i == 0)
        break;
    }
  done:
    if (!any && (a == "min" || a == "max"))
      undef("extremum of nothing");
    set(op, Val::scalar(acc));
  }

  // ---- arith
  static int64_t wrap(int64_t v, Type t) {
    if (isa<IndexType>(t))
      return v;
    unsigned w = t.getIntOrFloatBitWidth();
    if (w == 1)
      return v & 1;
    if (w < 64)
      return int64_t(uint64_t(v) << (64 - w)) >> (64 - w);
    return v;
  }
  void arith(Operation *op, llvm::StringRef n) {
    Type rt = op->getNumResults() ? op->getResult(0).getType() : Type();
    auto o = [&](unsigned k) -> Sc { return get(op->getOperand(k)).e[0]; };
    auto put = [&](Sc s) { env[op->getResult(0)] = Val::scalar(s); };
    auto putInt = [&](int64_t v) {
      v = wrap(v, elem(rt));
      put(isBool(rt) ? Sc::boolean(v) : Sc::integer(v));
    };
    if (n == "constant") {
      env[op->getResult(0)] = attr(cast<arith::ConstantOp>(op).getValue());
      return;
    }
    for (Value v : op->getOperands())
      if (get(v).kind != Val::Scalar) {
        // Elementwise on tensors.
        unsup("arith on tensors");
        put(Sc::real(0));
        return;
      }
    // signed reading of an integer: i1 true is -1
    auto sx = [&](unsigned k) {
      Sc s = o(k);
      return op->getOperand(k).getType().isInteger(1) ? -(s.i & 1) : s.i;
    };
    auto ux = [&](unsigned k) {
      Sc s = o(k);
      return op->getOperand(k).getType().isInteger(1) ? (s.i & 1) : s.i;
    };
    auto zero = [&](unsigned k) {
      if (o(k).i == 0) {
        undef("division by zero");
        put(Sc::integer(0));
        return true;
      }
      return false;
    };
    if (n == "addi")
      putInt(int64_t(uint64_t(ux(0)) + uint64_t(ux(1))));
    else if (n == "subi")
      putInt(int64_t(uint64_t(ux(0)) - uint64_t(ux(1))));
    else if (n == "muli")
      putInt(int64_t(uint64_t(ux(0)) * uint64_t(ux(1))));
    else if (n == "andi")
      putInt(ux(0) & ux(1));
    else if (n == "ori")
      putInt(ux(0) | ux(1));
    else if (n == "xori")
      putInt(ux(0) ^ ux(1));
    else if (n == "divsi") {
      if (!zero(1))
        putInt(sx(0) / sx(1));
    } else if (n == "floordivsi") {
      if (!zero(1)) {
        int64_t a = sx(0), b = sx(1), q = a / b;
        if (a % b != 0 && ((a < 0) != (b < 0)))
          --q;
        putInt(q);
      }
    } else if (n == "ceildivsi") {
      if (!zero(1)) {
        int64_t a = sx(0), b = sx(1), q = a / b;
        if (a % b != 0 && ((a < 0) == (b < 0)))
          ++q;
        putInt(q);
      }
    } else if (n == "remsi") {
      if (!zero(1))
        putInt(sx(0) % sx(1));
    } else if (n == "maxsi")
      putInt(std::max(sx(0), sx(1)));
    else if (n == "minsi")
      putInt(std::min(sx(0), sx(1)));
    else if (n == "maxui" || n == "minui") {
      uint64_t a = ux(0), b = ux(1);
      putInt(n == "maxui" ? std::max(a, b) : std::min(a, b));
    } else if (n == "addf")
      put(check(Sc::real(o(0).d + o(1).d)));
    else if (n == "subf")
      put(check(Sc::real(o(0).d - o(1).d)));
    else if (n == "mulf")
      put(check(Sc::real(o(0).d * o(1).d)));
    else if (n == "divf") {
      if (o(1).d == 0) {
        undef("division by zero");
        put(Sc::real(0));
      } else
        put(check(Sc::real(o(0).d / o(1).d)));
    } else if (n == "remf") {
      if (o(1).d == 0) {
        undef("division by zero");
        put(Sc::real(0));
      } else
        put(Sc::real(std::fmod(o(0).d, o(1).d)));
    } else if (n == "negf")
      put(Sc::real(-o(0).d));
    else if (n == "maximumf" || n == "maxnumf")
      put(Sc::real(std::max(o(0).d, o(1).d)));
    else if (n == "minimumf" || n == "minnumf")
      put(Sc::real(std::min(o(0).d, o(1).d)));
    else if (n == "cmpi") {
      int64_t a = sx(0), b = sx(1);
      uint64_t ua = ux(0), ub = ux(1);
      bool r = false;
      switch (cast<arith::CmpIOp>(op).getPredicate()) {
      case arith::CmpIPredicate::eq: r = a == b; break;
      case arith::CmpIPredicate::ne: r = a != b; break;
      case arith::CmpIPredicate::slt: r = a < b; break;
      case arith::CmpIPredicate::sle: r = a <= b; break;
      case arith::CmpIPredicate::sgt: r = a > b; break;
      case arith::CmpIPredicate::sge: r = a >= b; break;
      case arith::CmpIPredicate::ult: r = ua < ub; break;
      case arith::CmpIPredicate::ule: r = ua <= ub; break;
      case arith::CmpIPredicate::ugt: r = ua > ub; break;
      case arith::CmpIPredicate::uge: r = ua >= ub; break;
      }
      put(Sc::boolean(r));
    } else if (n == "cmpf") {
      double a = o(0).d, b = o(1).d;
      bool r = false;
      switch (cast<arith::CmpFOp>(op).getPredicate()) {
      case arith::CmpFPredicate::OEQ: case arith::CmpFPredicate::UEQ: r = a == b; break;
      case arith::CmpFPredicate::ONE: case arith::CmpFPredicate::UNE: r = a != b; break;
      case arith::CmpFPredicate::OLT: case arith::CmpFPredicate::ULT: r = a < b; break;
      case arith::CmpFPredicate::OLE: case arith::CmpFPredicate::ULE: r = a <= b; break;
      case arith::CmpFPredicate::OGT: case arith::CmpFPredicate::UGT: r = a > b; break;
      case arith::CmpFPredicate::OGE: case arith::CmpFPredicate::UGE: r = a >= b; break;
      case arith::CmpFPredicate::AlwaysTrue: case arith::CmpFPredicate::ORD: r = true; break;
      default: r = false;
      }
      put(Sc::boolean(r));
    } else if (n == "select") {
      env[op->getResult(0)] = get(op->getOperand(o(0).truth() ? 1 : 2));
    } else if (n == "extsi" || n == "index_cast")
      putInt(sx(0));
    else if (n == "extui" || n == "index_castui")
      putInt(ux(0));
    else if (n == "trunci")
      putInt(ux(0));
    else if (n == "sitofp")
      put(Sc::real(double(sx(0))));
    else if (n == "uitofp")
      put(Sc::real(double(uint64_t(ux(0)))));
    else if (n == "fptosi" || n == "fptoui") {
      double d = o(0).d;
      if (!(std::fabs(d) < 9e15)) {
        undef("conversion of a real out of range");
        put(Sc::integer(0));
      } else {
        if (isBool(rt) && !(d > -2 && d < 2))
          undef("conversion of a real out of range");
        putInt(int64_t(d));
      }
    } else if (n == "extf" || n == "truncf")
      put(o(0));
    else {
      unsup("operation arith." + n.str());
      if (rt)
        put(Sc::real(0));
    }
  }
};
} // namespace mid
#endif

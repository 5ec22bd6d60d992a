// The reference interpreter, extended with the dialects the compiler lowers to, and with the functions of the
// runtime library (whose meaning is given by their names, and whose types by their mangled names).
#ifndef VERIF_MID_LOWINTERP_H
#define VERIF_MID_LOWINTERP_H
#include "mid/interp.h"
#include "marco/Dialect/Runtime/IR/Dialect.h"
#include "mlir/Dialect/Bufferization/IR/Bufferization.h"
#include "mlir/Dialect/LLVMIR/LLVMDialect.h"
#include "mlir/Dialect/Linalg/IR/Linalg.h"
#include "mlir/Dialect/MemRef/IR/MemRef.h"
#include "mlir/Dialect/SCF/IR/SCF.h"
#include "mlir/Dialect/Tensor/IR/Tensor.h"

namespace mid {
class LowInterp : public Interp {
public:
  bool strictRuntime = true;
  std::set<std::string> called; // runtime functions
  std::set<std::string> uninitialised; // operations accumulating on an uninitialised tensor

  // Content of memory never written.
  static Sc junk(Type t) { return isReal(elem(t)) ? Sc::real(std::nan("")) : isBool(elem(t)) ? Sc::boolean(true) : Sc::integer(0x5a5a5a5a); }
  // Memory: the buffer behind a value.
  DenseMap<Value, std::shared_ptr<Val>> mem;
  std::shared_ptr<Val> buf(Value v) {
    auto it = mem.find(v);
    if (it == mem.end()) {
      unsup("buffer");
      return std::make_shared<Val>(Val::tensor({}, Sc::real(0)));
    }
    return it->second;
  }

  std::vector<int64_t> mixed(ArrayRef<int64_t> st, ValueRange dyn) {
    std::vector<int64_t> r;
    size_t k = 0;
    for (auto s : st)
      r.push_back(ShapedType::isDynamic(s) ? get(dyn[k++]).e[0].i : s);
    return r;
  }
  static size_t flat(const std::vector<int64_t> &shape, const std::vector<int64_t> &idx, bool &ok) {
    size_t p = 0;
    ok = idx.size() == shape.size();
    for (size_t k = 0; ok && k < shape.size(); ++k) {
      if (idx[k] < 0 || idx[k] >= shape[k])
        ok = false;
      p = p * shape[k] + idx[k];
    }
    return p;
  }
  static bool next(std::vector<int64_t> &i, const std::vector<int64_t> &n) {
    size_t k = i.size();
    while (k > 0 && ++i[k - 1] == n[k - 1])
      i[--k] = 0;
    return k > 0;
  }
  static bool none(const std::vector<int64_t> &n) {
    for (auto x : n)
      if (x <= 0)
        return true;
    return false;
  }
  bool slice(const Val &src, const std::vector<int64_t> &off, const std::vector<int64_t> &sz, const std::vector<int64_t> &st, std::vector<size_t> &pos) {
    for (auto s : sz)
      if (s < 0) {
        undef("negative size");
        return false;
      }
    if (none(sz))
      return true;
    std::vector<int64_t> i(sz.size(), 0);
    do {
      std::vector<int64_t> q;
      for (size_t k = 0; k < i.size(); ++k)
        q.push_back(off[k] + i[k] * st[k]);
      bool ok;
      size_t p = flat(src.shape, q, ok);
      if (!ok) {
        undef("slice out of bounds");
        return false;
      }
      pos.push_back(p);
    } while (next(i, sz));
    return true;
  }
  // The shape of a slice whose unit dimensions may have been dropped.
  static std::vector<int64_t> reduced(const std::vector<int64_t> &sz, RankedTensorType t, const llvm::SmallBitVector &dropped) {
    std::vector<int64_t> r;
    for (size_t k = 0; k < sz.size(); ++k)
      if (!dropped[k])
        r.push_back(sz[k]);
    return r;
  }

  // Evaluates an affine expression.
  int64_t affine(AffineExpr e, const std::vector<int64_t> &d) {
    if (auto c = dyn_cast<AffineConstantExpr>(e))
      return c.getValue();
    if (auto x = dyn_cast<AffineDimExpr>(e))
      return d[x.getPosition()];
    auto b = cast<AffineBinaryOpExpr>(e);
    int64_t l = affine(b.getLHS(), d), r = affine(b.getRHS(), d);
    if (e.getKind() == AffineExprKind::Add)
      return l + r;
    if (e.getKind() == AffineExprKind::Mul)
      return l * r;
    unsup("affine expression");
    return 0;
  }

  void linalg(linalg::LinalgOp op) {
    auto maps = op.getIndexingMapsArray();
    std::vector<Val> v;
    for (Value x : op->getOperands())
      v.push_back(get(x));
    if (isa<linalg::DotOp, linalg::VecmatOp, linalg::MatvecOp, linalg::MatmulOp>(op.getOperation())) {
      // They add to the tensor they are given: one with no content is reported apart.
      Value out = op->getOperands().back();
      if (out.getDefiningOp<tensor::EmptyOp>()) {
        uninitialised.insert(op->getName().getStringRef().str());
        for (auto &x : v.back().e)
          x = isReal(elem(out.getType())) ? Sc::real(0) : Sc::integer(0);
      }
    }
    size_t loops = op.getNumLoops(), ni = op.getNumDpsInputs();
    std::vector<int64_t> n(loops, -1);
    for (size_t k = 0; k < v.size(); ++k) {
      if (v[k].kind == Val::Scalar)
        continue;
      for (unsigned r = 0; r < maps[k].getNumResults(); ++r)
        if (auto d = dyn_cast<AffineDimExpr>(maps[k].getResult(r))) {
          if (r >= v[k].shape.size()) {
            unsup("rank of an operand of linalg");
            return;
          }
          int64_t &x = n[d.getPosition()];
          if (x >= 0 && x != v[k].shape[r]) {
            undef("linalg operation over incompatible shapes");
            return;
          }
          x = v[k].shape[r];
        }
    }
    for (auto x : n)
      if (x < 0) {
        unsup("loop of linalg");
        return;
      }
    Block *b = op.getBlock();
    if (!none(n) || n.empty()) {
      std::vector<int64_t> i(loops, 0);
      do {
        std::vector<size_t> pos;
        for (size_t k = 0; k < v.size(); ++k) {
          std::vector<int64_t> q;
          for (auto e : maps[k].getResults())
            q.push_back(affine(e, i));
          bool ok = true;
          pos.push_back(v[k].kind == Val::Scalar ? 0 : flat(v[k].shape, q, ok));
          if (!ok) {
            undef("linalg access out of bounds");
            return;
          }
        }
        for (size_t k = 0; k < v.size() && k < b->getNumArguments(); ++k)
          env[b->getArgument(k)] = Val::scalar(v[k].e[pos[k]]);
        indices = i;
        block(*b);
        if (bad())
          return;
        auto y = yielded(*b);
        for (size_t k = 0; k < y.size(); ++k)
          v[ni + k].e[pos[ni + k]] = y[k].e[0];
      } while (next(i, n));
    }
    for (unsigned k = 0; k < op->getNumResults(); ++k)
      env[op->getResult(k)] = v[ni + k];
  }
  std::vector<int64_t> indices;

  static std::string mangled(Type t) {
    if (isa<IndexType>(t))
      return "i64";
    if (auto i = dyn_cast<mlir::IntegerType>(t))
      return "i" + std::to_string(i.getWidth());
    if (auto f = dyn_cast<FloatType>(t))
      return "f" + std::to_string(f.getWidth());
    if (auto s = dyn_cast<ShapedType>(t))
      return "a" + mangled(s.getElementType());
    return "?";
  }

  void runtimeCall(Operation *op) {
    auto c = cast<mlir::runtime::CallOp>(op);
    std::string name = c.getCallee().str();
    called.insert(name);
    // The name says the types.
    std::string types = "_" + (op->getNumResults() ? mangled(op->getResult(0).getType()) : std::string("void"));
    for (Value a : op->getOperands())
      types += "_" + mangled(a.getType());
    if (!llvm::StringRef(name).starts_with("_M") || !llvm::StringRef(name).ends_with(types)) {
      unsup("runtime function " + name + " called with the types " + types);
      return;
    }
    std::string base = name.substr(2, name.size() - 2 - types.size());
    auto a = [&](unsigned k) -> Val {
      Value v = op->getOperand(k);
      return isa<BaseMemRefType>(v.getType()) ? *buf(v) : get(v);
    };
    auto put = [&](Val v) { env[op->getResult(0)] = conv(std::move(v), op->getResult(0).getType()); };
    unsigned n = op->getNumOperands();
    static const std::map<std::string, Op2> two = {{"pow", Pow}, {"atan2", Atan2}, {"div", DivTrunc}, {"div_trunc", DivTrunc}, {"mod", Mod}, {"rem", Rem}, {"maxScalars", Max}, {"minScalars", Min}};
    static const std::set<std::string> one = {"abs", "acos", "asin", "atan", "ceil", "floor", "integer", "cos", "cosh", "exp", "log", "log10", "sign", "sin", "sinh", "sqrt", "tan", "tanh"};
    if (op->getNumResults() == 1) {
      if (n == 2 && two.count(base)) {
        put(Val::scalar(op2(two.at(base), a(0).e[0], a(1).e[0])));
        return;
      }
      if (n == 1 && one.count(base)) {
        put(Val::scalar(op1(base, a(0).e[0])));
        return;
      }
      if (n == 1 && (base == "sum" || base == "product" || base == "maxArray" || base == "minArray")) {
        Val v = a(0);
        if (v.e.empty() && (base == "maxArray" || base == "minArray")) {
          put(undef("extremum of nothing"));
          return;
        }
        Sc s = base == "sum" ? Sc::integer(0) : base == "product" ? Sc::integer(1) : v.e[0];
        for (auto &x : v.e)
          s = op2(base == "sum" ? Add : base == "product" ? Mul : base == "maxArray" ? Max : Min, s, x);
        put(Val::scalar(s));
        return;
      }
      unsup("runtime function " + name);
      put(Val::scalar(Sc::real(0)));
      return;
    }
    if (n >= 1 && isa<BaseMemRefType>(op->getOperand(0).getType())) {
      auto d = buf(op->getOperand(0));
      Type t = cast<BaseMemRefType>(op->getOperand(0).getType()).getElementType();
      auto fill = [&](Sc s) {
        for (auto &x : d->e)
          x = conv(s, t);
      };
      auto &sh = d->shape;
      bool square = sh.size() == 2 && sh[0] == sh[1];
      if (n == 1 && base == "zeros")
        fill(Sc::integer(0));
      else if (n == 1 && base == "ones")
        fill(Sc::integer(1));
      else if (n == 2 && base == "fill")
        fill(a(1).e[0]);
      else if (n == 1 && base == "identity" && square) {
        fill(Sc::integer(0));
        for (int64_t i = 0; i < sh[0]; ++i)
          d->e[i * sh[0] + i] = conv(Sc::integer(1), t);
      } else if (n == 2 && base == "diagonal" && square && a(1).shape.size() == 1 && a(1).shape[0] == sh[0]) {
        fill(Sc::integer(0));
        for (int64_t i = 0; i < sh[0]; ++i)
          d->e[i * sh[0] + i] = conv(a(1).e[i], t);
      } else if (n == 3 && base == "linspace" && sh.size() == 1) {
        double x = a(1).e[0].num(), y = a(2).e[0].num();
        for (int64_t i = 0; i < sh[0]; ++i)
          d->e[i] = conv(Sc::real(sh[0] > 1 ? x + (y - x) * i / (sh[0] - 1) : x), t);
      } else if (n == 2 && (base == "transpose" || base == "symmetric") && sh.size() == 2 && a(1).shape.size() == 2) {
        Val s = a(1);
        bool tr = base == "transpose";
        if (s.shape[tr ? 1 : 0] != sh[0] || s.shape[tr ? 0 : 1] != sh[1]) {
          undef("result of another shape");
          return;
        }
        for (int64_t i = 0; i < sh[0]; ++i)
          for (int64_t j = 0; j < sh[1]; ++j)
            d->e[i * sh[1] + j] = conv(tr ? s.e[j * sh[0] + i] : i <= j ? s.e[i * sh[1] + j] : s.e[j * sh[1] + i], t);
      } else
        unsup("runtime function " + name);
      return;
    }
    unsup("runtime function " + name);
  }

  bool other(Operation *op, llvm::StringRef n) override {
    if (auto l = dyn_cast<linalg::LinalgOp>(op)) {
      linalg(l);
      return true;
    }
    auto put = [&](Val v) { env[op->getResult(0)] = std::move(v); };
    auto idx = [&](ValueRange r) {
      std::vector<int64_t> o;
      for (Value v : r)
        o.push_back(get(v).e[0].i);
      return o;
    };
    if (n == "linalg.yield" || n == "linalg.index" || n == "scf.reduce" || n == "scf.reduce.return" || n == "memref.dealloc") {
      if (n == "linalg.index")
        put(Val::scalar(Sc::integer(indices[cast<linalg::IndexOp>(op).getDim()])));
      return true;
    }
    if (n == "tensor.empty") {
      auto e = cast<tensor::EmptyOp>(op);
      auto s = mixed(e.getType().getShape(), e.getDynamicSizes());
      put(Val::tensor(s, junk(e.getType())));
      return true;
    }
    if (n == "tensor.splat") {
      auto e = cast<tensor::SplatOp>(op);
      put(Val::tensor(mixed(e.getType().getShape(), e.getDynamicSizes()), get(e.getInput()).e[0]));
      return true;
    }
    if (n == "tensor.dim") {
      auto s = get(op->getOperand(0)).shape;
      int64_t d = get(op->getOperand(1)).e[0].i;
      put(d >= 0 && d < int64_t(s.size()) ? Val::scalar(Sc::integer(s[d])) : undef("dimension"));
      return true;
    }
    if (n == "tensor.rank") {
      put(Val::scalar(Sc::integer(get(op->getOperand(0)).shape.size())));
      return true;
    }
    if (n == "tensor.cast") {
      Val v = get(op->getOperand(0));
      if (auto t = dyn_cast<RankedTensorType>(op->getResult(0).getType()))
        for (size_t k = 0; k < v.shape.size(); ++k)
          if (t.getRank() != int64_t(v.shape.size()) || (!t.isDynamicDim(k) && t.getDimSize(k) != v.shape[k])) {
            v = undef("cast of a tensor to another shape");
            break;
          }
      put(v);
      return true;
    }
    if (n == "tensor.from_elements") {
      auto t = cast<RankedTensorType>(op->getResult(0).getType());
      Val v = Val::tensor(t.getShape().vec(), junk(t));
      for (size_t k = 0; k < v.e.size(); ++k)
        v.e[k] = get(op->getOperand(k)).e[0];
      put(v);
      return true;
    }
    if (n == "tensor.extract" || n == "tensor.insert") {
      bool ins = n == "tensor.insert";
      Val src = get(op->getOperand(ins ? 1 : 0));
      bool ok;
      size_t p = flat(src.shape, idx(op->getOperands().drop_front(ins ? 2 : 1)), ok);
      if (!ok) {
        put(undef("access out of bounds"));
        return true;
      }
      if (ins) {
        src.e[p] = get(op->getOperand(0)).e[0];
        put(src);
      } else
        put(Val::scalar(src.e[p]));
      return true;
    }
    if (n == "tensor.extract_slice") {
      auto e = cast<tensor::ExtractSliceOp>(op);
      Val src = get(e.getSource());
      auto off = mixed(e.getStaticOffsets(), e.getOffsets()), sz = mixed(e.getStaticSizes(), e.getSizes()), st = mixed(e.getStaticStrides(), e.getStrides());
      std::vector<size_t> pos;
      Val v;
      v.kind = Val::Tensor;
      if (slice(src, off, sz, st, pos)) {
        v.shape = reduced(sz, e.getType(), e.getDroppedDims());
        for (auto p : pos)
          v.e.push_back(src.e[p]);
        for (size_t k = 0; k < v.shape.size(); ++k)
          if (!e.getType().isDynamicDim(k) && e.getType().getDimSize(k) != v.shape[k])
            undef("slice of another shape");
      }
      put(v);
      return true;
    }
    if (n == "tensor.insert_slice") {
      auto e = cast<tensor::InsertSliceOp>(op);
      Val src = get(e.getSource()), dst = get(e.getDest());
      auto off = mixed(e.getStaticOffsets(), e.getOffsets()), sz = mixed(e.getStaticSizes(), e.getSizes()), st = mixed(e.getStaticStrides(), e.getStrides());
      std::vector<size_t> pos;
      if (slice(dst, off, sz, st, pos)) {
        if (pos.size() != src.e.size())
          undef("slice of another shape");
        else
          for (size_t k = 0; k < pos.size(); ++k)
            dst.e[pos[k]] = src.e[k];
      }
      put(dst);
      return true;
    }
    if (n == "scf.for") {
      auto f = cast<scf::ForOp>(op);
      int64_t lo = get(f.getLowerBound()).e[0].i, hi = get(f.getUpperBound()).e[0].i, st = get(f.getStep()).e[0].i;
      std::vector<Val> it = gets(f.getInitArgs());
      if (st <= 0) {
        undef("loop with a step that is not positive");
        return true;
      }
      for (int64_t i = lo; i < hi && !bad(); i += st) {
        Block *b = f.getBody();
        env[b->getArgument(0)] = Val::scalar(Sc::integer(i));
        for (size_t k = 0; k < it.size(); ++k)
          env[b->getArgument(k + 1)] = it[k];
        block(*b);
        it = yielded(*b);
        if (--fuel < 0)
          undef("too long");
      }
      for (size_t k = 0; k < it.size() && k < op->getNumResults(); ++k)
        env[op->getResult(k)] = it[k];
      return true;
    }
    if (n == "scf.if") {
      auto f = cast<scf::IfOp>(op);
      Region &r = get(f.getCondition()).e[0].truth() ? f.getThenRegion() : f.getElseRegion();
      if (!r.empty()) {
        block(r.front());
        auto y = yielded(r.front());
        for (size_t k = 0; k < op->getNumResults() && k < y.size(); ++k)
          env[op->getResult(k)] = y[k];
      }
      return true;
    }
    if (n == "scf.parallel") {
      auto f = cast<scf::ParallelOp>(op);
      auto lo = idx(f.getLowerBound()), hi = idx(f.getUpperBound()), st = idx(f.getStep());
      std::vector<Val> acc = gets(f.getInitVals());
      std::vector<int64_t> cnt;
      for (size_t k = 0; k < lo.size(); ++k) {
        if (st[k] <= 0) {
          undef("loop with a step that is not positive");
          return true;
        }
        cnt.push_back(hi[k] > lo[k] ? (hi[k] - lo[k] + st[k] - 1) / st[k] : 0);
      }
      if (!none(cnt)) {
        std::vector<int64_t> i(cnt.size(), 0);
        do {
          Block *b = f.getBody();
          for (size_t k = 0; k < i.size(); ++k)
            env[b->getArgument(k)] = Val::scalar(Sc::integer(lo[k] + i[k] * st[k]));
          block(*b);
          if (bad())
            break;
          auto red = cast<scf::ReduceOp>(b->getTerminator());
          for (size_t k = 0; k < acc.size(); ++k) {
            Block &rb = red.getReductions()[k].front();
            env[rb.getArgument(0)] = acc[k];
            Val next = get(red.getOperands()[k]); // a copy, before the environment grows
            env[rb.getArgument(1)] = next;
            block(rb);
            acc[k] = yielded(rb)[0];
          }
          if (--fuel < 0)
            undef("too long");
        } while (!bad() && next(i, cnt));
      }
      for (size_t k = 0; k < acc.size(); ++k)
        env[op->getResult(k)] = acc[k];
      return true;
    }
    if (n == "memref.alloc" || n == "memref.alloca") {
      auto t = cast<MemRefType>(op->getResult(0).getType());
      mem[op->getResult(0)] = std::make_shared<Val>(Val::tensor(mixed(t.getShape(), op->getOperands()), junk(t)));
      return true;
    }
    if (n == "memref.cast") {
      mem[op->getResult(0)] = buf(op->getOperand(0));
      return true;
    }
    if (n == "memref.dim") {
      auto s = buf(op->getOperand(0))->shape;
      int64_t d = get(op->getOperand(1)).e[0].i;
      put(d >= 0 && d < int64_t(s.size()) ? Val::scalar(Sc::integer(s[d])) : undef("dimension"));
      return true;
    }
    if (n == "memref.load" || n == "memref.store") {
      bool st = n == "memref.store";
      auto b = buf(op->getOperand(st ? 1 : 0));
      bool ok;
      size_t p = flat(b->shape, idx(op->getOperands().drop_front(st ? 2 : 1)), ok);
      if (!ok) {
        undef("access out of bounds");
        if (!st)
          put(Val::scalar(Sc::real(0)));
      } else if (st)
        b->e[p] = get(op->getOperand(0)).e[0];
      else
        put(Val::scalar(b->e[p]));
      return true;
    }
    if (n == "bufferization.to_tensor") {
      put(*buf(op->getOperand(0)));
      return true;
    }
    if (n == "runtime.call") {
      runtimeCall(op);
      return true;
    }
    return false;
  }
};
} // namespace mid
#endif

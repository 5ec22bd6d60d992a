// Expressions of the intermediate representation, to be enumerated, built and executed.
#ifndef VERIF_MID_EXPRS_H
#define VERIF_MID_EXPRS_H
#include "mid/interp.h"
#include "mlir/Interfaces/InferTypeOpInterface.h"
using namespace mid;
static MLIRContext *mctx;
static Type BT, IT, RT, XT; // Boolean, Integer, Real, index
static void initTypes(MLIRContext *c) {
  mctx = c;
  BT = bm::BooleanType::get(c);
  IT = bm::IntegerType::get(c);
  RT = bm::RealType::get(c);
  XT = IndexType::get(c);
}

// Expressions to be built.
struct E {
  std::string op;        // name of the operation; "arg" or "cst" for leaves
  Attribute value;       // constants
  int arg = -1;          // arguments
  Type type;             // type of arguments, or forced type of the result
  std::vector<E> kids;
  std::vector<NamedAttribute> attrs;
  std::vector<E> body;   // expression of reductions
};
static E cst(Attribute a) { E e; e.op = "cst"; e.value = a; return e; }
static E argE(int k, Type t) { E e; e.op = "arg"; e.arg = k; e.type = t; return e; }
static E node(const std::string &op, std::vector<E> kids, Type t = {}) { E e; e.op = op; e.kids = std::move(kids); e.type = t; return e; }
static E B_(bool b) { return cst(bm::BooleanAttr::get(mctx, b)); }
static E I_(int64_t v) { return cst(bm::IntegerAttr::get(mctx, v)); }
static E R_(double v) { return cst(bm::RealAttr::get(mctx, v)); }
static E X_(int64_t v) { return cst(mlir::IntegerAttr::get(IndexType::get(mctx), v)); }
static E IR_(int64_t a, int64_t b, int64_t s, Type t = {}) { return cst(bm::IntegerRangeAttr::get(mctx, bm::RangeType::get(mctx, t ? t : IT), a, b, s)); }
static E RR_(double a, double b, double s) { return cst(bm::RealRangeAttr::get(mctx, bm::RangeType::get(mctx, RT), llvm::APFloat(a), llvm::APFloat(b), llvm::APFloat(s))); }

// Types of the results of the operations that do not infer them, as the translation of the source language sets them.
static Type withElem(Type shape, Type e) {
  if (auto s = dyn_cast<ShapedType>(shape))
    return s.clone(e);
  return e;
}
static Type resultOf(llvm::StringRef op, ArrayRef<Type> o) {
  auto real = [&](unsigned k) { return Interp::isReal(Interp::elem(o[k])); };
  if (op == "abs")
    return o[0];
  if (op == "integer")
    return withElem(o[0], IT);
  if (op == "sign")
    return withElem(o[0], IT);
  if (op == "div_trunc" || op == "mod" || op == "rem")
    return real(0) || real(1) ? RT : IT;
  if (op == "range_begin" || op == "range_end" || op == "range_step")
    return cast<bm::RangeType>(o[0]).getInductionType();
  if (op == "range_size")
    return XT;
  if (op == "sum" || op == "product" || ((op == "max" || op == "min") && o.size() == 1))
    return cast<ShapedType>(o[0]).getElementType();
  return withElem(o[0], RT);
}

static Value build(OpBuilder &b, const E &e, ValueRange args) {
  Location loc = b.getUnknownLoc();
  if (e.op == "cst")
    return b.create<bm::ConstantOp>(loc, cast<TypedAttr>(e.value));
  if (e.op == "arg")
    return args[e.arg];
  if (e.op == "var") // variable of the class
    return b.create<bm::VariableGetOp>(loc, e.type, cast<StringAttr>(e.value).getValue());
  std::vector<Value> k;
  for (auto &x : e.kids) {
    k.push_back(build(b, x, args));
    if (!k.back())
      return {};
  }
  if (e.op == "tensor_view")
    return b.create<bm::TensorViewOp>(loc, k[0], ValueRange(k).drop_front());
  if (e.op == "tensor_extract")
    return b.create<bm::TensorExtractOp>(loc, k[0], ValueRange(k).drop_front());
  if (e.op == "call")
    return b.create<bm::CallOp>(loc, SymbolRefAttr::get(mctx, cast<StringAttr>(e.value).getValue()), e.type, k)->getResult(0);
  if (e.op == "reduction") {
    // The last child is the expression, made with the inductions after the arguments.
    auto r = b.create<bm::ReductionOp>(loc, e.type, cast<StringAttr>(e.value).getValue(), k);
    OpBuilder::InsertionGuard g(b);
    b.setInsertionPointToStart(r.createExpressionBlock(b));
    std::vector<Value> a(args.begin(), args.end());
    a.insert(a.end(), r.getInductions().begin(), r.getInductions().end());
    Value v = build(b, e.body[0], a);
    if (!v)
      return {};
    if (v.getType() != e.type)
      v = b.create<bm::CastOp>(loc, e.type, v);
    b.create<bm::YieldOp>(loc, v);
    return r.getResult();
  }
  OperationState st(loc, "bmodelica." + e.op);
  st.addOperands(k);
  st.addAttributes(e.attrs);
  if (e.type)
    st.addTypes(e.type);
  else {
    auto info = RegisteredOperationName::lookup(st.name.getStringRef(), mctx);
    auto *inf = info ? info->getInterface<InferTypeOpInterface>() : nullptr;
    SmallVector<Type> types;
    if (inf) {
      if (failed(inf->inferReturnTypes(mctx, std::nullopt, k, st.attributes.getDictionary(mctx), st.getRawProperties(), {}, types)))
        return {};
    } else {
      SmallVector<Type> o;
      for (auto v : k)
        o.push_back(v.getType());
      types.push_back(resultOf(e.op, o));
    }
    st.addTypes(types);
  }
  return b.create(st)->getResult(0);
}

static std::string text(const E &e) {
  std::string r = e.op == "cst" ? str(e.value) : e.op == "arg" ? "arg" + std::to_string(e.arg) : e.op == "var" || e.op == "call" ? cast<StringAttr>(e.value).getValue().str() : e.op;
  if (!e.kids.empty()) {
    r += "(";
    for (auto &k : e.kids)
      r += (&k == &e.kids[0] ? "" : ", ") + text(k);
    r += ")";
  }
  if (e.op == "reduction")
    r += " " + str(e.value) + " of " + text(e.body[0]);
  if (e.type && e.op != "arg" && e.op != "var")
    r += " : " + str(e.type);
  return r;
}

struct Prog {
  std::vector<E> outs;
  std::vector<Type> args;
  std::vector<std::vector<Val>> inputs; // assignments of the arguments
};

static Val S(Sc s) { return Val::scalar(s); }

// Makes a function returning the values of expressions; null if some operation can't be typed, or is not valid.
static OwningOpRef<ModuleOp> makeProgram(const Prog &p, func::FuncOp &f, const char *&why) {
  OwningOpRef<ModuleOp> m = ModuleOp::create(UnknownLoc::get(mctx));
  OpBuilder b(mctx);
  b.setInsertionPointToEnd(m->getBody());
  f = b.create<func::FuncOp>(b.getUnknownLoc(), "f", b.getFunctionType(p.args, {}));
  Block *body = f.addEntryBlock();
  b.setInsertionPointToEnd(body);
  SmallVector<Value> outs;
  SmallVector<Type> types;
  for (auto &e : p.outs) {
    Value v = build(b, e, body->getArguments());
    if (!v) {
      why = "not typed";
      return nullptr;
    }
    outs.push_back(v);
    types.push_back(v.getType());
  }
  b.create<func::ReturnOp>(b.getUnknownLoc(), outs);
  f.setFunctionType(b.getFunctionType(p.args, types));
  Diags d(mctx);
  if (failed(verify(*m))) {
    why = "not valid";
    return nullptr;
  }
  return m;
}
#endif

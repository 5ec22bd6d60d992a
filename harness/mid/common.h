// Shared by the harnesses of the compiler proper.
#ifndef VERIF_MID_COMMON_H
#define VERIF_MID_COMMON_H
#include "mc.h"
#include "marco/Dialect/BaseModelica/IR/Dialect.h"
#include "marco/Dialect/Runtime/IR/Dialect.h"
#include "mlir/Bytecode/BytecodeWriter.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/LLVMIR/LLVMDialect.h"
#include "mlir/IR/AsmState.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/Diagnostics.h"
#include "mlir/IR/Verifier.h"
#include "mlir/Parser/Parser.h"
#include "llvm/Support/raw_ostream.h"
#include <string>

namespace mid {
using namespace mlir;

template <typename T> inline std::string str(const T &x) {
  std::string s;
  llvm::raw_string_ostream os(s);
  os << x;
  return s;
}

inline std::string print(Operation *op, bool generic = false) {
  std::string s;
  llvm::raw_string_ostream os(s);
  OpPrintingFlags f;
  f.elideLargeElementsAttrs(1 << 30);
  if (generic)
    f.printGenericOpForm();
  op->print(os, f);
  return s;
}

// Collects the diagnostics emitted while it lives.
struct Diags {
  std::string text;
  int errors = 0;
  ScopedDiagnosticHandler h;
  explicit Diags(MLIRContext *c)
      : h(c, [this](Diagnostic &d) {
          if (d.getSeverity() == DiagnosticSeverity::Error)
            ++errors;
          if (text.size() < 2000)
            text += d.str() + "; ";
          return success();
        }) {}
};

inline OwningOpRef<ModuleOp> parse(MLIRContext *c, llvm::StringRef text) {
  return parseSourceString<ModuleOp>(text, ParserConfig(c));
}
} // namespace mid
#endif

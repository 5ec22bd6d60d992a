// Force-included (precompiled) before the sources of the compiler: names of the next release of MLIR.
#pragma once
#include "mlir/Interfaces/FunctionImplementation.h"
#include "mlir/Interfaces/CallInterfaces.h"
#include "mlir/Transforms/GreedyPatternRewriteDriver.h"
#include "mlir/IR/SymbolTable.h"
namespace mlir::call_interface_impl {
using mlir::function_interface_impl::addArgAndResultAttrs;
}

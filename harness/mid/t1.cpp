// A small marco-opt for experiments.
#include "marco/Dialect/BaseModelica/Transforms/Passes.h"
#include "marco/Dialect/BaseModelica/Transforms/AllocationOpInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/ClassInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/ConstantMaterializableTypeInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/DerivableTypeInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/EquationExpressionOpInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/InvertibleOpInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/RuntimeVerifiableOpInterfaceImpl.h"
#include "marco/Dialect/BaseModelica/Transforms/VectorizableOpInterfaceImpl.h"
#include "marco/Dialect/Runtime/IR/Dialect.h"
#include "marco/Codegen/Conversion/Passes.h"
#include "mlir/Dialect/Arith/IR/Arith.h"
#include "mlir/Dialect/Func/IR/FuncOps.h"
#include "mlir/Dialect/Linalg/IR/Linalg.h"
#include "mlir/Dialect/Tensor/IR/Tensor.h"
#include "mlir/Dialect/SCF/IR/SCF.h"
#include "mlir/Dialect/Math/IR/Math.h"
#include "mlir/Dialect/MemRef/IR/MemRef.h"
#include "mlir/Dialect/LLVMIR/LLVMDialect.h"
#include "mlir/Transforms/Passes.h"
#include "mlir/Pass/PassRegistry.h"
#include "mlir/Tools/mlir-opt/MlirOptMain.h"
#include "llvm/Support/ToolOutputFile.h"
using namespace mlir;
using namespace mlir::bmodelica;
namespace {
// The pass that can't be built here.
struct Unavailable : PassWrapper<Unavailable, OperationPass<ModuleOp>> {
  llvm::StringRef getArgument() const override { return "unavailable"; }
  void runOnOperation() override { signalPassFailure(); }
};
}
namespace mlir { std::unique_ptr<Pass> createAllToLLVMConversionPass() { return std::make_unique<Unavailable>(); } }
int main(int argc, char **argv) {
  DialectRegistry registry;
  registry.insert<BaseModelicaDialect, mlir::runtime::RuntimeDialect, func::FuncDialect, arith::ArithDialect, linalg::LinalgDialect, tensor::TensorDialect, scf::SCFDialect, math::MathDialect, memref::MemRefDialect, LLVM::LLVMDialect>();
  registerAllocationOpInterfaceExternalModels(registry);
  registerClassInterfaceExternalModels(registry);
  registerDerivableOpInterfaceExternalModels(registry);
  registerEquationExpressionOpInterfaceExternalModels(registry);
  registerInvertibleOpInterfaceExternalModels(registry);
  registerRuntimeVerifiableOpInterfaceExternalModels(registry);
  registerVectorizableOpInterfaceExternalModels(registry);
  registerConstantMaterializableTypeInterfaceExternalModels(registry);
  registerDerivableTypeInterfaceExternalModels(registry);
  registerBaseModelicaPasses();
  registerTransformsPasses();
  marco::codegen::registerConversionPasses();
  return asMainReturnCode(MlirOptMain(argc, argv, "t1", registry));
}

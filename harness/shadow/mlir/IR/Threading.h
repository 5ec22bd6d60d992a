// Replacement of MLIR's header: every element is processed by a task of the
// controlled scheduler.
#ifndef MLIR_IR_THREADING_H
#define MLIR_IR_THREADING_H

#include "mlir/IR/Diagnostics.h"
#include "llvm/ADT/Sequence.h"
#include "llvm/Support/ThreadPool.h"
#include "schedrt.h"
#include <atomic>

namespace mlir {
template <typename IteratorT, typename FuncT>
LogicalResult failableParallelForEach(MLIRContext *context, IteratorT begin, IteratorT end, FuncT &&func) {
  size_t numElements = static_cast<size_t>(std::distance(begin, end));
  if (numElements == 0) {
    return success();
  }
  if (numElements <= 1) {
    for (; begin != end; ++begin) {
      if (failed(func(*begin))) {
        return failure();
      }
    }
    return success();
  }
  std::atomic<bool> processingFailed(false);
  auto processFn = [&](size_t index) {
    if (processingFailed.load()) {
      return;
    }
    if (failed(func(*std::next(begin, index)))) {
      processingFailed.store(true);
    }
  };
  schedrt::region(
      numElements, [](void *arg, size_t index) { (*static_cast<decltype(processFn) *>(arg))(index); }, &processFn);
  return failure(processingFailed.load());
}
template <typename RangeT, typename FuncT>
LogicalResult failableParallelForEach(MLIRContext *context, RangeT &&range, FuncT &&func) {
  return failableParallelForEach(context, std::begin(range), std::end(range), std::forward<FuncT>(func));
}
template <typename FuncT>
LogicalResult failableParallelForEachN(MLIRContext *context, size_t begin, size_t end, FuncT &&func) {
  return failableParallelForEach(context, llvm::seq(begin, end), std::forward<FuncT>(func));
}
template <typename IteratorT, typename FuncT>
void parallelForEach(MLIRContext *context, IteratorT begin, IteratorT end, FuncT &&func) {
  (void)failableParallelForEach(context, begin, end, [&](auto &&value) {
    return func(std::forward<decltype(value)>(value)), success();
  });
}
template <typename RangeT, typename FuncT>
void parallelForEach(MLIRContext *context, RangeT &&range, FuncT &&func) {
  parallelForEach(context, std::begin(range), std::end(range), std::forward<FuncT>(func));
}
template <typename FuncT>
void parallelFor(MLIRContext *context, size_t begin, size_t end, FuncT &&func) {
  parallelForEach(context, llvm::seq(begin, end), std::forward<FuncT>(func));
}
} // namespace mlir
#endif // MLIR_IR_THREADING_H

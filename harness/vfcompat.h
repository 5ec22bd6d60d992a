// Forced into the compilation of lib/VariableFilter/VariableFilter.cpp, which is
// written for the next release of clang: diagnostic options given by reference.
#pragma once
#include "clang/Basic/Diagnostic.h"
#include "clang/Basic/LangOptions.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"

namespace clang {
struct DiagnosticOptionsByValue {
  bool ShowColors = false;
  llvm::IntrusiveRefCntPtr<DiagnosticOptions> options{new DiagnosticOptions()};

  operator DiagnosticOptions *() { return options.get(); }
  operator llvm::IntrusiveRefCntPtr<DiagnosticOptions>() { return options; }
};
} // namespace clang
#define DiagnosticOptions DiagnosticOptionsByValue

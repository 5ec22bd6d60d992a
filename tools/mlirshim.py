"""Bridges the release of MLIR that marco is written for and the installed one.

Writes into BUILD/shim copies of three headers of the installed release with the missing (trivial) members
added, plus a precompiled header, and returns ninja rules generating marco's tablegen files.
"""
import glob
import os
import re

ADDED = [
    ("mlir/IR/Types.h", "  bool isIntOrFloat() const;", """  bool isIntOrFloat() const;
  bool isFloat() const { return isIntOrFloat() && !isInteger(); }"""),
    ("mlir/Dialect/Bufferization/IR/Bufferization.h", "#endif // MLIR_DIALECT_BUFFERIZATION_IR_BUFFERIZATION_H_",
     "namespace mlir::bufferization { using ToBufferOp = ToMemrefOp; }\n#endif"),
    ("mlir/Conversion/LLVMCommon/Pattern.h", "  Type getVoidPtrType() const;", """  Type getVoidPtrType() const;
  Type getPtrType(unsigned addressSpace = 0) const { return getVoidPtrType(); }"""),
    ("mlir/Transforms/GreedyPatternRewriteDriver.h", "  bool cseConstants = true;\n};", """  bool cseConstants = true;

  GreedyRewriteConfig &enableFolding(bool value = true) { fold = value; return *this; }
  GreedyRewriteConfig &setListener(RewriterBase::Listener *value) { listener = value; return *this; }
  GreedyRewriteConfig &setMaxIterations(int64_t value) { maxIterations = value; return *this; }
  GreedyRewriteConfig &setMaxNumRewrites(int64_t value) { maxNumRewrites = value; return *this; }
  GreedyRewriteConfig &setUseTopDownTraversal(bool value = true) { useTopDownTraversal = value; return *this; }
};"""),
    ("mlir/IR/SymbolTable.h", "  SymbolTable &getSymbolTable(Operation *op);\n\nprivate:\n  friend class LockedSymbolTableCollection;",
     """  SymbolTable &getSymbolTable(Operation *op);

  void invalidateSymbolTable(Operation *op) { symbolTables.erase(op); }

private:
  friend class LockedSymbolTableCollection;"""),
    # Virtual methods in the next release: see harness/mid/bridge.cpp.
    ("mlir/IR/SymbolTable.h", "      : collection(collection) {}",
     """      : collection(collection) { track(this, true); }
  ~LockedSymbolTableCollection() { track(this, false); }
  static void track(LockedSymbolTableCollection *collection, bool alive);"""),
    ("mlir/IR/SymbolTable.h", """private:
  /// Get the symbol table for the symbol table operation, constructing if it
  /// does not exist. This""", """public:
  /// Get the symbol table for the symbol table operation, constructing if it
  /// does not exist. This"""),
    ("llvm/ADT/MapVector.h", "  size_type size() const { return Vector.size(); }", """  size_type size() const { return Vector.size(); }

  ArrayRef<std::pair<KeyT, ValueT>> getArrayRef() const { return Vector; }"""),
]

ATTRTD = """#ifndef MC_ATTRTYPEBASE_TD
#define MC_ATTRTYPEBASE_TD
include "%s/include/mlir/IR/AttrTypeBase.td"
class APIntParameter<string desc> : AttrOrTypeParameter<"::llvm::APInt", desc> {
  let comparator = "$_lhs.getBitWidth() == $_rhs.getBitWidth() && $_lhs == $_rhs";
}
#endif
"""


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


def prepare(build, llvm):
    text = {}
    for f, old, new in ADDED:
        s = text.get(f) or open("%s/include/%s" % (llvm, f)).read()
        if s.count(old) != 1:
            raise SystemExit("unexpected contents of %s" % f)
        text[f] = s.replace(old, new)
    for f, s in text.items():
        write("%s/shim/%s" % (build, f), s)
    write("%s/shim/mlir/IR/AttrTypeBase.td" % build, ATTRTD % llvm)


def tablegen(repo):
    """(td, args, output) for each file generated by marco's build."""
    res = []
    for cm in sorted(glob.glob(repo + "/include/marco/**/CMakeLists.txt", recursive=True)):
        d = os.path.relpath(os.path.dirname(cm), repo)
        cur = None
        for l in open(cm):
            m = re.match(r"\s*set\(LLVM_TARGET_DEFINITIONS\s+(\S+)\)", l)
            if m:
                cur = m[1]
            m = re.match(r"\s*mlir_tablegen\((\S+)\s+(.*)\)", l)
            if m and cur:
                res.append((d + "/" + cur, m[2], os.path.relpath(d, "include") + "/" + m[1]))
    return res

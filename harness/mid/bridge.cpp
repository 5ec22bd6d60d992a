#include <memory>
#include <set>
#include <shared_mutex>
// Members that the installed release of MLIR requires and the next one does not.
namespace mlir::bmodelica {
#define ALIGN(T)                                                                                     \
  uint64_t T::getPreferredAlignment(const DataLayout &l, llvm::ArrayRef<DataLayoutEntryInterface> p) \
      const { return getABIAlignment(l, p); }
ALIGN(RealType)
ALIGN(IntegerType)
ALIGN(BooleanType)
} // namespace mlir::bmodelica

// The lookups of collections are virtual in the next release: those of the locked ones (which refer to another
// collection) are also used through their base class. The layout of the classes can't change, hence the dispatch
// on the set of living locked collections.
namespace mlir {
namespace {
std::shared_mutex trackMutex;
std::set<const SymbolTableCollection *> tracked;
LockedSymbolTableCollection *locked(SymbolTableCollection *c) {
  std::shared_lock<std::shared_mutex> g(trackMutex);
  return tracked.count(c) ? static_cast<LockedSymbolTableCollection *>(c) : nullptr;
}
} // namespace
void LockedSymbolTableCollection::track(LockedSymbolTableCollection *c, bool alive) {
  std::unique_lock<std::shared_mutex> g(trackMutex);
  if (alive) tracked.insert(c); else tracked.erase(c);
}
Operation *SymbolTableCollection::lookupSymbolIn(Operation *op, StringAttr symbol) {
  return getSymbolTable(op).lookup(symbol);
}
Operation *SymbolTableCollection::lookupSymbolIn(Operation *op, SymbolRefAttr name) {
  SmallVector<Operation *, 4> symbols;
  if (failed(lookupSymbolIn(op, name, symbols)))
    return nullptr;
  return symbols.back();
}
LogicalResult SymbolTableCollection::lookupSymbolIn(Operation *op, SymbolRefAttr name,
                                                    SmallVectorImpl<Operation *> &symbols) {
  Operation *cur = lookupSymbolIn(op, name.getRootReference());
  if (!cur)
    return failure();
  symbols.push_back(cur);
  for (FlatSymbolRefAttr r : name.getNestedReferences()) {
    if (!cur->hasTrait<OpTrait::SymbolTable>())
      return failure();
    cur = lookupSymbolIn(cur, r.getAttr());
    if (!cur)
      return failure();
    symbols.push_back(cur);
  }
  return success();
}
SymbolTable &SymbolTableCollection::getSymbolTable(Operation *op) {
  if (auto *l = locked(this))
    return l->getSymbolTable(op);
  auto it = symbolTables.try_emplace(op, nullptr);
  if (it.second)
    it.first->second = std::make_unique<SymbolTable>(op);
  return *it.first->second;
}
} // namespace mlir

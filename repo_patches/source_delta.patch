From 4b5b1ff617976b55b5df9c8ceb6ba668167a8d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:04 +0000
Subject: [PATCH 01/83] fix: range against value inequality must hold if any
 bound differs

---
 lib/Modeling/Range.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Modeling/Range.cpp b/lib/Modeling/Range.cpp
index 0eb8da9..527920d 100644
--- a/lib/Modeling/Range.cpp
+++ b/lib/Modeling/Range.cpp
@@ -20,7 +20,7 @@ bool Range::operator==(const Range &other) const {
 }
 
 bool Range::operator!=(Range::data_type other) const {
-  return getBegin() != other && getEnd() != other + 1;
+  return getBegin() != other || getEnd() != other + 1;
 }
 
 bool Range::operator!=(const Range &other) const {
-- 
2.43.0


From a1a09671dff0d453837a4daab5132a6e5d0f1ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:04 +0000
Subject: [PATCH 02/83] fix: empty R-trees are equal regardless of how they
 became empty

---
 include/marco/Modeling/RTree.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/marco/Modeling/RTree.h b/include/marco/Modeling/RTree.h
index 47318da..21940d6 100644
--- a/include/marco/Modeling/RTree.h
+++ b/include/marco/Modeling/RTree.h
@@ -547,6 +547,10 @@ public:
   RTreeCRTP &operator=(RTreeCRTP &&other) noexcept = default;
 
   virtual bool operator==(const RTreeCRTP &other) const {
+    if (empty() || other.empty()) {
+      return empty() && other.empty();
+    }
+
     if (rank() != other.rank()) {
       return false;
     }
-- 
2.43.0


From c860a341d5dd58dbe6e186c5b97af8445b5b158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:53 +0000
Subject: [PATCH 03/83] fix: keep the R-tree consistent when elements are
 removed

Removing elements collects the nodes to be modified, but collapsing one of
them may erase or alter the others. Moreover, the relocation of the elements
of a collapsed node may replace the root in use, or lose the elements.
---
 include/marco/Modeling/RTree.h | 213 ++++++++++++++++-----------------
 lib/Modeling/IndexSet.cpp      |  49 +++++---
 2 files changed, 133 insertions(+), 129 deletions(-)

diff --git a/include/marco/Modeling/RTree.h b/include/marco/Modeling/RTree.h
index 21940d6..eef02d4 100644
--- a/include/marco/Modeling/RTree.h
+++ b/include/marco/Modeling/RTree.h
@@ -607,21 +607,7 @@ public:
 
     assert(shape.rank() == allowedRank && "Incompatible rank");
 
-    if (!getRoot()) {
-      Node *newRoot = setRoot(std::make_unique<Node>(nullptr, shape));
-      newRoot->add(std::move(obj));
-      postObjectInsertionHook(*newRoot);
-    } else {
-      // Find position for the new object.
-      Node *node = chooseLeaf(getRoot(), shape);
-
-      // Add the object to the leaf node.
-      node->add(std::move(obj));
-      postObjectInsertionHook(*node);
-
-      // Split and collapse nodes, if necessary.
-      adjustTree(node);
-    }
+    insertObject(Object(std::move(obj)));
 
     // Check that all the invariants are respected.
     assert(isValid());
@@ -640,27 +626,37 @@ public:
     }
 
     const MultidimensionalRange &shape = getShape(obj);
-    llvm::SmallVector<Node *> overlappingLeafNodes;
-
-    walkOverlappingLeafNodes(
-        shape, [&](Node &node) { overlappingLeafNodes.push_back(&node); });
+    bool nodesErased = true;
+
+    // Adjusting the tree may erase nodes and relocate their objects, in which
+    // case the nodes have to be looked up again.
+    while (nodesErased) {
+      nodesErased = false;
+      llvm::SmallVector<Node *> overlappingLeafNodes;
+
+      walkOverlappingLeafNodes(shape, [&](Node &node) {
+        if (llvm::any_of(node.objects, [&](const Object &object) {
+              return RTreeInfo<T>::isEqual(obj, *object);
+            })) {
+          overlappingLeafNodes.push_back(&node);
+        }
+      });
 
-    for (Node *node : overlappingLeafNodes) {
-      bool modified = false;
-      llvm::SmallVector<Object> newObjects;
+      for (Node *node : overlappingLeafNodes) {
+        llvm::SmallVector<Object> newObjects;
 
-      for (Object &object : node->objects) {
-        if (RTreeInfo<T>::isEqual(obj, *object)) {
-          modified = true;
-        } else {
-          newObjects.push_back(std::move(object));
+        for (Object &object : node->objects) {
+          if (!RTreeInfo<T>::isEqual(obj, *object)) {
+            newObjects.push_back(std::move(object));
+          }
         }
-      }
 
-      node->objects = std::move(newObjects);
+        node->objects = std::move(newObjects);
+        nodesErased = adjustTree(node);
 
-      if (modified) {
-        adjustTree(node);
+        if (nodesErased) {
+          break;
+        }
       }
     }
   }
@@ -670,6 +666,11 @@ public:
       return;
     }
 
+    if (this == &other) {
+      clear();
+      return;
+    }
+
     using OverlappingNodePair = std::pair<const Node *, const Node *>;
     llvm::SmallVector<OverlappingNodePair> overlappingNodePairs;
     llvm::SmallVector<std::reference_wrapper<const Object>> overlappingObjects;
@@ -797,6 +798,26 @@ public:
   }
 
 protected:
+  /// Place an object in the tree.
+  void insertObject(Object obj) {
+    if (!getRoot()) {
+      Node *newRoot =
+          setRoot(std::make_unique<Node>(nullptr, obj.getBoundary()));
+      newRoot->add(std::move(obj));
+      postObjectInsertionHook(*newRoot);
+    } else {
+      // Find position for the new object.
+      Node *node = chooseLeaf(getRoot(), obj.getBoundary());
+
+      // Add the object to the leaf node.
+      node->add(std::move(obj));
+      postObjectInsertionHook(*node);
+
+      // Split and collapse nodes, if necessary.
+      adjustTree(node);
+    }
+  }
+
   void setFromObjects(llvm::ArrayRef<T> objects) {
     setRoot(nullptr);
 
@@ -957,22 +978,30 @@ protected:
 
   /// Check and adjust the tree structure, starting from a given node, so that
   /// each node has between a minimum and maximum amount of children.
-  void adjustTree(Node *node) {
+  /// Return true if nodes have been erased, in which case the pointers to the
+  /// nodes of the tree that have been collected before are not reliable anymore.
+  bool adjustTree(Node *node) {
     if (node->isRoot()) {
       if (node->fanOut() == 0) {
         setRoot(nullptr);
-      } else if (node->fanOut() > maxElements) {
+        return true;
+      }
+
+      if (node->fanOut() > maxElements) {
         splitNodeAndPropagate(node);
       } else {
         updateBoundaries(node);
       }
     } else if (node->fanOut() < minElements) {
       collapseNodeAndPropagate(node);
+      return true;
     } else if (node->fanOut() > maxElements) {
       splitNodeAndPropagate(node);
     } else {
       updateBoundaries(node);
     }
+
+    return false;
   }
 
   /// Split a node and its ancestors, if needed.
@@ -1045,94 +1074,58 @@ protected:
     return result;
   }
 
-  /// Collapse a node and its ancestors, if needed. The remaining objects and
-  /// subtrees are relocated.
+  /// Collapse a node and its ancestors, if needed. The remaining objects are
+  /// relocated.
   void collapseNodeAndPropagate(Node *node) {
-    if (node->isRoot()) {
-      return;
+    llvm::SmallVector<Object> objectsToRelocate;
+
+    // Remove the nodes with too few elements, while moving towards the root of
+    // the tree. The objects they contain are temporarily kept out of the tree.
+    while (!node->isRoot() && node->fanOut() < minElements) {
+      extractObjects(*node, objectsToRelocate);
+
+      // The node itself will be erased, and any usage of 'node' will be
+      // invalid. Therefore, we need to store the reference to the parent
+      // elsewhere.
+      Node *parent = node->getParent();
+      removeChild(parent, node);
+      node = parent;
     }
 
-    // Additional nodes to be collapsed may be obtained during the process.
-    llvm::SmallVector<Node *> nodesToCollapse;
-    nodesToCollapse.push_back(node);
-
-    while (!nodesToCollapse.empty()) {
-      node = nodesToCollapse.pop_back_val();
-
-      // Move the objects out of the node being removed.
-      // This is done only once, as the nodes that will be possibly visited
-      // later will not be leaves.
-      llvm::SmallVector<Object> objectsToRelocate = std::move(node->objects);
-
-      while (!node->isRoot() && node->fanOut() < minElements) {
-        // The nodes to be relocated.
-        llvm::SmallVector<std::unique_ptr<Node>> nodesToRelocate;
-
-        // Move the objects out of the node being removed.
-        for (auto &child : node->children) {
-          nodesToRelocate.push_back(std::move(child));
-        }
-
-        // Remove the node from the list of children of the parent.
-        // The node itself will be erased, and any usage of 'node' will be
-        // invalid. Therefore, we need to store the reference to the parent
-        // elsewhere.
-        Node *parent = node->getParent();
-        removeChild(parent, node);
-
-        // Relocate the orphaned objects.
-        if (!objectsToRelocate.empty() && !parent->children.empty()) {
-          for (Object &object : objectsToRelocate) {
-            // Find the new position.
-            Node *destination = chooseLeaf(parent, object.getBoundary());
-
-            // Add the value to the leaf node.
-            destination->add(std::move(object));
-            postObjectInsertionHook(*destination);
-
-            if (destination->fanOut() > maxElements) {
-              // Split the node.
-              splitNodeAndPropagate(destination);
-            } else if (destination->fanOut() < minElements) {
-              // Schedule the node for removal.
-              nodesToCollapse.push_back(destination);
-            } else {
-              updateBoundaries(destination);
-            }
-          }
+    if (node->fanOut() == 0) {
+      assert(node->isRoot());
+      setRoot(nullptr);
+    } else {
+      updateBoundaries(node);
+    }
 
-          objectsToRelocate.clear();
-        }
+    while (getRoot() && getRoot()->children.size() == 1) {
+      setRoot(std::move(getRoot()->children.front()));
+    }
 
-        // Relocate the orphaned nodes.
-        for (auto &nodeToRelocate : nodesToRelocate) {
-          // Find the new position.
-          Node *destination = chooseDestinationNode(
-              parent->children, nodeToRelocate->getBoundary());
+    // Relocate the orphaned objects.
+    for (Object &object : objectsToRelocate) {
+      insertObject(std::move(object));
+    }
+  }
 
-          // Add the value to the leaf node.
-          destination->add(std::move(nodeToRelocate));
+  /// Move all the objects out of a node and its descendants.
+  static void extractObjects(Node &node,
+                             llvm::SmallVectorImpl<Object> &objects) {
+    llvm::SmallVector<Node *> nodes;
+    nodes.push_back(&node);
 
-          if (destination->fanOut() > maxElements) {
-            // Split the node.
-            splitNodeAndPropagate(destination);
-          } else {
-            updateBoundaries(destination);
-          }
-        }
+    while (!nodes.empty()) {
+      Node *current = nodes.pop_back_val();
 
-        // Move towards the root of the tree.
-        node = parent;
+      for (Object &object : current->objects) {
+        objects.push_back(std::move(object));
       }
 
-      // Update the boundaries.
-      updateBoundaries(node);
-
-      assert(objectsToRelocate.empty() &&
-             "Not all objects have been relocated");
+      current->objects.clear();
 
-      if (getRoot() && getRoot()->children.size() == 1) {
-        setRoot(std::move(getRoot()->children.front()));
+      for (auto &child : current->children) {
+        nodes.push_back(child.get());
       }
     }
   }
diff --git a/lib/Modeling/IndexSet.cpp b/lib/Modeling/IndexSet.cpp
index e872d07..6a8b75f 100644
--- a/lib/Modeling/IndexSet.cpp
+++ b/lib/Modeling/IndexSet.cpp
@@ -317,31 +317,42 @@ void IndexSet::remove(const MultidimensionalRange &other) {
     return;
   }
 
-  llvm::SmallVector<Node *> overlappingNodes;
-
-  walkOverlappingLeafNodes(
-      other, [&](Node &node) { overlappingNodes.push_back(&node); });
-
-  for (Node *node : overlappingNodes) {
-    assert(node->isLeaf());
-    bool modified = false;
+  bool nodesErased = true;
+
+  // Adjusting the tree may erase nodes and relocate their objects, in which
+  // case the nodes have to be looked up again.
+  while (nodesErased) {
+    nodesErased = false;
+    llvm::SmallVector<Node *> overlappingNodes;
+
+    walkOverlappingLeafNodes(other, [&](Node &node) {
+      if (llvm::any_of(node.objects, [&](const Object &object) {
+            return object->overlaps(other);
+          })) {
+        overlappingNodes.push_back(&node);
+      }
+    });
 
-    llvm::SmallVector<Object> differences;
+    for (Node *node : overlappingNodes) {
+      assert(node->isLeaf());
+      llvm::SmallVector<Object> differences;
 
-    for (Object &value : node->objects) {
-      if (value->overlaps(other)) {
-        modified = true;
-        llvm::append_range(differences, value->subtract(other));
-      } else {
-        differences.emplace_back(std::move(value));
+      for (Object &value : node->objects) {
+        if (value->overlaps(other)) {
+          llvm::append_range(differences, value->subtract(other));
+        } else {
+          differences.emplace_back(std::move(value));
+        }
       }
-    }
 
-    node->objects = std::move(differences);
+      node->objects = std::move(differences);
 
-    if (modified) {
       // Split and collapse nodes, if necessary.
-      adjustTree(node);
+      nodesErased = adjustTree(node);
+
+      if (nodesErased) {
+        break;
+      }
     }
   }
 
-- 
2.43.0


From 53c69a7f62ad45e54d6a1e31ba381ede6fa80e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:40 +0000
Subject: [PATCH 04/83] fix: don't store overlapping ranges when an index set
 is built in bulk

---
 lib/Modeling/IndexSet.cpp | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/lib/Modeling/IndexSet.cpp b/lib/Modeling/IndexSet.cpp
index 6a8b75f..fdf4538 100644
--- a/lib/Modeling/IndexSet.cpp
+++ b/lib/Modeling/IndexSet.cpp
@@ -151,26 +151,26 @@ void IndexSet::setFromRanges(llvm::ArrayRef<MultidimensionalRange> ranges) {
   // Ensure that the ranges don't overlap.
   llvm::SmallVector<MultidimensionalRange> nonOverlappingRanges;
 
-  for (const MultidimensionalRange &current : sorted) {
-    if (nonOverlappingRanges.empty()) {
-      nonOverlappingRanges.push_back(current);
-      continue;
-    }
+  // The ranges that may still overlap with the next ones.
+  llvm::SmallVector<MultidimensionalRange> activeRanges;
 
-    size_t possibleOverlapIndex = nonOverlappingRanges.size();
-
-    while (possibleOverlapIndex > 0 &&
-           current.anyDimensionOverlaps(
-               nonOverlappingRanges[possibleOverlapIndex - 1])) {
-      --possibleOverlapIndex;
-    }
+  for (const MultidimensionalRange &current : sorted) {
+    // The ranges are visited according to the beginning of their first
+    // dimension, so the ones ending before the current one begins can't overlap
+    // with it or with any of the next ranges.
+    auto firstInactive = std::stable_partition(
+        activeRanges.begin(), activeRanges.end(),
+        [&](const MultidimensionalRange &range) {
+          return range[0].getEnd() > current[0].getBegin();
+        });
+
+    nonOverlappingRanges.append(firstInactive, activeRanges.end());
+    activeRanges.erase(firstInactive, activeRanges.end());
 
     llvm::SmallVector<MultidimensionalRange> differences;
     differences.push_back(current);
 
-    for (size_t i = possibleOverlapIndex, e = nonOverlappingRanges.size();
-         i < e; ++i) {
-      const MultidimensionalRange &other = nonOverlappingRanges[i];
+    for (const MultidimensionalRange &other : activeRanges) {
       llvm::SmallVector<MultidimensionalRange> newDifferences;
 
       for (MultidimensionalRange &currentDifference : differences) {
@@ -184,13 +184,12 @@ void IndexSet::setFromRanges(llvm::ArrayRef<MultidimensionalRange> ranges) {
       differences = std::move(newDifferences);
     }
 
-    llvm::append_range(nonOverlappingRanges, std::move(differences));
-
-    llvm::sort(
-        std::next(std::begin(nonOverlappingRanges), possibleOverlapIndex),
-        std::end(nonOverlappingRanges));
+    llvm::append_range(activeRanges, std::move(differences));
   }
 
+  llvm::append_range(nonOverlappingRanges, std::move(activeRanges));
+  llvm::sort(nonOverlappingRanges);
+
   assert(llvm::none_of(nonOverlappingRanges,
                        [&](const MultidimensionalRange &range) {
                          for (const MultidimensionalRange &other :
-- 
2.43.0


From 329fd6ce4989fa6f75cb383ad318012d0a1ef459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:40 +0000
Subject: [PATCH 05/83] fix: distribute all the remaining elements of an R-tree
 built in bulk

---
 include/marco/Modeling/RTree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/marco/Modeling/RTree.h b/include/marco/Modeling/RTree.h
index eef02d4..c7c8bda 100644
--- a/include/marco/Modeling/RTree.h
+++ b/include/marco/Modeling/RTree.h
@@ -847,7 +847,7 @@ protected:
       }
 
       for (size_t i = 0; i < remainingElements; ++i) {
-        nodes[i]->objects.push_back(
+        nodes[i % numOfGroups]->objects.push_back(
             std::move(objects[numOfGroups * minElements + i]));
       }
 
-- 
2.43.0


From 83e7618a88111a29493de0dc2c76baaf7fcb61d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:55 +0000
Subject: [PATCH 06/83] fix: allow removing from a tree a reference to one of
 its own elements

---
 include/marco/Modeling/RTree.h |  5 ++++-
 lib/Modeling/IndexSet.cpp      | 14 +++++++-------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/marco/Modeling/RTree.h b/include/marco/Modeling/RTree.h
index c7c8bda..f98cb3f 100644
--- a/include/marco/Modeling/RTree.h
+++ b/include/marco/Modeling/RTree.h
@@ -620,11 +620,14 @@ public:
     }
   }
 
-  virtual void remove(const T &obj) {
+  virtual void remove(const T &objToRemove) {
     if (empty()) {
       return;
     }
 
+    // The given reference may refer to an object of the tree, which is erased
+    // while the other nodes still have to be processed.
+    const T obj(objToRemove);
     const MultidimensionalRange &shape = getShape(obj);
     bool nodesErased = true;
 
diff --git a/lib/Modeling/IndexSet.cpp b/lib/Modeling/IndexSet.cpp
index fdf4538..d7fbbaa 100644
--- a/lib/Modeling/IndexSet.cpp
+++ b/lib/Modeling/IndexSet.cpp
@@ -309,13 +309,18 @@ IndexSet &IndexSet::operator-=(const Point &other) {
   return *this -= MultidimensionalRange(other);
 }
 
-void IndexSet::remove(const MultidimensionalRange &other) {
-  assert((!isInitialized() || other.rank() == rank()) && "Incompatible rank");
+void IndexSet::remove(const MultidimensionalRange &rangeToRemove) {
+  assert((!isInitialized() || rangeToRemove.rank() == rank()) &&
+         "Incompatible rank");
 
   if (empty()) {
     return;
   }
 
+  // The given reference may refer to a range of the set, which is erased while
+  // the other nodes still have to be processed.
+  const MultidimensionalRange other(rangeToRemove);
+
   bool nodesErased = true;
 
   // Adjusting the tree may erase nodes and relocate their objects, in which
@@ -364,11 +369,6 @@ void IndexSet::remove(const MultidimensionalRange &other) {
 
 IndexSet &IndexSet::operator-=(const MultidimensionalRange &other) {
   remove(other);
-
-  assert(llvm::all_of(other,
-                      [&](const Point &point) { return !contains(point); }) &&
-         "Not all points have been removed");
-
   return *this;
 }
 
-- 
2.43.0


From c10b564d7a87db4945ea106a23184b9a2e8d70f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:17 +0000
Subject: [PATCH 07/83] fix: round divisions in access functions like their
 affine counterpart

The affine expression of a division is a floor division, and constant
divisions are folded accordingly. Evaluating the non-constant ones must not
truncate towards zero.
---
 lib/Modeling/DimensionAccessDiv.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Modeling/DimensionAccessDiv.cpp b/lib/Modeling/DimensionAccessDiv.cpp
index 814b389..ba53ec6 100644
--- a/lib/Modeling/DimensionAccessDiv.cpp
+++ b/lib/Modeling/DimensionAccessDiv.cpp
@@ -1,4 +1,5 @@
 #include "marco/Modeling/DimensionAccessDiv.h"
+#include "llvm/Support/MathExtras.h"
 #include "llvm/Support/raw_ostream.h"
 
 using namespace ::marco::modeling;
@@ -128,7 +129,10 @@ IndexSet DimensionAccessDiv::map(
       coordinates.clear();
 
       for (size_t i = 0, e = mappedLhsPoint.rank(); i < e; ++i) {
-        coordinates.push_back(mappedLhsPoint[i] / mappedRhsPoint[i]);
+        // The affine representation of the division rounds towards negative
+        // infinity.
+        coordinates.push_back(
+            llvm::divideFloorSigned(mappedLhsPoint[i], mappedRhsPoint[i]));
       }
 
       result += Point(coordinates);
-- 
2.43.0


From 9415bc20b91bb21d920ec89cb5713cbcabe3de05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:17 +0000
Subject: [PATCH 08/83] fix: support the modulo expressions introduced by
 affine simplifications

The simplification of an access such as i - (i / 2) * 2 yields a modulo
expression, for which there was no dimension access.
---
 lib/Modeling/DimensionAccess.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lib/Modeling/DimensionAccess.cpp b/lib/Modeling/DimensionAccess.cpp
index 22b1cc6..aaa39f8 100644
--- a/lib/Modeling/DimensionAccess.cpp
+++ b/lib/Modeling/DimensionAccess.cpp
@@ -90,6 +90,13 @@ DimensionAccess::build(mlir::AffineExpr expression) {
           binaryExpr.getContext(), DimensionAccess::build(binaryExpr.getLHS()),
           DimensionAccess::build(binaryExpr.getRHS()));
     }
+
+    if (kind == mlir::AffineExprKind::Mod) {
+      // a mod b = a - (a floordiv b) * b
+      auto lhs = DimensionAccess::build(binaryExpr.getLHS());
+      auto rhs = DimensionAccess::build(binaryExpr.getRHS());
+      return *lhs - *(*(*lhs / *rhs) * *rhs);
+    }
   }
 
   llvm_unreachable("Unexpected expression type");
@@ -146,6 +153,17 @@ DimensionAccess::getDimensionAccessFromExtendedMap(
           DimensionAccess::getDimensionAccessFromExtendedMap(
               binaryExpr.getRHS(), fakeDimensionsMap));
     }
+
+    if (kind == mlir::AffineExprKind::Mod) {
+      // a mod b = a - (a floordiv b) * b
+      auto lhs = DimensionAccess::getDimensionAccessFromExtendedMap(
+          binaryExpr.getLHS(), fakeDimensionsMap);
+
+      auto rhs = DimensionAccess::getDimensionAccessFromExtendedMap(
+          binaryExpr.getRHS(), fakeDimensionsMap);
+
+      return *lhs - *(*(*lhs / *rhs) * *rhs);
+    }
   }
 
   llvm_unreachable("Unexpected expression type");
-- 
2.43.0


From 5b002c4b1bc3b84ddb7aefc6a6dc6f12e4a69b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:17 +0000
Subject: [PATCH 09/83] fix: inverse image of constant accesses when more
 indices are given

The inverse image of a set of indices including also elements other than the
accessed one was empty.
---
 lib/Modeling/AccessFunctionAffineConstant.cpp | 8 +++++---
 lib/Modeling/AccessFunctionConstant.cpp       | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/Modeling/AccessFunctionAffineConstant.cpp b/lib/Modeling/AccessFunctionAffineConstant.cpp
index 06e702d..837377b 100644
--- a/lib/Modeling/AccessFunctionAffineConstant.cpp
+++ b/lib/Modeling/AccessFunctionAffineConstant.cpp
@@ -85,11 +85,13 @@ AccessFunctionAffineConstant::inverseMap(const IndexSet &accessedIndices,
                                          const IndexSet &parentIndices) const {
   auto expectedAccessedIndices = map(parentIndices);
 
-  if (accessedIndices.empty() && !expectedAccessedIndices.empty()) {
-    return {};
+  if (accessedIndices.empty() && expectedAccessedIndices.empty()) {
+    return parentIndices;
   }
 
-  if (expectedAccessedIndices.contains(accessedIndices)) {
+  // The accessed indices may include also elements that are not reached by
+  // this access.
+  if (expectedAccessedIndices.overlaps(accessedIndices)) {
     return parentIndices;
   }
 
diff --git a/lib/Modeling/AccessFunctionConstant.cpp b/lib/Modeling/AccessFunctionConstant.cpp
index fe7f6bd..303743b 100644
--- a/lib/Modeling/AccessFunctionConstant.cpp
+++ b/lib/Modeling/AccessFunctionConstant.cpp
@@ -61,11 +61,13 @@ AccessFunctionConstant::inverseMap(const IndexSet &accessedIndices,
                                    const IndexSet &parentIndices) const {
   auto expectedAccessedIndices = map(parentIndices);
 
-  if (accessedIndices.empty() && !expectedAccessedIndices.empty()) {
-    return {};
+  if (accessedIndices.empty() && expectedAccessedIndices.empty()) {
+    return parentIndices;
   }
 
-  if (expectedAccessedIndices.contains(accessedIndices)) {
+  // The accessed indices may include also elements that are not reached by
+  // this access.
+  if (expectedAccessedIndices.overlaps(accessedIndices)) {
     return parentIndices;
   }
 
-- 
2.43.0


From ebbdb70ba2ca9bacf9a37d38584c449c32d7688a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:17 +0000
Subject: [PATCH 10/83] fix: map points through accesses with dependent
 iteration spaces

The results were appended a second time to the mapped indices, which were also
computed for partially determined iteration spaces.
---
 lib/Modeling/AccessFunctionGeneric.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Modeling/AccessFunctionGeneric.cpp b/lib/Modeling/AccessFunctionGeneric.cpp
index 852d309..1e8ef95 100644
--- a/lib/Modeling/AccessFunctionGeneric.cpp
+++ b/lib/Modeling/AccessFunctionGeneric.cpp
@@ -219,6 +219,8 @@ IndexSet AccessFunctionGeneric::map(const Point &point) const {
   if (!iterationSpacesWithDependencies.empty()) {
     map(mappedIndices, point, iterationSpacesWithDependencies, 0,
         currentIterationSpacePoint);
+
+    return mappedIndices;
   }
 
   // No dependencies among iteration spaces.
@@ -249,6 +251,8 @@ void AccessFunctionGeneric::map(
       map(mappedIndices, point, iterationSpaces, currentIterationSpace + 1,
           currentIterationSpacePoint);
     }
+
+    return;
   }
 
   IndexSet currentMappedIndices;
-- 
2.43.0


From 149e7084aadf0eb403a2c0100c796ecd11d3d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:17 +0000
Subject: [PATCH 11/83] fix: generic accesses with different numbers of results
 are not equal

---
 lib/Modeling/AccessFunctionGeneric.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Modeling/AccessFunctionGeneric.cpp b/lib/Modeling/AccessFunctionGeneric.cpp
index 1e8ef95..a5c8deb 100644
--- a/lib/Modeling/AccessFunctionGeneric.cpp
+++ b/lib/Modeling/AccessFunctionGeneric.cpp
@@ -79,6 +79,10 @@ bool AccessFunctionGeneric::operator==(
     return false;
   }
 
+  if (getNumOfResults() != other.getNumOfResults()) {
+    return false;
+  }
+
   for (const auto &[lhsResult, rhsResult] :
        llvm::zip(getResults(), other.getResults())) {
     if (*lhsResult != *rhsResult) {
-- 
2.43.0


From 0ebb14083a8ee3cca50216ee93115e8783be399b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:47 +0000
Subject: [PATCH 12/83] fix: image of an index set through accesses repeating a
 dimension

The image of a range through an access such as (i, i) is its diagonal and not
the whole square.
---
 lib/Modeling/AccessFunctionRotoTranslation.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/Modeling/AccessFunctionRotoTranslation.cpp b/lib/Modeling/AccessFunctionRotoTranslation.cpp
index 682dbde..1490a84 100644
--- a/lib/Modeling/AccessFunctionRotoTranslation.cpp
+++ b/lib/Modeling/AccessFunctionRotoTranslation.cpp
@@ -183,6 +183,15 @@ AccessFunctionRotoTranslation::map(const MultidimensionalRange &indices) const {
 }
 
 IndexSet AccessFunctionRotoTranslation::map(const IndexSet &indices) const {
+  llvm::SmallVector<size_t> usages;
+  countVariablesUsages(usages);
+
+  if (llvm::any_of(usages, [](size_t usage) { return usage > 1; })) {
+    // The image of a range is not a range if a dimension is used multiple
+    // times.
+    return AccessFunctionAffineMap::map(indices);
+  }
+
   llvm::SmallVector<MultidimensionalRange> mapped;
 
   for (const MultidimensionalRange &range :
-- 
2.43.0


From 83b7e34f66a80b38226aa66fa4df4842dfa4ded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:47 +0000
Subject: [PATCH 13/83] fix: restrict the inverse image of affine accesses to
 the parent indices

Points outside of the parent set were returned, and the accessed indices that
are not compatible with the constant results were taken into account.
---
 .../AccessFunctionRotoTranslation.cpp         | 34 +++++++++++++++++--
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/lib/Modeling/AccessFunctionRotoTranslation.cpp b/lib/Modeling/AccessFunctionRotoTranslation.cpp
index 1490a84..9aa32c4 100644
--- a/lib/Modeling/AccessFunctionRotoTranslation.cpp
+++ b/lib/Modeling/AccessFunctionRotoTranslation.cpp
@@ -215,7 +215,10 @@ AccessFunctionRotoTranslation::inverseMap(const IndexSet &accessedIndices,
         accessedIndices.rank() == parentIndices.rank()) {
       IndexSet mapped = inverseAccessFunction->map(accessedIndices);
       assert(map(mapped).contains(accessedIndices));
-      return mapped;
+
+      // The accessed indices may be reached also by points that don't belong
+      // to the parent set.
+      return mapped.intersect(parentIndices);
     }
   }
 
@@ -246,7 +249,32 @@ AccessFunctionRotoTranslation::inverseMap(const IndexSet &accessedIndices,
 
     auto reducedAccessFunction = AccessFunctionAffineMap::build(reducedDimsMap);
     auto reducedParentIndices = parentIndices.slice(usedDimensions);
-    auto reducedAccessedIndices = accessedIndices.slice(usedResults);
+
+    // Keep only the accessed indices that are compatible with the constant
+    // results.
+    llvm::SmallVector<MultidimensionalRange> reducedAccessedRanges;
+
+    for (const MultidimensionalRange &range : llvm::make_range(
+             accessedIndices.rangesBegin(), accessedIndices.rangesEnd())) {
+      bool compatible = true;
+
+      for (uint64_t res = 0, e = getNumOfResults(); res < e; ++res) {
+        if (auto constantExpr = mlir::dyn_cast<mlir::AffineConstantExpr>(
+                getAffineMap().getResult(res))) {
+          compatible &= range[res].contains(constantExpr.getValue());
+        }
+      }
+
+      if (compatible) {
+        reducedAccessedRanges.push_back(range.slice(usedResults));
+      }
+    }
+
+    if (reducedAccessedRanges.empty()) {
+      return {};
+    }
+
+    IndexSet reducedAccessedIndices(reducedAccessedRanges);
 
     IndexSet reducedInverseMap = reducedAccessFunction->inverseMap(
         reducedAccessedIndices, reducedParentIndices);
@@ -278,7 +306,7 @@ AccessFunctionRotoTranslation::inverseMap(const IndexSet &accessedIndices,
       }
     }
 
-    return {mapped};
+    return IndexSet(mapped).intersect(parentIndices);
   }
 
   return AccessFunction::inverseMap(accessedIndices, parentIndices);
-- 
2.43.0


From 272864672564246a4544ebef258078ab69315fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:13 +0000
Subject: [PATCH 14/83] fix: keep the non-affine accesses of the left-hand side
 when combining

The additional dimensions standing for ranges and index sets of the first
access function were left within the combined access function.
---
 lib/Modeling/AccessFunction.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Modeling/AccessFunction.cpp b/lib/Modeling/AccessFunction.cpp
index bb03705..a5e6d26 100644
--- a/lib/Modeling/AccessFunction.cpp
+++ b/lib/Modeling/AccessFunction.cpp
@@ -190,6 +190,11 @@ AccessFunction::combine(const AccessFunction &other) const {
     resultFakeDimensionsMap[lhsDimension] = rhsFakeDimensionsMap[rhsDimension];
   }
 
+  for (const auto &lhsFakeDimension : lhsFakeDimensionsMap) {
+    resultFakeDimensionsMap[lhsFakeDimension.getFirst()] =
+        lhsFakeDimension.getSecond();
+  }
+
   // Remove the additional dimensions.
   return AccessFunction::fromExtendedMap(combinedAffineMap,
                                          resultFakeDimensionsMap);
-- 
2.43.0


From 551d3e754a89eb98c094310ec4705b3e6ae29069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:32 +0000
Subject: [PATCH 15/83] fix: keep the coordinates not involved in the
 operations on MCIMs

Unsetting a coordinate dropped the groups not having it, the subtraction
removed keys mapped to different values and ignored the extra points of
the left-hand side, changing the variable space looked at the wrong
dimensions of the extra points, and the keys with multiple values were
always handled as a whole.
---
 lib/Modeling/MCIM.cpp             | 167 ++++++++++++++++++++----------
 lib/Modeling/MCIMGroupGeneric.cpp |  25 +++--
 2 files changed, 129 insertions(+), 63 deletions(-)

diff --git a/lib/Modeling/MCIM.cpp b/lib/Modeling/MCIM.cpp
index ac67f56..4daec76 100644
--- a/lib/Modeling/MCIM.cpp
+++ b/lib/Modeling/MCIM.cpp
@@ -75,6 +75,34 @@ void MCIM::IndicesIterator::advance() {
 // MCIM
 //===----------------------------------------------------------------------===//
 
+/// Get the keys whose accessed values all belong to a given set.
+/// The coordinates of the keys that have only part of the values within the
+/// set can't be expressed through the access function, and are thus added to
+/// the given set of points.
+static IndexSet restrictToValues(const AccessFunction &accessFunction,
+                                 const IndexSet &keys, const IndexSet &values,
+                                 IndexSet &points) {
+  if (accessFunction.isAffine()) {
+    // There is exactly one value for each key.
+    return accessFunction.inverseMap(
+        accessFunction.map(keys).intersect(values), keys);
+  }
+
+  IndexSet result;
+
+  for (Point key : keys) {
+    IndexSet keyValues = accessFunction.map(key);
+
+    if (values.contains(keyValues)) {
+      result += key;
+    } else if (values.overlaps(keyValues)) {
+      points += IndexSet(key).append(keyValues.intersect(values));
+    }
+  }
+
+  return result;
+}
+
 namespace marco::modeling::internal {
 MCIM::MCIM(MultidimensionalRange equationSpace,
            MultidimensionalRange variableSpace)
@@ -166,12 +194,12 @@ void MCIM::setVariableSpace(std::shared_ptr<const IndexSet> newVariableSpace) {
 
   variableSpace = newVariableSpace;
   std::vector<std::unique_ptr<MCIMGroup>> newGroups;
+  IndexSet newPoints;
 
   for (auto &group : groups) {
-    const AccessFunction &accessFunction = group->getAccessFunction();
-
-    IndexSet newKeys = accessFunction.inverseMap(
-        group->getValues().intersect(*newVariableSpace), group->getKeys());
+    IndexSet newKeys =
+        restrictToValues(group->getAccessFunction(), group->getKeys(),
+                         *newVariableSpace, newPoints);
 
     if (!newKeys.empty()) {
       group->setKeys(std::move(newKeys));
@@ -180,23 +208,9 @@ void MCIM::setVariableSpace(std::shared_ptr<const IndexSet> newVariableSpace) {
   }
 
   groups = std::move(newGroups);
-  IndexSet newPoints;
 
-  for (const MultidimensionalRange &multidimRange :
-       llvm::make_range(points.rangesBegin(), points.rangesEnd())) {
-    llvm::SmallVector<Range> ranges;
-
-    IndexSet intersection = newVariableSpace->intersect(
-        multidimRange.takeFirstDimensions(newVariableSpace->rank()));
-
-    for (const MultidimensionalRange &intersectionMultidimRange :
-         llvm::make_range(intersection.rangesBegin(),
-                          intersection.rangesEnd())) {
-      newPoints +=
-          intersectionMultidimRange.append(multidimRange.takeLastDimensions(
-              points.rank() - newVariableSpace->rank()));
-    }
-  }
+  newPoints += points.intersect(
+      newVariableSpace->prepend(getEquationSpace()));
 
   points = std::move(newPoints);
 }
@@ -294,6 +308,11 @@ MCIM &MCIM::operator-=(const MCIM &rhs) {
   assert(getVariableSpace() == rhs.getVariableSpace() &&
          "Different variable ranges");
 
+  if (this == &rhs) {
+    clear();
+    return *this;
+  }
+
   std::vector<std::unique_ptr<MCIMGroup>> oldGroups;
   swap(oldGroups, groups);
 
@@ -302,29 +321,21 @@ MCIM &MCIM::operator-=(const MCIM &rhs) {
       if (group->getAccessFunction() == rhsGroup->getAccessFunction()) {
         group->removeKeys(rhsGroup->getKeys());
       } else {
-        IndexSet commonValues =
-            rhsGroup->getValues().intersect(group->getValues());
-
-        if (commonValues.empty()) {
+        if (!rhsGroup->getValues().overlaps(group->getValues())) {
           continue;
         }
 
-        IndexSet lhsKeys = group->getAccessFunction().inverseMap(
-            commonValues, group->getKeys());
+        // Having the same key and some common values doesn't imply that the
+        // key is mapped to the same values by both the access functions.
+        for (Point key : group->getKeys().intersect(rhsGroup->getKeys())) {
+          IndexSet values = group->getAccessFunction().map(key);
+          IndexSet removedValues = rhsGroup->getAccessFunction().map(key);
 
-        if (lhsKeys.empty()) {
-          continue;
+          if (values.overlaps(removedValues)) {
+            group->removeKeys(IndexSet(key));
+            points += IndexSet(key).append(values - removedValues);
+          }
         }
-
-        IndexSet rhsKeys = rhsGroup->getAccessFunction().inverseMap(
-            commonValues, rhsGroup->getKeys());
-
-        if (rhsKeys.empty()) {
-          continue;
-        }
-
-        IndexSet commonKeys = lhsKeys.intersect(rhsKeys);
-        group->removeKeys(commonKeys);
       }
     }
   }
@@ -340,11 +351,26 @@ MCIM &MCIM::operator-=(const MCIM &rhs) {
         MultidimensionalRange variables =
             range.takeLastDimensions(rhs.getVariableSpace().rank());
 
-        IndexSet inverseKeys = group->getAccessFunction().inverseMap(
-            IndexSet(variables), group->getKeys());
+        const AccessFunction &accessFunction = group->getAccessFunction();
+        IndexSet candidates = group->getKeys().intersect(equations);
+
+        if (accessFunction.isAffine()) {
+          IndexSet inverseKeys =
+              accessFunction.inverseMap(IndexSet(variables), group->getKeys());
 
-        IndexSet keysIntersection = inverseKeys.intersect(equations);
-        group->removeKeys(keysIntersection);
+          group->removeKeys(inverseKeys.intersect(candidates));
+          continue;
+        }
+
+        for (Point key : candidates) {
+          IndexSet values = accessFunction.map(key);
+
+          if (values.overlaps(variables)) {
+            // Keep the other values of the removed key.
+            group->removeKeys(IndexSet(key));
+            points += IndexSet(key).append(values - variables);
+          }
+        }
       }
     }
 
@@ -355,6 +381,19 @@ MCIM &MCIM::operator-=(const MCIM &rhs) {
 
   points -= rhs.points;
 
+  // Remove the extra points that overlap with the groups.
+  for (const auto &rhsGroup : rhs.groups) {
+    IndexSet candidates = points.intersect(
+        rhsGroup->getKeys().append(rhsGroup->getValues()));
+
+    for (Point point : candidates) {
+      if (rhsGroup->has(point.takeFront(getEquationSpace().rank()),
+                        point.takeBack(getVariableSpace().rank()))) {
+        points -= point;
+      }
+    }
+  }
+
   assert(std::all_of(rhs.indicesBegin(), rhs.indicesEnd(),
                      [&](std::pair<Point, Point> coordinates) {
                        if (rhs.get(coordinates.first, coordinates.second)) {
@@ -387,8 +426,8 @@ void MCIM::apply(const MultidimensionalRange &equations,
 void MCIM::apply(const IndexSet &equations, const AccessFunction &access) {
   assert(getEquationSpace().contains(equations));
 
-  IndexSet filteredEquations = access.inverseMap(
-      access.map(equations).intersect(getVariableSpace()), equations);
+  IndexSet filteredEquations =
+      restrictToValues(access, equations, getVariableSpace(), points);
 
   if (!filteredEquations.empty()) {
     auto groupIt =
@@ -450,10 +489,16 @@ void MCIM::unset(const Point &equation, const Point &variable) {
   std::vector<std::unique_ptr<MCIMGroup>> newGroups;
 
   for (auto &group : groups) {
-    if (group->unset(equation, variable)) {
-      if (!group->empty()) {
-        newGroups.push_back(std::move(group));
-      }
+    if (group->has(equation, variable)) {
+      // Keep the other values of the key, if any.
+      points += IndexSet(equation).append(
+          group->getAccessFunction().map(equation) - variable);
+
+      group->unset(equation, variable);
+    }
+
+    if (!group->empty()) {
+      newGroups.push_back(std::move(group));
     }
   }
 
@@ -517,7 +562,17 @@ MCIM MCIM::filterColumns(const IndexSet &filter) const {
   MCIM result(equationSpace, variableSpace);
 
   for (const auto &group : groups) {
-    std::unique_ptr<MCIMGroup> filteredGroup = group->filterValues(filter);
+    std::unique_ptr<MCIMGroup> filteredGroup;
+
+    if (group->getAccessFunction().isAffine()) {
+      filteredGroup = group->filterValues(filter);
+    } else {
+      filteredGroup = MCIMGroup::build(group->getAccessFunction());
+
+      filteredGroup->addKeys(restrictToValues(group->getAccessFunction(),
+                                              group->getKeys(), filter,
+                                              result.points));
+    }
 
     if (!filteredGroup->empty()) {
       result.addGroup(std::move(filteredGroup));
@@ -551,12 +606,14 @@ MCIM MCIM::withSpace(std::shared_ptr<const IndexSet> newEquationSpace,
   MCIM result(newEquationSpace, newVariableSpace);
 
   auto filterKeysFn = [&](const MCIMGroup &group) -> IndexSet {
-    if (!getVariableSpace().contains(*newVariableSpace)) {
-      auto filteredGroup = group.filterValues(*newVariableSpace);
-      return filteredGroup->getKeys().intersect(*newEquationSpace);
+    IndexSet filteredKeys = group.getKeys().intersect(*newEquationSpace);
+
+    if (!newVariableSpace->contains(getVariableSpace())) {
+      return restrictToValues(group.getAccessFunction(), filteredKeys,
+                              *newVariableSpace, result.points);
     }
 
-    return group.getKeys().intersect(*newEquationSpace);
+    return filteredKeys;
   };
 
   for (const auto &group : groups) {
@@ -569,8 +626,8 @@ MCIM MCIM::withSpace(std::shared_ptr<const IndexSet> newEquationSpace,
     }
   }
 
-  if (!result.points.empty()) {
-    result.points =
+  if (!points.empty()) {
+    result.points +=
         points.intersect(newEquationSpace->append(*newVariableSpace));
   }
 
diff --git a/lib/Modeling/MCIMGroupGeneric.cpp b/lib/Modeling/MCIMGroupGeneric.cpp
index 0ef8999..bda2b32 100644
--- a/lib/Modeling/MCIMGroupGeneric.cpp
+++ b/lib/Modeling/MCIMGroupGeneric.cpp
@@ -54,17 +54,26 @@ bool MCIMGroupGeneric::has(const Point &key, const Point &value) const {
 }
 
 bool MCIMGroupGeneric::set(const Point &key, const Point &value) {
-  IndexSet inverseKeys =
-      getAccessFunction().inverseMap(IndexSet(value), IndexSet(key));
-  addKeys(inverseKeys);
-  return !inverseKeys.empty();
+  if (has(key, value)) {
+    return true;
+  }
+
+  if (getAccessFunction().map(key) != IndexSet(value)) {
+    // Adding the key would also add other values.
+    return false;
+  }
+
+  addKeys(IndexSet(key));
+  return true;
 }
 
 bool MCIMGroupGeneric::unset(const Point &key, const Point &value) {
-  IndexSet inverseKeys =
-      getAccessFunction().inverseMap(IndexSet(value), IndexSet(key));
-  removeKeys(inverseKeys);
-  return !inverseKeys.empty();
+  if (!has(key, value)) {
+    return false;
+  }
+
+  removeKeys(IndexSet(key));
+  return true;
 }
 
 std::unique_ptr<MCIMGroup>
-- 
2.43.0


From 0f5524e1dcad4124a53e01346b065ba31cf42859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:32 +0000
Subject: [PATCH 16/83] fix: compute all the local matching solutions

The second access function was always skipped, possibly leading to an
endless loop when all the solutions were requested, and the solutions
referred to variables outside of the matrix.
---
 lib/Modeling/LocalMatchingSolutionsVAF.cpp | 25 +++++++++++-----------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/lib/Modeling/LocalMatchingSolutionsVAF.cpp b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
index cf72495..a5011ba 100644
--- a/lib/Modeling/LocalMatchingSolutionsVAF.cpp
+++ b/lib/Modeling/LocalMatchingSolutionsVAF.cpp
@@ -89,7 +89,8 @@ void GeneratorDefault::fetchNext() {
     }
 
     if (!variablePointsIt || !variablePointsEndIt) {
-      variableIndices = accessFunction->map(**equationPointsIt);
+      variableIndices = accessFunction->map(**equationPointsIt)
+                            .intersect(*matrixVariableIndices);
 
       variablePointsIt = std::make_unique<IndexSet::const_point_iterator>(
           variableIndices.begin());
@@ -397,14 +398,7 @@ void VAFSolutions::initialize() {
 }
 
 void VAFSolutions::fetchNext() {
-  if (generator == nullptr) {
-    if (currentAccessFunction < accessFunctions.size()) {
-      generator = getGenerator(*accessFunctions[currentAccessFunction++]);
-      ++currentAccessFunction;
-    }
-  }
-
-  while (generator && !generator->hasValue() &&
+  while ((!generator || !generator->hasValue()) &&
          currentAccessFunction < accessFunctions.size()) {
     // Advance to the first generator with a valid value.
     generator = getGenerator(*accessFunctions[currentAccessFunction++]);
@@ -455,7 +449,7 @@ bool VAFSolutions::compareAccessFunctions(
   size_t lhsUniqueUsages = llvm::count_if(lhsUsages, counter);
   size_t rhsUniqueUsages = llvm::count_if(rhsUsages, counter);
 
-  return lhsUniqueUsages >= rhsUniqueUsages;
+  return lhsUniqueUsages > rhsUniqueUsages;
 }
 
 size_t
@@ -475,7 +469,8 @@ VAFSolutions::getSolutionsAmount(const AccessFunction &accessFunction) const {
   size_t solutionsAmount = 0;
 
   for (Point equation : *equationIndices) {
-    solutionsAmount += accessFunction.map(equation).size();
+    solutionsAmount +=
+        accessFunction.map(equation).intersect(*variableIndices).size();
   }
 
   return solutionsAmount;
@@ -488,7 +483,13 @@ VAFSolutions::getSolutionsAmount(const AccessFunctionAffineConstant &) const {
 
 size_t VAFSolutions::getSolutionsAmount(
     const AccessFunctionConstant &accessFunction) const {
-  return equationIndices->size() * accessFunction.map(IndexSet()).size();
+  if (equationIndices->empty()) {
+    return 0;
+  }
+
+  return equationIndices->size() * accessFunction.map(*equationIndices)
+                                       .intersect(*variableIndices)
+                                       .size();
 }
 
 size_t VAFSolutions::getSolutionsAmount(
-- 
2.43.0


From a925bb1f8e604b1816183a0fd10d09554bd8a3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:37 +0000
Subject: [PATCH 17/83] fix: skip the isolated vertices when matching the leaf
 nodes

---
 include/marco/Modeling/Matching.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/marco/Modeling/Matching.h b/include/marco/Modeling/Matching.h
index e8c3bc2..a354b1c 100644
--- a/include/marco/Modeling/Matching.h
+++ b/include/marco/Modeling/Matching.h
@@ -1898,6 +1898,14 @@ private:
         continue;
       }
 
+      if (getVertexVisibilityDegreeUpTo(v1, 1) == 0) {
+        // The only incident edge has been removed by the simplification of the
+        // opposite vertex, and the current vertex has been only partially
+        // matched.
+        LLVM_DEBUG(llvm::dbgs() << "First vertex isolated\n");
+        continue;
+      }
+
       EdgeDescriptor edgeDescriptor = getFirstOutVisibleEdge(v1);
       Edge &edge = getBaseGraph()[edgeDescriptor];
 
-- 
2.43.0


From 324d53147910f6e0e43b749cb66b12cca957710b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:37 +0000
Subject: [PATCH 18/83] fix: keep all the visits of an augmenting path to the
 same node

---
 include/marco/Modeling/Matching.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/marco/Modeling/Matching.h b/include/marco/Modeling/Matching.h
index a354b1c..f9b75fb 100644
--- a/include/marco/Modeling/Matching.h
+++ b/include/marco/Modeling/Matching.h
@@ -2342,15 +2342,12 @@ protected:
             std::lock_guard lock(mutex);
 
             if (auto it = visited.find(curStep->getNode());
-                it != visited.end()) {
-              if (touchedIndices.overlaps(it->second)) {
-                // Discard the current path, as it overlaps with another one.
-                validPath = false;
-              } else {
-                newVisits[curStep->getNode()] += touchedIndices;
-              }
+                it != visited.end() && touchedIndices.overlaps(it->second)) {
+              // Discard the current path, as it overlaps with another one.
+              validPath = false;
             } else {
-              newVisits[curStep->getNode()] = std::move(touchedIndices);
+              // The path may traverse the same node more than once.
+              newVisits[curStep->getNode()] += touchedIndices;
             }
 
             // Move backwards inside the candidate augmenting path.
-- 
2.43.0


From d66adb7c4e48f6ded0f373582e525f16e2f6c848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:41 +0000
Subject: [PATCH 19/83] fix: dependencies of scalar equations reading several
 scalar variables

---
 include/marco/Modeling/ScalarEquationsDependencyGraph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/marco/Modeling/ScalarEquationsDependencyGraph.h b/include/marco/Modeling/ScalarEquationsDependencyGraph.h
index 040c75f..6827381 100644
--- a/include/marco/Modeling/ScalarEquationsDependencyGraph.h
+++ b/include/marco/Modeling/ScalarEquationsDependencyGraph.h
@@ -271,7 +271,7 @@ private:
                 const MultidimensionalRange &writtenIndices =
                     writeInfo.getWrittenVariableIndices();
 
-                if (readIndices == writtenIndices) {
+                if (readIndices.overlaps(writtenIndices)) {
                   std::lock_guard edgeLockGuard(graphMutex);
                   graph->addEdge(equationDescriptor, writeInfo.getEquation());
                 }
-- 
2.43.0


From 9f4f33cf731d0382e9886d625c7efe4c0aa39f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:45 +0000
Subject: [PATCH 20/83] fix: endless visit of the cycles when an equation
 depends on itself

---
 include/marco/Modeling/DependencyGraph.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/marco/Modeling/DependencyGraph.h b/include/marco/Modeling/DependencyGraph.h
index 1a76155..3aeb6a0 100644
--- a/include/marco/Modeling/DependencyGraph.h
+++ b/include/marco/Modeling/DependencyGraph.h
@@ -511,15 +511,18 @@ private:
 
     getEquationsCycles(cycles, writesMap, cachedWriteAccesses,
                        cachedReadAccesses, visitedEquationIndices, equation,
-                       unvisitedEquationIndices, {});
+                       unvisitedEquationIndices, {}, {});
   }
 
   void getEquationsCycles(
       llvm::SmallVectorImpl<Path> &cycles, const WritesMap &writesMap,
       CachedAccesses &cachedWriteAccesses, CachedAccesses &cachedReadAccesses,
       llvm::DenseMap<EquationDescriptor, IndexSet> &visitedEquationIndices,
-      EquationDescriptor equation, const IndexSet &equationIndices,
-      Path path) const {
+      EquationDescriptor equation, const IndexSet &equationIndices, Path path,
+      llvm::DenseMap<EquationDescriptor, IndexSet> pathEquationIndices) const {
+    // Keep track of the indices traversed by the path, before any restriction.
+    pathEquationIndices[equation] += equationIndices;
+
     // Visit all the write accesses. When the indices of the equation get
     // restricted, the written indices may differ and even not overlap anymore.
     // We keep track of the visited indices to avoid going through access
@@ -649,10 +652,18 @@ private:
                   cycles.push_back(std::move(*cycle));
                 }
 
+                // Indices already traversed by the path can't lead to new
+                // cycles, but would rather be traversed endlessly.
+                if (pathEquationIndices[writingEquation].contains(
+                        writingEquationIndices)) {
+                  return;
+                }
+
                 getEquationsCycles(cycles, writesMap, cachedWriteAccesses,
                                    cachedReadAccesses, visitedEquationIndices,
                                    writingEquation, writingEquationIndices,
-                                   std::move(extendedPath));
+                                   std::move(extendedPath),
+                                   pathEquationIndices);
               });
         }
       }
-- 
2.43.0


From 81ff97d23aa67ad72c1dddfd162ca5f2089fc73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:45 +0000
Subject: [PATCH 21/83] fix: keep together the partitions depending on each
 other

---
 include/marco/Modeling/DependencyGraph.h | 90 +++++++++++++++++++-----
 1 file changed, 73 insertions(+), 17 deletions(-)

diff --git a/include/marco/Modeling/DependencyGraph.h b/include/marco/Modeling/DependencyGraph.h
index 3aeb6a0..eca92d3 100644
--- a/include/marco/Modeling/DependencyGraph.h
+++ b/include/marco/Modeling/DependencyGraph.h
@@ -403,6 +403,22 @@ public:
         }
       }
 
+      // Add the nodes for the remaining indices.
+      for (const EquationDescriptor &equation : scc) {
+        IndexSet remainingEquationIndices =
+            arrayDependencyGraph.getEquation(equation).getIterationRanges();
+
+        remainingEquationIndices -= visitedEquationIndices[equation];
+
+        if (!remainingEquationIndices.empty()) {
+          EquationView equationView(equation,
+                                    std::move(remainingEquationIndices));
+
+          auto vertexDescriptor = partitionsGraph.addVertex(equationView);
+          partitionsMap[equationView] = vertexDescriptor;
+        }
+      }
+
       // Add the edges.
       for (const Path &path : partitionedCycles) {
         EquationView first(path[0].equation, path[0].equationIndices);
@@ -418,7 +434,12 @@ public:
         partitionsGraph.addEdge(partitionsMap[source], partitionsMap[first]);
       }
 
-      // Create the cyclic SCCs.
+      // Partitions obtained from distinct cycles, or not belonging to any of
+      // them, may still depend on each other.
+      addPartitionsDependencies(partitionsGraph, cachedWriteAccesses,
+                                cachedReadAccesses);
+
+      // Create the SCCs.
       auto sccBeginIt = llvm::scc_begin(
           static_cast<const PartitionsGraph *>(&partitionsGraph));
 
@@ -439,22 +460,6 @@ public:
           result.push_back(std::move(partitionsSCC));
         }
       }
-
-      // Create the SCCs for the remaining indices.
-      for (const EquationDescriptor &equation : scc) {
-        IndexSet remainingEquationIndices =
-            arrayDependencyGraph.getEquation(equation).getIterationRanges();
-
-        remainingEquationIndices -= visitedEquationIndices[equation];
-
-        if (!remainingEquationIndices.empty()) {
-          std::lock_guard<std::mutex> lock(resultMutex);
-          SCC &remainingIndicesSCC = result.emplace_back();
-
-          remainingIndicesSCC.addEquation(
-              EquationView(equation, std::move(remainingEquationIndices)));
-        }
-      }
     };
 
     mlir::parallelForEach(getContext(), SCCs, processFn);
@@ -492,6 +497,57 @@ private:
     return true;
   }
 
+  /// Add an edge between each pair of partitions such that the first one reads
+  /// some of the indices written by the second one.
+  template <typename PartitionsGraph>
+  void
+  addPartitionsDependencies(PartitionsGraph &partitionsGraph,
+                            const CachedAccesses &cachedWriteAccesses,
+                            const CachedAccesses &cachedReadAccesses) const {
+    using Partition = typename PartitionsGraph::VertexDescriptor;
+    using VariableIndices = llvm::MapVector<typename Variable::Id, IndexSet>;
+
+    struct PartitionAccesses {
+      Partition partition;
+      VariableIndices written;
+      VariableIndices read;
+    };
+
+    llvm::SmallVector<PartitionAccesses> partitions;
+
+    for (Partition partition :
+         llvm::make_range(partitionsGraph.verticesBegin(),
+                          partitionsGraph.verticesEnd())) {
+      const EquationView &view = partitionsGraph[partition];
+      PartitionAccesses &accesses = partitions.emplace_back();
+      accesses.partition = partition;
+
+      for (const Access &access : cachedWriteAccesses.lookup(*view)) {
+        accesses.written[access.getVariable()] +=
+            access.getAccessFunction().map(view.getIndices());
+      }
+
+      for (const Access &access : cachedReadAccesses.lookup(*view)) {
+        accesses.read[access.getVariable()] +=
+            access.getAccessFunction().map(view.getIndices());
+      }
+    }
+
+    for (const PartitionAccesses &source : partitions) {
+      for (const PartitionAccesses &destination : partitions) {
+        if (source.partition != destination.partition &&
+            llvm::any_of(source.read, [&](const auto &entry) {
+              auto it = destination.written.find(entry.first);
+
+              return it != destination.written.end() &&
+                     it->second.overlaps(entry.second);
+            })) {
+          partitionsGraph.addEdge(source.partition, destination.partition);
+        }
+      }
+    }
+  }
+
   void getEquationsCycles(
       llvm::SmallVectorImpl<Path> &cycles, const WritesMap &writesMap,
       CachedAccesses &cachedWriteAccesses, CachedAccesses &cachedReadAccesses,
-- 
2.43.0


From ef9eedad6aac7eb56f059e194fb94bab2e48ee0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:17 +0000
Subject: [PATCH 22/83] fix: keep disjoint the partitions of the equations of a
 component

---
 include/marco/Modeling/DependencyGraph.h | 103 ++++++++---------------
 1 file changed, 37 insertions(+), 66 deletions(-)

diff --git a/include/marco/Modeling/DependencyGraph.h b/include/marco/Modeling/DependencyGraph.h
index eca92d3..dcaa6ee 100644
--- a/include/marco/Modeling/DependencyGraph.h
+++ b/include/marco/Modeling/DependencyGraph.h
@@ -380,62 +380,36 @@ public:
         addCycleAndSplit(partitionedCycles, std::move(cycle));
       }
 
-      assert(checkEquationsPartitioning(partitionedCycles) &&
-             "Found overlapping and non-equal equation indices");
+      // The restriction of the indices along the cycles may have led to new
+      // partial overlaps among them. Determine disjoint indices.
+      llvm::MapVector<EquationDescriptor, llvm::SmallVector<IndexSet>>
+          disjointIndices;
 
-      using PartitionsGraph =
-          internal::dependency::SingleEntryWeaklyConnectedDigraph<EquationView>;
-
-      using Partition = typename PartitionsGraph::VertexDescriptor;
-      PartitionsGraph partitionsGraph;
-      llvm::DenseMap<EquationView, Partition> partitionsMap;
-
-      // Add the nodes.
       for (const Path &path : partitionedCycles) {
         for (const PathDependency &pathDependency : path) {
-          EquationView equationView(pathDependency.equation,
-                                    pathDependency.equationIndices);
-
-          if (!partitionsMap.contains(equationView)) {
-            auto vertexDescriptor = partitionsGraph.addVertex(equationView);
-            partitionsMap[equationView] = vertexDescriptor;
-          }
+          addAndSplitIndices(disjointIndices[pathDependency.equation],
+                             pathDependency.equationIndices);
         }
       }
 
-      // Add the nodes for the remaining indices.
+      // Add the indices not belonging to any cycle.
       for (const EquationDescriptor &equation : scc) {
-        IndexSet remainingEquationIndices =
-            arrayDependencyGraph.getEquation(equation).getIterationRanges();
-
-        remainingEquationIndices -= visitedEquationIndices[equation];
+        addAndSplitIndices(
+            disjointIndices[equation],
+            arrayDependencyGraph.getEquation(equation).getIterationRanges());
+      }
 
-        if (!remainingEquationIndices.empty()) {
-          EquationView equationView(equation,
-                                    std::move(remainingEquationIndices));
+      using PartitionsGraph =
+          internal::dependency::SingleEntryWeaklyConnectedDigraph<EquationView>;
 
-          auto vertexDescriptor = partitionsGraph.addVertex(equationView);
-          partitionsMap[equationView] = vertexDescriptor;
-        }
-      }
+      PartitionsGraph partitionsGraph;
 
-      // Add the edges.
-      for (const Path &path : partitionedCycles) {
-        EquationView first(path[0].equation, path[0].equationIndices);
-        EquationView source = first;
-
-        for (size_t i = 1, e = path.size(); i < e; ++i) {
-          EquationView destination(path[i].equation, path[i].equationIndices);
-          partitionsGraph.addEdge(partitionsMap[source],
-                                  partitionsMap[destination]);
-          source = std::move(destination);
+      for (auto &[equation, partitions] : disjointIndices) {
+        for (IndexSet &indices : partitions) {
+          partitionsGraph.addVertex(EquationView(equation, std::move(indices)));
         }
-
-        partitionsGraph.addEdge(partitionsMap[source], partitionsMap[first]);
       }
 
-      // Partitions obtained from distinct cycles, or not belonging to any of
-      // them, may still depend on each other.
       addPartitionsDependencies(partitionsGraph, cachedWriteAccesses,
                                 cachedReadAccesses);
 
@@ -467,34 +441,31 @@ public:
   }
 
 private:
-  [[maybe_unused, nodiscard]] bool
-  checkEquationsPartitioning(llvm::ArrayRef<Path> cycles) const {
-    auto checkEquationFn = [&](EquationDescriptor equation,
-                               const IndexSet &indices) {
-      for (const Path &path : cycles) {
-        for (const PathDependency &pathDependency : path) {
-          if (pathDependency.equation == equation) {
-            if (pathDependency.equationIndices.overlaps(indices) &&
-                pathDependency.equationIndices != indices) {
-              return false;
-            }
-          }
-        }
+  /// Add some indices to a list of disjoint ones, while splitting the existing
+  /// ones that partially overlap them.
+  static void addAndSplitIndices(llvm::SmallVectorImpl<IndexSet> &partitions,
+                                 IndexSet indices) {
+    llvm::SmallVector<IndexSet> result;
+
+    for (IndexSet &partition : partitions) {
+      IndexSet commonIndices = partition.intersect(indices);
+
+      if (commonIndices.empty() || commonIndices == partition) {
+        indices -= partition;
+        result.push_back(std::move(partition));
+        continue;
       }
 
-      return true;
-    };
+      indices -= commonIndices;
+      result.push_back(partition - commonIndices);
+      result.push_back(std::move(commonIndices));
+    }
 
-    for (const Path &path : cycles) {
-      for (const PathDependency &pathDependency : path) {
-        if (!checkEquationFn(pathDependency.equation,
-                             pathDependency.equationIndices)) {
-          return false;
-        }
-      }
+    if (!indices.empty()) {
+      result.push_back(std::move(indices));
     }
 
-    return true;
+    partitions = std::move(result);
   }
 
   /// Add an edge between each pair of partitions such that the first one reads
-- 
2.43.0


From 2e8a7792cb9e2d7aa5a335eb619d4661bd6d3406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 23/83] fix: do not swallow the character following a floating
 point literal without fractional part

---
 lib/Parser/BaseModelica/StateMachine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Parser/BaseModelica/StateMachine.cpp b/lib/Parser/BaseModelica/StateMachine.cpp
index 6f5c754..96bc350 100644
--- a/lib/Parser/BaseModelica/StateMachine.cpp
+++ b/lib/Parser/BaseModelica/StateMachine.cpp
@@ -187,6 +187,12 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingNumber>() {
   }
 
   if (current == '.') {
+    if (!isDigit(next) && next != 'e' && next != 'E') {
+      // The fractional part has been omitted.
+      state = State::Normal;
+      return makeToken(TokenKind::FloatingPoint, getFloat());
+    }
+
     state = State::ParsingFloat;
     return std::nullopt;
   }
-- 
2.43.0


From 06482f09cd990953ec676c14d36301ddf4978785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 24/83] fix: reject floating point literals with a fractional
 part and an empty exponent

---
 lib/Parser/BaseModelica/StateMachine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Parser/BaseModelica/StateMachine.cpp b/lib/Parser/BaseModelica/StateMachine.cpp
index 96bc350..a15eb25 100644
--- a/lib/Parser/BaseModelica/StateMachine.cpp
+++ b/lib/Parser/BaseModelica/StateMachine.cpp
@@ -248,6 +248,11 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingFloat>() {
       state = State::ParsingFloatExponent;
       return std::nullopt;
     }
+
+    state = State::Normal;
+    setTokenEndPosition();
+    error = "missing exponent in floating point number";
+    return makeToken(TokenKind::Error, getError());
   }
 
   if (isDigit(next) || next == 'E' || next == 'e') {
-- 
2.43.0


From b25ba17030d4b911373bfa7fb210689a4f4b6f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 25/83] fix: do not close multi-line comments on their own
 opening star, and reject unterminated ones

---
 .../marco/Parser/BaseModelica/StateMachine.h  |  1 +
 lib/Parser/BaseModelica/StateMachine.cpp      | 24 +++++++++++++++----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/marco/Parser/BaseModelica/StateMachine.h b/include/marco/Parser/BaseModelica/StateMachine.h
index 17855dd..f9a1a03 100644
--- a/include/marco/Parser/BaseModelica/StateMachine.h
+++ b/include/marco/Parser/BaseModelica/StateMachine.h
@@ -39,6 +39,7 @@ public:
     ParsingFloatExponent,
     ParsingString,
     ParsingSingleLineComment,
+    ParsingMultiLineCommentBegin,
     ParsingMultiLineComment,
     ParsingBackSlash,
     ParsingQIdentifierBackSlash,
diff --git a/lib/Parser/BaseModelica/StateMachine.cpp b/lib/Parser/BaseModelica/StateMachine.cpp
index a15eb25..ea97da0 100644
--- a/lib/Parser/BaseModelica/StateMachine.cpp
+++ b/lib/Parser/BaseModelica/StateMachine.cpp
@@ -359,12 +359,14 @@ StateMachine::scan<StateMachine::State::ParsingSingleLineComment>() {
 template <>
 std::optional<Token>
 StateMachine::scan<StateMachine::State::ParsingMultiLineComment>() {
-  setTokenEndPosition();
-
-  if (next == '\0') {
-    state = State::Normal;
+  if (current == '\0') {
+    state = State::End;
+    error = "reached end of file while parsing a comment";
+    return makeToken(TokenKind::Error, getError());
   }
 
+  setTokenEndPosition();
+
   if (current == '*' && next == '/') {
     state = State::IgnoredCharacter;
   }
@@ -372,6 +374,15 @@ StateMachine::scan<StateMachine::State::ParsingMultiLineComment>() {
   return std::nullopt;
 }
 
+template <>
+std::optional<Token>
+StateMachine::scan<StateMachine::State::ParsingMultiLineCommentBegin>() {
+  // Skip the opening '*', which must not be considered part of the closing '*/'.
+  setTokenEndPosition();
+  state = State::ParsingMultiLineComment;
+  return std::nullopt;
+}
+
 template <>
 std::optional<Token>
 StateMachine::scan<StateMachine::State::ParsingBackSlash>() {
@@ -529,7 +540,7 @@ std::optional<Token> StateMachine::scan<StateMachine::State::Normal>() {
   }
 
   if (current == '/' && next == '*') {
-    state = State::ParsingMultiLineComment;
+    state = State::ParsingMultiLineCommentBegin;
     return std::nullopt;
   }
 
@@ -674,6 +685,9 @@ std::optional<Token> StateMachine::step(char c) {
   case State::ParsingSingleLineComment:
     return scan<State::ParsingSingleLineComment>();
 
+  case State::ParsingMultiLineCommentBegin:
+    return scan<State::ParsingMultiLineCommentBegin>();
+
   case State::ParsingMultiLineComment:
     return scan<State::ParsingMultiLineComment>();
 
-- 
2.43.0


From 2972acac47534307ae41028a4a3faa77865562df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 26/83] fix: exact values for long numeric literals, and
 rejection of the integers that can't be represented

---
 include/marco/Lexer/FloatLexer.h         | 86 +++++++++++++++---------
 include/marco/Lexer/IntegerLexer.h       | 19 +++++-
 lib/Parser/BaseModelica/StateMachine.cpp |  6 ++
 3 files changed, 80 insertions(+), 31 deletions(-)

diff --git a/include/marco/Lexer/FloatLexer.h b/include/marco/Lexer/FloatLexer.h
index fc012bc..817dd9b 100644
--- a/include/marco/Lexer/FloatLexer.h
+++ b/include/marco/Lexer/FloatLexer.h
@@ -11,19 +11,15 @@ template <unsigned int Base>
 class FloatLexer {
 public:
   /// Concatenate the number to the integer part.
-  void addUpper(int i) { upperPart += i; }
+  void addUpper(int i) {
+    upperPart += i;
+    addSignificantDigit(i);
+  }
 
   /// Concatenate the number to the rational part.
   void addLower(int i) {
-    lowerPart += i;
-
-    if (i != 0) {
-      leadingZero = false;
-    }
-
-    if (leadingZero) {
-      ++fractionalLeadingZeros;
-    }
+    addSignificantDigit(i);
+    --scale;
   }
 
   /// Concatenate the number to the exponent part.
@@ -41,49 +37,79 @@ public:
   /// Return the X part to make it compatible with the IntegerLexer.
   int64_t getUpperPart() const { return upperPart.get(); }
 
+  /// Returns whether the X part is too big to be represented as an integer.
+  bool hasUpperPartOverflowed() const { return upperPart.hasOverflowed(); }
+
   /// Returns upper.lower * (base ^ (sign * exponent)).
   double get() const {
-    int64_t mantissaNormalizer = 1;
-
-    while (mantissaNormalizer <= lowerPart.get()) {
-      mantissaNormalizer *= Base;
+    if (mantissa.get() == 0) {
+      return 0;
     }
 
-    double toReturn = upperPart.get();
-    toReturn += static_cast<double>(lowerPart.get()) /
-                (mantissaNormalizer * std::pow(Base, fractionalLeadingZeros));
-
-    auto exp = exponential.get();
+    // The exponent is accumulated together with the position of the radix
+    // point, so that the intermediate results don't overflow or underflow
+    // unless the number itself does.
+    double exp = static_cast<double>(scale);
 
-    if (!expSign) {
-      exp *= -1;
+    if (hasExponential) {
+      double value = static_cast<double>(exponential.get());
+      exp += expSign ? value : -value;
     }
 
-    if (hasExponential) {
-      toReturn *= std::pow(Base, exp);
+    long double result = mantissa.get();
+
+    if (exp < 0) {
+      result /= std::pow(static_cast<long double>(Base), -exp);
+    } else {
+      result *= std::pow(static_cast<long double>(Base), exp);
     }
 
-    return toReturn;
+    return static_cast<double>(result);
   }
 
   void reset() {
     upperPart.reset();
-    lowerPart.reset();
+    mantissa.reset();
+    mantissaFull = false;
+    scale = 0;
     hasExponential = false;
     exponential.reset();
     expSign = true;
-    leadingZero = true;
-    fractionalLeadingZeros = 0;
+  }
+
+private:
+  /// Append a digit to the mantissa. The digits exceeding its capacity are
+  /// below the precision of the result, and thus only their weight is kept.
+  void addSignificantDigit(int i) {
+    if (!mantissaFull) {
+      IntegerLexer<Base> next = mantissa;
+      next += i;
+
+      if (!next.hasOverflowed()) {
+        mantissa = next;
+        return;
+      }
+
+      mantissaFull = true;
+    }
+
+    ++scale;
   }
 
 private:
   IntegerLexer<Base> upperPart;
-  IntegerLexer<Base> lowerPart;
+
+  /// The digits of both the integer and rational parts.
+  IntegerLexer<Base> mantissa;
+  bool mantissaFull = false;
+
+  /// The exponent to be applied to the mantissa because of the position of the
+  /// radix point.
+  int64_t scale = 0;
+
   bool hasExponential = false;
   IntegerLexer<Base> exponential;
   bool expSign = true;
-  bool leadingZero = true;
-  int fractionalLeadingZeros = 0;
 };
 } // namespace marco::lexer
 
diff --git a/include/marco/Lexer/IntegerLexer.h b/include/marco/Lexer/IntegerLexer.h
index 6b5c75d..53f3de0 100644
--- a/include/marco/Lexer/IntegerLexer.h
+++ b/include/marco/Lexer/IntegerLexer.h
@@ -2,6 +2,7 @@
 #define MARCO_LEXER_INTEGERLEXER_H
 
 #include <cstdint>
+#include <limits>
 
 namespace marco::lexer {
 /// An integer lexer is a object that can be feed with
@@ -16,7 +17,16 @@ public:
   IntegerLexer(int64_t value = 0) : value(value) {}
 
   /// Adds the next element to the integer.
+  /// If the result can't be represented, then the integer saturates.
   IntegerLexer operator+=(int i) {
+    constexpr int64_t max = std::numeric_limits<int64_t>::max();
+
+    if (overflow || value > (max - i) / static_cast<int64_t>(Base)) {
+      overflow = true;
+      value = max;
+      return *this;
+    }
+
     value = value * Base;
     value = value + i;
     return *this;
@@ -25,10 +35,17 @@ public:
   /// Returns the currently built value.
   int64_t get() const { return value; }
 
-  void reset() { value = 0; }
+  /// Returns whether the integer is too big to be represented.
+  bool hasOverflowed() const { return overflow; }
+
+  void reset() {
+    value = 0;
+    overflow = false;
+  }
 
 private:
   int64_t value;
+  bool overflow = false;
 };
 } // namespace marco::lexer
 
diff --git a/lib/Parser/BaseModelica/StateMachine.cpp b/lib/Parser/BaseModelica/StateMachine.cpp
index ea97da0..f4a5747 100644
--- a/lib/Parser/BaseModelica/StateMachine.cpp
+++ b/lib/Parser/BaseModelica/StateMachine.cpp
@@ -220,6 +220,12 @@ std::optional<Token> StateMachine::scan<StateMachine::State::ParsingNumber>() {
 
   if (!isAcceptable(next)) {
     state = State::Normal;
+
+    if (numberLexer.hasUpperPartOverflowed()) {
+      error = "integer literal out of range";
+      return makeToken(TokenKind::Error, getError());
+    }
+
     return makeToken(TokenKind::Integer, getInt());
   }
 
-- 
2.43.0


From f814eabaa4e810b4cdbb300ffa4ec4b71a1229ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 27/83] fix: report unexpected tokens in expressions instead of
 dereferencing a null node

---
 lib/Parser/BaseModelica/Parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 3445248..8f91d04 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1439,7 +1439,8 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parsePrimary() {
     newResult->setArguments(functionCallArgs->getValue());
     result = std::move(newResult);
 
-  } else if (lookahead[0].isa<TokenKind::Identifier>()) {
+  } else if (lookahead[0].isa<TokenKind::Identifier>() ||
+             lookahead[0].isa<TokenKind::Dot>()) {
     TRY(identifier, parseComponentReference());
     loc.end = (*identifier)->getLocation().end;
 
@@ -1455,6 +1456,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parsePrimary() {
     newResult->setCallee(std::move(*identifier));
     newResult->setArguments(functionCallArgs->getValue());
     result = std::move(newResult);
+  } else {
+    emitUnexpectedTokenError(lookahead[0], TokenKind::Identifier);
+    return std::nullopt;
   }
 
   assert(result != nullptr);
-- 
2.43.0


From 2b6d4d85ad556a6ed535bb490fd01b2db59ef002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 28/83] fix: do not read the name of types from tokens that are
 not identifiers

---
 lib/Parser/BaseModelica/Parser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 8f91d04..1b3002f 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1881,8 +1881,8 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseVariableType() {
   std::unique_ptr<ASTNode> result;
 
   const bool globalLookup = accept<TokenKind::Dot>();
-  const std::string name = lookahead[0].getString();
   EXPECT(TokenKind::Identifier);
+  const std::string name = getString();
   SourceRange loc = getLocation();
 
   if (name == "String") {
@@ -1902,9 +1902,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseVariableType() {
     path.push_back(name);
 
     while (accept<TokenKind::Dot>()) {
-      loc.end = lookahead[0].getLocation().end;
-      path.push_back(lookahead[0].getString());
       EXPECT(TokenKind::Identifier);
+      loc.end = getLocation().end;
+      path.push_back(getString());
     }
 
     result = std::make_unique<UserDefinedType>(loc);
@@ -1951,8 +1951,8 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseTermModification() {
 
   do {
     accept<TokenKind::Each>();
-    const std::string lastIndentifier = lookahead[0].getString();
     EXPECT(TokenKind::Identifier);
+    const std::string lastIndentifier = getString();
     EXPECT(TokenKind::EqualityOperator);
 
     if (lastIndentifier == "start") {
-- 
2.43.0


From 69e6cd474d5ab88d94c474fe6dc880433f973723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 29/83] fix: endless loop on class elements following a
 visibility section and an inner class, or on a lone 'initial'

---
 lib/Parser/BaseModelica/Parser.cpp | 39 ++++++++++--------------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 1b3002f..4d6c088 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -221,13 +221,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
   llvm::SmallVector<std::unique_ptr<ASTNode>, 3> algorithms;
   llvm::SmallVector<std::unique_ptr<ASTNode>, 3> innerClasses;
 
-  // Whether the first elements list is allowed to be encountered or not.
-  // In fact, the class definition allows a first elements list definition
-  // and then others more if preceded by "public" or "protected", but no
-  // more "lone" definitions are allowed if any of those keywords are
-  // encountered.
-
-  bool firstElementListParsable = true;
+  // The visibility of the elements being parsed. Lists of elements may be
+  // interleaved with inner classes, which do not alter the visibility.
+  bool publicSection = true;
 
   while (!lookahead[0].isa<TokenKind::End>() &&
          !lookahead[0].isa<TokenKind::Annotation>() &&
@@ -269,33 +265,24 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
     }
 
     if (accept<TokenKind::Public>()) {
-      TRY(elementList, parseElementList(true));
-
-      for (auto &element : *elementList) {
-        members.push_back(std::move(element));
-      }
-
-      firstElementListParsable = false;
+      publicSection = true;
       continue;
     }
 
     if (accept<TokenKind::Protected>()) {
-      TRY(elementList, parseElementList(false));
-
-      for (auto &element : *elementList) {
-        members.push_back(std::move(element));
-      }
-
-      firstElementListParsable = false;
+      publicSection = false;
       continue;
     }
 
-    if (firstElementListParsable) {
-      TRY(elementList, parseElementList(true));
+    TRY(elementList, parseElementList(publicSection));
+
+    if (elementList->empty()) {
+      emitUnexpectedTokenError(lookahead[0], TokenKind::End);
+      return std::nullopt;
+    }
 
-      for (auto &element : *elementList) {
-        members.push_back(std::move(element));
-      }
+    for (auto &element : *elementList) {
+      members.push_back(std::move(element));
     }
   }
 
-- 
2.43.0


From f5d40b77ea16f6b9c4fbac7731b02e6f32002d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 30/83] fix: parse the initial algorithms

---
 lib/Parser/BaseModelica/Parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 4d6c088..449aee2 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -505,6 +505,7 @@ Parser::parseElementReplaceable(bool each, bool final) {
 }
 
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseAlgorithmSection() {
+  const bool initial = accept<TokenKind::Initial>();
   EXPECT(TokenKind::Algorithm);
   SourceRange loc = getLocation();
 
@@ -513,6 +514,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseAlgorithmSection() {
   while (!lookahead[0].isa<TokenKind::End>() &&
          !lookahead[0].isa<TokenKind::Public>() &&
          !lookahead[0].isa<TokenKind::Protected>() &&
+         !lookahead[0].isa<TokenKind::Initial>() &&
          !lookahead[0].isa<TokenKind::Equation>() &&
          !lookahead[0].isa<TokenKind::Algorithm>() &&
          !lookahead[0].isa<TokenKind::External>() &&
@@ -525,6 +527,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseAlgorithmSection() {
   }
 
   auto result = std::make_unique<Algorithm>(loc);
+  result->setInitial(initial);
   result->setStatements(statements);
   return static_cast<std::unique_ptr<ASTNode>>(std::move(result));
 }
-- 
2.43.0


From 417a4668f52993072224ca2355ce3a4546b1879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 31/83] fix: keywords of the 'when' equations and statements

---
 lib/Parser/BaseModelica/Parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 449aee2..4ce8a5a 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -985,7 +985,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseWhenEquation() {
   }
 
   EXPECT(TokenKind::End);
-  EXPECT(TokenKind::If);
+  EXPECT(TokenKind::When);
   loc.end = getLocation().end;
 
   auto result = std::make_unique<WhenEquation>(loc);
@@ -1009,7 +1009,7 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseWhenStatement() {
   SourceRange loc = getLocation();
 
   TRY(condition, parseExpression());
-  EXPECT(TokenKind::Loop);
+  EXPECT(TokenKind::Then);
 
   std::vector<std::unique_ptr<ASTNode>> statements;
 
-- 
2.43.0


From 8ec14fa2d6780e0ac9798c2287b4dea0534ef9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 32/83] fix: reject redeclarations and replaceable elements
 instead of running into unreachable code

---
 lib/Parser/BaseModelica/Parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 4ce8a5a..21ce076 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -494,13 +494,15 @@ Parser::parseElementModification(bool each, bool final) {
 }
 
 ParseResult<std::unique_ptr<ASTNode>> Parser::parseElementRedeclaration() {
-  llvm_unreachable("Not implemented");
+  // TODO: not implemented.
+  emitUnexpectedTokenError(lookahead[0], TokenKind::Identifier);
   return std::nullopt;
 }
 
 ParseResult<std::unique_ptr<ASTNode>>
 Parser::parseElementReplaceable(bool each, bool final) {
-  llvm_unreachable("Not implemented");
+  // TODO: not implemented.
+  emitUnexpectedTokenError(lookahead[0], TokenKind::Identifier);
   return std::nullopt;
 }
 
-- 
2.43.0


From 522fde50add535cd025607a7491ce31d3f567fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 33/83] fix: separators and omitted expressions in the lists of
 output expressions

---
 lib/Parser/BaseModelica/Parser.cpp | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 21ce076..b5dc94c 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1705,19 +1705,22 @@ WrappedParseResult<std::vector<std::unique_ptr<ASTNode>>>
 Parser::parseOutputExpressionList() {
   std::vector<std::unique_ptr<ASTNode>> expressions;
 
-  while (!lookahead[0].isa<TokenKind::RPar>()) {
-    const SourceRange loc = lookahead[0].getLocation();
-
-    if (accept<TokenKind::Comma>()) {
-      auto expression = std::make_unique<ComponentReference>(loc);
-      expression->setDummy(true);
-      expressions.push_back(std::move(expression));
-      continue;
-    }
-
-    TRY(expression, parseExpression());
-    expressions.push_back(std::move(*expression));
-    accept<TokenKind::Comma>();
+  if (!lookahead[0].isa<TokenKind::RPar>()) {
+    do {
+      if (lookahead[0].isa<TokenKind::Comma>() ||
+          lookahead[0].isa<TokenKind::RPar>()) {
+        // Omitted expression.
+        auto expression =
+            std::make_unique<ComponentReference>(lookahead[0].getLocation());
+
+        expression->setDummy(true);
+        expressions.push_back(std::move(expression));
+        continue;
+      }
+
+      TRY(expression, parseExpression());
+      expressions.push_back(std::move(*expression));
+    } while (accept<TokenKind::Comma>());
   }
 
   SourceRange loc = getCursorLocation();
-- 
2.43.0


From 61c4d127e27121633d0f1005e8bacb5d5527a561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 34/83] fix: accept class annotations right after the elements

---
 lib/Parser/BaseModelica/Parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index b5dc94c..4773923 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1793,7 +1793,8 @@ Parser::parseElementList(bool publicSection) {
          !lookahead[0].isa<TokenKind::Model>() &&
          !lookahead[0].isa<TokenKind::Package>() &&
          !lookahead[0].isa<TokenKind::Record>() &&
-         !lookahead[0].isa<TokenKind::External>()) {
+         !lookahead[0].isa<TokenKind::External>() &&
+         !lookahead[0].isa<TokenKind::Annotation>()) {
     TRY(member, parseElement(publicSection));
     EXPECT(TokenKind::Semicolon);
     members.push_back(std::move(*member));
-- 
2.43.0


From 70979bd8fa6706c596043cded0c91b749b230358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 35/83] fix: accept the pure, impure and operator classes as
 inner classes

---
 lib/Parser/BaseModelica/Parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 4773923..da4bd8d 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -256,8 +256,11 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
 
     if (lookahead[0].isa<TokenKind::Class>() ||
         lookahead[0].isa<TokenKind::Function>() ||
+        lookahead[0].isa<TokenKind::Impure>() ||
         lookahead[0].isa<TokenKind::Model>() ||
+        lookahead[0].isa<TokenKind::Operator>() ||
         lookahead[0].isa<TokenKind::Package>() ||
+        lookahead[0].isa<TokenKind::Pure>() ||
         lookahead[0].isa<TokenKind::Record>()) {
       TRY(innerClass, parseClassDefinition());
       innerClasses.emplace_back(std::move(*innerClass));
@@ -1790,8 +1793,11 @@ Parser::parseElementList(bool publicSection) {
          !lookahead[0].isa<TokenKind::End>() &&
          !lookahead[0].isa<TokenKind::Class>() &&
          !lookahead[0].isa<TokenKind::Function>() &&
+         !lookahead[0].isa<TokenKind::Impure>() &&
          !lookahead[0].isa<TokenKind::Model>() &&
+         !lookahead[0].isa<TokenKind::Operator>() &&
          !lookahead[0].isa<TokenKind::Package>() &&
+         !lookahead[0].isa<TokenKind::Pure>() &&
          !lookahead[0].isa<TokenKind::Record>() &&
          !lookahead[0].isa<TokenKind::External>() &&
          !lookahead[0].isa<TokenKind::Annotation>()) {
-- 
2.43.0


From 38c745318db828efd3b621cd543190301f347b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 36/83] fix: only functions can be declared as partial
 derivatives

---
 lib/Parser/BaseModelica/Parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index da4bd8d..daafe3a 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -187,9 +187,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseClassDefinition() {
   loc.end = name->getLocation().end;
   result->setLocation(loc);
 
-  if (accept<TokenKind::EqualityOperator>()) {
+  if (result->isa<StandardFunction>() &&
+      accept<TokenKind::EqualityOperator>()) {
     // Function derivative
-    assert(result->isa<StandardFunction>());
     EXPECT(TokenKind::Der);
     EXPECT(TokenKind::LPar);
 
-- 
2.43.0


From 988395052f2b5d9dcba76325ce48f5295b8afc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 37/83] fix: accept call statements without arguments

---
 lib/Parser/BaseModelica/Parser.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index daafe3a..570fe14 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -654,10 +654,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseStatement() {
 
   TRY(destination, parseComponentReference());
 
-  if (accept<TokenKind::LPar>()) {
+  if (lookahead[0].isa<TokenKind::LPar>()) {
     SourceRange loc = (*destination)->getLocation();
-    TRY(functionArguments, parseFunctionArguments());
-    EXPECT(TokenKind::RPar);
+    TRY(functionArguments, parseFunctionCallArgs());
 
     auto callee = std::make_unique<ComponentReference>(loc);
     loc.end = getLocation().end;
-- 
2.43.0


From 3ab322ebec73f170d383b78db5b40c6b117211e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 38/83] fix: accept array dimensions given by expressions
 starting with an integer

---
 lib/Parser/BaseModelica/Parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index 570fe14..f813176 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -1934,7 +1934,9 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseArrayDimension() {
 
   if (accept<TokenKind::Colon>()) {
     result->setSize(-1);
-  } else if (lookahead[0].isa<TokenKind::Integer>()) {
+  } else if (lookahead[0].isa<TokenKind::Integer>() &&
+             (lookahead[1].isa<TokenKind::Comma>() ||
+              lookahead[1].isa<TokenKind::RSquare>())) {
     result->setSize(lookahead[0].getInt());
     EXPECT(TokenKind::Integer);
   } else {
-- 
2.43.0


From 2f19ce8e67a3b6080677974c888b34d8d8bfbbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 39/83] fix: reject trailing commas in the arguments of
 external function calls

---
 lib/Parser/BaseModelica/Parser.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lib/Parser/BaseModelica/Parser.cpp b/lib/Parser/BaseModelica/Parser.cpp
index f813176..05c330b 100644
--- a/lib/Parser/BaseModelica/Parser.cpp
+++ b/lib/Parser/BaseModelica/Parser.cpp
@@ -378,13 +378,11 @@ ParseResult<std::unique_ptr<ASTNode>> Parser::parseExternalFunctionCall() {
   // Function arguments.
   llvm::SmallVector<std::unique_ptr<ASTNode>> args;
 
-  while (!lookahead[0].isa<TokenKind::RPar>()) {
-    TRY(arg, parseExpression());
-    args.push_back(std::move(*arg));
-
-    if (!lookahead[0].isa<TokenKind::RPar>()) {
-      EXPECT(TokenKind::Comma);
-    }
+  if (!lookahead[0].isa<TokenKind::RPar>()) {
+    do {
+      TRY(arg, parseExpression());
+      args.push_back(std::move(*arg));
+    } while (accept<TokenKind::Comma>());
   }
 
   result->setArguments(std::move(args));
-- 
2.43.0


From 63a5210d77c60df76f7818275cd5a70fe4cf924c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:16 +0000
Subject: [PATCH 40/83] fix: give WhenEquation nodes their own kind

The constructor tagged them as if-equations, so that cast<IfEquation>()
reinterpreted them as an unrelated class.
---
 lib/AST/BaseModelica/WhenEquation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/AST/BaseModelica/WhenEquation.cpp b/lib/AST/BaseModelica/WhenEquation.cpp
index e537bfc..aa8e2d0 100644
--- a/lib/AST/BaseModelica/WhenEquation.cpp
+++ b/lib/AST/BaseModelica/WhenEquation.cpp
@@ -6,7 +6,7 @@ using namespace ::marco::ast::bmodelica;
 
 namespace marco::ast::bmodelica {
 WhenEquation::WhenEquation(SourceRange location)
-    : Equation(ASTNodeKind::Equation_If, std::move(location)) {}
+    : Equation(ASTNodeKind::Equation_When, std::move(location)) {}
 
 WhenEquation::WhenEquation(const WhenEquation &other) : Equation(other) {
   setWhenCondition(other.whenCondition->clone());
-- 
2.43.0


From 3f0126c74c40f7de2c82819c3aadfb2482be4df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:16 +0000
Subject: [PATCH 41/83] fix: grow the right list when setting elseif / elsewhen
 equations

The body of the first elseif or elsewhen branch was written past the end of
an empty list.
---
 lib/AST/BaseModelica/IfEquation.cpp   | 4 ++--
 lib/AST/BaseModelica/WhenEquation.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/AST/BaseModelica/IfEquation.cpp b/lib/AST/BaseModelica/IfEquation.cpp
index 4f9b0c4..9a96319 100644
--- a/lib/AST/BaseModelica/IfEquation.cpp
+++ b/lib/AST/BaseModelica/IfEquation.cpp
@@ -156,8 +156,8 @@ const Equation *IfEquation::getElseIfEquation(size_t condition,
 
 void IfEquation::setElseIfEquations(
     size_t condition, llvm::ArrayRef<std::unique_ptr<ASTNode>> nodes) {
-  if (condition > ifEquations.size()) {
-    ifEquations.resize(condition + 1);
+  if (condition >= elseIfEquations.size()) {
+    elseIfEquations.resize(condition + 1);
   }
 
   elseIfEquations[condition].clear();
diff --git a/lib/AST/BaseModelica/WhenEquation.cpp b/lib/AST/BaseModelica/WhenEquation.cpp
index aa8e2d0..c62d2be 100644
--- a/lib/AST/BaseModelica/WhenEquation.cpp
+++ b/lib/AST/BaseModelica/WhenEquation.cpp
@@ -158,8 +158,8 @@ const Equation *WhenEquation::getElseWhenEquation(size_t condition,
 
 void WhenEquation::setElseWhenEquations(
     size_t condition, llvm::ArrayRef<std::unique_ptr<ASTNode>> nodes) {
-  if (condition > whenEquations.size()) {
-    whenEquations.resize(condition + 1);
+  if (condition >= elseWhenEquations.size()) {
+    elseWhenEquations.resize(condition + 1);
   }
 
   elseWhenEquations[condition].clear();
-- 
2.43.0


From 041d0035923dbe8dcb195247a03a3771a1240259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:16 +0000
Subject: [PATCH 42/83] fix: set the parent of the arguments of a copied class
 modification

---
 lib/AST/BaseModelica/Modification.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/AST/BaseModelica/Modification.cpp b/lib/AST/BaseModelica/Modification.cpp
index fbedeba..fcffdf4 100644
--- a/lib/AST/BaseModelica/Modification.cpp
+++ b/lib/AST/BaseModelica/Modification.cpp
@@ -127,9 +127,7 @@ ClassModification::ClassModification(SourceRange location)
 
 ClassModification::ClassModification(const ClassModification &other)
     : ASTNode(other) {
-  for (const auto &arg : other.arguments) {
-    this->arguments.push_back(arg->clone());
-  }
+  setArguments(other.arguments);
 }
 
 ClassModification::~ClassModification() = default;
-- 
2.43.0


From 04b6eb04bd0e3b6f9bbb670102e16d813142cfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:16 +0000
Subject: [PATCH 43/83] fix: do not truncate the array bounds of variable
 filters

A bound like 4294967295 was converted to -1, that is to no bound at all.
---
 include/marco/VariableFilter/Parser.h | 2 +-
 lib/VariableFilter/Parser.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/marco/VariableFilter/Parser.h b/include/marco/VariableFilter/Parser.h
index 6a07d2d..f540916 100644
--- a/include/marco/VariableFilter/Parser.h
+++ b/include/marco/VariableFilter/Parser.h
@@ -27,7 +27,7 @@ public:
 
   std::optional<Range> parseArrayRange();
 
-  std::optional<int> parseArrayIndex();
+  std::optional<int64_t> parseArrayIndex();
 
   std::optional<DerivativeExpression> parseDer();
 
diff --git a/lib/VariableFilter/Parser.cpp b/lib/VariableFilter/Parser.cpp
index e047c78..498b6cb 100644
--- a/lib/VariableFilter/Parser.cpp
+++ b/lib/VariableFilter/Parser.cpp
@@ -202,7 +202,7 @@ std::optional<Range> Parser::parseArrayRange() {
   return Range(*lowerBound, *upperBound);
 }
 
-std::optional<int> Parser::parseArrayIndex() {
+std::optional<int64_t> Parser::parseArrayIndex() {
   if (accept<TokenKind::Dollar>()) {
     return Range::kUnbounded;
   }
-- 
2.43.0


From 6f2d2f83fda32ee23e777930784526baf6eabbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:16 +0000
Subject: [PATCH 44/83] fix: reject the bounds of variable filters that can not
 be represented

---
 lib/VariableFilter/LexerStateMachine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/VariableFilter/LexerStateMachine.cpp b/lib/VariableFilter/LexerStateMachine.cpp
index 80e9b8d..d8ade3b 100644
--- a/lib/VariableFilter/LexerStateMachine.cpp
+++ b/lib/VariableFilter/LexerStateMachine.cpp
@@ -123,6 +123,12 @@ LexerStateMachine::scan<LexerStateMachine::State::ParsingNum>() {
   if (!isDigit(next)) {
     setTokenEndPosition();
     state = State::Normal;
+
+    if (numberLexer.hasOverflowed()) {
+      error = "Integer value too large";
+      return makeToken(TokenKind::Error, getError());
+    }
+
     return makeToken(TokenKind::Integer, getInt());
   }
 
-- 
2.43.0


From 7c65b9af2b14f13af1960a246c7e9cd9fad38e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:09 +0000
Subject: [PATCH 45/83] fix: recognise object files by their extension

Extensions are looked up without the leading dot.
---
 lib/IO/InputFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/IO/InputFile.cpp b/lib/IO/InputFile.cpp
index 8af8ff5..58747ff 100644
--- a/lib/IO/InputFile.cpp
+++ b/lib/IO/InputFile.cpp
@@ -33,7 +33,7 @@ InputKind InputKind::getFromExtension(llvm::StringRef extension) {
     return {Language::LLVM_IR, Format::Source};
   }
 
-  if (extension == ".o") {
+  if (extension == "o") {
     return {Language::Unknown, Format::Object};
   }
 
-- 
2.43.0


From 480e54c9c54af858e55811e822deb49cb10e7548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 46/83] fix: do not fold integer remainders by zero

The folding divided by zero, terminating the compiler.
---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index f436769..5cda474 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -7171,6 +7171,12 @@ mlir::OpFoldResult RemOp::fold(FoldAdaptor adaptor) {
     if (isScalarIntegerLike(x) && isScalarIntegerLike(y)) {
       int64_t xValue = getScalarIntegerLikeValue(x);
       int64_t yValue = getScalarIntegerLikeValue(y);
+
+      if (yValue == 0) {
+        // The remainder is not defined: leave the error to the execution.
+        return {};
+      }
+
       return getAttr(resultType, xValue % yValue);
     }
 
-- 
2.43.0


From 08054a1ccd68f8142b41eb8d39e53565f431b544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 47/83] fix: do not divide the divisor when distributing a
 multiplication

(a / b) * c was rewritten into a / (b / c), which is not defined when c is
null.
---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 36 -----------------------------
 1 file changed, 36 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index 5cda474..5ee2fdd 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -4717,7 +4717,6 @@ DivOp::distributeMulOp(llvm::SmallVectorImpl<mlir::Value> &results,
   mlir::Value rhs = getRhs();
 
   mlir::Operation *lhsOp = lhs.getDefiningOp();
-  mlir::Operation *rhsOp = rhs.getDefiningOp();
 
   if (lhsOp) {
     if (auto mulDistributionInt =
@@ -4736,23 +4735,6 @@ DivOp::distributeMulOp(llvm::SmallVectorImpl<mlir::Value> &results,
     }
   }
 
-  if (rhsOp) {
-    if (auto divDistributionInt =
-            mlir::dyn_cast<DivOpDistributionInterface>(rhsOp)) {
-      llvm::SmallVector<mlir::Value, 1> childResults;
-
-      if (mlir::succeeded(divDistributionInt.distributeDivOp(childResults,
-                                                             builder, value)) &&
-          childResults.size() == 1) {
-        rhs = childResults[0];
-
-        auto resultOp = builder.create<DivOp>(getLoc(), lhs, rhs);
-        results.push_back(resultOp.getResult());
-        return mlir::success();
-      }
-    }
-  }
-
   auto lhsNewOp = builder.create<MulOp>(getLoc(), lhs, value);
   lhs = lhsNewOp.getResult();
 
@@ -5030,7 +5012,6 @@ DivEWOp::distributeMulOp(llvm::SmallVectorImpl<mlir::Value> &results,
   mlir::Value rhs = getRhs();
 
   mlir::Operation *lhsOp = lhs.getDefiningOp();
-  mlir::Operation *rhsOp = rhs.getDefiningOp();
 
   if (lhsOp) {
     if (auto mulDistributionInt =
@@ -5049,23 +5030,6 @@ DivEWOp::distributeMulOp(llvm::SmallVectorImpl<mlir::Value> &results,
     }
   }
 
-  if (rhsOp) {
-    if (auto divDistributionInt =
-            mlir::dyn_cast<DivOpDistributionInterface>(rhsOp)) {
-      llvm::SmallVector<mlir::Value, 1> childResults;
-
-      if (mlir::succeeded(divDistributionInt.distributeDivOp(childResults,
-                                                             builder, value)) &&
-          childResults.size() == 1) {
-        rhs = childResults[0];
-
-        auto resultOp = builder.create<DivEWOp>(getLoc(), lhs, rhs);
-        results.push_back(resultOp.getResult());
-        return mlir::success();
-      }
-    }
-  }
-
   auto lhsNewOp = builder.create<MulOp>(getLoc(), lhs, value);
   lhs = lhsNewOp.getResult();
 
-- 
2.43.0


From a8853164d612807f5d1d8b9bda6bfb60792a32f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 48/83] fix: distribute only the multiplications by scalars

The product of matrices is not commutative: distributing the left factor
swapped it with the operands of the right one.
---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index 5ee2fdd..c6cdfa1 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -3938,7 +3938,10 @@ MulOp::distribute(llvm::SmallVectorImpl<mlir::Value> &results,
   mlir::Operation *lhsOp = lhs.getDefiningOp();
   mlir::Operation *rhsOp = rhs.getDefiningOp();
 
-  if (lhsOp) {
+  // The children multiply their own operands by the distributed value, in that
+  // order and before combining them: it must be a scalar for the result to be
+  // preserved.
+  if (lhsOp && isScalar(rhs.getType())) {
     if (auto mulDistributionInt =
             mlir::dyn_cast<MulOpDistributionInterface>(lhsOp)) {
       mlir::Value toDistribute = rhs;
@@ -3951,7 +3954,7 @@ MulOp::distribute(llvm::SmallVectorImpl<mlir::Value> &results,
     }
   }
 
-  if (rhsOp) {
+  if (rhsOp && isScalar(lhs.getType())) {
     if (auto mulDistributionInt =
             mlir::dyn_cast<MulOpDistributionInterface>(rhsOp)) {
       mlir::Value toDistribute = lhs;
@@ -4314,7 +4317,10 @@ MulEWOp::distribute(llvm::SmallVectorImpl<mlir::Value> &results,
   mlir::Operation *lhsOp = lhs.getDefiningOp();
   mlir::Operation *rhsOp = rhs.getDefiningOp();
 
-  if (lhsOp) {
+  // The children multiply their own operands by the distributed value, in that
+  // order and before combining them: it must be a scalar for the result to be
+  // preserved.
+  if (lhsOp && isScalar(rhs.getType())) {
     if (auto mulDistributionInt =
             mlir::dyn_cast<MulOpDistributionInterface>(lhsOp)) {
       mlir::Value toDistribute = rhs;
@@ -4327,7 +4333,7 @@ MulEWOp::distribute(llvm::SmallVectorImpl<mlir::Value> &results,
     }
   }
 
-  if (rhsOp) {
+  if (rhsOp && isScalar(lhs.getType())) {
     if (auto mulDistributionInt =
             mlir::dyn_cast<MulOpDistributionInterface>(rhsOp)) {
       mlir::Value toDistribute = lhs;
-- 
2.43.0


From b11af143543eb6a7422591c5ed214405381e2674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 49/83] fix: infer a real result for the elementwise division
 of integers

As for the other division, the quotient of two integers was truncated
otherwise.
---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index c6cdfa1..5a493d2 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -4807,6 +4807,16 @@ DivOp::distributeDivOp(llvm::SmallVectorImpl<mlir::Value> &results,
 // DivEWOp
 
 namespace mlir::bmodelica {
+static mlir::Type getQuotientScalarType(mlir::Type lhsType,
+                                        mlir::Type rhsType) {
+  // The quotient of two integers is a real number.
+  if (isScalarFloatLike(lhsType) || isScalarFloatLike(rhsType)) {
+    return getMostGenericScalarType(lhsType, rhsType);
+  }
+
+  return RealType::get(lhsType.getContext());
+}
+
 mlir::LogicalResult DivEWOp::inferReturnTypes(
     mlir::MLIRContext *context, std::optional<mlir::Location> location,
     mlir::ValueRange operands, mlir::DictionaryAttr attributes,
@@ -4817,7 +4827,7 @@ mlir::LogicalResult DivEWOp::inferReturnTypes(
   mlir::Type rhsType = adaptor.getRhs().getType();
 
   if (isScalar(lhsType) && isScalar(rhsType)) {
-    returnTypes.push_back(getMostGenericScalarType(lhsType, rhsType));
+    returnTypes.push_back(getQuotientScalarType(lhsType, rhsType));
     return mlir::success();
   }
 
@@ -4826,7 +4836,7 @@ mlir::LogicalResult DivEWOp::inferReturnTypes(
 
   if (isScalar(lhsType) && rhsShapedType) {
     mlir::Type resultElementType =
-        getMostGenericScalarType(lhsType, rhsShapedType.getElementType());
+        getQuotientScalarType(lhsType, rhsShapedType.getElementType());
 
     returnTypes.push_back(mlir::RankedTensorType::get(rhsShapedType.getShape(),
                                                       resultElementType));
@@ -4836,7 +4846,7 @@ mlir::LogicalResult DivEWOp::inferReturnTypes(
 
   if (lhsShapedType && isScalar(rhsType)) {
     mlir::Type resultElementType =
-        getMostGenericScalarType(lhsShapedType.getElementType(), rhsType);
+        getQuotientScalarType(lhsShapedType.getElementType(), rhsType);
 
     returnTypes.push_back(mlir::RankedTensorType::get(lhsShapedType.getShape(),
                                                       resultElementType));
@@ -4869,7 +4879,7 @@ mlir::LogicalResult DivEWOp::inferReturnTypes(
       }
     }
 
-    mlir::Type resultElementType = getMostGenericScalarType(
+    mlir::Type resultElementType = getQuotientScalarType(
         lhsShapedType.getElementType(), rhsShapedType.getElementType());
 
     returnTypes.push_back(
-- 
2.43.0


From a6587062d5a745f0a0e0d22a5f8729c922ebb9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 50/83] fix: support the product of an array by a scalar on its
 right

Only scalars on the left of the array were handled: for the others the
inference of the type of the result failed, terminating the compiler.
---
 .../BaseModelicaToLinalg/BaseModelicaToLinalg.cpp    |  4 ++++
 lib/Dialect/BaseModelica/IR/Ops.cpp                  | 12 +++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/Codegen/Conversion/BaseModelicaToLinalg/BaseModelicaToLinalg.cpp b/lib/Codegen/Conversion/BaseModelicaToLinalg/BaseModelicaToLinalg.cpp
index 4e0166f..9e34974 100644
--- a/lib/Codegen/Conversion/BaseModelicaToLinalg/BaseModelicaToLinalg.cpp
+++ b/lib/Codegen/Conversion/BaseModelicaToLinalg/BaseModelicaToLinalg.cpp
@@ -804,6 +804,10 @@ public:
     mlir::Value scalar = adaptor.getLhs();
     mlir::Value tensor = adaptor.getRhs();
 
+    if (mlir::isa<mlir::TensorType>(scalar.getType())) {
+      std::swap(scalar, tensor);
+    }
+
     auto tensorType = mlir::cast<mlir::TensorType>(tensor.getType());
 
     mlir::Type genericElementType =
diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index 5a493d2..fa89bb4 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -3806,6 +3806,16 @@ mlir::LogicalResult MulOp::inferReturnTypes(
     return mlir::success();
   }
 
+  if (lhsShapedType && isScalar(rhsType)) {
+    mlir::Type resultElementType =
+        getMostGenericScalarType(lhsShapedType.getElementType(), rhsType);
+
+    returnTypes.push_back(mlir::RankedTensorType::get(lhsShapedType.getShape(),
+                                                      resultElementType));
+
+    return mlir::success();
+  }
+
   if (lhsShapedType && rhsShapedType) {
     mlir::Type resultElementType = getMostGenericScalarType(
         lhsShapedType.getElementType(), rhsShapedType.getElementType());
@@ -4130,7 +4140,7 @@ MulOp::distributeDivOp(llvm::SmallVectorImpl<mlir::Value> &results,
 }
 
 bool MulOp::isScalarProduct() {
-  return !mlir::isa<mlir::TensorType>(getLhs().getType()) &&
+  return mlir::isa<mlir::TensorType>(getLhs().getType()) !=
          mlir::isa<mlir::TensorType>(getRhs().getType());
 }
 
-- 
2.43.0


From 26b6a5709e5385c3d57aa73e634f612c7f230a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 51/83] fix: fold into a scalar only the null products that are
 scalars

The product of a range by zero is still a range: no attribute could be built
for it.
---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index fa89bb4..336cd7c 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -3894,13 +3894,13 @@ mlir::OpFoldResult MulOp::fold(FoldAdaptor adaptor) {
   auto resultType = getResult().getType();
 
   if (lhs && isScalar(lhs) && getScalarAttributeValue<double>(lhs) == 0) {
-    if (!mlir::isa<mlir::ShapedType>(resultType)) {
+    if (isScalar(resultType)) {
       return getAttr(resultType, static_cast<int64_t>(0));
     }
   }
 
   if (rhs && isScalar(rhs) && getScalarAttributeValue<double>(rhs) == 0) {
-    if (!mlir::isa<mlir::ShapedType>(resultType)) {
+    if (isScalar(resultType)) {
       return getAttr(resultType, static_cast<int64_t>(0));
     }
   }
-- 
2.43.0


From c4862ca1b69d7c57c374528609e41d04fb11378b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 52/83] fix: give folded ranges the type of the operation

The sum of a range of indices and of an Integer was folded into a constant of
another type than the one of the operation.
---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index 336cd7c..0ee27ef 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -2517,7 +2517,7 @@ mlir::OpFoldResult AddOp::fold(FoldAdaptor adaptor) {
       int64_t upperBound = lhsRange.getUpperBound() + rhsValue;
       int64_t step = lhsRange.getStep();
 
-      return IntegerRangeAttr::get(getContext(), lhsRange.getType(), lowerBound,
+      return IntegerRangeAttr::get(getContext(), resultType, lowerBound,
                                    upperBound, step);
     }
 
@@ -3177,7 +3177,7 @@ mlir::OpFoldResult SubOp::fold(FoldAdaptor adaptor) {
       int64_t upperBound = lhsRange.getUpperBound() - rhsValue;
       int64_t step = lhsRange.getStep();
 
-      return IntegerRangeAttr::get(getContext(), lhsRange.getType(), lowerBound,
+      return IntegerRangeAttr::get(getContext(), resultType, lowerBound,
                                    upperBound, step);
     }
 
-- 
2.43.0


From 50e9c486ae6240218eef273a578af06a16803e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 53/83] fix: do not reorder the sums of a constant range
 endlessly

The folding of commutative operations moves the constant range to the right,
and the canonicalization pattern moved it back to the left forever.
---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index 0ee27ef..f89eda0 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -2,6 +2,7 @@
 #include "marco/Dialect/BaseModelica/IR/Dialect.h"
 #include "mlir/IR/Builders.h"
 #include "mlir/IR/BuiltinOps.h"
+#include "mlir/IR/Matchers.h"
 #include "mlir/IR/OpImplementation.h"
 #include "mlir/IR/PatternMatch.h"
 #include "mlir/Interfaces/FunctionImplementation.h"
@@ -2376,6 +2377,13 @@ struct AddOpRangeOrderingPattern : public mlir::OpRewritePattern<AddOp> {
                                          "Expected non-range and range types");
     }
 
+    // The constant operands of commutative operations are moved to the right:
+    // swapping them back would never end.
+    if (!mlir::matchPattern(lhs, mlir::m_Constant()) &&
+        mlir::matchPattern(rhs, mlir::m_Constant())) {
+      return rewriter.notifyMatchFailure(op, "Constant range");
+    }
+
     // Swap the operands.
     rewriter.replaceOpWithNewOp<AddOp>(op, op.getResult().getType(),
                                        op.getRhs(), op.getLhs());
-- 
2.43.0


From 0aced5ecff45dae7d1220d6cf8b0f25ab5de58f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 54/83] fix: compute the size of the ranges with no elements

The size of ranges like 3:1 was negative, and the one of 1:2:0 was 1.
---
 lib/Dialect/BaseModelica/IR/Attributes.cpp |  8 +++++---
 lib/Dialect/BaseModelica/IR/Ops.cpp        | 15 +++++++++++++--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Attributes.cpp b/lib/Dialect/BaseModelica/IR/Attributes.cpp
index bb68f16..e4fbb4b 100644
--- a/lib/Dialect/BaseModelica/IR/Attributes.cpp
+++ b/lib/Dialect/BaseModelica/IR/Attributes.cpp
@@ -633,7 +633,8 @@ void IntegerRangeAttr::print(mlir::AsmPrinter &printer) const {
 }
 
 int64_t IntegerRangeAttr::getNumOfElements() const {
-  return 1 + (getUpperBound() - getLowerBound()) / getStep();
+  return std::max<int64_t>(
+      0, (getUpperBound() - getLowerBound() + getStep()) / getStep());
 }
 
 //===-------------------------------------------------------------------===//
@@ -681,7 +682,8 @@ void RealRangeAttr::print(mlir::AsmPrinter &printer) const {
 }
 
 int64_t RealRangeAttr::getNumOfElements() const {
-  llvm::APFloat result = ((getUpperBound() - getLowerBound()) / getStep());
-  return 1 + static_cast<int64_t>(result.convertToDouble());
+  llvm::APFloat result =
+      (getUpperBound() - getLowerBound() + getStep()) / getStep();
+  return static_cast<int64_t>(std::max(0.0, result.convertToDouble()));
 }
 } // namespace mlir::bmodelica
diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index f89eda0..995682d 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -417,7 +417,13 @@ mlir::OpFoldResult RangeSizeOp::fold(FoldAdaptor adaptor) {
     int64_t beginValue = intRange.getLowerBound();
     int64_t endValue = intRange.getUpperBound();
     int64_t step = intRange.getStep();
-    int64_t result = 1 + (endValue - beginValue) / step;
+
+    if (step == 0) {
+      return {};
+    }
+
+    int64_t result =
+        std::max<int64_t>(0, (endValue - beginValue + step) / step);
 
     return mlir::IntegerAttr::get(mlir::IndexType::get(getContext()), result);
   }
@@ -426,7 +432,12 @@ mlir::OpFoldResult RangeSizeOp::fold(FoldAdaptor adaptor) {
     double beginValue = realRange.getLowerBound().convertToDouble();
     double endValue = realRange.getUpperBound().convertToDouble();
     double step = realRange.getStep().convertToDouble();
-    double result = 1 + (endValue - beginValue) / step;
+
+    if (step == 0) {
+      return {};
+    }
+
+    double result = std::max(0.0, (endValue - beginValue + step) / step);
 
     return mlir::IntegerAttr::get(mlir::IndexType::get(getContext()),
                                   static_cast<int64_t>(result));
-- 
2.43.0


From 25da898229f72c7e5bf654eb65e41239eb6c690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 55/83] fix: do not replace the null powers of matrices by
 scalars

A power with a null exponent was replaced by the scalar 1, or folded into the
scalar 0, also when its result is a matrix.
---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index 995682d..dda8c5b 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -5153,6 +5153,11 @@ struct PowConstantExponentPattern : public mlir::OpRewritePattern<PowOp> {
 
     if (isScalarConstant(exponent)) {
       mlir::Value replacement = createReplacement(rewriter, base);
+
+      if (!replacement) {
+        return mlir::failure();
+      }
+
       replacement = castIfNeeded(rewriter, replacement, op.getType());
       rewriter.replaceOp(op, replacement);
       return mlir::success();
@@ -5206,6 +5211,11 @@ struct PowExponentZeroPattern : public PowConstantExponentPattern<0> {
 
   mlir::Value createReplacement(mlir::RewriterBase &rewriter,
                                 mlir::Value base) const override {
+    if (!isScalar(base.getType())) {
+      // The result is the identity matrix.
+      return nullptr;
+    }
+
     return rewriter.create<ConstantOp>(
         base.getLoc(), IntegerAttr::get(rewriter.getContext(), 1));
   }
@@ -5309,11 +5319,6 @@ mlir::OpFoldResult PowOp::fold(FoldAdaptor adaptor) {
     }
   }
 
-  if (exponent && isScalar(exponent) &&
-      getScalarAttributeValue<double>(exponent) == 0) {
-    return getAttr(resultType, static_cast<int64_t>(0));
-  }
-
   if (exponent && isScalar(exponent) &&
       getScalarAttributeValue<double>(exponent) == 1) {
     return base;
-- 
2.43.0


From 1cda25cd17892cda14fc79e92866293efbfd4354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 56/83] fix: do not append subscripts to the ones that are
 ranges

Merging the views of an array concatenated their subscripts. A range keeps its
dimension, so the subscripts of the outer view were applied to the wrong ones:
the second element of x[2:3] became x[2:3, 2].
---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index dda8c5b..a51f9a0 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -175,6 +175,15 @@ bool getScalarAttributesValues(llvm::ArrayRef<mlir::Attribute> attributes,
 }
 } // namespace
 
+/// Check whether the dimensions following the given subscripts can be
+/// subscripted by appending other ones, that is, whether none of the subscripts
+/// keeps the dimension it applies to.
+static bool areAppendableSubscripts(mlir::ValueRange subscripts) {
+  return llvm::none_of(subscripts, [](mlir::Value subscript) {
+    return mlir::isa<IterableTypeInterface>(subscript.getType());
+  });
+}
+
 static mlir::LogicalResult
 cleanEquationTemplates(mlir::RewriterBase &rewriter,
                        llvm::ArrayRef<EquationTemplateOp> templateOps) {
@@ -554,13 +563,13 @@ struct MergeTensorViewsPattern : public mlir::OpRewritePattern<TensorViewOp> {
                   mlir::PatternRewriter &rewriter) const override {
     auto viewOp = op.getSource().getDefiningOp<TensorViewOp>();
 
-    if (!viewOp) {
+    if (!viewOp || !areAppendableSubscripts(viewOp.getSubscriptions())) {
       return mlir::failure();
     }
 
     llvm::SmallVector<TensorViewOp> viewOps;
 
-    while (viewOp) {
+    while (viewOp && areAppendableSubscripts(viewOp.getSubscriptions())) {
       viewOps.push_back(viewOp);
       viewOp = viewOp.getSource().getDefiningOp<TensorViewOp>();
     }
@@ -669,13 +678,13 @@ struct MergeTensorViewIntoTensorExtractPattern
                   mlir::PatternRewriter &rewriter) const override {
     auto viewOp = op.getTensor().getDefiningOp<TensorViewOp>();
 
-    if (!viewOp) {
+    if (!viewOp || !areAppendableSubscripts(viewOp.getSubscriptions())) {
       return mlir::failure();
     }
 
     llvm::SmallVector<TensorViewOp> viewOps;
 
-    while (viewOp) {
+    while (viewOp && areAppendableSubscripts(viewOp.getSubscriptions())) {
       viewOps.push_back(viewOp);
       viewOp = viewOp.getSource().getDefiningOp<TensorViewOp>();
     }
@@ -1199,13 +1208,15 @@ struct MergeSubscriptionsPattern
                   mlir::PatternRewriter &rewriter) const override {
     auto subscriptionOp = op.getSource().getDefiningOp<SubscriptionOp>();
 
-    if (!subscriptionOp) {
+    if (!subscriptionOp ||
+        !areAppendableSubscripts(subscriptionOp.getIndices())) {
       return mlir::failure();
     }
 
     llvm::SmallVector<SubscriptionOp> subscriptionOps;
 
-    while (subscriptionOp) {
+    while (subscriptionOp &&
+           areAppendableSubscripts(subscriptionOp.getIndices())) {
       subscriptionOps.push_back(subscriptionOp);
 
       subscriptionOp =
-- 
2.43.0


From aeb1ea0189820c4c4ee33b20adf12dd78a88c2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:55 +0000
Subject: [PATCH 57/83] fix: accept constant subscripts of dimensions of
 unknown size

The placeholder for the sizes known only at runtime is a negative number:
every constant index was reported to be out of bounds.
---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index a51f9a0..acddd58 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -746,7 +746,7 @@ mlir::LogicalResult TensorExtractOp::verify() {
         }
 
         if (int64_t dimSize = getTensor().getType().getDimSize(i);
-            *index >= dimSize) {
+            dimSize != mlir::ShapedType::kDynamic && *index >= dimSize) {
           return emitOpError() << "out of bounds access (index = " << *index
                                << ", dimension = " << dimSize << ")";
         }
@@ -1049,7 +1049,8 @@ mlir::LogicalResult LoadOp::verify() {
           return emitOpError() << "invalid index (" << *index << ")";
         }
 
-        if (int64_t dimSize = getArrayType().getDimSize(i); *index >= dimSize) {
+        if (int64_t dimSize = getArrayType().getDimSize(i);
+            dimSize != mlir::ShapedType::kDynamic && *index >= dimSize) {
           return emitOpError() << "out of bounds access (index = " << *index
                                << ", dimension = " << dimSize << ")";
         }
@@ -1147,7 +1148,8 @@ mlir::LogicalResult StoreOp::verify() {
           return emitOpError() << "invalid index (" << *index << ")";
         }
 
-        if (int64_t dimSize = getArrayType().getDimSize(i); *index >= dimSize) {
+        if (int64_t dimSize = getArrayType().getDimSize(i);
+            dimSize != mlir::ShapedType::kDynamic && *index >= dimSize) {
           return emitOpError() << "out of bounds access (index = " << *index
                                << ", dimension = " << dimSize << ")";
         }
-- 
2.43.0


From 3547abd1787dc9aa9a2450cc06c9cb1cad9b910e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 58/83] fix: do not overflow when folding remainders

The remainder of the smallest integer by -1 terminated the compiler.
---
 lib/Dialect/BaseModelica/IR/Ops.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Dialect/BaseModelica/IR/Ops.cpp b/lib/Dialect/BaseModelica/IR/Ops.cpp
index acddd58..79484ed 100644
--- a/lib/Dialect/BaseModelica/IR/Ops.cpp
+++ b/lib/Dialect/BaseModelica/IR/Ops.cpp
@@ -7204,6 +7204,11 @@ mlir::OpFoldResult RemOp::fold(FoldAdaptor adaptor) {
         return {};
       }
 
+      if (yValue == -1) {
+        // Avoid the overflow of the smallest number.
+        return getAttr(resultType, static_cast<int64_t>(0));
+      }
+
       return getAttr(resultType, xValue % yValue);
     }
 
-- 
2.43.0


From e16a5d8f593fd26b9f3abcb1069f0ff8356998b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 59/83] fix: convert true to 1 when casting Booleans to indices

---
 .../BaseModelicaToArith/BaseModelicaToArith.cpp           | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp b/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp
index 05c6ef8..1ca4336 100644
--- a/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp
+++ b/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp
@@ -99,6 +99,14 @@ struct CastOpIntegerLowering : public mlir::OpConversionPattern<CastOp> {
         getTypeConverter()->convertType(op.getResult().getType());
 
     if (mlir::isa<mlir::IndexType>(resultType)) {
+      if (operandType.isInteger(1)) {
+        // Booleans are unsigned.
+        rewriter.replaceOpWithNewOp<mlir::arith::IndexCastUIOp>(op, resultType,
+                                                                operand);
+
+        return mlir::success();
+      }
+
       rewriter.replaceOpWithNewOp<mlir::arith::IndexCastOp>(op, resultType,
                                                             operand);
 
-- 
2.43.0


From 08cd72fdde71d778d54aed899595c5c64be6eea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 60/83] fix: do not ask for the bit width of indices when
 casting Reals

---
 .../Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp b/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp
index 1ca4336..414417f 100644
--- a/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp
+++ b/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp
@@ -176,7 +176,10 @@ struct CastOpFloatLowering : public mlir::OpConversionPattern<CastOp> {
 
     mlir::Value result = operand;
     auto bitWidth = result.getType().getIntOrFloatBitWidth();
-    auto requestedBitWidth = resultType.getIntOrFloatBitWidth();
+    unsigned int requestedBitWidth =
+        mlir::isa<mlir::IndexType>(resultType)
+            ? mlir::IndexType::kInternalStorageBitWidth
+            : resultType.getIntOrFloatBitWidth();
 
     if (mlir::isa<mlir::IndexType, mlir::IntegerType>(resultType)) {
       if (bitWidth == 1) {
-- 
2.43.0


From 7992545c958b777ecca8571fd9172de0c4e63e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 61/83] fix: start the max reductions from the lowest number

---
 .../Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp b/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp
index 414417f..fdc350a 100644
--- a/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp
+++ b/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp
@@ -1921,7 +1921,7 @@ private:
 
         if (bitWidth == 32) {
           mlir::Attribute value = builder.getFloatAttr(
-              resultType, std::numeric_limits<float>::min());
+              resultType, std::numeric_limits<float>::lowest());
 
           initialValues.push_back(builder.create<ConstantOp>(loc, value));
           return mlir::success();
@@ -1929,7 +1929,7 @@ private:
 
         if (bitWidth == 64) {
           mlir::Attribute value = builder.getFloatAttr(
-              resultType, std::numeric_limits<double>::min());
+              resultType, std::numeric_limits<double>::lowest());
 
           initialValues.push_back(builder.create<ConstantOp>(loc, value));
           return mlir::success();
-- 
2.43.0


From 9b14debe389f6f619dd61401ab0469fd19136a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 62/83] fix: compute exponentials and logarithms of integers as
 Reals

---
 .../BaseModelicaToRuntimeCall.cpp                    | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/Codegen/Conversion/BaseModelicaToRuntimeCall/BaseModelicaToRuntimeCall.cpp b/lib/Codegen/Conversion/BaseModelicaToRuntimeCall/BaseModelicaToRuntimeCall.cpp
index 9f73181..4a40f34 100644
--- a/lib/Codegen/Conversion/BaseModelicaToRuntimeCall/BaseModelicaToRuntimeCall.cpp
+++ b/lib/Codegen/Conversion/BaseModelicaToRuntimeCall/BaseModelicaToRuntimeCall.cpp
@@ -924,6 +924,10 @@ struct ExpOpLowering : public RuntimeOpConversionPattern<ExpOp> {
       return rewriter.notifyMatchFailure(op, "Incompatible operand");
     }
 
+    if (!mlir::isa<mlir::FloatType>(exponent.getType())) {
+      exponent = rewriter.create<CastOp>(loc, rewriter.getF64Type(), exponent);
+    }
+
     llvm::SmallVector<mlir::Value, 1> arguments;
 
     if (mlir::failed(addCallArgument(rewriter, loc, arguments, exponent))) {
@@ -1205,6 +1209,10 @@ struct LogOpLowering : public RuntimeOpConversionPattern<LogOp> {
       return rewriter.notifyMatchFailure(op, "Incompatible operand");
     }
 
+    if (!mlir::isa<mlir::FloatType>(operand.getType())) {
+      operand = rewriter.create<CastOp>(loc, rewriter.getF64Type(), operand);
+    }
+
     llvm::SmallVector<mlir::Value, 1> arguments;
 
     if (mlir::failed(addCallArgument(rewriter, loc, arguments, operand))) {
@@ -1250,6 +1258,10 @@ struct Log10OpLowering : public RuntimeOpConversionPattern<Log10Op> {
       return rewriter.notifyMatchFailure(op, "Incompatible operand");
     }
 
+    if (!mlir::isa<mlir::FloatType>(operand.getType())) {
+      operand = rewriter.create<CastOp>(loc, rewriter.getF64Type(), operand);
+    }
+
     llvm::SmallVector<mlir::Value, 1> arguments;
 
     if (mlir::failed(addCallArgument(rewriter, loc, arguments, operand))) {
-- 
2.43.0


From f802ecdfed636f3b1aa6320cf3b9c7aec8baf6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:39 +0000
Subject: [PATCH 63/83] fix: convert the operands of element-wise operations
 mixing scalars and tensors

---
 .../BaseModelicaToLinalg.cpp                  | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/lib/Codegen/Conversion/BaseModelicaToLinalg/BaseModelicaToLinalg.cpp b/lib/Codegen/Conversion/BaseModelicaToLinalg/BaseModelicaToLinalg.cpp
index 9e34974..1156802 100644
--- a/lib/Codegen/Conversion/BaseModelicaToLinalg/BaseModelicaToLinalg.cpp
+++ b/lib/Codegen/Conversion/BaseModelicaToLinalg/BaseModelicaToLinalg.cpp
@@ -497,6 +497,11 @@ public:
           tensor.getLoc(), tensorType.clone(genericElementType), tensor);
     }
 
+    if (scalar.getType() != genericElementType) {
+      scalar =
+          rewriter.create<CastOp>(scalar.getLoc(), genericElementType, scalar);
+    }
+
     llvm::SmallVector<mlir::Value, 10> dynamicSizes;
 
     collectDynamicDimensionSizes(rewriter, tensor,
@@ -705,9 +710,9 @@ public:
     inputs.push_back(rhs);
 
     mlir::Value destination = rewriter.create<mlir::tensor::EmptyOp>(
-        loc, rhsTensorType, dynamicSizes);
+        loc, rhs.getType(), dynamicSizes);
 
-    auto subOp = rewriter.create<mlir::linalg::SubOp>(loc, rhsTensorType,
+    auto subOp = rewriter.create<mlir::linalg::SubOp>(loc, rhs.getType(),
                                                       inputs, destination);
 
     mlir::Value result = subOp.getResult(0);
@@ -768,9 +773,9 @@ public:
     inputs.push_back(splatOp);
 
     mlir::Value destination = rewriter.create<mlir::tensor::EmptyOp>(
-        loc, lhsTensorType, dynamicSizes);
+        loc, lhs.getType(), dynamicSizes);
 
-    auto subOp = rewriter.create<mlir::linalg::SubOp>(loc, lhsTensorType,
+    auto subOp = rewriter.create<mlir::linalg::SubOp>(loc, lhs.getType(),
                                                       inputs, destination);
 
     mlir::Value result = subOp.getResult(0);
@@ -818,6 +823,11 @@ public:
           tensor.getLoc(), tensorType.clone(genericElementType), tensor);
     }
 
+    if (scalar.getType() != genericElementType) {
+      scalar =
+          rewriter.create<CastOp>(scalar.getLoc(), genericElementType, scalar);
+    }
+
     llvm::SmallVector<mlir::Value, 10> dynamicSizes;
 
     collectDynamicDimensionSizes(rewriter, tensor,
@@ -1190,6 +1200,11 @@ public:
           tensor.getLoc(), tensorType.clone(genericElementType), tensor);
     }
 
+    if (scalar.getType() != genericElementType) {
+      scalar =
+          rewriter.create<CastOp>(scalar.getLoc(), genericElementType, scalar);
+    }
+
     llvm::SmallVector<mlir::Value, 10> dynamicSizes;
 
     collectDynamicDimensionSizes(rewriter, tensor,
-- 
2.43.0


From 74c402f5ecace7c2d158bfc202f8f419bfa98bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 64/83] fix: mangle the index type without recursing forever

---
 .../BaseModelicaToRuntimeCall/BaseModelicaToRuntimeCall.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Codegen/Conversion/BaseModelicaToRuntimeCall/BaseModelicaToRuntimeCall.cpp b/lib/Codegen/Conversion/BaseModelicaToRuntimeCall/BaseModelicaToRuntimeCall.cpp
index 4a40f34..bb60082 100644
--- a/lib/Codegen/Conversion/BaseModelicaToRuntimeCall/BaseModelicaToRuntimeCall.cpp
+++ b/lib/Codegen/Conversion/BaseModelicaToRuntimeCall/BaseModelicaToRuntimeCall.cpp
@@ -152,8 +152,10 @@ protected:
   }
 
   [[nodiscard]] std::string getMangledType(mlir::Type type) const {
-    if (auto indexType = mlir::dyn_cast<mlir::IndexType>(type)) {
-      return getMangledType(this->getTypeConverter()->convertType(type));
+    if (mlir::isa<mlir::IndexType>(type)) {
+      // Indices are passed as integers.
+      return getMangler()->getIntegerType(
+          mlir::IndexType::kInternalStorageBitWidth);
     }
 
     if (auto integerType = mlir::dyn_cast<mlir::IntegerType>(type)) {
-- 
2.43.0


From 8afc50a58f114ce7353afebe9179d9d3d91d583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 65/83] fix: lower the element-wise subtraction of scalars to a
 subtraction

---
 .../Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp b/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp
index fdc350a..a8b7527 100644
--- a/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp
+++ b/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp
@@ -1435,7 +1435,7 @@ struct SubEWOpLowering : public mlir::OpConversionPattern<SubEWOp> {
           op, "Incompatible right-hand side operand");
     }
 
-    rewriter.replaceOpWithNewOp<AddOp>(op, op.getResult().getType(),
+    rewriter.replaceOpWithNewOp<SubOp>(op, op.getResult().getType(),
                                        op.getLhs(), op.getRhs());
 
     return mlir::success();
-- 
2.43.0


From deb214f22ae0c4a39bfaf169108cbee9cf6ec644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 66/83] fix: order Booleans as false < true

---
 .../BaseModelicaToArith.cpp                   | 32 ++++++++++++++-----
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp b/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp
index a8b7527..f248401 100644
--- a/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp
+++ b/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp
@@ -424,9 +424,13 @@ struct GtOpLowering : public mlir::OpConversionPattern<GtOp> {
         getTypeConverter()->convertType(op.getResult().getType());
 
     if (mlir::isa<mlir::IndexType, mlir::IntegerType>(genericType)) {
+      // Booleans are unsigned.
+      auto predicate = genericType.isInteger(1)
+                           ? mlir::arith::CmpIPredicate::ugt
+                           : mlir::arith::CmpIPredicate::sgt;
+
       mlir::Value result = rewriter.create<mlir::arith::CmpIOp>(
-          loc, rewriter.getIntegerType(1), mlir::arith::CmpIPredicate::sgt, lhs,
-          rhs);
+          loc, rewriter.getIntegerType(1), predicate, lhs, rhs);
 
       if (result.getType() != requestedResultType) {
         result = rewriter.create<CastOp>(loc, requestedResultType, result);
@@ -491,9 +495,13 @@ struct GteOpLowering : public mlir::OpConversionPattern<GteOp> {
         getTypeConverter()->convertType(op.getResult().getType());
 
     if (mlir::isa<mlir::IndexType, mlir::IntegerType>(genericType)) {
+      // Booleans are unsigned.
+      auto predicate = genericType.isInteger(1)
+                           ? mlir::arith::CmpIPredicate::uge
+                           : mlir::arith::CmpIPredicate::sge;
+
       mlir::Value result = rewriter.create<mlir::arith::CmpIOp>(
-          loc, rewriter.getIntegerType(1), mlir::arith::CmpIPredicate::sge, lhs,
-          rhs);
+          loc, rewriter.getIntegerType(1), predicate, lhs, rhs);
 
       if (result.getType() != requestedResultType) {
         result = rewriter.create<CastOp>(loc, requestedResultType, result);
@@ -558,9 +566,13 @@ struct LtOpLowering : public mlir::OpConversionPattern<LtOp> {
         getTypeConverter()->convertType(op.getResult().getType());
 
     if (mlir::isa<mlir::IndexType, mlir::IntegerType>(genericType)) {
+      // Booleans are unsigned.
+      auto predicate = genericType.isInteger(1)
+                           ? mlir::arith::CmpIPredicate::ult
+                           : mlir::arith::CmpIPredicate::slt;
+
       mlir::Value result = rewriter.create<mlir::arith::CmpIOp>(
-          loc, rewriter.getIntegerType(1), mlir::arith::CmpIPredicate::slt, lhs,
-          rhs);
+          loc, rewriter.getIntegerType(1), predicate, lhs, rhs);
 
       if (result.getType() != requestedResultType) {
         result = rewriter.create<CastOp>(loc, requestedResultType, result);
@@ -625,9 +637,13 @@ struct LteOpLowering : public mlir::OpConversionPattern<LteOp> {
         getTypeConverter()->convertType(op.getResult().getType());
 
     if (mlir::isa<mlir::IndexType, mlir::IntegerType>(genericType)) {
+      // Booleans are unsigned.
+      auto predicate = genericType.isInteger(1)
+                           ? mlir::arith::CmpIPredicate::ule
+                           : mlir::arith::CmpIPredicate::sle;
+
       mlir::Value result = rewriter.create<mlir::arith::CmpIOp>(
-          loc, rewriter.getIntegerType(1), mlir::arith::CmpIPredicate::sle, lhs,
-          rhs);
+          loc, rewriter.getIntegerType(1), predicate, lhs, rhs);
 
       if (result.getType() != requestedResultType) {
         result = rewriter.create<CastOp>(loc, requestedResultType, result);
-- 
2.43.0


From 1e05ec9f8686f3cb750f0e0c1a5ca2a86e920943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 67/83] fix: compute the mathematical functions of integers as
 Reals inside of element-wise operations

---
 .../BaseModelicaToRuntimeCall.cpp             | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/Codegen/Conversion/BaseModelicaToRuntimeCall/BaseModelicaToRuntimeCall.cpp b/lib/Codegen/Conversion/BaseModelicaToRuntimeCall/BaseModelicaToRuntimeCall.cpp
index bb60082..31887db 100644
--- a/lib/Codegen/Conversion/BaseModelicaToRuntimeCall/BaseModelicaToRuntimeCall.cpp
+++ b/lib/Codegen/Conversion/BaseModelicaToRuntimeCall/BaseModelicaToRuntimeCall.cpp
@@ -416,7 +416,7 @@ struct AcosOpLowering : public RuntimeOpConversionPattern<AcosOp> {
 
     llvm::SmallVector<mlir::Value, 1> arguments;
 
-    if (!mlir::isa<mlir::FloatType>(op.getType()) ||
+    if (!mlir::isa<mlir::FloatType>(operand.getType()) ||
         (operand.getType().getIntOrFloatBitWidth() != 32 &&
          operand.getType().getIntOrFloatBitWidth() != 64)) {
       operand = rewriter.create<CastOp>(loc, rewriter.getF64Type(), operand);
@@ -467,7 +467,7 @@ struct AsinOpLowering : public RuntimeOpConversionPattern<AsinOp> {
 
     llvm::SmallVector<mlir::Value, 1> arguments;
 
-    if (!mlir::isa<mlir::FloatType>(op.getType()) ||
+    if (!mlir::isa<mlir::FloatType>(operand.getType()) ||
         (operand.getType().getIntOrFloatBitWidth() != 32 &&
          operand.getType().getIntOrFloatBitWidth() != 64)) {
       operand = rewriter.create<CastOp>(loc, rewriter.getF64Type(), operand);
@@ -518,7 +518,7 @@ struct AtanOpLowering : public RuntimeOpConversionPattern<AtanOp> {
 
     llvm::SmallVector<mlir::Value, 1> arguments;
 
-    if (!mlir::isa<mlir::FloatType>(op.getType()) ||
+    if (!mlir::isa<mlir::FloatType>(operand.getType()) ||
         (operand.getType().getIntOrFloatBitWidth() != 32 &&
          operand.getType().getIntOrFloatBitWidth() != 64)) {
       operand = rewriter.create<CastOp>(loc, rewriter.getF64Type(), operand);
@@ -685,7 +685,7 @@ struct CosOpLowering : public RuntimeOpConversionPattern<CosOp> {
 
     llvm::SmallVector<mlir::Value, 1> arguments;
 
-    if (!mlir::isa<mlir::FloatType>(op.getType()) ||
+    if (!mlir::isa<mlir::FloatType>(operand.getType()) ||
         (operand.getType().getIntOrFloatBitWidth() != 32 &&
          operand.getType().getIntOrFloatBitWidth() != 64)) {
       operand = rewriter.create<CastOp>(loc, rewriter.getF64Type(), operand);
@@ -736,7 +736,7 @@ struct CoshOpLowering : public RuntimeOpConversionPattern<CoshOp> {
 
     llvm::SmallVector<mlir::Value, 1> arguments;
 
-    if (!mlir::isa<mlir::FloatType>(op.getType()) ||
+    if (!mlir::isa<mlir::FloatType>(operand.getType()) ||
         (operand.getType().getIntOrFloatBitWidth() != 32 &&
          operand.getType().getIntOrFloatBitWidth() != 64)) {
       operand = rewriter.create<CastOp>(loc, rewriter.getF64Type(), operand);
@@ -1829,7 +1829,7 @@ struct SinOpLowering : public RuntimeOpConversionPattern<SinOp> {
 
     llvm::SmallVector<mlir::Value, 1> arguments;
 
-    if (!mlir::isa<mlir::FloatType>(op.getType()) ||
+    if (!mlir::isa<mlir::FloatType>(operand.getType()) ||
         (operand.getType().getIntOrFloatBitWidth() != 32 &&
          operand.getType().getIntOrFloatBitWidth() != 64)) {
       operand = rewriter.create<CastOp>(loc, rewriter.getF64Type(), operand);
@@ -1880,7 +1880,7 @@ struct SinhOpLowering : public RuntimeOpConversionPattern<SinhOp> {
 
     llvm::SmallVector<mlir::Value, 1> arguments;
 
-    if (!mlir::isa<mlir::FloatType>(op.getType()) ||
+    if (!mlir::isa<mlir::FloatType>(operand.getType()) ||
         (operand.getType().getIntOrFloatBitWidth() != 32 &&
          operand.getType().getIntOrFloatBitWidth() != 64)) {
       operand = rewriter.create<CastOp>(loc, rewriter.getF64Type(), operand);
@@ -1931,7 +1931,7 @@ struct SqrtOpLowering : public RuntimeOpConversionPattern<SqrtOp> {
 
     llvm::SmallVector<mlir::Value, 1> arguments;
 
-    if (!mlir::isa<mlir::FloatType>(op.getType()) ||
+    if (!mlir::isa<mlir::FloatType>(operand.getType()) ||
         (operand.getType().getIntOrFloatBitWidth() != 32 &&
          operand.getType().getIntOrFloatBitWidth() != 64)) {
       operand = rewriter.create<CastOp>(loc, rewriter.getF64Type(), operand);
@@ -2093,7 +2093,7 @@ struct TanOpLowering : public RuntimeOpConversionPattern<TanOp> {
 
     llvm::SmallVector<mlir::Value, 1> arguments;
 
-    if (!mlir::isa<mlir::FloatType>(op.getType()) ||
+    if (!mlir::isa<mlir::FloatType>(operand.getType()) ||
         (operand.getType().getIntOrFloatBitWidth() != 32 &&
          operand.getType().getIntOrFloatBitWidth() != 64)) {
       operand = rewriter.create<CastOp>(loc, rewriter.getF64Type(), operand);
@@ -2144,7 +2144,7 @@ struct TanhOpLowering : public RuntimeOpConversionPattern<TanhOp> {
 
     llvm::SmallVector<mlir::Value, 1> arguments;
 
-    if (!mlir::isa<mlir::FloatType>(op.getType()) ||
+    if (!mlir::isa<mlir::FloatType>(operand.getType()) ||
         (operand.getType().getIntOrFloatBitWidth() != 32 &&
          operand.getType().getIntOrFloatBitWidth() != 64)) {
       operand = rewriter.create<CastOp>(loc, rewriter.getF64Type(), operand);
-- 
2.43.0


From 8ec0098f8de0891d0c35df27d9cd8f929ccbeec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:51 +0000
Subject: [PATCH 68/83] fix: lower the element-wise operations among scalars

---
 .../Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp b/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp
index f248401..af0b750 100644
--- a/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp
+++ b/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp
@@ -2182,7 +2182,7 @@ void populateBaseModelicaToArithConversionPatterns(
       typeConverter, context);
 
   patterns.insert<AddEWOpLowering, SubEWOpLowering, MulEWOpLowering,
-                  DivEWOpLowering>(context);
+                  DivEWOpLowering>(typeConverter, context);
 
   // TODO use runtime library
   // patterns.insert<
-- 
2.43.0


From 7b73ab52e3247d38ff937dcec0eea3990636f863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:14 +0000
Subject: [PATCH 69/83] fix: divide arrays of integers as Reals when the result
 is made of Reals

---
 .../BaseModelicaToLinalg.cpp                  | 41 +++++++++++++++++--
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/lib/Codegen/Conversion/BaseModelicaToLinalg/BaseModelicaToLinalg.cpp b/lib/Codegen/Conversion/BaseModelicaToLinalg/BaseModelicaToLinalg.cpp
index 1156802..e10907f 100644
--- a/lib/Codegen/Conversion/BaseModelicaToLinalg/BaseModelicaToLinalg.cpp
+++ b/lib/Codegen/Conversion/BaseModelicaToLinalg/BaseModelicaToLinalg.cpp
@@ -1302,11 +1302,23 @@ public:
     mlir::Type genericElementType =
         getMostGenericScalarType(tensorType.getElementType(), scalar.getType());
 
+    // The quotient of integers is not necessarily an integer.
+    if (mlir::Type requestedElementType = mlir::getElementTypeOrSelf(
+            getTypeConverter()->convertType(op.getResult().getType()));
+        mlir::isa<mlir::FloatType>(requestedElementType)) {
+      genericElementType = requestedElementType;
+    }
+
     if (tensorType.getElementType() != genericElementType) {
       tensor = rewriter.create<CastOp>(
           tensor.getLoc(), tensorType.clone(genericElementType), tensor);
     }
 
+    if (scalar.getType() != genericElementType) {
+      scalar =
+          rewriter.create<CastOp>(scalar.getLoc(), genericElementType, scalar);
+    }
+
     llvm::SmallVector<mlir::Value, 10> dynamicSizes;
 
     collectDynamicDimensionSizes(rewriter, tensor,
@@ -1375,6 +1387,13 @@ public:
     mlir::Type genericElementType = getMostGenericScalarType(
         lhsTensorType.getElementType(), rhsTensorType.getElementType());
 
+    // The quotient of integers is not necessarily an integer.
+    if (mlir::Type requestedElementType = mlir::getElementTypeOrSelf(
+            getTypeConverter()->convertType(op.getResult().getType()));
+        mlir::isa<mlir::FloatType>(requestedElementType)) {
+      genericElementType = requestedElementType;
+    }
+
     if (lhsTensorType.getElementType() != genericElementType) {
       lhs = rewriter.create<CastOp>(
           op.getLoc(), lhsTensorType.clone(genericElementType), lhs);
@@ -1434,6 +1453,13 @@ public:
     mlir::Type genericElementType =
         getMostGenericScalarType(lhs.getType(), rhsTensorType.getElementType());
 
+    // The quotient of integers is not necessarily an integer.
+    if (mlir::Type requestedElementType = mlir::getElementTypeOrSelf(
+            getTypeConverter()->convertType(op.getResult().getType()));
+        mlir::isa<mlir::FloatType>(requestedElementType)) {
+      genericElementType = requestedElementType;
+    }
+
     if (lhs.getType() != genericElementType) {
       lhs = rewriter.create<CastOp>(lhs.getLoc(), genericElementType, lhs);
     }
@@ -1455,9 +1481,9 @@ public:
     inputs.push_back(rhs);
 
     mlir::Value destination = rewriter.create<mlir::tensor::EmptyOp>(
-        loc, rhsTensorType, dynamicSizes);
+        loc, rhs.getType(), dynamicSizes);
 
-    auto divOp = rewriter.create<mlir::linalg::DivOp>(loc, rhsTensorType,
+    auto divOp = rewriter.create<mlir::linalg::DivOp>(loc, rhs.getType(),
                                                       inputs, destination);
 
     mlir::Value result = divOp.getResult(0);
@@ -1497,6 +1523,13 @@ public:
     mlir::Type genericElementType =
         getMostGenericScalarType(lhsTensorType.getElementType(), rhs.getType());
 
+    // The quotient of integers is not necessarily an integer.
+    if (mlir::Type requestedElementType = mlir::getElementTypeOrSelf(
+            getTypeConverter()->convertType(op.getResult().getType()));
+        mlir::isa<mlir::FloatType>(requestedElementType)) {
+      genericElementType = requestedElementType;
+    }
+
     if (lhsTensorType.getElementType() != genericElementType) {
       lhs = rewriter.create<CastOp>(
           lhs.getLoc(), lhsTensorType.clone(genericElementType), lhs);
@@ -1518,9 +1551,9 @@ public:
     inputs.push_back(splatOp);
 
     mlir::Value destination = rewriter.create<mlir::tensor::EmptyOp>(
-        loc, lhsTensorType, dynamicSizes);
+        loc, lhs.getType(), dynamicSizes);
 
-    auto divOp = rewriter.create<mlir::linalg::DivOp>(loc, lhsTensorType,
+    auto divOp = rewriter.create<mlir::linalg::DivOp>(loc, lhs.getType(),
                                                       inputs, destination);
 
     mlir::Value result = divOp.getResult(0);
-- 
2.43.0


From 29e72dd7be2bc141ce126bef41c1278dde820cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:14 +0000
Subject: [PATCH 70/83] fix: size the product of a vector and a matrix by the
 columns of the matrix

---
 .../BaseModelicaToLinalg/BaseModelicaToLinalg.cpp      | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/Codegen/Conversion/BaseModelicaToLinalg/BaseModelicaToLinalg.cpp b/lib/Codegen/Conversion/BaseModelicaToLinalg/BaseModelicaToLinalg.cpp
index e10907f..cb416bd 100644
--- a/lib/Codegen/Conversion/BaseModelicaToLinalg/BaseModelicaToLinalg.cpp
+++ b/lib/Codegen/Conversion/BaseModelicaToLinalg/BaseModelicaToLinalg.cpp
@@ -970,8 +970,14 @@ public:
 
     llvm::SmallVector<mlir::Value, 10> dynamicSizes;
 
-    collectDynamicDimensionSizes(rewriter, rhs, requestedResultTensorType,
-                                 dynamicSizes);
+    if (requestedResultTensorType.isDynamicDim(0)) {
+      // The result has one element for each column of the matrix.
+      mlir::Value dimIndex = rewriter.create<mlir::arith::ConstantOp>(
+          loc, rewriter.getIndexAttr(1));
+
+      dynamicSizes.push_back(
+          rewriter.create<mlir::tensor::DimOp>(loc, rhs, dimIndex));
+    }
 
     llvm::SmallVector<mlir::Value, 2> inputs;
     inputs.push_back(lhs);
-- 
2.43.0


From 18424e38477efb3edde2bc9884fc54e9bd3067af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:38 +0000
Subject: [PATCH 71/83] fix: convert the true value of selections to the common
 type

---
 .../Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp b/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp
index af0b750..711131f 100644
--- a/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp
+++ b/lib/Codegen/Conversion/BaseModelicaToArith/BaseModelicaToArith.cpp
@@ -2039,7 +2039,7 @@ struct SelectOpLowering : public mlir::OpConversionPattern<SelectOp> {
       mlir::Type genericType =
           getMostGenericScalarType(trueValue.getType(), falseValue.getType());
 
-      if (falseValue.getType() != genericType) {
+      if (trueValue.getType() != genericType) {
         trueValue =
             rewriter.create<CastOp>(trueValue.getLoc(), genericType, trueValue);
       }
-- 
2.43.0


From ae1a910cd6fea2993d7da568ba29bbd867e8b209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 72/83] fix: crash deriving functions with protected variables

---
 .../Transforms/AutomaticDifferentiation/ForwardAD.cpp            | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/ForwardAD.cpp b/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/ForwardAD.cpp
index 2f3ecc4..ba131a1 100644
--- a/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/ForwardAD.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/ForwardAD.cpp
@@ -399,6 +399,7 @@ std::optional<FunctionOp> createFunctionTimeDerivative(
       auto derName = getTimeDerVariableName(name, derivativeOrder);
       newProtectedVariableNames.push_back(derName);
       newProtectedVariableTypes.push_back(variableType);
+      inverseDerivativesNamesMap[derName] = name;
     }
   }
 
-- 
2.43.0


From c74ff854d888615846d0d398da09229f220ccff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 73/83] fix: denominator of the derivative of element-wise
 divisions

---
 .../BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp b/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
index c241c5f..9f6da86 100644
--- a/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
@@ -1794,8 +1794,8 @@ struct DivEWOpInterface
     mlir::Value two = builder.create<ConstantOp>(
         loc, RealAttr::get(castedOp.getContext(), 2));
 
-    mlir::Value denominator =
-        builder.create<PowEWOp>(loc, *denominatorType, two);
+    mlir::Value denominator = builder.create<PowEWOp>(
+        loc, *denominatorType, castedOp.getRhs(), two);
 
     auto derivedOp =
         builder.create<DivEWOp>(loc, *resultType, numerator, denominator);
-- 
2.43.0


From fe913a8aedaee42b518e14f736df2b6d50d2598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 74/83] fix: derivative of element-wise powers

---
 .../Transforms/DerivableOpInterfaceImpl.cpp   | 46 +++++++++++++++----
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp b/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
index 9f6da86..392aa87 100644
--- a/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
@@ -1975,23 +1975,53 @@ struct PowEWOpInterface
       return mlir::failure();
     }
 
+    mlir::Type exponentType = castedOp.getExponent().getType();
+
+    if (castedOp.getExponent().getDefiningOp<ConstantOp>() ||
+        mlir::isa<IntegerType>(mlir::getElementTypeOrSelf(exponentType))) {
+      // The exponent doesn't vary, and thus the base may be null or negative.
+      // D[x ^ y] = (x ^ (y - 1)) * x' * y
+      mlir::Value one = builder.create<ConstantOp>(
+          loc, RealAttr::get(builder.getContext(), 1));
+
+      mlir::Value exponent = builder.createOrFold<SubEWOp>(
+          loc, exponentType, castedOp.getExponent(), one);
+
+      mlir::Value pow = builder.create<PowEWOp>(
+          loc, *resultType, castedOp.getBase(), exponent);
+
+      mlir::Value mulWithDer =
+          builder.create<MulEWOp>(loc, *resultType, pow, *derivedBase);
+
+      auto derivedOp = builder.create<MulEWOp>(loc, *resultType, mulWithDer,
+                                               castedOp.getExponent());
+
+      state.mapDerivative(castedOp, derivedOp);
+      return mlir::success();
+    }
+
+    auto baseType = getDerivedType(castedOp.getBase().getType());
+
+    if (mlir::failed(baseType)) {
+      return mlir::failure();
+    }
+
     mlir::Value pow = builder.create<PowEWOp>(
         loc, *resultType, castedOp.getBase(), castedOp.getExponent());
 
-    mlir::Value ln =
-        builder.create<LogOp>(loc, *resultType, castedOp.getBase());
+    mlir::Value ln = builder.create<LogOp>(loc, *baseType, castedOp.getBase());
 
     mlir::Value firstOperand =
-        builder.create<MulEWOp>(loc, *resultType, *derivedExponent, ln);
+        builder.create<MulEWOp>(loc, *derivedExponent, ln);
 
-    mlir::Value numerator = builder.create<MulEWOp>(
-        loc, *resultType, castedOp.getExponent(), *derivedBase);
+    mlir::Value numerator =
+        builder.create<MulEWOp>(loc, castedOp.getExponent(), *derivedBase);
 
-    mlir::Value secondOperand = builder.create<DivEWOp>(
-        loc, *resultType, numerator, castedOp.getBase());
+    mlir::Value secondOperand =
+        builder.create<DivEWOp>(loc, numerator, castedOp.getBase());
 
     mlir::Value sum =
-        builder.create<AddEWOp>(loc, *resultType, firstOperand, secondOperand);
+        builder.create<AddEWOp>(loc, firstOperand, secondOperand);
 
     auto derivedOp = builder.create<MulEWOp>(loc, *resultType, pow, sum);
 
-- 
2.43.0


From ae553f5a8e32700d404e6d372765003d6084d7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 75/83] fix: derivative of powers with integer exponent

---
 .../BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp b/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
index 392aa87..27b40a4 100644
--- a/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
@@ -1864,8 +1864,9 @@ struct PowOpInterface
       return mlir::failure();
     }
 
-    if (auto constantExponent =
-            castedOp.getExponent().getDefiningOp<ConstantOp>()) {
+    // The exponent doesn't vary if it is integer.
+    if (castedOp.getExponent().getDefiningOp<ConstantOp>() ||
+        mlir::isa<IntegerType>(castedOp.getExponent().getType())) {
       mlir::Value one = builder.create<ConstantOp>(
           loc, RealAttr::get(builder.getContext(), 1));
 
-- 
2.43.0


From 9bf3fcb675d5bc258f1b7f6062c5d0d987e40fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 76/83] fix: derivative of powers of matrices

---
 .../Transforms/DerivableOpInterfaceImpl.cpp   | 44 +++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp b/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
index 27b40a4..7678c56 100644
--- a/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
@@ -1864,6 +1864,11 @@ struct PowOpInterface
       return mlir::failure();
     }
 
+    if (mlir::isa<mlir::ShapedType>(castedOp.getBase().getType())) {
+      return createMatrixPowerDerivative(castedOp, builder, state, *resultType,
+                                         *derivedBase);
+    }
+
     // The exponent doesn't vary if it is integer.
     if (castedOp.getExponent().getDefiningOp<ConstantOp>() ||
         mlir::isa<IntegerType>(castedOp.getExponent().getType())) {
@@ -1915,6 +1920,45 @@ struct PowOpInterface
     state.mapDerivative(castedOp, derivedOp);
     return mlir::success();
   }
+
+  mlir::LogicalResult createMatrixPowerDerivative(
+      PowOp op, mlir::OpBuilder &builder, State &state, mlir::Type resultType,
+      mlir::Value derivedBase) const {
+    // The product of matrices is not commutative.
+    // D[A ^ n] = D[A ^ (n - 1)] * A + A ^ (n - 1) * A'
+    auto exponentOp = op.getExponent().getDefiningOp<ConstantOp>();
+
+    auto exponentAttr =
+        exponentOp ? mlir::dyn_cast<IntegerAttr>(
+                         mlir::cast<mlir::Attribute>(exponentOp.getValue()))
+                   : nullptr;
+
+    if (!exponentAttr || exponentAttr.getValue().slt(1)) {
+      op.emitOpError() << "Can't derive the power of a matrix with an exponent "
+                          "that is not a positive integer constant";
+
+      return mlir::failure();
+    }
+
+    mlir::Location loc = op.getLoc();
+    mlir::Value power = op.getBase();
+    mlir::Value derivative = derivedBase;
+
+    for (int64_t i = 1, e = exponentAttr.getValue().getSExtValue(); i < e;
+         ++i) {
+      mlir::Value lhs =
+          builder.create<MulOp>(loc, resultType, derivative, op.getBase());
+
+      mlir::Value rhs =
+          builder.create<MulOp>(loc, resultType, power, derivedBase);
+
+      derivative = builder.create<AddOp>(loc, resultType, lhs, rhs);
+      power = builder.create<MulOp>(loc, resultType, power, op.getBase());
+    }
+
+    state.mapDerivative(op, derivative);
+    return mlir::success();
+  }
 };
 
 struct PowEWOpInterface
-- 
2.43.0


From b7c8f0f2c051c77d2c5151f47d2800731cdccf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 77/83] fix: types within the derivative of atan2 among arrays
 and scalars

---
 .../Transforms/DerivableOpInterfaceImpl.cpp      | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp b/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
index 7678c56..74181cb 100644
--- a/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
@@ -2455,22 +2455,22 @@ struct Atan2OpInterface
     }
 
     mlir::Value firstMul =
-        builder.create<MulEWOp>(loc, *resultType, *derivedY, castedOp.getX());
+        builder.create<MulEWOp>(loc, *derivedY, castedOp.getX());
 
     mlir::Value secondMul =
-        builder.create<MulEWOp>(loc, *resultType, castedOp.getY(), *derivedX);
+        builder.create<MulEWOp>(loc, castedOp.getY(), *derivedX);
 
     mlir::Value numerator =
-        builder.create<SubEWOp>(loc, *resultType, firstMul, secondMul);
+        builder.create<SubEWOp>(loc, firstMul, secondMul);
 
-    mlir::Value firstSquared = builder.create<MulEWOp>(
-        loc, *resultType, castedOp.getY(), castedOp.getY());
+    mlir::Value firstSquared =
+        builder.create<MulEWOp>(loc, castedOp.getY(), castedOp.getY());
 
-    mlir::Value secondSquared = builder.create<MulEWOp>(
-        loc, *resultType, castedOp.getX(), castedOp.getX());
+    mlir::Value secondSquared =
+        builder.create<MulEWOp>(loc, castedOp.getX(), castedOp.getX());
 
     mlir::Value denominator =
-        builder.create<AddEWOp>(loc, *resultType, firstSquared, secondSquared);
+        builder.create<AddEWOp>(loc, firstSquared, secondSquared);
 
     auto derivedOp =
         builder.create<DivEWOp>(loc, *resultType, numerator, denominator);
-- 
2.43.0


From 21affdc046a247c3583c91de3aae5e1a460dbcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 78/83] fix: seeds of partial derivatives when the inputs are
 not declared first

---
 .../AutomaticDifferentiation/AutomaticDifferentiation.cpp  | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/AutomaticDifferentiation.cpp b/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/AutomaticDifferentiation.cpp
index f1f05f5..687a617 100644
--- a/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/AutomaticDifferentiation.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/AutomaticDifferentiation.cpp
@@ -202,10 +202,9 @@ mlir::LogicalResult AutomaticDifferentiationPass::convertPartialDerFunction(
   // Pre-compute the positions of input variables.
   llvm::StringMap<size_t> baseInputVarsPositions;
 
-  for (auto variable : llvm::enumerate(baseFunctionOp.getVariables())) {
-    if (variable.value().isInput()) {
-      baseInputVarsPositions[variable.value().getSymName()] = variable.index();
-    }
+  for (VariableOp variableOp : inputVariables) {
+    size_t position = baseInputVarsPositions.size();
+    baseInputVarsPositions[variableOp.getSymName()] = position;
   }
 
   llvm::SmallVector<mlir::Type> templateFunctionArgTypes =
-- 
2.43.0


From 70cf67fc1ad28fa369ca32434f4fb66591134e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 79/83] fix: seeds of dynamic size for partial derivatives

---
 .../AutomaticDifferentiation/AutomaticDifferentiation.cpp  | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/AutomaticDifferentiation.cpp b/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/AutomaticDifferentiation.cpp
index 687a617..afe08aa 100644
--- a/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/AutomaticDifferentiation.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/AutomaticDifferentiation.cpp
@@ -235,12 +235,13 @@ mlir::LogicalResult AutomaticDifferentiationPass::convertPartialDerFunction(
         llvm::SmallVector<mlir::Value> dynamicSizes;
 
         for (int64_t dim = 0, rank = tensorType.getRank(); dim < rank; ++dim) {
-          if (dim == mlir::ShapedType::kDynamic) {
+          if (tensorType.isDynamicDim(dim)) {
             mlir::Value dimIndex =
                 builder.create<ConstantOp>(loc, builder.getIndexAttr(dim));
 
-            mlir::Value dimSize = builder.create<DimOp>(
-                loc, args[i % baseInputVarsPositions.size()], dimIndex);
+            mlir::Value dimSize = builder.create<SizeOp>(
+                loc, builder.getIndexType(),
+                args[i % baseInputVarsPositions.size()], dimIndex);
 
             dynamicSizes.push_back(dimSize);
           }
-- 
2.43.0


From c5d640dc91d6003cdcef7764c66ad62fe59f5f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 80/83] fix: derivative of expressions that use discrete
 variables

---
 .../BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp b/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
index 74181cb..ad66484 100644
--- a/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
@@ -865,7 +865,10 @@ struct VariableGetOpInterface
           castedOp.getLoc(), mlir::cast<VariableOp>(*derivativeVariableOp));
 
       state.mapDerivative(castedOp, derivedOp);
-    } else if (state.getOptions().unknowVariablesAsConstants) {
+    } else if (state.getOptions().unknowVariablesAsConstants ||
+               !mlir::isa<RealType>(
+                   variableOp.getVariableType().getElementType())) {
+      // The variables that are not real vary only at events.
       auto derivableType = mlir::dyn_cast<DerivableTypeInterface>(
           castedOp.getResult().getType());
 
-- 
2.43.0


From e70bb244f8d89a2dc82a3560602d6b207221baf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 81/83] fix: higher order derivatives of functions with
 protected variables

---
 .../Transforms/AutomaticDifferentiation/ForwardAD.cpp     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/ForwardAD.cpp b/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/ForwardAD.cpp
index ba131a1..bfdc15e 100644
--- a/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/ForwardAD.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/AutomaticDifferentiation/ForwardAD.cpp
@@ -392,11 +392,11 @@ std::optional<FunctionOp> createFunctionTimeDerivative(
         continue;
       }
 
-      if (isTimeDerivative(name, functionOp, functionOrder)) {
-        continue;
-      }
+      // The derivatives of protected variables are protected, too.
+      auto derName = isTimeDerivative(name, functionOp, functionOrder)
+                         ? getNextTimeDerVariableName(name, derivativeOrder)
+                         : getTimeDerVariableName(name, derivativeOrder);
 
-      auto derName = getTimeDerVariableName(name, derivativeOrder);
       newProtectedVariableNames.push_back(derName);
       newProtectedVariableTypes.push_back(variableType);
       inverseDerivativesNamesMap[derName] = name;
-- 
2.43.0


From 305489d6589b91426407448bbe332703a05b14f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 82/83] fix: undefined behaviour when deriving function calls
 with respect to time

---
 .../BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp     | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp b/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
index ad66484..14c66c3 100644
--- a/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
+++ b/lib/Dialect/BaseModelica/Transforms/DerivableOpInterfaceImpl.cpp
@@ -3389,10 +3389,7 @@ struct CallOpInterface
                        State &state, bool deriveDependencies) const {
     auto castedOp = mlir::cast<CallOp>(op);
 
-    mlir::OpBuilder::InsertionGuard guard(builder);
-    builder.setInsertionPointAfter(castedOp);
-
-    llvm_unreachable("CallOp time derivative is not implemented yet");
+    castedOp.emitOpError() << "Can't derive function call with respect to time";
     return mlir::failure();
   }
 
-- 
2.43.0


From 89020654e2c49702cb0849c6412c9864020ddc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:02 +0000
Subject: [PATCH 83/83] fix: the multiplication of arrays is not commutative

The Commutative trait lets the constant operands be moved to the right hand
side, thus turning the product of a constant vector and a matrix into the
product of the matrix and the vector.
---
 include/marco/Dialect/BaseModelica/IR/Ops.td | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/marco/Dialect/BaseModelica/IR/Ops.td b/include/marco/Dialect/BaseModelica/IR/Ops.td
index b3e86c3..e99ea9c 100644
--- a/include/marco/Dialect/BaseModelica/IR/Ops.td
+++ b/include/marco/Dialect/BaseModelica/IR/Ops.td
@@ -1714,8 +1714,7 @@ def BaseModelica_SubEWOp : BaseModelica_Op<"sub_ew",
 }
 
 def BaseModelica_MulOp : BaseModelica_Op<"mul",
-    [Commutative,
-    DeclareOpInterfaceMethods<InferTypeOpInterface>,
+    [DeclareOpInterfaceMethods<InferTypeOpInterface>,
     NoMemoryEffect,
     AlwaysSpeculatable,
     DeclareOpInterfaceMethods<DistributableOpInterface>,
-- 
2.43.0


From 5c0cb76d0c3078704201052a88c9f0e1c6f2c12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:08:31 +0000
Subject: [PATCH 001/110] fix: start the server on data sets with fewer than
 200,000 triples

The sort time estimates for larger tables are derived from the smallest
sample. For small indexes that sample was skipped too, which made the
server stop with a failed assertion. Always measure the smallest sample.
---
 src/engine/SortPerformanceEstimator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/engine/SortPerformanceEstimator.cpp b/src/engine/SortPerformanceEstimator.cpp
index 08e24ce..84a093d 100644
--- a/src/engine/SortPerformanceEstimator.cpp
+++ b/src/engine/SortPerformanceEstimator.cpp
@@ -129,7 +129,10 @@ void SortPerformanceEstimator::computeEstimatesExpensively(
       auto rows = sampleValuesRows[i];
       auto cols = sampleValuesCols[j];
       try {
-        if (rows * cols > maxNumberOfElementsToSort) {
+        // The smallest sample is always measured, because all the estimates
+        // that are not measured are derived from smaller ones.
+        bool isSmallestSample = i == 0 && j == 0;
+        if (!isSmallestSample && rows * cols > maxNumberOfElementsToSort) {
           throw ad_utility::detail::AllocationExceedsLimitException{0, 0};
         }
         _samples[i][j] = measureSortingTimeInSeconds(rows, cols, allocator);
-- 
2.43.0


From 01a81c4ee4e82b399f283ff3aa9242d0b9c62551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:55 +0000
Subject: [PATCH 002/110] Make code-path limits adjustable in verification
 builds

With QLEVER_VERIF_HOOKS defined, block sizes, thresholds and cache sizes
can be overridden by environment variables, so that small inputs reach
the code paths of large ones. Without it nothing changes.
---
 src/engine/Server.h                | 10 +++++++---
 src/global/Constants.h             | 11 ++++++++---
 src/index/ConstantsIndexCreation.h | 14 ++++++++++----
 src/index/Index.cpp                |  3 ++-
 src/util/VerifHooks.h              | 20 ++++++++++++++++++++
 5 files changed, 47 insertions(+), 11 deletions(-)
 create mode 100644 src/util/VerifHooks.h

diff --git a/src/engine/Server.h b/src/engine/Server.h
index 57c40a1..3b8bfd5 100644
--- a/src/engine/Server.h
+++ b/src/engine/Server.h
@@ -32,10 +32,14 @@ class Server {
       : _numThreads(numThreads),
         _serverSocket(),
         _port(port),
-        _cache(cacheMaxNumEntries, cacheMaxSizeGB * (1ull << 30u) / sizeof(Id),
-               cacheMaxSizeGBSingleEntry * (1ull << 30u) / sizeof(Id)),
+        _cache(cacheMaxNumEntries,
+               QLEVER_LIMIT(CACHE_MAX_SIZE,
+                            cacheMaxSizeGB * (1ull << 30u) / sizeof(Id)),
+               QLEVER_LIMIT(
+                   CACHE_MAX_SIZE_SINGLE_ENTRY,
+                   cacheMaxSizeGBSingleEntry * (1ull << 30u) / sizeof(Id))),
         _allocator(ad_utility::makeAllocationMemoryLeftThreadsafeObject(
-            maxMemGB * (1ull << 30u))),
+            QLEVER_LIMIT(MEMORY_FOR_QUERIES, maxMemGB * (1ull << 30u)))),
         _sortPerformanceEstimator(),
         _index(),
         _engine(),
diff --git a/src/global/Constants.h b/src/global/Constants.h
index c0d3560..957732e 100644
--- a/src/global/Constants.h
+++ b/src/global/Constants.h
@@ -6,6 +6,8 @@
 #include <stdexcept>
 #include <string>
 
+#include "../util/VerifHooks.h"
+
 static const size_t STXXL_MEMORY_TO_USE = 1024L * 1024L * 1024L * 2L;
 static const size_t STXXL_DISK_SIZE_INDEX_BUILDER = 1000 * 1000;
 static const size_t STXXL_DISK_SIZE_INDEX_TEST = 10;
@@ -29,12 +31,15 @@ static const size_t MAX_NOF_FILTERS = 64;
 
 static const size_t BUFFER_SIZE_RELATION_SIZE = 1000 * 1000 * 1000;
 static const size_t BUFFER_SIZE_DOCSFILE_LINE = 1024 * 1024 * 100;
-static const size_t DISTINCT_LHS_PER_BLOCK = 10 * 1000;
-static const size_t USE_BLOCKS_INDEX_SIZE_TRESHOLD = 20 * 1000;
+static const size_t DISTINCT_LHS_PER_BLOCK =
+    QLEVER_LIMIT(DISTINCT_LHS_PER_BLOCK, 10 * 1000);
+static const size_t USE_BLOCKS_INDEX_SIZE_TRESHOLD =
+    QLEVER_LIMIT(USE_BLOCKS_INDEX_SIZE_TRESHOLD, 20 * 1000);
 
 static const size_t TEXT_PREDICATE_CARDINALITY_ESTIMATE = 1000 * 1000 * 1000;
 
-static const size_t GALLOP_THRESHOLD = 1000;
+static const size_t GALLOP_THRESHOLD =
+    QLEVER_LIMIT(GALLOP_THRESHOLD, 1000);
 
 static const char CONTAINS_ENTITY_PREDICATE[] =
     "<QLever-internal-function/contains-entity>";
diff --git a/src/index/ConstantsIndexCreation.h b/src/index/ConstantsIndexCreation.h
index 808eebd..f2fcdfa 100644
--- a/src/index/ConstantsIndexCreation.h
+++ b/src/index/ConstantsIndexCreation.h
@@ -5,6 +5,8 @@
 
 #include <string>
 
+#include "../util/VerifHooks.h"
+
 // Constants which are only used during index creation
 
 // here we store all the literals in a text file, which will be externalized.
@@ -15,7 +17,8 @@ const std::string EXTERNAL_LITS_TEXT_FILE_NAME = ".externalized-text";
 // Determines the maximum number of bytes of an internal literal (before
 // compression). Every literal larger as this size is externalized regardless
 // of its language tag
-static const size_t MAX_INTERNAL_LITERAL_BYTES = 1024;
+static const size_t MAX_INTERNAL_LITERAL_BYTES =
+    QLEVER_LIMIT(MAX_INTERNAL_LITERAL_BYTES, 1024);
 
 // How many lines are parsed at once during index creation.
 // Reduce to save RAM
@@ -28,11 +31,13 @@ static const size_t PARSER_BATCH_SIZE = 1000000;
 // That many triples does the turtle parser have to buffer before the call to
 // getline returns (unless our input reaches EOF). This makes parsing from
 // streams faster.
-static const size_t PARSER_MIN_TRIPLES_AT_ONCE = 100000;
+static const size_t PARSER_MIN_TRIPLES_AT_ONCE =
+    QLEVER_LIMIT(PARSER_MIN_TRIPLES_AT_ONCE, 100000);
 
 // When reading from a file, Chunks of this size will
 // be fed to the parser at once (100 << 20  is exactly 100 MiB
-static const size_t FILE_BUFFER_SIZE = 100 << 20;
+static const size_t FILE_BUFFER_SIZE =
+    QLEVER_LIMIT(FILE_BUFFER_SIZE, 100 << 20);
 
 // When the BZIP2 parser encouters a parsing exception it will increase its
 // buffer and try again (we have no other way currently to determine if the
@@ -45,7 +50,8 @@ static const size_t BZIP2_MAX_TOTAL_BUFFER_SIZE = 1 << 30;
 
 // If a single relation has more than this number of triples, it will be
 // buffered into an MmapVector during the creation of the relations;
-static const size_t THRESHOLD_RELATION_CREATION = 2 << 20;
+static const size_t THRESHOLD_RELATION_CREATION =
+    QLEVER_LIMIT(THRESHOLD_RELATION_CREATION, 2 << 20);
 
 // ________________________________________________________________
 static const std::string PARTIAL_VOCAB_FILE_NAME = ".partial-vocabulary";
diff --git a/src/index/Index.cpp b/src/index/Index.cpp
index dc9ca1d..7e1094c 100644
--- a/src/index/Index.cpp
+++ b/src/index/Index.cpp
@@ -30,7 +30,8 @@ const uint32_t Index::PATTERNS_FILE_VERSION = 0;
 // _____________________________________________________________________________
 Index::Index()
     : _usePatterns(false),
-      _maxNumPatterns(std::numeric_limits<PatternID>::max() - 2) {}
+      _maxNumPatterns(QLEVER_LIMIT(
+          MAX_NUM_PATTERNS, std::numeric_limits<PatternID>::max() - 2)) {}
 
 // _____________________________________________________________________________________________
 template <class Parser>
diff --git a/src/util/VerifHooks.h b/src/util/VerifHooks.h
new file mode 100644
index 0000000..89e311c
--- /dev/null
+++ b/src/util/VerifHooks.h
@@ -0,0 +1,20 @@
+// Test hook: limits that decide which code path is taken (buffer sizes, block
+// sizes, ...) can be lowered from the environment, so that all the paths can be
+// reached with small inputs. Without QLEVER_VERIF_HOOKS the limits are the
+// plain constants.
+#pragma once
+
+#ifdef QLEVER_VERIF_HOOKS
+#include <cstdlib>
+#include <string>
+
+namespace ad_utility {
+inline size_t verifLimit(const char* name, size_t defaultValue) {
+  const char* value = std::getenv((std::string("QLEVER_LIMIT_") + name).c_str());
+  return value ? std::strtoull(value, nullptr, 10) : defaultValue;
+}
+}  // namespace ad_utility
+#define QLEVER_LIMIT(NAME, DEFAULT) ad_utility::verifLimit(#NAME, DEFAULT)
+#else
+#define QLEVER_LIMIT(NAME, DEFAULT) (DEFAULT)
+#endif
-- 
2.43.0


From 5ad640269126aa28ddc3727172f82848d534a2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:21 +0000
Subject: [PATCH 003/110] fix: find literals in the vocabulary that are only
 eligible for being on disk

Looking up a literal with a foreign language tag or a long literal always
went to the external vocabulary. In an index that was built without on-disk
literals such constants were never found.
---
 src/index/Vocabulary.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/index/Vocabulary.cpp b/src/index/Vocabulary.cpp
index f59bb9e..58c3e98 100644
--- a/src/index/Vocabulary.cpp
+++ b/src/index/Vocabulary.cpp
@@ -368,12 +368,17 @@ AccessReturnType_t<StringType> Vocabulary<StringType, C>::at(Id id) const {
 // _____________________________________________________________________________
 template <typename S, typename C>
 bool Vocabulary<S, C>::getId(const string& word, Id* id) const {
+  // need the TOTAL level because we want the unique word.
+  *id = lower_bound(word, SortLevel::TOTAL);
+  // works for the case insensitive version because
+  // of the strict ordering.
+  if (*id < _words.size() && at(*id) == word) {
+    return true;
+  }
+  // Without on-disk literals also words that are eligible for being
+  // externalized are part of the internal vocabulary.
   if (!shouldBeExternalized(word)) {
-    // need the TOTAL level because we want the unique word.
-    *id = lower_bound(word, SortLevel::TOTAL);
-    // works for the case insensitive version because
-    // of the strict ordering.
-    return *id < _words.size() && at(*id) == word;
+    return false;
   }
   bool success = _externalLiterals.getId(word, id);
   *id += _words.size();
-- 
2.43.0


From 9b7c42f92ab6d8edc80db94208f182b1eddba119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:21 +0000
Subject: [PATCH 004/110] fix: binary search in the external vocabulary skipped
 words

The upper bound is exclusive, so the element before the middle was never
looked at, and a word before the first one made the bound underflow.
---
 src/index/ExternalVocabulary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index/ExternalVocabulary.cpp b/src/index/ExternalVocabulary.cpp
index 8d5a9cd..50b0be4 100644
--- a/src/index/ExternalVocabulary.cpp
+++ b/src/index/ExternalVocabulary.cpp
@@ -37,7 +37,7 @@ Id ExternalVocabulary<Comp>::binarySearchInVocab(const string& word) const {
     if (cmp < 0) {
       lower = i + 1;
     } else if (cmp > 0) {
-      upper = i - 1;
+      upper = i;
     } else if (cmp == 0) {
       return i;
     }
-- 
2.43.0


From 9539b406fcc5f66c4130bef62c9cfdf2e69ead3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:34 +0000
Subject: [PATCH 005/110] fix: keep the rows behind the constant in a != filter
 on a sorted column

---
 src/engine/Filter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/Filter.cpp b/src/engine/Filter.cpp
index 1cecbf4..fb8b893 100644
--- a/src/engine/Filter.cpp
+++ b/src/engine/Filter.cpp
@@ -289,7 +289,7 @@ void Filter::computeFilterRange(IdTableStatic<WIDTH>* res, size_t lhs,
       res->insert(res->end(), lower, upper);
     } else {
       res->insert(res->end(), input.begin(), lower);
-      res->insert(res->end(), upper, res->end());
+      res->insert(res->end(), upper, input.end());
     }
   } else {
     const auto inv = [&](const bool b) { return INVERSE ? !b : b; };
-- 
2.43.0


From 5e8ad8a4eb9d5631bcb1b690f80ced011afd9234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:22:34 +0000
Subject: [PATCH 006/110] fix: do not read past the input when aggregating
 without GROUP BY

The end of a block is inclusive, so the single group contained one row
behind the end of the table.
---
 src/engine/GroupBy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index 2db20a8..5b36164 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -624,7 +624,7 @@ void GroupBy::doGroupBy(const IdTable& dynInput,
   if (groupByCols.empty()) {
     // The entire input is a single group
     size_t blockStart = 0;
-    size_t blockEnd = input.size();
+    size_t blockEnd = input.size() - 1;
 
     result.emplace_back();
     size_t resIdx = result.size() - 1;
-- 
2.43.0


From bc7aa10da97127d71505f37434a2e27ecb53f830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:54 +0000
Subject: [PATCH 007/110] fix: sort both sides of a join on two columns
 consistently

The planner mixed up the columns of the two sides, did not check the second
sort column, and the join columns could be swapped after sorting, so that
rows got lost. Joins that the two column join cannot compute (no side is a
scan on exactly the join columns) now use the multi column join.
---
 src/engine/QueryPlanner.cpp | 92 ++++++++++++++++++++-----------------
 1 file changed, 50 insertions(+), 42 deletions(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index 41a9bff..8400ce3 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -2813,55 +2813,60 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
         return candidates;
       }
 
-      // Check if a sub-result has to be re-sorted
       // Consider both ways to order join columns as primary / secondary
-      // Make four iterations instead of two so that first and second
-      // column can be swapped and more trees are constructed (of which
-      // the optimal solution will be picked).
       // The order plays a role for the efficient implementation for
       // filtering directly with a scan's result.
-      for (size_t n = 0; n < 4; ++n) {
-        size_t c = n / 2;
-        size_t swap = n % 2;
-        auto left = std::make_shared<QueryExecutionTree>(_qec);
-        auto right = std::make_shared<QueryExecutionTree>(_qec);
-        const vector<size_t>& aSortedOn = a._qet->resultSortedOn();
-        if (aSortedOn.size() > 0 && aSortedOn[0] == jcs[c][(0 + swap) % 2] &&
-            (a._qet->getResultWidth() == 2 ||
-             a._qet->getType() == QueryExecutionTree::SCAN)) {
-          left = a._qet;
-        } else {
-          // Create an order by operation.
-          vector<pair<size_t, bool>> sortIndices;
-          sortIndices.emplace_back(
-              std::make_pair(jcs[c][(0 + swap) % 2], false));
-          sortIndices.emplace_back(
-              std::make_pair(jcs[(c + 1) % 2][(0 + swap) % 2], false));
-          auto orderBy = std::make_shared<OrderBy>(_qec, a._qet, sortIndices);
-          left->setVariableColumns(a._qet->getVariableColumns());
-          left->setOperation(QueryExecutionTree::ORDER_BY, orderBy);
-        }
-        const vector<size_t>& bSortedOn = b._qet->resultSortedOn();
-        if (bSortedOn.size() > 0 && bSortedOn[0] == jcs[c][(1 + swap) % 2] &&
-            b._qet->getResultWidth() == 2) {
-          right = b._qet;
-        } else {
-          // Create a sort operation.
+      for (size_t c = 0; c < 2; ++c) {
+        const vector<array<Id, 2>> orderedJcs{jcs[c], jcs[(c + 1) % 2]};
+        // Check if a sub-result has to be re-sorted
+        auto sortedOnJcs = [&orderedJcs](const SubtreePlan& plan, size_t side) {
+          const vector<size_t>& sortedOn = plan._qet->resultSortedOn();
+          if (sortedOn.empty() || sortedOn[0] != orderedJcs[0][side]) {
+            return false;
+          }
+          // The full index is never materialized.
+          bool isDummy = plan._qet->getType() == QueryExecutionTree::SCAN &&
+                         plan._qet->getResultWidth() == 3;
+          return isDummy ||
+                 (sortedOn.size() > 1 && sortedOn[1] == orderedJcs[1][side]);
+        };
+        auto createSorted = [&](const SubtreePlan& plan, size_t side) {
+          if (sortedOnJcs(plan, side)) {
+            return plan._qet;
+          }
           // Create an order by operation.
           vector<pair<size_t, bool>> sortIndices;
-          sortIndices.emplace_back(
-              std::make_pair(jcs[c][(1 + swap) % 2], false));
-          sortIndices.emplace_back(
-              std::make_pair(jcs[(c + 1) % 2][(1 + swap) % 2], false));
-          auto orderBy = std::make_shared<OrderBy>(_qec, b._qet, sortIndices);
-          right->setVariableColumns(b._qet->getVariableColumns());
-          right->setOperation(QueryExecutionTree::ORDER_BY, orderBy);
+          sortIndices.emplace_back(orderedJcs[0][side], false);
+          sortIndices.emplace_back(orderedJcs[1][side], false);
+          auto orderBy = std::make_shared<OrderBy>(_qec, plan._qet, sortIndices);
+          auto sorted = std::make_shared<QueryExecutionTree>(_qec);
+          sorted->setVariableColumns(plan._qet->getVariableColumns());
+          sorted->setOperation(QueryExecutionTree::ORDER_BY, orderBy);
+          return sorted;
+        };
+        auto left = createSorted(a, 0);
+        auto right = createSorted(b, 1);
+        // A two column join filters one side by the rows of the other one. The
+        // filtering side has to consist of the join columns and must not
+        // contain duplicates, so it has to be a scan.
+        auto isFilter = [&orderedJcs](const auto& qet, size_t side) {
+          return qet->getResultWidth() == 2 && orderedJcs[0][side] == 0 &&
+                 orderedJcs[1][side] == 1;
+        };
+        auto isScan = [](const auto& qet) {
+          return qet->getType() == QueryExecutionTree::SCAN;
+        };
+        bool leftFilter = isFilter(left, 0);
+        bool rightFilter = isFilter(right, 1);
+        if (!(leftFilter || rightFilter) || (leftFilter && !isScan(left)) ||
+            (rightFilter && !isScan(right))) {
+          continue;
         }
-        // TODO(florian): consider replacing this with a multicolumn join.
         // Create the join operation.
         SubtreePlan plan(_qec);
         auto& tree = *plan._qet;
-        auto join = std::make_shared<TwoColumnJoin>(_qec, left, right, jcs);
+        auto join =
+            std::make_shared<TwoColumnJoin>(_qec, left, right, orderedJcs);
         tree.setVariableColumns(join->getVariableColumns());
         tree.setOperation(QueryExecutionTree::TWO_COL_JOIN, join);
         // TODO<joka921>: shouldn't we |= the filters here to avoid duplicate
@@ -2871,8 +2876,11 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
         plan.addAllNodes(b._idsOfIncludedNodes);
         candidates.push_back(std::move(plan));
       }
-      return candidates;
-    } else if (jcs.size() > 2) {
+      if (!candidates.empty()) {
+        return candidates;
+      }
+    }
+    if (jcs.size() >= 2) {
       // this can happen when e.g. subqueries are used
       SubtreePlan plan = multiColumnJoin(a, b);
       plan._idsOfIncludedNodes = a._idsOfIncludedNodes;
-- 
2.43.0


From 56544fdfe79bd09a8d775556a37212d65abcf284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:54 +0000
Subject: [PATCH 008/110] fix: map variables to the right columns in the multi
 column join

The columns of the right side were numbered in the iteration order of a hash
map instead of their order in the result.
---
 src/engine/MultiColumnJoin.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/engine/MultiColumnJoin.cpp b/src/engine/MultiColumnJoin.cpp
index 1974138..b4e0c14 100644
--- a/src/engine/MultiColumnJoin.cpp
+++ b/src/engine/MultiColumnJoin.cpp
@@ -122,18 +122,21 @@ void MultiColumnJoin::computeResult(ResultTable* result) {
 ad_utility::HashMap<string, size_t> MultiColumnJoin::getVariableColumns()
     const {
   ad_utility::HashMap<string, size_t> retVal(_left->getVariableColumns());
-  size_t columnIndex = retVal.size();
+  size_t leftSize = _left->getResultWidth();
   for (const auto& it : _right->getVariableColumns()) {
+    size_t columnIndex = leftSize + it.second;
     bool isJoinColumn = false;
+    // Reduce the index for every join column of _right before this column.
     for (const std::array<Id, 2>& a : _joinColumns) {
-      if (a[1] == it.second) {
+      if (a[1] < it.second) {
+        columnIndex--;
+      } else if (a[1] == it.second) {
         isJoinColumn = true;
         break;
       }
     }
     if (!isJoinColumn) {
       retVal[it.first] = columnIndex;
-      columnIndex++;
     }
   }
   return retVal;
-- 
2.43.0


From a9d3ee6c68174ca4b9a3eb57084235d6452ed72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:27:54 +0000
Subject: [PATCH 009/110] fix: estimate the multiplicity of the right side of a
 multi column join

The column of the right side was looked up in the left one, which failed with
an assertion if that has fewer columns.
---
 src/engine/MultiColumnJoin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/MultiColumnJoin.cpp b/src/engine/MultiColumnJoin.cpp
index b4e0c14..8470855 100644
--- a/src/engine/MultiColumnJoin.cpp
+++ b/src/engine/MultiColumnJoin.cpp
@@ -213,7 +213,7 @@ void MultiColumnJoin::computeSizeEstimateAndMultiplicities() {
   float multRight = std::numeric_limits<float>::max();
   for (size_t i = 0; i < _joinColumns.size(); i++) {
     multLeft = std::min(multLeft, _left->getMultiplicity(_joinColumns[i][0]));
-    multRight = std::min(multLeft, _left->getMultiplicity(_joinColumns[i][1]));
+    multRight = std::min(multRight, _right->getMultiplicity(_joinColumns[i][1]));
   }
   float multResult = multLeft * multRight;
 
-- 
2.43.0


From 7536186a1a5e5781d8bb818247eb9a039d058c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:28:12 +0000
Subject: [PATCH 010/110] fix: estimate the multiplicity of the right side of
 an optional join

---
 src/engine/MultiColumnJoin.cpp | 3 ++-
 src/engine/OptionalJoin.cpp    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/engine/MultiColumnJoin.cpp b/src/engine/MultiColumnJoin.cpp
index 8470855..6ded6a8 100644
--- a/src/engine/MultiColumnJoin.cpp
+++ b/src/engine/MultiColumnJoin.cpp
@@ -213,7 +213,8 @@ void MultiColumnJoin::computeSizeEstimateAndMultiplicities() {
   float multRight = std::numeric_limits<float>::max();
   for (size_t i = 0; i < _joinColumns.size(); i++) {
     multLeft = std::min(multLeft, _left->getMultiplicity(_joinColumns[i][0]));
-    multRight = std::min(multRight, _right->getMultiplicity(_joinColumns[i][1]));
+    multRight =
+        std::min(multRight, _right->getMultiplicity(_joinColumns[i][1]));
   }
   float multResult = multLeft * multRight;
 
diff --git a/src/engine/OptionalJoin.cpp b/src/engine/OptionalJoin.cpp
index df9b5fd..b801d1f 100644
--- a/src/engine/OptionalJoin.cpp
+++ b/src/engine/OptionalJoin.cpp
@@ -227,7 +227,8 @@ void OptionalJoin::computeSizeEstimateAndMultiplicities() {
   float multRight = std::numeric_limits<float>::max();
   for (size_t i = 0; i < _joinColumns.size(); i++) {
     multLeft = std::min(multLeft, _left->getMultiplicity(_joinColumns[i][0]));
-    multRight = std::min(multLeft, _left->getMultiplicity(_joinColumns[i][1]));
+    multRight =
+        std::min(multRight, _right->getMultiplicity(_joinColumns[i][1]));
   }
   float multResult = multLeft * multRight;
 
-- 
2.43.0


From 8637d89883c3211631887ea2d8d0000c99a8fb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:05 +0000
Subject: [PATCH 011/110] fix: support triples whose predicate variable is
 repeated in the triple

Such a query made the server crash because the variable was taken for a
constant of an index scan. With one constant it is now a scan with a filter,
otherwise it is rejected.
---
 src/engine/QueryPlanner.cpp | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index 8400ce3..cb07cc7 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -1230,6 +1230,32 @@ vector<QueryPlanner::SubtreePlan> QueryPlanner::seedWithScansAndText(
             tree.setOperation(QueryExecutionTree::OperationType::FILTER,
                               filter);
             tree.setVariableColumns(filter->getVariableColumns());
+          } else if (isVariable(node._triple._p._iri) &&
+                     (isVariable(node._triple._s) ||
+                      isVariable(node._triple._o))) {
+            // The predicate variable is the same as the subject or object
+            // variable. Again scan with a new unique variable + Filter.
+            bool subjectIsVar = isVariable(node._triple._s);
+            std::string filterVar = generateUniqueVarName();
+            auto scanTree = std::make_shared<QueryExecutionTree>(_qec);
+            auto scan = std::make_shared<IndexScan>(
+                _qec, subjectIsVar ? IndexScan::ScanType::OPS_FREE_P
+                                   : IndexScan::ScanType::SPO_FREE_P);
+            scan->setSubject(subjectIsVar ? filterVar : node._triple._s);
+            scan->setPredicate(node._triple._p._iri);
+            scan->setObject(subjectIsVar ? node._triple._o : filterVar);
+            scan->precomputeSizeEstimate();
+            scanTree->setOperation(QueryExecutionTree::OperationType::SCAN,
+                                   scan);
+            scanTree->setVariableColumn(node._triple._p._iri, 0);
+            scanTree->setVariableColumn(filterVar, 1);
+            auto filter = std::make_shared<Filter>(
+                _qec, scanTree, SparqlFilter::FilterType::EQ,
+                node._triple._p._iri, filterVar, vector<string>{},
+                vector<string>{});
+            tree.setOperation(QueryExecutionTree::OperationType::FILTER,
+                              filter);
+            tree.setVariableColumns(filter->getVariableColumns());
           } else if (isVariable(node._triple._s)) {
             auto scan = std::make_shared<IndexScan>(
                 _qec, IndexScan::ScanType::POS_BOUND_O);
@@ -1258,6 +1284,12 @@ vector<QueryPlanner::SubtreePlan> QueryPlanner::seedWithScansAndText(
           }
           seeds.push_back(plan);
         } else if (node._variables.size() == 2) {
+          if (isVariable(node._triple._s) &&
+              isVariable(node._triple._p._iri) &&
+              isVariable(node._triple._o)) {
+            AD_THROW(ad_semsearch::Exception::NOT_YET_IMPLEMENTED,
+                     "Triple with three variables, two of which are the same");
+          }
           // Add plans for both possible scan directions.
           if (node._triple._p._iri == HAS_PREDICATE_PREDICATE) {
             // Add a has relation scan instead of a normal IndexScan
-- 
2.43.0


From d08be52af2f3e093b3a9b86ae76440dff1f987b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:38 +0000
Subject: [PATCH 012/110] fix: tell apart cached results that differ in their
 columns

The cache key of several operations did not contain all columns the
result depends on: which columns a UNION merges, on which columns MINUS
and DISTINCT work, which side of an OPTIONAL is optional, the column of a
filtered variable, DISTINCT aggregates, and the column of bound property
paths and predicate scans. A query could be answered with the cached
result of another one, possibly of a different width.
---
 src/engine/Distinct.cpp         |  5 ++++-
 src/engine/Filter.cpp           | 19 +++++++++++++++++
 src/engine/Filter.h             |  2 ++
 src/engine/GroupBy.cpp          | 10 ++++++++-
 src/engine/HasPredicateScan.cpp |  3 ++-
 src/engine/Minus.cpp            |  4 ++++
 src/engine/Operation.cpp        | 11 +++++++++-
 src/engine/Operation.h          |  8 ++++++++
 src/engine/OptionalJoin.cpp     |  5 +++++
 src/engine/TransitivePath.cpp   |  4 ++--
 src/engine/Union.cpp            | 36 ++++++++++++++++++++++++---------
 11 files changed, 92 insertions(+), 15 deletions(-)

diff --git a/src/engine/Distinct.cpp b/src/engine/Distinct.cpp
index 97f2f74..357dc8e 100644
--- a/src/engine/Distinct.cpp
+++ b/src/engine/Distinct.cpp
@@ -24,7 +24,10 @@ string Distinct::asString(size_t indent) const {
   for (size_t i = 0; i < indent; ++i) {
     os << " ";
   }
-  os << "Distinct " << _subtree->asString(indent);
+  os << "Distinct " << _subtree->asString(indent) << " on columns:";
+  for (size_t col : _keepIndices) {
+    os << ' ' << col;
+  }
   return os.str();
 }
 
diff --git a/src/engine/Filter.cpp b/src/engine/Filter.cpp
index fb8b893..a91755c 100644
--- a/src/engine/Filter.cpp
+++ b/src/engine/Filter.cpp
@@ -87,6 +87,25 @@ string Filter::asString(size_t indent) const {
   return os.str();
 }
 
+string Filter::getVariableColumnsForCacheKey() const {
+  const auto variableColumns = _subtree->getVariableColumns();
+  std::ostringstream os;
+  os << "filtered columns:";
+  auto addColumn = [&](const string& variable) {
+    auto it = variableColumns.find(variable);
+    if (it != variableColumns.end()) {
+      os << ' ' << it->second;
+    }
+  };
+  addColumn(_lhs);
+  addColumn(_rhs);
+  for (const auto& lhs : _additionalLhs) {
+    addColumn(lhs);
+  }
+  os << '\n';
+  return os.str();
+}
+
 string Filter::getDescriptor() const {
   std::ostringstream os;
   os << "Filter ";
diff --git a/src/engine/Filter.h b/src/engine/Filter.h
index 07ea585..e4154f9 100644
--- a/src/engine/Filter.h
+++ b/src/engine/Filter.h
@@ -96,6 +96,8 @@ class Filter : public Operation {
     return {_subtree.get()};
   }
 
+  virtual string getVariableColumnsForCacheKey() const override;
+
   virtual bool knownEmptyResult() override {
     return _subtree->knownEmptyResult();
   }
diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index 5b36164..45ea805 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -54,10 +54,18 @@ string GroupBy::asString(size_t indent) const {
   }
   os << "GROUP_BY ";
   for (const std::string& var : _groupByVariables) {
-    os << varMap.at(var) << ", ";
+    os << varMap.at(var);
+    auto inputColumn = varMapInput.find(var);
+    if (inputColumn != varMapInput.end()) {
+      os << " (input column " << inputColumn->second << ")";
+    }
+    os << ", ";
   }
   for (const auto& p : _aliases) {
     os << ParsedQuery::AggregateTypeAsString(p._type);
+    if (p._isDistinct) {
+      os << " DISTINCT";
+    }
     if (p._type == ParsedQuery::AggregateType::GROUP_CONCAT) {
       os << p._delimiter;
     }
diff --git a/src/engine/HasPredicateScan.cpp b/src/engine/HasPredicateScan.cpp
index bd6f731..8c67ac6 100644
--- a/src/engine/HasPredicateScan.cpp
+++ b/src/engine/HasPredicateScan.cpp
@@ -36,7 +36,8 @@ string HasPredicateScan::asString(size_t indent) const {
       os << "HAS_RELATION_SCAN for the full relation";
       break;
     case ScanType::SUBQUERY_S:
-      os << "HAS_RELATION_SCAN with S = " << _subtree->asString(indent);
+      os << "HAS_RELATION_SCAN with S = " << _subtree->asString(indent)
+         << " col " << _subtreeColIndex;
       break;
   }
   return os.str();
diff --git a/src/engine/Minus.cpp b/src/engine/Minus.cpp
index 07d194e..566b131 100644
--- a/src/engine/Minus.cpp
+++ b/src/engine/Minus.cpp
@@ -37,6 +37,10 @@ string Minus::asString(size_t indent) const {
   }
   os << "MINUS\n" << _left->asString(indent) << "\n";
   os << _right->asString(indent) << " ";
+  os << "matched-columns:";
+  for (const auto& c : _matchedColumns) {
+    os << " [" << c[0] << " & " << c[1] << "]";
+  }
   return os.str();
 }
 
diff --git a/src/engine/Operation.cpp b/src/engine/Operation.cpp
index d2b6f9d..695c45d 100644
--- a/src/engine/Operation.cpp
+++ b/src/engine/Operation.cpp
@@ -44,6 +44,15 @@ vector<string> Operation::collectWarnings() const {
   return res;
 }
 
+// ________________________________________________________________________
+string Operation::getCacheKey() const {
+  string key = asString() + getVariableColumnsForCacheKey();
+  forAllDescendants([&key](const QueryExecutionTree* child) {
+    key += child->getRootOperation()->getVariableColumnsForCacheKey();
+  });
+  return key;
+}
+
 // ________________________________________________________________________
 void Operation::recursivelySetTimeoutTimer(
     const ad_utility::SharedConcurrentTimeoutTimer& timer) {
@@ -62,7 +71,7 @@ shared_ptr<const ResultTable> Operation::getResult(bool isRoot) {
   ad_utility::Timer timer;
   timer.start();
   auto& cache = _executionContext->getQueryTreeCache();
-  const string cacheKey = asString();
+  const string cacheKey = getCacheKey();
   const bool pinFinalResultButNotSubtrees =
       _executionContext->_pinResult && isRoot;
   const bool pinResult =
diff --git a/src/engine/Operation.h b/src/engine/Operation.h
index 4742a7c..e4b57a4 100644
--- a/src/engine/Operation.h
+++ b/src/engine/Operation.h
@@ -95,6 +95,14 @@ class Operation {
   void recursivelySetTimeoutTimer(
       const ad_utility::SharedConcurrentTimeoutTimer& timer);
 
+  // The key for the result of this operation in the cache. Unlike `asString` it
+  // also tells apart results where the same variable is in another column.
+  string getCacheKey() const;
+
+  // Operations that use the names of variables in `asString` have to return the
+  // columns that belong to these variables.
+  virtual string getVariableColumnsForCacheKey() const { return ""; }
+
  protected:
   QueryExecutionContext* getExecutionContext() const {
     return _executionContext;
diff --git a/src/engine/OptionalJoin.cpp b/src/engine/OptionalJoin.cpp
index b801d1f..8bc938e 100644
--- a/src/engine/OptionalJoin.cpp
+++ b/src/engine/OptionalJoin.cpp
@@ -54,6 +54,11 @@ string OptionalJoin::asString(size_t indent) const {
     os << _joinColumns[i][1] << (i < _joinColumns.size() - 1 ? " & " : "");
   };
   os << "]";
+  // The inputs are ordered by their string representation in the constructor,
+  // so the optional one may be on either side.
+  if (_leftOptional) {
+    os << " left is optional";
+  }
   return os.str();
 }
 
diff --git a/src/engine/TransitivePath.cpp b/src/engine/TransitivePath.cpp
index 091220a..9e85186 100644
--- a/src/engine/TransitivePath.cpp
+++ b/src/engine/TransitivePath.cpp
@@ -55,12 +55,12 @@ std::string TransitivePath::asString(size_t indent) const {
   os << " minDist " << _minDist << " maxDist " << _maxDist << "\n";
   os << _subtree->asString(indent) << "\n";
   if (_leftSideTree != nullptr) {
-    os << "Left subtree:\n";
+    os << "Left subtree (col " << _leftSideCol << "):\n";
     os << _leftSideTree->asString(indent) << "\n";
   }
   os << _subtree->asString(indent) << "\n";
   if (_rightSideTree != nullptr) {
-    os << "Right subtree:\n";
+    os << "Right subtree (col " << _rightSideCol << "):\n";
     os << _rightSideTree->asString(indent) << "\n";
   }
   return os.str();
diff --git a/src/engine/Union.cpp b/src/engine/Union.cpp
index 2be208b..b30d16f 100644
--- a/src/engine/Union.cpp
+++ b/src/engine/Union.cpp
@@ -46,6 +46,18 @@ string Union::asString(size_t indent) const {
   }
   os << "UNION\n";
   os << _subtrees[1]->asString(indent) << "\n";
+  // The result depends on which columns of the inputs are merged.
+  os << "columns:";
+  for (const auto& o : _columnOrigins) {
+    for (size_t side : o) {
+      os << ' ';
+      if (side == NO_COLUMN) {
+        os << '-';
+      } else {
+        os << side;
+      }
+    }
+  }
   return os.str();
 }
 
@@ -61,14 +73,20 @@ size_t Union::getResultWidth() const {
 vector<size_t> Union::resultSortedOn() const { return {}; }
 
 ad_utility::HashMap<string, size_t> Union::getVariableColumns() const {
-  ad_utility::HashMap<string, size_t> variableColumns(
-      _subtrees[0]->getVariableColumns());
-
-  size_t column = variableColumns.size();
-  for (auto it : _subtrees[1]->getVariableColumns()) {
-    if (variableColumns.find(it.first) == variableColumns.end()) {
-      variableColumns[it.first] = column;
-      column++;
+  // The subtrees may have columns that do not belong to a variable, so the
+  // columns of the result have to be numbered consecutively.
+  ad_utility::HashMap<string, size_t> variableColumns;
+  for (const auto& subtree : _subtrees) {
+    std::vector<std::pair<size_t, string>> columns;
+    for (const auto& it : subtree->getVariableColumns()) {
+      columns.emplace_back(it.second, it.first);
+    }
+    std::sort(columns.begin(), columns.end());
+    for (const auto& it : columns) {
+      if (!variableColumns.contains(it.second)) {
+        size_t column = variableColumns.size();
+        variableColumns[it.second] = column;
+      }
     }
   }
   return variableColumns;
@@ -140,7 +158,7 @@ void Union::computeResult(ResultTable* result) {
     if (o[0] != NO_COLUMN) {
       result->_resultTypes.push_back(subRes1->getResultType(o[0]));
     } else if (o[1] != NO_COLUMN) {
-      result->_resultTypes.push_back(subRes1->getResultType(o[1]));
+      result->_resultTypes.push_back(subRes2->getResultType(o[1]));
     } else {
       result->_resultTypes.push_back(ResultTable::ResultType::KB);
     }
-- 
2.43.0


From df32da86d1b18ae29cc38a523397f27fdbd6d06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:13 +0000
Subject: [PATCH 013/110] fix: hide the variables that a subquery does not
 select

Variables inside a subquery that are not selected were joined with
variables of the same name outside of it.
---
 src/engine/QueryPlanner.cpp     | 10 ++++++++++
 src/engine/RuntimeInformation.h |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index cb07cc7..d5afaf1 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -320,6 +320,16 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::optimize(
         SubtreePlan plan(_qec);
         plan._qet = std::make_shared<QueryExecutionTree>(
             createExecutionTree(arg._subquery));
+        // Only the selected variables are visible outside of the subquery.
+        auto variableColumns = plan._qet->getVariableColumns();
+        ad_utility::HashMap<string, size_t> selectedColumns;
+        for (const auto& var : arg._subquery._selectedVariables) {
+          auto it = variableColumns.find(var);
+          if (it != variableColumns.end()) {
+            selectedColumns[var] = it->second;
+          }
+        }
+        plan._qet->setVariableColumns(selectedColumns);
         joinCandidates(std::vector{std::move(plan)});
       } else if constexpr (std::is_same_v<T,
                                           GraphPatternOperation::TransPath>) {
diff --git a/src/engine/RuntimeInformation.h b/src/engine/RuntimeInformation.h
index c29e26c..16bd228 100644
--- a/src/engine/RuntimeInformation.h
+++ b/src/engine/RuntimeInformation.h
@@ -93,6 +93,10 @@ class RuntimeInformation {
       const ad_utility::HashMap<std::string, size_t>& columnMap) {
     _columnNames.resize(columnMap.size());
     for (const auto& column : columnMap) {
+      // There may be columns that do not belong to a variable.
+      if (column.second >= _columnNames.size()) {
+        _columnNames.resize(column.second + 1);
+      }
       _columnNames[column.second] = column.first;
     }
   }
-- 
2.43.0


From d38be0dad877f30265a86c1c013e2ed84afbd61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:09 +0000
Subject: [PATCH 014/110] fix: bind property paths to the right side and column

When one side of a transitive path is bound to another result, that result
was sorted on a column of the wrong input, and of two joined paths the wrong
one could be chosen.
---
 src/engine/QueryPlanner.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index d5afaf1..de7a21d 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -3048,7 +3048,8 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
       std::shared_ptr<QueryExecutionTree> other;
       size_t otherCol;
       if (a._qet->getType() ==
-          QueryExecutionTree::OperationType::TRANSITIVE_PATH) {
+              QueryExecutionTree::OperationType::TRANSITIVE_PATH &&
+          jcs[0][0] == 0) {
         srcpath = std::reinterpret_pointer_cast<TransitivePath>(
             a._qet->getRootOperation());
         other = b._qet;
@@ -3071,7 +3072,7 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
           if (other->getType() == QueryExecutionTree::SCAN) {
             return candidates;
           }
-          auto sort = std::make_shared<Sort>(_qec, other, jcs[0][0]);
+          auto sort = std::make_shared<Sort>(_qec, other, otherCol);
           auto sortedOther = std::make_shared<QueryExecutionTree>(_qec);
           sortedOther->setVariableColumns(other->getVariableColumns());
           sortedOther->setContextVars(other->getContextVars());
@@ -3105,7 +3106,8 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
       std::shared_ptr<QueryExecutionTree> other;
       size_t otherCol;
       if (a._qet->getType() ==
-          QueryExecutionTree::OperationType::TRANSITIVE_PATH) {
+              QueryExecutionTree::OperationType::TRANSITIVE_PATH &&
+          jcs[0][0] == 1) {
         srcpath = std::reinterpret_pointer_cast<TransitivePath>(
             a._qet->getRootOperation());
         other = b._qet;
@@ -3127,7 +3129,7 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createJoinCandidates(
           if (other->getType() == QueryExecutionTree::SCAN) {
             return candidates;
           }
-          auto sort = std::make_shared<Sort>(_qec, other, jcs[0][0]);
+          auto sort = std::make_shared<Sort>(_qec, other, otherCol);
           auto sortedOther = std::make_shared<QueryExecutionTree>(_qec);
           sortedOther->setVariableColumns(other->getVariableColumns());
           sortedOther->setContextVars(other->getContextVars());
-- 
2.43.0


From 1aaf25741324cb9fc24edcd969c1b8eecdc2d18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:09 +0000
Subject: [PATCH 015/110] fix: find plans for joins with a subquery that is a
 single scan

The scan of a subquery is never re-sorted, so queries like
{ ?a <p> ?x . { SELECT ?x WHERE { ?b <q> ?x } } } could not be planned if the
cheapest plan of the subquery was sorted on the other variable. All plans of
the subquery are considered now.
---
 src/engine/QueryPlanner.cpp | 54 +++++++++++++++++++++----------------
 src/engine/QueryPlanner.h   |  4 +++
 2 files changed, 35 insertions(+), 23 deletions(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index de7a21d..3e66f1a 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -35,6 +35,16 @@ QueryPlanner::QueryPlanner(QueryExecutionContext* qec)
 
 // _____________________________________________________________________________
 QueryExecutionTree QueryPlanner::createExecutionTree(ParsedQuery& pq) {
+  auto plans = createExecutionPlans(pq);
+  auto minInd = findCheapestExecutionTree(plans);
+
+  LOG(DEBUG) << "Done creating execution plan.\n";
+  return *plans[minInd]._qet;
+}
+
+// _____________________________________________________________________________
+std::vector<QueryPlanner::SubtreePlan> QueryPlanner::createExecutionPlans(
+    ParsedQuery& pq) {
   // Look for ql:has-predicate to determine if the pattern trick should be used.
   // If the pattern trick is used the ql:has-predicate triple will be removed
   // from the list of where clause triples. Otherwise the ql:has-relation triple
@@ -86,21 +96,16 @@ QueryExecutionTree QueryPlanner::createExecutionTree(ParsedQuery& pq) {
     plans.emplace_back(getOrderByRow(pq, plans));
   }
 
-  // Now find the cheapest execution plan and store that as the optimal
-  // plan for this graph pattern.
   vector<SubtreePlan>& lastRow = plans.back();
 
   AD_CHECK_GT(lastRow.size(), 0);
-  auto minInd = findCheapestExecutionTree(lastRow);
-  if (pq._rootGraphPattern._optional) {
-    lastRow[minInd].type = SubtreePlan::OPTIONAL;
+  for (auto& plan : lastRow) {
+    if (pq._rootGraphPattern._optional) {
+      plan.type = SubtreePlan::OPTIONAL;
+    }
+    plan._qet->setTextLimit(getTextLimit(pq._textLimit));
   }
-
-  SubtreePlan final = lastRow[minInd];
-  final._qet->setTextLimit(getTextLimit(pq._textLimit));
-
-  LOG(DEBUG) << "Done creating execution plan.\n";
-  return *final._qet;
+  return lastRow;
 }
 
 std::vector<QueryPlanner::SubtreePlan> QueryPlanner::optimize(
@@ -317,20 +322,23 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::optimize(
         // but abuse them as "optimization hints". In theory, one could even
         // remove the ORDER BY clauses of a subquery if we can prove, that
         // the results will be reordered anyway.
-        SubtreePlan plan(_qec);
-        plan._qet = std::make_shared<QueryExecutionTree>(
-            createExecutionTree(arg._subquery));
-        // Only the selected variables are visible outside of the subquery.
-        auto variableColumns = plan._qet->getVariableColumns();
-        ad_utility::HashMap<string, size_t> selectedColumns;
-        for (const auto& var : arg._subquery._selectedVariables) {
-          auto it = variableColumns.find(var);
-          if (it != variableColumns.end()) {
-            selectedColumns[var] = it->second;
+        std::vector<SubtreePlan> plans;
+        for (const auto& subqueryPlan : createExecutionPlans(arg._subquery)) {
+          SubtreePlan plan(_qec);
+          *plan._qet = *subqueryPlan._qet;
+          // Only the selected variables are visible outside of the subquery.
+          auto variableColumns = plan._qet->getVariableColumns();
+          ad_utility::HashMap<string, size_t> selectedColumns;
+          for (const auto& var : arg._subquery._selectedVariables) {
+            auto it = variableColumns.find(var);
+            if (it != variableColumns.end()) {
+              selectedColumns[var] = it->second;
+            }
           }
+          plan._qet->setVariableColumns(selectedColumns);
+          plans.push_back(std::move(plan));
         }
-        plan._qet->setVariableColumns(selectedColumns);
-        joinCandidates(std::vector{std::move(plan)});
+        joinCandidates(std::move(plans));
       } else if constexpr (std::is_same_v<T,
                                           GraphPatternOperation::TransPath>) {
         // TODO<kramerfl> This is obviously how you set up transitive paths.
diff --git a/src/engine/QueryPlanner.h b/src/engine/QueryPlanner.h
index 6176f86..06dc200 100644
--- a/src/engine/QueryPlanner.h
+++ b/src/engine/QueryPlanner.h
@@ -145,6 +145,10 @@ class QueryPlanner {
     void addAllNodes(uint64_t otherNodes);
   };
 
+  // All plans for the query that are worth considering. Different plans may
+  // have differently sorted results.
+  std::vector<SubtreePlan> createExecutionPlans(ParsedQuery& pq);
+
   TripleGraph createTripleGraph(
       const GraphPatternOperation::BasicGraphPattern* pattern) const;
 
-- 
2.43.0


From c58847f5d1b054af49da5597eaea34b2b8cdade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:47 +0000
Subject: [PATCH 016/110] fix: apply all HAVING conditions

Each condition was applied to the unfiltered groups, so only the last one
had an effect.
---
 src/engine/QueryPlanner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index 3e66f1a..01e548c 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -998,7 +998,7 @@ vector<QueryPlanner::SubtreePlan> QueryPlanner::getHavingRow(
       auto& tree = *plan._qet;
       tree.setVariableColumns(parent._qet->getVariableColumns());
       tree.setOperation(QueryExecutionTree::FILTER,
-                        createFilterOperation(filter, parent));
+                        createFilterOperation(filter, filtered));
       tree.setContextVars(parent._qet->getContextVars());
       filtered = plan;
     }
-- 
2.43.0


From 6c2bc45a90daea83b252a4c686beeaa7f7d96007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:02 +0000
Subject: [PATCH 017/110] fix: no trailing separator in GROUP_CONCAT with
 DISTINCT

---
 src/engine/GroupBy.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index 45ea805..1f393a9 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -454,8 +454,20 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
           }
         }
       }
+      std::string concatenated = out.str();
+      if (a._distinct) {
+        // The last value is not written if it occurred before, so nothing
+        // follows the delimiter that was written last.
+        bool lastIsDuplicate = false;
+        for (size_t i = blockStart; i < blockEnd && !lastIsDuplicate; i++) {
+          lastIsDuplicate = input(i, a._inCol) == input(blockEnd, a._inCol);
+        }
+        if (lastIsDuplicate) {
+          concatenated.resize(concatenated.size() - delim->size());
+        }
+      }
       (*result)(resultRow, a._outCol) = outTable->_localVocab->size();
-      outTable->_localVocab->push_back(out.str());
+      outTable->_localVocab->push_back(std::move(concatenated));
       break;
     }
     case ParsedQuery::AggregateType::MAX: {
-- 
2.43.0


From a7d858e8ec14235c3ee9f431b7ea2c3e5bbf1dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:02 +0000
Subject: [PATCH 018/110] fix: find typed values of a VALUES clause in the data

Numbers and dates were looked up literally, although the vocabulary stores
them in a special form.
---
 src/engine/Values.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/engine/Values.cpp b/src/engine/Values.cpp
index a38fe77..37f0c17 100644
--- a/src/engine/Values.cpp
+++ b/src/engine/Values.cpp
@@ -5,6 +5,7 @@
 #include "Values.h"
 
 #include <sstream>
+#include "../util/Conversions.h"
 #include "../util/Exception.h"
 #include "../util/HashSet.h"
 #include "CallFixedSize.h"
@@ -194,7 +195,12 @@ void Values::writeValues(IdTable* res, const Index& index,
   for (const auto& row : values._values) {
     for (size_t colIdx = 0; colIdx < result.cols(); colIdx++) {
       size_t id;
-      if (!index.getVocab().getId(row[colIdx], &id)) {
+      const string& value = row[colIdx];
+      // Numbers and dates have a special form in the vocabulary.
+      const string word = ad_utility::isXsdValue(value)
+                              ? ad_utility::convertValueLiteralToIndexWord(value)
+                              : value;
+      if (!index.getVocab().getId(word, &id)) {
         getWarnings().push_back("The word " + row[colIdx] +
                                 " is not part of the vocabulary.");
         numSkipped++;
-- 
2.43.0


From 1468a007c9a9ae6293b125278ebe1431757cf114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:03 +0000
Subject: [PATCH 019/110] fix: accept the closing parenthesis of langMatches

---
 src/parser/SparqlParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index cdb303f..96c8989 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -718,6 +718,7 @@ bool SparqlParser::parseFilter(vector<SparqlFilter>* _filters,
     _lexer.expect(",");
     _lexer.expect(SparqlToken::Type::RDFLITERAL);
     std::string rhs = _lexer.current().raw;
+    _lexer.expect(")");
     expectClose();
     addLangFilter(lhs, rhs, pattern);
     return true;
-- 
2.43.0


From 0caf6d6888ffd9cc6fd4b5a7887e58e0f58f7258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:03 +0000
Subject: [PATCH 020/110] fix: compare with constants that are smaller than all
 words of the data

?x <= c and ?x > c treated the smallest word as equal to the constant.
---
 src/engine/Filter.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/engine/Filter.cpp b/src/engine/Filter.cpp
index a91755c..2d7135b 100644
--- a/src/engine/Filter.cpp
+++ b/src/engine/Filter.cpp
@@ -689,11 +689,18 @@ void Filter::computeResultFixedValue(
       } else if (_type == SparqlFilter::GE) {
         rhs = getIndex().getVocab().getValueIdForGE(rhs_string, level);
       } else if (_type == SparqlFilter::GT) {
-        rhs = getIndex().getVocab().getValueIdForGT(rhs_string, level);
+        // All ids from the first greater word on. There might be no word that is
+        // less than or equal to the constant.
+        rhs = getIndex().getVocab().upper_bound(rhs_string, level);
+        rhs_upper_for_range = ID_NO_VALUE;
+        apply_range_filter = true;
       } else if (_type == SparqlFilter::LT) {
         rhs = getIndex().getVocab().getValueIdForLT(rhs_string, level);
       } else if (_type == SparqlFilter::LE) {
-        rhs = getIndex().getVocab().getValueIdForLE(rhs_string, level);
+        rhs = 0;
+        rhs_upper_for_range =
+            getIndex().getVocab().upper_bound(rhs_string, level);
+        apply_range_filter = true;
       }
       // All other types of filters do not use r and work on _rhs directly
       break;
-- 
2.43.0


From 322cbdf822cf959246c57e8e59263141edfd1ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:58:43 +0000
Subject: [PATCH 021/110] fix: AVG with DISTINCT divides by the number of
 distinct values

---
 src/engine/GroupBy.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index 1f393a9..b1851f2 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -196,6 +196,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
   switch (a._type) {
     case ParsedQuery::AggregateType::AVG: {
       float res = 0;
+      size_t numValues = blockEnd - blockStart + 1;
       if (inputTypes[a._inCol] == ResultTable::ResultType::VERBATIM) {
         if (a._distinct) {
           for (size_t i = blockStart; i <= blockEnd; i++) {
@@ -206,6 +207,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
               res += input(i, a._inCol);
             }
           }
+          numValues = distinctHashSet.size();
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i <= blockEnd; i++) {
@@ -226,6 +228,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
               res += tmpF;
             }
           }
+          numValues = distinctHashSet.size();
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i <= blockEnd; i++) {
@@ -256,6 +259,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
               }
             }
           }
+          numValues = distinctHashSet.size();
           distinctHashSet.clear();
         } else {
           for (size_t i = blockStart; i <= blockEnd; i++) {
@@ -273,7 +277,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
           }
         }
       }
-      res /= (blockEnd - blockStart + 1);
+      res /= numValues;
 
       (*result)(resultRow, a._outCol) = 0;
       std::memcpy(&(*result)(resultRow, a._outCol), &res, sizeof(float));
-- 
2.43.0


From 398ef6637f653885f522b87b7f34290b83d60c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:58:43 +0000
Subject: [PATCH 022/110] fix: several language filters for the same variable

The second filter turned the already restricted predicate into one that does
not exist.
---
 src/parser/SparqlParser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index 96c8989..9ed920e 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -850,11 +850,12 @@ void SparqlParser::addLangFilter(const std::string& lhs, const std::string& rhs,
   auto langTag = rhs.substr(1, rhs.size() - 2);
   // First find a suitable triple for the given variable. It
   // must use a predicate that is not a variable or complex
-  // predicate path
+  // predicate path and that is not restricted to a language yet.
   auto& t = lastBasicPattern(pattern)._whereClauseTriples;
   auto it = std::find_if(t.begin(), t.end(), [&lhs](const auto& tr) {
     return tr._o == lhs && (tr._p._operation == PropertyPath::Operation::IRI &&
-                            !isVariable(tr._p));
+                            !isVariable(tr._p) &&
+                            !ad_utility::startsWith(tr._p._iri, "@"));
   });
   if (it == t.end()) {
     LOG(DEBUG) << "language filter variable " + lhs +
-- 
2.43.0


From 8561540feb56a713f6fc66f547a73f8096bb9808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:28 +0000
Subject: [PATCH 023/110] fix: property path sequences that consist of several
 parts

Every part related the ends of the whole sequence, and optional steps were
looked up at the wrong position.
---
 src/engine/QueryPlanner.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index 01e548c..f760822 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -1650,7 +1650,7 @@ std::shared_ptr<ParsedQuery::GraphPattern> QueryPlanner::seedFromSequence(
 
     for (size_t i = chunk[0]; i < chunk[1]; i++) {
       if (path._children[i]._can_be_null) {
-        null_child_indices[i] = num_null_children;
+        null_child_indices[i - chunk[0]] = num_null_children;
         ++num_null_children;
       }
     }
@@ -1673,7 +1673,7 @@ std::shared_ptr<ParsedQuery::GraphPattern> QueryPlanner::seedFromSequence(
       included_ids.clear();
       for (size_t i = chunk[0]; i < chunk[1]; i++) {
         if (!path._children[i]._can_be_null ||
-            (bitmask & (1 << null_child_indices[i])) > 0) {
+            (bitmask & (1 << null_child_indices[i - chunk[0]])) > 0) {
           included_ids.push_back(i);
         }
       }
@@ -1681,12 +1681,12 @@ std::shared_ptr<ParsedQuery::GraphPattern> QueryPlanner::seedFromSequence(
       if (included_ids.empty()) {
         continue;
       }
-      std::string l = left;
+      std::string l = chunkLeft;
       std::string r;
       if (included_ids.size() > 1) {
         r = generateUniqueVarName();
       } else {
-        r = right;
+        r = chunkRight;
       }
 
       // Merge all the child plans into one graph pattern
@@ -1702,7 +1702,7 @@ std::shared_ptr<ParsedQuery::GraphPattern> QueryPlanner::seedFromSequence(
         if (i + 2 < included_ids.size()) {
           r = generateUniqueVarName();
         } else {
-          r = right;
+          r = chunkRight;
         }
       }
       join_patterns.push_back(p);
-- 
2.43.0


From fc5a1bea88fa178783fa622022489205305463d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:28 +0000
Subject: [PATCH 024/110] fix: an alternative of property paths can be empty if
 one of them can

---
 src/parser/ParsedQuery.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/ParsedQuery.cpp b/src/parser/ParsedQuery.cpp
index dc2a201..38389b9 100644
--- a/src/parser/ParsedQuery.cpp
+++ b/src/parser/ParsedQuery.cpp
@@ -180,10 +180,14 @@ std::string PropertyPath::asString() const {
 
 // _____________________________________________________________________________
 void PropertyPath::computeCanBeNull() {
-  _can_be_null = _children.size() > 0;
+  // An alternative can be null if any of its children can, everything else
+  // only if all of them can.
+  const bool isAlternative = _operation == Operation::ALTERNATIVE;
+  _can_be_null = _children.size() > 0 && !isAlternative;
   for (PropertyPath& p : _children) {
     p.computeCanBeNull();
-    _can_be_null &= p._can_be_null;
+    _can_be_null = isAlternative ? _can_be_null || p._can_be_null
+                                 : _can_be_null && p._can_be_null;
   }
   if (_operation == Operation::TRANSITIVE ||
       _operation == Operation::TRANSITIVE_MAX ||
-- 
2.43.0


From 04a5485f3fe2cc199f856dd76ef0a70d350fe15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:02:09 +0000
Subject: [PATCH 025/110] fix: crash for ql:has-predicate with GROUP BY and no
 COUNT

---
 src/engine/QueryPlanner.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index f760822..c1af22f 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -908,6 +908,10 @@ vector<QueryPlanner::SubtreePlan> QueryPlanner::getPatternTrickRow(
   if (!dpTab.empty()) {
     previous = &dpTab.back();
   }
+  // The counts have no name if the query does not select them.
+  const std::string countVarName = pq._aliases.empty()
+                                       ? generateUniqueVarName()
+                                       : pq._aliases[0]._outVarName;
   vector<SubtreePlan> added;
   if (previous != nullptr && !previous->empty()) {
     added.reserve(previous->size());
@@ -946,7 +950,7 @@ vector<QueryPlanner::SubtreePlan> QueryPlanner::getPatternTrickRow(
       auto countPred = std::make_shared<CountAvailablePredicates>(
           _qec, isSorted ? parent._qet : orderByPlan._qet, subjectColumn);
 
-      countPred->setVarNames(patternTrickTriple._o, pq._aliases[0]._outVarName);
+      countPred->setVarNames(patternTrickTriple._o, countVarName);
       QueryExecutionTree& tree = *patternTrickPlan._qet;
       tree.setVariableColumns(countPred->getVariableColumns());
       tree.setOperation(QueryExecutionTree::COUNT_AVAILABLE_PREDICATES,
@@ -959,7 +963,7 @@ vector<QueryPlanner::SubtreePlan> QueryPlanner::getPatternTrickRow(
     auto countPred =
         std::make_shared<CountAvailablePredicates>(_qec, patternTrickTriple._s);
 
-    countPred->setVarNames(patternTrickTriple._o, pq._aliases[0]._outVarName);
+    countPred->setVarNames(patternTrickTriple._o, countVarName);
     QueryExecutionTree& tree = *patternTrickPlan._qet;
     tree.setVariableColumns(countPred->getVariableColumns());
     tree.setOperation(QueryExecutionTree::COUNT_AVAILABLE_PREDICATES,
@@ -970,11 +974,7 @@ vector<QueryPlanner::SubtreePlan> QueryPlanner::getPatternTrickRow(
     SubtreePlan patternTrickPlan(_qec);
     auto countPred = std::make_shared<CountAvailablePredicates>(_qec);
 
-    if (pq._aliases.size() > 0) {
-      countPred->setVarNames(patternTrickTriple._o, pq._aliases[0]._outVarName);
-    } else {
-      countPred->setVarNames(patternTrickTriple._o, generateUniqueVarName());
-    }
+    countPred->setVarNames(patternTrickTriple._o, countVarName);
     QueryExecutionTree& tree = *patternTrickPlan._qet;
     tree.setVariableColumns(countPred->getVariableColumns());
     tree.setOperation(QueryExecutionTree::COUNT_AVAILABLE_PREDICATES,
-- 
2.43.0


From 9274d391509875a9ba14fb7e58c08a1e1d8a2595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:05 +0000
Subject: [PATCH 026/110] fix: subjects after one without predicates in
 ql:has-predicate joins

The scan stopped at the first entity that is no subject of the data.
---
 src/engine/HasPredicateScan.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/engine/HasPredicateScan.cpp b/src/engine/HasPredicateScan.cpp
index 8c67ac6..361996f 100644
--- a/src/engine/HasPredicateScan.cpp
+++ b/src/engine/HasPredicateScan.cpp
@@ -396,8 +396,6 @@ void HasPredicateScan::computeSubqueryS(
         }
         result(backIdx, input.cols()) = predicateData[j];
       }
-    } else {
-      break;
     }
   }
   *dynResult = result.moveToDynamic();
-- 
2.43.0


From 7f6e6de6911994d923c9765e48e3f44e0af33469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:05 +0000
Subject: [PATCH 027/110] fix: columns of rows that share the start node of a
 transitive path

All rows with the same start node got the columns of the first one.
---
 src/engine/TransitivePath.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/engine/TransitivePath.cpp b/src/engine/TransitivePath.cpp
index 9e85186..df4cb25 100644
--- a/src/engine/TransitivePath.cpp
+++ b/src/engine/TransitivePath.cpp
@@ -450,8 +450,16 @@ void TransitivePath::computeTransitivePathLeftBound(
       res.resize(res.size() + num_new);
       checkTimeoutAfterNCalls(num_new * resWidth);
       for (size_t j = 0; j < num_new; j++) {
-        for (size_t c = 0; c < resWidth; c++) {
-          res(res_row + j, c) = res(last_result_begin + j, c);
+        // The connected nodes are the same, the other columns are those of
+        // the current row.
+        res(res_row + j, 0) = res(last_result_begin + j, 0);
+        res(res_row + j, 1) = res(last_result_begin + j, 1);
+        for (size_t k = 2; k < resWidth + 1; k++) {
+          if (k - 2 < leftSideCol) {
+            res(res_row + j, k) = left(i, k - 2);
+          } else if (k - 2 > leftSideCol) {
+            res(res_row + j, k - 1) = left(i, k - 2);
+          }
         }
       }
       continue;
@@ -587,8 +595,16 @@ void TransitivePath::computeTransitivePathRightBound(
       size_t res_row = res.size();
       res.resize(res.size() + num_new);
       for (size_t j = 0; j < num_new; j++) {
-        for (size_t c = 0; c < resWidth; c++) {
-          res(res_row + j, c) = res(last_result_begin + j, c);
+        // The connected nodes are the same, the other columns are those of
+        // the current row.
+        res(res_row + j, 0) = res(last_result_begin + j, 0);
+        res(res_row + j, 1) = res(last_result_begin + j, 1);
+        for (size_t k = 2; k < resWidth + 1; k++) {
+          if (k - 2 < rightSideCol) {
+            res(res_row + j, k) = right(i, k - 2);
+          } else if (k - 2 > rightSideCol) {
+            res(res_row + j, k - 1) = right(i, k - 2);
+          }
         }
       }
       checkTimeoutAfterNCalls(num_new * resWidth);
-- 
2.43.0


From 437133c8ea93a8b10070e7a24142d125387daba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:10:22 +0000
Subject: [PATCH 028/110] fix: read the predicates of entities without a
 pattern

All of them were assigned to the last such entity, and some were skipped.
---
 src/index/Index.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/index/Index.cpp b/src/index/Index.cpp
index 7e1094c..c9bb1a1 100644
--- a/src/index/Index.cpp
+++ b/src/index/Index.cpp
@@ -1069,18 +1069,9 @@ void Index::createFromOnDiskIndex(const string& onDiskBase) {
       vector<vector<Id>> hasPredicateTmp;
       if (entityHasPredicate.size() > 0) {
         hasPredicateTmp.resize(entityHasPredicate.back()[0] + 1);
-        size_t pos = 0;
-        for (size_t i = 0; i < entityHasPredicate.size(); i++) {
-          Id current = entityHasPredicate[i][0];
-          while (current > pos) {
-            pos++;
-          }
-          while (i < entityHasPredicate.size() &&
-                 entityHasPredicate[i][0] == current) {
-            hasPredicateTmp.back().push_back(entityHasPredicate[i][1]);
-            i++;
-          }
-          pos++;
+        for (const auto& entityAndPredicate : entityHasPredicate) {
+          hasPredicateTmp[entityAndPredicate[0]].push_back(
+              entityAndPredicate[1]);
         }
       }
       _hasPredicate.build(hasPredicateTmp);
-- 
2.43.0


From 794dca2fc95b07a338a0562634a79229406fd3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:24 +0000
Subject: [PATCH 029/110] fix: order and width of a transitive path that is
 bound to a subresult

A copy kept the order that was computed before it was bound, and columns
without a variable were not counted.
---
 src/engine/TransitivePath.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/engine/TransitivePath.cpp b/src/engine/TransitivePath.cpp
index df4cb25..04ab768 100644
--- a/src/engine/TransitivePath.cpp
+++ b/src/engine/TransitivePath.cpp
@@ -755,9 +755,12 @@ std::shared_ptr<TransitivePath> TransitivePath::bindLeftSide(
       } else {
         p->_variableColumns[col.first] = col.second + 2;
       }
-      p->_resultWidth++;
     }
   }
+  // There might be columns without a variable.
+  p->_resultWidth += leftop->getResultWidth() - 1;
+  // The copy is ordered like the bound side, not like this operation.
+  p->setResultSortedOn(p->resultSortedOn());
   return p;
 }
 
@@ -777,9 +780,12 @@ std::shared_ptr<TransitivePath> TransitivePath::bindRightSide(
       } else {
         p->_variableColumns[col.first] = col.second + 2;
       }
-      p->_resultWidth++;
     }
   }
+  // There might be columns without a variable.
+  p->_resultWidth += rightop->getResultWidth() - 1;
+  // The copy is ordered like the bound side, not like this operation.
+  p->setResultSortedOn(p->resultSortedOn());
   return p;
 }
 
-- 
2.43.0


From 8b794a370e132bd7f2d72a0dbea256d1e1e02f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:47:05 +0000
Subject: [PATCH 030/110] fix: accept a numeric escape at the very end of a
 literal or IRI

---
 src/parser/RdfEscaping.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/RdfEscaping.cpp b/src/parser/RdfEscaping.cpp
index 1df8443..b5224a0 100644
--- a/src/parser/RdfEscaping.cpp
+++ b/src/parser/RdfEscaping.cpp
@@ -76,7 +76,7 @@ void unescapeStringAndNumericEscapes(InputIterator beginIterator,
   auto pushNumericEscape = [&outputIterator, &endIterator](const auto& iterator,
                                                            size_t length) {
     if constexpr (!acceptOnlyBackslashAndNewline) {
-      AD_CHECK(iterator + length < endIterator);
+      AD_CHECK(iterator + length <= endIterator);
       auto unesc =
           hexadecimalCharactersToUtf8(std::string_view(iterator, length));
       std::copy(unesc.begin(), unesc.end(), outputIterator);
-- 
2.43.0


From cc19137f1ba07c45ff7061cdda5c1917fd268400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:47:36 +0000
Subject: [PATCH 031/110] fix: export all rows of a query with OFFSET but
 without LIMIT

---
 src/engine/QueryExecutionTree.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/engine/QueryExecutionTree.cpp b/src/engine/QueryExecutionTree.cpp
index e5fea88..d0c0f86 100644
--- a/src/engine/QueryExecutionTree.cpp
+++ b/src/engine/QueryExecutionTree.cpp
@@ -3,9 +3,11 @@
 // Author: Björn Buchhold (buchhold@informatik.uni-freiburg.de)
 
 #include "./QueryExecutionTree.h"
+
 #include <algorithm>
 #include <sstream>
 #include <string>
+
 #include "./Distinct.h"
 #include "./Filter.h"
 #include "./IndexScan.h"
@@ -110,7 +112,9 @@ void QueryExecutionTree::writeResultToStream(std::ostream& out,
   }
 
   const IdTable& data = res->_data;
-  size_t upperBound = std::min<size_t>(offset + limit, data.size());
+  size_t upperBound =
+      offset + std::min<size_t>(
+                   limit, data.size() - std::min<size_t>(offset, data.size()));
   writeTable(data, sep, offset, upperBound, validIndices, out);
 
   LOG(DEBUG) << "Done creating readable result.\n";
@@ -210,7 +214,9 @@ nlohmann::json QueryExecutionTree::writeJsonTable(
     return nullptr;
   };
 
-  const auto upperBound = std::min(data.size(), limit + from);
+  const auto upperBound =
+      from + std::min<size_t>(
+                 limit, data.size() - std::min<size_t>(from, data.size()));
 
   for (size_t i = from; i < upperBound; ++i) {
     json.emplace_back();
-- 
2.43.0


From 8404799e349625a53fa94d2ab90943eba6e6aea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:54:03 +0000
Subject: [PATCH 032/110] fix: SPARQL literals in single or triple quotes and
 with numeric escapes

---
 src/parser/SparqlLexer.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/parser/SparqlLexer.cpp b/src/parser/SparqlLexer.cpp
index c67c245..f650653 100644
--- a/src/parser/SparqlLexer.cpp
+++ b/src/parser/SparqlLexer.cpp
@@ -21,7 +21,8 @@ const std::string SparqlLexer::PN_CHARS_BASE =
     "[\\x{3001}-\\x{D7FF}]|[\\x{F900}-\\x{FDCF}]|[\\x{FDF0}-\\x{FFFD}]|"
     "[\\x{10000}-\\x{EFFFF}]";
 const std::string SparqlLexer::WS = R"((\x20|\x09|\x0D|\x0A))";
-const std::string SparqlLexer::ECHAR = R"(\\[tbnrf\\"'])";
+const std::string SparqlLexer::ECHAR =
+    R"(\\[tbnrf\\"']|\\u[0-9a-fA-F]{4}|\\U[0-9a-fA-F]{8})";
 const std::string SparqlLexer::INTEGER = "(-?[0-9]+)";
 const std::string SparqlLexer::FLOAT = "(-?[0-9]+\\.[0-9]+)";
 
@@ -61,7 +62,13 @@ const std::string SparqlLexer::SYMBOL =
     "([\\.\\{\\}\\(\\)\\=\\*,;:<>!\\|/\\^\\?\\*\\+-])";
 
 const std::string SparqlLexer::STRING_LITERAL =
-    "(('([^\\x27\\x5C\\x0A\\x0D]|(" + ECHAR +
+    "((\"\"\"(\"?\"?([^\\x22\\x5C]|(" + ECHAR +
+    ")))*\"\"\")|"
+    "(\'\'\'(\'?\'?([^\\x27\\x5C]|(" +
+    ECHAR +
+    ")))*\'\'\')|"
+    "('([^\\x27\\x5C\\x0A\\x0D]|(" +
+    ECHAR +
     "))*')|"
     "(\"([^\\x22\\x5C\\x0A\\x0D]|(" +
     ECHAR + "))*\"))";
@@ -120,10 +127,17 @@ void SparqlLexer::readNext() {
       _next.type = SparqlToken::Type::IRI;
     } else if (re2::RE2::Consume(&_re_string, RE_RDFLITERAL, &raw)) {
       _next.type = SparqlToken::Type::RDFLITERAL;
-      auto lastQuote = raw.rfind('"');
-      std::string_view quoted{raw.begin(), raw.begin() + lastQuote + 1};
-      std::string_view langtagOrDatatype{raw.begin() + lastQuote + 1,
-                                         raw.end()};
+      // Find the closing quotes, which are the same as the opening ones.
+      const size_t numQuotes =
+          raw.size() >= 6 && raw[1] == raw[0] && raw[2] == raw[0] ? 3 : 1;
+      const std::string quotes(numQuotes, raw[0]);
+      size_t end = numQuotes;
+      while (raw.compare(end, numQuotes, quotes) != 0) {
+        end += raw[end] == '\\' ? 2 : 1;
+      }
+      end += numQuotes;
+      std::string_view quoted{raw.data(), end};
+      std::string_view langtagOrDatatype{raw.data() + end, raw.size() - end};
       raw = RdfEscaping::normalizeRDFLiteral(quoted) + langtagOrDatatype;
       // TODO<joka921, kramerfl> proper (un-)escaping of the RDFLITERAL type
       // requires splitting it up into the different parts (string content + iri
-- 
2.43.0


From ad690217762d77304f50abe81a28cb1c0d6b0fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:54:03 +0000
Subject: [PATCH 033/110] fix: do not unescape literals of a query a second
 time

---
 src/parser/SparqlParser.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index 9ed920e..c8ec81c 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -299,9 +299,7 @@ void SparqlParser::parseWhere(ParsedQuery* query,
           inVar2 = _lexer.current().raw;
         }
       } else if (_lexer.accept(SparqlToken::Type::RDFLITERAL)) {
-        // The "true" says that the whole string is a literal (with "false",
-        // there could be more stuff after the literal).
-        inVar = parseLiteral(_lexer.current().raw, true);
+        inVar = _lexer.current().raw;
         isString = true;
       } else if (_lexer.accept(SparqlToken::Type::INTEGER)) {
         isString = false;
@@ -424,7 +422,7 @@ void SparqlParser::parseWhere(ParsedQuery* query,
         if (_lexer.accept(SparqlToken::Type::VARIABLE)) {
           subject = _lexer.current().raw;
         } else if (_lexer.accept(SparqlToken::Type::RDFLITERAL)) {
-          subject = parseLiteral(_lexer.current().raw, true);
+          subject = _lexer.current().raw;
         } else {
           _lexer.expect(SparqlToken::Type::IRI);
           subject = _lexer.current().raw;
@@ -439,7 +437,7 @@ void SparqlParser::parseWhere(ParsedQuery* query,
         if (_lexer.accept(SparqlToken::Type::VARIABLE)) {
           predicate = _lexer.current().raw;
         } else if (_lexer.accept(SparqlToken::Type::RDFLITERAL)) {
-          predicate = parseLiteral(_lexer.current().raw, true);
+          predicate = _lexer.current().raw;
         } else {
           // Assume the token is a predicate path. This will be verified
           // separately later.
@@ -456,7 +454,7 @@ void SparqlParser::parseWhere(ParsedQuery* query,
       if (_lexer.accept(SparqlToken::Type::VARIABLE)) {
         object = _lexer.current().raw;
       } else if (_lexer.accept(SparqlToken::Type::RDFLITERAL)) {
-        object = parseLiteral(_lexer.current().raw, true);
+        object = _lexer.current().raw;
       } else {
         _lexer.expect(SparqlToken::Type::IRI);
         object = _lexer.current().raw;
-- 
2.43.0


From 4ddcdcb37245a91dcd8ea26f2285e37cd0c82915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:54:26 +0000
Subject: [PATCH 034/110] fix: a query or error message that is not valid UTF-8
 ended the server

---
 src/engine/Server.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/Server.cpp b/src/engine/Server.cpp
index c84d8b7..6c9a36b 100644
--- a/src/engine/Server.cpp
+++ b/src/engine/Server.cpp
@@ -440,7 +440,8 @@ string Server::composeResponseJson(const string& query,
   j["time"]["total"] = requestTimer.msecs();
   j["time"]["computeResult"] = requestTimer.msecs();
   j["exception"] = exception.what();
-  return j.dump(4);
+  // The query or the error message might not be valid UTF-8.
+  return j.dump(4, ' ', false, json::error_handler_t::replace);
 }
 
 // _____________________________________________________________________________
-- 
2.43.0


From 71e96dca44e5bee6fcf451e51765c77764bb1622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:54:27 +0000
Subject: [PATCH 035/110] fix: reject a query that is followed by a further
 token

---
 src/parser/SparqlLexer.cpp  |  9 ++++++---
 src/parser/SparqlParser.cpp | 12 ++++++------
 src/parser/SparqlParser.h   |  4 ++--
 3 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/parser/SparqlLexer.cpp b/src/parser/SparqlLexer.cpp
index f650653..ff2a521 100644
--- a/src/parser/SparqlLexer.cpp
+++ b/src/parser/SparqlLexer.cpp
@@ -95,14 +95,17 @@ SparqlLexer::SparqlLexer(const std::string& sparql)
   readNext();
 }
 
-bool SparqlLexer::empty() const { return _re_string.empty(); }
+bool SparqlLexer::empty() const {
+  // The last token has to be consumed, too.
+  return _re_string.empty() && _next.type == SparqlToken::Type::WS;
+}
 
 void SparqlLexer::readNext() {
   _current = _next;
   _next.type = SparqlToken::Type::WS;
   std::string raw;
   // Return the first token type matched.
-  while (_next.type == SparqlToken::Type::WS && !empty()) {
+  while (_next.type == SparqlToken::Type::WS && !_re_string.empty()) {
     _next.pos = _sparql.size() - _re_string.size();
     if (re2::RE2::Consume(&_re_string, RE_KEYWORD, &raw)) {
       _next.type = SparqlToken::Type::KEYWORD;
@@ -224,7 +227,7 @@ void SparqlLexer::expect(const std::string& raw, bool match_case) {
 void SparqlLexer::expectEmpty() {
   if (!empty()) {
     std::ostringstream s;
-    s << "Expected the end of the input but found "
+    s << "Expected the end of the input but found " << _next.raw
       << _re_string.substr(0, 256);
     throw ParseException(s.str());
   }
diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index c8ec81c..f0198a9 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -27,20 +27,20 @@ ParsedQuery SparqlParser::parse() {
   result._originalString = _query;
   parsePrologue(&result);
   _lexer.expect("select");
-  parseQuery(&result);
+  parseQuery(&result, false);
   _lexer.expectEmpty();
 
   return result;
 }
 
 // _____________________________________________________________________________
-void SparqlParser::parseQuery(ParsedQuery* query) {
+void SparqlParser::parseQuery(ParsedQuery* query, bool isSubquery) {
   parseSelect(query);
 
   _lexer.expect("{");
   parseWhere(query);
 
-  parseSolutionModifiers(query);
+  parseSolutionModifiers(query, isSubquery);
 
   if (query->_groupByVariables.size() > 0) {
     // Check if all selected variables are either aggregated or
@@ -350,7 +350,7 @@ void SparqlParser::parseWhere(ParsedQuery* query,
         // subquery
         // create the subquery operation
         GraphPatternOperation::Subquery subq;
-        parseQuery(&subq._subquery);
+        parseQuery(&subq._subquery, true);
         currentPattern->_children.emplace_back(std::move(subq));
         // The closing bracked } is consumed by the subquery
         _lexer.accept(".");
@@ -629,8 +629,8 @@ void SparqlParser::addWhereTriple(
  */
 
 // _____________________________________________________________________________
-void SparqlParser::parseSolutionModifiers(ParsedQuery* query) {
-  while (!_lexer.empty() && !_lexer.accept("}")) {
+void SparqlParser::parseSolutionModifiers(ParsedQuery* query, bool isSubquery) {
+  while (!_lexer.empty() && !(isSubquery && _lexer.accept("}"))) {
     if (_lexer.accept(SparqlToken::Type::ORDER_BY)) {
       bool reached_end = false;
       while (!reached_end) {
diff --git a/src/parser/SparqlParser.h b/src/parser/SparqlParser.h
index 474b836..934fbf6 100644
--- a/src/parser/SparqlParser.h
+++ b/src/parser/SparqlParser.h
@@ -26,12 +26,12 @@ class SparqlParser {
                              size_t off = 0);
 
  private:
-  void parseQuery(ParsedQuery* query);
+  void parseQuery(ParsedQuery* query, bool isSubquery);
   void parsePrologue(ParsedQuery* query);
   void parseSelect(ParsedQuery* query);
   void parseWhere(ParsedQuery* query,
                   ParsedQuery::GraphPattern* currentPattern = nullptr);
-  void parseSolutionModifiers(ParsedQuery* query);
+  void parseSolutionModifiers(ParsedQuery* query, bool isSubquery);
   void addPrefix(const string& key, const string& value, ParsedQuery* query);
   void addWhereTriple(const string& str,
                       std::shared_ptr<ParsedQuery::GraphPattern> pattern);
-- 
2.43.0


From 4cf23d5e930f9f94c80dd2ba857905cfac3b9711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:36 +0000
Subject: [PATCH 036/110] fix: allow prefixes that begin with a keyword in
 queries

---
 src/parser/SparqlLexer.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/SparqlLexer.cpp b/src/parser/SparqlLexer.cpp
index ff2a521..f3a4c10 100644
--- a/src/parser/SparqlLexer.cpp
+++ b/src/parser/SparqlLexer.cpp
@@ -107,7 +107,10 @@ void SparqlLexer::readNext() {
   // Return the first token type matched.
   while (_next.type == SparqlToken::Type::WS && !_re_string.empty()) {
     _next.pos = _sparql.size() - _re_string.size();
-    if (re2::RE2::Consume(&_re_string, RE_KEYWORD, &raw)) {
+    // Prefixed names come first because a prefix can be like a keyword.
+    if (re2::RE2::Consume(&_re_string, RE_IRI, &raw)) {
+      _next.type = SparqlToken::Type::IRI;
+    } else if (re2::RE2::Consume(&_re_string, RE_KEYWORD, &raw)) {
       _next.type = SparqlToken::Type::KEYWORD;
       raw = ad_utility::getLowercaseUtf8(raw);
     } else if (re2::RE2::Consume(&_re_string, RE_GROUP_BY, &raw)) {
@@ -126,8 +129,6 @@ void SparqlLexer::readNext() {
       _next.type = SparqlToken::Type::LOGICAL_OR;
     } else if (re2::RE2::Consume(&_re_string, RE_VARIABLE, &raw)) {
       _next.type = SparqlToken::Type::VARIABLE;
-    } else if (re2::RE2::Consume(&_re_string, RE_IRI, &raw)) {
-      _next.type = SparqlToken::Type::IRI;
     } else if (re2::RE2::Consume(&_re_string, RE_RDFLITERAL, &raw)) {
       _next.type = SparqlToken::Type::RDFLITERAL;
       // Find the closing quotes, which are the same as the opening ones.
-- 
2.43.0


From eec565130c91b5025f7954944a2673c75db28705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:36 +0000
Subject: [PATCH 037/110] fix: allow a comment between GROUP or ORDER and BY

---
 src/parser/SparqlLexer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/SparqlLexer.cpp b/src/parser/SparqlLexer.cpp
index f3a4c10..41abccb 100644
--- a/src/parser/SparqlLexer.cpp
+++ b/src/parser/SparqlLexer.cpp
@@ -48,8 +48,8 @@ const std::string SparqlLexer::IRI = "((" + LANGTAG + "@)?((" + IRIREF + ")|(" +
 const std::string SparqlLexer::VARNAME =
     "(" + PN_CHARS_U + "|[0-9])(" + PN_CHARS_U +
     "|[0-9]|\\x{00B7}|[\\x{0300}-\\x{036F}]|[\\x{203F}-\\x{2040}])*";
-const std::string SparqlLexer::GROUP_BY = "(?i)(GROUP(\\s)*BY)";
-const std::string SparqlLexer::ORDER_BY = "(?i)(ORDER(\\s)*BY)";
+const std::string SparqlLexer::GROUP_BY = "(?i)(GROUP(\\s|#[^\\n]*\\n)*BY)";
+const std::string SparqlLexer::ORDER_BY = "(?i)(ORDER(\\s|#[^\\n]*\\n)*BY)";
 const std::string SparqlLexer::KEYWORD =
     "(?i)(TEXTLIMIT|PREFIX|SELECT|DISTINCT|REDUCED|"
     "HAVING|WHERE|ASC|AS|LIMIT|OFFSET|DESC|FILTER|VALUES|"
-- 
2.43.0


From 5859e3330a47e984b4e822232b5e78b5dddb1da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:36 +0000
Subject: [PATCH 038/110] fix: allow predicates with non-ASCII characters in
 queries

---
 src/parser/PropertyPathParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/PropertyPathParser.cpp b/src/parser/PropertyPathParser.cpp
index 5f43ab0..4513562 100644
--- a/src/parser/PropertyPathParser.cpp
+++ b/src/parser/PropertyPathParser.cpp
@@ -126,6 +126,10 @@ void PropertyPathParser::initDelimiters() {
       VALID_CHARS[c] = true;
     }
   }
+  // The bytes of non-ASCII characters (encoded as UTF-8) are also valid.
+  for (size_t c = 128; c < 256; c++) {
+    VALID_CHARS[c] = true;
+  }
 }
 
 // _____________________________________________________________________________
-- 
2.43.0


From 20e7798e16ff78927ce83e8915135675044547eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:36 +0000
Subject: [PATCH 039/110] fix: reject predicates that are not an IRI, a path of
 IRIs or a variable

---
 src/parser/SparqlLexer.cpp  |  4 ++++
 src/parser/SparqlLexer.h    |  3 +++
 src/parser/SparqlParser.cpp | 24 ++++++++++++++++++++----
 src/parser/SparqlParser.h   |  4 ++++
 4 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/parser/SparqlLexer.cpp b/src/parser/SparqlLexer.cpp
index 41abccb..20c9f83 100644
--- a/src/parser/SparqlLexer.cpp
+++ b/src/parser/SparqlLexer.cpp
@@ -95,6 +95,10 @@ SparqlLexer::SparqlLexer(const std::string& sparql)
   readNext();
 }
 
+bool SparqlLexer::isIri(const std::string& s) {
+  return re2::RE2::FullMatch(s, RE_IRI);
+}
+
 bool SparqlLexer::empty() const {
   // The last token has to be consumed, too.
   return _re_string.empty() && _next.type == SparqlToken::Type::WS;
diff --git a/src/parser/SparqlLexer.h b/src/parser/SparqlLexer.h
index 869e12a..3cf07fa 100644
--- a/src/parser/SparqlLexer.h
+++ b/src/parser/SparqlLexer.h
@@ -78,6 +78,9 @@ class SparqlLexer {
  public:
   SparqlLexer(const std::string& sparql);
 
+  // True iff the whole of the argument is an IRI or a prefixed name.
+  static bool isIri(const std::string& s);
+
   // True if the entire input stream was consumed
   bool empty() const;
 
diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index f0198a9..d11877a 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -436,8 +436,6 @@ void SparqlParser::parseWhere(ParsedQuery* query,
       if (lastPredicate.empty()) {
         if (_lexer.accept(SparqlToken::Type::VARIABLE)) {
           predicate = _lexer.current().raw;
-        } else if (_lexer.accept(SparqlToken::Type::RDFLITERAL)) {
-          predicate = _lexer.current().raw;
         } else {
           // Assume the token is a predicate path. This will be verified
           // separately later.
@@ -465,8 +463,7 @@ void SparqlParser::parseWhere(ParsedQuery* query,
         object = stripAndLowercaseKeywordLiteral(object);
       }
 
-      SparqlTriple triple(subject, PropertyPathParser(predicate).parse(),
-                          object);
+      SparqlTriple triple(subject, parsePredicate(predicate), object);
       auto& v = lastBasicPattern(currentPattern)._whereClauseTriples;
       if (std::find(v.begin(), v.end(), triple) != v.end()) {
         LOG(INFO) << "Ignoring duplicate triple: " << subject << ' '
@@ -489,6 +486,25 @@ void SparqlParser::parseWhere(ParsedQuery* query,
   }
 }
 
+// _____________________________________________________________________________
+PropertyPath SparqlParser::parsePredicate(const std::string& predicate) {
+  PropertyPath path = PropertyPathParser(predicate).parse();
+  std::vector<const PropertyPath*> toCheck{&path};
+  while (!toCheck.empty()) {
+    const PropertyPath* p = toCheck.back();
+    toCheck.pop_back();
+    if (p->_operation == PropertyPath::Operation::IRI && !isVariable(*p) &&
+        !SparqlLexer::isIri(p->_iri)) {
+      throw ParseException("\"" + p->_iri +
+                           "\" is not an IRI in the predicate " + predicate);
+    }
+    for (const PropertyPath& child : p->_children) {
+      toCheck.push_back(&child);
+    }
+  }
+  return path;
+}
+
 std::string_view SparqlParser::readTriplePart(const std::string& s,
                                               size_t* pos) {
   size_t start = *pos;
diff --git a/src/parser/SparqlParser.h b/src/parser/SparqlParser.h
index 934fbf6..b346d1a 100644
--- a/src/parser/SparqlParser.h
+++ b/src/parser/SparqlParser.h
@@ -52,6 +52,10 @@ class SparqlParser {
   // in s.
   std::string_view readTriplePart(const std::string& s, size_t* pos);
 
+  // Parses a predicate (an iri, a variable or a property path) and checks that
+  // its leaves are iris.
+  static PropertyPath parsePredicate(const std::string& predicate);
+
   static string stripAndLowercaseKeywordLiteral(const string& lit);
   /**
    * If *ptr 's last child is a BasicGraphPattern, return a reference to it.
-- 
2.43.0


From 302d941fc65a91c2be923d7909e79701f33b0c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:36 +0000
Subject: [PATCH 040/110] fix: evaluate filters with the constant on the left
 hand side

---
 src/parser/SparqlParser.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index d11877a..2163dae 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -847,6 +847,30 @@ bool SparqlParser::parseFilter(vector<SparqlFilter>* _filters,
       throw ParseException(_lexer.current().raw +
                            " is not a valid right hand side for a filter.");
     }
+    if (!isVariable(f._lhs)) {
+      // The filter operation expects the variable on the left hand side.
+      if (!isVariable(f._rhs) || f._lhsAsString) {
+        throw ParseException("The comparison of " + f._lhs + " and " + f._rhs +
+                             " in a filter needs a variable.");
+      }
+      std::swap(f._lhs, f._rhs);
+      switch (f._type) {
+        case SparqlFilter::LT:
+          f._type = SparqlFilter::GT;
+          break;
+        case SparqlFilter::LE:
+          f._type = SparqlFilter::GE;
+          break;
+        case SparqlFilter::GT:
+          f._type = SparqlFilter::LT;
+          break;
+        case SparqlFilter::GE:
+          f._type = SparqlFilter::LE;
+          break;
+        default:
+          break;
+      }
+    }
     expectClose();
     _filters->emplace_back(f);
     return true;
-- 
2.43.0


From c92e4e780a63c3dfbb0f0507093cdc7e915fd874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:37 +0000
Subject: [PATCH 041/110] fix: reject malformed declarations of prefixes

---
 src/parser/SparqlParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index 2163dae..be0ce24 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -94,6 +94,11 @@ void SparqlParser::parsePrologue(ParsedQuery* query) {
     string key = _lexer.current().raw;
     _lexer.expect(SparqlToken::Type::IRI);
     string value = _lexer.current().raw;
+    if (key.find(':') != key.size() - 1 ||
+        !ad_utility::startsWith(value, "<")) {
+      throw ParseException("Malformed declaration of a prefix: PREFIX " + key +
+                           " " + value);
+    }
     addPrefix(key, value, query);
   }
 }
-- 
2.43.0


From 6460825419a6dcf9e2a1a03e06c393783d59ad84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:37 +0000
Subject: [PATCH 042/110] fix: do not drop a repeated triple with a property
 path

---
 src/parser/SparqlParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index be0ce24..a312405 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -470,7 +470,10 @@ void SparqlParser::parseWhere(ParsedQuery* query,
 
       SparqlTriple triple(subject, parsePredicate(predicate), object);
       auto& v = lastBasicPattern(currentPattern)._whereClauseTriples;
-      if (std::find(v.begin(), v.end(), triple) != v.end()) {
+      // Only triples of the KB are unique, the two ends of a property path can
+      // be connected more than once.
+      if (triple._p._operation == PropertyPath::Operation::IRI &&
+          std::find(v.begin(), v.end(), triple) != v.end()) {
         LOG(INFO) << "Ignoring duplicate triple: " << subject << ' '
                   << predicate << ' ' << object << std::endl;
       } else {
-- 
2.43.0


From 24258c4d542fa4105aaba81668ee875f20fa365a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:37 +0000
Subject: [PATCH 043/110] fix: handle semicolons and commas at the end of a
 triple

---
 src/parser/SparqlParser.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index a312405..9db4939 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -267,6 +267,12 @@ void SparqlParser::parseWhere(ParsedQuery* query,
           "Expected a closing bracket for WHERE but reached "
           "the end of the input.");
     }
+    if (!lastSubject.empty() &&
+        (_lexer.accept(SparqlToken::Type::KEYWORD) || _lexer.accept("{"))) {
+      throw ParseException(
+          "Expected a further predicate or object for the subject " +
+          lastSubject + " but got " + _lexer.current().raw);
+    }
     if (_lexer.accept("optional")) {
       currentPattern->_children.emplace_back(
           GraphPatternOperation::Optional{ParsedQuery::GraphPattern()});
@@ -481,10 +487,18 @@ void SparqlParser::parseWhere(ParsedQuery* query,
       }
 
       if (_lexer.accept(";")) {
-        lastSubject = subject;
+        while (_lexer.accept(";")) {
+        }
+        // The list of predicates and objects can also end with a semicolon.
+        if (!_lexer.accept(".")) {
+          lastSubject = subject;
+        }
       } else if (_lexer.accept(",")) {
         lastSubject = subject;
         lastPredicate = predicate;
+        if (_lexer.accept("}")) {
+          throw ParseException("Expected an object after the comma.");
+        }
       } else if (_lexer.accept("}")) {
         break;
       } else {
-- 
2.43.0


From 934f4b2903de9e241be29cc829627eb35f65ed0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:37 +0000
Subject: [PATCH 044/110] fix: reject repeated or negative LIMIT and OFFSET and
 an empty SELECT

---
 src/parser/SparqlParser.cpp | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index 9db4939..faba78c 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -115,8 +115,7 @@ void SparqlParser::addPrefix(const string& key, const string& value,
 void SparqlParser::parseSelect(ParsedQuery* query) {
   if (_lexer.accept("distinct")) {
     query->_distinct = true;
-  }
-  if (_lexer.accept("reduced")) {
+  } else if (_lexer.accept("reduced")) {
     query->_reduced = true;
   }
   while (!_lexer.accept("where")) {
@@ -155,6 +154,9 @@ void SparqlParser::parseSelect(ParsedQuery* query) {
       throw ParseException("Keyword WHERE expected after SELECT.");
     }
   }
+  if (query->_selectedVariables.empty()) {
+    throw ParseException("Expected at least one variable after SELECT.");
+  }
 }
 
 // _____________________________________________________________________________
@@ -668,8 +670,18 @@ void SparqlParser::addWhereTriple(
 
 // _____________________________________________________________________________
 void SparqlParser::parseSolutionModifiers(ParsedQuery* query, bool isSubquery) {
+  auto setLimit = [this](string* target, const string& name) {
+    _lexer.expect(SparqlToken::Type::INTEGER);
+    if (!target->empty() || _lexer.current().raw[0] == '-') {
+      throw ParseException(name + " occurs more than once or is negative.");
+    }
+    *target = _lexer.current().raw;
+  };
   while (!_lexer.empty() && !(isSubquery && _lexer.accept("}"))) {
     if (_lexer.accept(SparqlToken::Type::ORDER_BY)) {
+      if (!query->_orderBy.empty()) {
+        throw ParseException("ORDER BY occurs more than once.");
+      }
       bool reached_end = false;
       while (!reached_end) {
         if (_lexer.accept(SparqlToken::Type::VARIABLE)) {
@@ -689,14 +701,11 @@ void SparqlParser::parseSolutionModifiers(ParsedQuery* query, bool isSubquery) {
         }
       }
     } else if (_lexer.accept("limit")) {
-      _lexer.expect(SparqlToken::Type::INTEGER);
-      query->_limit = _lexer.current().raw;
+      setLimit(&query->_limit, "LIMIT");
     } else if (_lexer.accept("textlimit")) {
-      _lexer.expect(SparqlToken::Type::INTEGER);
-      query->_textLimit = _lexer.current().raw;
+      setLimit(&query->_textLimit, "TEXTLIMIT");
     } else if (_lexer.accept("offset")) {
-      _lexer.expect(SparqlToken::Type::INTEGER);
-      query->_offset = _lexer.current().raw;
+      setLimit(&query->_offset, "OFFSET");
     } else if (_lexer.accept(SparqlToken::Type::GROUP_BY)) {
       _lexer.expect(SparqlToken::Type::VARIABLE);
       query->_groupByVariables.emplace_back(_lexer.current().raw);
@@ -708,9 +717,6 @@ void SparqlParser::parseSolutionModifiers(ParsedQuery* query, bool isSubquery) {
       while (parseFilter(&query->_havingClauses, false,
                          &query->_rootGraphPattern)) {
       }
-    } else if (_lexer.accept("textlimit")) {
-      _lexer.expect(SparqlToken::Type::INTEGER);
-      query->_textLimit = std::stoi(_lexer.current().raw);
     } else {
       _lexer.accept();
       throw ParseException("Expected a solution modifier but got " +
@@ -733,7 +739,7 @@ bool SparqlParser::parseFilter(vector<SparqlFilter>* _filters,
       numParentheses--;
     }
   };
-  if (_lexer.accept("lang") && numParentheses) {
+  if (numParentheses && _lexer.accept("lang")) {
     _lexer.expect("(");
     _lexer.expect(SparqlToken::Type::VARIABLE);
     std::string lhs = _lexer.current().raw;
-- 
2.43.0


From e45c31d095077ec5bdde0be39174ea836aaf99c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:37 +0000
Subject: [PATCH 045/110] fix: names of the tokens GROUP BY and ORDER BY in
 error messages

---
 src/parser/SparqlLexer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/SparqlLexer.cpp b/src/parser/SparqlLexer.cpp
index 20c9f83..5d31ce8 100644
--- a/src/parser/SparqlLexer.cpp
+++ b/src/parser/SparqlLexer.cpp
@@ -8,8 +8,8 @@
 #include "Tokenizer.h"
 
 const std::string SparqlToken::TYPE_NAMES[] = {
-    "IRI",       "WS",         "KEYWORD", "VARIABLE", "SYMBOL",
-    "AGGREGATE", "RDFLITERAL", "INTEGER", "FLOAT",    "LOGICAL_OR"};
+    "IRI",    "WS",        "KEYWORD",    "GROUP_BY", "ORDER_BY", "VARIABLE",
+    "SYMBOL", "AGGREGATE", "RDFLITERAL", "INTEGER",  "FLOAT",    "LOGICAL_OR"};
 
 const std::string SparqlLexer::LANGTAG = "@[a-zA-Z]+(-[a-zA-Z0-9]+)*";
 const std::string SparqlLexer::IRIREF =
-- 
2.43.0


From b4c2045c951ecc35d18fc820106b7e737072acd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:55 +0000
Subject: [PATCH 046/110] fix: expand prefixes in the filters of nested groups
 and in HAVING

---
 src/parser/ParsedQuery.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/parser/ParsedQuery.cpp b/src/parser/ParsedQuery.cpp
index 38389b9..31799d6 100644
--- a/src/parser/ParsedQuery.cpp
+++ b/src/parser/ParsedQuery.cpp
@@ -257,13 +257,16 @@ void ParsedQuery::expandPrefixes() {
     prefixMap[p._prefix] = p._uri;
   }
 
-  for (auto& f : _rootGraphPattern._filters) {
-    expandPrefix(f._lhs, prefixMap);
-    // TODO<joka921>: proper type system for variable/regex/iri/etc
-    if (f._type != SparqlFilter::REGEX) {
-      expandPrefix(f._rhs, prefixMap);
+  auto expandFilters = [&prefixMap](vector<SparqlFilter>* filters) {
+    for (auto& f : *filters) {
+      expandPrefix(f._lhs, prefixMap);
+      // TODO<joka921>: proper type system for variable/regex/iri/etc
+      if (f._type != SparqlFilter::REGEX) {
+        expandPrefix(f._rhs, prefixMap);
+      }
     }
-  }
+  };
+  expandFilters(&_havingClauses);
 
   vector<GraphPattern*> graphPatterns;
   graphPatterns.push_back(&_rootGraphPattern);
@@ -272,6 +275,7 @@ void ParsedQuery::expandPrefixes() {
   while (!graphPatterns.empty()) {
     GraphPattern* pattern = graphPatterns.back();
     graphPatterns.pop_back();
+    expandFilters(&pattern->_filters);
     for (GraphPatternOperation& p : pattern->_children) {
       p.visit([&graphPatterns, &prefixMap = std::as_const(prefixMap),
                this](auto&& arg) {
-- 
2.43.0


From 17c96cef9f49c17f2efc32ee4257352e44b710c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:55 +0000
Subject: [PATCH 047/110] fix: do not take a part of a literal for a prefix in
 a query

---
 src/parser/ParsedQuery.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/parser/ParsedQuery.cpp b/src/parser/ParsedQuery.cpp
index 31799d6..dd75692 100644
--- a/src/parser/ParsedQuery.cpp
+++ b/src/parser/ParsedQuery.cpp
@@ -374,20 +374,21 @@ void ParsedQuery::expandPrefix(
       item = item.substr(secondPos + 1);
     }
 
-    size_t i = item.find(':');
-    size_t from = item.find("^^");
-    if (from == string::npos) {
-      from = 0;
-    } else {
+    size_t from = 0;
+    if (ad_utility::startsWith(item, "\"")) {
+      // Only the datatype of a literal can contain a prefix.
+      from = item.rfind('"') + 1;
+      if (item.compare(from, 2, "^^") != 0) {
+        return;
+      }
       from += 2;
     }
-    if (i != string::npos && i >= from &&
-        prefixMap.contains(item.substr(from, i - from))) {
+    size_t i = item.find(':', from);
+    if (i != string::npos && prefixMap.contains(item.substr(from, i - from))) {
       string prefixUri = prefixMap.at(item.substr(from, i - from));
       // Note that substr(0, 0) yields the empty string.
       item = item.substr(0, from) + prefixUri.substr(0, prefixUri.size() - 1) +
-             item.substr(i + 1) + '>';
-      item = RdfEscaping::unescapePrefixedIri(item);
+             RdfEscaping::unescapePrefixedIri(item.substr(i + 1)) + '>';
     }
     if (langtag) {
       item =
-- 
2.43.0


From 5c2edc11ef3c69f89c32986095ee0e3173541bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:05:57 +0000
Subject: [PATCH 048/110] fix: data race in the initialization of the property
 path parser

---
 src/parser/PropertyPathParser.cpp | 10 ++++------
 src/parser/PropertyPathParser.h   |  1 -
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/parser/PropertyPathParser.cpp b/src/parser/PropertyPathParser.cpp
index 4513562..daa76b7 100644
--- a/src/parser/PropertyPathParser.cpp
+++ b/src/parser/PropertyPathParser.cpp
@@ -13,8 +13,6 @@
 #include "../util/StringUtils.h"
 #include "ParseException.h"
 
-bool PropertyPathParser::delimiters_initialized = false;
-
 std::array<bool, 256> PropertyPathParser::DELIMITER_CHARS;
 std::array<bool, 256> PropertyPathParser::VALID_CHARS;
 
@@ -37,10 +35,10 @@ PropertyPath PropertyPathParser::parse() {
 // _____________________________________________________________________________
 std::vector<PropertyPathParser::Token> PropertyPathParser::tokenize(
     std::string_view str) {
-  // runs only once to initialize the delimiter characters
-  if (!delimiters_initialized) {
-    initDelimiters();
-  }
+  // runs only once to initialize the delimiter characters, also when several
+  // queries are parsed at the same time
+  static const bool initialized = (initDelimiters(), true);
+  (void)initialized;
 
   std::vector<Token> tokens;
 
diff --git a/src/parser/PropertyPathParser.h b/src/parser/PropertyPathParser.h
index 7f678e4..b42fcdf 100644
--- a/src/parser/PropertyPathParser.h
+++ b/src/parser/PropertyPathParser.h
@@ -88,5 +88,4 @@ class PropertyPathParser {
   // Static members
   static std::array<bool, 256> DELIMITER_CHARS;
   static std::array<bool, 256> VALID_CHARS;
-  static bool delimiters_initialized;
 };
-- 
2.43.0


From 95feec003d7273ca07eea8a4dd400d5f938f8f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:16:19 +0000
Subject: [PATCH 049/110] fix: reject a question mark without a name as
 predicate

---
 src/parser/SparqlLexer.cpp  | 4 ++++
 src/parser/SparqlLexer.h    | 2 ++
 src/parser/SparqlParser.cpp | 3 ++-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/SparqlLexer.cpp b/src/parser/SparqlLexer.cpp
index 5d31ce8..4603285 100644
--- a/src/parser/SparqlLexer.cpp
+++ b/src/parser/SparqlLexer.cpp
@@ -99,6 +99,10 @@ bool SparqlLexer::isIri(const std::string& s) {
   return re2::RE2::FullMatch(s, RE_IRI);
 }
 
+bool SparqlLexer::isVariable(const std::string& s) {
+  return re2::RE2::FullMatch(s, RE_VARIABLE);
+}
+
 bool SparqlLexer::empty() const {
   // The last token has to be consumed, too.
   return _re_string.empty() && _next.type == SparqlToken::Type::WS;
diff --git a/src/parser/SparqlLexer.h b/src/parser/SparqlLexer.h
index 3cf07fa..869f78e 100644
--- a/src/parser/SparqlLexer.h
+++ b/src/parser/SparqlLexer.h
@@ -80,6 +80,8 @@ class SparqlLexer {
 
   // True iff the whole of the argument is an IRI or a prefixed name.
   static bool isIri(const std::string& s);
+  // True iff the whole of the argument is a variable.
+  static bool isVariable(const std::string& s);
 
   // True if the entire input stream was consumed
   bool empty() const;
diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index faba78c..5579e99 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -517,7 +517,8 @@ PropertyPath SparqlParser::parsePredicate(const std::string& predicate) {
   while (!toCheck.empty()) {
     const PropertyPath* p = toCheck.back();
     toCheck.pop_back();
-    if (p->_operation == PropertyPath::Operation::IRI && !isVariable(*p) &&
+    if (p->_operation == PropertyPath::Operation::IRI &&
+        !(p == &path && SparqlLexer::isVariable(p->_iri)) &&
         !SparqlLexer::isIri(p->_iri)) {
       throw ParseException("\"" + p->_iri +
                            "\" is not an IRI in the predicate " + predicate);
-- 
2.43.0


From eb79af08f162cb2ad7878bf22772cf6b46199d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:16:19 +0000
Subject: [PATCH 050/110] fix: reject a repeated GROUP BY

---
 src/parser/SparqlParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index 5579e99..9135ae1 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -708,6 +708,9 @@ void SparqlParser::parseSolutionModifiers(ParsedQuery* query, bool isSubquery) {
     } else if (_lexer.accept("offset")) {
       setLimit(&query->_offset, "OFFSET");
     } else if (_lexer.accept(SparqlToken::Type::GROUP_BY)) {
+      if (!query->_groupByVariables.empty()) {
+        throw ParseException("GROUP BY occurs more than once.");
+      }
       _lexer.expect(SparqlToken::Type::VARIABLE);
       query->_groupByVariables.emplace_back(_lexer.current().raw);
       while (_lexer.accept(SparqlToken::Type::VARIABLE)) {
-- 
2.43.0


From 14b121c7b4ede3de10dac3511748bc9ef6026962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:27:56 +0000
Subject: [PATCH 051/110] fix: give an externalized word that occurs in several
 partial vocabularies only one id

---
 src/index/VocabularyGeneratorImpl.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/index/VocabularyGeneratorImpl.h b/src/index/VocabularyGeneratorImpl.h
index 167ff33..9aafc2c 100644
--- a/src/index/VocabularyGeneratorImpl.h
+++ b/src/index/VocabularyGeneratorImpl.h
@@ -157,7 +157,9 @@ void VocabularyMerger::writeQueueWordsToIdVec(const std::vector<QueueWord>& buff
         _outfile << RdfEscaping::escapeNewlinesAndBackslashes(_lastWritten) << '\n';
       } else {
         // we have to strip the externalization character again
-        auto& c = _lastWritten[0];
+        // (in a copy, `_lastWritten` is still needed to recognize duplicates)
+        std::string externalWord = _lastWritten;
+        auto& c = externalWord[0];
         switch (c) {
           case EXTERNALIZED_LITERALS_PREFIX_CHAR:
             c = '"';
@@ -171,7 +173,9 @@ void VocabularyMerger::writeQueueWordsToIdVec(const std::vector<QueueWord>& buff
                           "should never happen\n";
             AD_CHECK(false)
         }
-        _outfileExternal << RdfEscaping::escapeNewlinesAndBackslashes(_lastWritten) << '\n';
+        _outfileExternal << RdfEscaping::escapeNewlinesAndBackslashes(
+                                externalWord)
+                         << '\n';
       }
 
       // write id to corresponding vec
-- 
2.43.0


From 69d6bf7629241e83d19f723d27443b342763f163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:27:56 +0000
Subject: [PATCH 052/110] fix: language-tagged predicates of externalized
 predicates

---
 src/index/IndexBuilderTypes.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/index/IndexBuilderTypes.h b/src/index/IndexBuilderTypes.h
index c307c21..e8fa303 100644
--- a/src/index/IndexBuilderTypes.h
+++ b/src/index/IndexBuilderTypes.h
@@ -132,10 +132,15 @@ auto getIdMapLambdas(std::array<ItemMapManager, Parallelism>* itemArrayPtr,
         // get the Id for the corresponding langtag Entity
         auto langTagId = map.assignNextId(
             ad_utility::convertLangtagToEntityUri(lt._langtag));
-        // get the Id for the tagged predicate, e.g. @en@rdfs:label
+        // get the Id for the tagged predicate, e.g. @en@rdfs:label (also if the
+        // predicate itself is externalized)
+        std::string predicate = lt._triple[1];
+        if (predicate[0] == EXTERNALIZED_ENTITIES_PREFIX_CHAR) {
+          predicate[0] = '<';
+        }
         auto langTaggedPredId =
             map.assignNextId(ad_utility::convertToLanguageTaggedPredicate(
-                lt._triple[1], lt._langtag));
+                predicate, lt._langtag));
         auto& spoIds = *(res[0]);  // ids of original triple
         // extra triple <subject> @language@<predicate> <object>
         res[1].emplace(array<Id, 3>{spoIds[0], langTaggedPredId, spoIds[2]});
-- 
2.43.0


From b08dc4d0b634263f8abcdf13c62bf22ad836751a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:27:56 +0000
Subject: [PATCH 053/110] fix: FILTER with = and != on externalized IRIs

---
 src/engine/Filter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/engine/Filter.cpp b/src/engine/Filter.cpp
index 2d7135b..0c89ac5 100644
--- a/src/engine/Filter.cpp
+++ b/src/engine/Filter.cpp
@@ -684,6 +684,13 @@ void Filter::computeResultFixedValue(
         rhs = getIndex().getVocab().lower_bound(rhs_string, level);
         rhs_upper_for_range =
             getIndex().getVocab().upper_bound(rhs_string, level);
+        Id externalId;
+        if (rhs == rhs_upper_for_range &&
+            getIndex().getVocab().getId(rhs_string, &externalId)) {
+          // The word is part of the external vocabulary.
+          rhs = externalId;
+          rhs_upper_for_range = externalId + 1;
+        }
         apply_range_filter = true;
         range_filter_inverse = _type == SparqlFilter::NE;
       } else if (_type == SparqlFilter::GE) {
-- 
2.43.0


From 3fa2568fbd995736539fcf3984be8fe948375e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:15:18 +0000
Subject: [PATCH 054/110] fix: erase() of the cache did not compile for
 unpinned entries

---
 src/util/Cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/Cache.h b/src/util/Cache.h
index d89c9f0..5533392 100644
--- a/src/util/Cache.h
+++ b/src/util/Cache.h
@@ -274,7 +274,7 @@ class FlexibleCache {
       return;
     }
     // the entry exists in the non-pinned part of the cache, erase it.
-    _totalSizeNonPinned -= _valueSizeGetter(*mapIt->second);
+    _totalSizeNonPinned -= _valueSizeGetter(*mapIt->second.value().value());
     _entries.erase(std::move(mapIt->second));
     _accessMap.erase(mapIt);
   }
-- 
2.43.0


From d17bdcdbea3f28ab6ef6eda63766ed7dc3d481ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:14:25 +0000
Subject: [PATCH 055/110] fix: appending a table's own row while the table
 grows

---
 src/engine/IdTable.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/engine/IdTable.h b/src/engine/IdTable.h
index 01ca059..a272179 100644
--- a/src/engine/IdTable.h
+++ b/src/engine/IdTable.h
@@ -897,9 +897,13 @@ class IdTableTemplated : private IdTableImpl<COLS, DATA, Allocator> {
            std::is_same_v<std::decay_t<T>, std::decay_t<const_row_type>>)>>
   void push_back(const T& init) {
     if (_size + 1 >= _capacity) {
+      // `init` might be a row of this table, which moves when growing.
+      const std::vector<Id> row(init.data(), init.data() + _cols);
       grow();
+      std::memcpy(data() + _size * _cols, row.data(), sizeof(Id) * _cols);
+    } else {
+      std::memcpy(data() + _size * _cols, init.data(), sizeof(Id) * _cols);
     }
-    std::memcpy(data() + _size * _cols, init.data(), sizeof(Id) * _cols);
     _size++;
   }
 
-- 
2.43.0


From a16365a7955f2bbad97e9c4e67887c2dc9665902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:14:25 +0000
Subject: [PATCH 056/110] fix: disk-backed array accepts a file that lost its
 beginning

---
 src/util/MmapVectorImpl.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util/MmapVectorImpl.h b/src/util/MmapVectorImpl.h
index ffb2ac4..278f525 100644
--- a/src/util/MmapVectorImpl.h
+++ b/src/util/MmapVectorImpl.h
@@ -55,7 +55,8 @@ void MmapVector<T>::readMetaDataFromEnd() {
   static constexpr off_t metaDataSize = sizeof(_size) + sizeof(_capacity) +
                                         sizeof(_bytesize) +
                                         sizeof(MagicNumber) + sizeof(Version);
-  if (fs.tellg() == -1 || static_cast<size_t>(fs.tellg()) < metaDataSize) {
+  const auto fileSize = fs.tellg();
+  if (fileSize == -1 || static_cast<size_t>(fileSize) < metaDataSize) {
     throw InvalidFileException();
   }
   fs.seekg(-metaDataSize, std::ios_base::end);
@@ -70,7 +71,8 @@ void MmapVector<T>::readMetaDataFromEnd() {
   fs.read((char*)&tmpMagic, sizeof(tmpMagic));
   fs.read((char*)&tmpVersion, sizeof(tmpVersion));
   fs.close();
-  if (tmpMagic != MagicNumber || tmpVersion != Version) {
+  if (tmpMagic != MagicNumber || tmpVersion != Version ||
+      static_cast<size_t>(fileSize) != _bytesize + metaDataSize) {
     throw InvalidFileException();
   }
 }
-- 
2.43.0


From df3efb3938f0d307933f74ad65bbd015ee98188d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:14:25 +0000
Subject: [PATCH 057/110] fix: temporary disk-backed arrays leave files behind
 when closed, reopened or assigned to

---
 src/util/MmapVector.h | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/util/MmapVector.h b/src/util/MmapVector.h
index 7aae592..9549eba 100644
--- a/src/util/MmapVector.h
+++ b/src/util/MmapVector.h
@@ -350,11 +350,25 @@ template <class T>
 class MmapVectorTmp : public MmapVector<T> {
  public:
   void open(std::string filename) {
+    close();
     MmapVector<T>::open(std::move(filename), CreateTag());
   }
 
+  // Close the vector and delete the file if we still own one.
+  void close() {
+    // if the filename is not empty, we still own a file
+    std::string oldFilename = this->_filename;
+    MmapVector<T>::close();
+    if (!oldFilename.empty()) {
+      ad_utility::deleteFile(oldFilename);
+    }
+  }
+
   MmapVectorTmp<T>& operator=(MmapVectorTmp<T>&& rhs) noexcept {
-    MmapVector<T>::operator=(rhs);
+    if (this != &rhs) {
+      close();
+      MmapVector<T>::operator=(std::move(rhs));
+    }
     return *this;
   }
 
@@ -374,14 +388,7 @@ class MmapVectorTmp : public MmapVector<T> {
 
   // If we still own a file, delete it after cleaning up
   // everything else
-  ~MmapVectorTmp() {
-    // if the filename is not empty, we still own a file
-    std::string oldFilename = this->_filename;
-    this->close();
-    if (!oldFilename.empty()) {
-      ad_utility::deleteFile(oldFilename);
-    }
-  }
+  ~MmapVectorTmp() { close(); }
 };
 
 }  // namespace ad_utility
-- 
2.43.0


From c1cffeee0d7486e219453c27e32ff81da57a3349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:14:25 +0000
Subject: [PATCH 058/110] fix: opening another file with a disk-backed array
 loses what was appended to the first

---
 src/util/MmapVectorImpl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/MmapVectorImpl.h b/src/util/MmapVectorImpl.h
index 278f525..5f494ae 100644
--- a/src/util/MmapVectorImpl.h
+++ b/src/util/MmapVectorImpl.h
@@ -218,7 +218,8 @@ void MmapVector<T>::open(It begin, It end, const string& filename,
 // _______________________________________________________________________
 template <class T>
 void MmapVector<T>::open(size_t size, string filename, AccessPattern pattern) {
-  unmap();
+  // also makes the contents of a previously opened file persistent
+  close();
   _size = size;
   _filename = std::move(filename);
   _pattern = pattern;
@@ -240,7 +241,7 @@ void MmapVector<T>::open(size_t size, string filename, AccessPattern pattern) {
 // _____________________________________________________________
 template <class T>
 void MmapVector<T>::open(string filename, ReuseTag, AccessPattern pattern) {
-  unmap();
+  close();
   _filename = std::move(filename);
   _pattern = pattern;
   readMetaDataFromEnd();
-- 
2.43.0


From 463eb4de1b1ccede185441453a7fcff667d80381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:14:25 +0000
Subject: [PATCH 059/110] fix: disk-backed array of large elements cannot grow
 after being cleared

---
 src/util/MmapVectorImpl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/MmapVectorImpl.h b/src/util/MmapVectorImpl.h
index 5f494ae..007f66a 100644
--- a/src/util/MmapVectorImpl.h
+++ b/src/util/MmapVectorImpl.h
@@ -163,7 +163,7 @@ void MmapVector<T>::adaptCapacity(size_t newCapacity) {
 template <class T>
 void MmapVector<T>::resize(size_t newSize) {
   _size = newSize;
-  adaptCapacity(newSize);
+  adaptCapacity(std::max(newSize, MinCapacity));
 }
 
 // _________________________________________________________________
-- 
2.43.0


From d85c897d0add1cca451a10de4b4d032f6899b8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:14:25 +0000
Subject: [PATCH 060/110] fix: appending an element of the disk-backed array
 itself while it grows

---
 src/util/MmapVectorImpl.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/util/MmapVectorImpl.h b/src/util/MmapVectorImpl.h
index 007f66a..2630d59 100644
--- a/src/util/MmapVectorImpl.h
+++ b/src/util/MmapVectorImpl.h
@@ -170,8 +170,13 @@ void MmapVector<T>::resize(size_t newSize) {
 template <class T>
 void MmapVector<T>::push_back(T&& el) {
   if (_size == _capacity) {
+    // `el` might be an element of this vector, which moves when growing.
+    T tmp = std::move(el);
     adaptCapacity(_capacity * ResizeFactor);
     AD_CHECK(_capacity > _size);
+    _ptr[_size] = std::move(tmp);
+    ++_size;
+    return;
   }
   _ptr[_size] = std::move(el);
   ++_size;
@@ -181,8 +186,9 @@ void MmapVector<T>::push_back(T&& el) {
 template <class T>
 void MmapVector<T>::push_back(const T& el) {
   if (_size == _capacity) {
-    adaptCapacity(_capacity * ResizeFactor);
-    AD_CHECK(_capacity > _size);
+    // `el` might be an element of this vector, which moves when growing.
+    push_back(T(el));
+    return;
   }
   _ptr[_size] = el;
   ++_size;
-- 
2.43.0


From 4562c41b433dbe991e39bbb6ab5316b970cae710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:26:04 +0000
Subject: [PATCH 061/110] fix: limited allocators of different types could not
 be used together

---
 src/util/AllocatorWithLimit.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/util/AllocatorWithLimit.h b/src/util/AllocatorWithLimit.h
index 7d6f568..c7ee3ba 100644
--- a/src/util/AllocatorWithLimit.h
+++ b/src/util/AllocatorWithLimit.h
@@ -113,6 +113,9 @@ makeAllocationMemoryLeftThreadsafeObject(size_t n) {
  */
 template <typename T>
 class AllocatorWithLimit {
+  template <typename U>
+  friend class AllocatorWithLimit;
+
  public:
   using value_type = T;
 
@@ -167,15 +170,13 @@ class AllocatorWithLimit {
   // The STL needs two allocators to be equal if and only they refer to the same
   // memory pool. For us, they are hence equal if they use the same
   // AllocationMemoryLeft object.00
-  template <typename U, typename V>
-  friend bool operator==(const AllocatorWithLimit<U>& u,
-                         const AllocatorWithLimit<V>& v) {
-    return u.memoryLeft_ == v.memoryLeft_;
+  template <typename V>
+  bool operator==(const AllocatorWithLimit<V>& v) const {
+    return memoryLeft_ == v.memoryLeft_;
   }
-  template <typename U, typename V>
-  friend bool operator!=(const AllocatorWithLimit<U>& u,
-                         const AllocatorWithLimit<V>& v) {
-    return !(u == v);
+  template <typename V>
+  bool operator!=(const AllocatorWithLimit<V>& v) const {
+    return !(*this == v);
   }
 };
 
-- 
2.43.0


From 2a7518e80afc7423d43923b534e9f96089fd44e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:31:15 +0000
Subject: [PATCH 062/110] fix: failed allocation through the limited allocator
 kept its share of the limit

---
 src/util/AllocatorWithLimit.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/util/AllocatorWithLimit.h b/src/util/AllocatorWithLimit.h
index c7ee3ba..620e277 100644
--- a/src/util/AllocatorWithLimit.h
+++ b/src/util/AllocatorWithLimit.h
@@ -6,6 +6,7 @@
 #define QLEVER_ALLOCATORWITHLIMIT_H
 
 #include <atomic>
+#include <limits>
 #include <memory>
 
 #include "Synchronized.h"
@@ -141,11 +142,21 @@ class AllocatorWithLimit {
   // An allocator must have a function "allocate" with exactly this signature.
   // TODO<C++20> : the exact signature of allocate changes
   T* allocate(std::size_t n) {
+    // More than can be expressed as a number of bytes is never left.
+    if (n > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+      throw detail::AllocationExceedsLimitException{
+          std::numeric_limits<std::size_t>::max(), numFreeBytes()};
+    }
     // Subtract the amount of memory we want to allocate from the amount of
     // memory left. This will throw an exception if not enough memory is left.
     memoryLeft_.ptr()->wlock()->decrease_if_enough_left(n * sizeof(T));
     // the actual allocation
-    return allocator_.allocate(n);
+    try {
+      return allocator_.allocate(n);
+    } catch (...) {
+      memoryLeft_.ptr()->wlock()->increase(n * sizeof(T));
+      throw;
+    }
   }
 
   // An allocator must have a function "deallocate" with exactly this signature.
-- 
2.43.0


From 463c1bd4bd70f5704c5087e4fced501d3356ae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:37:39 +0000
Subject: [PATCH 063/110] fix: failed copy assignment of an IdTable left it
 with a wrong size

---
 src/engine/IdTable.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/engine/IdTable.h b/src/engine/IdTable.h
index a272179..8f8e5ea 100644
--- a/src/engine/IdTable.h
+++ b/src/engine/IdTable.h
@@ -758,7 +758,14 @@ class IdTableTemplated : private IdTableImpl<COLS, DATA, Allocator> {
   // Move constructor
   IdTableTemplated(IdTableTemplated&& other) noexcept = default;
   // copy assignment
-  IdTableTemplated& operator=(const IdTableTemplated& other) = default;
+  // Copy first, such that this table is unchanged if there is not enough memory.
+  IdTableTemplated& operator=(const IdTableTemplated& other) {
+    if (this != &other) {
+      IdTableTemplated copy(other);
+      *this = std::move(copy);
+    }
+    return *this;
+  }
   // move assignment
   IdTableTemplated& operator=(IdTableTemplated&& other) noexcept = default;
 
-- 
2.43.0


From aaa479c695fada5539d3c0d65a7525ba70bf12e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:06:01 +0000
Subject: [PATCH 064/110] fix: scan for a key beyond the last one of its block
 read past the block

---
 src/index/Index.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/index/Index.cpp b/src/index/Index.cpp
index c9bb1a1..836d67f 100644
--- a/src/index/Index.cpp
+++ b/src/index/Index.cpp
@@ -1141,7 +1141,7 @@ void Index::scanFunctionalRelation(const pair<off_t, size_t>& blockOff,
   auto it = std::lower_bound(
       block.begin(), block.end(), lhsId,
       [](const array<Id, 2>& elem, Id key) { return elem[0] < key; });
-  if ((*it)[0] == lhsId) {
+  if (it != block.end() && (*it)[0] == lhsId) {
     result->push_back({(*it)[1]});
   }
   LOG(TRACE) << "Read " << result->size() << " RHS.\n";
@@ -1166,7 +1166,7 @@ void Index::scanNonFunctionalRelation(const pair<off_t, size_t>& blockOff,
   auto it = std::lower_bound(
       block.begin(), block.end(), lhsId,
       [](const pair<Id, off_t>& elem, Id key) { return elem.first < key; });
-  if (it->first == lhsId) {
+  if (it != block.end() && it->first == lhsId) {
     size_t nofBytes = 0;
     if ((it + 1) != block.end()) {
       LOG(TRACE) << "Obtained upper bound from same block!\n";
-- 
2.43.0


From 3f418c8ea5096d2850b1a77999ed8678a4f438b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:06:01 +0000
Subject: [PATCH 065/110] fix: negative numbers were sorted in the wrong order

---
 src/util/Conversions.h | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/util/Conversions.h b/src/util/Conversions.h
index b4c6bd4..86209e7 100644
--- a/src/util/Conversions.h
+++ b/src/util/Conversions.h
@@ -50,17 +50,17 @@ enum class NumericType : char {
 };
 
 //! Converts strings like "12.34" to :v:float:PP0*2E0*1234F and -0.123 to
-//! :v:float:M-0*1E9*876F with the last F used to indicate that the value was
+//! :v:float:MP0*1E9*876F with the last F used to indicate that the value was
 //! originally a float. ('I' if it was an int).
 inline string convertFloatStringToIndexWord(
     const string& value, const NumericType type = NumericType::FLOAT);
 
 //! Converts strings like this: :v:float:PP0*2E0*1234F to "12.34" and
-//! :v:float:M-0*1E9*876F to "-0.123".
+//! :v:float:MP0*1E9*876F to "-0.123".
 inline string convertIndexWordToFloatString(const string& indexWord);
 
 //! Converts strings like this: ":v:float:PP0*2E0*1234F to "12.34 and
-//! :v:float:M-0*1E9*876F to -0.123".
+//! :v:float:MP0*1E9*876F to -0.123".
 inline float convertIndexWordToFloat(const string& indexWord);
 
 //! Brings a date to the format:
@@ -245,15 +245,12 @@ string convertFloatStringToIndexWord(const string& orig,
   }
 
   // Produce a string for the exponent sign.
-  // Note that the index word has to start with one of:
-  // PP, PM, M+, M- so that the lexicographical ordering
-  // reflects the actual order of floats.
+  // Note that the index word has to start with one of (in this order):
+  // MM, MP, PM, PP so that the ordering of the words reflects the actual order
+  // of floats. The words are compared by a collation, so only letters and
+  // digits are in the expected order ('-' comes before '+').
   bool negaExpo = (exponent < 0);
-  if (negaMantissa) {
-    os << (negaExpo ? '-' : '+');
-  } else {
-    os << (negaExpo ? 'M' : 'P');
-  }
+  os << (negaExpo == negaMantissa ? 'P' : 'M');
 
   // Produce a string representation of the exponent
   std::ostringstream expoOs;
@@ -316,7 +313,7 @@ string convertIndexWordToFloatString(const string& indexWord) {
   }
   assert(number.size() >= 5);
   bool negaMantissa = number[0] == 'M';
-  bool negaExponent = number[1] == 'M' || number[1] == '-';
+  bool negaExponent = number[1] == (negaMantissa ? 'P' : 'M');
 
   size_t posOfE = number.find('E');
   assert(posOfE != string::npos && posOfE > 0 && posOfE < number.size() - 1);
@@ -404,7 +401,7 @@ float convertIndexWordToFloat(const string& indexWord) {
   }
   assert(number.size() >= 5);
   bool negaMantissa = number[0] == 'M';
-  bool negaExponent = number[1] == 'M' || number[1] == '-';
+  bool negaExponent = number[1] == (negaMantissa ? 'P' : 'M');
 
   size_t posOfE = number.find('E');
   assert(posOfE != string::npos && posOfE > 0 && posOfE < number.size() - 1);
-- 
2.43.0


From 8a5022d74e09346f7851d8734900027bc09ad8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:06:01 +0000
Subject: [PATCH 066/110] fix: numbers with leading zeros or exponents got a
 wrong value

---
 src/util/Conversions.h | 179 ++++++++++++++++-------------------------
 1 file changed, 70 insertions(+), 109 deletions(-)

diff --git a/src/util/Conversions.h b/src/util/Conversions.h
index 86209e7..3c9f0dd 100644
--- a/src/util/Conversions.h
+++ b/src/util/Conversions.h
@@ -88,6 +88,10 @@ inline bool isXsdValue(const string& val);
 //! not
 inline bool isNumeric(const string& val);
 
+//! Check if the given string is a number that can be an index word: digits,
+//! possibly with a dot, possibly followed by an exponent of at most 3 digits.
+inline bool isFloatString(const string& val);
+
 //! Converts numeric strings (as determined by isNumeric()) into index words
 inline string convertNumericToIndexWord(const string& val);
 
@@ -142,7 +146,14 @@ string convertValueLiteralToIndexWord(const string& orig) {
     // have a special marker at the very end to tell if the original number
     // was int for float. The benefit: can compare float with int that way.
     if (type == "int" || type == "integer") {
-      return convertFloatStringToIndexWord(value + ".0", NumericType::INTEGER);
+      return isFloatString(value + ".0")
+                 ? convertFloatStringToIndexWord(value + ".0",
+                                                 NumericType::INTEGER)
+                 : orig;
+    }
+    // Leave something like "INF" or "abc" as it is.
+    if (!isFloatString(value)) {
+      return orig;
     }
     // We treat double and decimal as synonyms for float
     if (type == "float") {
@@ -200,50 +211,36 @@ string convertIndexWordToValueLiteral(const string& indexWord) {
 // _____________________________________________________________________________
 string convertFloatStringToIndexWord(const string& orig,
                                      const NumericType type) {
-  // Need a copy to modify.
-  string value;
-  // ignore a + in the beginning of the number
-  if (orig.size() > 0 && orig[0] == '+') {
-    value = orig.substr(1);
-  } else {
-    value = orig;
-  }
-  size_t posOfDot = value.find('.');
+  // Split up the number into sign, digits (with the position of the dot) and
+  // exponent.
+  size_t pos = (!orig.empty() && (orig[0] == '+' || orig[0] == '-')) ? 1 : 0;
+  bool negaMantissa = pos == 1 && orig[0] == '-';
+  size_t posOfExponent = std::min(orig.find_first_of("eE"), orig.size());
+  string mantissa = orig.substr(pos, posOfExponent - pos);
+  long exponent = posOfExponent < orig.size()
+                      ? std::stol(orig.substr(posOfExponent + 1))
+                      : 0;
+  size_t posOfDot = mantissa.find('.');
   if (posOfDot == string::npos) {
-    return convertFloatStringToIndexWord(value + ".0", type);
+    posOfDot = mantissa.size();
+  } else {
+    mantissa.erase(posOfDot, 1);
   }
 
-  // Treat the special case 0.0
-  if (value == "0.0" || value == "-0.0") {
+  // The mantissa starts with the first digit that is not zero. The exponent is
+  // the one of this digit.
+  size_t firstDigit = mantissa.find_first_not_of('0');
+  if (firstDigit == string::npos) {
+    // Treat the special case 0.0
     return string(VALUE_FLOAT_PREFIX) + "N0" + char(type);
   }
+  exponent += static_cast<long>(posOfDot) - static_cast<long>(firstDigit) - 1;
+  mantissa = mantissa.substr(firstDigit);
 
   std::ostringstream os;
   os << VALUE_FLOAT_PREFIX;
-
-  bool negaMantissa = (value[0] == '-');
-  if (negaMantissa) {
-    value = value.substr(1);
-    --posOfDot;
-  }
   os << (negaMantissa ? 'M' : 'P');
 
-  // Get the exponent.
-  int exponent = static_cast<int>(posOfDot) - 1;
-  if (posOfDot <= 1) {
-    if (value[0] == '0') {
-      exponent = -1;
-      size_t i = 2;
-      while (i < value.size() && value[i] == '0') {
-        ++i;
-        --exponent;
-      }
-      if (i == value.size()) {
-        exponent = -1;
-      }
-    }
-  }
-
   // Produce a string for the exponent sign.
   // Note that the index word has to start with one of (in this order):
   // MM, MP, PM, PP so that the ordering of the words reflects the actual order
@@ -270,32 +267,12 @@ string convertFloatStringToIndexWord(const string& orig,
   }
   os << expoString;
 
-  // Get the mantissa with digit complements for negative numbers.
-  std::ostringstream mant;
-  size_t i = 0;
-  while (i < value.size()) {
-    if (value[i] != '.') {
-      if (negaMantissa) {
-        mant << (9 - atoi(value.substr(i, 1).c_str()));
-      } else {
-        mant << value[i];
-      }
-    }
-    ++i;
-  }
-
-  os << 'E';
-  os << mant.str().substr(0, DEFAULT_NOF_VALUE_MANTISSA_DIGITS);
-  // Padding for mantissa. Necessary because we append something
-  // to restore the original type.
-  for (size_t i = mant.str().size(); i < DEFAULT_NOF_VALUE_MANTISSA_DIGITS;
-       ++i) {
-    if (!negaMantissa) {
-      os << '0';
-    } else {
-      os << '9';
-    }
-  }
+  // The mantissa with digit complements for negative numbers. The padding is
+  // necessary because we append something to restore the original type.
+  mantissa.resize(DEFAULT_NOF_VALUE_MANTISSA_DIGITS, '0');
+  os << 'E'
+     << (negaMantissa ? getBase10ComplementOfIntegerString(mantissa)
+                      : mantissa);
   return os.str() + char(type);
 }
 
@@ -333,57 +310,18 @@ string convertIndexWordToFloatString(const string& indexWord) {
     os << '-';
   }
 
+  // Skip leading zeros and the padding.
+  size_t firstDigit = std::min(mantissa.find_first_not_of('0'), mantissa.size());
+  mantissa = ad_utility::rstrip(mantissa.substr(firstDigit), '0');
   if (negaExponent) {
-    os << "0.";
-    --absExponent;
-    while (absExponent > 0) {
-      os << '0';
-      --absExponent;
-    }
-
-    // Skip leading zeros of the mantissa
-    size_t i = 0;
-    while (mantissa[i] == '0') {
-      ++i;
-    }
-    os << ad_utility::rstrip(mantissa.substr(i), '0');
+    os << "0." << string(absExponent - 1, '0') << mantissa;
   } else {
-    // Skip leading zeros of the mantissa
-    size_t i = 0;
-    while (mantissa[i] == '0') {
-      ++i;
-    }
-
-    // Collect later zeros and only write them if something nonzero is found.
-    // This eliminates the padding.
-    std::ostringstream zeros;
-    size_t tenToThe = 0;
-    while (i < mantissa.size()) {
-      if (mantissa[i] == '0') {
-        zeros << '0';
-      } else {
-        os << zeros.str();
-        zeros.str("");
-        os << mantissa[i];
-      }
-      ++i;
-      if (tenToThe == absExponent) {
-        os << zeros.str();
-        zeros.str("");
-        os << ".";
-      }
-      ++tenToThe;
-    }
-
-    if (os.str().back() == '.') {
-      os << '0';
-    }
-
-    if (absExponent > mantissa.size()) {
-      for (size_t i = 0; i < absExponent - mantissa.size(); ++i) {
-        os << "0";
-      }
+    // The number has absExponent + 1 digits in front of the dot.
+    if (mantissa.size() < absExponent + 2) {
+      mantissa.resize(absExponent + 2, '0');
     }
+    os << mantissa.substr(0, absExponent + 1) << '.'
+       << mantissa.substr(absExponent + 1);
   }
   return os.str();
 }
@@ -626,6 +564,29 @@ bool isNumeric(const string& val) {
   return false;
 }
 
+// _____________________________________________________________________________
+bool isFloatString(const string& val) {
+  static const string digits = "0123456789";
+  size_t start = (!val.empty() && (val[0] == '-' || val[0] == '+')) ? 1 : 0;
+  size_t end = std::min(val.find_first_of("eE"), val.size());
+  string mantissa = val.substr(start, end - start);
+  if (size_t dot = mantissa.find('.'); dot != string::npos) {
+    mantissa.erase(dot, 1);
+  }
+  if (mantissa.empty() || mantissa.find_first_not_of(digits) != string::npos) {
+    return false;
+  }
+  if (end == val.size()) {
+    return true;
+  }
+  string exponent = val.substr(end + 1);
+  if (!exponent.empty() && (exponent[0] == '-' || exponent[0] == '+')) {
+    exponent.erase(0, 1);
+  }
+  return !exponent.empty() && exponent.size() <= 3 &&
+         exponent.find_first_not_of(digits) == string::npos;
+}
+
 // _____________________________________________________________________________
 string convertNumericToIndexWord(const string& val) {
   NumericType type = NumericType::FLOAT;
-- 
2.43.0


From e9aee9c2992fea6b6e567a32be5d1209a13f5c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:06:01 +0000
Subject: [PATCH 067/110] fix: adding up numbers with many digits failed

---
 src/util/Conversions.h | 49 ++----------------------------------------
 1 file changed, 2 insertions(+), 47 deletions(-)

diff --git a/src/util/Conversions.h b/src/util/Conversions.h
index 3c9f0dd..3e3d2a8 100644
--- a/src/util/Conversions.h
+++ b/src/util/Conversions.h
@@ -328,53 +328,8 @@ string convertIndexWordToFloatString(const string& indexWord) {
 
 // _____________________________________________________________________________
 float convertIndexWordToFloat(const string& indexWord) {
-  size_t prefixLength = std::char_traits<char>::length(VALUE_FLOAT_PREFIX);
-  AD_CHECK_GT(indexWord.size(), prefixLength + 1);
-  // the -1 accounts for the originally float/int identifier suffix
-  string number =
-      indexWord.substr(prefixLength, indexWord.size() - prefixLength - 1);
-  // Handle the special case 0.0
-  if (number == "N0") {
-    return 0;
-  }
-  assert(number.size() >= 5);
-  bool negaMantissa = number[0] == 'M';
-  bool negaExponent = number[1] == (negaMantissa ? 'P' : 'M');
-
-  size_t posOfE = number.find('E');
-  assert(posOfE != string::npos && posOfE > 0 && posOfE < number.size() - 1);
-
-  string exponentString =
-      ((negaMantissa == negaExponent)
-           ? number.substr(2, posOfE - 2)
-           : getBase10ComplementOfIntegerString(number.substr(2, posOfE - 2)));
-  long absExponent = static_cast<size_t>(atoi(exponentString.c_str()));
-  string mantissa =
-      (!negaMantissa
-           ? number.substr(posOfE + 1)
-           : getBase10ComplementOfIntegerString(number.substr(posOfE + 1)));
-  size_t mStart, mStop;
-  for (mStart = 0; mStart < mantissa.size() && mantissa[mStart] == '0';
-       mStart++)
-    ;
-  for (mStop = mantissa.size() - 1; mStop > mStart && mantissa[mStop] == '0';
-       mStop--)
-    ;
-  long absMantissa = stol(mantissa.substr(mStart, mStop - mStart + 1));
-  unsigned int mantissaLog = std::log10(absMantissa);
-  if (negaMantissa) {
-    if (negaExponent) {
-      return -absMantissa * std::pow(10, -absExponent - mantissaLog);
-    } else {
-      return -absMantissa * std::pow(10, absExponent - mantissaLog);
-    }
-  } else {
-    if (negaExponent) {
-      return absMantissa * std::pow(10, -absExponent - mantissaLog);
-    } else {
-      return absMantissa * std::pow(10, absExponent - mantissaLog);
-    }
-  }
+  // Numbers that are too large or too small become infinity or zero.
+  return std::strtof(convertIndexWordToFloatString(indexWord).c_str(), nullptr);
 }
 
 // _____________________________________________________________________________
-- 
2.43.0


From b634ed8398f1ba8dbe314139789cb4f1f23347f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:06:01 +0000
Subject: [PATCH 068/110] fix: years before 1000 were shown in a malformed way

---
 src/util/Conversions.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/util/Conversions.h b/src/util/Conversions.h
index 3e3d2a8..e2d9a16 100644
--- a/src/util/Conversions.h
+++ b/src/util/Conversions.h
@@ -171,11 +171,17 @@ string convertValueLiteralToIndexWord(const string& orig) {
 string convertIndexWordToValueLiteral(const string& indexWord) {
   if (startsWith(indexWord, VALUE_DATE_PREFIX)) {
     std::ostringstream os;
-    string date = removeLeadingZeros(convertIndexWordToDate(indexWord));
-    if (date.size() == 0 || startsWith(date, VALUE_DATE_TIME_SEPARATOR)) {
-      date = string("0") + date;
+    string date = convertIndexWordToDate(indexWord);
+    // The year has at least four digits and is possibly negative.
+    string sign = startsWith(date, "-") ? "-" : "";
+    size_t endOfYear = std::min(date.find('-', sign.size()), date.size());
+    string year =
+        removeLeadingZeros(date.substr(sign.size(), endOfYear - sign.size()));
+    if (year.size() < 4) {
+      year.insert(0, 4 - year.size(), '0');
     }
-    os << "\"" << date << "\"" << XSD_DATETIME_SUFFIX;
+    os << "\"" << sign << year << date.substr(endOfYear) << "\""
+       << XSD_DATETIME_SUFFIX;
     return os.str();
   }
   if (startsWith(indexWord, VALUE_FLOAT_PREFIX)) {
-- 
2.43.0


From 895a8fd82faf9e88211d25c1474ba3ebf1c8de5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:36:08 +0000
Subject: [PATCH 069/110] fix: parse SPARQL style PREFIX and BASE and keywords
 in any case

---
 src/parser/Tokenizer.h      | 12 +++++-------
 src/parser/TurtleParser.cpp | 10 ++++++----
 src/parser/TurtleParser.h   | 16 ++++++++++++++++
 3 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/parser/Tokenizer.h b/src/parser/Tokenizer.h
index 2ad09bb..c989ea2 100644
--- a/src/parser/Tokenizer.h
+++ b/src/parser/Tokenizer.h
@@ -106,10 +106,10 @@ enum class TokId : int {
  */
 struct TurtleTokenCtre {
   static constexpr auto TurtlePrefix = grp(fixed_string("@prefix"));
-  // TODO: this is actually case-insensitive
-  static constexpr auto SparqlPrefix = grp(fixed_string("PREFIX"));
+  static constexpr auto SparqlPrefix =
+      grp(fixed_string("[Pp][Rr][Ee][Ff][Ii][Xx]"));
   static constexpr auto TurtleBase = grp(fixed_string("@base"));
-  static constexpr auto SparqlBase = grp(fixed_string("BASE"));
+  static constexpr auto SparqlBase = grp(fixed_string("[Bb][Aa][Ss][Ee]"));
   static constexpr auto Dot = grp(fixed_string("\\."));
   static constexpr auto Comma = grp(fixed_string(","));
   static constexpr auto Semicolon = grp(fixed_string(";"));
@@ -248,11 +248,9 @@ struct TurtleToken {
       // those constants are always skipped, so they don't need a group around
       // them
       : TurtlePrefix(grp("@prefix")),
-        // TODO: this is actually case-insensitive
-        SparqlPrefix(grp("PREFIX")),
+        SparqlPrefix(grp("(?i:PREFIX)")),
         TurtleBase(grp("@base")),
-        // TODO: this also
-        SparqlBase(grp("BASE")),
+        SparqlBase(grp("(?i:BASE)")),
 
         Dot(grp("\\.")),
         Comma(grp(",")),
diff --git a/src/parser/TurtleParser.cpp b/src/parser/TurtleParser.cpp
index 3ef3596..2ed3e67 100644
--- a/src/parser/TurtleParser.cpp
+++ b/src/parser/TurtleParser.cpp
@@ -43,7 +43,7 @@ bool TurtleParser<T>::prefixID() {
 template <class T>
 bool TurtleParser<T>::base() {
   if (skip<TokId::TurtleBase>()) {
-    if (iriref()) {
+    if (check(iriref()) && check(skip<TokId::Dot>())) {
       _baseIRI = _lastParseResult;
       return true;
     } else {
@@ -57,9 +57,11 @@ bool TurtleParser<T>::base() {
 // ________________________________________________________________
 template <class T>
 bool TurtleParser<T>::sparqlPrefix() {
-  if (skip<TokId::SparqlPrefix>()) {
+  if (skipKeyword<TokId::SparqlPrefix>()) {
     if (pnameNS() && iriref()) {
-      _prefixMap[_activePrefix] = _lastParseResult;
+      // strip  the angled brackes <bla> -> bla
+      _prefixMap[_activePrefix] =
+          _lastParseResult.substr(1, _lastParseResult.size() - 2);
       return true;
     } else {
       raise("sparqlPrefix");
@@ -72,7 +74,7 @@ bool TurtleParser<T>::sparqlPrefix() {
 // ________________________________________________________________
 template <class T>
 bool TurtleParser<T>::sparqlBase() {
-  if (skip<TokId::SparqlBase>()) {
+  if (skipKeyword<TokId::SparqlBase>()) {
     if (iriref()) {
       _baseIRI = _lastParseResult;
       return true;
diff --git a/src/parser/TurtleParser.h b/src/parser/TurtleParser.h
index 2cfc032..356d87b 100644
--- a/src/parser/TurtleParser.h
+++ b/src/parser/TurtleParser.h
@@ -199,6 +199,22 @@ class TurtleParser {
     return _tok.template skip<reg>();
   }
 
+  // Skip a keyword, but not the beginning of a prefixed name (like "base:x").
+  template <TokId keyword>
+  bool skipKeyword() {
+    _tok.skipWhitespaceAndComments();
+    auto before = _tok.view();
+    if (_tok.template skip<keyword>()) {
+      auto after = _tok.view();
+      if (!after.empty() &&
+          std::string_view(" \t\r\n<#").find(after[0]) != string::npos) {
+        return true;
+      }
+      _tok.reset(before.data(), before.size());
+    }
+    return false;
+  }
+
   // if the prefix of the current input position matches the regex argument,
   // put the matching prefix into _lastParseResult, move the input position
   // forward by the length of the match and return true else return false and do
-- 
2.43.0


From ca51ef8bdb4dfd450cf52acd50bb8e0b2990b4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:36:08 +0000
Subject: [PATCH 070/110] fix: accept the empty prefix in Turtle files

---
 src/parser/Tokenizer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/Tokenizer.h b/src/parser/Tokenizer.h
index c989ea2..7189281 100644
--- a/src/parser/Tokenizer.h
+++ b/src/parser/Tokenizer.h
@@ -197,7 +197,7 @@ struct TurtleTokenCtre {
                                          cls(PnCharsString) + "|" +
                                          cls(PnCharsString) + ")*";
 
-  static constexpr auto PnameNSString = PnPrefixString + ":";
+  static constexpr auto PnameNSString = grp(PnPrefixString) + "?:";
 
   static constexpr fixed_string PnLocalEscString =
       "\\\\[_~.\\-!$&'()*+,;=/?#@%]";
@@ -376,7 +376,8 @@ struct TurtleToken {
                                 cls(PnCharsString) + "|" + cls(PnCharsString) +
                                 ")*";
 
-  const string PnameNSString = PnPrefixString + ":";
+  // the prefix may be empty
+  const string PnameNSString = "(?:" + PnPrefixString + ")?:";
   const RE2 PnameNS;
 
   const string PnLocalEscString = "\\\\[_~.\\-!$&'()*+,;=/?#@%]";
-- 
2.43.0


From ee46e6c61f5f4636cc214f13f84d26228c771b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:36:08 +0000
Subject: [PATCH 071/110] fix: read short forms of numbers and booleans in
 Turtle as typed literals

---
 src/global/Constants.h      |  2 ++
 src/parser/Tokenizer.h      |  7 ++++---
 src/parser/TurtleParser.cpp | 37 +++++++++++++++++++++++++++++++++++--
 3 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/src/global/Constants.h b/src/global/Constants.h
index 957732e..f0b8c7e 100644
--- a/src/global/Constants.h
+++ b/src/global/Constants.h
@@ -70,6 +70,8 @@ static const char XSD_DOUBLE_SUFFIX[] =
     "^^<http://www.w3.org/2001/XMLSchema#double>";
 static const char XSD_DECIMAL_SUFFIX[] =
     "^^<http://www.w3.org/2001/XMLSchema#decimal>";
+static const char XSD_BOOLEAN_SUFFIX[] =
+    "^^<http://www.w3.org/2001/XMLSchema#boolean>";
 static const char VALUE_DATE_TIME_SEPARATOR[] = "T";
 static const int DEFAULT_NOF_VALUE_INTEGER_DIGITS = 50;
 static const int DEFAULT_NOF_VALUE_EXPONENT_DIGITS = 20;
diff --git a/src/parser/Tokenizer.h b/src/parser/Tokenizer.h
index 7189281..c1587bd 100644
--- a/src/parser/Tokenizer.h
+++ b/src/parser/Tokenizer.h
@@ -130,8 +130,8 @@ struct TurtleTokenCtre {
   static constexpr auto Exponent = grp(ExponentString);
 
   static constexpr auto DoubleString =
-      fixed_string("[\\+\\-]?([0-9]+\\.[0-9]*") + ExponentString + "|" +
-      ExponentString + ")";
+      fixed_string("[\\+\\-]?([0-9]+\\.[0-9]*") + ExponentString +
+      "|\\.?[0-9]+" + ExponentString + "|" + ExponentString + ")";
 
   static constexpr auto Double = grp(DoubleString);
 
@@ -316,7 +316,8 @@ struct TurtleToken {
   const string ExponentString = "[eE][+-]?[0-9]+";
   const RE2 Exponent;
   const string DoubleString =
-      "[+-]?([0-9]+\\.[0-9]*" + ExponentString + "|" + ExponentString + ")";
+      "[+-]?([0-9]+\\.[0-9]*" + ExponentString + "|\\.?[0-9]+" +
+      ExponentString + "|" + ExponentString + ")";
   const RE2 Double;
 
   const string HexString = "0-9A-Fa-f";
diff --git a/src/parser/TurtleParser.cpp b/src/parser/TurtleParser.cpp
index 2ed3e67..5000bc4 100644
--- a/src/parser/TurtleParser.cpp
+++ b/src/parser/TurtleParser.cpp
@@ -233,7 +233,26 @@ bool TurtleParser<T>::collection() {
 // ______________________________________________________________________
 template <class T>
 bool TurtleParser<T>::numericLiteral() {
-  return integer() || decimal() || doubleParse();
+  // A literal like "1.5e3" starts with a decimal and an integer, so the order
+  // matters.
+  _tok.skipWhitespaceAndComments();
+  auto view = _tok.view();
+  if (view.empty() ||
+      std::string_view("+-.0123456789").find(view[0]) == string::npos) {
+    return false;
+  }
+  string type;
+  if (doubleParse()) {
+    type = XSD_DOUBLE_SUFFIX;
+  } else if (decimal()) {
+    type = XSD_DECIMAL_SUFFIX;
+  } else if (integer()) {
+    type = XSD_INT_SUFFIX;
+  } else {
+    return false;
+  }
+  _lastParseResult = '"' + _lastParseResult + '"' + type;
+  return true;
 }
 
 // ______________________________________________________________________
@@ -261,7 +280,21 @@ bool TurtleParser<T>::rdfLiteral() {
 // ______________________________________________________________________
 template <class T>
 bool TurtleParser<T>::booleanLiteral() {
-  return parseTerminal<TokId::True>() || parseTerminal<TokId::False>();
+  _tok.skipWhitespaceAndComments();
+  auto before = _tok.view();
+  if (!(parseTerminal<TokId::True>() || parseTerminal<TokId::False>())) {
+    return false;
+  }
+  // not the beginning of a prefixed name (like "true:x" or "falsehood:y")
+  auto after = _tok.view();
+  if (!after.empty() &&
+      (std::isalnum(static_cast<unsigned char>(after[0])) || after[0] == ':' ||
+       after[0] == '_' || after[0] == '-' || after[0] < 0)) {
+    _tok.reset(before.data(), before.size());
+    return false;
+  }
+  _lastParseResult = '"' + _lastParseResult + '"' + XSD_BOOLEAN_SUFFIX;
+  return true;
 }
 
 // ______________________________________________________________________
-- 
2.43.0


From ca28d42f5f5191fbef7db3c4ee4ed5add4279125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:36:08 +0000
Subject: [PATCH 072/110] fix: keep the subject of a blank node property list
 in subject position

---
 src/parser/TurtleParser.cpp | 14 +++++++++-----
 src/parser/TurtleParser.h   |  2 +-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/parser/TurtleParser.cpp b/src/parser/TurtleParser.cpp
index 5000bc4..c4a26cb 100644
--- a/src/parser/TurtleParser.cpp
+++ b/src/parser/TurtleParser.cpp
@@ -96,7 +96,8 @@ bool TurtleParser<T>::triples() {
       raise("triples");
     }
   } else {
-    if (blankNodePropertyList()) {
+    if (blankNodePropertyList(false)) {
+      _activeSubject = _lastParseResult;
       predicateObjectList();
       return true;
     } else {
@@ -199,17 +200,19 @@ bool TurtleParser<T>::literal() {
 
 // _____________________________________________________________________
 template <class T>
-bool TurtleParser<T>::blankNodePropertyList() {
+bool TurtleParser<T>::blankNodePropertyList(bool isObject) {
   if (!skip<TokId::OpenSquared>()) {
     return false;
   }
   // save subject and predicate
   string savedSubject = _activeSubject;
   string savedPredicate = _activePredicate;
-  // new triple with blank node as object
   string blank = createAnonNode();
-  _lastParseResult = blank;
-  emitTriple();
+  if (isObject) {
+    // new triple with blank node as object
+    _lastParseResult = blank;
+    emitTriple();
+  }
   // the following triples have the blank node as subject
   _activeSubject = blank;
   check(predicateObjectList());
@@ -217,6 +220,7 @@ bool TurtleParser<T>::blankNodePropertyList() {
   // restore subject and predicate
   _activeSubject = savedSubject;
   _activePredicate = savedPredicate;
+  _lastParseResult = blank;
   return true;
 }
 
diff --git a/src/parser/TurtleParser.h b/src/parser/TurtleParser.h
index 356d87b..f6238f0 100644
--- a/src/parser/TurtleParser.h
+++ b/src/parser/TurtleParser.h
@@ -150,7 +150,7 @@ class TurtleParser {
   bool triples();
   bool subject();
   bool predicateObjectList();
-  bool blankNodePropertyList();
+  bool blankNodePropertyList(bool isObject = true);
   bool objectList();
   bool object();
   bool verb();
-- 
2.43.0


From 7bf50cd4f8cdcbeea7171c08bb99c522d4622fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:36:08 +0000
Subject: [PATCH 073/110] fix: do not take names that start with an a for the
 keyword a

---
 src/parser/TurtleParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/TurtleParser.cpp b/src/parser/TurtleParser.cpp
index c4a26cb..575996b 100644
--- a/src/parser/TurtleParser.cpp
+++ b/src/parser/TurtleParser.cpp
@@ -138,7 +138,8 @@ bool TurtleParser<T>::objectList() {
 // ______________________________________________________
 template <class T>
 bool TurtleParser<T>::verb() {
-  return predicateSpecialA() || predicate();
+  // the name of a prefix may also start with an "a"
+  return predicate() || predicateSpecialA();
 }
 
 // ___________________________________________________________________
-- 
2.43.0


From 9a525a5c1dbe5882471907e05faf07f5b51af6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:36:08 +0000
Subject: [PATCH 074/110] fix: mapped Turtle parser stopped after the first
 statement

---
 src/parser/TurtleParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/TurtleParser.cpp b/src/parser/TurtleParser.cpp
index 575996b..9729eb1 100644
--- a/src/parser/TurtleParser.cpp
+++ b/src/parser/TurtleParser.cpp
@@ -555,7 +555,7 @@ bool TurtleMmapParser<T>::getLine(std::array<string, 3>* triple) {
     // relatively expensive backup calls.
     while (_triples.size() < PARSER_MIN_TRIPLES_AT_ONCE &&
            !_isParserExhausted) {
-      if (this->statement()) {
+      if (!this->statement()) {
         // we cannot parse anymore from an mmaped file but there was no
         // error. check if we are just at the end of the input, otherwise
         // inform.
-- 
2.43.0


From 5a1be8cd53c7120e8674051ebb6356202bada402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:36:08 +0000
Subject: [PATCH 075/110] fix: end relaxed prefixed names at punctuation

---
 src/parser/TurtleParser.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parser/TurtleParser.cpp b/src/parser/TurtleParser.cpp
index 9729eb1..77ace01 100644
--- a/src/parser/TurtleParser.cpp
+++ b/src/parser/TurtleParser.cpp
@@ -426,20 +426,22 @@ bool TurtleParser<T>::pnameLnRelaxed() {
   // is ok
   _tok.skipWhitespaceAndComments();
   auto view = _tok.view();
-  auto pos = view.find(':');
-  if (pos == string::npos) {
+  auto pos = view.find_first_of(": \t\r\n,;<>[]()\"'#@^");
+  if (pos == string::npos || view[pos] != ':') {
     return false;
   }
   // these can also be part of a collection etc.
   // find any character that can end a pnameLn when assuming that no
   // escape sequences were used
-  auto posEnd = view.find_first_of(" \n,;", pos);
+  auto posEnd = view.find_first_of(" \t\r\n,;<>[]()\"'#@^", pos);
   if (posEnd == string::npos) {
     // make tests work
     posEnd = view.size();
   }
-  // TODO: is it allowed to have no space between triples and the dots? in
-  // this case we have to check something here
+  // a prefixed name never ends with a dot, so this is the end of the statement
+  while (view[posEnd - 1] == '.') {
+    posEnd--;
+  }
   _activePrefix = view.substr(0, pos);
   _lastParseResult = view.substr(pos + 1, posEnd - (pos + 1));
   // we do not remove the whitespace or the ,; since they are needed
-- 
2.43.0


From fb2dc49a6d04bf34d210e2b12bab91b242e740b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:36:08 +0000
Subject: [PATCH 076/110] fix: skip several comments in a row

---
 src/parser/Tokenizer.cpp |  6 ++++--
 src/parser/Tokenizer.h   | 20 ++++++++++++--------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/parser/Tokenizer.cpp b/src/parser/Tokenizer.cpp
index 44950ac..978db68 100644
--- a/src/parser/Tokenizer.cpp
+++ b/src/parser/Tokenizer.cpp
@@ -7,8 +7,10 @@
 // ______________________________________________________
 void Tokenizer::skipWhitespaceAndComments() {
   skipWhitespace();
-  skipComments();
-  skipWhitespace();
+  // there might be several comments
+  while (skipComments()) {
+    skipWhitespace();
+  }
 }
 
 // _______________________________________________________
diff --git a/src/parser/Tokenizer.h b/src/parser/Tokenizer.h
index c1587bd..2fb2beb 100644
--- a/src/parser/Tokenizer.h
+++ b/src/parser/Tokenizer.h
@@ -485,8 +485,10 @@ class TokenizerCtre {
   /// skip any whitespace or comments at the beginning of the held characters
   void skipWhitespaceAndComments() {
     skipWhitespace();
-    skipComments();
-    skipWhitespace();
+    // there might be several comments
+    while (skipComments()) {
+      skipWhitespace();
+    }
   }
 
   /** If there is a prefix match with the argument, move forward the beginning
@@ -525,9 +527,8 @@ class TokenizerCtre {
   }
 
   // ___________________________________________________________________________________
-  void skipComments() {
-    // if not successful, then there was no comment, but this does not matter to
-    // us
+  // Return true iff a comment was skipped.
+  bool skipComments() {
     auto v = view();
     if (ad_utility::startsWith(v, "#")) {
       auto pos = v.find("\n");
@@ -536,8 +537,10 @@ class TokenizerCtre {
         LOG(INFO) << "Warning, unfinished comment found while parsing";
       } else {
         _data.remove_prefix(pos + 1);
+        return true;
       }
     }
+    return false;
   }
   FRIEND_TEST(TokenizerTest, WhitespaceAndComments);
 
@@ -774,9 +777,8 @@ class Tokenizer {
   }
 
   // ___________________________________________________________________________________
-  void skipComments() {
-    // if not successful, then there was no comment, but this does not matter to
-    // us
+  // Return true iff a comment was skipped.
+  bool skipComments() {
     auto v = view();
     if (ad_utility::startsWith(v, "#")) {
       auto pos = v.find("\n");
@@ -785,8 +787,10 @@ class Tokenizer {
         LOG(INFO) << "Warning, unfinished comment found while parsing";
       } else {
         _data.remove_prefix(pos + 1);
+        return true;
       }
     }
+    return false;
   }
   FRIEND_TEST(TokenizerTest, WhitespaceAndComments);
   re2::StringPiece _data;
-- 
2.43.0


From 1856d5d1c59870cc77db7b82ba54be1c83967bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:36:08 +0000
Subject: [PATCH 077/110] fix: parse a statement again with the prefixes of its
 beginning after a buffer refill

---
 src/parser/TurtleParser.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parser/TurtleParser.cpp b/src/parser/TurtleParser.cpp
index 77ace01..9997b59 100644
--- a/src/parser/TurtleParser.cpp
+++ b/src/parser/TurtleParser.cpp
@@ -623,6 +623,14 @@ bool TurtleStreamParser<T>::getLine(std::array<string, 3>* triple) {
         // variable parsedStatement will be true iff a statement can
         // successfully be parsed
         parsedStatement = this->statement();
+        // What looks like the end of the statement might be the dot inside of a
+        // name or number if the buffer ends here.
+        if (parsedStatement && _tok.view().find_first_of(" \t\r\n<\"'[#@") ==
+                                   std::string_view::npos) {
+          if (resetStateAndRead(&b)) {
+            continue;
+          }
+        }
       } catch (const typename TurtleParser<T>::ParseException& p) {
         parsedStatement = false;
         exceptionThrown = true;
@@ -683,6 +691,9 @@ bool TurtleStreamParser<T>::getLine(std::array<string, 3>* triple) {
             break;
           }
         }
+      } else {
+        // Never parse a statement twice, prefixes might be redefined later.
+        b = backupState();
       }
     }
   }
-- 
2.43.0


From 0723ab21093dfe577c5e4206b53e864250105b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:36:08 +0000
Subject: [PATCH 078/110] fix: do not use compression prefixes that contain a
 newline

---
 src/index/Index.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/index/Index.cpp b/src/index/Index.cpp
index 836d67f..115e769 100644
--- a/src/index/Index.cpp
+++ b/src/index/Index.cpp
@@ -106,6 +106,12 @@ void Index::createFromFile(const string& filename) {
         _onDiskBase + TMP_BASENAME_COMPRESSION + ".vocabulary";
     prefixes = calculatePrefixes(vocabFileForPrefixCalculation,
                                  NUM_COMPRESSION_PREFIXES, 1, true);
+    // The file stores one prefix per line.
+    prefixes.erase(std::remove_if(prefixes.begin(), prefixes.end(),
+                                  [](const string& prefix) {
+                                    return prefix.find('\n') != string::npos;
+                                  }),
+                   prefixes.end());
     std::ofstream prefixFile(_onDiskBase + PREFIX_FILE);
     AD_CHECK(prefixFile.is_open());
     for (const auto& prefix : prefixes) {
-- 
2.43.0


From e84b1c51fe9f0229a2d6bff34672ac58a9ac6683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:05:41 +0000
Subject: [PATCH 079/110] fix: add the scores of both words in a text search
 for two words

---
 src/index/Index.Text.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index/Index.Text.cpp b/src/index/Index.Text.cpp
index dfb0146..35e870e 100644
--- a/src/index/Index.Text.cpp
+++ b/src/index/Index.Text.cpp
@@ -548,7 +548,7 @@ void Index::getContextListForWords(const string& words,
     }
     if (cidVecs.size() == 2) {
       FTSAlgorithms::intersectTwoPostingLists(
-          cidVecs[0], scoreVecs[1], cidVecs[1], scoreVecs[1], cids, scores);
+          cidVecs[0], scoreVecs[0], cidVecs[1], scoreVecs[1], cids, scores);
     } else {
       vector<Id> dummy;
       FTSAlgorithms::intersectKWay(cidVecs, scoreVecs, nullptr, cids, dummy,
-- 
2.43.0


From 0e724aaf465f93a6db511b2f1cc8e7f5f7f4d807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:05:41 +0000
Subject: [PATCH 080/110] fix: count a text record once if several of its words
 match a prefix

---
 src/index/Index.Text.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/index/Index.Text.cpp b/src/index/Index.Text.cpp
index 35e870e..c4d2ead 100644
--- a/src/index/Index.Text.cpp
+++ b/src/index/Index.Text.cpp
@@ -630,6 +630,22 @@ void Index::getWordPostingsForTerm(const string& term, vector<Id>& cids,
         static_cast<size_t>(tbmd._cl._lastByte + 1 - tbmd._cl._startScorelist),
         scores);
   }
+  if (idRange._first != idRange._last) {
+    // A context can contain several words with the same prefix, but it is only
+    // one match.
+    size_t nofMatches = 0;
+    for (size_t i = 0; i < cids.size(); ++i) {
+      if (nofMatches > 0 && cids[nofMatches - 1] == cids[i]) {
+        scores[nofMatches - 1] += scores[i];
+      } else {
+        cids[nofMatches] = cids[i];
+        scores[nofMatches] = scores[i];
+        ++nofMatches;
+      }
+    }
+    cids.resize(nofMatches);
+    scores.resize(nofMatches);
+  }
   LOG(DEBUG) << "Word postings for term: " << term << ": cids: " << cids.size()
              << " scores " << scores.size() << '\n';
 }
-- 
2.43.0


From 6fae32498e86882764b8fc046339afa6b92ff727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:05:41 +0000
Subject: [PATCH 081/110] fix: return nothing for an unknown prefix together
 with other words

---
 src/index/Index.Text.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/index/Index.Text.cpp b/src/index/Index.Text.cpp
index c4d2ead..4f589b9 100644
--- a/src/index/Index.Text.cpp
+++ b/src/index/Index.Text.cpp
@@ -1184,7 +1184,10 @@ size_t Index::getIndexOfBestSuitedElTerm(const vector<string>& terms) const {
     bool entityTerm = (terms[i][0] == '<' && terms[i].back() == '>');
     IdRange range;
     if (terms[i].back() == PREFIX_CHAR) {
-      _textVocab.getIdRangeForFullTextPrefix(terms[i], &range);
+      if (!_textVocab.getIdRangeForFullTextPrefix(terms[i], &range)) {
+        LOG(DEBUG) << "Prefix: " << terms[i] << " not in vocabulary\n";
+        return i;
+      }
     } else {
       if (entityTerm) {
         if (!_vocab.getId(terms[i], &range._first)) {
-- 
2.43.0


From b4431a221ba528f937580fad3d2c4b27021306cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:05:41 +0000
Subject: [PATCH 082/110] fix: check that an entity occurs in the text before
 reading its postings

---
 src/index/Index.Text.cpp   | 13 ++++++++++++-
 src/index/TextMetaData.cpp |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/index/Index.Text.cpp b/src/index/Index.Text.cpp
index 4f589b9..a551e1d 100644
--- a/src/index/Index.Text.cpp
+++ b/src/index/Index.Text.cpp
@@ -832,6 +832,10 @@ void Index::getEntityPostingsForTerm(const string& term, vector<Id>& cids,
     }
     idRange._last = idRange._first;
   }
+  if (entityTerm && !_textMeta.existsTextBlockForEntityId(idRange._first)) {
+    LOG(DEBUG) << "Entity " << term << " not contained in the text.\n";
+    return;
+  }
   const auto& tbmd =
       entityTerm
           ? _textMeta.getBlockInfoByEntityId(idRange._first)
@@ -1193,7 +1197,10 @@ size_t Index::getIndexOfBestSuitedElTerm(const vector<string>& terms) const {
         if (!_vocab.getId(terms[i], &range._first)) {
           LOG(DEBUG) << "Term: " << terms[i] << " not in entity vocabulary\n";
           return i;
-        } else {
+        }
+        if (!_textMeta.existsTextBlockForEntityId(range._first)) {
+          LOG(DEBUG) << "Entity " << terms[i] << " not contained in the text\n";
+          return i;
         }
       } else if (!_textVocab.getId(terms[i], &range._first)) {
         LOG(DEBUG) << "Term: " << terms[i] << " not in vocabulary\n";
@@ -1404,6 +1411,10 @@ size_t Index::getSizeEstimate(const string& words) const {
           LOG(DEBUG) << "Term: " << terms[i] << " not in entity vocabulary\n";
           return 0;
         }
+        if (!_textMeta.existsTextBlockForEntityId(range._first)) {
+          LOG(DEBUG) << "Entity " << terms[i] << " not contained in the text\n";
+          return 0;
+        }
       } else if (!_textVocab.getId(terms[i], &range._first)) {
         LOG(DEBUG) << "Term: " << terms[i] << " not in vocabulary\n";
         return 0;
diff --git a/src/index/TextMetaData.cpp b/src/index/TextMetaData.cpp
index ca86272..a0575af 100644
--- a/src/index/TextMetaData.cpp
+++ b/src/index/TextMetaData.cpp
@@ -53,7 +53,7 @@ bool TextMetaData::existsTextBlockForEntityId(const Id eid) const {
   vector<Id>::const_iterator it = std::lower_bound(
       _blockUpperBoundEntityIds.begin(), _blockUpperBoundEntityIds.end(), eid);
 
-  return (*it == eid);
+  return it != _blockUpperBoundEntityIds.end() && *it == eid;
 }
 
 // _____________________________________________________________________________
-- 
2.43.0


From 02c112f3efe425c174e24b0509921f905b7abefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:05:41 +0000
Subject: [PATCH 083/110] fix: return nothing for words that occur without any
 entity

---
 src/index/Index.Text.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/index/Index.Text.cpp b/src/index/Index.Text.cpp
index a551e1d..fc0b3cd 100644
--- a/src/index/Index.Text.cpp
+++ b/src/index/Index.Text.cpp
@@ -840,6 +840,10 @@ void Index::getEntityPostingsForTerm(const string& term, vector<Id>& cids,
       entityTerm
           ? _textMeta.getBlockInfoByEntityId(idRange._first)
           : _textMeta.getBlockInfoByWordRange(idRange._first, idRange._last);
+  if (tbmd._entityCl._nofElements == 0) {
+    // No entity occurs together with any of the words in the block.
+    return;
+  }
 
   if (!tbmd._cl.hasMultipleWords() || (tbmd._firstWordId == idRange._first &&
                                        tbmd._lastWordId == idRange._last)) {
-- 
2.43.0


From 0596ba1362b4e20233449f39fb6c32bc49e61786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:05:41 +0000
Subject: [PATCH 084/110] fix: write all entities of a filtered text search
 into their own columns

---
 src/index/FTSAlgorithms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/index/FTSAlgorithms.cpp b/src/index/FTSAlgorithms.cpp
index 356a758..0361b70 100644
--- a/src/index/FTSAlgorithms.cpp
+++ b/src/index/FTSAlgorithms.cpp
@@ -1307,7 +1307,7 @@ void FTSAlgorithms::multVarsFilterAggScoresAndTakeTopKContexts(
       result(n, 1) = rscore;
       size_t off = 2;
       for (size_t i = 1; i < keyEids.size(); i++) {
-        result(n, 2 + i) = keyEids[i];
+        result(n, off) = keyEids[i];
         off++;
       }
       result(n, off) = keyEids[0];
-- 
2.43.0


From 9f8847e5ecad7d38105ec6b23657807b4af34a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:05:41 +0000
Subject: [PATCH 085/110] fix: tell word blocks from entity blocks by their
 number when reading a text index

---
 src/index/TextMetaData.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/index/TextMetaData.cpp b/src/index/TextMetaData.cpp
index a0575af..a5542ec 100644
--- a/src/index/TextMetaData.cpp
+++ b/src/index/TextMetaData.cpp
@@ -102,19 +102,15 @@ ad_utility::File& operator<<(ad_utility::File& f, const TextMetaData& md) {
 TextMetaData& TextMetaData::createFromByteBuffer(unsigned char* buffer) {
   size_t nofBlocks = *reinterpret_cast<size_t*>(buffer);
   off_t offset = sizeof(size_t);
-  bool stepEntity = false;
+  // The blocks for the words come first, those for the entities last.
+  size_t nofEntities = *reinterpret_cast<size_t*>(
+      buffer + offset + nofBlocks * TextBlockMetaData::sizeOnDisk());
   for (size_t i = 0; i < nofBlocks; ++i) {
     TextBlockMetaData tbmd;
     tbmd.createFromByteBuffer(buffer + offset);
     offset += TextBlockMetaData::sizeOnDisk();
-    if (!stepEntity) {
-      if (_blocks.size() == 0 ||
-          _blocks.back()._lastWordId + 1 == tbmd._firstWordId) {
-        _blockUpperBoundWordIds.push_back(tbmd._lastWordId);
-      } else {
-        stepEntity = true;
-        _blockUpperBoundEntityIds.push_back(tbmd._lastWordId);
-      }
+    if (i + nofEntities < nofBlocks) {
+      _blockUpperBoundWordIds.push_back(tbmd._lastWordId);
     } else {
       _blockUpperBoundEntityIds.push_back(tbmd._lastWordId);
     }
-- 
2.43.0


From e531707c2d9184c9ee1ef999244df727324cc0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:05:41 +0000
Subject: [PATCH 086/110] fix: keep the column types of the filter in a
 filtered text search

---
 src/engine/TextOperationWithFilter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/engine/TextOperationWithFilter.cpp b/src/engine/TextOperationWithFilter.cpp
index 886b0a8..cdfb2d7 100644
--- a/src/engine/TextOperationWithFilter.cpp
+++ b/src/engine/TextOperationWithFilter.cpp
@@ -88,9 +88,12 @@ void TextOperationWithFilter::computeResult(ResultTable* result) {
   result->_resultTypes.reserve(result->_data.cols());
   result->_resultTypes.push_back(ResultTable::ResultType::TEXT);
   result->_resultTypes.push_back(ResultTable::ResultType::VERBATIM);
-  for (size_t i = 2; i < result->_data.cols(); i++) {
+  for (size_t i = 0; i + 1 < getNofVars(); i++) {
     result->_resultTypes.push_back(ResultTable::ResultType::KB);
   }
+  for (size_t i = 0; i < filterResult->_data.cols(); i++) {
+    result->_resultTypes.push_back(filterResult->getResultType(i));
+  }
   if (filterResult->_data.cols() == 1) {
     getExecutionContext()->getIndex().getFilteredECListForWordsWidthOne(
         _words, filterResult->_data, getNofVars(), _textLimit, &result->_data);
-- 
2.43.0


From e21ae3821e0ac12ef5a0b326bc27c813eb7baa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:05:41 +0000
Subject: [PATCH 087/110] fix: do not add empty postings to a text index with
 repeated words

---
 src/index/Index.Text.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/index/Index.Text.cpp b/src/index/Index.Text.cpp
index fc0b3cd..b1c94e6 100644
--- a/src/index/Index.Text.cpp
+++ b/src/index/Index.Text.cpp
@@ -14,10 +14,12 @@
 // _____________________________________________________________________________
 void Index::addTextFromContextFile(const string& contextFile) {
   string indexFilename = _onDiskBase + ".text.index";
-  size_t nofLines = passContextFileForVocabulary(contextFile);
+  passContextFileForVocabulary(contextFile);
   _textVocab.writeToFile(_onDiskBase + ".text.vocabulary");
   calculateBlockBoundaries();
-  TextVec v(nofLines);
+  // Starts empty and grows: there can be fewer postings than lines, because a
+  // context contains each word only once.
+  TextVec v;
   passContextFileIntoVector(contextFile, v);
   LOG(INFO) << "Sorting text index with " << v.size() << " items ..."
             << std::endl;
-- 
2.43.0


From 9961dd61317227f8fb5b25508f8edf7dcc07d4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:05:48 +0000
Subject: [PATCH 088/110] fix: reject requests in which the protocol comes
 before the method

---
 src/engine/Server.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/Server.cpp b/src/engine/Server.cpp
index 6c9a36b..299f2a0 100644
--- a/src/engine/Server.cpp
+++ b/src/engine/Server.cpp
@@ -111,7 +111,8 @@ void Server::process(Socket* client) {
   size_t indexOfHTTP = request.find("HTTP");
   size_t upper = indexOfHTTP;
 
-  if (indexOfGET != request.npos && indexOfHTTP != request.npos) {
+  if (indexOfGET != request.npos && indexOfHTTP != request.npos &&
+      indexOfGET < indexOfHTTP) {
     size_t indexOfQuest = request.find("?", indexOfGET);
     if (indexOfQuest != string::npos && indexOfQuest < indexOfHTTP) {
       upper = indexOfQuest + 1;
-- 
2.43.0


From 2fb3ac2719ca8b381e34c66668edd20767bdfdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:05:48 +0000
Subject: [PATCH 089/110] fix: accept queries that contain the text HTTP

---
 src/engine/Server.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/engine/Server.cpp b/src/engine/Server.cpp
index 299f2a0..dfaa550 100644
--- a/src/engine/Server.cpp
+++ b/src/engine/Server.cpp
@@ -108,7 +108,8 @@ void Server::process(Socket* client) {
              << " and headers with total size: " << headers.size() << endl;
 
   size_t indexOfGET = request.find("GET");
-  size_t indexOfHTTP = request.find("HTTP");
+  // The query might also contain HTTP, the protocol comes last.
+  size_t indexOfHTTP = request.rfind("HTTP");
   size_t upper = indexOfHTTP;
 
   if (indexOfGET != request.npos && indexOfHTTP != request.npos &&
@@ -262,7 +263,7 @@ Server::ParamValueMap Server::parseHttpRequest(
   // Parse the HTTP Request.
 
   size_t indexOfGET = httpRequest.find("GET");
-  size_t indexOfHTTP = httpRequest.find("HTTP");
+  size_t indexOfHTTP = httpRequest.rfind("HTTP");
 
   if (indexOfGET == httpRequest.npos || indexOfHTTP == httpRequest.npos) {
     AD_THROW(ad_semsearch::Exception::BAD_REQUEST,
-- 
2.43.0


From 2abba361d73549b6d22baa897ce386e11f9cbd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:05:48 +0000
Subject: [PATCH 090/110] fix: reject too deeply nested queries instead of
 overflowing the stack

---
 src/parser/SparqlParser.cpp | 5 +++++
 src/parser/SparqlParser.h   | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index 9135ae1..053d91e 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -253,6 +253,10 @@ ParsedQuery::Alias SparqlParser::parseAlias() {
 // _____________________________________________________________________________
 void SparqlParser::parseWhere(ParsedQuery* query,
                               ParsedQuery::GraphPattern* currentPattern) {
+  if (_nestingDepth == MAX_NESTING_DEPTH) {
+    throw ParseException("The graph patterns are nested too deeply.");
+  }
+  ++_nestingDepth;
   if (currentPattern == nullptr) {
     // Make the shared pointer point to the root graphpattern without deleting
     // it.
@@ -508,6 +512,7 @@ void SparqlParser::parseWhere(ParsedQuery* query,
       }
     }
   }
+  --_nestingDepth;
 }
 
 // _____________________________________________________________________________
diff --git a/src/parser/SparqlParser.h b/src/parser/SparqlParser.h
index b346d1a..a1fe3b0 100644
--- a/src/parser/SparqlParser.h
+++ b/src/parser/SparqlParser.h
@@ -26,6 +26,10 @@ class SparqlParser {
                              size_t off = 0);
 
  private:
+  // Parsing and planning are recursive.
+  static constexpr size_t MAX_NESTING_DEPTH = 100;
+  size_t _nestingDepth = 0;
+
   void parseQuery(ParsedQuery* query, bool isSubquery);
   void parsePrologue(ParsedQuery* query);
   void parseSelect(ParsedQuery* query);
-- 
2.43.0


From f3e960616e3b408375220a75ca78ec17ed72207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:33:05 +0000
Subject: [PATCH 091/110] fix: reject too deeply nested property paths instead
 of overflowing the stack

A property path with thousands of nested parentheses crashed the server.
Nesting is now limited to 100 levels and deeper paths are a parse error.
---
 src/parser/PropertyPathParser.cpp | 5 +++++
 src/parser/PropertyPathParser.h   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/parser/PropertyPathParser.cpp b/src/parser/PropertyPathParser.cpp
index daa76b7..54ac3e9 100644
--- a/src/parser/PropertyPathParser.cpp
+++ b/src/parser/PropertyPathParser.cpp
@@ -224,7 +224,12 @@ PropertyPath PropertyPathParser::pathPrimary() {
   const static std::string OPEN = "(";
   const static std::string CLOSE = ")";
   if (accept(OPEN)) {
+    if (_nestingDepth == MAX_NESTING_DEPTH) {
+      throw ParseException("The property path is nested too deeply.");
+    }
+    _nestingDepth++;
     PropertyPath p = this->path();
+    _nestingDepth--;
     expect(CLOSE);
     return p;
   } else {
diff --git a/src/parser/PropertyPathParser.h b/src/parser/PropertyPathParser.h
index b42fcdf..34f1a9e 100644
--- a/src/parser/PropertyPathParser.h
+++ b/src/parser/PropertyPathParser.h
@@ -80,6 +80,11 @@ class PropertyPathParser {
   // iri | 'a' | '(' Path ')'
   PropertyPath pathPrimary();
 
+  // Paths that are nested deeper than this are rejected, because parsing them
+  // requires a stack of the respective size.
+  static constexpr size_t MAX_NESTING_DEPTH = 100;
+  size_t _nestingDepth = 0;
+
   std::string_view _string;
   std::vector<Token> _tokens;
   ParserPos _position;
-- 
2.43.0


From f9b0d5d65ee818b466aa980cd95bdb67f07de541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:33:05 +0000
Subject: [PATCH 092/110] fix: keep invalid UTF-8 bytes when converting the
 case of strings

A byte that is not valid UTF-8 made the conversion loop forever, for
example when it was part of an HTTP parameter name.
---
 src/util/StringUtils.h | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/util/StringUtils.h b/src/util/StringUtils.h
index 52f4b26..fcfdda3 100644
--- a/src/util/StringUtils.h
+++ b/src/util/StringUtils.h
@@ -252,11 +252,15 @@ string getLowercaseUtf8(const std::string_view orig) {
     } else {
       wchar_t wChar;
       size_t len = mbrtowc(&wChar, &orig[i], orig.size() - i, &state);
-      // If this assertion fails, there is an invalid multi-byte character.
-      // However, this usually means that the locale is not utf8.
-      // Note that the default locale is always C. Main classes need to set them
+      // Bytes that are not part of a valid multi-byte character are kept as they
+      // are. Note that this also happens for valid utf8 if the locale is not
+      // utf8. The default locale is always C. Main classes need to set them
       // To utf8, even if the system's default is utf8 already.
-      assert(len > 0 && len <= static_cast<size_t>(MB_CUR_MAX));
+      if (len == 0 || len > static_cast<size_t>(MB_CUR_MAX)) {
+        state = std::mbstate_t();
+        retVal += orig[i];
+        continue;
+      }
       i += len - 1;
       size_t ret = wcrtomb(
           buf, static_cast<wchar_t>(towlower(static_cast<wint_t>(wChar))),
@@ -281,11 +285,15 @@ string getUppercaseUtf8(const std::string_view orig) {
     } else {
       wchar_t wChar;
       size_t len = mbrtowc(&wChar, &orig[i], orig.size() - i, &state);
-      // If this assertion fails, there is an invalid multi-byte character.
-      // However, this usually means that the locale is not utf8.
-      // Note that the default locale is always C. Main classes need to set them
+      // Bytes that are not part of a valid multi-byte character are kept as they
+      // are. Note that this also happens for valid utf8 if the locale is not
+      // utf8. The default locale is always C. Main classes need to set them
       // To utf8, even if the system's default is utf8 already.
-      assert(len > 0 && len <= static_cast<size_t>(MB_CUR_MAX));
+      if (len == 0 || len > static_cast<size_t>(MB_CUR_MAX)) {
+        state = std::mbstate_t();
+        retVal += orig[i];
+        continue;
+      }
       i += len - 1;
       size_t ret = wcrtomb(
           buf, static_cast<wchar_t>(towupper(static_cast<wint_t>(wChar))),
-- 
2.43.0


From 000fa39740f0209825176272f40468280777402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:28:54 +0000
Subject: [PATCH 093/110] fix: show unbound computed numbers as unbound

---
 src/engine/QueryExecutionTree.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/engine/QueryExecutionTree.cpp b/src/engine/QueryExecutionTree.cpp
index d0c0f86..d82472b 100644
--- a/src/engine/QueryExecutionTree.cpp
+++ b/src/engine/QueryExecutionTree.cpp
@@ -242,12 +242,20 @@ nlohmann::json QueryExecutionTree::writeJsonTable(
           break;
         }
         case ResultTable::ResultType::VERBATIM:
-          row.emplace_back(std::to_string(currentId));
+          if (currentId == ID_NO_VALUE) {
+            row.emplace_back(nullptr);
+          } else {
+            row.emplace_back(std::to_string(currentId));
+          }
           break;
         case ResultTable::ResultType::TEXT:
           row.emplace_back(_qec->getIndex().getTextExcerpt(currentId));
           break;
         case ResultTable::ResultType::FLOAT: {
+          if (currentId == ID_NO_VALUE) {
+            row.emplace_back(nullptr);
+            break;
+          }
           float f;
           std::memcpy(&f, &currentId, sizeof(float));
           std::stringstream s;
@@ -293,12 +301,17 @@ void QueryExecutionTree::writeTable(
             break;
           }
           case ResultTable::ResultType::VERBATIM:
-            out << data(i, val.first);
+            if (data(i, val.first) != ID_NO_VALUE) {
+              out << data(i, val.first);
+            }
             break;
           case ResultTable::ResultType::TEXT:
             out << _qec->getIndex().getTextExcerpt(data(i, val.first));
             break;
           case ResultTable::ResultType::FLOAT: {
+            if (data(i, val.first) == ID_NO_VALUE) {
+              break;
+            }
             float f;
             std::memcpy(&f, &data(i, val.first), sizeof(float));
             out << f;
-- 
2.43.0


From ec3c7e974508509743418effd9c03f628f0d094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:28:54 +0000
Subject: [PATCH 094/110] fix: a result ordered by a descending column first is
 not sorted by the following columns

---
 src/engine/OrderBy.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/engine/OrderBy.cpp b/src/engine/OrderBy.cpp
index c7abf83..39fe66e 100644
--- a/src/engine/OrderBy.cpp
+++ b/src/engine/OrderBy.cpp
@@ -63,10 +63,12 @@ vector<size_t> OrderBy::resultSortedOn() const {
   std::vector<size_t> sortedOn;
   sortedOn.reserve(_sortIndices.size());
   for (const pair<size_t, bool>& p : _sortIndices) {
-    if (!p.second) {
-      // Only ascending columns count as sorted.
-      sortedOn.push_back(p.first);
+    if (p.second) {
+      // Only the ascending columns before the first descending one count as
+      // sorted.
+      break;
     }
+    sortedOn.push_back(p.first);
   }
   return sortedOn;
 }
-- 
2.43.0


From 70c35e4693d07e26901ac932a5513786522d746a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:28:54 +0000
Subject: [PATCH 095/110] fix: initialise all bytes of a number computed by
 BIND

---
 src/engine/Bind.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/engine/Bind.cpp b/src/engine/Bind.cpp
index a320b64..9a8d976 100644
--- a/src/engine/Bind.cpp
+++ b/src/engine/Bind.cpp
@@ -239,6 +239,7 @@ void Bind::computeBinaryOperationBind(
     bool invalid = value1 == NO_VALUE || value2 == NO_VALUE ||
                    (binaryOperator == '/' && value2 == .0f);
     float opResult = invalid ? NO_VALUE : binaryOperation(value1, value2);
+    result(i, inCols) = 0;
     std::memcpy(&result(i, inCols), &opResult, sizeof(float));
   }
   *dynRes = result.moveToDynamic();
-- 
2.43.0


From ccdfe5b1f88e26e396f5a3fe87610d1b283e7ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:28:54 +0000
Subject: [PATCH 096/110] fix: reject negative and fractional constants
 compared with counts

---
 src/engine/Filter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/engine/Filter.cpp b/src/engine/Filter.cpp
index 0c89ac5..b75af76 100644
--- a/src/engine/Filter.cpp
+++ b/src/engine/Filter.cpp
@@ -714,6 +714,9 @@ void Filter::computeResultFixedValue(
     }
     case ResultTable::ResultType::VERBATIM:
       try {
+        if (_rhs.find_first_not_of("0123456789") != std::string::npos) {
+          throw std::invalid_argument(_rhs);
+        }
         rhs = std::stoull(_rhs);
       } catch (const std::logic_error& e) {
         AD_THROW(ad_semsearch::Exception::BAD_QUERY,
-- 
2.43.0


From 670309f1932a50d9ea51840c594fea3e6ced3e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:28:54 +0000
Subject: [PATCH 097/110] fix: reject filters that compare columns of different
 types

---
 src/engine/Filter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/engine/Filter.cpp b/src/engine/Filter.cpp
index b75af76..85223d2 100644
--- a/src/engine/Filter.cpp
+++ b/src/engine/Filter.cpp
@@ -273,6 +273,14 @@ void Filter::computeResult(ResultTable* result) {
   int width = result->_data.cols();
   if (_rhs[0] == '?') {
     size_t rhsInd = _subtree->getVariableColumn(_rhs);
+    // The types of an empty result might not be known.
+    if (subRes->size() > 0 &&
+        subRes->getResultType(lhsInd) != subRes->getResultType(rhsInd)) {
+      AD_THROW(ad_semsearch::Exception::NOT_YET_IMPLEMENTED,
+               "Comparing columns of different types is not supported but "
+               "required by filter: " +
+                   asString());
+    }
     CALL_FIXED_SIZE_1(width, computeResultDynamicValue, &result->_data, lhsInd,
                       rhsInd, subRes->_data, subRes->getResultType(lhsInd));
   } else {
-- 
2.43.0


From 9b6aa6b4ddb1ff4ac452ab2d8ce4a5ac3940b8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:34:51 +0000
Subject: [PATCH 098/110] fix: take the types of the columns of a UNION from
 the branch that has values

---
 src/engine/Union.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/engine/Union.cpp b/src/engine/Union.cpp
index b30d16f..777686d 100644
--- a/src/engine/Union.cpp
+++ b/src/engine/Union.cpp
@@ -153,9 +153,28 @@ void Union::computeResult(ResultTable* result) {
   runtimeInfo.addChild(_subtrees[0]->getRootOperation()->getRuntimeInfo());
   runtimeInfo.addChild(_subtrees[1]->getRootOperation()->getRuntimeInfo());
 
+  // The type of a column without values does not matter.
+  auto hasValues = [](const ResultTable& res, size_t col) {
+    for (size_t i = 0; i < res._data.size(); ++i) {
+      if (res._data(i, col) != ID_NO_VALUE) {
+        return true;
+      }
+    }
+    return false;
+  };
+
   result->_sortedBy = resultSortedOn();
   for (const std::array<size_t, 2>& o : _columnOrigins) {
-    if (o[0] != NO_COLUMN) {
+    if (o[0] != NO_COLUMN && o[1] != NO_COLUMN &&
+        subRes1->getResultType(o[0]) != subRes2->getResultType(o[1]) &&
+        hasValues(*subRes2, o[1])) {
+      if (hasValues(*subRes1, o[0])) {
+        AD_THROW(ad_semsearch::Exception::NOT_YET_IMPLEMENTED,
+                 "A UNION of values of different types in one column is not "
+                 "supported.");
+      }
+      result->_resultTypes.push_back(subRes2->getResultType(o[1]));
+    } else if (o[0] != NO_COLUMN) {
       result->_resultTypes.push_back(subRes1->getResultType(o[0]));
     } else if (o[1] != NO_COLUMN) {
       result->_resultTypes.push_back(subRes2->getResultType(o[1]));
-- 
2.43.0


From 32f2df278050bc6d78454553fddc3a92e2966a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:37:11 +0000
Subject: [PATCH 099/110] fix: the galloping join skipped rows of the larger
 left side

---
 src/engine/Join.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/Join.cpp b/src/engine/Join.cpp
index 3c08973..5fcd2b9 100644
--- a/src/engine/Join.cpp
+++ b/src/engine/Join.cpp
@@ -647,7 +647,7 @@ void Join::doGallopInnerJoin(const TagType, const IdTableView<L_WIDTH>& l1,
       }
     } else {
       size_t step = 1;
-      size_t last = j;
+      size_t last = i;
       while (l2(j, jc2) > l1(i, jc1)) {
         last = i;
         i += step;
-- 
2.43.0


From db730b04bd2c86192b1d2c2f2eedcc2975f4971b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:48:24 +0000
Subject: [PATCH 100/110] fix: do not hold the lock on the pinned sizes while
 estimating sizes

A query with pinresult=true stores the sizes of its index scans. The write lock
was held while these sizes were computed, but computing a size that is not yet
known takes the read lock. Such a query, for example one with a regex filter,
failed with 'Resource deadlock avoided'.
---
 src/engine/Operation.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/engine/Operation.cpp b/src/engine/Operation.cpp
index 695c45d..a03fd31 100644
--- a/src/engine/Operation.cpp
+++ b/src/engine/Operation.cpp
@@ -86,12 +86,14 @@ shared_ptr<const ResultTable> Operation::getResult(bool isRoot) {
   // (and distinctness) because the multiplicity for an index scan with a single
   // free variable is always 1.
   if (pinFinalResultButNotSubtrees) {
-    auto lock = getExecutionContext()->getPinnedSizes().wlock();
-    forAllDescendants([&lock](QueryExecutionTree* child) {
+    // Note: computing the size estimate might itself lock the pinned sizes, so
+    // it must be computed before the lock is acquired.
+    forAllDescendants([this](QueryExecutionTree* child) {
       if (child->getType() == QueryExecutionTree::OperationType::SCAN &&
           child->getResultWidth() == 1) {
-        (*lock)[child->getRootOperation()->asString()] =
-            child->getSizeEstimate();
+        const size_t sizeEstimate = child->getSizeEstimate();
+        auto lock = getExecutionContext()->getPinnedSizes().wlock();
+        (*lock)[child->getRootOperation()->asString()] = sizeEstimate;
       }
     });
   }
-- 
2.43.0


From 7dbe341c0cd6027918fad50071fb9671513f6eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:30:54 +0000
Subject: [PATCH 101/110] fix: move the filters of the has-predicate object to
 HAVING after the triple is erased

---
 src/engine/QueryPlanner.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index c1af22f..5e3cd01 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -687,7 +687,8 @@ bool QueryPlanner::checkUsePatternTrick(
       auto& filters = pq->_rootGraphPattern._filters;
       for (size_t i = 0; i < filters.size(); i++) {
         const SparqlFilter& filter = filters[i];
-        if (filter._lhs == t._o && filter._rhs[0] != '?') {
+        // t is not valid anymore
+        if (filter._lhs == patternTrickTriple->_o && filter._rhs[0] != '?') {
           pq->_havingClauses.push_back(filter);
           filters.erase(filters.begin() + i);
           i--;
-- 
2.43.0


From 9a17c4855197bdf6c6b0881d8a44b0a9f6e6b3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:30:54 +0000
Subject: [PATCH 102/110] fix: no pattern trick if the predicate variable
 occurs in VALUES or MINUS

---
 src/engine/QueryPlanner.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index 5e3cd01..4647fd4 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -570,7 +570,8 @@ bool QueryPlanner::checkUsePatternTrick(
           using T = std::decay_t<decltype(arg)>;
           if constexpr (std::is_same_v<T, GraphPatternOperation::Optional> ||
                         std::is_same_v<
-                            T, GraphPatternOperation::GroupGraphPattern>) {
+                            T, GraphPatternOperation::GroupGraphPattern> ||
+                        std::is_same_v<T, GraphPatternOperation::Minus>) {
             graphsToProcess.push_back(&arg._child);
           } else if constexpr (std::is_same_v<T,
                                               GraphPatternOperation::Union>) {
@@ -594,12 +595,18 @@ bool QueryPlanner::checkUsePatternTrick(
               }
             }
 
+          } else if constexpr (std::is_same_v<T,
+                                              GraphPatternOperation::Values>) {
+            for (const auto& var : arg._inlineValues._variables) {
+              if (var == t._o) {
+                usePatternTrick = false;
+                break;
+              }
+            }
           } else {
             static_assert(
                 std::is_same_v<T, GraphPatternOperation::TransPath> ||
-                std::is_same_v<T, GraphPatternOperation::BasicGraphPattern> ||
-                std::is_same_v<T, GraphPatternOperation::Values> ||
-                std::is_same_v<T, GraphPatternOperation::Minus>);
+                std::is_same_v<T, GraphPatternOperation::BasicGraphPattern>);
           }
           // Transitive paths cannot yet exist in the query. They could also
           // not contain the variables we are interested in.
-- 
2.43.0


From bc1d5092996ebc5274a4afaaa4b73c9e06168960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:30:54 +0000
Subject: [PATCH 103/110] fix: filters are not true for unbound values

---
 src/engine/Filter.cpp | 23 +++++++++++++++++++++++
 src/engine/Filter.h   |  3 +++
 2 files changed, 26 insertions(+)

diff --git a/src/engine/Filter.cpp b/src/engine/Filter.cpp
index 85223d2..09da1ed 100644
--- a/src/engine/Filter.cpp
+++ b/src/engine/Filter.cpp
@@ -256,6 +256,23 @@ void Filter::computeResultDynamicValue(IdTable* dynResult, size_t lhsInd,
   *dynResult = result.moveToDynamic();
 }
 
+// _____________________________________________________________________________
+void Filter::removeUnbound(IdTable* table, size_t col) {
+  size_t numKept = 0;
+  for (size_t row = 0; row < table->size(); ++row) {
+    if ((*table)(row, col) == ID_NO_VALUE) {
+      continue;
+    }
+    if (numKept != row) {
+      for (size_t i = 0; i < table->cols(); ++i) {
+        (*table)(numKept, i) = (*table)(row, i);
+      }
+    }
+    ++numKept;
+  }
+  table->resize(numKept);
+}
+
 // _____________________________________________________________________________
 void Filter::computeResult(ResultTable* result) {
   LOG(DEBUG) << "Getting sub-result for Filter result computation..." << endl;
@@ -287,6 +304,12 @@ void Filter::computeResult(ResultTable* result) {
     // compare the left column to a fixed value
     CALL_FIXED_SIZE_1(width, computeResultFixedValue, result, subRes);
   }
+  if (_type != SparqlFilter::PREFIX) {
+    removeUnbound(&result->_data, lhsInd);
+    if (_rhs[0] == '?') {
+      removeUnbound(&result->_data, _subtree->getVariableColumn(_rhs));
+    }
+  }
 
   LOG(DEBUG) << "Filter result computation done." << endl;
 }
diff --git a/src/engine/Filter.h b/src/engine/Filter.h
index e4154f9..1f4cceb 100644
--- a/src/engine/Filter.h
+++ b/src/engine/Filter.h
@@ -165,6 +165,9 @@ class Filter : public Operation {
   void computeResultFixedValue(
       ResultTable* result,
       const std::shared_ptr<const ResultTable> subRes) const;
+  // A comparison with a value that is not bound is never true.
+  static void removeUnbound(IdTable* table, size_t col);
+
   virtual void computeResult(ResultTable* result) override;
 
   /**
-- 
2.43.0


From fd67a8ea85c15b607b0a86a49bf30b0722e9c1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:30:54 +0000
Subject: [PATCH 104/110] fix: COUNT does not count unbound values

---
 src/engine/GroupBy.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index b1851f2..4f45819 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -289,7 +289,8 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
         for (size_t i = blockStart; i <= blockEnd; i++) {
           checkTimeoutHashSet();
           const auto it = distinctHashSet.find(input(i, a._inCol));
-          if (it == distinctHashSet.end()) {
+          if (it == distinctHashSet.end() &&
+              input(i, a._inCol) != ID_NO_VALUE) {
             count++;
             distinctHashSet.insert(input(i, a._inCol));
           }
@@ -297,7 +298,12 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
         (*result)(resultRow, a._outCol) = count;
         distinctHashSet.clear();
       } else {
-        (*result)(resultRow, a._outCol) = blockEnd - blockStart + 1;
+        // Unbound values do not count.
+        size_t count = 0;
+        for (size_t i = blockStart; i <= blockEnd; i++) {
+          count += input(i, a._inCol) != ID_NO_VALUE;
+        }
+        (*result)(resultRow, a._outCol) = count;
       }
       break;
     case ParsedQuery::AggregateType::GROUP_CONCAT: {
-- 
2.43.0


From 27ff5c5fe9123f38aa78d0cf88138652fc38bb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:30:54 +0000
Subject: [PATCH 105/110] fix: no delimiter after the last value of
 GROUP_CONCAT(DISTINCT)

---
 src/engine/GroupBy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/GroupBy.cpp b/src/engine/GroupBy.cpp
index 4f45819..bc7644d 100644
--- a/src/engine/GroupBy.cpp
+++ b/src/engine/GroupBy.cpp
@@ -321,7 +321,7 @@ void GroupBy::processGroup(const GroupBy::Aggregate& a, size_t blockStart,
           }
           const auto it = distinctHashSet.find(input(blockEnd, a._inCol));
           if (it == distinctHashSet.end()) {
-            out << input(blockEnd, a._inCol) << *delim;
+            out << input(blockEnd, a._inCol);
           }
           distinctHashSet.clear();
         } else {
-- 
2.43.0


From 945b281f8f554c317a8e16aff1df0e907bdd2c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:30:54 +0000
Subject: [PATCH 106/110] fix: reject filters on variables that their group
 does not have

---
 src/engine/QueryPlanner.cpp | 24 ++++++++++++++++++++++++
 src/engine/QueryPlanner.h   |  4 ++++
 2 files changed, 28 insertions(+)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index 4647fd4..c2c105f 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -440,6 +440,9 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::optimize(
   // (it might be, that the last join was optional and introduced new variables)
   if (!candidatePlans.empty()) {
     applyFiltersIfPossible(candidatePlans[0], rootPattern->_filters, true);
+    for (const auto& plan : candidatePlans[0]) {
+      checkFilterVariables(plan, rootPattern->_filters);
+    }
   }
 
   AD_CHECK(candidatePlans.size() == 1 || candidatePlans.empty());
@@ -2276,6 +2279,27 @@ void QueryPlanner::applyFiltersIfPossible(
   }
 }
 
+// _____________________________________________________________________________
+void QueryPlanner::checkFilterVariables(
+    const SubtreePlan& plan, const vector<SparqlFilter>& filters) const {
+  auto check = [&plan](const std::string& name) {
+    if (isVariable(name) && !plan._qet->varCovered(name)) {
+      AD_THROW(ad_semsearch::Exception::BAD_QUERY,
+               "The variable " + name +
+                   " of a FILTER does not occur in the group of the FILTER.");
+    }
+  };
+  for (const SparqlFilter& filter : filters) {
+    check(filter._lhs);
+    if (filter._type != SparqlFilter::REGEX &&
+        filter._type != SparqlFilter::PREFIX) {
+      check(filter._rhs);
+    }
+    std::for_each(filter._additionalLhs.begin(), filter._additionalLhs.end(),
+                  check);
+  }
+}
+
 // _____________________________________________________________________________
 std::shared_ptr<Operation> QueryPlanner::createFilterOperation(
     const SparqlFilter& filter, const SubtreePlan& parent) const {
diff --git a/src/engine/QueryPlanner.h b/src/engine/QueryPlanner.h
index 06dc200..a39ad2a 100644
--- a/src/engine/QueryPlanner.h
+++ b/src/engine/QueryPlanner.h
@@ -300,6 +300,10 @@ class QueryPlanner {
                               const vector<SparqlFilter>& filters,
                               bool replaceInsteadOfAddPlans) const;
 
+  // Throw if a filter has a variable that the plan for its group does not have.
+  void checkFilterVariables(const SubtreePlan& plan,
+                            const vector<SparqlFilter>& filters) const;
+
   std::shared_ptr<Operation> createFilterOperation(
       const SparqlFilter& filter, const SubtreePlan& parent) const;
 
-- 
2.43.0


From 295fba02cb81f96edb46385e88e4ccd7850a8a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:30:54 +0000
Subject: [PATCH 107/110] fix: prefix() keeps the literals with the prefix only

---
 src/parser/SparqlParser.cpp | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/parser/SparqlParser.cpp b/src/parser/SparqlParser.cpp
index 053d91e..26a42c9 100644
--- a/src/parser/SparqlParser.cpp
+++ b/src/parser/SparqlParser.cpp
@@ -798,24 +798,16 @@ bool SparqlParser::parseFilter(vector<SparqlFilter>* _filters,
     return true;
   } else if (_lexer.accept("prefix")) {
     _lexer.expect("(");
-    SparqlFilter f1;
-    SparqlFilter f2;
-    f1._type = SparqlFilter::GE;
-    f2._type = SparqlFilter::LT;
-    // Do prefix filtering by using two filters (one testing >=, the other =)
+    SparqlFilter f;
+    f._type = SparqlFilter::PREFIX;
     _lexer.expect(SparqlToken::Type::VARIABLE);
-    f1._lhs = _lexer.current().raw;
-    f2._lhs = f1._lhs;
+    f._lhs = _lexer.current().raw;
     _lexer.expect(",");
     _lexer.expect(SparqlToken::Type::RDFLITERAL);
-    f1._rhs = _lexer.current().raw;
-    f2._rhs = f1._lhs;
-    f1._rhs = f1._rhs.substr(0, f1._rhs.size() - 1) + " ";
-    f2._rhs = f2._rhs.substr(0, f2._rhs.size() - 2);
-    f2._rhs += f1._rhs[f1._rhs.size() - 2] + 1;
-    f2._rhs += f1._rhs[f1._rhs.size() - 1];
-    _filters->emplace_back(f1);
-    _filters->emplace_back(f2);
+    // A literal with this beginning: without the closing quotation mark.
+    f._rhs = _lexer.current().raw;
+    f._rhs = "^" + f._rhs.substr(0, f._rhs.size() - 1);
+    _filters->push_back(f);
     _lexer.expect(")");
     expectClose();
     return true;
-- 
2.43.0


From 04cdd3db0084728dc725e4519707a3ef32b97aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:30:54 +0000
Subject: [PATCH 108/110] fix: a comment in a query ends at a carriage return,
 too

---
 src/parser/SparqlLexer.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/parser/SparqlLexer.cpp b/src/parser/SparqlLexer.cpp
index 4603285..4cbaf9f 100644
--- a/src/parser/SparqlLexer.cpp
+++ b/src/parser/SparqlLexer.cpp
@@ -48,8 +48,10 @@ const std::string SparqlLexer::IRI = "((" + LANGTAG + "@)?((" + IRIREF + ")|(" +
 const std::string SparqlLexer::VARNAME =
     "(" + PN_CHARS_U + "|[0-9])(" + PN_CHARS_U +
     "|[0-9]|\\x{00B7}|[\\x{0300}-\\x{036F}]|[\\x{203F}-\\x{2040}])*";
-const std::string SparqlLexer::GROUP_BY = "(?i)(GROUP(\\s|#[^\\n]*\\n)*BY)";
-const std::string SparqlLexer::ORDER_BY = "(?i)(ORDER(\\s|#[^\\n]*\\n)*BY)";
+const std::string SparqlLexer::GROUP_BY =
+    "(?i)(GROUP(\\s|#[^\\n\\r]*[\\n\\r])*BY)";
+const std::string SparqlLexer::ORDER_BY =
+    "(?i)(ORDER(\\s|#[^\\n\\r]*[\\n\\r])*BY)";
 const std::string SparqlLexer::KEYWORD =
     "(?i)(TEXTLIMIT|PREFIX|SELECT|DISTINCT|REDUCED|"
     "HAVING|WHERE|ASC|AS|LIMIT|OFFSET|DESC|FILTER|VALUES|"
@@ -163,8 +165,9 @@ void SparqlLexer::readNext() {
     } else if (re2::RE2::Consume(&_re_string, RE_WS, &raw)) {
       _next.type = SparqlToken::Type::WS;
     } else if (_re_string[0] == '#') {
-      // Start of a comment. Consume everything up to the next newline.
-      while (!_re_string.empty() && _re_string[0] != '\n') {
+      // Start of a comment. Consume everything up to the end of the line.
+      while (!_re_string.empty() && _re_string[0] != '\n' &&
+             _re_string[0] != '\r') {
         _re_string.remove_prefix(1);
       }
     } else {
-- 
2.43.0


From b46db4a28eed68475657ad1b6561f4b7e27c98d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:30:54 +0000
Subject: [PATCH 109/110] fix: values and unknown constants at the ends of
 paths

---
 src/engine/QueryPlanner.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index c2c105f..a534e63 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -352,6 +352,16 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::optimize(
           std::string leftColName, rightColName;
           size_t min, max;
           bool leftVar, rightVar;
+          // A constant that does not occur in the data is connected to nothing.
+          auto getIdOfConstant = [this](const std::string& constant) {
+            Id id;
+            bool found = _qec->getIndex().getVocab().getId(
+                ad_utility::isXsdValue(constant)
+                    ? ad_utility::convertValueLiteralToIndexWord(constant)
+                    : constant,
+                &id);
+            return found ? id : ID_NO_VALUE;
+          };
           if (isVariable(arg._left)) {
             leftVar = true;
             leftCol = sub._qet->getVariableColumn(arg._innerLeft);
@@ -360,10 +370,7 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::optimize(
             leftVar = false;
             leftColName = generateUniqueVarName();
             leftCol = sub._qet->getVariableColumn(arg._innerLeft);
-            if (!_qec->getIndex().getVocab().getId(arg._left, &leftValue)) {
-              AD_THROW(ad_semsearch::Exception::BAD_QUERY,
-                       "No vocabulary entry for " + arg._left);
-            }
+            leftValue = getIdOfConstant(arg._left);
           }
           if (isVariable(arg._right)) {
             rightVar = true;
@@ -373,10 +380,7 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::optimize(
             rightVar = false;
             rightCol = sub._qet->getVariableColumn(arg._innerRight);
             rightColName = generateUniqueVarName();
-            if (!_qec->getIndex().getVocab().getId(arg._right, &rightValue)) {
-              AD_THROW(ad_semsearch::Exception::BAD_QUERY,
-                       "No vocabulary entry for " + arg._right);
-            }
+            rightValue = getIdOfConstant(arg._right);
           }
           min = arg._min;
           max = arg._max;
-- 
2.43.0


From 82e03260d3e4249c40960aab8f6efe9c1f666c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:30:54 +0000
Subject: [PATCH 110/110] fix: paths from a variable to itself

---
 src/engine/QueryPlanner.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/engine/QueryPlanner.cpp b/src/engine/QueryPlanner.cpp
index a534e63..28517e0 100644
--- a/src/engine/QueryPlanner.cpp
+++ b/src/engine/QueryPlanner.cpp
@@ -382,6 +382,12 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::optimize(
             rightColName = generateUniqueVarName();
             rightValue = getIdOfConstant(arg._right);
           }
+          // The result has one column for each side, also if both sides are the
+          // same variable.
+          bool isLoop = leftVar && rightVar && leftColName == rightColName;
+          if (isLoop) {
+            rightColName = generateUniqueVarName();
+          }
           min = arg._min;
           max = arg._max;
           auto transOp = std::make_shared<TransitivePath>(
@@ -392,6 +398,18 @@ std::vector<QueryPlanner::SubtreePlan> QueryPlanner::optimize(
           tree.setVariableColumns(static_cast<TransitivePath*>(transOp.get())
                                       ->getVariableColumns());
           tree.setOperation(QueryExecutionTree::TRANSITIVE_PATH, transOp);
+          if (isLoop) {
+            SparqlFilter filter;
+            filter._type = SparqlFilter::EQ;
+            filter._lhs = leftColName;
+            filter._rhs = rightColName;
+            SubtreePlan loops(_qec);
+            loops._qet->setVariableColumns(tree.getVariableColumns());
+            loops._qet->setOperation(
+                QueryExecutionTree::FILTER,
+                createFilterOperation(filter, candidatesOut.back()));
+            candidatesOut.back() = std::move(loops);
+          }
         }
         joinCandidates(std::move(candidatesOut));
 
-- 
2.43.0


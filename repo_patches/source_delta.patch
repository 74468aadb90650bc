From eb02322941f8761f0e1e5d389855d7b358bed4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 01/33] fix: report infeasible records reliably from parallel
 workers

An exception raised inside a parallel loop surfaced as SystemError, or was lost
entirely when the row was processed by another thread, so infeasible records were
silently sampled. Check the logsums after the loop instead.
---
 cheval/core.py | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/cheval/core.py b/cheval/core.py
index 7a1a4fc..b0796f2 100644
--- a/cheval/core.py
+++ b/cheval/core.py
@@ -303,6 +303,15 @@ def nested_multisample(utilities: NDArray, parents, levels, ls_scales, bottom_fl
 
 # region High level functions
 
+@njit(void(ndouble[:]), nogil=True, cache=True)
+def assert_feasible(ls_array: NDArray):
+    """Exceptions cannot be reliably raised from inside a parallel loop (they are lost if raised on another thread), so
+    the workers check the logsums of all rows afterwards."""
+    for ls in ls_array:
+        if ls <= 0:
+            raise UtilityBoundsError("Utilities of all choices exceeded minimum value (Logsum == 0.0)")
+
+
 @njit(nlong[:, :](ndouble[:, :], nlong, nlong), parallel=True, nogil=True, cache=True)
 def worker_weighted_sample(weights: NDArray, n: int, seed: int) -> NDArray:
     n_rows = weights.shape[0]
@@ -339,15 +348,18 @@ def worker_multinomial_sample(utilities: NDArray, n: int, seed: int) -> Tuple[ND
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             r = r_array[i]
-            result[i, 0], ls = multinomial_sample(utility_row, r)
+            p_array, ls, _ = multinomial_probabilities(utility_row, False)
+            result[i, 0] = sample_once(p_array, r)
             ls_array[i] = ls
     else:
         seed_array = generate_rand_ints_for_parallel(seed, n_rows)
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             seed_i = seed_array[i]
-            _, ls = multinomial_multisample(utility_row, n, seed_i, result[i, :])
+            p_array, ls, _ = multinomial_probabilities(utility_row, False)
+            sample_multi(p_array, n, seed_i, result[i, :])
             ls_array[i] = ls
+    assert_feasible(ls_array)
     return result, ls_array
 
 
@@ -364,11 +376,13 @@ def worker_multinomial_probabilities(utilities: NDArray, check_infeasible: bool)
 
     for i in prange(n_rows):
         utility_row = utilities[i, :]
-        p_array, top_ls, nested_ls = multinomial_probabilities(utility_row, check_infeasible)
+        p_array, top_ls, nested_ls = multinomial_probabilities(utility_row, False)
         result[i, :] = p_array
         top_ls_array[i] = top_ls
         nested_ls_terms[i, :] = nested_ls
 
+    if check_infeasible:
+        assert_feasible(top_ls_array)
     return result, top_ls_array, nested_ls_terms
 
 
@@ -388,20 +402,22 @@ def worker_nested_sample(utilities: NDArray, parents, levels, ls_scales, bottom_
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             r = r_array[i]
-            this_result, ls = nested_sample(
-                utility_row, r, parents, levels, ls_scales, bottom_flags, scale_utilities
+            p_array, ls, _ = nested_probabilities(
+                utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, False
             )
-            result[i, 0] = this_result
+            result[i, 0] = sample_once(p_array, r)
             ls_array[i] = ls
     else:
         seed_array = generate_rand_ints_for_parallel(seed, n_rows)
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             seed_i = seed_array[i]
-            _, ls = nested_multisample(
-                utility_row, parents, levels, ls_scales, bottom_flags, n, seed_i, scale_utilities, out=result[i, :]
+            p_array, ls, _ = nested_probabilities(
+                utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, False
             )
+            sample_multi(p_array, n, seed_i, result[i, :])
             ls_array[i] = ls
+    assert_feasible(ls_array)
     return result, ls_array
 
 
@@ -420,12 +436,14 @@ def worker_nested_probabilities(utilities: NDArray, parents, levels, ls_scales,
     for i in prange(n_rows):
         utility_row = utilities[i, :]
         p_array, top_ls, nested_ls = nested_probabilities(
-            utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, check_infeasible
+            utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, False
         )
         result[i, :] = p_array
         top_ls_array[i] = top_ls
         nested_ls_terms[i, :] = nested_ls
 
+    if check_infeasible:
+        assert_feasible(top_ls_array)
     return result, top_ls_array, nested_ls_terms
 
 # endregion
-- 
2.43.0


From 48831f49d046f38903bcc06c7ec7d1d4097bc954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 02/33] fix: make worker_weighted_sample reproducible for a
 given seed

Random arrays generated inside a parallel function ignore the seed on other threads;
use the non-parallel generators like the other workers do.
---
 cheval/core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cheval/core.py b/cheval/core.py
index b0796f2..2fc37e9 100644
--- a/cheval/core.py
+++ b/cheval/core.py
@@ -317,19 +317,18 @@ def worker_weighted_sample(weights: NDArray, n: int, seed: int) -> NDArray:
     n_rows = weights.shape[0]
     result = np.zeros((n_rows, n), dtype=np.int64)
 
-    np.random.seed(seed)
     if n <= 1:
-        r_array = np.random.uniform(MIN_RANDOM_VALUE, 1.0, n_rows)
+        r_array = generate_rand_floats_for_parallel(seed, n_rows)
         for i in prange(n_rows):
             weight_row = weights[i, :]
             r = r_array[i]
             result[i, 0] = simple_sample(weight_row, r)
     else:
-        seed_array = np.random.randint(0, MAX_RANDOM_VALUE, n_rows)
+        seed_array = generate_rand_ints_for_parallel(seed, n_rows)
         for i in prange(n_rows):
             weight_row = weights[i, :]
             seed_i = seed_array[i]
-            _, ls = simple_multisample(weight_row, n, seed_i, result[i, :])
+            simple_multisample(weight_row, n, seed_i, result[i, :])
     return result
 
 
-- 
2.43.0


From 11cca148a70ef47e8e397fdd3675999bbb418722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 03/33] fix: never sample a 0-probability choice when
 probabilities sum to less than 1

A draw above the rounded total fell through to the last choice even if its probability was 0.
---
 cheval/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cheval/core.py b/cheval/core.py
index 2fc37e9..954640e 100644
--- a/cheval/core.py
+++ b/cheval/core.py
@@ -31,12 +31,15 @@ def sample_once(p_array: NDArray, r: float) -> int:
     r = max(r, MIN_RANDOM_VALUE)
     cumsum = 0.0
     index = 0
+    last_index = len(p_array) - 1
     for p in p_array:
         cumsum += p
         if r <= cumsum:
             return index
+        if p > 0:
+            last_index = index
         index += 1
-    return len(p_array) - 1
+    return last_index  # Probabilities can sum to slightly less than 1; never fall back onto a 0-probability choice
 
 
 @njit(nlong(ndouble, ndouble[:]), nogil=True, cache=True)
@@ -62,6 +65,9 @@ def logarithmic_search(r: float, cps: NDArray) -> int:
 
     ncols = len(cps)
 
+    # Probabilities can sum to slightly less than 1; never go past the last choice with non-zero probability
+    r = min(r, cps[ncols - 1])
+
     lower_bound, upper_bound = 0, ncols - 1
     while (upper_bound - lower_bound) > 1:
         mid_index = np.uint32((upper_bound + lower_bound) // 2)
-- 
2.43.0


From 2a7431359657bc9eb2e983b6c26968a3b720f742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 04/33] fix: running a model no longer changes its partial
 utilities

Expressions were accumulated into the cached partial utilities table, so every further
run (or run of another group) started from the previous run's utilities.
---
 cheval/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/model.py b/cheval/model.py
index a5b50ba..871129d 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -463,7 +463,7 @@ class ChoiceModel(object):
         if self.debug_id:
             debug_label = row_index.get_loc(self.debug_id)
 
-        utilities = to_numpy(self._partial_utilities)
+        utilities = to_numpy(self._partial_utilities).copy()  # Running must not change the partial utilities
 
         # Prepare locals, including scalar, vector, and matrix variables that don't need any further processing.
         shared_locals = {NAN_STR: np.nan, OUT_STR: utilities, NEG_INF_STR: NEG_INF_VAL}
-- 
2.43.0


From e165a34dc53878e00e9e121da3f4607b6e980380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 05/33] fix: discard partial utilities when the decision units
 change

They were silently applied to the new decision units (or failed, if the length differs).
---
 cheval/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cheval/model.py b/cheval/model.py
index 871129d..1b97b2a 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -235,6 +235,7 @@ class ChoiceModel(object):
             if isinstance(symbol, NumberSymbol):
                 continue  # Don't empty symbols that don't depend on the DU.
             symbol.empty()
+        self._cached_utils = None  # Partial utilities belong to the previous decision units
 
         if isinstance(item, pd.Index):
             self._decision_units = item
-- 
2.43.0


From 49c43fb1338c935d2a5286fe8baf767d752b0b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 06/33] fix: add_choices() accepts any iterable of names

A generator was exhausted while building the default scales, so no choice was added.
---
 cheval/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cheval/model.py b/cheval/model.py
index 1b97b2a..5aa9cdd 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -136,6 +136,7 @@ class ChoiceModel(object):
         if self._cached_utils is not None:
             self._cached_utils = None
 
+        names = list(names)  # Could be a one-shot iterable
         if logsum_scales is None:
             logsum_scales = [1.0 for _ in names]
         retval = {}
-- 
2.43.0


From 9917e9c5591ea9df7bf263b960124f0416138054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 07/33] fix: process the operand of a unary minus

Symbols, links and boolean operators under a negation were not translated, so e.g. `-cost`
raised KeyError unless the symbol was also used elsewhere.
---
 cheval/parsing/ast_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index e4eaab4..b0568fd 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -58,7 +58,7 @@ class ExpressionParser(ast.NodeTransformer):
         if isinstance(node.op, ast.Not):
             return ast.UnaryOp(op=ast.Invert(), operand=self.visit(node.operand))
         elif isinstance(node.op, ast.USub):
-            return node
+            return ast.UnaryOp(op=node.op, operand=self.visit(node.operand))
         raise NotImplementedError(type(node.op))
 
     def visit_boolop(self, node):
-- 
2.43.0


From a5dfdf68b692ee3e78acf1747e970bfc31c0b2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 08/33] fix: allow_links=False refuses LinkedDataFrames instead
 of plain DataFrames

---
 cheval/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/api.py b/cheval/api.py
index 2d5a086..5c18353 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -367,7 +367,7 @@ class TableSymbol(AbstractSymbol):
         for column in self._mandatory_attributes:
             assert column in data, f"Mandatory attribute {column} not found in DataFrame"
 
-        if not self._allow_links and not isinstance(data, LinkedDataFrame):
+        if not self._allow_links and isinstance(data, LinkedDataFrame):
             raise TypeError(f"LinkedDataFrames not allowed for symbol {self._name}")
 
         self._table = data
-- 
2.43.0


From 6446e31e08b9083e6d386600b35d4df65809454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 09/33] fix: assign matrices that need re-indexing on both rows
 and columns

Two index arrays were paired element by element instead of forming a grid.
---
 cheval/api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cheval/api.py b/cheval/api.py
index 5c18353..269c899 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -463,7 +463,10 @@ class MatrixSymbol(AbstractSymbol):
                 else:
                     row_indexer = slice(None)
 
-                matrix[row_indexer, col_indexer] = data
+                if not rows_match and not cols_match:
+                    matrix[np.ix_(row_indexer, col_indexer)] = data
+                else:
+                    matrix[row_indexer, col_indexer] = data
                 self._matrix = matrix
 
         else:
-- 
2.43.0


From 941477a1188a4b8caf7590f55a870f9c08f36f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 10/33] fix: allow aggregations directly on a table's link in
 utility expressions

`table.link.sum(attr)` was treated as a plain column lookup and failed.
---
 cheval/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/api.py b/cheval/api.py
index 269c899..2751039 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -375,7 +375,7 @@ class TableSymbol(AbstractSymbol):
     def _get(self, chain_info: ChainTuple = None):
         assert chain_info is not None
 
-        chained = len(chain_info.chain) > 1
+        chained = len(chain_info.chain) > 1 or chain_info.withfunc
 
         if chained:
             assert isinstance(self._table, LinkedDataFrame)
-- 
2.43.0


From 161045fb38094f4efd457b5f5681ffdebaddeccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 11/33] fix: preval() keeps symbols which other expressions
 still need

Symbols shared with another group were deleted from the scope, and reserved words such as
NEG_INF raised KeyError.
---
 cheval/model.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index 5aa9cdd..bfd8c84 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -652,16 +652,16 @@ class ChoiceModel(object):
 
         if cleanup_scope:
             # Need to get a set of only those symbols unique to this group, using set math
-            all_symbols = set(iter_chain(self.expressions.itersimple(), self.expressions.itersimple()))
-            ungrouped_symbols = set(
-                iter_chain(self._expressions.iterchained(groups=False), self._expressions.itersimple(groups=False)))
             group_symbols = set(iter_chain(subgroup.iterchained(), subgroup.itersimple()))
-            other_symbols = all_symbols - ungrouped_symbols - group_symbols
+            other_symbols = set()
+            for e in self._expressions:
+                if not any(e is grouped for grouped in subgroup):
+                    other_symbols |= e.all_symbols
 
-            symbols_to_clear = group_symbols - ungrouped_symbols - other_symbols
+            symbols_to_clear = group_symbols - other_symbols
 
             for name in symbols_to_clear:
-                del self._scope[name]
+                self._scope.pop(name, None)  # Reserved words are not in the scope
 
         if drop_group:
             self._expressions.drop_group(group)
-- 
2.43.0


From 969f279533623fbd65acd94c22eac93e661bd400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 12/33] fix: keep links consistent when rows are selected,
 reordered or copied

Sorting, sampling, take(), drop(), query() etc. kept links which refer to the rows of the
original frame, so lookups silently returned the values of other rows or failed. Slices of
links which were not pre-computed, and groups of frames with duplicate labels, failed too.
---
 cheval/ldf/api.py | 87 +++++++++++++++++++++++++++++------------------
 1 file changed, 54 insertions(+), 33 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 93f39b4..b85f9ae 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -78,6 +78,15 @@ class _IndexMeta:
             return frame.index.nlevels
         return len(self.labels)
 
+    def available_in(self, frame: DataFrame) -> bool:
+        """Checks that this side of the join can be made on the given frame"""
+        if self.labels is None:
+            return True
+        if self.from_row_labels:
+            levels = set(frame.index.names) | set(range(-frame.index.nlevels, frame.index.nlevels))
+            return levels.issuperset(self.labels)
+        return all(label in frame for label in self.labels)
+
     def validate(self, frame: DataFrame):
         if self.labels is None:
             return  # Use the index, which is always available
@@ -185,16 +194,19 @@ class _LinkMeta:
         """Top-level method to precompute the indexer"""
         self._make_indexer(*self._get_indexers())
 
-    def copy_meta(self) -> _LinkMeta:
-        copied = _LinkMeta(self.owner, self.other, self.self_meta, self.other_meta, self._other_has_links)
+    def copy_meta(self, owner: LinkedDataFrame = None) -> _LinkMeta:
+        if owner is None:
+            owner = self.owner
+        copied = _LinkMeta(owner, self.other, self.self_meta, self.other_meta, self._other_has_links)
         copied.aggregation_required = self.aggregation_required
         return copied
 
-    def copy(self, indices=None) -> _LinkMeta:
-        copied = self.copy_meta()
+    def copy(self, indices=None, owner: LinkedDataFrame = None) -> _LinkMeta:
+        copied = self.copy_meta(owner)
 
-        if self.flat_indexer is not None:
-            copied.flat_indexer = self.flat_indexer[indices] if indices is not None else self.flat_indexer
+        if self.flat_indexer is None:
+            self.precompute()  # The join keys might not be available in the copy
+        copied.flat_indexer = self.flat_indexer[indices] if indices is not None else self.flat_indexer
 
         # If we are not taking a slice, copy missing indices (if they exist)
         # If we are taking a slice, leave missing indices to be lazy-computed
@@ -621,34 +633,41 @@ class LinkedDataFrame(DataFrame):
         # Copy the link metadata from the parent dataframe
         # Note that as of pandas 1.5, the names of the methods is not considered stable
         # and may change in future versions.
-        if method == "groupby":
-            self._copy_links(other, reindex=True)
-        else:
+        if self.index is other.index:  # Same rows
+            self.__inherit_links(other)
+        elif method != "transpose":
+            # The rows were selected or reordered in an unknown way, so join again (when needed) using this frame's own
+            # keys. Links whose keys are no longer available are dropped.
+            index_was_reset = isinstance(self.index, pd.RangeIndex) and self.index.equals(pd.RangeIndex(len(self)))
             for link_name, link in other._links.items():
-                self._links[link_name] = link.copy_meta()
-            self._identified_links = other._identified_links.copy()
+                from_index = link.self_meta.labels is None or link.self_meta.from_row_labels
+                if (from_index and index_was_reset) or not link.self_meta.available_in(self):
+                    continue
+                self._links[link_name] = link.copy_meta(self)
+                if link_name in other._identified_links:
+                    self._identified_links.add(link_name)
 
         return self
 
-    def _copy_links(self, parent: LinkedDataFrame, reindex: bool = False):
-        """Copies linkage information from a parent dataframe
-
-        If `reindex` is True, computes an indexer based on the parent DataFrame's and
-        this DataFrame's indexes and passes it to `_LinkMeta.copy` to modify the linkage.
-        """
-        if reindex:
-            indexer = parent.index.get_indexer(self.index)
-        else:
-            indexer = None
-        link_names = set()
-        for link_name, link in parent._links.items():
-            self._links[link_name] = link.copy(indexer)
-            link_names.add(link_name)
-        self._identified_links = link_names
-
-    def __subset_links(self, target: LinkedDataFrame, indexer: np.ndarray):
-        for link_name, link_entry in self._links.items():
-            target._links[link_name] = link_entry.copy(indexer)
+    def __inherit_links(self, parent: LinkedDataFrame, indexer: Union[np.ndarray, slice] = None):
+        """Copies the links from a parent, of which this frame has the same rows, or the rows given by the indexer"""
+        for link_name, link_entry in parent._links.items():
+            self._links[link_name] = link_entry.copy(indexer, self)
+        self._identified_links = parent._identified_links.copy()
+
+    def __subset_links(self, target: LinkedDataFrame, indexer: Union[np.ndarray, slice]):
+        target.__inherit_links(self, indexer)
+
+    def _update_inplace(self, result, verify_is_copy=True):
+        # Used by inplace=True operations, which replace the rows of this frame by those of the result
+        if isinstance(result, LinkedDataFrame) and result.index is not self.index:
+            if len(result._links) == 0:
+                result.__finalize__(self)
+            for link in result._links.values():
+                link.owner = self
+            self._links = result._links
+            self._identified_links = result._identified_links
+        super()._update_inplace(result, verify_is_copy=verify_is_copy)
 
     def _take_with_is_copy(self, indices, axis=0):  # pandas >= 1.0.x
         sliced: LinkedDataFrame = super()._take_with_is_copy(indices, axis=axis)
@@ -667,7 +686,10 @@ class LinkedDataFrame(DataFrame):
 
         if isinstance(new_frame, LinkedDataFrame) and (0 in reindexers):
             _, indexer = reindexers[0]
-            self.__subset_links(new_frame, indexer)
+            if indexer is None:
+                self.__subset_links(new_frame, slice(None))
+            elif np.all(indexer >= 0):  # Otherwise, there are new rows (-1)
+                self.__subset_links(new_frame, indexer)
         return new_frame
 
     def _slice(self, slobj, axis=0, kind=None):
@@ -682,8 +704,7 @@ class LinkedDataFrame(DataFrame):
         copied = super().copy(deep=deep)
 
         # Copy the link data
-        for link_name, link_entry in self._links.items():
-            copied._links[link_name] = link_entry.copy()
+        copied.__inherit_links(self)
 
         return copied
 
-- 
2.43.0


From a65cd9aaedb99e2963463545e3c2b5024a123559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 13/33] fix: refresh the missing rows of a link together with
 its indexer

After compute_indexers(), fill values were still written to the rows which had been missing
before.
---
 cheval/ldf/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index b85f9ae..d0b45dc 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -160,6 +160,7 @@ class _LinkMeta:
         return self.self_meta.get_indexer(self.owner), self.other_meta.get_indexer(self.other)
 
     def _make_indexer(self, self_indexer: Index, other_indexer: Index):
+        self._missing_indices = None  # Belongs to the previous indexer
         if self.aggregation_required:
             group_ints, group_order = other_indexer.factorize()
             self.other_grouper = group_ints
-- 
2.43.0


From 2bc5329faf863e4614f2e954a63578947d725ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 14/33] fix: align aggregation results with their groups

A missing key in the target table, or a group with too few rows for nth(), shifted the results
of all other groups. Aggregating over a link that was not pre-computed failed.
---
 cheval/ldf/api.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index d0b45dc..3af220f 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -574,8 +574,14 @@ class LinkedDataFrame(DataFrame):
                     raise NotImplementedError("Haven't found a way to instantiate NaT filler")
 
                 # Aggregate and align the result
+                if top.flat_indexer is None:
+                    top.precompute()
                 grouper = top.other_grouper
-                grouped_result = to_numpy(getattr(evaluation.groupby(grouper), self._func_name)(**kwargs))
+                grouped_result = getattr(evaluation.groupby(grouper), self._func_name)(**kwargs)
+
+                # Rows with missing keys (-1) belong to no group, and some functions drop groups (e.g. `nth`)
+                n_groups = grouper.max() + 1 if len(grouper) > 0 else 0
+                grouped_result = to_numpy(grouped_result.reindex(np.arange(n_groups)))
 
                 return self._owner._resolve_history(grouped_result, fill_value)
 
-- 
2.43.0


From bbd57bcb357ec556e81cf0ebede22ef03afe43ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 15/33] fix: fill missing links with the fill value itself

Fill values were cast to the dtype of the data, e.g. to True for boolean data, or failed for
NaN and integer results such as count(). Looking up empty tables failed.
---
 cheval/ldf/api.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 3af220f..9618d0a 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -476,8 +476,19 @@ class LinkedDataFrame(DataFrame):
                 # Get the indexing data
                 indexer, missing = meta.indexer_and_missing
 
-                series = series[indexer]  # Reorder/duplicate/drop the raw array
-                series[missing] = fill_value  # Fill in missing values
+                if len(series) > 0:
+                    series = series[indexer]  # Reorder/duplicate/drop the raw array
+                elif isinstance(series, np.ndarray):  # Empty target, all rows are missing
+                    series = np.zeros(len(indexer), dtype=series.dtype)
+                else:
+                    series = series.take(indexer, allow_fill=True)
+
+                if len(missing) > 0:  # Fill in missing values
+                    if isinstance(series, np.ndarray) and series.dtype.kind in 'biu':
+                        # Integer and boolean arrays cannot hold every fill value
+                        is_number = isinstance(fill_value, (bool, int, float, np.bool_, np.number))
+                        series = series.astype(np.result_type(series.dtype, fill_value) if is_number else object)
+                    series[missing] = fill_value
             return Series(series, index=self._root_index)
 
         def __getattr__(self, item):
-- 
2.43.0


From 3586def054406cb4c214347c6ae7c02dd42787fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:51 +0000
Subject: [PATCH 16/33] fix: make temporary_fill_defaults() usable as a context
 manager

---
 cheval/ldf/api.py          | 2 +-
 cheval/ldf/missing_data.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 9618d0a..69da81b 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -399,7 +399,7 @@ class LinkedDataFrame(DataFrame):
 
     def temporary_fill_defaults(self=None, **kwargs):
         filler = self._instance_filler if self is not None else LinkedDataFrame._class_filler
-        yield from filler.temporary_fill_defaults(**kwargs)
+        return filler.temporary_fill_defaults(**kwargs)
 
     def reset_fill_defaults(self=None):
         filler = self._instance_filler if self is not None else LinkedDataFrame._class_filler
diff --git a/cheval/ldf/missing_data.py b/cheval/ldf/missing_data.py
index 22032ea..a408d9d 100644
--- a/cheval/ldf/missing_data.py
+++ b/cheval/ldf/missing_data.py
@@ -88,6 +88,7 @@ class SeriesFillManager:
                 enum_ = PandasDtype[type_name]
                 previous_values[enum_] = self._fill_values[enum_]
                 self._fill_values[enum_] = default_value
+            yield
         finally:
             for enum_, original_value in previous_values.items():
                 self._fill_values[enum_] = original_value
-- 
2.43.0


From 7e3250e361acdf90890649168b7b2191401ae0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 17/33] fix: don't match unknown multi-level keys with missing
 ones

If one level of a multi-column join key was missing in a row of the target table, rows whose
key didn't exist in the target were linked to it.
---
 cheval/ldf/api.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 69da81b..80642d6 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -162,7 +162,9 @@ class _LinkMeta:
     def _make_indexer(self, self_indexer: Index, other_indexer: Index):
         self._missing_indices = None  # Belongs to the previous indexer
         if self.aggregation_required:
-            group_ints, group_order = other_indexer.factorize()
+            complete = ~self._missing_keys(other_indexer)
+            group_ints = np.full(len(other_indexer), -1)
+            group_ints[complete], group_order = other_indexer[complete].factorize()
             self.other_grouper = group_ints
             self.flat_indexer = group_order.get_indexer(self_indexer)
         else:  # Performance-tuned fast paths for constructing indexers
@@ -173,6 +175,19 @@ class _LinkMeta:
                 # (the other was missing values, or the self had NaNs).
                 # Those were combined into a single case for performance purposes
                 self.flat_indexer = other_indexer.get_indexer(self_indexer)
+                self._unlink_missing_keys(other_indexer)
+
+    @staticmethod
+    def _missing_keys(indexer: Index) -> np.ndarray:
+        """Flags the entries of multi-level join keys in which any level is missing"""
+        if not isinstance(indexer, MultiIndex):
+            return np.zeros(len(indexer), dtype=bool)
+        return np.any([codes == -1 for codes in indexer.codes], axis=0)
+
+    def _unlink_missing_keys(self, indexer: Index):
+        # Pandas matches multi-level keys which don't exist with entries in which that level is missing
+        missing_positions = np.nonzero(self._missing_keys(indexer))[0]
+        self.flat_indexer = np.where(np.isin(self.flat_indexer, missing_positions), -1, self.flat_indexer)
 
     def _compute_missing_indices(self):
         """Initializes `missing_indices` by finding the rows which do not have any linkages
-- 
2.43.0


From 76a49888ccb234bdbc62edfed896cbaf52c81f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 18/33] fix: return the labels of discrete choices from nested
 models

Only astype='index' worked, as a MultiIndex cannot be converted to a Categorical or cast. The
full names of the nodes are returned, e.g. 'A.B'.
---
 cheval/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index bfd8c84..fcee868 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -535,15 +535,18 @@ class ChoiceModel(object):
         n_draws = raw_result.shape[1]
         column_index = pd.RangeIndex(n_draws, name=result_name)
         record_index = self.decision_units
+        choices = self.choices
+        if choices.nlevels > 1:
+            choices = pd.Index([node.full_name for node in self._all_nodes.values()])
 
         if astype == 'index':
             if squeeze and n_draws == 1:
                 return pd.Series(raw_result[:, 0], index=record_index, name=result_name)
             return pd.DataFrame(raw_result, index=record_index, columns=column_index)
         elif astype == 'category':
-            lookup_table = pd.Categorical(self.choices)
+            lookup_table = pd.Categorical(choices)
         else:
-            lookup_table = self.choices.astype(astype)
+            lookup_table = choices.astype(astype)
 
         retval = []
         for col in range(n_draws):
-- 
2.43.0


From 909d8ab97bfd269ae2f0e176399c9587e0c0fdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 19/33] fix: forget the symbols of a dropped expression group

After preval(), the model still demanded the symbols of the group, which had just been removed
from the scope, so it could not be run.
---
 cheval/api.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cheval/api.py b/cheval/api.py
index 2751039..4b0fafe 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -225,6 +225,13 @@ class ExpressionGroup(object):
     def drop_group(self, name: Hashable):
         del self._subgroups[name]
 
+        # Only keep the symbols of the remaining expressions
+        self._simple_symbols.clear()
+        self._chained_symbols.clear()
+        for e in self:
+            self._simple_symbols |= e.symbols
+            self._chained_symbols |= e.chains.keys()
+
     def copy(self) -> 'ExpressionGroup':
         new = ExpressionGroup()
         for e in self._ungrouped_expressions:
-- 
2.43.0


From 2eedecadf8f97c6caade50646b4862ced2221f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 20/33] fix: replacing a nest also removes the choices nested
 under it

They stayed in the model without their parent, which broke the evaluation.
---
 cheval/model.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index fcee868..6530130 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -77,21 +77,27 @@ class ChoiceModel(object):
     # region Tree operations
 
     def _create_node(self, name: str, logsum_scale: float, parent: ChoiceNode = None) -> ChoiceNode:
+        level = 1 if parent is None else (parent.level + 1)
+        node = ChoiceNode(self, name, parent=parent, logsum_scale=logsum_scale, level=level)
+
         expected_namespace = name
         if parent is None and name in self._all_nodes:
-            old_node = self._all_nodes.pop(name)  # Remove from model dictionary
+            old_node = self._all_nodes[name]
+            self._remove_node(old_node)  # Remove from model dictionary
             self._top_nodes.remove(old_node)  # Remove from top-level choices
         elif parent is not None:
             expected_namespace = parent.full_name + '.' + name
             if expected_namespace in self._all_nodes:
-                del self._all_nodes[expected_namespace]  # Remove from model dictionary
-
-        level = 1 if parent is None else (parent.level + 1)
-        node = ChoiceNode(self, name, parent=parent, logsum_scale=logsum_scale, level=level)
+                self._remove_node(self._all_nodes[expected_namespace])  # Remove from model dictionary
         self._all_nodes[expected_namespace] = node
 
         return node
 
+    def _remove_node(self, node: ChoiceNode):
+        for child in node.children():
+            self._remove_node(child)
+        del self._all_nodes[node.full_name]
+
     def add_choice(self, name: str, logsum_scale: float = 1.0) -> ChoiceNode:
         """Create and add a new discrete choice to the model, at the top level. Returns a node object which can also add
         nested choices, and so on. Choice names must only be unique within a given nest, although for clarity it is
-- 
2.43.0


From 8d5ab6583969bfac5ad61dcb757d6962d262c0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 21/33] fix: discard partial utilities when a nested choice is
 added

As for top-level choices; the partial utilities no longer match the choices.
---
 cheval/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cheval/api.py b/cheval/api.py
index 4b0fafe..811039d 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -101,6 +101,9 @@ class ChoiceNode(object):
         return tuple(retval)
 
     def add_choice(self, name: str, logsum_scale: float = 1.0) -> 'ChoiceNode':
+        self._root._cached_cols = None
+        self._root._cached_utils = None
+
         node = self._root._create_node(name, logsum_scale, parent=self)
         self._children[name] = node
         return node
-- 
2.43.0


From 48017bcc3aa692aee716bd7aa6ae5c5b893f0a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 22/33] fix: accept nullable integer data without missing
 values

It was converted to an array of objects, which expressions cannot be evaluated on.
---
 cheval/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/utils.py b/cheval/utils.py
index a32c411..6928be5 100644
--- a/cheval/utils.py
+++ b/cheval/utils.py
@@ -27,7 +27,7 @@ def convert_series(s: pd.Series, allow_raw: bool = False) -> NDArray:
         # need to deal with NA values in integer series in pandas >= 0.24
         # https://pandas.pydata.org/pandas-docs/stable/whatsnew/v1.0.0.html#arrays-integerarray-now-uses-pandas-na
         if np.all(~s.isna()):  # no NA values found
-            return s.to_numpy()[...]
+            return s.to_numpy(dtype=getattr(dtype, 'numpy_dtype', dtype))[...]  # IntegerArrays become object otherwise
         else:  # if NA values are present, yet pandas keeps the series as an IntegerArray instead of float
             try:
                 return np.asarray(s, dtype='float')[...]
-- 
2.43.0


From 3d72669281bb2d7b9bb0a0d8858d52dcae7b71ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 23/33] fix: refuse identity and membership comparisons

`x is None` was silently evaluated as a constant.
---
 cheval/parsing/ast_transformer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index b0568fd..a676eb8 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -82,6 +82,10 @@ class ExpressionParser(ast.NodeTransformer):
         return left
 
     def visit_compare(self, compare_node: ast.Compare):
+        for op in compare_node.ops:
+            if isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
+                raise UnsupportedSyntaxError(op.__class__.__name__)
+
         # Visit downstream symbols
         new_left = self.visit(compare_node.left)
         new_comparators = [self.visit(node) for node in compare_node.comparators]
-- 
2.43.0


From 8fe311b7b8938c51479aa3e8860cf8a7c655ebcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 24/33] fix: keep the precision of numbers in dict literals

They were rounded to 32 bits, e.g. {A: 0.1} contributed 0.10000000149 and {A: 16777217}
contributed 16777216.
---
 cheval/parsing/ast_transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index a676eb8..c5323be 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -191,9 +191,9 @@ class ExpressionParser(ast.NodeTransformer):
                 if isinstance(val_node, ast.UnaryOp):
                     assert isinstance(val_node.operand, ast.Num)
                     assert isinstance(val_node.op, ast.USub)
-                    new_val = np.float32(-val_node.operand.n)
+                    new_val = np.float64(-val_node.operand.n)
                 elif isinstance(val_node, ast.Num):
-                    new_val = np.float32(val_node.n)
+                    new_val = np.float64(val_node.n)
                 else:
                     raise ValueError()
 
-- 
2.43.0


From 68ba87d0e73f852c138eb26a5391bbda54e68c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:08 +0000
Subject: [PATCH 25/33] fix: a rejected expression leaves no symbols behind

---
 cheval/api.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/cheval/api.py b/cheval/api.py
index 811039d..b230a68 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -155,9 +155,11 @@ class ExpressionGroup(object):
         self._subgroups: Dict[Hashable, ExpressionSubGroup] = {}
 
     def append(self, e: str, group: Hashable = None):
-        # Parse the expression and look for invalid syntax and inconsistent usage. self._simple_symbols and
-        # self._chained_symbols are modified in-place during parsing.
-        expr = Expression.parse(e, self._simple_symbols, self._chained_symbols)
+        # Parse the expression and look for invalid syntax and inconsistent usage. The symbols are modified in-place
+        # during parsing, so only copies are given in case that the expression is rejected.
+        expr = Expression.parse(e, self._simple_symbols.copy(), self._chained_symbols.copy())
+        self._simple_symbols |= expr.symbols
+        self._chained_symbols |= expr.chains.keys()
         if group is not None:
             if group not in self._subgroups:
                 subgroup = ExpressionSubGroup(group)
@@ -168,9 +170,6 @@ class ExpressionGroup(object):
             subgroup.append(expr)
         else:
             self._ungrouped_expressions.append(expr)
-            self._simple_symbols |= expr.symbols
-            for chain_name in expr.chains.keys():
-                self._chained_symbols.add(chain_name)
 
     def clear(self):
         self._ungrouped_expressions.clear()
-- 
2.43.0


From 36c6bfc890354bc84dee982d4bdf761bec8cc7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:08 +0000
Subject: [PATCH 26/33] fix: refuse choice filters when evaluating linked
 frames

---
 cheval/ldf/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 80642d6..41507c9 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -13,6 +13,7 @@ import pandas as pd
 from pandas import DataFrame, Index, MultiIndex, Series
 
 from ..parsing.constants import NAN_STR, NAN_VAL, NEG_INF_STR, NEG_INF_VAL
+from ..parsing.exceptions import UnsupportedSyntaxError
 from ..parsing.expr_items import EvaluationMode
 from ..parsing.expressions import Expression
 from ..utils import convert_series, to_numpy
@@ -765,6 +766,8 @@ class LinkedDataFrame(DataFrame):
 
         """
         new_expr = Expression.parse(expr, mode=EvaluationMode.DATAFRAME)
+        if new_expr.filter_ is not None:
+            raise UnsupportedSyntaxError("Choice filters ('@') are only supported by ChoiceModel")
 
         ld = {} if local_dict is None else local_dict.copy()
         ld[NEG_INF_STR] = NEG_INF_VAL
-- 
2.43.0


From 941211d50c024b673887475f461c95e0ded837cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 27/33] fix: naming the children of a nest in a dict literal
 keeps the value of the nest

---
 cheval/parsing/expressions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/parsing/expressions.py b/cheval/parsing/expressions.py
index a30ed9c..af22e07 100644
--- a/cheval/parsing/expressions.py
+++ b/cheval/parsing/expressions.py
@@ -100,8 +100,9 @@ class Expression(object):
                 locs = choice_index.get_loc(tuple(new_key))
                 parent_loc = choice_index.get_loc(tuple(new_key + delta))
 
+                parent_val = new_array[0, parent_loc]  # The parent might have been named by another key
                 new_array[0, locs] = val
-                new_array[0, parent_loc] = 0
+                new_array[0, parent_loc] = parent_val
             else:
                 loc = choice_index.get_loc(tuple(new_key + delta))
                 new_array[0, loc] = val
-- 
2.43.0


From 6ede63e27437470d1c4b0f53dc336200fbe51031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:41 +0000
Subject: [PATCH 28/33] fix: drop links by row labels once the labels have been
 replaced

After set_index() or reset_index(), sorting or reindexing the frame joined the link again by
labels which are not its keys, so lookups returned fill values or the values of other rows.
---
 cheval/ldf/api.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 41507c9..749eedc 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -106,6 +106,8 @@ class _LinkMeta:
     self_meta: _IndexMeta
     other_meta: _IndexMeta
 
+    _self_index: Index
+    _index_replaced: bool
     flat_indexer: Optional[np.ndarray]
     other_grouper: Optional[np.ndarray]
     _missing_indices: Optional[Union[np.ndarray, List]]
@@ -133,6 +135,8 @@ class _LinkMeta:
         self.other_meta = other_meta
         self._other_has_links = other_has_links
         self.aggregation_required = False
+        self._self_index = owner.index  # To find out if the owner's row labels are replaced
+        self._index_replaced = False
         self.flat_indexer = None
         self.other_grouper = None
         self._missing_indices = None
@@ -199,6 +203,11 @@ class _LinkMeta:
     def chained(self) -> bool:
         return self._other_has_links
 
+    @property
+    def index_replaced(self) -> bool:
+        """Flag indicating that the owner's row labels are not those for which the link was made"""
+        return self._index_replaced or not self._self_index.equals(self.owner.index)
+
     @property
     def indexer_and_missing(self) -> Tuple[np.ndarray, np.ndarray]:
         if self.flat_indexer is None:
@@ -210,12 +219,15 @@ class _LinkMeta:
     def precompute(self):
         """Top-level method to precompute the indexer"""
         self._make_indexer(*self._get_indexers())
+        self._self_index = self.owner.index
+        self._index_replaced = False
 
     def copy_meta(self, owner: LinkedDataFrame = None) -> _LinkMeta:
         if owner is None:
             owner = self.owner
         copied = _LinkMeta(owner, self.other, self.self_meta, self.other_meta, self._other_has_links)
         copied.aggregation_required = self.aggregation_required
+        copied._index_replaced = self.index_replaced
         return copied
 
     def copy(self, indices=None, owner: LinkedDataFrame = None) -> _LinkMeta:
@@ -674,8 +686,12 @@ class LinkedDataFrame(DataFrame):
             # keys. Links whose keys are no longer available are dropped.
             index_was_reset = isinstance(self.index, pd.RangeIndex) and self.index.equals(pd.RangeIndex(len(self)))
             for link_name, link in other._links.items():
+                if link_name in self._links:
+                    continue  # Already carried over with its indexer
                 from_index = link.self_meta.labels is None or link.self_meta.from_row_labels
-                if (from_index and index_was_reset) or not link.self_meta.available_in(self):
+                if from_index and (index_was_reset or link.index_replaced):
+                    continue
+                if not link.self_meta.available_in(self):
                     continue
                 self._links[link_name] = link.copy_meta(self)
                 if link_name in other._identified_links:
-- 
2.43.0


From 7332da243251d7e12391deeb3cb720e08b268986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:17 +0000
Subject: [PATCH 29/33] fix: selecting no rows by position from a linked frame

frame.iloc[[]] raised an IndexError if the frame had links.
---
 cheval/ldf/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 749eedc..5233267 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -235,6 +235,8 @@ class _LinkMeta:
 
         if self.flat_indexer is None:
             self.precompute()  # The join keys might not be available in the copy
+        if indices is not None and not isinstance(indices, slice):
+            indices = np.asarray(indices, dtype=np.intp)  # No positions at all might come as an array of floats
         copied.flat_indexer = self.flat_indexer[indices] if indices is not None else self.flat_indexer
 
         # If we are not taking a slice, copy missing indices (if they exist)
-- 
2.43.0


From 95ea9fbbee8f151fdc99cb2dc521607731f606b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 30/33] fix: fill values for categories may be new categories

Looking up a category column failed for rows without a match, if the fill value that had been
set was not one of the categories.
---
 cheval/ldf/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 5233267..605e290 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -518,6 +518,9 @@ class LinkedDataFrame(DataFrame):
                         # Integer and boolean arrays cannot hold every fill value
                         is_number = isinstance(fill_value, (bool, int, float, np.bool_, np.number))
                         series = series.astype(np.result_type(series.dtype, fill_value) if is_number else object)
+                    elif isinstance(series, pd.Categorical) and not pd.isna(fill_value):
+                        if fill_value not in series.categories:
+                            series = series.add_categories([fill_value])
                     series[missing] = fill_value
             return Series(series, index=self._root_index)
 
-- 
2.43.0


From ed290e4961397a8f8d5dddccbe3c926c75b49dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:44 +0000
Subject: [PATCH 31/33] fix: substitutions of different chained symbols could
 get the same name

The 11th chain of symbol `a` and the first chain of symbol `a1` were both substituted by `__sub_a10`, so one was evaluated
with the data of the other.
---
 cheval/parsing/expr_items.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/parsing/expr_items.py b/cheval/parsing/expr_items.py
index f94b627..959c866 100644
--- a/cheval/parsing/expr_items.py
+++ b/cheval/parsing/expr_items.py
@@ -24,7 +24,7 @@ class ChainedSymbol(object):
         return ChainTuple(chain, func, args, True)
 
     def _make_sub(self, *, prepend_at=False) -> str:
-        s1 = "__sub_%s%s" % (self._name, len(self._lookups))
+        s1 = "__sub_%s_%s" % (self._name, len(self._lookups))  # Separated, as names can end with digits
         if prepend_at:
             return '@' + s1
         return s1
-- 
2.43.0


From 5780c2617c9b213f5d275b19bc568813febf3c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:34 +0000
Subject: [PATCH 32/33] fix: Refuse aggregations in expressions without exactly
 one argument

Additional arguments were silently ignored, and none raised an IndexError
---
 cheval/parsing/ast_transformer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index c5323be..b2aaf94 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -272,6 +272,8 @@ class ExpressionParser(ast.NodeTransformer):
             raise UnsupportedSyntaxError("Keyword args are not supported inside aggregations")
         if call_node.starargs is not None or call_node.kwargs is not None:
             raise UnsupportedSyntaxError("Star-args or star-kwargs are not supported inside aggregations")
+        if len(call_node.args) != 1 or isinstance(call_node.args[0], ast.Starred):
+            raise UnsupportedSyntaxError("Aggregation methods take exactly one expression")
         arg_expression = astor.to_source(call_node.args[0])
 
         if name in self.simple_symbols:
-- 
2.43.0


From d2386058e608379f4ce6449d72ad03e2d0d7cf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:34 +0000
Subject: [PATCH 33/33] fix: Keep the symbols of grouped expressions when
 copying expressions

A copy accepted expressions that use the symbols of a group inconsistently
---
 cheval/api.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cheval/api.py b/cheval/api.py
index b230a68..3b76cff 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -236,11 +236,9 @@ class ExpressionGroup(object):
 
     def copy(self) -> 'ExpressionGroup':
         new = ExpressionGroup()
-        for e in self._ungrouped_expressions:
-            new._ungrouped_expressions.append(e)
-            new._simple_symbols |= e.symbols
-            for chain_name in e.chains.keys():
-                new._chained_symbols.add(chain_name)
+        new._ungrouped_expressions = self._ungrouped_expressions.copy()
+        new._simple_symbols = self._simple_symbols.copy()
+        new._chained_symbols = self._chained_symbols.copy()
         for name, subgroup in self._subgroups.items():
             new_sg = ExpressionSubGroup(name)
             for e in subgroup:
-- 
2.43.0


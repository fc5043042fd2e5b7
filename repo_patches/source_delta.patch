From e266e131016f8d83fd426fdf81874887bfc6c9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 01/41] fix: sampling never returns a zero-probability choice
 when probabilities round to less than the draw

---
 cheval/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cheval/core.py b/cheval/core.py
index 7a1a4fc..971824b 100644
--- a/cheval/core.py
+++ b/cheval/core.py
@@ -31,12 +31,15 @@ def sample_once(p_array: NDArray, r: float) -> int:
     r = max(r, MIN_RANDOM_VALUE)
     cumsum = 0.0
     index = 0
+    last_index = len(p_array) - 1
     for p in p_array:
         cumsum += p
         if r <= cumsum:
             return index
+        if p > 0:
+            last_index = index  # If rounding leaves the total below r, never return a 0-probability choice
         index += 1
-    return len(p_array) - 1
+    return last_index
 
 
 @njit(nlong(ndouble, ndouble[:]), nogil=True, cache=True)
@@ -62,6 +65,10 @@ def logarithmic_search(r: float, cps: NDArray) -> int:
 
     ncols = len(cps)
 
+    # If rounding leaves the total below r, look for the last choice that has a non-zero probability
+    if r > cps[ncols - 1]:
+        r = cps[ncols - 1]
+
     lower_bound, upper_bound = 0, ncols - 1
     while (upper_bound - lower_bound) > 1:
         mid_index = np.uint32((upper_bound + lower_bound) // 2)
-- 
2.43.0


From 459f9eb46eaf6ddfe222505f65e4b6b66fb30063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 02/41] fix: weighted sampling is independent of the number of
 threads and works for repeated draws

---
 cheval/core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cheval/core.py b/cheval/core.py
index 971824b..cde3645 100644
--- a/cheval/core.py
+++ b/cheval/core.py
@@ -315,19 +315,18 @@ def worker_weighted_sample(weights: NDArray, n: int, seed: int) -> NDArray:
     n_rows = weights.shape[0]
     result = np.zeros((n_rows, n), dtype=np.int64)
 
-    np.random.seed(seed)
     if n <= 1:
-        r_array = np.random.uniform(MIN_RANDOM_VALUE, 1.0, n_rows)
+        r_array = generate_rand_floats_for_parallel(seed, n_rows)
         for i in prange(n_rows):
             weight_row = weights[i, :]
             r = r_array[i]
             result[i, 0] = simple_sample(weight_row, r)
     else:
-        seed_array = np.random.randint(0, MAX_RANDOM_VALUE, n_rows)
+        seed_array = generate_rand_ints_for_parallel(seed, n_rows)
         for i in prange(n_rows):
             weight_row = weights[i, :]
             seed_i = seed_array[i]
-            _, ls = simple_multisample(weight_row, n, seed_i, result[i, :])
+            simple_multisample(weight_row, n, seed_i, result[i, :])
     return result
 
 
-- 
2.43.0


From 8bd0e75ca37daa9993cd9fdf02d0fe2dd87b5a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 03/41] fix: infeasible decision units are always reported with
 UtilityBoundsError

---
 cheval/core.py | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/cheval/core.py b/cheval/core.py
index cde3645..1bd89f0 100644
--- a/cheval/core.py
+++ b/cheval/core.py
@@ -310,6 +310,15 @@ def nested_multisample(utilities: NDArray, parents, levels, ls_scales, bottom_fl
 
 # region High level functions
 
+@njit(void(ndouble[:]), nogil=True, cache=True)
+def check_feasible(top_logsums: NDArray):
+    """Raises an error if any row is infeasible. Exceptions cannot be raised reliably from inside a parallel loop, so the
+    workers below call this after the loop instead."""
+    for ls in top_logsums:
+        if ls <= 0:
+            raise UtilityBoundsError("Utilities all exceeded minimum value (Logsum == 0.0)")
+
+
 @njit(nlong[:, :](ndouble[:, :], nlong, nlong), parallel=True, nogil=True, cache=True)
 def worker_weighted_sample(weights: NDArray, n: int, seed: int) -> NDArray:
     n_rows = weights.shape[0]
@@ -345,15 +354,18 @@ def worker_multinomial_sample(utilities: NDArray, n: int, seed: int) -> Tuple[ND
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             r = r_array[i]
-            result[i, 0], ls = multinomial_sample(utility_row, r)
+            p_array, ls, _ = multinomial_probabilities(utility_row, False)
+            result[i, 0] = sample_once(p_array, r)
             ls_array[i] = ls
     else:
         seed_array = generate_rand_ints_for_parallel(seed, n_rows)
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             seed_i = seed_array[i]
-            _, ls = multinomial_multisample(utility_row, n, seed_i, result[i, :])
+            p_array, ls, _ = multinomial_probabilities(utility_row, False)
+            sample_multi(p_array, n, seed_i, result[i, :])
             ls_array[i] = ls
+    check_feasible(ls_array)  # Check infeasible req'd (for sampling)
     return result, ls_array
 
 
@@ -370,11 +382,13 @@ def worker_multinomial_probabilities(utilities: NDArray, check_infeasible: bool)
 
     for i in prange(n_rows):
         utility_row = utilities[i, :]
-        p_array, top_ls, nested_ls = multinomial_probabilities(utility_row, check_infeasible)
+        p_array, top_ls, nested_ls = multinomial_probabilities(utility_row, False)
         result[i, :] = p_array
         top_ls_array[i] = top_ls
         nested_ls_terms[i, :] = nested_ls
 
+    if check_infeasible:
+        check_feasible(top_ls_array)
     return result, top_ls_array, nested_ls_terms
 
 
@@ -394,20 +408,22 @@ def worker_nested_sample(utilities: NDArray, parents, levels, ls_scales, bottom_
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             r = r_array[i]
-            this_result, ls = nested_sample(
-                utility_row, r, parents, levels, ls_scales, bottom_flags, scale_utilities
+            p_array, ls, _ = nested_probabilities(
+                utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, False
             )
-            result[i, 0] = this_result
+            result[i, 0] = sample_once(p_array, r)
             ls_array[i] = ls
     else:
         seed_array = generate_rand_ints_for_parallel(seed, n_rows)
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             seed_i = seed_array[i]
-            _, ls = nested_multisample(
-                utility_row, parents, levels, ls_scales, bottom_flags, n, seed_i, scale_utilities, out=result[i, :]
+            p_array, ls, _ = nested_probabilities(
+                utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, False
             )
+            sample_multi(p_array, n, seed_i, result[i, :])
             ls_array[i] = ls
+    check_feasible(ls_array)  # Check infeasible req'd (for sampling)
     return result, ls_array
 
 
@@ -426,12 +442,14 @@ def worker_nested_probabilities(utilities: NDArray, parents, levels, ls_scales,
     for i in prange(n_rows):
         utility_row = utilities[i, :]
         p_array, top_ls, nested_ls = nested_probabilities(
-            utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, check_infeasible
+            utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, False
         )
         result[i, :] = p_array
         top_ls_array[i] = top_ls
         nested_ls_terms[i, :] = nested_ls
 
+    if check_infeasible:
+        check_feasible(top_ls_array)
     return result, top_ls_array, nested_ls_terms
 
 # endregion
-- 
2.43.0


From be12f4726e225750b503862c0970460164e99809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 04/41] fix: running a model does not accumulate into its
 partial utilities

---
 cheval/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/model.py b/cheval/model.py
index a5b50ba..279ae37 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -463,7 +463,8 @@ class ChoiceModel(object):
         if self.debug_id:
             debug_label = row_index.get_loc(self.debug_id)
 
-        utilities = to_numpy(self._partial_utilities)
+        # Expressions are accumulated in-place, so work on a copy to leave the partial utilities as they are
+        utilities = to_numpy(self._partial_utilities).copy()
 
         # Prepare locals, including scalar, vector, and matrix variables that don't need any further processing.
         shared_locals = {NAN_STR: np.nan, OUT_STR: utilities, NEG_INF_STR: NEG_INF_VAL}
-- 
2.43.0


From bfaf9164d43355a91d7e3e58d9dd2979406b7397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 05/41] fix: changing the decision units discards partial
 utilities

---
 cheval/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cheval/model.py b/cheval/model.py
index 279ae37..d7ee353 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -235,6 +235,7 @@ class ChoiceModel(object):
             if isinstance(symbol, NumberSymbol):
                 continue  # Don't empty symbols that don't depend on the DU.
             symbol.empty()
+        self._cached_utils = None  # Partial utilities are aligned with the old decision units
 
         if isinstance(item, pd.Index):
             self._decision_units = item
-- 
2.43.0


From 576a6481c54b1db3eb3f84f05477cfa00d529024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 06/41] fix: adding a nested choice discards partial utilities
 aligned with the old choices

---
 cheval/api.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cheval/api.py b/cheval/api.py
index 2d5a086..83a2d8e 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -101,6 +101,10 @@ class ChoiceNode(object):
         return tuple(retval)
 
     def add_choice(self, name: str, logsum_scale: float = 1.0) -> 'ChoiceNode':
+        # Cached items are aligned with the old choices
+        self._root._cached_cols = None
+        self._root._cached_utils = None
+
         node = self._root._create_node(name, logsum_scale, parent=self)
         self._children[name] = node
         return node
-- 
2.43.0


From 0c10094145bde20b291300307a7220298fbe7894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 07/41] fix: matrices partial or reordered along both axes can
 be assigned

---
 cheval/api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cheval/api.py b/cheval/api.py
index 83a2d8e..2033e8a 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -467,7 +467,10 @@ class MatrixSymbol(AbstractSymbol):
                 else:
                     row_indexer = slice(None)
 
-                matrix[row_indexer, col_indexer] = data
+                if not rows_match and not cols_match:
+                    matrix[np.ix_(row_indexer, col_indexer)] = data
+                else:
+                    matrix[row_indexer, col_indexer] = data
                 self._matrix = matrix
 
         else:
-- 
2.43.0


From 78945e09192e0c3edf22a7a9692d3a0b0d1ad304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 08/41] fix: tables declared without links refuse
 LinkedDataFrames and accept ordinary ones

---
 cheval/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/api.py b/cheval/api.py
index 2033e8a..79b449c 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -371,7 +371,7 @@ class TableSymbol(AbstractSymbol):
         for column in self._mandatory_attributes:
             assert column in data, f"Mandatory attribute {column} not found in DataFrame"
 
-        if not self._allow_links and not isinstance(data, LinkedDataFrame):
+        if not self._allow_links and isinstance(data, LinkedDataFrame):
             raise TypeError(f"LinkedDataFrames not allowed for symbol {self._name}")
 
         self._table = data
-- 
2.43.0


From a43c228e8ccd84d6996313c92d792b21d5b2c09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 09/41] fix: discrete results of nested models can be labelled
 with choices

---
 cheval/model.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index d7ee353..ecf50cc 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -540,10 +540,15 @@ class ChoiceModel(object):
             if squeeze and n_draws == 1:
                 return pd.Series(raw_result[:, 0], index=record_index, name=result_name)
             return pd.DataFrame(raw_result, index=record_index, columns=column_index)
-        elif astype == 'category':
-            lookup_table = pd.Categorical(self.choices)
+
+        choices = self.choices
+        if choices.nlevels > 1:
+            choices = choices.to_flat_index()  # A Series cannot hold a MultiIndex, but can hold its tuples
+
+        if astype == 'category':
+            lookup_table = pd.Categorical(choices)
         else:
-            lookup_table = self.choices.astype(astype)
+            lookup_table = choices.astype(astype)
 
         retval = []
         for col in range(n_draws):
-- 
2.43.0


From 2c705e37338c53988b35e8e2a7af010882321d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 10/41] fix: aggregations over a single link can be used in
 utility expressions

---
 cheval/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/api.py b/cheval/api.py
index 79b449c..2c89d01 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -379,7 +379,7 @@ class TableSymbol(AbstractSymbol):
     def _get(self, chain_info: ChainTuple = None):
         assert chain_info is not None
 
-        chained = len(chain_info.chain) > 1
+        chained = len(chain_info.chain) > 1 or chain_info.withfunc
 
         if chained:
             assert isinstance(self._table, LinkedDataFrame)
-- 
2.43.0


From 3af8d6a4698300b3527b15c7a8be39f5891479b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 11/41] fix: replacing a choice also removes the nodes nested
 below it

---
 cheval/model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cheval/model.py b/cheval/model.py
index ecf50cc..7786f85 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -86,6 +86,11 @@ class ChoiceModel(object):
             if expected_namespace in self._all_nodes:
                 del self._all_nodes[expected_namespace]  # Remove from model dictionary
 
+        # Any nodes nested below a replaced node are removed along with it
+        nested_prefix = expected_namespace + '.'
+        for full_name in [n for n in self._all_nodes if n.startswith(nested_prefix)]:
+            del self._all_nodes[full_name]
+
         level = 1 if parent is None else (parent.level + 1)
         node = ChoiceNode(self, name, parent=parent, logsum_scale=logsum_scale, level=level)
         self._all_nodes[expected_namespace] = node
-- 
2.43.0


From 9d8bebd6cb358d31da6ad958188e0c52530998e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:18 +0000
Subject: [PATCH 12/41] fix: names under a unary minus are translated and
 reported like any other

---
 cheval/parsing/ast_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index e4eaab4..b0568fd 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -58,7 +58,7 @@ class ExpressionParser(ast.NodeTransformer):
         if isinstance(node.op, ast.Not):
             return ast.UnaryOp(op=ast.Invert(), operand=self.visit(node.operand))
         elif isinstance(node.op, ast.USub):
-            return node
+            return ast.UnaryOp(op=node.op, operand=self.visit(node.operand))
         raise NotImplementedError(type(node.op))
 
     def visit_boolop(self, node):
-- 
2.43.0


From afb577ceeb485c0f0bf4de5cdefb973394f1e568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 13/41] fix: unsupported syntax is always refused with
 UnsupportedSyntaxError

---
 cheval/parsing/ast_transformer.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index b0568fd..5711620 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -13,7 +13,9 @@ from .expr_items import ChainedSymbol, EvaluationMode
 
 # Only nodes used in expressions are included, due to the limited parsing
 _UNSUPPORTED_NODES: Tuple[type] = (ast.Load, ast.Store, ast.Del, ast.IfExp, ast.Subscript, ast.ListComp, ast.DictComp,
-                                   ast.Starred)
+                                   ast.Starred, ast.Lambda, ast.Set, ast.SetComp, ast.GeneratorExp, ast.JoinedStr,
+                                   ast.NamedExpr, ast.Tuple, ast.List, ast.Await)
+_UNSUPPORTED_COMPARISONS: Tuple[type] = (ast.Is, ast.IsNot, ast.In, ast.NotIn)
 _NAN_REPRESENTATIONS = {'none', 'nan'}
 _NUMEXPR_FUNCTIONS = set(nee.functions.keys())
 _SUPPORTED_AGGREGATIONS = {
@@ -59,7 +61,7 @@ class ExpressionParser(ast.NodeTransformer):
             return ast.UnaryOp(op=ast.Invert(), operand=self.visit(node.operand))
         elif isinstance(node.op, ast.USub):
             return ast.UnaryOp(op=node.op, operand=self.visit(node.operand))
-        raise NotImplementedError(type(node.op))
+        raise UnsupportedSyntaxError(node.op.__class__.__name__)
 
     def visit_boolop(self, node):
         # Converts 'and' and 'or' into '&' and '|' which NumExpr supports
@@ -82,6 +84,10 @@ class ExpressionParser(ast.NodeTransformer):
         return left
 
     def visit_compare(self, compare_node: ast.Compare):
+        for op in compare_node.ops:
+            if isinstance(op, _UNSUPPORTED_COMPARISONS):
+                raise UnsupportedSyntaxError(op.__class__.__name__)
+
         # Visit downstream symbols
         new_left = self.visit(compare_node.left)
         new_comparators = [self.visit(node) for node in compare_node.comparators]
@@ -116,7 +122,7 @@ class ExpressionParser(ast.NodeTransformer):
             # Method of an object
             return self.__visit_method(node, func_node)
         else:
-            return self.generic_visit(node)
+            raise UnsupportedSyntaxError("Only functions and aggregation methods can be called")
 
     def __visit_toplevel_func(self, node, func_node):
         func_name = func_node.id
@@ -268,6 +274,8 @@ class ExpressionParser(ast.NodeTransformer):
             raise UnsupportedSyntaxError("Keyword args are not supported inside aggregations")
         if call_node.starargs is not None or call_node.kwargs is not None:
             raise UnsupportedSyntaxError("Star-args or star-kwargs are not supported inside aggregations")
+        if len(call_node.args) != 1 or isinstance(call_node.args[0], ast.Starred):
+            raise UnsupportedSyntaxError("Aggregation methods take exactly one expression")
         arg_expression = astor.to_source(call_node.args[0])
 
         if name in self.simple_symbols:
-- 
2.43.0


From ac8e4f55e947449a4de9108c55c5a675250cf451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 14/41] fix: None means 'null' in expressions

---
 cheval/parsing/ast_transformer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index 5711620..d5cc8ce 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -226,6 +226,12 @@ class ExpressionParser(ast.NodeTransformer):
             self.visited_simple.add(symbol_name)
         return node
 
+    def visit_constant(self, node):
+        # None is a constant (not a name) in the Python versions supported
+        if node.value is None:
+            return ast.Name(NAN_STR, ast.Load())
+        return node
+
     # endregion
 
     # region Chained symbols
-- 
2.43.0


From 17ada893b493ac5b17dde58d5ddb148540d6ab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 15/41] fix: placeholders of different symbols never coincide

---
 cheval/parsing/expr_items.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/parsing/expr_items.py b/cheval/parsing/expr_items.py
index f94b627..ec748c3 100644
--- a/cheval/parsing/expr_items.py
+++ b/cheval/parsing/expr_items.py
@@ -24,7 +24,8 @@ class ChainedSymbol(object):
         return ChainTuple(chain, func, args, True)
 
     def _make_sub(self, *, prepend_at=False) -> str:
-        s1 = "__sub_%s%s" % (self._name, len(self._lookups))
+        # The separator keeps names apart, e.g. of the 11th usage of 'a' and the 1st usage of 'a1'
+        s1 = "__sub_%s_%s" % (self._name, len(self._lookups))
         if prepend_at:
             return '@' + s1
         return s1
-- 
2.43.0


From 8daf87b63d45feafc18339684ac62fef79b56707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 16/41] fix: rejected and grouped expressions do not pollute
 the ungrouped symbols

---
 cheval/api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cheval/api.py b/cheval/api.py
index 2c89d01..ce89d1b 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -156,9 +156,9 @@ class ExpressionGroup(object):
         self._subgroups: Dict[Hashable, ExpressionSubGroup] = {}
 
     def append(self, e: str, group: Hashable = None):
-        # Parse the expression and look for invalid syntax and inconsistent usage. self._simple_symbols and
-        # self._chained_symbols are modified in-place during parsing.
-        expr = Expression.parse(e, self._simple_symbols, self._chained_symbols)
+        # Parse the expression and look for invalid syntax and inconsistent usage. The sets of symbols are modified
+        # in-place during parsing, so pass in copies: the expression could get rejected, or belong to a group.
+        expr = Expression.parse(e, set(self.itersimple()), set(self.iterchained()))
         if group is not None:
             if group not in self._subgroups:
                 subgroup = ExpressionSubGroup(group)
-- 
2.43.0


From d019aedbcb71bc92a2c5d69f11a5f92380bed8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 17/41] fix: preval only cleans up symbols that no other
 expression uses

---
 cheval/model.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index 7786f85..2a648b8 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -662,15 +662,14 @@ class ChoiceModel(object):
 
         if cleanup_scope:
             # Need to get a set of only those symbols unique to this group, using set math
-            all_symbols = set(iter_chain(self.expressions.itersimple(), self.expressions.itersimple()))
-            ungrouped_symbols = set(
-                iter_chain(self._expressions.iterchained(groups=False), self._expressions.itersimple(groups=False)))
             group_symbols = set(iter_chain(subgroup.iterchained(), subgroup.itersimple()))
-            other_symbols = all_symbols - ungrouped_symbols - group_symbols
-
-            symbols_to_clear = group_symbols - ungrouped_symbols - other_symbols
+            other_symbols = set(
+                iter_chain(self._expressions.iterchained(groups=False), self._expressions.itersimple(groups=False)))
+            for name, other_group in self._expressions._subgroups.items():
+                if name != group or not drop_group:
+                    other_symbols.update(iter_chain(other_group.iterchained(), other_group.itersimple()))
 
-            for name in symbols_to_clear:
+            for name in group_symbols - other_symbols - RESERVED_WORDS:
                 del self._scope[name]
 
         if drop_group:
-- 
2.43.0


From 92c006ec96eb6bcb7e01faa3f66db3a1a601f1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 18/41] fix: numbers in dict literals keep their double
 precision

---
 cheval/parsing/ast_transformer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index d5cc8ce..9b800f8 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -193,9 +193,9 @@ class ExpressionParser(ast.NodeTransformer):
                 if isinstance(val_node, ast.UnaryOp):
                     assert isinstance(val_node.operand, ast.Num)
                     assert isinstance(val_node.op, ast.USub)
-                    new_val = np.float32(-val_node.operand.n)
+                    new_val = -float(val_node.operand.n)
                 elif isinstance(val_node, ast.Num):
-                    new_val = np.float32(val_node.n)
+                    new_val = float(val_node.n)
                 else:
                     raise ValueError()
 
@@ -205,7 +205,7 @@ class ExpressionParser(ast.NodeTransformer):
 
             return new_node
 
-        except (ValueError, AssertionError):
+        except (ValueError, TypeError, AssertionError):
             # Catch simple errors and emit them as syntax errors
             raise UnsupportedSyntaxError("Dict literals are supported for numeric values only")
 
-- 
2.43.0


From 066abc2f5371f01525ad105464210750d29d438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 19/41] fix: a dict key for all children of a nest leaves the
 value of the nest itself alone

---
 cheval/parsing/expressions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/parsing/expressions.py b/cheval/parsing/expressions.py
index a30ed9c..fda4839 100644
--- a/cheval/parsing/expressions.py
+++ b/cheval/parsing/expressions.py
@@ -100,8 +100,9 @@ class Expression(object):
                 locs = choice_index.get_loc(tuple(new_key))
                 parent_loc = choice_index.get_loc(tuple(new_key + delta))
 
+                parent_val = new_array[0, parent_loc]  # The parent could have its own key in the literal
                 new_array[0, locs] = val
-                new_array[0, parent_loc] = 0
+                new_array[0, parent_loc] = parent_val
             else:
                 loc = choice_index.get_loc(tuple(new_key + delta))
                 new_array[0, loc] = val
-- 
2.43.0


From cdbf251f358017129d1e4735f665f28241e561ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:16 +0000
Subject: [PATCH 20/41] fix: links with different numbers of levels raise
 LinkageSpecificationError

---
 cheval/ldf/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 93f39b4..20e546d 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -107,7 +107,8 @@ class _LinkMeta:
         self_meta = _IndexMeta(self_labels, self_from_row_labels)
         other_meta = _IndexMeta(other_labels, other_from_row_labels)
 
-        assert self_meta.nlevels(owner) == other_meta.nlevels(other)
+        if self_meta.nlevels(owner) != other_meta.nlevels(other):
+            raise LinkageSpecificationError('Both sides of a link must have the same number of levels')
 
         other_has_links = isinstance(other, LinkedDataFrame)
 
-- 
2.43.0


From 1ea24a1be4dd5de9cde4beec805b2e8b61a89195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 21/41] fix: links can be made on levels given as integers

---
 cheval/ldf/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 20e546d..421bc5b 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -33,7 +33,7 @@ class _IndexMeta:
     from_row_labels: bool = attr.ib()
 
     def __init__(self, labels: Union[str, List[str]] = None, from_row_labels: bool = True):
-        if isinstance(labels, str):
+        if isinstance(labels, (str, int)):
             labels = [labels]
         elif labels is None:
             from_row_labels = True
@@ -59,7 +59,7 @@ class _IndexMeta:
                 # integer levels AND level names
                 try:
                     arrays.append(frame.index.get_level_values(label))
-                except KeyError:
+                except (KeyError, IndexError):
                     raise LinkageSpecificationError(f'Level `{label}` not in the index')
         else:
             for label in self.labels:
-- 
2.43.0


From 2c301c58eeae0bc15f9e79be6b56d5ee252f6316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 22/41] fix: null keys never match and belong to no group in
 aggregations

---
 cheval/ldf/api.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 421bc5b..2794494 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -151,9 +151,16 @@ class _LinkMeta:
     def _get_indexers(self) -> Tuple[Index, Index]:
         return self.self_meta.get_indexer(self.owner), self.other_meta.get_indexer(self.other)
 
+    @staticmethod
+    def _find_null_keys(indexer: Index) -> np.ndarray:
+        if isinstance(indexer, MultiIndex):
+            return np.any([codes == -1 for codes in indexer.codes], axis=0)
+        return indexer.isna()
+
     def _make_indexer(self, self_indexer: Index, other_indexer: Index):
         if self.aggregation_required:
             group_ints, group_order = other_indexer.factorize()
+            group_ints[self._find_null_keys(other_indexer)] = -1  # Null keys don't belong to any group
             self.other_grouper = group_ints
             self.flat_indexer = group_order.get_indexer(self_indexer)
         else:  # Performance-tuned fast paths for constructing indexers
@@ -164,6 +171,7 @@ class _LinkMeta:
                 # (the other was missing values, or the self had NaNs).
                 # Those were combined into a single case for performance purposes
                 self.flat_indexer = other_indexer.get_indexer(self_indexer)
+        self.flat_indexer[self._find_null_keys(self_indexer)] = -1  # Null keys never match
 
     def _compute_missing_indices(self):
         """Initializes `missing_indices` by finding the rows which do not have any linkages
@@ -562,8 +570,15 @@ class LinkedDataFrame(DataFrame):
                     raise NotImplementedError("Haven't found a way to instantiate NaT filler")
 
                 # Aggregate and align the result
+                top.indexer_and_missing  # The grouper is not available until the link is indexed
                 grouper = top.other_grouper
-                grouped_result = to_numpy(getattr(evaluation.groupby(grouper), self._func_name)(**kwargs))
+                n_groups = grouper.max() + 1 if len(grouper) > 0 else 0
+                grouped = evaluation[grouper >= 0].groupby(grouper[grouper >= 0])
+                grouped_result = getattr(grouped, self._func_name)(**kwargs)
+                if len(grouped_result) != n_groups:
+                    # Not all groups have a result, either because they only have null keys or because of `nth()`
+                    grouped_result = grouped_result.reindex(np.arange(n_groups), fill_value=fill_value)
+                grouped_result = to_numpy(grouped_result)
 
                 return self._owner._resolve_history(grouped_result, fill_value)
 
-- 
2.43.0


From 2fbbd0e8a260cfd855b107af5c717a515701056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 23/41] fix: nth() aggregations default to n=1 as documented

---
 cheval/ldf/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 2794494..1c5e121 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -569,6 +569,9 @@ class LinkedDataFrame(DataFrame):
                 elif series_type == PandasDtype.TIME_NAME:
                     raise NotImplementedError("Haven't found a way to instantiate NaT filler")
 
+                if self._func_name == 'nth':
+                    kwargs.setdefault('n', 1)
+
                 # Aggregate and align the result
                 top.indexer_and_missing  # The grouper is not available until the link is indexed
                 grouper = top.other_grouper
-- 
2.43.0


From 3083ed202593bb75b2c8c9f8401a67de45bfa169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 24/41] fix: counting non-integer values leaves the other rows
 with the integer fill

---
 cheval/ldf/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 1c5e121..c4be054 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -578,6 +578,8 @@ class LinkedDataFrame(DataFrame):
                 n_groups = grouper.max() + 1 if len(grouper) > 0 else 0
                 grouped = evaluation[grouper >= 0].groupby(grouper[grouper >= 0])
                 grouped_result = getattr(grouped, self._func_name)(**kwargs)
+                if grouped_result.dtype.kind in 'iu':
+                    fill_value = int_fill  # Counts are integers whatever is counted
                 if len(grouped_result) != n_groups:
                     # Not all groups have a result, either because they only have null keys or because of `nth()`
                     grouped_result = grouped_result.reindex(np.arange(n_groups), fill_value=fill_value)
-- 
2.43.0


From 1933a02ed1296276f6f1ee750558075fd6806857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:10 +0000
Subject: [PATCH 25/41] fix: links to empty frames return fill values

---
 cheval/ldf/api.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index c4be054..d685da7 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -11,6 +11,7 @@ import numexpr as ne
 import numpy as np
 import pandas as pd
 from pandas import DataFrame, Index, MultiIndex, Series
+from pandas.api.extensions import take
 
 from ..parsing.constants import NAN_STR, NAN_VAL, NEG_INF_STR, NEG_INF_VAL
 from ..parsing.expr_items import EvaluationMode
@@ -472,6 +473,11 @@ class LinkedDataFrame(DataFrame):
                 # Get the indexing data
                 indexer, missing = meta.indexer_and_missing
 
+                if len(series) == 0:
+                    # There is nothing to look up, all rows are missing
+                    series = take(series, indexer, allow_fill=True, fill_value=fill_value)
+                    continue
+
                 series = series[indexer]  # Reorder/duplicate/drop the raw array
                 series[missing] = fill_value  # Fill in missing values
             return Series(series, index=self._root_index)
-- 
2.43.0


From 789a0d2d7dd720511931fefea5e9b2b6a3ed3256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:10 +0000
Subject: [PATCH 26/41] fix: temporary fill defaults can be used in a with
 block

---
 cheval/ldf/api.py          | 2 +-
 cheval/ldf/missing_data.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index d685da7..f6b8346 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -396,7 +396,7 @@ class LinkedDataFrame(DataFrame):
 
     def temporary_fill_defaults(self=None, **kwargs):
         filler = self._instance_filler if self is not None else LinkedDataFrame._class_filler
-        yield from filler.temporary_fill_defaults(**kwargs)
+        return filler.temporary_fill_defaults(**kwargs)
 
     def reset_fill_defaults(self=None):
         filler = self._instance_filler if self is not None else LinkedDataFrame._class_filler
diff --git a/cheval/ldf/missing_data.py b/cheval/ldf/missing_data.py
index 22032ea..a408d9d 100644
--- a/cheval/ldf/missing_data.py
+++ b/cheval/ldf/missing_data.py
@@ -88,6 +88,7 @@ class SeriesFillManager:
                 enum_ = PandasDtype[type_name]
                 previous_values[enum_] = self._fill_values[enum_]
                 self._fill_values[enum_] = default_value
+            yield
         finally:
             for enum_, original_value in previous_values.items():
                 self._fill_values[enum_] = original_value
-- 
2.43.0


From c13c43bec2920c9304816f31726af2d14cbdedfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:10 +0000
Subject: [PATCH 27/41] fix: new frames take their fill defaults from the
 class-level settings

---
 cheval/ldf/api.py          | 2 +-
 cheval/ldf/missing_data.py | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index f6b8346..ce05ca3 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -276,7 +276,7 @@ class LinkedDataFrame(DataFrame):
 
         object.__setattr__(self, '_links', {})
         object.__setattr__(self, '_identified_links', set())
-        object.__setattr__(self, '_instance_filler', SeriesFillManager())
+        object.__setattr__(self, '_instance_filler', LinkedDataFrame._class_filler.copy())
         object.__setattr__(self, '_column_fills', {})
 
     def link_to(self, other: DataFrame, name: str, *, on: _LabelType = None, levels: _LabelType = None,
diff --git a/cheval/ldf/missing_data.py b/cheval/ldf/missing_data.py
index a408d9d..57a5a42 100644
--- a/cheval/ldf/missing_data.py
+++ b/cheval/ldf/missing_data.py
@@ -70,6 +70,11 @@ class SeriesFillManager:
             enum_ = PandasDtype[type_name]
             self._fill_values[enum_] = default_value
 
+    def copy(self) -> SeriesFillManager:
+        copied = SeriesFillManager()
+        copied._fill_values = self._fill_values.copy()
+        return copied
+
     def get_fill(self, s: pd.Series):
         dtype = infer_dtype(s)
         return self._fill_values[dtype]
-- 
2.43.0


From dfd852d50310f1945e8aa64e4ba5c11537a08317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:10 +0000
Subject: [PATCH 28/41] fix: lists of columns can be pivoted

---
 cheval/ldf/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index ce05ca3..6fc8c28 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -849,7 +849,7 @@ class LinkedDataFrame(DataFrame):
                 new_columns[lookup_items] = self.evaluate(lookup_items)
         elif (lookup_items is not None) and not isinstance(lookup_items, (pd.Series, np.ndarray)):
             for item in lookup_items:
-                if lookup_items in self.columns:
+                if item in self.columns:
                     new_columns[item] = self[item]
                 else:
                     new_columns[item] = self.evaluate(item)
-- 
2.43.0


From 8f7743c7b659644f4d0e337b7638f9d41cf70537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 29/41] fix: links follow the rows of a LinkedDataFrame through
 every row operation

---
 cheval/ldf/api.py | 103 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 72 insertions(+), 31 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 6fc8c28..9536844 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -10,7 +10,7 @@ import attr
 import numexpr as ne
 import numpy as np
 import pandas as pd
-from pandas import DataFrame, Index, MultiIndex, Series
+from pandas import DataFrame, Index, MultiIndex, RangeIndex, Series
 from pandas.api.extensions import take
 
 from ..parsing.constants import NAN_STR, NAN_VAL, NEG_INF_STR, NEG_INF_VAL
@@ -74,6 +74,14 @@ class _IndexMeta:
             return Index(arrays[0], name=name)
         return MultiIndex.from_arrays(arrays, names=self.labels)
 
+    def is_available(self, frame: DataFrame) -> bool:
+        if self.labels is None:
+            return True
+        if self.from_row_labels:
+            levels = list(frame.index.names) + list(range(frame.index.nlevels))
+            return all(label in levels for label in self.labels)
+        return all(label in frame.columns for label in self.labels)
+
     def nlevels(self, frame: DataFrame) -> int:
         if self.labels is None:
             return frame.index.nlevels
@@ -195,16 +203,26 @@ class _LinkMeta:
         """Top-level method to precompute the indexer"""
         self._make_indexer(*self._get_indexers())
 
-    def copy_meta(self) -> _LinkMeta:
-        copied = _LinkMeta(self.owner, self.other, self.self_meta, self.other_meta, self._other_has_links)
+    def copy_meta(self, owner: LinkedDataFrame = None) -> _LinkMeta:
+        if owner is None:
+            owner = self.owner
+        copied = _LinkMeta(owner, self.other, self.self_meta, self.other_meta, self._other_has_links)
         copied.aggregation_required = self.aggregation_required
         return copied
 
-    def copy(self, indices=None) -> _LinkMeta:
-        copied = self.copy_meta()
+    def copy(self, indices=None, owner: LinkedDataFrame = None, allow_missing: bool = False) -> _LinkMeta:
+        copied = self.copy_meta(owner=owner)
+
+        if indices is not None and self.flat_indexer is None:
+            self.precompute()  # The copy won't have the same rows as the owner, so it cannot do this by itself
 
         if self.flat_indexer is not None:
-            copied.flat_indexer = self.flat_indexer[indices] if indices is not None else self.flat_indexer
+            if indices is None:
+                copied.flat_indexer = self.flat_indexer
+            elif allow_missing:  # An index of -1 means that the row is missing, as opposed to the last row
+                copied.flat_indexer = take(self.flat_indexer, indices, allow_fill=True, fill_value=-1)
+            else:
+                copied.flat_indexer = self.flat_indexer[indices]
 
         # If we are not taking a slice, copy missing indices (if they exist)
         # If we are taking a slice, leave missing indices to be lazy-computed
@@ -645,37 +663,60 @@ class LinkedDataFrame(DataFrame):
         if not isinstance(other, LinkedDataFrame):
             return self
 
-        # Copy the link metadata from the parent dataframe
+        # Links which are already set by the functions below match the rows of this frame
+        new_links = {link_name: link for link_name, link in other._links.items() if link_name not in self._links}
+
         # Note that as of pandas 1.5, the names of the methods is not considered stable
         # and may change in future versions.
-        if method == "groupby":
-            self._copy_links(other, reindex=True)
-        else:
-            for link_name, link in other._links.items():
-                self._links[link_name] = link.copy_meta()
-            self._identified_links = other._identified_links.copy()
+        relabelled = method == 'transpose' or self.index.names != other.index.names
+        if method in {'sort_values', 'sort_index'}:
+            relabelled = relabelled or isinstance(self.index, RangeIndex)  # ignore_index=True
+        self._reestablish_links(new_links, relabelled)
+
+        # Avoid computing the indexer again for each group
+        if method == 'groupby' and other.index.is_unique:
+            indexer = other.index.get_indexer(self.index)
+            if np.all(indexer >= 0):
+                for link_name, link in new_links.items():
+                    meta = link.self_meta
+                    if link_name in self._links and meta.is_available(other):
+                        if meta.get_indexer(self).equals(meta.get_indexer(other).take(indexer)):
+                            self._links[link_name] = link.copy(indexer, owner=self)
 
         return self
 
-    def _copy_links(self, parent: LinkedDataFrame, reindex: bool = False):
-        """Copies linkage information from a parent dataframe
+    def _reestablish_links(self, links: Dict[str, _LinkMeta], relabelled: bool = False):
+        """Sets the given links (of another frame) on this frame, based on the columns and row labels of this frame.
+        Links which need columns or row labels that this frame doesn't have are discarded."""
+        for link_name, link in links.items():
+            meta = link.self_meta
+            lost = not meta.is_available(self) or (relabelled and (meta.labels is None or meta.from_row_labels))
+            if lost:
+                self._links.pop(link_name, None)
+            else:
+                self._links[link_name] = link.copy_meta(owner=self)
+        self._identified_links = {link_name for link_name in self._links if link_name.isidentifier()}
 
-        If `reindex` is True, computes an indexer based on the parent DataFrame's and
-        this DataFrame's indexes and passes it to `_LinkMeta.copy` to modify the linkage.
-        """
-        if reindex:
-            indexer = parent.index.get_indexer(self.index)
-        else:
-            indexer = None
-        link_names = set()
-        for link_name, link in parent._links.items():
-            self._links[link_name] = link.copy(indexer)
-            link_names.add(link_name)
-        self._identified_links = link_names
-
-    def __subset_links(self, target: LinkedDataFrame, indexer: np.ndarray):
+    def _update_inplace(self, result, *args, **kwargs):
+        old_index = self.index
+        super()._update_inplace(result, *args, **kwargs)
+        if self.index is not old_index:  # The rows could have changed
+            self._reestablish_links(self._links.copy(), relabelled=isinstance(self.index, RangeIndex))
+
+    def __subset_links(self, target: LinkedDataFrame, indexer: np.ndarray, allow_missing: bool = False):
         for link_name, link_entry in self._links.items():
-            target._links[link_name] = link_entry.copy(indexer)
+            owner = target if link_entry.self_meta.is_available(target) else None
+            try:
+                target._links[link_name] = link_entry.copy(indexer, owner=owner, allow_missing=allow_missing)
+            except LinkageSpecificationError:
+                target._links.pop(link_name, None)
+        target._identified_links = {link_name for link_name in target._links if link_name.isidentifier()}
+
+    def take(self, indices, axis=0, *args, **kwargs) -> LinkedDataFrame:
+        taken: LinkedDataFrame = super().take(indices, axis, *args, **kwargs)
+        if axis in {0, 'index'}:
+            self.__subset_links(taken, indices)
+        return taken
 
     def _take_with_is_copy(self, indices, axis=0):  # pandas >= 1.0.x
         sliced: LinkedDataFrame = super()._take_with_is_copy(indices, axis=axis)
@@ -694,7 +735,7 @@ class LinkedDataFrame(DataFrame):
 
         if isinstance(new_frame, LinkedDataFrame) and (0 in reindexers):
             _, indexer = reindexers[0]
-            self.__subset_links(new_frame, indexer)
+            self.__subset_links(new_frame, indexer, allow_missing=True)
         return new_frame
 
     def _slice(self, slobj, axis=0, kind=None):
-- 
2.43.0


From ce048a09c0b856225ef742a7d16d557b860b4236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:28 +0000
Subject: [PATCH 30/41] fix: nullable integer columns without missing values
 can be evaluated

---
 cheval/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/utils.py b/cheval/utils.py
index a32c411..a218a48 100644
--- a/cheval/utils.py
+++ b/cheval/utils.py
@@ -27,7 +27,7 @@ def convert_series(s: pd.Series, allow_raw: bool = False) -> NDArray:
         # need to deal with NA values in integer series in pandas >= 0.24
         # https://pandas.pydata.org/pandas-docs/stable/whatsnew/v1.0.0.html#arrays-integerarray-now-uses-pandas-na
         if np.all(~s.isna()):  # no NA values found
-            return s.to_numpy()[...]
+            return np.asarray(s, dtype=getattr(dtype, 'numpy_dtype', dtype))[...]  # IntegerArray gives objects otherwise
         else:  # if NA values are present, yet pandas keeps the series as an IntegerArray instead of float
             try:
                 return np.asarray(s, dtype='float')[...]
-- 
2.43.0


From 75b625370be2667f6cec75b6f73caadbdd00dd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:24 +0000
Subject: [PATCH 31/41] fix: fill values survive in columns of other types

---
 cheval/ldf/api.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 9536844..f820fb2 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -491,13 +491,11 @@ class LinkedDataFrame(DataFrame):
                 # Get the indexing data
                 indexer, missing = meta.indexer_and_missing
 
-                if len(series) == 0:
-                    # There is nothing to look up, all rows are missing
+                if len(missing) > 0:
+                    # Also promotes the array if its type cannot hold the fill value
                     series = take(series, indexer, allow_fill=True, fill_value=fill_value)
-                    continue
-
-                series = series[indexer]  # Reorder/duplicate/drop the raw array
-                series[missing] = fill_value  # Fill in missing values
+                else:
+                    series = series[indexer]  # Reorder/duplicate/drop the raw array
             return Series(series, index=self._root_index)
 
         def __getattr__(self, item):
@@ -608,6 +606,8 @@ class LinkedDataFrame(DataFrame):
                     # Not all groups have a result, either because they only have null keys or because of `nth()`
                     grouped_result = grouped_result.reindex(np.arange(n_groups), fill_value=fill_value)
                 grouped_result = to_numpy(grouped_result)
+                if grouped_result.dtype == np.bool_:
+                    fill_value = bool(fill_value)  # Keep conditions as conditions
 
                 return self._owner._resolve_history(grouped_result, fill_value)
 
-- 
2.43.0


From ca5c5dc8266a163bba935a5ce310e0fcebbc756a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:48 +0000
Subject: [PATCH 32/41] fix: integer matrices take fill values of other types

---
 cheval/api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cheval/api.py b/cheval/api.py
index ce89d1b..0333454 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -448,7 +448,10 @@ class MatrixSymbol(AbstractSymbol):
                 # Try to manually control the amount of excess RAM needed for partial utilities, as Pandas reindex()
                 # is quite hungry. This is important to keep this feature scalable.
 
-                matrix = np.full([len(rows), len(cols)], self._fill_value, dtype=to_numpy(data).dtype)
+                dtype = to_numpy(data).dtype
+                if dtype.kind in 'biu' and self._fill_value not in {0, 1}:  # The fill value could be a fraction or -inf
+                    dtype = np.result_type(dtype, type(self._fill_value))
+                matrix = np.full([len(rows), len(cols)], self._fill_value, dtype=dtype)
                 if not cols_match:
                     assert self._reindex_cols
                     col_indexer = cols.get_indexer(data.columns)
-- 
2.43.0


From f7dd22368ab9ce17a325a87e5c003c386702963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:47 +0000
Subject: [PATCH 33/41] fix: iterators of choice names can be added

---
 cheval/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cheval/model.py b/cheval/model.py
index 2a648b8..cfa78ae 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -141,6 +141,7 @@ class ChoiceModel(object):
         if self._cached_utils is not None:
             self._cached_utils = None
 
+        names = list(names)  # Could be an iterator
         if logsum_scales is None:
             logsum_scales = [1.0 for _ in names]
         retval = {}
-- 
2.43.0


From 8d2b5eea4d1673170580e5e92607bee24e30367e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:21 +0000
Subject: [PATCH 34/41] fix: a choice that is refused replaces nothing

---
 cheval/api.py   |  4 ----
 cheval/model.py | 19 +++++++------------
 2 files changed, 7 insertions(+), 16 deletions(-)

diff --git a/cheval/api.py b/cheval/api.py
index 0333454..b0665ae 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -101,10 +101,6 @@ class ChoiceNode(object):
         return tuple(retval)
 
     def add_choice(self, name: str, logsum_scale: float = 1.0) -> 'ChoiceNode':
-        # Cached items are aligned with the old choices
-        self._root._cached_cols = None
-        self._root._cached_utils = None
-
         node = self._root._create_node(name, logsum_scale, parent=self)
         self._children[name] = node
         return node
diff --git a/cheval/model.py b/cheval/model.py
index cfa78ae..d086bf0 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -77,6 +77,13 @@ class ChoiceModel(object):
     # region Tree operations
 
     def _create_node(self, name: str, logsum_scale: float, parent: ChoiceNode = None) -> ChoiceNode:
+        level = 1 if parent is None else (parent.level + 1)
+        node = ChoiceNode(self, name, parent=parent, logsum_scale=logsum_scale, level=level)  # Could be refused
+
+        # Cached items are aligned with the old choices
+        self._cached_cols = None
+        self._cached_utils = None
+
         expected_namespace = name
         if parent is None and name in self._all_nodes:
             old_node = self._all_nodes.pop(name)  # Remove from model dictionary
@@ -91,8 +98,6 @@ class ChoiceModel(object):
         for full_name in [n for n in self._all_nodes if n.startswith(nested_prefix)]:
             del self._all_nodes[full_name]
 
-        level = 1 if parent is None else (parent.level + 1)
-        node = ChoiceNode(self, name, parent=parent, logsum_scale=logsum_scale, level=level)
         self._all_nodes[expected_namespace] = node
 
         return node
@@ -113,11 +118,6 @@ class ChoiceModel(object):
         Returns:
             ChoiceNode: The added choice node, which also has an "add_choice" method for constructing nested models.
         """
-        if self._cached_cols is not None:
-            self._cached_cols = None
-        if self._cached_utils is not None:
-            self._cached_utils = None
-
         node = self._create_node(name, logsum_scale)
         self._top_nodes.add(node)
         return node
@@ -136,11 +136,6 @@ class ChoiceModel(object):
         Returns:
             dict: Mapping of name: ChoiceNode for the added nodes
         """
-        if self._cached_cols is not None:
-            self._cached_cols = None
-        if self._cached_utils is not None:
-            self._cached_utils = None
-
         names = list(names)  # Could be an iterator
         if logsum_scales is None:
             logsum_scales = [1.0 for _ in names]
-- 
2.43.0


From cf517670387f6c67943074038bc1da438f596ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:02 +0000
Subject: [PATCH 35/41] fix: keys which are absent from a multi-level target
 match no row with null keys

---
 cheval/ldf/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index f820fb2..55b1f08 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -180,6 +180,9 @@ class _LinkMeta:
                 # (the other was missing values, or the self had NaNs).
                 # Those were combined into a single case for performance purposes
                 self.flat_indexer = other_indexer.get_indexer(self_indexer)
+                # MultiIndex finds null keys for keys which are not in the index at all
+                null_rows = np.nonzero(self._find_null_keys(other_indexer))[0]
+                self.flat_indexer[np.isin(self.flat_indexer, null_rows)] = -1
         self.flat_indexer[self._find_null_keys(self_indexer)] = -1  # Null keys never match
 
     def _compute_missing_indices(self):
-- 
2.43.0


From 5981acdc882fe404575ad0ba4260b1b50729fe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 36/41] fix: links by row labels don't match the labels which
 replace them

---
 cheval/ldf/api.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 55b1f08..41bdc00 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -136,6 +136,7 @@ class _LinkMeta:
         self.flat_indexer = None
         self.other_grouper = None
         self._missing_indices = None
+        self.labels_replaced = False  # True if the row labels of the frame are not those the link was made with
 
     def _determine_aggregation(self, precompute):
         self_indexer = self.self_meta.get_indexer(self.owner)
@@ -211,6 +212,7 @@ class _LinkMeta:
             owner = self.owner
         copied = _LinkMeta(owner, self.other, self.self_meta, self.other_meta, self._other_has_links)
         copied.aggregation_required = self.aggregation_required
+        copied.labels_replaced = self.labels_replaced
         return copied
 
     def copy(self, indices=None, owner: LinkedDataFrame = None, allow_missing: bool = False) -> _LinkMeta:
@@ -693,7 +695,8 @@ class LinkedDataFrame(DataFrame):
         Links which need columns or row labels that this frame doesn't have are discarded."""
         for link_name, link in links.items():
             meta = link.self_meta
-            lost = not meta.is_available(self) or (relabelled and (meta.labels is None or meta.from_row_labels))
+            lost = not meta.is_available(self) or link.labels_replaced
+            lost = lost or (relabelled and (meta.labels is None or meta.from_row_labels))
             if lost:
                 self._links.pop(link_name, None)
             else:
@@ -704,7 +707,28 @@ class LinkedDataFrame(DataFrame):
         old_index = self.index
         super()._update_inplace(result, *args, **kwargs)
         if self.index is not old_index:  # The rows could have changed
-            self._reestablish_links(self._links.copy(), relabelled=isinstance(self.index, RangeIndex))
+            relabelled = isinstance(self.index, RangeIndex) or self.index.names != old_index.names
+            self._reestablish_links(self._links.copy(), relabelled=relabelled)
+
+    def reset_index(self, *args, **kwargs):
+        result = super().reset_index(*args, **kwargs)
+        if result is not None:
+            result._mark_labels_replaced()
+        return result
+
+    def set_index(self, *args, **kwargs):
+        result = super().set_index(*args, **kwargs)
+        (self if result is None else result)._mark_labels_replaced()
+        return result
+
+    def _mark_labels_replaced(self):
+        # The links still match the rows, but can't be computed again for a selection of the rows
+        for link_name, link in list(self._links.items()):
+            if link.self_meta.labels is None or link.self_meta.from_row_labels:
+                link.labels_replaced = True
+                if link.flat_indexer is None and link.owner is self:
+                    del self._links[link_name]  # Never computed, and the labels it needs are gone
+        self._identified_links = {link_name for link_name in self._links if link_name.isidentifier()}
 
     def __subset_links(self, target: LinkedDataFrame, indexer: np.ndarray, allow_missing: bool = False):
         for link_name, link_entry in self._links.items():
@@ -857,7 +881,7 @@ class LinkedDataFrame(DataFrame):
                 to be re-computed.
         """
         for entry in self._links.values():
-            if refresh or entry.flat_indexer is None:
+            if entry.flat_indexer is None or (refresh and not entry.labels_replaced):
                 entry.precompute()
 
     def pivot_table(self, values=None, index=None, columns=None, **kwargs):
-- 
2.43.0


From 87fbfc4ecf040eeb8d7db8c1c975c2b6c4612354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:11 +0000
Subject: [PATCH 37/41] fix: Adding two expression containers shared their
 groups with the sum

---
 cheval/api.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cheval/api.py b/cheval/api.py
index b0665ae..a54f986 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -133,6 +133,9 @@ class ExpressionSubGroup:
             new.append(e)
         return new
 
+    def copy(self) -> 'ExpressionSubGroup':
+        return self + ExpressionSubGroup(self.name)
+
     def itersimple(self):
         yield from self.simple_symbols
 
@@ -210,9 +213,9 @@ class ExpressionGroup(object):
             if key_in_self and key_in_other:
                 new._subgroups[key] = self._subgroups[key] + other._subgroups[key]
             elif key_in_self:
-                new._subgroups[key] = self._subgroups[key]
+                new._subgroups[key] = self._subgroups[key].copy()
             elif key_in_other:
-                new._subgroups[key] = other._subgroups[key]
+                new._subgroups[key] = other._subgroups[key].copy()
 
         return new
 
-- 
2.43.0


From 9c810a22cea2b18e6e2516251c2303c9e7004348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:50 +0000
Subject: [PATCH 38/41] fix: debugging a decision unit whose label is 0 or
 empty

---
 cheval/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index d086bf0..ca03bb8 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -462,7 +462,7 @@ class ChoiceModel(object):
         debug_label = None
         debug_expr = []
         debug_results = []
-        if self.debug_id:
+        if self.debug_id is not None:
             debug_label = row_index.get_loc(self.debug_id)
 
         # Expressions are accumulated in-place, so work on a copy to leave the partial utilities as they are
@@ -502,11 +502,11 @@ class ChoiceModel(object):
             self._kernel_eval(expr.transformed, local_dict, utilities, choice_mask, casting_rule=casting_rule)
 
             # save each expression and values for a specific od pair
-            if self.debug_id:
+            if self.debug_id is not None:
                 debug_expr.append(expr.raw)
                 debug_results.append(utilities[debug_label].copy())
 
-        if self.debug_id:  # expressions.tolist() doesn't work...
+        if self.debug_id is not None:  # expressions.tolist() doesn't work...
             self.debug_results = pd.DataFrame(debug_results, index=debug_expr, columns=col_index)
 
         nans = np.isnan(utilities)
-- 
2.43.0


From 9f5f94ea75050543abccaa253406c5425c091da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:50 +0000
Subject: [PATCH 39/41] fix: the largest or smallest rows of a frame lose links
 by row labels when they are sorted again

---
 cheval/ldf/api.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 41bdc00..74a4ee9 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -721,6 +721,17 @@ class LinkedDataFrame(DataFrame):
         (self if result is None else result)._mark_labels_replaced()
         return result
 
+    def nlargest(self, *args, **kwargs):
+        return self._restore_links(super().nlargest(*args, **kwargs))
+
+    def nsmallest(self, *args, **kwargs):
+        return self._restore_links(super().nsmallest(*args, **kwargs))
+
+    def _restore_links(self, result):
+        # Pandas has replaced the row labels of the result temporarily, which are needed to compute the links again
+        result._reestablish_links({name: link for name, link in self._links.items() if not link.labels_replaced})
+        return result
+
     def _mark_labels_replaced(self):
         # The links still match the rows, but can't be computed again for a selection of the rows
         for link_name, link in list(self._links.items()):
-- 
2.43.0


From 11a3f5284632f1e26404e00b9513de66e75abbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:01 +0000
Subject: [PATCH 40/41] fix: rows that lose their match when indexers are
 refreshed show another row

---
 cheval/ldf/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 74a4ee9..cbe6879 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -185,6 +185,7 @@ class _LinkMeta:
                 null_rows = np.nonzero(self._find_null_keys(other_indexer))[0]
                 self.flat_indexer[np.isin(self.flat_indexer, null_rows)] = -1
         self.flat_indexer[self._find_null_keys(self_indexer)] = -1  # Null keys never match
+        self._missing_indices = None  # Those of an indexer computed before
 
     def _compute_missing_indices(self):
         """Initializes `missing_indices` by finding the rows which do not have any linkages
-- 
2.43.0


From 3e9fa76ed0bd1c106a8810d87e5698155b9ba2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:01 +0000
Subject: [PATCH 41/41] fix: links of a copied frame are computed from the keys
 of the first frame

---
 cheval/ldf/api.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index cbe6879..fa4366e 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -790,7 +790,10 @@ class LinkedDataFrame(DataFrame):
 
         # Copy the link data
         for link_name, link_entry in self._links.items():
-            copied._links[link_name] = link_entry.copy()
+            copied_link = link_entry.copy()
+            if copied_link.flat_indexer is None and copied_link.self_meta.is_available(copied_link.owner):
+                copied_link.precompute()  # The rows of the owner could change before the first use
+            copied._links[link_name] = copied_link
 
         return copied
 
@@ -894,6 +897,8 @@ class LinkedDataFrame(DataFrame):
         """
         for entry in self._links.values():
             if entry.flat_indexer is None or (refresh and not entry.labels_replaced):
+                if entry.self_meta.is_available(self):
+                    entry.owner = self  # A copy has keys of its own
                 entry.precompute()
 
     def pivot_table(self, values=None, index=None, columns=None, **kwargs):
-- 
2.43.0


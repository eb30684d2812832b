From 4ca1f7379b946f429343d0505156d00c1c781b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 01/45] fix: sampling search returned a zero-probability cell
 when rounding left draws above the total

---
 cheval/core.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cheval/core.py b/cheval/core.py
index 7a1a4fc..83d706d 100644
--- a/cheval/core.py
+++ b/cheval/core.py
@@ -31,12 +31,17 @@ def sample_once(p_array: NDArray, r: float) -> int:
     r = max(r, MIN_RANDOM_VALUE)
     cumsum = 0.0
     index = 0
+    last_index = len(p_array) - 1
     for p in p_array:
         cumsum += p
         if r <= cumsum:
             return index
+        if p > 0:
+            last_index = index
         index += 1
-    return len(p_array) - 1
+    # The accumulated probability can fall just short of 1.0 due to rounding; use the last cell with a chance of being
+    # chosen, which is not necessarily the last cell in the array
+    return last_index
 
 
 @njit(nlong(ndouble, ndouble[:]), nogil=True, cache=True)
@@ -62,6 +67,10 @@ def logarithmic_search(r: float, cps: NDArray) -> int:
 
     ncols = len(cps)
 
+    # The total cumulative probability can fall just short of 1.0 due to rounding. Draws above it belong to the last cell
+    # which has non-0 probability, which is not necessarily the last cell in the array
+    r = min(r, cps[ncols - 1])
+
     lower_bound, upper_bound = 0, ncols - 1
     while (upper_bound - lower_bound) > 1:
         mid_index = np.uint32((upper_bound + lower_bound) // 2)
-- 
2.43.0


From 8870e6b091156dade0dae3c9357d34a06ed65808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 02/45] fix: infeasible rows raised SystemError or were ignored
 by the parallel workers

---
 cheval/core.py | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/cheval/core.py b/cheval/core.py
index 83d706d..a5b1370 100644
--- a/cheval/core.py
+++ b/cheval/core.py
@@ -312,6 +312,17 @@ def nested_multisample(utilities: NDArray, parents, levels, ls_scales, bottom_fl
 
 # region High level functions
 
+@njit(void(ndouble[:], nbool), nogil=True, cache=True)
+def check_logsums(top_logsums: NDArray, check_infeasible: bool):
+    """Checks the top-level logsums of all rows, once they have all been computed. Exceptions cannot be reliably raised
+    from inside a parallel (`prange`) loop, so the parallel workers need to check for infeasible rows afterwards."""
+    if not check_infeasible:
+        return
+    for ls in top_logsums:
+        if ls <= 0:
+            raise UtilityBoundsError("Utilities all exceeded minimum value (Logsum == 0.0)")
+
+
 @njit(nlong[:, :](ndouble[:, :], nlong, nlong), parallel=True, nogil=True, cache=True)
 def worker_weighted_sample(weights: NDArray, n: int, seed: int) -> NDArray:
     n_rows = weights.shape[0]
@@ -348,15 +359,18 @@ def worker_multinomial_sample(utilities: NDArray, n: int, seed: int) -> Tuple[ND
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             r = r_array[i]
-            result[i, 0], ls = multinomial_sample(utility_row, r)
+            p_array, ls, _ = multinomial_probabilities(utility_row, False)
+            result[i, 0] = sample_once(p_array, r)
             ls_array[i] = ls
     else:
         seed_array = generate_rand_ints_for_parallel(seed, n_rows)
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             seed_i = seed_array[i]
-            _, ls = multinomial_multisample(utility_row, n, seed_i, result[i, :])
+            p_array, ls, _ = multinomial_probabilities(utility_row, False)
+            sample_multi(p_array, n, seed_i, result[i, :])
             ls_array[i] = ls
+    check_logsums(ls_array, True)  # Check infeasible req'd (for sampling)
     return result, ls_array
 
 
@@ -373,11 +387,12 @@ def worker_multinomial_probabilities(utilities: NDArray, check_infeasible: bool)
 
     for i in prange(n_rows):
         utility_row = utilities[i, :]
-        p_array, top_ls, nested_ls = multinomial_probabilities(utility_row, check_infeasible)
+        p_array, top_ls, nested_ls = multinomial_probabilities(utility_row, False)
         result[i, :] = p_array
         top_ls_array[i] = top_ls
         nested_ls_terms[i, :] = nested_ls
 
+    check_logsums(top_ls_array, check_infeasible)
     return result, top_ls_array, nested_ls_terms
 
 
@@ -397,20 +412,22 @@ def worker_nested_sample(utilities: NDArray, parents, levels, ls_scales, bottom_
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             r = r_array[i]
-            this_result, ls = nested_sample(
-                utility_row, r, parents, levels, ls_scales, bottom_flags, scale_utilities
+            p_array, ls, _ = nested_probabilities(
+                utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, False
             )
-            result[i, 0] = this_result
+            result[i, 0] = sample_once(p_array, r)
             ls_array[i] = ls
     else:
         seed_array = generate_rand_ints_for_parallel(seed, n_rows)
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             seed_i = seed_array[i]
-            _, ls = nested_multisample(
-                utility_row, parents, levels, ls_scales, bottom_flags, n, seed_i, scale_utilities, out=result[i, :]
+            p_array, ls, _ = nested_probabilities(
+                utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, False
             )
+            sample_multi(p_array, n, seed_i, result[i, :])
             ls_array[i] = ls
+    check_logsums(ls_array, True)  # Check infeasible req'd (for sampling)
     return result, ls_array
 
 
@@ -429,12 +446,13 @@ def worker_nested_probabilities(utilities: NDArray, parents, levels, ls_scales,
     for i in prange(n_rows):
         utility_row = utilities[i, :]
         p_array, top_ls, nested_ls = nested_probabilities(
-            utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, check_infeasible
+            utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, False
         )
         result[i, :] = p_array
         top_ls_array[i] = top_ls
         nested_ls_terms[i, :] = nested_ls
 
+    check_logsums(top_ls_array, check_infeasible)
     return result, top_ls_array, nested_ls_terms
 
 # endregion
-- 
2.43.0


From 24daabb6fb4035a03faacbaa8d666b43aaea62fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 03/45] fix: overflowing utilities returned NaN probabilities
 instead of raising UtilityBoundsError

---
 cheval/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cheval/core.py b/cheval/core.py
index a5b1370..977818a 100644
--- a/cheval/core.py
+++ b/cheval/core.py
@@ -315,11 +315,11 @@ def nested_multisample(utilities: NDArray, parents, levels, ls_scales, bottom_fl
 @njit(void(ndouble[:], nbool), nogil=True, cache=True)
 def check_logsums(top_logsums: NDArray, check_infeasible: bool):
     """Checks the top-level logsums of all rows, once they have all been computed. Exceptions cannot be reliably raised
-    from inside a parallel (`prange`) loop, so the parallel workers need to check for infeasible rows afterwards."""
-    if not check_infeasible:
-        return
+    from inside a parallel (`prange`) loop, so the parallel workers need to check all rows afterwards."""
     for ls in top_logsums:
-        if ls <= 0:
+        if not np.isfinite(ls):
+            raise UtilityBoundsError("Utilities exceeded maximum value (Logsum overflowed)")
+        if check_infeasible and ls <= 0:
             raise UtilityBoundsError("Utilities all exceeded minimum value (Logsum == 0.0)")
 
 
-- 
2.43.0


From ce314f40913478d989ce167c42a8f3552e30aa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 04/45] fix: repeated runs accumulated utilities in the cached
 partial utilities

---
 cheval/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/model.py b/cheval/model.py
index a5b50ba..0e61df0 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -463,7 +463,8 @@ class ChoiceModel(object):
         if self.debug_id:
             debug_label = row_index.get_loc(self.debug_id)
 
-        utilities = to_numpy(self._partial_utilities)
+        # Evaluate into a copy, so that the cached partial utilities don't accumulate the results of every run
+        utilities = to_numpy(self._partial_utilities).copy()
 
         # Prepare locals, including scalar, vector, and matrix variables that don't need any further processing.
         shared_locals = {NAN_STR: np.nan, OUT_STR: utilities, NEG_INF_STR: NEG_INF_VAL}
-- 
2.43.0


From e321a758c76570aae4239643d04d09b9c0cb683e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 05/45] fix: changing decision units kept stale partial
 utilities

---
 cheval/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cheval/model.py b/cheval/model.py
index 0e61df0..0feec94 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -236,6 +236,9 @@ class ChoiceModel(object):
                 continue  # Don't empty symbols that don't depend on the DU.
             symbol.empty()
 
+        # Likewise, any cached partial utilities belong to the old decision units
+        self._cached_utils = None
+
         if isinstance(item, pd.Index):
             self._decision_units = item
         else:
-- 
2.43.0


From 971d9881bc9db46b6b1c7b53190f82832989ca46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 06/45] fix: symbols under a unary minus were not recognised

---
 cheval/parsing/ast_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index e4eaab4..b0568fd 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -58,7 +58,7 @@ class ExpressionParser(ast.NodeTransformer):
         if isinstance(node.op, ast.Not):
             return ast.UnaryOp(op=ast.Invert(), operand=self.visit(node.operand))
         elif isinstance(node.op, ast.USub):
-            return node
+            return ast.UnaryOp(op=node.op, operand=self.visit(node.operand))
         raise NotImplementedError(type(node.op))
 
     def visit_boolop(self, node):
-- 
2.43.0


From 9b0e869a6681d6713519e4233e373f1b38adcae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 07/45] fix: None was not recognised as missing in expressions

---
 cheval/parsing/ast_transformer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index b0568fd..46b67c7 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -53,6 +53,13 @@ class ExpressionParser(ast.NodeTransformer):
         # Converts text-strings to NumExpr-supported byte-strings
         return ast.Bytes(node.s.encode())
 
+    @staticmethod
+    def visit_constant(node):
+        # Allow None to mean 'null', which is a constant instead of a name since Python 3.4
+        if node.value is None:
+            return ast.Name(NAN_STR, ast.Load())
+        return node
+
     def visit_unaryop(self, node):
         # Converts 'not' into '~' which NumExpr supports
         if isinstance(node.op, ast.Not):
-- 
2.43.0


From 6f15e78564066276ee8bad8bf39fcbfd71fdb3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 08/45] fix: aggregations without an argument failed, extra
 arguments were ignored and text columns were not recognised

---
 cheval/parsing/ast_transformer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index 46b67c7..bb351d0 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -275,7 +275,11 @@ class ExpressionParser(ast.NodeTransformer):
             raise UnsupportedSyntaxError("Keyword args are not supported inside aggregations")
         if call_node.starargs is not None or call_node.kwargs is not None:
             raise UnsupportedSyntaxError("Star-args or star-kwargs are not supported inside aggregations")
-        arg_expression = astor.to_source(call_node.args[0])
+        if len(call_node.args) > 1:
+            raise UnsupportedSyntaxError("Only one expression is allowed inside aggregations")
+        # Without any args, aggregate over a constant (same as calling the aggregation on a LinkedDataFrame directly). The
+        # trailing newline must be removed, otherwise column names won't be recognized.
+        arg_expression = astor.to_source(call_node.args[0]).strip() if call_node.args else '1'
 
         if name in self.simple_symbols:
             raise UnsupportedSyntaxError("Inconsistent usage of symbol '%s'" % name)
-- 
2.43.0


From 91313d94b760a77f12104a4f76fd73b07c5fcf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 09/45] fix: text columns with missing values produced an
 invalid dtype in expressions

---
 cheval/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cheval/utils.py b/cheval/utils.py
index a32c411..8e7f67b 100644
--- a/cheval/utils.py
+++ b/cheval/utils.py
@@ -52,6 +52,8 @@ def convert_series(s: pd.Series, allow_raw: bool = False) -> NDArray:
         if np.isnan(max_length):
             raise TypeError('Could not get max string length')
 
+        max_length = int(max_length)  # This is a float if there are any missing values
+        s = s.fillna('')
         return s.to_numpy(dtype=f'S{max_length}') if _USE_TO_NUMPY else s.values.astype(f'S{max_length}')
     elif np.issubdtype(dtype, np.datetime64):
         raise TypeError('Datetime columns are not supported')
-- 
2.43.0


From 331600b310e74aa2e162191113ce8937e5e70dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 10/45] fix: substitutions of symbols named alike except for a
 trailing number collided

---
 cheval/parsing/expr_items.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/parsing/expr_items.py b/cheval/parsing/expr_items.py
index f94b627..2fe0383 100644
--- a/cheval/parsing/expr_items.py
+++ b/cheval/parsing/expr_items.py
@@ -24,7 +24,8 @@ class ChainedSymbol(object):
         return ChainTuple(chain, func, args, True)
 
     def _make_sub(self, *, prepend_at=False) -> str:
-        s1 = "__sub_%s%s" % (self._name, len(self._lookups))
+        # The separator is needed to tell apart symbols whose names end in a number (e.g. "a1" & "0" from "a" & "10")
+        s1 = "__sub_%s_%s" % (self._name, len(self._lookups))
         if prepend_at:
             return '@' + s1
         return s1
-- 
2.43.0


From 1c361d854b14088673348350ba1c1889a7324ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 11/45] fix: symbols of dropped groups and of refused
 expressions stayed required, and preval discarded data used by other groups

---
 cheval/api.py   | 10 +++++++---
 cheval/model.py | 19 +++++++++----------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/cheval/api.py b/cheval/api.py
index 2d5a086..ea6e4fe 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -152,9 +152,10 @@ class ExpressionGroup(object):
         self._subgroups: Dict[Hashable, ExpressionSubGroup] = {}
 
     def append(self, e: str, group: Hashable = None):
-        # Parse the expression and look for invalid syntax and inconsistent usage. self._simple_symbols and
-        # self._chained_symbols are modified in-place during parsing.
-        expr = Expression.parse(e, self._simple_symbols, self._chained_symbols)
+        # Parse the expression and look for invalid syntax and inconsistent usage. The sets of prior symbols are modified
+        # in-place during parsing, so these must be new sets in order to not be affected by expressions which cannot be
+        # parsed, nor to count symbols which only get used inside a group as ungrouped.
+        expr = Expression.parse(e, set(self.itersimple()), set(self.iterchained()))
         if group is not None:
             if group not in self._subgroups:
                 subgroup = ExpressionSubGroup(group)
@@ -219,6 +220,9 @@ class ExpressionGroup(object):
     def tolist(self, raw=True):
         return [e.raw for e in self._ungrouped_expressions] if raw else [e for e in self._ungrouped_expressions]
 
+    def itergroups(self) -> Generator[ExpressionSubGroup, None, None]:
+        yield from self._subgroups.values()
+
     def get_group(self, name: Hashable) -> ExpressionSubGroup:
         return self._subgroups[name]
 
diff --git a/cheval/model.py b/cheval/model.py
index 0feec94..01f556e 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -654,16 +654,15 @@ class ChoiceModel(object):
 
         if cleanup_scope:
             # Need to get a set of only those symbols unique to this group, using set math
-            all_symbols = set(iter_chain(self.expressions.itersimple(), self.expressions.itersimple()))
-            ungrouped_symbols = set(
-                iter_chain(self._expressions.iterchained(groups=False), self._expressions.itersimple(groups=False)))
-            group_symbols = set(iter_chain(subgroup.iterchained(), subgroup.itersimple()))
-            other_symbols = all_symbols - ungrouped_symbols - group_symbols
-
-            symbols_to_clear = group_symbols - ungrouped_symbols - other_symbols
-
-            for name in symbols_to_clear:
-                del self._scope[name]
+            group_symbols = set(iter_chain(subgroup.itersimple(), subgroup.iterchained()))
+            other_symbols = set(
+                iter_chain(self._expressions.itersimple(groups=False), self._expressions.iterchained(groups=False)))
+            for other_subgroup in self._expressions.itergroups():
+                if other_subgroup is not subgroup:
+                    other_symbols.update(other_subgroup.itersimple(), other_subgroup.iterchained())
+
+            for name in group_symbols - other_symbols:
+                self._scope.pop(name, None)  # Reserved words are never in the scope
 
         if drop_group:
             self._expressions.drop_group(group)
-- 
2.43.0


From 2c522d913adb52db69c1b9252d5e249ae573a175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 12/45] fix: evaluating an expression on a frame silently
 ignored an '@' choice filter

---
 cheval/ldf/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 93f39b4..457c54a 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -13,6 +13,7 @@ import pandas as pd
 from pandas import DataFrame, Index, MultiIndex, Series
 
 from ..parsing.constants import NAN_STR, NAN_VAL, NEG_INF_STR, NEG_INF_VAL
+from ..parsing.exceptions import UnsupportedSyntaxError
 from ..parsing.expr_items import EvaluationMode
 from ..parsing.expressions import Expression
 from ..utils import convert_series, to_numpy
@@ -711,6 +712,8 @@ class LinkedDataFrame(DataFrame):
 
         """
         new_expr = Expression.parse(expr, mode=EvaluationMode.DATAFRAME)
+        if new_expr.filter_ is not None:
+            raise UnsupportedSyntaxError("'@' referencing of choices is not allowed in this context")
 
         ld = {} if local_dict is None else local_dict.copy()
         ld[NEG_INF_STR] = NEG_INF_VAL
-- 
2.43.0


From 8ed0dec2a7f614f559b56e56dcf5fbe3bf47b6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 13/45] fix: unsupported syntax raised another exception class
 than the public UnsupportedSyntaxError

---
 cheval/exceptions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cheval/exceptions.py b/cheval/exceptions.py
index dc94bd6..fc74841 100644
--- a/cheval/exceptions.py
+++ b/cheval/exceptions.py
@@ -1,5 +1,4 @@
-class UnsupportedSyntaxError(SyntaxError):
-    pass
+from .parsing.exceptions import UnsupportedSyntaxError
 
 
 class ModelNotReadyError(RuntimeError):
-- 
2.43.0


From 2d2a69eaf6ba924342b05f61bd0da576be92b411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 14/45] fix: allow_links=False refused plain tables and
 accepted linked ones

---
 cheval/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/api.py b/cheval/api.py
index ea6e4fe..276792a 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -371,7 +371,7 @@ class TableSymbol(AbstractSymbol):
         for column in self._mandatory_attributes:
             assert column in data, f"Mandatory attribute {column} not found in DataFrame"
 
-        if not self._allow_links and not isinstance(data, LinkedDataFrame):
+        if not self._allow_links and isinstance(data, LinkedDataFrame):
             raise TypeError(f"LinkedDataFrames not allowed for symbol {self._name}")
 
         self._table = data
-- 
2.43.0


From 9987829f0f42a02eccae5682df93bd862820543f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 15/45] fix: aggregations over a direct link of a table failed
 in utility expressions

---
 cheval/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/api.py b/cheval/api.py
index 276792a..ea46e6d 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -379,7 +379,7 @@ class TableSymbol(AbstractSymbol):
     def _get(self, chain_info: ChainTuple = None):
         assert chain_info is not None
 
-        chained = len(chain_info.chain) > 1
+        chained = len(chain_info.chain) > 1 or chain_info.withfunc
 
         if chained:
             assert isinstance(self._table, LinkedDataFrame)
-- 
2.43.0


From 2290fb694f396daed54fb25aac098503ba94c849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 16/45] fix: matrices which needed reindexing over both rows
 and columns could not be assigned

---
 cheval/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cheval/api.py b/cheval/api.py
index ea46e6d..b7322cf 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -467,6 +467,9 @@ class MatrixSymbol(AbstractSymbol):
                 else:
                     row_indexer = slice(None)
 
+                if not (rows_match or cols_match):
+                    row_indexer, col_indexer = np.ix_(row_indexer, col_indexer)
+
                 matrix[row_indexer, col_indexer] = data
                 self._matrix = matrix
 
-- 
2.43.0


From 6ee0ffb09b4ce97d5377b5d86d8be18c80377d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 17/45] fix: discrete runs of nested models could only return
 positions

---
 cheval/model.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index 01f556e..d1e37f9 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -542,10 +542,15 @@ class ChoiceModel(object):
             if squeeze and n_draws == 1:
                 return pd.Series(raw_result[:, 0], index=record_index, name=result_name)
             return pd.DataFrame(raw_result, index=record_index, columns=column_index)
-        elif astype == 'category':
-            lookup_table = pd.Categorical(self.choices)
+
+        labels = self.choices
+        if labels.nlevels > 1:
+            labels = labels.to_flat_index()  # A MultiIndex can't be used as the values of a Series
+
+        if astype == 'category':
+            lookup_table = pd.Categorical(labels)
         else:
-            lookup_table = self.choices.astype(astype)
+            lookup_table = pd.Series(labels).astype(astype).array
 
         retval = []
         for col in range(n_draws):
-- 
2.43.0


From 21a527c93e669b405b342dd10ef2448abfcd0cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 18/45] fix: replacing a choice left the choices nested under
 the old one in the model

---
 cheval/model.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index d1e37f9..5f0b28b 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -77,14 +77,14 @@ class ChoiceModel(object):
     # region Tree operations
 
     def _create_node(self, name: str, logsum_scale: float, parent: ChoiceNode = None) -> ChoiceNode:
-        expected_namespace = name
-        if parent is None and name in self._all_nodes:
-            old_node = self._all_nodes.pop(name)  # Remove from model dictionary
-            self._top_nodes.remove(old_node)  # Remove from top-level choices
-        elif parent is not None:
-            expected_namespace = parent.full_name + '.' + name
-            if expected_namespace in self._all_nodes:
-                del self._all_nodes[expected_namespace]  # Remove from model dictionary
+        expected_namespace = name if parent is None else (parent.full_name + '.' + name)
+        old_node = self._all_nodes.pop(expected_namespace, None)  # Remove from model dictionary
+        if old_node is not None:
+            self._top_nodes.discard(old_node)  # Remove from top-level choices
+            # Everything nested under the old node must be removed as well
+            for namespace in list(self._all_nodes.keys()):
+                if namespace.startswith(expected_namespace + '.'):
+                    del self._all_nodes[namespace]
 
         level = 1 if parent is None else (parent.level + 1)
         node = ChoiceNode(self, name, parent=parent, logsum_scale=logsum_scale, level=level)
-- 
2.43.0


From c00496c596764377a79284a9b482dfad36ede48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 19/45] fix: partial utilities and data aligned with the
 choices were kept when nested choices were added or replaced

---
 cheval/api.py   | 14 ++++++++++++++
 cheval/model.py | 17 +++++++----------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/cheval/api.py b/cheval/api.py
index b7322cf..8d8744d 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -268,6 +268,11 @@ class AbstractSymbol(object, metaclass=abc.ABCMeta):
     @abc.abstractmethod
     def filled(self) -> bool: pass
 
+    @property
+    def depends_on_choices(self) -> bool:
+        """True if the assigned data is aligned with the choices of the model"""
+        return False
+
 
 class NumberSymbol(AbstractSymbol):
     def __init__(self, parent: 'ChoiceModel', name: str):
@@ -348,6 +353,9 @@ class VectorSymbol(AbstractSymbol):
     @property
     def filled(self): return self._raw_array is not None
 
+    @property
+    def depends_on_choices(self): return self._orientation == 1
+
 
 class TableSymbol(AbstractSymbol):
 
@@ -417,6 +425,9 @@ class TableSymbol(AbstractSymbol):
     @property
     def filled(self): return self._table is not None
 
+    @property
+    def depends_on_choices(self): return self._orientation == 1
+
 
 class MatrixSymbol(AbstractSymbol):
 
@@ -493,4 +504,7 @@ class MatrixSymbol(AbstractSymbol):
     @property
     def filled(self): return self._matrix is not None
 
+    @property
+    def depends_on_choices(self): return True
+
 # endregion
diff --git a/cheval/model.py b/cheval/model.py
index 5f0b28b..de05e21 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -77,6 +77,13 @@ class ChoiceModel(object):
     # region Tree operations
 
     def _create_node(self, name: str, logsum_scale: float, parent: ChoiceNode = None) -> ChoiceNode:
+        # Anything which depends on the old choices must be cleared, no matter at which level the node gets created
+        self._cached_cols = None
+        self._cached_utils = None
+        for symbol in self._scope.values():
+            if symbol.depends_on_choices:
+                symbol.empty()
+
         expected_namespace = name if parent is None else (parent.full_name + '.' + name)
         old_node = self._all_nodes.pop(expected_namespace, None)  # Remove from model dictionary
         if old_node is not None:
@@ -108,11 +115,6 @@ class ChoiceModel(object):
         Returns:
             ChoiceNode: The added choice node, which also has an "add_choice" method for constructing nested models.
         """
-        if self._cached_cols is not None:
-            self._cached_cols = None
-        if self._cached_utils is not None:
-            self._cached_utils = None
-
         node = self._create_node(name, logsum_scale)
         self._top_nodes.add(node)
         return node
@@ -131,11 +133,6 @@ class ChoiceModel(object):
         Returns:
             dict: Mapping of name: ChoiceNode for the added nodes
         """
-        if self._cached_cols is not None:
-            self._cached_cols = None
-        if self._cached_utils is not None:
-            self._cached_utils = None
-
         if logsum_scales is None:
             logsum_scales = [1.0 for _ in names]
         retval = {}
-- 
2.43.0


From 37037efd8e85b093714484efe3e8036fd8acd823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 20/45] fix: debug_id=0 was ignored

---
 cheval/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index de05e21..a2d4634 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -460,7 +460,7 @@ class ChoiceModel(object):
         debug_label = None
         debug_expr = []
         debug_results = []
-        if self.debug_id:
+        if self.debug_id is not None:
             debug_label = row_index.get_loc(self.debug_id)
 
         # Evaluate into a copy, so that the cached partial utilities don't accumulate the results of every run
@@ -500,11 +500,11 @@ class ChoiceModel(object):
             self._kernel_eval(expr.transformed, local_dict, utilities, choice_mask, casting_rule=casting_rule)
 
             # save each expression and values for a specific od pair
-            if self.debug_id:
+            if self.debug_id is not None:
                 debug_expr.append(expr.raw)
                 debug_results.append(utilities[debug_label].copy())
 
-        if self.debug_id:  # expressions.tolist() doesn't work...
+        if self.debug_id is not None:  # expressions.tolist() doesn't work...
             self.debug_results = pd.DataFrame(debug_results, index=debug_expr, columns=col_index)
 
         nans = np.isnan(utilities)
-- 
2.43.0


From 1366faa104ff005f832e5f8e0dd610d38cc45c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 21/45] fix: a refused choice removed the existing choice of
 the same name

---
 cheval/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index a2d4634..059ef6d 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -77,6 +77,10 @@ class ChoiceModel(object):
     # region Tree operations
 
     def _create_node(self, name: str, logsum_scale: float, parent: ChoiceNode = None) -> ChoiceNode:
+        # Create the node first, so that nothing changes if it is refused
+        level = 1 if parent is None else (parent.level + 1)
+        node = ChoiceNode(self, name, parent=parent, logsum_scale=logsum_scale, level=level)
+
         # Anything which depends on the old choices must be cleared, no matter at which level the node gets created
         self._cached_cols = None
         self._cached_utils = None
@@ -93,8 +97,6 @@ class ChoiceModel(object):
                 if namespace.startswith(expected_namespace + '.'):
                     del self._all_nodes[namespace]
 
-        level = 1 if parent is None else (parent.level + 1)
-        node = ChoiceNode(self, name, parent=parent, logsum_scale=logsum_scale, level=level)
         self._all_nodes[expected_namespace] = node
 
         return node
-- 
2.43.0


From d08039ded0438a74eebef38a5426ff744319e3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 22/45] fix: lookups and aggregations through a link to an
 empty table raised IndexError

---
 cheval/ldf/api.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 457c54a..ad013a9 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -464,7 +464,12 @@ class LinkedDataFrame(DataFrame):
                 # Get the indexing data
                 indexer, missing = meta.indexer_and_missing
 
-                series = series[indexer]  # Reorder/duplicate/drop the raw array
+                if len(series) > 0:
+                    series = series[indexer]  # Reorder/duplicate/drop the raw array
+                elif isinstance(series, np.ndarray):  # There are no values to look up, so everything is missing
+                    series = np.empty(len(indexer), dtype=series.dtype)
+                else:
+                    series = series.take(indexer, allow_fill=True)
                 series[missing] = fill_value  # Fill in missing values
             return Series(series, index=self._root_index)
 
-- 
2.43.0


From f1c64b8718f00d1f823b3886b568a8f661d6ccc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 23/45] fix: fill values of links were changed silently to fit
 into integer or boolean columns

---
 cheval/ldf/api.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index ad013a9..80d8a7f 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -459,6 +459,16 @@ class LinkedDataFrame(DataFrame):
         def _top(self) -> _LinkMeta:
             return self._history[0]
 
+        @staticmethod
+        def _promote(array: np.ndarray, fill_value) -> np.ndarray:
+            """Promotes an integer or boolean array if its dtype would change the (numeric) fill value"""
+            fill_array = np.asarray(fill_value)
+            if not isinstance(array, np.ndarray) or array.dtype.kind not in 'biu' or fill_array.dtype.kind not in 'biuf':
+                return array
+            with np.errstate(invalid='ignore'):
+                fits = np.array_equal(fill_array.astype(array.dtype), fill_array)
+            return array if fits else array.astype(np.result_type(array.dtype, fill_array.dtype))
+
         def _resolve_history(self, series: np.ndarray, fill_value):
             for meta in self._history:
                 # Get the indexing data
@@ -470,7 +480,9 @@ class LinkedDataFrame(DataFrame):
                     series = np.empty(len(indexer), dtype=series.dtype)
                 else:
                     series = series.take(indexer, allow_fill=True)
-                series[missing] = fill_value  # Fill in missing values
+                if len(missing) > 0:
+                    series = self._promote(series, fill_value)
+                    series[missing] = fill_value  # Fill in missing values
             return Series(series, index=self._root_index)
 
         def __getattr__(self, item):
-- 
2.43.0


From 8b294b8e13c3f6547b87f617126279ab9f7d687a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 24/45] fix: aggregations were attached to the wrong rows when
 the target has missing keys or a group has no nth row

---
 cheval/ldf/api.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 80d8a7f..5f13162 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -182,6 +182,13 @@ class _LinkMeta:
             self._compute_missing_indices()
         return self.flat_indexer, self._missing_indices
 
+    @property
+    def grouper(self) -> np.ndarray:
+        """Group numbers of the rows of the other frame, when aggregation is required. -1 for rows with missing keys"""
+        if self.other_grouper is None:
+            self.precompute()
+        return self.other_grouper
+
     def precompute(self):
         """Top-level method to precompute the indexer"""
         self._make_indexer(*self._get_indexers())
@@ -578,9 +585,15 @@ class LinkedDataFrame(DataFrame):
                 elif series_type == PandasDtype.TIME_NAME:
                     raise NotImplementedError("Haven't found a way to instantiate NaT filler")
 
-                # Aggregate and align the result
-                grouper = top.other_grouper
-                grouped_result = to_numpy(getattr(evaluation.groupby(grouper), self._func_name)(**kwargs))
+                if self._func_name == 'nth':
+                    kwargs.setdefault('n', 1)
+
+                # Aggregate and align the result. Rows with missing keys belong to no group (grouper == -1), and some
+                # reductions can drop entire groups (e.g. nth), so the result doesn't always line up with the groups
+                grouper = top.grouper
+                n_groups = grouper.max() + 1 if len(grouper) > 0 else 0
+                grouped_result = getattr(evaluation.groupby(grouper), self._func_name)(**kwargs)
+                grouped_result = to_numpy(grouped_result.reindex(np.arange(n_groups), fill_value=fill_value))
 
                 return self._owner._resolve_history(grouped_result, fill_value)
 
-- 
2.43.0


From 0a396f10d9f1164dcd50db59123dc5f8db6ba108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:53 +0000
Subject: [PATCH 25/45] fix: counts of non-integers failed, and reductions of
 booleans returned True, for rows without matches

---
 cheval/ldf/api.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 5f13162..8c72256 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -11,6 +11,7 @@ import numexpr as ne
 import numpy as np
 import pandas as pd
 from pandas import DataFrame, Index, MultiIndex, Series
+from pandas.api.types import is_integer_dtype
 
 from ..parsing.constants import NAN_STR, NAN_VAL, NEG_INF_STR, NEG_INF_VAL
 from ..parsing.exceptions import UnsupportedSyntaxError
@@ -593,6 +594,10 @@ class LinkedDataFrame(DataFrame):
                 grouper = top.grouper
                 n_groups = grouper.max() + 1 if len(grouper) > 0 else 0
                 grouped_result = getattr(evaluation.groupby(grouper), self._func_name)(**kwargs)
+                if grouped_result.dtype == np.bool_:
+                    fill_value = False
+                elif is_integer_dtype(grouped_result.dtype):  # Not only for integers, e.g. count of any type
+                    fill_value = int_fill
                 grouped_result = to_numpy(grouped_result.reindex(np.arange(n_groups), fill_value=fill_value))
 
                 return self._owner._resolve_history(grouped_result, fill_value)
-- 
2.43.0


From 9739860f8b193a5b4cc0e7a94c771c3d74660fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 26/45] fix: refreshing the indexers of links kept the old
 missing rows

---
 cheval/ldf/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 8c72256..f542f38 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -193,6 +193,7 @@ class _LinkMeta:
     def precompute(self):
         """Top-level method to precompute the indexer"""
         self._make_indexer(*self._get_indexers())
+        self._missing_indices = None  # These depend on the indexer
 
     def copy_meta(self) -> _LinkMeta:
         copied = _LinkMeta(self.owner, self.other, self.self_meta, self.other_meta, self._other_has_links)
-- 
2.43.0


From 48fd663980653dd85ffe87f94b1e81673bc24516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:37 +0000
Subject: [PATCH 27/45] fix: links named like one of their key columns could
 not be indexed on first use or refreshed

---
 cheval/ldf/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index f542f38..5f76cad 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -67,7 +67,8 @@ class _IndexMeta:
             for label in self.labels:
                 if label not in frame:
                     raise LinkageSpecificationError(f'Column `{label}` not in the columns')
-                arr = to_numpy(frame[label])
+                # A link can have the same name as the column, so don't use the frame's own __getitem__()
+                arr = to_numpy(DataFrame.__getitem__(frame, label))
                 arrays.append(arr)
 
         if len(arrays) == 1:
-- 
2.43.0


From 50cb1e947700fff0ec53d0fe9fe69c92b2180a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 28/45] fix: links were attached to the wrong rows, or failed,
 after reordering or selecting rows of a frame

---
 cheval/ldf/api.py | 129 +++++++++++++++++++++++++++++++---------------
 1 file changed, 88 insertions(+), 41 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 5f76cad..f8e087a 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -10,7 +10,8 @@ import attr
 import numexpr as ne
 import numpy as np
 import pandas as pd
-from pandas import DataFrame, Index, MultiIndex, Series
+from pandas import DataFrame, Index, MultiIndex, RangeIndex, Series
+from pandas.api.extensions import take
 from pandas.api.types import is_integer_dtype
 
 from ..parsing.constants import NAN_STR, NAN_VAL, NEG_INF_STR, NEG_INF_VAL
@@ -76,6 +77,18 @@ class _IndexMeta:
             return Index(arrays[0], name=name)
         return MultiIndex.from_arrays(arrays, names=self.labels)
 
+    def is_available(self, frame: DataFrame) -> bool:
+        """Tests if the given frame has all of the specified columns or levels"""
+        if self.labels is None:
+            return True
+        if self.from_row_labels:
+            n_levels = frame.index.nlevels
+            return all(
+                label in frame.index.names or (isinstance(label, int) and -n_levels <= label < n_levels)
+                for label in self.labels
+            )
+        return all(label in frame.columns for label in self.labels)
+
     def nlevels(self, frame: DataFrame) -> int:
         if self.labels is None:
             return frame.index.nlevels
@@ -193,19 +206,45 @@ class _LinkMeta:
 
     def precompute(self):
         """Top-level method to precompute the indexer"""
+        if self.flat_indexer is not None and not self.is_resolvable:
+            return  # Slices don't need to have the key columns, they already have an indexer
         self._make_indexer(*self._get_indexers())
         self._missing_indices = None  # These depend on the indexer
 
-    def copy_meta(self) -> _LinkMeta:
-        copied = _LinkMeta(self.owner, self.other, self.self_meta, self.other_meta, self._other_has_links)
+    @property
+    def is_resolvable(self) -> bool:
+        """Whether the owner (still) has the columns or levels needed to compute the indexer"""
+        if not self.self_meta.is_available(self.owner):
+            return False
+        return self.self_meta.nlevels(self.owner) == self.other_meta.nlevels(self.other)
+
+    def copy_meta(self, owner: LinkedDataFrame = None) -> _LinkMeta:
+        """Copies the definition of this link (without any indexers), optionally for another owner"""
+        owner = self.owner if owner is None else owner
+        copied = _LinkMeta(owner, self.other, self.self_meta, self.other_meta, self._other_has_links)
         copied.aggregation_required = self.aggregation_required
         return copied
 
-    def copy(self, indices=None) -> _LinkMeta:
-        copied = self.copy_meta()
+    def copy(self, indices=None, owner: LinkedDataFrame = None) -> _LinkMeta:
+        """Copies this link including its indexers, optionally for another owner which is a slice of this link's owner.
+
+        Args:
+            indices: Positions of the rows of this link's owner (or a slice object), or None for all rows. Arrays of
+                positions can include -1 for new rows which have no counterpart.
+            owner: The frame which will use the copied link.
+        """
+        copied = self.copy_meta(owner)
+
+        if indices is not None or not copied.is_resolvable:
+            # The new owner's labels are not (necessarily) the same, so this link's owner must be indexed first
+            if self.flat_indexer is None:
+                self.precompute()
 
         if self.flat_indexer is not None:
-            copied.flat_indexer = self.flat_indexer[indices] if indices is not None else self.flat_indexer
+            if indices is None or isinstance(indices, slice):
+                copied.flat_indexer = self.flat_indexer if indices is None else self.flat_indexer[indices]
+            else:
+                copied.flat_indexer = take(self.flat_indexer, np.asarray(indices), allow_fill=True, fill_value=-1)
 
         # If we are not taking a slice, copy missing indices (if they exist)
         # If we are taking a slice, leave missing indices to be lazy-computed
@@ -659,45 +698,61 @@ class LinkedDataFrame(DataFrame):
         # Copy the link metadata from the parent dataframe
         # Note that as of pandas 1.5, the names of the methods is not considered stable
         # and may change in future versions.
-        if method == "groupby":
-            self._copy_links(other, reindex=True)
+        if self.index.is_(other.index) or method == "rename":
+            self.__subset_links(other)  # Same rows in the same order
+        elif method == "groupby":
+            self.__copy_groupby_links(other)
         else:
-            for link_name, link in other._links.items():
-                self._links[link_name] = link.copy_meta()
-            self._identified_links = other._identified_links.copy()
+            self.__copy_link_definitions(other)
 
         return self
 
-    def _copy_links(self, parent: LinkedDataFrame, reindex: bool = False):
-        """Copies linkage information from a parent dataframe
-
-        If `reindex` is True, computes an indexer based on the parent DataFrame's and
-        this DataFrame's indexes and passes it to `_LinkMeta.copy` to modify the linkage.
-        """
-        if reindex:
-            indexer = parent.index.get_indexer(self.index)
-        else:
-            indexer = None
-        link_names = set()
+    def __copy_link_definitions(self, parent: LinkedDataFrame):
+        """Copies links from a parent frame whose rows were selected or reordered in an unknown way. They will get
+        indexed again from this frame's own keys, if these are still available, otherwise the link is dropped."""
+        for link_name, link in parent._links.items():
+            copied = link.copy_meta(owner=self)
+            # Row labels which just got numbered have nothing to do with the parent's labels (e.g. ignore_index=True)
+            renumbered = link.self_meta.from_row_labels and isinstance(self.index, RangeIndex)
+            if copied.is_resolvable and not renumbered:
+                self.__set_link(link_name, copied)
+
+    def __copy_groupby_links(self, parent: LinkedDataFrame):
+        """Copies links from a parent frame that is being grouped, unless this frame is the result of a reduction"""
+        if isinstance(self.index, RangeIndex) or not self.columns.equals(parent.columns):
+            return
+        if not parent.index.is_unique:
+            self.__copy_link_definitions(parent)
+            return
+        indexer = parent.index.get_indexer(self.index)
+        if np.all(indexer >= 0):
+            self.__subset_links(parent, indexer)
+
+    def __subset_links(self, parent: LinkedDataFrame, indexer: Union[np.ndarray, slice] = None):
+        """Copies links from a parent frame, given the positions of this frame's rows inside the parent"""
         for link_name, link in parent._links.items():
-            self._links[link_name] = link.copy(indexer)
-            link_names.add(link_name)
-        self._identified_links = link_names
+            try:
+                self.__set_link(link_name, link.copy(indexer, owner=self))
+            except LinkageSpecificationError:  # The parent cannot establish the link either
+                self._links.pop(link_name, None)
+                self._identified_links.discard(link_name)
 
-    def __subset_links(self, target: LinkedDataFrame, indexer: np.ndarray):
-        for link_name, link_entry in self._links.items():
-            target._links[link_name] = link_entry.copy(indexer)
+    def __set_link(self, link_name: str, link: _LinkMeta):
+        self._links[link_name] = link
+        if link_name.isidentifier():
+            self._identified_links.add(link_name)
 
     def _take_with_is_copy(self, indices, axis=0):  # pandas >= 1.0.x
         sliced: LinkedDataFrame = super()._take_with_is_copy(indices, axis=axis)
         if axis == 0:
-            self.__subset_links(sliced, indices)
+            # Positions can be negative (counting from the end) here
+            sliced.__subset_links(self, np.arange(len(self))[indices])
         return sliced
 
     def _take(self, indices, axis=0, is_copy=True):  # pandas < 1.0.x
         sliced: LinkedDataFrame = super()._take(indices, axis=axis, is_copy=is_copy)
         if axis == 0:
-            self.__subset_links(sliced, indices)
+            sliced.__subset_links(self, np.arange(len(self))[indices])
         return sliced
 
     def _reindex_with_indexers(self, reindexers, fill_value=None, copy=False, allow_dups=False):
@@ -705,25 +760,17 @@ class LinkedDataFrame(DataFrame):
 
         if isinstance(new_frame, LinkedDataFrame) and (0 in reindexers):
             _, indexer = reindexers[0]
-            self.__subset_links(new_frame, indexer)
+            new_frame.__subset_links(self, indexer)
         return new_frame
 
     def _slice(self, slobj, axis=0, kind=None):
         new_frame = super()._slice(slobj, axis=axis)
         if axis == 0 and isinstance(new_frame, LinkedDataFrame):
-            # slobj is not actually a ndarray, but a builtin <slice> Python object. Fortunately, ndarray.__getitem__()
-            # supports <slice> objects just as easily as integer indexers, so it just works.
-            self.__subset_links(new_frame, slobj)
+            new_frame.__subset_links(self, slobj)
         return new_frame
 
     def copy(self, deep=False) -> LinkedDataFrame:
-        copied = super().copy(deep=deep)
-
-        # Copy the link data
-        for link_name, link_entry in self._links.items():
-            copied._links[link_name] = link_entry.copy()
-
-        return copied
+        return super().copy(deep=deep)  # Links get copied by __finalize__()
 
     # endregion
 
-- 
2.43.0


From 18c75f7861f22704c9d3419415c12e1bc1f735d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 29/45] fix: links were attached to the wrong rows after
 in-place operations

---
 cheval/ldf/api.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index f8e087a..e179d90 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -769,6 +769,21 @@ class LinkedDataFrame(DataFrame):
             new_frame.__subset_links(self, slobj)
         return new_frame
 
+    def _update_inplace(self, result, *args, **kwargs):
+        # Called at the end of most operations with inplace=True. Links stay as they are if the rows didn't change,
+        # otherwise the links of the result (which aren't necessarily set yet) need to be taken over.
+        if result is self or self.index.is_(result.index):
+            super()._update_inplace(result, *args, **kwargs)
+            return
+
+        if isinstance(result, LinkedDataFrame) and len(result._links) == 0:
+            result.__finalize__(self)
+        super()._update_inplace(result, *args, **kwargs)
+        self._links.clear()
+        self._identified_links.clear()
+        if isinstance(result, LinkedDataFrame):
+            self.__subset_links(result)
+
     def copy(self, deep=False) -> LinkedDataFrame:
         return super().copy(deep=deep)  # Links get copied by __finalize__()
 
-- 
2.43.0


From 84c6bebab4113d9b5f635288705efcf25618050c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 30/45] fix: links on a level number failed, and a mismatched
 number of levels raised AssertionError

---
 cheval/ldf/api.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index e179d90..6ee8fe9 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -12,7 +12,7 @@ import numpy as np
 import pandas as pd
 from pandas import DataFrame, Index, MultiIndex, RangeIndex, Series
 from pandas.api.extensions import take
-from pandas.api.types import is_integer_dtype
+from pandas.api.types import is_integer_dtype, is_scalar
 
 from ..parsing.constants import NAN_STR, NAN_VAL, NEG_INF_STR, NEG_INF_VAL
 from ..parsing.exceptions import UnsupportedSyntaxError
@@ -36,10 +36,10 @@ class _IndexMeta:
     from_row_labels: bool = attr.ib()
 
     def __init__(self, labels: Union[str, List[str]] = None, from_row_labels: bool = True):
-        if isinstance(labels, str):
-            labels = [labels]
-        elif labels is None:
+        if labels is None:
             from_row_labels = True
+        elif is_scalar(labels):  # A single name, or the number of a level
+            labels = [labels]
         self.labels = labels
         self.from_row_labels = from_row_labels
 
@@ -123,7 +123,8 @@ class _LinkMeta:
         self_meta = _IndexMeta(self_labels, self_from_row_labels)
         other_meta = _IndexMeta(other_labels, other_from_row_labels)
 
-        assert self_meta.nlevels(owner) == other_meta.nlevels(other)
+        if self_meta.nlevels(owner) != other_meta.nlevels(other):
+            raise LinkageSpecificationError('Both sides of the link must have the same number of levels')
 
         other_has_links = isinstance(other, LinkedDataFrame)
 
-- 
2.43.0


From c6e4e3c1378fb9c638294296be04b5c979bcc45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 31/45] fix: temporary_fill_defaults could not be used

---
 cheval/ldf/api.py          | 2 +-
 cheval/ldf/missing_data.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 6ee8fe9..d3021d1 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -437,7 +437,7 @@ class LinkedDataFrame(DataFrame):
 
     def temporary_fill_defaults(self=None, **kwargs):
         filler = self._instance_filler if self is not None else LinkedDataFrame._class_filler
-        yield from filler.temporary_fill_defaults(**kwargs)
+        return filler.temporary_fill_defaults(**kwargs)
 
     def reset_fill_defaults(self=None):
         filler = self._instance_filler if self is not None else LinkedDataFrame._class_filler
diff --git a/cheval/ldf/missing_data.py b/cheval/ldf/missing_data.py
index 22032ea..a408d9d 100644
--- a/cheval/ldf/missing_data.py
+++ b/cheval/ldf/missing_data.py
@@ -88,6 +88,7 @@ class SeriesFillManager:
                 enum_ = PandasDtype[type_name]
                 previous_values[enum_] = self._fill_values[enum_]
                 self._fill_values[enum_] = default_value
+            yield
         finally:
             for enum_, original_value in previous_values.items():
                 self._fill_values[enum_] = original_value
-- 
2.43.0


From be358a7f66e003bb483ccd926559388f88e6a4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 32/45] fix: class-level fill defaults did not affect new
 LinkedDataFrames

---
 cheval/ldf/api.py          | 2 +-
 cheval/ldf/missing_data.py | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index d3021d1..b8bb7be 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -317,7 +317,7 @@ class LinkedDataFrame(DataFrame):
 
         object.__setattr__(self, '_links', {})
         object.__setattr__(self, '_identified_links', set())
-        object.__setattr__(self, '_instance_filler', SeriesFillManager())
+        object.__setattr__(self, '_instance_filler', LinkedDataFrame._class_filler.copy())
         object.__setattr__(self, '_column_fills', {})
 
     def link_to(self, other: DataFrame, name: str, *, on: _LabelType = None, levels: _LabelType = None,
diff --git a/cheval/ldf/missing_data.py b/cheval/ldf/missing_data.py
index a408d9d..27e7c14 100644
--- a/cheval/ldf/missing_data.py
+++ b/cheval/ldf/missing_data.py
@@ -93,5 +93,10 @@ class SeriesFillManager:
             for enum_, original_value in previous_values.items():
                 self._fill_values[enum_] = original_value
 
+    def copy(self) -> SeriesFillManager:
+        copied = SeriesFillManager()
+        copied._fill_values = self._fill_values.copy()
+        return copied
+
     def reset_fill_defaults(self):
         self._fill_values = _default_fills.copy()
-- 
2.43.0


From e457850062b7f81b4991ae59029ff481cbab47ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 33/45] fix: pivot_table failed for lists of items

---
 cheval/ldf/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index b8bb7be..1bd104e 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -925,7 +925,7 @@ class LinkedDataFrame(DataFrame):
                 new_columns[lookup_items] = self.evaluate(lookup_items)
         elif (lookup_items is not None) and not isinstance(lookup_items, (pd.Series, np.ndarray)):
             for item in lookup_items:
-                if lookup_items in self.columns:
+                if item in self.columns:
                     new_columns[item] = self[item]
                 else:
                     new_columns[item] = self.evaluate(item)
-- 
2.43.0


From 1586c0363db9fff658a116e78656b788ee4c76ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 34/45] fix: text results of expressions were returned as
 bytes, so pivots over linked text had different labels

---
 cheval/ldf/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 1bd104e..389409c 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -846,6 +846,8 @@ class LinkedDataFrame(DataFrame):
 
         casting_rule = 'same_kind' if allow_casting else 'safe'
         vector = ne.evaluate(new_expr.transformed, local_dict=ld, out=out, casting=casting_rule)
+        if vector.dtype.kind == 'S':  # NumExpr only knows bytes
+            vector = vector.astype(np.str_).astype(object)
         return Series(vector, index=self.index)
 
     # endregion
-- 
2.43.0


From 85a5cc5bfda1ff22f19ec2cdee076a9992da5ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 35/45] fix: dict literals lost the value of a nest when its
 descendants were specified after it

---
 cheval/parsing/expressions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/parsing/expressions.py b/cheval/parsing/expressions.py
index a30ed9c..1c60026 100644
--- a/cheval/parsing/expressions.py
+++ b/cheval/parsing/expressions.py
@@ -100,8 +100,9 @@ class Expression(object):
                 locs = choice_index.get_loc(tuple(new_key))
                 parent_loc = choice_index.get_loc(tuple(new_key + delta))
 
+                parent_val = new_array[0, parent_loc]  # The parent could have been specified on its own
                 new_array[0, locs] = val
-                new_array[0, parent_loc] = 0
+                new_array[0, parent_loc] = parent_val
             else:
                 loc = choice_index.get_loc(tuple(new_key + delta))
                 new_array[0, loc] = val
-- 
2.43.0


From ba3c138f5303d61d6fb8ddfe707eaa96b9fb0927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 36/45] fix: identity tests in expressions silently compared
 the operands instead of their values

---
 cheval/parsing/ast_transformer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index bb351d0..8f8578d 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -89,6 +89,11 @@ class ExpressionParser(ast.NodeTransformer):
         return left
 
     def visit_compare(self, compare_node: ast.Compare):
+        for op in compare_node.ops:
+            if isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
+                # These would compare the (unevaluated) operands themselves instead of their values
+                raise UnsupportedSyntaxError(op.__class__.__name__)
+
         # Visit downstream symbols
         new_left = self.visit(compare_node.left)
         new_comparators = [self.visit(node) for node in compare_node.comparators]
-- 
2.43.0


From 44802868dcf9295d000b683abb49c4b38e2c40be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:38 +0000
Subject: [PATCH 37/45] fix: text columns could not be used by a model or frame
 without any rows, e.g. an empty subset copy

---
 cheval/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cheval/utils.py b/cheval/utils.py
index 8e7f67b..2671f45 100644
--- a/cheval/utils.py
+++ b/cheval/utils.py
@@ -39,6 +39,8 @@ def convert_series(s: pd.Series, allow_raw: bool = False) -> NDArray:
 
         category_index = categorical.categories
         if category_index.dtype.name == 'object':
+            if len(s) == 0:
+                return np.empty(0, dtype='S1')  # There might not be any categories to get the length from
             max_len = category_index.str.len().max()
             typename = f'S{max_len}'
         else:
@@ -48,6 +50,8 @@ def convert_series(s: pd.Series, allow_raw: bool = False) -> NDArray:
     elif dtype.name == 'object':
         # Object or text column
         # This is much slower than other dtypes, but it can't be helped. For now, users should just use Categoricals
+        if len(s) == 0:
+            return np.empty(0, dtype='S1')  # There is nothing to get the length from
         max_length = s.str.len().max()
         if np.isnan(max_length):
             raise TypeError('Could not get max string length')
-- 
2.43.0


From d4135163fd977dd9f455166303238bfe2d5826fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:33 +0000
Subject: [PATCH 38/45] fix: don't match keys unknown to a level or category to
 missing keys of the linked table

---
 cheval/ldf/api.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 389409c..9f4ede6 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -171,7 +171,7 @@ class _LinkMeta:
         if self.aggregation_required:
             group_ints, group_order = other_indexer.factorize()
             self.other_grouper = group_ints
-            self.flat_indexer = group_order.get_indexer(self_indexer)
+            self.flat_indexer = self._match(self_indexer, group_order)
         else:  # Performance-tuned fast paths for constructing indexers
             if self_indexer.equals(other_indexer):  # Indexers are identical
                 self.flat_indexer = np.arange(len(other_indexer))
@@ -179,7 +179,20 @@ class _LinkMeta:
                 # Originally, different logic was used if the self indexer didn't map cleanly onto the other indexer
                 # (the other was missing values, or the self had NaNs).
                 # Those were combined into a single case for performance purposes
-                self.flat_indexer = other_indexer.get_indexer(self_indexer)
+                self.flat_indexer = self._match(self_indexer, other_indexer)
+
+    @staticmethod
+    def _match(self_indexer: Index, other_indexer: Index) -> np.ndarray:
+        """Finds the positions of the first indexer's keys in the second one (-1 for keys which are not there)"""
+        indexer = other_indexer.get_indexer(self_indexer)
+        for level in range(other_indexer.nlevels):
+            # Pandas can take keys which are unknown to a level or category for missing ones, and match these
+            other_missing = other_indexer._get_level_values(level).isna()  # By number, as names can be numbers too
+            if other_missing.any():
+                found = np.nonzero(indexer >= 0)[0]
+                self_missing = self_indexer._get_level_values(level).isna()
+                indexer[found[other_missing[indexer[found]] & ~self_missing[found]]] = -1
+        return indexer
 
     def _compute_missing_indices(self):
         """Initializes `missing_indices` by finding the rows which do not have any linkages
-- 
2.43.0


From 83a4620231f6644932b77baca62030d8c0a6eeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:44 +0000
Subject: [PATCH 39/45] fix: allow taking no rows of a LinkedDataFrame by an
 empty list of positions

---
 cheval/ldf/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 9f4ede6..39c5ede 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -760,13 +760,13 @@ class LinkedDataFrame(DataFrame):
         sliced: LinkedDataFrame = super()._take_with_is_copy(indices, axis=axis)
         if axis == 0:
             # Positions can be negative (counting from the end) here
-            sliced.__subset_links(self, np.arange(len(self))[indices])
+            sliced.__subset_links(self, np.arange(len(self))[np.asarray(indices, dtype=np.intp)])
         return sliced
 
     def _take(self, indices, axis=0, is_copy=True):  # pandas < 1.0.x
         sliced: LinkedDataFrame = super()._take(indices, axis=axis, is_copy=is_copy)
         if axis == 0:
-            sliced.__subset_links(self, np.arange(len(self))[indices])
+            sliced.__subset_links(self, np.arange(len(self))[np.asarray(indices, dtype=np.intp)])
         return sliced
 
     def _reindex_with_indexers(self, reindexers, fill_value=None, copy=False, allow_dups=False):
-- 
2.43.0


From 3c969343d0b73c232cef15f4647346eac3c63fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:44 +0000
Subject: [PATCH 40/45] fix: copy the data of a LinkedDataFrame by default,
 since pandas' methods rely on it to not change the original

---
 cheval/ldf/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 39c5ede..7d9c978 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -798,7 +798,7 @@ class LinkedDataFrame(DataFrame):
         if isinstance(result, LinkedDataFrame):
             self.__subset_links(result)
 
-    def copy(self, deep=False) -> LinkedDataFrame:
+    def copy(self, deep=True) -> LinkedDataFrame:
         return super().copy(deep=deep)  # Links get copied by __finalize__()
 
     # endregion
-- 
2.43.0


From 52a1097ccba9e09231bf2f758fe91c01f6dd9efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:26 +0000
Subject: [PATCH 41/45] fix: keep links by row labels with their rows when the
 labels get replaced (e.g. by reset_index)

---
 cheval/ldf/api.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 7d9c978..e7ad0b5 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -109,6 +109,7 @@ class _LinkMeta:
     other: Union[LinkedDataFrame, DataFrame]
     _other_has_links: bool
     aggregation_required: bool
+    detached: bool  # If True, the labels of the owner's rows were replaced since the link was made
     self_meta: _IndexMeta
     other_meta: _IndexMeta
 
@@ -140,6 +141,7 @@ class _LinkMeta:
         self.other_meta = other_meta
         self._other_has_links = other_has_links
         self.aggregation_required = False
+        self.detached = False
         self.flat_indexer = None
         self.other_grouper = None
         self._missing_indices = None
@@ -228,7 +230,7 @@ class _LinkMeta:
     @property
     def is_resolvable(self) -> bool:
         """Whether the owner (still) has the columns or levels needed to compute the indexer"""
-        if not self.self_meta.is_available(self.owner):
+        if self.detached or not self.self_meta.is_available(self.owner):
             return False
         return self.self_meta.nlevels(self.owner) == self.other_meta.nlevels(self.other)
 
@@ -237,6 +239,7 @@ class _LinkMeta:
         owner = self.owner if owner is None else owner
         copied = _LinkMeta(owner, self.other, self.self_meta, self.other_meta, self._other_has_links)
         copied.aggregation_required = self.aggregation_required
+        copied.detached = self.detached
         return copied
 
     def copy(self, indices=None, owner: LinkedDataFrame = None) -> _LinkMeta:
@@ -712,8 +715,11 @@ class LinkedDataFrame(DataFrame):
         # Copy the link metadata from the parent dataframe
         # Note that as of pandas 1.5, the names of the methods is not considered stable
         # and may change in future versions.
-        if self.index.is_(other.index) or method == "rename":
+        if self.index.is_(other.index):
             self.__subset_links(other)  # Same rows in the same order
+        elif method == "rename":
+            self.__subset_links(other, slice(None))  # Same rows in the same order, with other labels
+            self.__detach_links()
         elif method == "groupby":
             self.__copy_groupby_links(other)
         else:
@@ -744,13 +750,27 @@ class LinkedDataFrame(DataFrame):
 
     def __subset_links(self, parent: LinkedDataFrame, indexer: Union[np.ndarray, slice] = None):
         """Copies links from a parent frame, given the positions of this frame's rows inside the parent"""
-        for link_name, link in parent._links.items():
+        for link_name, link in list(parent._links.items()):
             try:
                 self.__set_link(link_name, link.copy(indexer, owner=self))
             except LinkageSpecificationError:  # The parent cannot establish the link either
                 self._links.pop(link_name, None)
                 self._identified_links.discard(link_name)
 
+    def __detach_links(self):
+        """Keeps links attached to the rows, whose labels were replaced"""
+        for link in self._links.values():
+            link.detached |= link.self_meta.from_row_labels
+
+    def _set_axis(self, axis, labels):
+        # Called by all operations which replace labels, such as reset_index(). Note that 1 is the axis of the rows here
+        links = self.__dict__.get('_links') if axis == 1 else None
+        if links:
+            self.__subset_links(self, slice(None))  # Computes the missing indexers, as they depend on the labels
+        super()._set_axis(axis, labels)
+        if links:
+            self.__detach_links()
+
     def __set_link(self, link_name: str, link: _LinkMeta):
         self._links[link_name] = link
         if link_name.isidentifier():
-- 
2.43.0


From f179bb3a10c992dbb2e0f26474800eca9bf2a26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:04 +0000
Subject: [PATCH 42/45] fix: LinkedDataFrame.pivot_table() takes everything
 which DataFrame.pivot_table() takes

Without values= the result was empty, instead of aggregating the remaining columns. Names which aren't text, index levels,
groupers, functions, lists of arrays and further positional arguments were refused.
---
 cheval/ldf/api.py | 47 ++++++++++++++++++-----------------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index e7ad0b5..f871c47 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -927,44 +927,33 @@ class LinkedDataFrame(DataFrame):
             if refresh or entry.flat_indexer is None:
                 entry.precompute()
 
-    def pivot_table(self, values=None, index=None, columns=None, **kwargs):
-        # Construct a new DataFrame from any of the columns or lookups specified
+    def pivot_table(self, values=None, index=None, columns=None, *args, **kwargs):
+        # Construct a new DataFrame which also has any of the lookups specified
         # in values, index, or columns, and then pivot that
-        new_columns = {}
-        value_cols = self._resolve_columns(values)
-        new_columns.update(value_cols)
-        index_cols = self._resolve_columns(index)
-        new_columns.update(index_cols)
-        column_cols = self._resolve_columns(columns)
-        new_columns.update(column_cols)
-        pivot_df = pd.DataFrame(new_columns, index=self.index)
+        pivot_df = DataFrame(self).copy(deep=False)
+        for lookup_items in (values, index, columns):
+            for name, series in self._resolve_columns(lookup_items).items():
+                pivot_df[name] = series
 
-        return pivot_df.pivot_table(index=index, columns=columns, values=values, **kwargs)
+        return pivot_df.pivot_table(values, index, columns, *args, **kwargs)
 
     def _resolve_columns(self, lookup_items) -> Dict[str, pd.Series]:
-        """Resolves potential column names or lookups to a dict of Series
+        """Resolves potential lookups to a dict of Series
 
-        Helper for pivot_table to pull any relevant columns or linkage lookups
-        into a clean DataFrame.
-        Because pivot_table can take a wide variety of inputs as index, columns, and values,
-        this attempts to be very flexible with whether and how it looks up provided items.
+        Helper for pivot_table to evaluate any linkage lookups, which are neither columns nor index levels of this frame.
+        Because pivot_table can take a wide variety of inputs as index, columns, and values (arrays, functions, etc.),
+        this leaves anything else than text to Pandas.
 
-        Any items which get resolved as columns or linkage lookups are returned as a
+        Any items which get resolved as linkage lookups are returned as a
         Series in a key: value pair in the returned dict.
         """
-        new_columns = {}
         if isinstance(lookup_items, str):
-            if lookup_items in self.columns:
-                new_columns[lookup_items] = self[lookup_items]
-            else:
-                new_columns[lookup_items] = self.evaluate(lookup_items)
-        elif (lookup_items is not None) and not isinstance(lookup_items, (pd.Series, np.ndarray)):
-            for item in lookup_items:
-                if item in self.columns:
-                    new_columns[item] = self[item]
-                else:
-                    new_columns[item] = self.evaluate(item)
-        return new_columns
+            lookup_items = [lookup_items]
+        elif not isinstance(lookup_items, (list, tuple, set, Index)):
+            return {}
+
+        return {item: self.evaluate(item) for item in lookup_items
+                if isinstance(item, str) and item not in self.columns and item not in self.index.names}
 
     def get_link_target(self, name) -> Union[DataFrame, LinkedDataFrame]:
         """Gets the referenced target ("other") of an outbound link. This is useful when the original reference to the
-- 
2.43.0


From f1858907b91402a516c546fa6b4633e8d007bea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:15 +0000
Subject: [PATCH 43/45] fix: LinkedDataFrames can be used after unpickling

Their internal attributes were missing, so that any access to an attribute or item ran into a RecursionError.
---
 cheval/ldf/api.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index f871c47..b4021a9 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -336,6 +336,10 @@ class LinkedDataFrame(DataFrame):
         object.__setattr__(self, '_instance_filler', LinkedDataFrame._class_filler.copy())
         object.__setattr__(self, '_column_fills', {})
 
+    def __setstate__(self, state):
+        self.__init__()  # Unpickled frames don't have any links, as these refer to other frames
+        super().__setstate__(state)
+
     def link_to(self, other: DataFrame, name: str, *, on: _LabelType = None, levels: _LabelType = None,
                 on_self: _LabelType = None, on_other: _LabelType = None, self_levels: _LabelType = None,
                 other_levels: _LabelType = None, precompute: bool = True) -> LinkAggregationRequired:
-- 
2.43.0


From 88d7b4adb25711293ef6966a48c90643c1cb3735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:36 +0000
Subject: [PATCH 44/45] fix: adding expression groups keeps the order of the
 groups, and doesn't share them with the operands

Groups came in the order of a set, so that the order of evaluation differed between processes. Appending to a group of the
sum changed the operand it came from.
---
 cheval/api.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/cheval/api.py b/cheval/api.py
index 8d8744d..bd4d48a 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -204,16 +204,10 @@ class ExpressionGroup(object):
         new._chained_symbols = self._chained_symbols | other._chained_symbols
         new._ungrouped_expressions = self._ungrouped_expressions + other._ungrouped_expressions
 
-        new._subgroups = {}
-        keys = set(self._subgroups.keys()) | set(other._subgroups.keys())
-        for key in keys:
-            key_in_self, key_in_other = key in self._subgroups, key in other._subgroups
-            if key_in_self and key_in_other:
-                new._subgroups[key] = self._subgroups[key] + other._subgroups[key]
-            elif key_in_self:
-                new._subgroups[key] = self._subgroups[key]
-            elif key_in_other:
-                new._subgroups[key] = other._subgroups[key]
+        # Groups must be new instances too, as these are allowed to be extended later on
+        for group in (self, other):
+            for name, subgroup in group._subgroups.items():
+                new._subgroups[name] = new._subgroups.get(name, ExpressionSubGroup(name)) + subgroup
 
         return new
 
-- 
2.43.0


From e5a0e3b964cd974e6a063a3b3ab7bcc5a167a42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:02 +0000
Subject: [PATCH 45/45] fix: subsets of a model without the decision unit being
 debugged can be run

---
 cheval/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cheval/model.py b/cheval/model.py
index 059ef6d..1d6d163 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -736,7 +736,9 @@ class ChoiceModel(object):
         assert mask.index.equals(self.decision_units), "Mask Series must match decision units"
         subset_index = self.decision_units[mask]
 
-        new = ChoiceModel(precision=self.precision, debug_id=self.debug_id)
+        # The decision unit being debugged isn't necessarily part of the subset
+        debug_id = self.debug_id if self.debug_id is not None and self.debug_id in subset_index else None
+        new = ChoiceModel(precision=self.precision, debug_id=debug_id)
         new._max_level = self._max_level
 
         # ChoiceNode refs will be the same, but that's ok because users shouldn't be changing these at this point
-- 
2.43.0


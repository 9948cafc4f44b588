From 112000bed50ee235dca58b74fd1329313d0912e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 01/43] fix: yield a label array from generate_initial_sol for
 n_regions == 1

A dict was yielded, which made every AZP variant fail with a TypeError, and
the check for the number of connected components was skipped.
---
 region/util.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/region/util.py b/region/util.py
index ff3721c..927d58b 100755
--- a/region/util.py
+++ b/region/util.py
@@ -611,9 +611,6 @@ def generate_initial_sol(adj, n_regions):
             "less than or equal to the number of areas "
             "({}).".format(n_regions, n_areas)
         )
-    if n_regions == 1:
-        yield {area: 0 for area in range(n_areas)}
-        return
 
     n_comps, comp_labels = csg.connected_components(adj)
     if n_comps > n_regions:
-- 
2.43.0


From 88c11a568d7354b682af97e58c65f838dc68489c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 02/43] fix: shape of array_from_dict_values for a subset of
 keys or repeated keys

---
 region/util.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/region/util.py b/region/util.py
index 927d58b..008d2e0 100755
--- a/region/util.py
+++ b/region/util.py
@@ -63,8 +63,7 @@ def array_from_dict_values(dct, sorted_keys=None, flat_output=False, dtype=np.fl
     >>> (it_2d == desired_2d).all()
     True
     """
-    if sorted_keys is None:
-        sorted_keys = sorted(dct)
+    sorted_keys = sorted(dct) if sorted_keys is None else list(sorted_keys)
     iterable_values = isinstance(dct[sorted_keys[0]], collections.Iterable)
     if iterable_values:
         it = itertools.chain.from_iterable(dct[key] for key in sorted_keys)
@@ -74,7 +73,7 @@ def array_from_dict_values(dct, sorted_keys=None, flat_output=False, dtype=np.fl
     flat_arr = np.fromiter(it, dtype=dtype)
     if flat_output:
         return flat_arr
-    return flat_arr.reshape((len(dct), -1))
+    return flat_arr.reshape((len(sorted_keys), -1))
 
 
 def scipy_sparse_matrix_from_dict(neighbors):
-- 
2.43.0


From 6ffb0a655f242d9915a4d1ac7b8c31682bfa6b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 03/43] fix: keep attributes of a networkx graph in node order

The adjacency matrix built from a graph has its rows in node order while the
attributes were sorted by node, so that attributes were assigned to the wrong
areas unless the nodes happened to be sorted.
---
 region/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/util.py b/region/util.py
index 008d2e0..339a19a 100755
--- a/region/util.py
+++ b/region/util.py
@@ -244,7 +244,7 @@ def array_from_graph(graph, attr):
     True
     """
     dct = dict_from_graph_attr(graph, attr)
-    return array_from_dict_values(dct)
+    return array_from_dict_values(dct, sorted_keys=graph.nodes())
 
 
 def array_from_graph_or_dict(graph, attr):
-- 
2.43.0


From d319776f2d1f62301ff4dc91396efa20b0491669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:12 +0000
Subject: [PATCH 04/43] fix: accept initial_labels in fit_from_networkx

A two-dimensional array was passed on, which cannot be used as labels.
---
 region/p_regions/azp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 42027f4..2eb18d1 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -189,7 +189,8 @@ class AZP:
         adj = nx.to_scipy_sparse_matrix(graph)
         attr = array_from_graph_or_dict(graph, attr)
         if initial_labels is not None:
-            initial_labels = array_from_graph_or_dict(graph, initial_labels)
+            initial_labels = array_from_graph_or_dict(
+                graph, initial_labels).reshape(-1)
         self.fit_from_scipy_sparse_matrix(
             adj,
             attr,
@@ -573,7 +574,8 @@ class AZPSimulatedAnnealing:
         adj = nx.to_scipy_sparse_matrix(graph)
         attr = array_from_graph_or_dict(graph, attr)
         if initial_labels is not None:
-            initial_labels = array_from_graph_or_dict(graph, initial_labels)
+            initial_labels = array_from_graph_or_dict(
+                graph, initial_labels).reshape(-1)
         self.fit_from_scipy_sparse_matrix(
             adj,
             attr,
-- 
2.43.0


From ce68dcd3dd261744c4a36b45794f892640ef6903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 05/43] fix: forget the zoning systems of earlier runs in
 AZPReactiveTabu

Stored zoning systems of other components (or of earlier fits) could be
returned as the labels of the component at hand.
---
 region/p_regions/azp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 2eb18d1..885d5b5 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -938,6 +938,10 @@ class AZPReactiveTabu(AZPTabu):
         #  step 2: make a list of the M regions
         labels = initial_labels
 
+        # forget the zoning systems (and statistics) of earlier runs
+        self.visited = []
+        self.avg_it_until_rep = 1
+        self.rep_counter = 1
         it_since_tabu_len_changed = 0
         obj_val_start = float("inf")
         # step 12: Repeat steps 3-11 until either no further improvements are
-- 
2.43.0


From a0b66a5e98c801d5614f5b95deddc62f72de6090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 06/43] fix: AZPReactiveTabu without a possible move and with a
 growing tabu list

Do not fail if there is no (further) possible move and keep the length of
the tabu list an integer.
---
 region/p_regions/azp.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 885d5b5..6a6a694 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -980,7 +980,8 @@ class AZPReactiveTabu(AZPTabu):
                     best_move_index, best_move = i, move
                     best_objval_diff = obj_val_diff
             # step 5: Make the move if possible. Update the tabu status.
-            if self.allow_move_strategy(best_move.area, best_move.new_region, labels):
+            if best_move is not None and self.allow_move_strategy(
+                    best_move.area, best_move.new_region, labels):
                 self._make_move(best_move.area, best_move.new_region, labels, adj)
             # step 6: Look up the current zoning system in a list of all zoning
             # systems visited so far during the search. If not found then go
@@ -1015,8 +1016,9 @@ class AZPReactiveTabu(AZPTabu):
                         last_step = (11, tuple(labels))
                         self.visited = []
                         p = math.floor(1 + self.avg_it_until_rep / 2)
-                        possible_moves.pop(best_move_index)
-                        for _ in range(p):
+                        if best_move_index is not None:
+                            possible_moves.pop(best_move_index)
+                        for _ in range(min(p, len(possible_moves))):
                             move = possible_moves.pop(random.randrange(len(possible_moves)))
                             if self.allow_move_strategy(move.area, move.new_region, labels):
                                 self._make_move(move.area, move.new_region, labels, adj)
@@ -1029,7 +1031,8 @@ class AZPReactiveTabu(AZPTabu):
                     self.avg_it_until_rep = 1 / self.rep_counter * \
                         ((self.rep_counter-1)*avg_it + it_until_repetition)
 
-                    self.tabu = deque(self.tabu, 1.1 * self.tabu.maxlen)
+                    self.tabu = deque(self.tabu,
+                                      math.ceil(1.1 * self.tabu.maxlen))
                     # step 9: If the number of iterations since R was last
                     # changed exceeds self.avg_it_until_rep, then decrease R to
                     # max(0.9*R, 1).
-- 
2.43.0


From f57eb9d426c7e3f637b4f0df2976dedd4fa35406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 07/43] fix: undo tabu moves which empty their donor region

An aspiration or random move of the only area of a region reduced the number
of regions. Also, an undone move does not displace moves from the tabu list.
---
 region/p_regions/azp.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 6a6a694..6d23965 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -715,10 +715,9 @@ class AZPTabu(AZP, abc.ABC):
     def _make_move(self, area, new_region, labels, adj):
         old_region = labels[area]
         make_move(area, new_region, labels)
-        if not boolean_assert_feasible(labels, adj): # If the move breaks the contiguity, revert it!
+        # If the move breaks the contiguity or empties the donor, revert it!
+        if old_region not in labels or not boolean_assert_feasible(labels, adj):
             make_move(area, old_region, labels) # Revert Move!
-            reverse_move = Move(area, new_region, old_region)
-            self.tabu.append(reverse_move)
             return False
         else:
             # step 5: Tabu the reverse move for R iterations.
-- 
2.43.0


From 4e55f122cb25f3df4a4920955357daf0dad48a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 08/43] fix: AZPReactiveTabu returns the best zoning system
 found

The zoning system stored last but one (or last, after a single iteration) could
be worse than the initial one.
---
 region/p_regions/azp.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 6d23965..1e85837 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -943,6 +943,7 @@ class AZPReactiveTabu(AZPTabu):
         self.rep_counter = 1
         it_since_tabu_len_changed = 0
         obj_val_start = float("inf")
+        best_labels = labels.copy()
         # step 12: Repeat steps 3-11 until either no further improvements are
         # made or a maximum number of iterations are exceeded.
         for it in range(self.maxit):
@@ -950,6 +951,7 @@ class AZPReactiveTabu(AZPTabu):
             if not obj_val_end < obj_val_start:
                 break  # step 12
             obj_val_start = obj_val_end
+            best_labels = labels.copy()
 
             it_since_tabu_len_changed += 1
             # step 3: Define the list of all possible moves that are not tabu
@@ -1010,9 +1012,6 @@ class AZPReactiveTabu(AZPTabu):
                         # random moves, P = 1 + self.avg_it_until_rep/2, and
                         # update tabu to preclude a return to the previous
                         # state.
-                        # we save the labels such that we can access it if
-                        # this step yields a poor solution.
-                        last_step = (11, tuple(labels))
                         self.visited = []
                         p = math.floor(1 + self.avg_it_until_rep / 2)
                         if best_move_index is not None:
@@ -1043,12 +1042,8 @@ class AZPReactiveTabu(AZPTabu):
 
             # step 10: Save the zoning system and go to step 12.
             self.visited.append(tuple(labels))
-            last_step = 10
-
-        if last_step == 10:
-            try:
-                return np.array(self.visited[-2])
-            except IndexError:
-                return np.array(self.visited[-1])
-        # if step 11 was the last one, the result is in last_step[1]
-        return np.array(last_step[1])
+
+        if self.objective_func(labels, attr) < obj_val_start:
+            return labels
+        # the last moves were no improvement
+        return best_labels
-- 
2.43.0


From fee7e0a84e355eb45be3c6fa0d98dfaf5620536b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 09/43] fix: terminate AZPBasicTabu among equivalent solutions

Moves not changing the objective were made forever although the solutions had
been visited repetitions_before_termination times.
---
 region/p_regions/azp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 1e85837..c76100c 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -829,7 +829,9 @@ class AZPBasicTabu(AZPTabu):
                                     best_objval_diff = objval_diff
             # step 2: Make this move if it is an improvement or equivalet in
             # value.
-            if best_move is not None and best_objval_diff <= 0 and self.allow_move_strategy(best_move.area, best_move.new_region, labels):
+            # Do not wander along equivalent solutions after the termination
+            # condition has been met.
+            if best_move is not None and (best_objval_diff < 0 or best_objval_diff <= 0 and not stop) and self.allow_move_strategy(best_move.area, best_move.new_region, labels):
                 self._make_move(best_move.area, best_move.new_region, labels, adj)
             else:
                 # step 3: if no improving move can be made, then see if a tabu
-- 
2.43.0


From a23e2bb344aa53efef82c4ef4ca8aaa5721ed1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:34 +0000
Subject: [PATCH 10/43] fix: search anew after an aspiration move in
 AZPBasicTabu

Instead, the best move found before the aspiration move was made in step 4
or the search stopped although further improvements were possible.
---
 region/p_regions/azp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index c76100c..9e7d8fa 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -848,8 +848,9 @@ class AZPBasicTabu(AZPTabu):
                     
                     if self.allow_move_strategy(aspiration_move.area, aspiration_move.new_region, labels):
                     
-                        self._make_move(aspiration_move.area, aspiration_move.new_region, labels, adj)
-                        
+                        if self._make_move(aspiration_move.area, aspiration_move.new_region, labels, adj):
+                            continue  # the best move has to be found anew
+
                 if stop:
                         break
                 else:
-- 
2.43.0


From c22811086235d64403749f49be4d87fbb63cde6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 11/43] fix: PRegionsExact distances between areas with several
 attributes

The attributes were passed to the metric as several one-dimensional points.
---
 region/p_regions/exact.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 5f62ab0..0393cb6 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -330,8 +330,8 @@ def _flow(adj, attr, n_regions, solver, metric):
     K = range(n_regions)  # index for regions
     d = {
         (i, j): metric(
-            attr[i].reshape(attr.shape[1], 1),  # reshaping to...
-            attr[j].reshape(attr.shape[1], 1))  # ...avoid warnings
+            attr[i].reshape(1, attr.shape[1]),  # reshaping to...
+            attr[j].reshape(1, attr.shape[1]))  # ...avoid warnings
         for i, j in II_upper_triangle
     }
 
@@ -442,8 +442,8 @@ def _order(adj, attr, n_regions, solver, metric):
     O = range(n_areas - n_regions)  # index for orders
     d = {
         (i, j): metric(
-            attr[i].reshape(attr.shape[1], 1),  # reshaping to...
-            attr[j].reshape(attr.shape[1], 1))  # ...avoid warnings
+            attr[i].reshape(1, attr.shape[1]),  # reshaping to...
+            attr[j].reshape(1, attr.shape[1]))  # ...avoid warnings
         for i, j in II_upper_triangle
     }
 
@@ -527,8 +527,8 @@ def _tree(adj, attr, n_regions, solver, metric):
     II_upper_triangle = [(i, j) for i, j in II if i < j]
     d = {
         (i, j): metric(
-            attr[i].reshape(attr.shape[1], 1),  # reshaping to...
-            attr[j].reshape(attr.shape[1], 1))  # ...avoid warnings
+            attr[i].reshape(1, attr.shape[1]),  # reshaping to...
+            attr[j].reshape(1, attr.shape[1]))  # ...avoid warnings
         for i, j in II
     }
     # Decision variables
-- 
2.43.0


From b2379ed00c82096da57f45de95aa3b384a78c6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 12/43] fix: flow formulation excluded regions of the maximum
 size

A sink has to be able to receive the flow of the n - p other areas of a region
of n - p + 1 areas. (With n = p, the problem was infeasible.)
---
 region/p_regions/exact.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 0393cb6..c48a5df 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -386,7 +386,8 @@ def _flow(adj, attr, n_regions, solver, metric):
     for i in I:
         for k in K:
             lhs = sum(f[i, j, k] - f[j, i, k] for j in neighbors(adj, i))
-            prob += lhs >= y[i, k] - (n_areas - n_regions) * w[i, k]
+            prob += lhs >= \
+                    y[i, k] - (n_areas - n_regions + 1) * w[i, k]
     # (27) in Duque et al. (2011): "The p-Regions Problem"
     for i, j in II_upper_triangle:
         for k in K:
-- 
2.43.0


From 3ffffbb1ed684160f2a8a66f41c39c22cd91798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 13/43] fix: order formulation excluded regions of the maximum
 size

A path-shaped region of n - p + 1 areas needs n - p + 1 orders, and even for
n = p there is one order.
---
 region/p_regions/exact.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index c48a5df..730e3b3 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -440,7 +440,7 @@ def _order(adj, attr, n_regions, solver, metric):
     II = [(i, j) for i in I for j in I]
     II_upper_triangle = [(i, j) for i, j in II if i < j]
     K = range(n_regions)  # index for regions
-    O = range(n_areas - n_regions)  # index for orders
+    O = range(n_areas - n_regions + 1)  # index for orders
     d = {
         (i, j): metric(
             attr[i].reshape(1, attr.shape[1]),  # reshaping to...
-- 
2.43.0


From 2b68738d1b3e310c03e6225548b2fb4dc1c26b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 14/43] fix: tree formulation excluded regions of the maximum
 size

A path-shaped tree of n - p + 1 areas needs n - p + 1 different orders.
---
 region/p_regions/exact.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 730e3b3..a334372 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -566,12 +566,12 @@ def _tree(adj, attr, n_regions, solver, metric):
     # (9) in Duque et al. (2011): "The p-Regions Problem"
     for i in I:
         for j in neighbors(adj, i):
-            prob += u[i] - u[j] + (n_areas - n_regions) * x[i, j] \
-                    + (n_areas - n_regions - 2) * x[j, i] \
-                    <= n_areas - n_regions - 1
+            prob += u[i] - u[j] + (n_areas - n_regions + 1) * x[i, j] \
+                    + (n_areas - n_regions - 1) * x[j, i] \
+                    <= n_areas - n_regions
     # (10) in Duque et al. (2011): "The p-Regions Problem"
     for i in I:
-        prob += u[i] <= n_areas - n_regions
+        prob += u[i] <= n_areas - n_regions + 1
         prob += u[i] >= 1
     # (11) in Duque et al. (2011): "The p-Regions Problem"
     # already in LpVariable-definition
-- 
2.43.0


From 005025f17d6af2d88cdf0fc784f0115876d0aade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 15/43] fix: regions of the tree formulation in case of zero
 distances

The t-variables of areas in different regions may be 1 if this does not
increase the objective, so the regions have to be read off the trees.
---
 region/p_regions/exact.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index a334372..a3b388b 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -5,10 +5,12 @@ from geopandas import GeoDataFrame
 import numpy as np
 import networkx as nx
 from pulp import LpProblem, LpMinimize, LpVariable, LpInteger, lpSum
+from scipy.sparse import csr_matrix
+from scipy.sparse.csgraph import connected_components
 
 from region.csgraph_utils import neighbors
 from region.util import array_from_df_col, array_from_dict_values,\
-    array_from_graph_or_dict, array_from_region_list, check_solver, copy_func,\
+    array_from_graph_or_dict, check_solver, copy_func,\
     get_metric_function, get_solver_instance, raise_distance_metric_not_set,\
     scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, w_from_gdf
 
@@ -582,18 +584,11 @@ def _tree(adj, attr, n_regions, solver, metric):
     solver = get_solver_instance(solver)
     prob.solve(solver)
 
-    # build a list of regions like [[0, 1, 2, 5], [3, 4, 6, 7, 8]]
-    idx_copy = set(I)
-    regions = [[] for _ in range(n_regions)]
-    for i in range(n_regions):
-        area = idx_copy.pop()
-        regions[i].append(area)
-
-        for other_area in idx_copy:
-            if t[area, other_area].varValue == 1:
-                regions[i].append(other_area)
-
-        idx_copy.difference_update(regions[i])
-
-    result = array_from_region_list(regions)
+    # The regions are the trees. (In case of zero distances, t can also be 1 for
+    # areas of different regions.)
+    arcs = np.zeros((n_areas, n_areas))
+    for i in I:
+        for j in neighbors(adj, i):
+            arcs[i, j] = x[i, j].varValue
+    _, result = connected_components(csr_matrix(arcs), directed=False)
     return result
-- 
2.43.0


From 10f7472d3b8042a9396c3ded08d59e96d71a74e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 16/43] fix: PRegionsExact rejects infeasible problems

With less regions than connected components, meaningless labels were returned.
---
 region/p_regions/exact.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index a3b388b..36a4339 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -4,7 +4,8 @@ import numbers
 from geopandas import GeoDataFrame
 import numpy as np
 import networkx as nx
-from pulp import LpProblem, LpMinimize, LpVariable, LpInteger, lpSum
+from pulp import LpProblem, LpMinimize, LpVariable, LpInteger,\
+    LpStatusOptimal, lpSum
 from scipy.sparse import csr_matrix
 from scipy.sparse.csgraph import connected_components
 
@@ -297,6 +298,18 @@ class PRegionsExact:
                              " strings: 'flow', 'order', or 'tree'.")
 
 
+def _solve(prob, solver):
+    """
+    Solve the optimization problem `prob` or raise a ValueError if there is no
+    feasible clustering.
+    """
+    prob.solve(get_solver_instance(solver))
+    if prob.status != LpStatusOptimal:
+        raise ValueError("There is no feasible clustering, because the number "
+                         "of regions is less than the number of connected "
+                         "components.")
+
+
 def _flow(adj, attr, n_regions, solver, metric):
     """
     Parameters
@@ -404,8 +417,7 @@ def _flow(adj, attr, n_regions, solver, metric):
     # already in LpVariable-definition
 
     # Solve the optimization problem
-    solver = get_solver_instance(solver)
-    prob.solve(solver)
+    _solve(prob, solver)
     result = np.zeros(n_areas)
     for i in I:
         for k in K:
@@ -490,8 +502,7 @@ def _order(adj, attr, n_regions, solver, metric):
     # already in LpVariable-definition
 
     # Solve the optimization problem
-    solver = get_solver_instance(solver)
-    prob.solve(solver)
+    _solve(prob, solver)
     result = np.zeros(n_areas)
     for i in I:
         for k in K:
@@ -581,14 +592,13 @@ def _tree(adj, attr, n_regions, solver, metric):
     # already in LpVariable-definition
 
     # Solve the optimization problem
-    solver = get_solver_instance(solver)
-    prob.solve(solver)
+    _solve(prob, solver)
 
     # The regions are the trees. (In case of zero distances, t can also be 1 for
     # areas of different regions.)
     arcs = np.zeros((n_areas, n_areas))
     for i in I:
         for j in neighbors(adj, i):
-            arcs[i, j] = x[i, j].varValue
+            arcs[i, j] = round(x[i, j].varValue)
     _, result = connected_components(csr_matrix(arcs), directed=False)
     return result
-- 
2.43.0


From 4ef8bef3c43801b9ba84f1b608c9dc6a9a9c6ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 17/43] fix: MaxPRegionsExact with a single area or without any
 differences

log10(0) raised an error if the sum of all distances is zero.
---
 region/max_p_regions/exact.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index 978d7bc..e52d79f 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -89,7 +89,9 @@ class MaxPRegionsExact:
         d = {(i, j): self.metric(attr[i].reshape(1, -1), attr[j].reshape(
             1, -1))
              for i, j in II_upper_triangle}
-        h = 1 + floor(log10(sum(d[(i, j)] for i, j in II_upper_triangle)))
+        sum_of_distances = sum(d[(i, j)] for i, j in II_upper_triangle)
+        # there may be only one area or no differences between the areas
+        h = 1 + floor(log10(sum_of_distances)) if sum_of_distances > 0 else 0
 
         # Decision variables
         t = LpVariable.dicts(
-- 
2.43.0


From a5ae2ea7b49f83359862cdaf3e70c0950749ceb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 18/43] fix: MaxPRegionsExact rejects infeasible problems

Meaningless labels were returned if the threshold cannot be reached.
---
 region/max_p_regions/exact.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index e52d79f..fc70459 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -5,7 +5,8 @@ from math import floor, log10
 from geopandas import GeoDataFrame
 import numpy as np
 import networkx as nx
-from pulp import LpProblem, LpMinimize, LpVariable, LpInteger, lpSum
+from pulp import LpProblem, LpMinimize, LpVariable, LpInteger,\
+    LpStatusOptimal, lpSum
 
 from region.csgraph_utils import neighbors
 from region.util import array_from_df_col, array_from_dict_values,\
@@ -157,6 +158,9 @@ class MaxPRegionsExact:
         # Solve the optimization problem
         solver = get_solver_instance(solver)
         prob.solve(solver=solver)
+        if prob.status != LpStatusOptimal:
+            raise ValueError("There is no clustering in which every region "
+                             "reaches the threshold.")
         result = np.zeros(n_areas)
         for i in I:
             for k in K:
-- 
2.43.0


From 4514301ea893ceb7c4658760259ee478598d2a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 19/43] fix: threshold check of the recipient in
 AllowMoveAZPMaxPRegions

The check was unreachable, because the comparison was applied to the result
of any(), i.e. to a bool.
---
 region/p_regions/azp_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/region/p_regions/azp_util.py b/region/p_regions/azp_util.py
index 683da60..05e7a1a 100755
--- a/region/p_regions/azp_util.py
+++ b/region/p_regions/azp_util.py
@@ -185,7 +185,7 @@ class AllowMoveAZPMaxPRegions(AllowMoveStrategy):
     def __call__(self, moving_area, new_region, labels):
         sp_ext = self.spatially_extensive_attr
 
-        if (sp_ext[moving_area]).any() > 0:
+        if (sp_ext[moving_area] > 0).any():
             donor_region = labels[moving_area]
             donor_idx = np.where(labels == donor_region)[0]
             donor_sum = sum(sp_ext[donor_idx]) - sp_ext[moving_area]
@@ -193,7 +193,7 @@ class AllowMoveAZPMaxPRegions(AllowMoveStrategy):
             if not threshold_reached_donor:
                 return False
 
-        elif (sp_ext[moving_area]).any() < 0:
+        if (sp_ext[moving_area] < 0).any():
             recipient_idx = np.where(labels == new_region)[0]
             recipient_sum = sum(sp_ext[recipient_idx]) + sp_ext[moving_area]
             threshold_reached_recipient = (recipient_sum >=
-- 
2.43.0


From f84aedb9cb1d944f6154b94b7799f55bfe946efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 20/43] fix: let AllowMoveAZPMaxPRegions track the objective
 value

Its own attribute hid the one updated by the decorated strategy, so that the
local search stopped after the first pass, even if there were improving moves.
---
 region/p_regions/azp_util.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/region/p_regions/azp_util.py b/region/p_regions/azp_util.py
index 05e7a1a..5b10263 100755
--- a/region/p_regions/azp_util.py
+++ b/region/p_regions/azp_util.py
@@ -177,8 +177,6 @@ class AllowMoveAZPMaxPRegions(AllowMoveStrategy):
                             comp_idx):
         self.spatially_extensive_attr = self.spatially_extensive_attr_all[
             comp_idx]
-        super().start_new_component(initial_labels, attr, objective_func,
-                                    comp_idx)
         self._decorated_strategy.start_new_component(initial_labels, attr,
                                                      objective_func, comp_idx)
 
-- 
2.43.0


From 188374e6b46c60c85c69a92964d179483671a396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 21/43] fix: reproducible default local search in
 MaxPRegionsHeu

The creation of the AZP instance reseeded the random number generator with
None regardless of random_state.
---
 region/max_p_regions/heuristics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index d491871..5d2a46a 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -104,7 +104,7 @@ class MaxPRegionsHeu:
 
             # local search phase
             if self.local_search is None:
-                self.local_search = AZP()
+                self.local_search = AZP(random_state=self.random_state)
             self.local_search.allow_move_strategy = AllowMoveAZPMaxPRegions(
                 spatially_extensive_attr, threshold,
                 self.local_search.allow_move_strategy)
-- 
2.43.0


From 872e561fdc756c772214bcee132dcd494ef808e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 22/43] fix: leave the local search of MaxPRegionsHeu as it was

The threshold conditions of every partition, and of all earlier problems, were
wrapped around each other, so fitting another problem failed. Also, the local
search was repeated for every pair of partitions.
---
 region/max_p_regions/heuristics.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index 5d2a46a..4a56e18 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -100,14 +100,13 @@ class MaxPRegionsHeu:
             feasible_partitions.append(
                 self.assign_enclaves(partition, enclaves, areas_dict, attr))
 
-        for partition in feasible_partitions:
-
-            # local search phase
-            if self.local_search is None:
-                self.local_search = AZP(random_state=self.random_state)
-            self.local_search.allow_move_strategy = AllowMoveAZPMaxPRegions(
-                spatially_extensive_attr, threshold,
-                self.local_search.allow_move_strategy)
+        # local search phase
+        if self.local_search is None:
+            self.local_search = AZP(random_state=self.random_state)
+        allow_move_strategy = self.local_search.allow_move_strategy
+        self.local_search.allow_move_strategy = AllowMoveAZPMaxPRegions(
+            spatially_extensive_attr, threshold, allow_move_strategy)
+        try:
             for partition in feasible_partitions:
                 self.local_search.fit_from_scipy_sparse_matrix(
                     adj,
@@ -120,7 +119,9 @@ class MaxPRegionsHeu:
                 if obj_value < best_obj_value:
                     best_obj_value = obj_value
                     best_partition = partition
-            self.labels_ = best_partition
+        finally:
+            self.local_search.allow_move_strategy = allow_move_strategy
+        self.labels_ = best_partition
 
     fit = copy_func(fit_from_scipy_sparse_matrix)
     fit.__doc__ = "Alias for :meth:`fit_from_scipy_sparse_matrix`.\n\n" \
-- 
2.43.0


From df5d140ce9d2188435259ee15172b13d54ece01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 23/43] fix: simulated annealing as local search has to respect
 the threshold

AZPSimulatedAnnealing.fit replaced the AllowMoveAZPMaxPRegions set by
MaxPRegionsHeu, so that regions fell below the threshold.
---
 region/p_regions/azp.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 9e7d8fa..1f07113 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -10,6 +10,7 @@ from region.csgraph_utils import sub_adj_matrix, neighbors, is_connected
 from region.objective_function import ObjectiveFunctionPairwise
 from region.p_regions.azp_util import AllowMoveStrategy, \
                                             AllowMoveAZP,\
+                                            AllowMoveAZPMaxPRegions,\
                                             AllowMoveAZPSimulatedAnnealing
 from region.util import array_from_df_col, array_from_dict_values, \
     assert_feasible, boolean_assert_feasible, copy_func, count, generate_initial_sol, \
@@ -619,11 +620,18 @@ class AZPSimulatedAnnealing:
                              "than 0 and less than 1")
         if attr.ndim == 1:
             attr = attr.reshape(adj.shape[0], -1)
-        self.allow_move_strategy = AllowMoveAZPSimulatedAnnealing(
+        sa_strategy = AllowMoveAZPSimulatedAnnealing(
             init_temperature=self.init_temperature,
             sa_moves_term=self.sa_moves_term)
-        self.allow_move_strategy.register_sa_moves_term(self.sa_moves_alert)
-        self.allow_move_strategy.register_move_made(self.move_made_alert)
+        sa_strategy.register_sa_moves_term(self.sa_moves_alert)
+        sa_strategy.register_move_made(self.move_made_alert)
+        if isinstance(self.allow_move_strategy, AllowMoveAZPMaxPRegions):
+            # local search of the max-p-regions heuristic: keep the threshold
+            self.allow_move_strategy = AllowMoveAZPMaxPRegions(
+                self.allow_move_strategy.spatially_extensive_attr_all,
+                self.allow_move_strategy.threshold, sa_strategy)
+        else:
+            self.allow_move_strategy = sa_strategy
 
         self.azp = AZP(
             allow_move_strategy=self.allow_move_strategy,
-- 
2.43.0


From 843d9e8c27075bcd2cb96aa4b52100ec31f38fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 24/43] fix: independent runs of AZPSimulatedAnnealing

The solutions visited by earlier runs terminated later ones.
---
 region/p_regions/azp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 1f07113..b7cb98a 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -639,6 +639,8 @@ class AZPSimulatedAnnealing:
         # step a
         t = self.init_temperature
         nonmoving_steps = 0
+        self.visited = []
+        self.move_made = False
         # step d: repeat step b and c
         while nonmoving_steps < self.nonmoving_steps_before_stop:
             it = 0
-- 
2.43.0


From 339570b7fcb9b524e902c591c892187fc606816c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 25/43] fix: ObjectiveFunctionCenter.update for reductions
 other than the sum

E.g. the change of the maximum (or mean) over all regions cannot be calculated
from the two regions involved in the move only.
---
 region/objective_function.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/region/objective_function.py b/region/objective_function.py
index 2cb51bb..72f03b4 100755
--- a/region/objective_function.py
+++ b/region/objective_function.py
@@ -146,20 +146,12 @@ class ObjectiveFunctionCenter(ObjectiveFunction):
     def update(self, moving_area, recipient_region, labels, attr):
         donor_region = labels[moving_area]
 
-        donor_before = self._intraregional_heterogeneity(
-            labels, donor_region, attr)
-        recipient_before = self._intraregional_heterogeneity(
-            labels, recipient_region, attr)
+        obj_val_before = self(labels, attr)
 
         labels[moving_area] = recipient_region
-        donor_after = self._intraregional_heterogeneity(
-            labels, donor_region, attr)
-        recipient_after = self._intraregional_heterogeneity(
-            labels, recipient_region, attr)
+        obj_val_after = self(labels, attr)
         labels[moving_area] = donor_region
 
-        overall_before = self.reduction((donor_before, recipient_before))
-        overall_after = self.reduction((donor_after, recipient_after))
-        diff = overall_after - overall_before
+        diff = obj_val_after - obj_val_before
 
         return diff
-- 
2.43.0


From 0ab8cc142b0d595d92946936ea9883b743aff782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:21 +0000
Subject: [PATCH 26/43] fix: boolean_assert_feasible returns False for a wrong
 number of regions

Instead of returning a bool, it raised a ValueError.
---
 region/util.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/region/util.py b/region/util.py
index 339a19a..c75e218 100755
--- a/region/util.py
+++ b/region/util.py
@@ -773,10 +773,7 @@ def boolean_assert_feasible(solution, adj, n_regions=None):
     resp = []
     if n_regions is not None:
         if len(set(solution)) != n_regions:
-            raise ValueError(
-                "The number of regions is {} but "
-                "should be {}".format(len(solution), n_regions)
-            )
+            return False
 
     for region_label in set(solution):
         aux = sub_adj_matrix(adj, np.where(solution == region_label)[0])
-- 
2.43.0


From 3aa73b7e8a42fc3dfc59d5cae23ff03afee3eeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:21 +0000
Subject: [PATCH 27/43] fix: affinities in Spanning_Forest

The metric is also called with X and Y in score().
---
 region/skater/skater.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index 240edf9..cf79054 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -32,7 +32,7 @@ class Spanning_Forest(object):
         if affinity is not None:
             # invert the 0,1 affinity to 
             # to an unbounded positive dissimilarity
-            metric = lambda x: -np.log(affinity(x))
+            metric = lambda X, Y=None: -np.log(affinity(X, Y))
         else:
             metric = dissimilarity
         self.metric = metric
-- 
2.43.0


From 12c06b7e4a974e2d99d5e6d0126a46b18e4d3bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:21 +0000
Subject: [PATCH 28/43] fix: keep neighbors with identical data connected in
 Spanning_Forest

Edges without dissimilarity were dropped from the graph, so that areas were
treated as islands.
---
 region/skater/skater.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index cf79054..53448e7 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -79,7 +79,8 @@ class Spanning_Forest(object):
         super_verbose = verbose > 1
         start_W = time.time()
         dissim = W.multiply(attribute_kernel)
-        dissim.eliminate_zeros()
+        # keep the edges between identical observations (a zero is no edge)
+        dissim.data[dissim.data == 0] = np.finfo(float).tiny
         end_W = time.time() - start_W
         
         if super_verbose:
-- 
2.43.0


From c76622b0f7cc8dc375d23b507b35ec0edd56d9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 29/43] fix: leave the transform of W unchanged in
 Spanning_Forest.fit

---
 region/skater/skater.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index 53448e7..e3ebac3 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -72,8 +72,11 @@ class Spanning_Forest(object):
             data = np.ones((W.n,1))
         else:
             attribute_kernel = self.metric(data)
+        transform = W.transform
         W.transform = 'b'
-        W = W.sparse
+        sparse = W.sparse
+        W.transform = transform
+        W = sparse
         start = time.time()
 
         super_verbose = verbose > 1
-- 
2.43.0


From 920707eff7ca10fcff4e67bc2f63cd12476ba1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 30/43] fix: score of labels which are not numbered
 consecutively in Spanning_Forest

---
 region/skater/skater.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/region/skater/skater.py b/region/skater/skater.py
index e3ebac3..5809b45 100755
--- a/region/skater/skater.py
+++ b/region/skater/skater.py
@@ -173,14 +173,13 @@ class Spanning_Forest(object):
         assert data.shape[0] == len(labels), "Length of label array ({}) does not match "\
                                              "length of data ({})! ".format(labels.shape[0], data.shape[0])
         _, subtree_quorums = np.unique(labels, return_counts=True)
-        n_subtrees = len(subtree_quorums)
         if (subtree_quorums < quorum).any():
             return np.inf
         part_scores = [self.reduction(self.metric(X=data[labels==l],
                                                   Y=self.center(data[labels==l], 
                                                                 axis=0).reshape(1,-1)
                                                  )
-                                     ) for l in range(n_subtrees)]
+                                     ) for l in np.unique(labels)]
         return self.reduction(part_scores).item()
     
     def find_cut(self, MSF, data=None, quorum=-np.inf, 
-- 
2.43.0


From 6faa2acdf9d87d86be4c0fbaa70df04011fd000e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 31/43] fix: array_from_df_col for sequences other than lists

A tuple of column names was looked up as a single column.
---
 region/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/util.py b/region/util.py
index c75e218..8973a7b 100755
--- a/region/util.py
+++ b/region/util.py
@@ -332,7 +332,7 @@ def array_from_df_col(df, attr):
             raise value_error
     else:
         raise value_error
-    return np.array(df[attr])
+    return np.array(df[list(attr)])
 
 
 def w_from_gdf(gdf, contiguity):
-- 
2.43.0


From cc251e99e1c6ddbdba852d2156fad4dfea2af223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 32/43] fix: MaxPRegionsHeu rejects max_it < 1 instead of
 setting labels_ to None

---
 region/max_p_regions/heuristics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index 4a56e18..f584e31 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -73,6 +73,8 @@ class MaxPRegionsHeu:
         objective_func : :class:`region.objective_function.ObjectiveFunction`, default: ObjectiveFunctionPairwise()
             The objective function to use.
         """
+        if max_it < 1:
+            raise ValueError("The max_it argument must be at least 1.")
 
         w = weights.WSP(adj).to_W()
         areas_dict = w.neighbors
-- 
2.43.0


From 54c30c28dde4faff2569d38525f66f73b6d2d06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 33/43] fix: adjacency matrix from dict does not depend on the
 hash seed

---
 region/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/region/util.py b/region/util.py
index 8973a7b..c624cac 100755
--- a/region/util.py
+++ b/region/util.py
@@ -118,7 +118,10 @@ def scipy_sparse_matrix_from_dict(neighbors):
     for i in neighbors:
         for j in neighbors[i]:
             adj[name_to_int[i], name_to_int[j]] = 1
-    return adj.tocsr()
+    adj = adj.tocsr()
+    # do not depend on the order of iteration over sets of neighbors
+    adj.sort_indices()
+    return adj
 
 
 def scipy_sparse_matrix_from_w(w):
-- 
2.43.0


From 2d78e8d9b6ef53d05408991574a28f7fd39cf2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:30 +0000
Subject: [PATCH 34/43] fix: sub_adj_matrix honours a slice as wo_nodes

---
 region/csgraph_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/region/csgraph_utils.py b/region/csgraph_utils.py
index 364b079..acbc66f 100755
--- a/region/csgraph_utils.py
+++ b/region/csgraph_utils.py
@@ -120,6 +120,8 @@ def sub_adj_matrix(adj, nodes, wo_nodes=None):
     True
     """
     if wo_nodes is not None:
+        if isinstance(wo_nodes, slice):
+            wo_nodes = np.arange(adj.shape[0])[wo_nodes]
         mask = np.in1d(nodes, wo_nodes, invert=True)
         nodes = nodes[mask]
     nodes = nodes[:, None]
-- 
2.43.0


From 26f6dde6e1679899507c3ca3fd17849a0aacf3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:41 +0000
Subject: [PATCH 35/43] fix: node attributes missing in a graph are rejected
 instead of dropped

---
 region/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/region/util.py b/region/util.py
index c624cac..c6b30b7 100755
--- a/region/util.py
+++ b/region/util.py
@@ -198,7 +198,10 @@ def dict_from_graph_attr(graph, attr, array_values=False):
         attr = [attr]
     data_dict = {node: [] for node in graph.nodes()}
     for a in attr:
-        for node, value in nx.get_node_attributes(graph, a).items():
+        values = nx.get_node_attributes(graph, a)
+        if len(values) != len(data_dict):
+            raise ValueError("Not every node has the attribute {}.".format(a))
+        for node, value in values.items():
             data_dict[node].append(value)
     if array_values:
         for node in data_dict:
-- 
2.43.0


From ad8756d8c3c588c6cd4dc5d590c14d617803aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:28 +0000
Subject: [PATCH 36/43] fix: array_from_dict_values rejects values of different
 lengths

---
 region/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/region/util.py b/region/util.py
index c6b30b7..255be4e 100755
--- a/region/util.py
+++ b/region/util.py
@@ -66,7 +66,10 @@ def array_from_dict_values(dct, sorted_keys=None, flat_output=False, dtype=np.fl
     sorted_keys = sorted(dct) if sorted_keys is None else list(sorted_keys)
     iterable_values = isinstance(dct[sorted_keys[0]], collections.Iterable)
     if iterable_values:
-        it = itertools.chain.from_iterable(dct[key] for key in sorted_keys)
+        values = [list(dct[key]) for key in sorted_keys]
+        if not flat_output and len(set(map(len, values))) > 1:
+            raise ValueError("All values must have the same length.")
+        it = itertools.chain.from_iterable(values)
     else:
         it = (dct[key] for key in sorted_keys)
 
-- 
2.43.0


From 8575d7c551579e502de5a3f4c814c2dfdb6a99df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 37/43] fix: explicitly stored zeros in the adjacency matrix
 are no neighbours

---
 region/csgraph_utils.py            | 22 +++++++++++++++++++++-
 region/max_p_regions/heuristics.py |  3 ++-
 region/util.py                     |  5 ++++-
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/region/csgraph_utils.py b/region/csgraph_utils.py
index acbc66f..168c7a3 100755
--- a/region/csgraph_utils.py
+++ b/region/csgraph_utils.py
@@ -35,11 +35,31 @@ def is_connected(adj):
     >>> is_connected(disconnected)
     False
     """
-    n_connected_components = csg.connected_components(adj, directed=False,
+    n_connected_components = csg.connected_components(without_stored_zeros(adj),
+                                                      directed=False,
                                                       return_labels=False)
     return True if n_connected_components == 1 else False
 
 
+def without_stored_zeros(adj):
+    """
+    scipy's graph routines regard explicitly stored zeros as edges.
+
+    Parameters
+    ----------
+    adj : :class:`scipy.sparse.csr_matrix`
+        Adjacency matrix.
+
+    Returns
+    -------
+    result : :class:`scipy.sparse.csr_matrix`
+        Copy of `adj` in which only nonzero entries are stored.
+    """
+    result = csr_matrix(adj, copy=True)
+    result.eliminate_zeros()
+    return result
+
+
 def neighbors(adj, area):
     """
     Parameters
diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index f584e31..63f9c16 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -3,6 +3,7 @@ import random
 import networkx as nx
 from libpysal import weights
 
+from region.csgraph_utils import without_stored_zeros
 from region.objective_function import ObjectiveFunctionPairwise
 from region.p_regions.azp import AZP
 from region.p_regions.azp_util import AllowMoveAZPMaxPRegions
@@ -76,7 +77,7 @@ class MaxPRegionsHeu:
         if max_it < 1:
             raise ValueError("The max_it argument must be at least 1.")
 
-        w = weights.WSP(adj).to_W()
+        w = weights.WSP(without_stored_zeros(adj)).to_W()
         areas_dict = w.neighbors
         self.metric = objective_func.metric
 
diff --git a/region/util.py b/region/util.py
index 255be4e..13c7e3e 100755
--- a/region/util.py
+++ b/region/util.py
@@ -12,7 +12,8 @@ import networkx as nx
 from libpysal import weights
 import pulp
 
-from region.csgraph_utils import sub_adj_matrix, is_connected
+from region.csgraph_utils import sub_adj_matrix, is_connected, \
+    without_stored_zeros
 
 Move = collections.namedtuple("move", "area old_region new_region")
 "A named tuple representing a move from `old_region` to `new_region`."  # sphinx
@@ -620,6 +621,7 @@ def generate_initial_sol(adj, n_regions):
             "({}).".format(n_regions, n_areas)
         )
 
+    adj = without_stored_zeros(adj)
     n_comps, comp_labels = csg.connected_components(adj)
     if n_comps > n_regions:
         raise ValueError(
@@ -842,6 +844,7 @@ def separate_components(adj, labels):
     >>> (yielded[1] == np.array([-1, -1, -1, -1, -1, -1, 3, 3, 3, 3])).all()
     True
     """
+    adj = without_stored_zeros(adj)
     n_comps, comp_labels = csg.connected_components(adj)
     for comp in set(comp_labels):
         region_labels = -np.ones(len(comp_labels), dtype=np.int32)
-- 
2.43.0


From 52a5305203a5214daefe6ed3fad12d660cd61394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 38/43] fix: edges of a networkx graph with a weight of zero
 are contiguities too

---
 region/max_p_regions/exact.py      | 2 +-
 region/max_p_regions/heuristics.py | 2 +-
 region/p_regions/azp.py            | 4 ++--
 region/p_regions/exact.py          | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index fc70459..c60fc13 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -336,7 +336,7 @@ class MaxPRegionsExact:
             Refer to the corresponding argument in
             :meth:`fit_from_scipy_sparse_matrix`.
         """
-        adj = nx.to_scipy_sparse_matrix(graph)
+        adj = nx.to_scipy_sparse_matrix(graph, weight=None)
         attr = array_from_graph_or_dict(graph, attr)
         sp_ext_attr = array_from_graph_or_dict(graph, spatially_extensive_attr)
         self.fit_from_scipy_sparse_matrix(
diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index 63f9c16..8966ef0 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -294,7 +294,7 @@ class MaxPRegionsHeu:
             Refer to the corresponding argument in
             :meth:`fit_from_scipy_sparse_matrix`.
         """
-        adj = nx.to_scipy_sparse_matrix(graph)
+        adj = nx.to_scipy_sparse_matrix(graph, weight=None)
         attr = array_from_graph_or_dict(graph, attr)
         sp_ext_attr = array_from_graph_or_dict(graph, spatially_extensive_attr)
         self.fit_from_scipy_sparse_matrix(
diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index b7cb98a..6d53f86 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -187,7 +187,7 @@ class AZP:
             Refer to the corresponding argument in
             :meth:`fit_from_scipy_sparse_matrix`.
         """
-        adj = nx.to_scipy_sparse_matrix(graph)
+        adj = nx.to_scipy_sparse_matrix(graph, weight=None)
         attr = array_from_graph_or_dict(graph, attr)
         if initial_labels is not None:
             initial_labels = array_from_graph_or_dict(
@@ -572,7 +572,7 @@ class AZPSimulatedAnnealing:
             Refer to the corresponding argument in
             :meth:`fit_from_scipy_sparse_matrix`.
         """
-        adj = nx.to_scipy_sparse_matrix(graph)
+        adj = nx.to_scipy_sparse_matrix(graph, weight=None)
         attr = array_from_graph_or_dict(graph, attr)
         if initial_labels is not None:
             initial_labels = array_from_graph_or_dict(
diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index 36a4339..b9b06b4 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -251,7 +251,7 @@ class PRegionsExact:
             See the corresponding argument in
             :meth:`fit_from_scipy_sparse_matrix`.
         """
-        adj = nx.to_scipy_sparse_matrix(graph)
+        adj = nx.to_scipy_sparse_matrix(graph, weight=None)
         attr = array_from_graph_or_dict(graph, attr)
         self.fit_from_scipy_sparse_matrix(
             adj, attr, n_regions, method=method, solver=solver, metric=metric)
-- 
2.43.0


From 7b22e313965b3eb10a33cf658e135745d0243103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 39/43] fix: MaxPRegionsHeu copes with areas stored as
 neighbours of themselves

---
 region/max_p_regions/heuristics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index 8966ef0..164864e 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -393,12 +393,12 @@ class MaxPRegionsHeu:
                         neigh = self.find_best_area(region, unassigned_neighs,
                                                     attr)
                         region.add(neigh)
+                        assigned_areas.append(neigh)
                         unassigned_neighs.remove(neigh)
                         unassigned_neighs.update(set(adj[neigh].nonzero()[1]))
                         unassigned_neighs.difference_update(assigned_areas)
                         spat_ext_attr += spatially_extensive_attr[neigh]
                         unassigned_areas.remove(neigh)
-                        assigned_areas.append(neigh)
                     else:
                         enclave_areas.extend(region)
                         feasible = False
-- 
2.43.0


From 0582db9816afa6895307dce416b841dd3c284c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:17 +0000
Subject: [PATCH 40/43] fix: sums of small integer and boolean spatially
 extensive attributes neither overflow nor saturate

---
 region/max_p_regions/exact.py      |  4 +++-
 region/max_p_regions/heuristics.py |  3 ++-
 region/p_regions/azp_util.py       |  4 +++-
 region/util.py                     | 27 +++++++++++++++++++++++++++
 4 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index c60fc13..b994770 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -12,7 +12,8 @@ from region.csgraph_utils import neighbors
 from region.util import array_from_df_col, array_from_dict_values,\
     array_from_graph_or_dict, check_solver, copy_func, get_metric_function,\
     get_solver_instance, raise_distance_metric_not_set,\
-    scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, w_from_gdf
+    scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, summable, \
+    w_from_gdf
 
 
 class MaxPRegionsExact:
@@ -75,6 +76,7 @@ class MaxPRegionsExact:
         """
         self.metric = get_metric_function(metric)
         check_solver(solver)
+        spatially_extensive_attr = summable(spatially_extensive_attr)
 
         prob = LpProblem("Max-p-Regions", LpMinimize)
 
diff --git a/region/max_p_regions/heuristics.py b/region/max_p_regions/heuristics.py
index 164864e..23c8b49 100755
--- a/region/max_p_regions/heuristics.py
+++ b/region/max_p_regions/heuristics.py
@@ -11,7 +11,7 @@ from region.util import array_from_df_col, array_from_dict_values, \
     array_from_graph_or_dict, array_from_region_list, copy_func, \
     find_sublist_containing, pop_randomly_from, raise_distance_metric_not_set,\
     random_element_from,scipy_sparse_matrix_from_w, \
-    scipy_sparse_matrix_from_dict, w_from_gdf
+    scipy_sparse_matrix_from_dict, summable, w_from_gdf
 
 
 class MaxPRegionsHeu:
@@ -76,6 +76,7 @@ class MaxPRegionsHeu:
         """
         if max_it < 1:
             raise ValueError("The max_it argument must be at least 1.")
+        spatially_extensive_attr = summable(spatially_extensive_attr)
 
         w = weights.WSP(without_stored_zeros(adj)).to_W()
         areas_dict = w.neighbors
diff --git a/region/p_regions/azp_util.py b/region/p_regions/azp_util.py
index 5b10263..a2e13c6 100755
--- a/region/p_regions/azp_util.py
+++ b/region/p_regions/azp_util.py
@@ -5,6 +5,8 @@ import random
 
 import numpy as np
 
+from region.util import summable
+
 
 class AllowMoveStrategy(abc.ABC):
     def start_new_component(self, initial_labels, attr, objective_func,
@@ -169,7 +171,7 @@ class AllowMoveAZPMaxPRegions(AllowMoveStrategy):
             search.
         """
         self._decorated_strategy = decorated_strategy
-        self.spatially_extensive_attr_all = spatially_extensive_attr
+        self.spatially_extensive_attr_all = summable(spatially_extensive_attr)
         self.spatially_extensive_attr = None
         self.threshold = threshold
 
diff --git a/region/util.py b/region/util.py
index 13c7e3e..ac0eda6 100755
--- a/region/util.py
+++ b/region/util.py
@@ -345,6 +345,33 @@ def array_from_df_col(df, attr):
     return np.array(df[list(attr)])
 
 
+def summable(arr):
+    """
+    Make sure that adding up an array's elements neither overflows nor (in
+    case of booleans) saturates.
+
+    Parameters
+    ----------
+    arr : :class:`numpy.ndarray`
+        Array of numbers or booleans.
+
+    Returns
+    -------
+    result : :class:`numpy.ndarray`
+        The `arr` argument if its data type is wide enough. Otherwise a copy of
+        it with a wider data type.
+
+    Examples
+    --------
+    >>> summable(np.array([True, False])).sum()
+    1
+    >>> (summable(np.array([100], dtype="int8")) + np.int8(100)).tolist()
+    [200]
+    """
+    arr = np.asarray(arr)
+    return arr.astype(np.result_type(arr.dtype, np.int64), copy=False)
+
+
 def w_from_gdf(gdf, contiguity):
     """
     Get a `W` object from a GeoDataFrame.
-- 
2.43.0


From 2d5368f1f9e729727300a63da27901d18b3cb1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:21 +0000
Subject: [PATCH 41/43] fix: region labels which do not fit into 32 bits stay
 apart

---
 region/p_regions/azp.py | 4 ++--
 region/util.py          | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/region/p_regions/azp.py b/region/p_regions/azp.py
index 6d53f86..ccaa92a 100755
--- a/region/p_regions/azp.py
+++ b/region/p_regions/azp.py
@@ -275,7 +275,7 @@ class AZP:
 
         if initial_labels is not None:
             initial_labels = array_from_dict_values(
-                initial_labels, sorted_areas, flat_output=True, dtype=np.int32)
+                initial_labels, sorted_areas, flat_output=True, dtype=np.int64)
         self.fit_from_scipy_sparse_matrix(
             adj,
             attr_arr,
@@ -534,7 +534,7 @@ class AZPSimulatedAnnealing:
 
         if initial_labels is not None:
             initial_labels = array_from_dict_values(
-                initial_labels, sorted_areas, flat_output=True, dtype=np.int32)
+                initial_labels, sorted_areas, flat_output=True, dtype=np.int64)
         self.fit_from_scipy_sparse_matrix(
             adj,
             attr_arr,
diff --git a/region/util.py b/region/util.py
index ac0eda6..90720bf 100755
--- a/region/util.py
+++ b/region/util.py
@@ -874,7 +874,9 @@ def separate_components(adj, labels):
     adj = without_stored_zeros(adj)
     n_comps, comp_labels = csg.connected_components(adj)
     for comp in set(comp_labels):
-        region_labels = -np.ones(len(comp_labels), dtype=np.int32)
+        # keep labels which do not fit into 32 bits apart
+        region_labels = -np.ones(len(comp_labels),
+                                 dtype=np.result_type(labels, np.int32))
         in_comp = comp_labels == comp
         region_labels[in_comp] = labels[in_comp]
         yield region_labels
-- 
2.43.0


From 44785fb240b3dce8d965c7187b7e05c69dc4e2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:25 +0000
Subject: [PATCH 42/43] fix: exact solutions for attributes of very small
 magnitude

Solvers treat objective coefficients below their tolerances like zeros. So
the partition was arbitrary for dissimilarities of 1e-7 and less.
---
 region/max_p_regions/exact.py |  6 ++++--
 region/p_regions/exact.py     | 12 ++++++++----
 region/util.py                | 32 ++++++++++++++++++++++++++++++++
 3 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index b994770..7034a87 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -12,8 +12,8 @@ from region.csgraph_utils import neighbors
 from region.util import array_from_df_col, array_from_dict_values,\
     array_from_graph_or_dict, check_solver, copy_func, get_metric_function,\
     get_solver_instance, raise_distance_metric_not_set,\
-    scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, summable, \
-    w_from_gdf
+    scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, solver_scale, \
+    summable, w_from_gdf
 
 
 class MaxPRegionsExact:
@@ -92,6 +92,8 @@ class MaxPRegionsExact:
         d = {(i, j): self.metric(attr[i].reshape(1, -1), attr[j].reshape(
             1, -1))
              for i, j in II_upper_triangle}
+        scale = solver_scale(d.values())
+        d = {pair: scale * distance for pair, distance in d.items()}
         sum_of_distances = sum(d[(i, j)] for i, j in II_upper_triangle)
         # there may be only one area or no differences between the areas
         h = 1 + floor(log10(sum_of_distances)) if sum_of_distances > 0 else 0
diff --git a/region/p_regions/exact.py b/region/p_regions/exact.py
index b9b06b4..3ad93b1 100755
--- a/region/p_regions/exact.py
+++ b/region/p_regions/exact.py
@@ -13,7 +13,8 @@ from region.csgraph_utils import neighbors
 from region.util import array_from_df_col, array_from_dict_values,\
     array_from_graph_or_dict, check_solver, copy_func,\
     get_metric_function, get_solver_instance, raise_distance_metric_not_set,\
-    scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, w_from_gdf
+    scipy_sparse_matrix_from_dict, scipy_sparse_matrix_from_w, solver_scale, \
+    w_from_gdf
 
 
 class PRegionsExact:
@@ -374,7 +375,8 @@ def _flow(adj, attr, n_regions, solver, metric):
 
     # Objective function
     # (20) in Duque et al. (2011): "The p-Regions Problem"
-    prob += lpSum(d[i, j] * t[i, j] for i, j in II_upper_triangle)
+    scale = solver_scale(d.values())
+    prob += lpSum(scale * d[i, j] * t[i, j] for i, j in II_upper_triangle)
 
     # Constraints
     # (21) in Duque et al. (2011): "The p-Regions Problem"
@@ -476,7 +478,8 @@ def _order(adj, attr, n_regions, solver, metric):
 
     # Objective function
     # (13) in Duque et al. (2011): "The p-Regions Problem"
-    prob += lpSum(d[i, j] * t[i, j] for i, j in II_upper_triangle)
+    scale = solver_scale(d.values())
+    prob += lpSum(scale * d[i, j] * t[i, j] for i, j in II_upper_triangle)
 
     # Constraints
     # (14) in Duque et al. (2011): "The p-Regions Problem"
@@ -554,7 +557,8 @@ def _tree(adj, attr, n_regions, solver, metric):
 
     # Objective function
     # (3) in Duque et al. (2011): "The p-Regions Problem"
-    prob += lpSum(d[i, j] * t[i, j] for i, j in II_upper_triangle)
+    scale = solver_scale(d.values())
+    prob += lpSum(scale * d[i, j] * t[i, j] for i, j in II_upper_triangle)
 
     # Constraints
     # (4) in Duque et al. (2011): "The p-Regions Problem"
diff --git a/region/util.py b/region/util.py
index 90720bf..573e86a 100755
--- a/region/util.py
+++ b/region/util.py
@@ -372,6 +372,38 @@ def summable(arr):
     return arr.astype(np.result_type(arr.dtype, np.int64), copy=False)
 
 
+def solver_scale(values):
+    """
+    Solvers work with absolute tolerances. Hence, coefficients of very small
+    magnitude are treated like zeros and very large ones lead to numerical
+    difficulties.
+
+    Parameters
+    ----------
+    values : iterable
+        The numbers to be used as coefficients.
+
+    Returns
+    -------
+    scale : float
+        A power of two by which `values` have to be multiplied so that the
+        largest of them is between 1 and 2**30. One, if this already is the
+        case, or if all numbers are zero.
+
+    Examples
+    --------
+    >>> solver_scale([0, -3, 2])
+    1.0
+    >>> solver_scale([0.25, 0.1])
+    4.0
+    """
+    largest = max((float(np.max(np.abs(val))) for val in values), default=0)
+    if largest == 0:
+        return 1.0
+    exponent = np.frexp(largest)[1]  # 2**(exponent-1) <= largest < 2**exponent
+    return float(np.ldexp(1.0, int(np.clip(exponent, 1, 30) - exponent)))
+
+
 def w_from_gdf(gdf, contiguity):
     """
     Get a `W` object from a GeoDataFrame.
-- 
2.43.0


From 9350b187c656fe841ab6e0d0d6cbadb9f57e1633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:25 +0000
Subject: [PATCH 43/43] fix: MaxPRegionsExact with spatially extensive
 attributes of unusual magnitude

Regions below the threshold were returned for attributes of 1e-7 and less,
feasible problems were rejected for attributes of 1e12 and more.
---
 region/max_p_regions/exact.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/region/max_p_regions/exact.py b/region/max_p_regions/exact.py
index 7034a87..32d5614 100755
--- a/region/max_p_regions/exact.py
+++ b/region/max_p_regions/exact.py
@@ -77,6 +77,15 @@ class MaxPRegionsExact:
         self.metric = get_metric_function(metric)
         check_solver(solver)
         spatially_extensive_attr = summable(spatially_extensive_attr)
+        # units in which the solver's tolerances do not matter
+        columns = spatially_extensive_attr.reshape(adj.shape[0], -1)
+        scale = np.array([
+            solver_scale(np.append(column, min_sum)) for column, min_sum in
+            zip(columns.T, np.broadcast_to(threshold, columns.shape[1]))])
+        if spatially_extensive_attr.ndim == 1:
+            scale = scale[0]
+        spatially_extensive_attr = spatially_extensive_attr * scale
+        threshold = threshold * scale
 
         prob = LpProblem("Max-p-Regions", LpMinimize)
 
-- 
2.43.0


From 370d0600a58284312a2ddda9b40e72445b4c46ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 01/19] fix: count tolerated scenarios consistently when
 epsilon*N is inexact

---
 src/BigMFinder.py                  | 4 +++-
 src/instance/ChanceKnapInstance.py | 4 +++-
 src/refiner/Refiner.py             | 4 +++-
 src/solver/AdaptivePartitioner.py  | 7 +++++--
 4 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/BigMFinder.py b/src/BigMFinder.py
index 7712755..7519220 100644
--- a/src/BigMFinder.py
+++ b/src/BigMFinder.py
@@ -95,7 +95,9 @@ class BigMFinder(object):
         """Find the quantile of violations."""
         violations.sort()
         epsilon = self.chance_instance.get_epsilon()
-        q = int(math.floor(epsilon*self.nb_scenarios)+1)
+        # Small tolerance: the product may be slightly below an integer
+        TOL = 1e-7
+        q = int(math.floor(epsilon*self.nb_scenarios + TOL)+1)
         return violations[q]
 
     #   - - - Public methods - - -
diff --git a/src/instance/ChanceKnapInstance.py b/src/instance/ChanceKnapInstance.py
index 297883e..23645cc 100644
--- a/src/instance/ChanceKnapInstance.py
+++ b/src/instance/ChanceKnapInstance.py
@@ -118,7 +118,9 @@ class ChanceKnapInstance(ChanceInstance):
         # Check feasiblity using amount of infeasible scenarios
         nb_infeasible_scenarios = np.sum(is_scenario_infeasible)
         nb_scen_tolerance = self.epsilon*self.nb_scenarios
-        sol_is_feasible = nb_infeasible_scenarios <= nb_scen_tolerance
+        # Small tolerance: the product may be slightly below an integer
+        TOL = 1e-7
+        sol_is_feasible = nb_infeasible_scenarios <= nb_scen_tolerance + TOL
         return (sol_is_feasible, nb_infeasible_scenarios, nb_scen_tolerance,
                 is_scenario_infeasible, scenario_infeasibility)
 
diff --git a/src/refiner/Refiner.py b/src/refiner/Refiner.py
index 2646249..ef1c635 100644
--- a/src/refiner/Refiner.py
+++ b/src/refiner/Refiner.py
@@ -85,7 +85,9 @@ class Refiner():
         """
         epsilon = self.chance_instance.get_epsilon()
         nb_scenarios = self.chance_instance.get_nb_scenarios()
-        nb_subset_tolerance = int(math.floor(epsilon*nb_scenarios))
+        # Small tolerance: the product may be slightly below an integer
+        TOL = 1e-7
+        nb_subset_tolerance = int(math.floor(epsilon*nb_scenarios + TOL))
         # Determine how many splits need to be performed
         mu = nb_subset_tolerance + 1 - nb_infeasible_subsets
         try:
diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 4e5e452..61a9691 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -83,8 +83,11 @@ class AdaptivePartitioner(Solver):
         # Read instance data and determine minimum number of partitions
         nb_scenarios = self.chance_instance.get_nb_scenarios()
         epsilon = self.chance_instance.get_epsilon()
-        self.minimum_partition_size = math.floor(epsilon*nb_scenarios) + 1
-        self.nb_subsets = math.floor(nb_scenarios*epsilon) + 1
+        # Small tolerance: the product may be slightly below an integer
+        TOL = 1e-7
+        self.minimum_partition_size = math.floor(
+            epsilon*nb_scenarios + TOL) + 1
+        self.nb_subsets = self.minimum_partition_size
         # Generate initial partition and load it
         self.partition = self.initializer.create_first_partition(
             self.nb_subsets, partition_type=self.initial_partition_type)
-- 
2.43.0


From d065392c52013cf01f1612c96c424b5520bf4021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 02/19] fix: quantile big-M index out of range for the smallest
 partitions

---
 src/BigMFinder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BigMFinder.py b/src/BigMFinder.py
index 7519220..0e1f37a 100644
--- a/src/BigMFinder.py
+++ b/src/BigMFinder.py
@@ -98,6 +98,8 @@ class BigMFinder(object):
         # Small tolerance: the product may be slightly below an integer
         TOL = 1e-7
         q = int(math.floor(epsilon*self.nb_scenarios + TOL)+1)
+        # There is no larger violation if all but one may be violated
+        q = min(q, len(violations) - 1)
         return violations[q]
 
     #   - - - Public methods - - -
-- 
2.43.0


From 84dbc0c395370b3ebe1b6cc12d807650138dc9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 03/19] fix: drop unknown use_balancing argument from the
 experiment driver

---
 main.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/main.py b/main.py
index 4742c33..25f3089 100644
--- a/main.py
+++ b/main.py
@@ -91,8 +91,7 @@ elif METHOD == 3:
     partitionBigMFinder = BigMFinder(method.chance_instance_part)
     try:
         method.solve(partitionBigMFinder, use_merger=False,
-                     use_big_M=True, big_m_method="belotti",
-                     use_balancing=False)
+                     use_big_M=True, big_m_method="belotti")
     except KeyboardInterrupt:
         print("Reached time limit between iterations.")
 elif METHOD == 4:
@@ -107,7 +106,7 @@ elif METHOD == 4:
     try:
         method.solve(partitionBigMFinder, use_merger=True,
                      use_big_M=True, big_m_method="belotti",
-                     use_balancing=False, use_lazy=True)
+                     use_lazy=True)
     except KeyboardInterrupt:
         print("Reached time limit between iterations.")
 
-- 
2.43.0


From bd3bba8770e06a9e8cd1c994e16a44405f0601e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 04/19] fix: result codes for the random and cost options

---
 src/Informer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Informer.py b/src/Informer.py
index 57e12ef..f9a8eeb 100644
--- a/src/Informer.py
+++ b/src/Informer.py
@@ -34,6 +34,8 @@ class Informer():
                          projection_method):
         counter_dict = {
             "counter": 1,
+            "random": 2,
+            "cost": 3,
             "rescaled_max_violation": 5
             }
         method_details = [counter_dict[split_method],
-- 
2.43.0


From a11afbfb46557f317954c8b2d7eaea84fa047db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 05/19] fix: division by zero in the gap when the lower bound
 is zero

---
 src/solver/Solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/Solver.py b/src/solver/Solver.py
index a1b9c89..954e6a3 100644
--- a/src/solver/Solver.py
+++ b/src/solver/Solver.py
@@ -31,6 +31,9 @@ class Solver():
         """
         if self.vLB == -np.inf or self.vUB == np.inf:
             gap = np.inf
+        elif abs(self.vLB) <= 1e-9:
+            # The relative gap is not defined for a zero lower bound
+            gap = 0.0 if self.vUB - self.vLB <= 1e-9 else np.inf
         else:
             gap = (self.vUB - self.vLB)/self.vLB
         return gap
-- 
2.43.0


From 07c7f65424c1a1c1d6a38d95b9317d1cf5192b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 06/19] fix: result codes of the big-M methods

---
 src/solver/MilpSolver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/MilpSolver.py b/src/solver/MilpSolver.py
index ccf80ce..540fe2a 100644
--- a/src/solver/MilpSolver.py
+++ b/src/solver/MilpSolver.py
@@ -41,8 +41,8 @@ class MilpSolver(Solver):
     def _save_computation_parameters(self, use_big_m, big_m_method):
         self.use_big_M = use_big_m*1 + (not use_big_m)*0
         self.big_m_method = (1*(big_m_method == "naive")
-                             + 2*(big_m_method == "ahmed_belotti")
-                             + 3*(big_m_method == "qiu_et_al"))
+                             + 2*(big_m_method == "belotti")
+                             + 3*(big_m_method == "song"))
 
     #   - - - Public methods - - -
     def solve(self, use_big_m=True, big_m_method="naive",
-- 
2.43.0


From dd2084b6aee16940da9737bf0e3a2d48c8fbf77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 07/19] fix: write results of an extended-formulation solve
 without big-M

---
 src/solver/MilpSolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/MilpSolver.py b/src/solver/MilpSolver.py
index 540fe2a..42298e8 100644
--- a/src/solver/MilpSolver.py
+++ b/src/solver/MilpSolver.py
@@ -14,6 +14,7 @@ class MilpSolver(Solver):
         super(MilpSolver, self).__init__(chance_instance, time_limit, gap)
         self.big_m_finder = BigMFinder(self.chance_instance)
         self.upper_bounder = UpperBounder(None, None, None)
+        self.big_m_time = 0.0
 
     #   - - - Private methods - - -
     def _compute_big_m(self, big_m_method="belotti"):
-- 
2.43.0


From af4f129300f109ea8f2185db75725bcd0e019942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 08/19] fix: read result files under the name they are written
 to

---
 src/export/format_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/export/format_results.py b/src/export/format_results.py
index 52fd8a3..3eeeacf 100644
--- a/src/export/format_results.py
+++ b/src/export/format_results.py
@@ -18,7 +18,7 @@ def write_table(file_location, table):
 def read_single_experiment(input_path, i, s, j, e, use_continuous, m):
     file_location = (
           input_path + i + "-" +
-          str(s) + "-" + str(j) + "-" + str(int(e*100)) + "-" +
+          str(s) + "-" + str(j) + "-" + "{:.0f}".format(e*100) + "-" +
           str(use_continuous) + "-" + str(m) + ".csv")
     # Check that file exist, if not print missing file
     try:
-- 
2.43.0


From 324be3c35e60a5df1c2c0aeaf408b6579650c7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 09/19] fix: handle a time limit that expires before a solution
 is found

---
 src/UpperBounder.py               | 3 ++-
 src/solver/AdaptivePartitioner.py | 6 +++---
 src/solver/Solver.py              | 9 +++++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/UpperBounder.py b/src/UpperBounder.py
index 3090e76..750bb5e 100644
--- a/src/UpperBounder.py
+++ b/src/UpperBounder.py
@@ -123,5 +123,6 @@ class UpperBounder():
             verbose=True)
 
         # - Sanity check -
-        self._check_results(x, v_obj, adaptivePartitioner)
+        if x is not None:
+            self._check_results(x, v_obj, adaptivePartitioner)
         return x, z, v_obj, v_bnd
diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 61a9691..2dc582e 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -140,8 +140,8 @@ class AdaptivePartitioner(Solver):
                 self.vLB, self.zUB, self.merger.deleted_subsets,
                 bigMFinder, self._available_time(), use_big_M, use_lazy)
 
-        if self._available_time() <= 0:
-            return self.xUB, False
+        if xUB is None or self._available_time() <= 0:
+            return None, False
 
         is_feasible = self.chance_instance.check_feasibility(xUB)
 
@@ -304,7 +304,7 @@ class AdaptivePartitioner(Solver):
                                                  use_lazy=use_lazy)
             if is_feasible:
                 break
-            if self._available_time() <= 0:
+            if xUB is None or self._available_time() <= 0:
                 print('Interrupting adaptive partitioner: '
                       ' time limit reached.')
                 break
diff --git a/src/solver/Solver.py b/src/solver/Solver.py
index 954e6a3..02c3472 100644
--- a/src/solver/Solver.py
+++ b/src/solver/Solver.py
@@ -111,16 +111,21 @@ class Solver():
 
         # Manage time left for solver
         end_build = time.time()
-        real_time_limit = time_limit - (end_build - start_build)
+        real_time_limit = max(time_limit - (end_build - start_build), 0)
         print('Time left: ', real_time_limit)
         cclp_model.grb_model.setParam(GRB.Param.TimeLimit, real_time_limit)
 
         # - Solve and read results -
         cclp_model.solve(save_bounds=save_bounds, path=path,
                          elapsed_time=elapsed_time)
+        v_bnd = cclp_model.get_obj_bnd()
+        if v_bnd >= GRB.INFINITY:
+            v_bnd = np.inf
+        if cclp_model.grb_model.SolCount == 0:
+            # Time limit reached before finding a solution
+            return None, None, -np.inf, v_bnd
         x = cclp_model.get_var_x_val()
         z = cclp_model.get_var_z_val()
         v_obj = cclp_model.get_obj_val()
-        v_bnd = cclp_model.get_obj_bnd()
 
         return x, z, v_obj, v_bnd
-- 
2.43.0


From b7cddb08fbc014227ff84ed9f9999bced25b03ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 10/19] fix: write results of a solve interrupted before its
 first iteration

---
 src/solver/AdaptivePartitioner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 2dc582e..239e3f1 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -31,6 +31,8 @@ class AdaptivePartitioner(Solver):
             chance_instance, time_limit, gap)
         self.xUB = None
         self.zUB = None
+        self.iteration = 0
+        self.use_big_M = False
         self.did_merge = False
         self.MERGE_TOL = 1.00
         self.split_method = split_method
-- 
2.43.0


From 7870ec7883287dd01f8884efbf093085829036ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 11/19] fix: never highlight a method without result files

A method with missing files counted as solving zero instances, so it could
be preferred over a method that solved none but has its results.
---
 export_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export_results.py b/export_results.py
index 5ceb3d8..3f3bb2d 100644
--- a/export_results.py
+++ b/export_results.py
@@ -167,7 +167,7 @@ for use_continuous in USE_CONTINUOUS_LIST:
                     else:
                         m_time[m] = np.inf
                         m_gap[m] = np.inf
-                        nb_solved[m] = 0
+                        nb_solved[m] = -1
                         if method in MILP_METHODS:
                             new_row = ["-"]
                         else:
-- 
2.43.0


From ecb96033108daf529ba524b72a88140d1378b724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:54 +0000
Subject: [PATCH 12/19] fix: adaptive partitioner could cycle forever when
 merging subsets

---
 src/solver/AdaptivePartitioner.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 239e3f1..4fc3a62 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -35,6 +35,7 @@ class AdaptivePartitioner(Solver):
         self.use_big_M = False
         self.did_merge = False
         self.MERGE_TOL = 1.00
+        self.vUB_last_merge = np.inf
         self.split_method = split_method
         self.projection_method = projection_method
         self.initial_partition_type = initial_partition_type
@@ -231,7 +232,13 @@ class AdaptivePartitioner(Solver):
     def _merge(self, xUB, new_subset_costs, use_merger):
         self.did_merge = False
         if use_merger:
-            if max(new_subset_costs) <= self.vUB:
+            # Merging may allow points that were excluded by earlier splits.
+            # Require a better upper bound before merging again, so that the
+            # algorithm cannot cycle between points with equal objective.
+            TOL = 1e-6 * max(1, abs(self.vUB))
+            did_improve = self.vUB < self.vUB_last_merge - TOL
+            if did_improve and max(new_subset_costs) <= self.vUB:
+                self.vUB_last_merge = self.vUB
                 feasible_subsets = self.refiner.feasible_subsets
                 nb_feasible = len(feasible_subsets)
                 if nb_feasible == self.refiner.mu:
-- 
2.43.0


From 910f09869e1f80babbd90d3b36a9b66bde0661e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:35 +0000
Subject: [PATCH 13/19] fix: compute subset costs to the tolerance at which
 they are used as bounds

The quantile bound and the first upper bound are subset costs. Solved with
Gurobi's default gap they could lie below the optimum, so that the adaptive
partitioner rejected the optimal solution and ended without a solution.
---
 src/Evaluator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Evaluator.py b/src/Evaluator.py
index 07631fd..7ced699 100644
--- a/src/Evaluator.py
+++ b/src/Evaluator.py
@@ -1,5 +1,6 @@
 from src.optim.DeterModel import DeterModel
 from math import floor
+from gurobipy import GRB
 
 
 class Evaluator():
@@ -32,6 +33,8 @@ class Evaluator():
         """
         deterministicModel = DeterModel(self.chance_instance)
         deterministicModel.build(subset)
+        # Costs are used as bounds: a default gap may cut off the optimum
+        deterministicModel.grb_model.setParam(GRB.Param.MIPGap, 1e-8)
         deterministicModel.solve()
         subset_cost = deterministicModel.get_obj_val()
         subset_sol = deterministicModel.get_var_x_val()
-- 
2.43.0


From deeef1c86a3344536e149ef3defc4e91955ed9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:10 +0000
Subject: [PATCH 14/19] fix: solve again when Gurobi's solution exceeds its
 tolerances

Gurobi may return indicators that are not integral (e.g. 3e-6), or not
enforce a lazy constraint (violated by 1e-4). Scenarios counted as satisfied
are then violated, and the refiner raised an AssertionError as too many
subsets were infeasible.
---
 src/optim/CCLPModel.py | 11 +++++++++++
 src/solver/Solver.py   |  8 ++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/optim/CCLPModel.py b/src/optim/CCLPModel.py
index e6fb5c0..6628d20 100644
--- a/src/optim/CCLPModel.py
+++ b/src/optim/CCLPModel.py
@@ -61,6 +61,17 @@ class CCLPModel(OptiModel):
         """
         self.grb_model.addConstr(self.var_z[s] == 0)
 
+    def fix_z_to_rounded_values(self):
+        """
+        Fix all indicator variables to their rounded values and
+        set all constraints as non-lazy.
+        """
+        for s, z in enumerate(np.round(self.get_var_z_val())):
+            self.var_z[s].lb = z
+            self.var_z[s].ub = z
+        for constraint in self.grb_model.getConstrs():
+            constraint.Lazy = 0
+
     def build(self, use_big_M=False, use_lazy=False,
               verbose=True, z_start=None):
         """Build CCLP model: add variables, constraints and objective.
diff --git a/src/solver/Solver.py b/src/solver/Solver.py
index 02c3472..0e79fa7 100644
--- a/src/solver/Solver.py
+++ b/src/solver/Solver.py
@@ -121,6 +121,14 @@ class Solver():
         v_bnd = cclp_model.get_obj_bnd()
         if v_bnd >= GRB.INFINITY:
             v_bnd = np.inf
+        # The solution may exceed Gurobi's tolerances: indicators that are
+        # not integral, or lazy constraints, may be violated by more than
+        # the tolerance used to check the feasibility of scenarios
+        if (cclp_model.grb_model.SolCount > 0
+                and max(cclp_model.grb_model.IntVio,
+                        cclp_model.grb_model.ConstrVio) > 1e-8):
+            cclp_model.fix_z_to_rounded_values()
+            cclp_model.solve()
         if cclp_model.grb_model.SolCount == 0:
             # Time limit reached before finding a solution
             return None, None, -np.inf, v_bnd
-- 
2.43.0


From 26aa2421f378373978a176fe5b27c0886a40d121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:45 +0000
Subject: [PATCH 15/19] fix: do not reject an upper-bound solution close to the
 previous one

np.allclose tolerates relative differences of 1e-5, but a scenario violated
by more than 1e-6 may be satisfied by a solution closer than that: the solve
ended with an AssertionError although it made progress.
---
 src/UpperBounder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/UpperBounder.py b/src/UpperBounder.py
index 750bb5e..73c1461 100644
--- a/src/UpperBounder.py
+++ b/src/UpperBounder.py
@@ -23,8 +23,11 @@ class UpperBounder():
             if ((not adaptivePartitioner.did_merge)
                or (adaptivePartitioner.did_merge
                    and adaptivePartitioner.MERGE_TOL > 1.00)):
+                # Small tolerance: a scenario violated by 1e-6 may be
+                # satisfied after changing the solution very little
                 try:
-                    assert not np.allclose(x, adaptivePartitioner.xUB)
+                    assert not np.allclose(x, adaptivePartitioner.xUB,
+                                           rtol=0, atol=1e-12)
                 except AssertionError:
                     print('Error: found same solution in two successive'
                           ' iterations of the upper bound problem.')
-- 
2.43.0


From 9ccd787166e540d6066e668c6a8c21879535a1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:01 +0000
Subject: [PATCH 16/19] fix: announce the feasible solution found, not the last
 relaxed one

---
 src/solver/AdaptivePartitioner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index 4fc3a62..dbfc2db 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -344,8 +344,8 @@ class AdaptivePartitioner(Solver):
                 self.vLB = self.vUB
                 self.xLB = self.xUB
             print('\n - End - ')
-            print('Found optimal solution of CCLP: ', self.xUB)
-            print('with objective: ', self.vUB)
+            print('Found optimal solution of CCLP: ', self.xLB)
+            print('with objective: ', self.vLB)
 
     def write_all_computation_details(self, output_file_location,
                                       decimal_places=3):
-- 
2.43.0


From 0e8112542f6e61e40cff847d65f23972671ba404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:38 +0000
Subject: [PATCH 17/19] fix: keep presolve from ignoring lazy constraints

---
 src/optim/CCLPModel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/optim/CCLPModel.py b/src/optim/CCLPModel.py
index 6628d20..2799a81 100644
--- a/src/optim/CCLPModel.py
+++ b/src/optim/CCLPModel.py
@@ -95,6 +95,10 @@ class CCLPModel(OptiModel):
         self._initialize_binary_var_z()
         self._warm_start_binary_var_z(z_start=z_start)
         if use_big_M:
+            if use_lazy:
+                # Avoid presolve reductions that ignore lazy constraints:
+                # these may cut off the optimum
+                self.grb_model.setParam(GRB.Param.LazyConstraints, 1)
             self._add_all_bigM_constraints(use_lazy=use_lazy)
         else:
             self._add_all_indicator_constraints()
-- 
2.43.0


From a99ce8fb3b6deeb1da05eeaae0aedead4543f489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:31 +0000
Subject: [PATCH 18/19] fix: forget the subsets deleted by an earlier merge

When no subsets were merged in an iteration, the positions deleted by the
last merge were still applied to the warm start, which was then shifted to
other subsets.
---
 src/solver/AdaptivePartitioner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/AdaptivePartitioner.py b/src/solver/AdaptivePartitioner.py
index dbfc2db..30176f0 100644
--- a/src/solver/AdaptivePartitioner.py
+++ b/src/solver/AdaptivePartitioner.py
@@ -231,6 +231,8 @@ class AdaptivePartitioner(Solver):
 
     def _merge(self, xUB, new_subset_costs, use_merger):
         self.did_merge = False
+        # No subset is deleted unless some are merged in this iteration
+        self.merger.deleted_subsets = []
         if use_merger:
             # Merging may allow points that were excluded by earlier splits.
             # Require a better upper bound before merging again, so that the
-- 
2.43.0


From 0d22dc30222c8afde441f3db4800cbce7c74a991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:29 +0000
Subject: [PATCH 19/19] fix: write the results of the MILP solver with the
 decimals asked for

The number of decimals was used for the parameters only, the bounds and the
gap were always written with three.
---
 src/solver/MilpSolver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/MilpSolver.py b/src/solver/MilpSolver.py
index 42298e8..c0c62ba 100644
--- a/src/solver/MilpSolver.py
+++ b/src/solver/MilpSolver.py
@@ -75,7 +75,8 @@ class MilpSolver(Solver):
                                   str_decimal_place.format(self.gap*100),
                                   self.use_big_M,
                                   self.big_m_method]
-        instance_details, computation_details = self._get_computation_details()
+        instance_details, computation_details = self._get_computation_details(
+            decimal_places=decimal_places)
         written_line = (instance_details + computation_parameters
                         + [self.big_m_time] + computation_details)
         with open(output_file_location, 'w', newline='\n') as csvfile:
-- 
2.43.0


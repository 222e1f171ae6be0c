From f61ca25c168dd2fa0b8843fdf0520aa82fdda360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 01/55] fix: annual and seasonal virtual storages follow their
 declared dates

An annual renewal was skipped when no time-step started between the reset
date and the end of the year. A seasonal storage was active on the first
time-step of a run starting outside its season, and remembered the year it
was last deactivated from earlier runs.
---
 pywr/nodes.py | 76 +++++++++++++++++++--------------------------------
 1 file changed, 28 insertions(+), 48 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 6f32f0e..e7c514c 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -630,30 +630,27 @@ class AnnualVirtualStorage(VirtualStorage):
     def before(self, ts):
         super(AnnualVirtualStorage, self).before(ts)
 
-        if ts.index == 0:
-            if ts.month > self.reset_month or (
-                ts.month == self.reset_month and ts.day > self.reset_day
-            ):
-                # Assume we reset before the model started
-                self._last_reset_year = ts.year
-
-        # Reset the storage volume if necessary
-        if ts.year != self._last_reset_year:
-            # I.e. we're in a new year and ...
-            # ... we're at or past the reset month/day
-            if ts.month > self.reset_month or (
-                ts.month == self.reset_month and ts.day >= self.reset_day
-            ):
-                # Reset maximum volume depending on user preference ...
-                use_initial_volume = self.reset_to_initial_volume
-                if ts.index == 0 and isinstance(self.max_volume, Parameter):
-                    # ... if it is the first timestep and max volume is a parameter, then we can only reset to
-                    # initial volume because the max volume would not be evaluated
-                    use_initial_volume = True
+        # The year of the most recent reset date, this time-step included. This can be last year's if no time-step
+        # started between that date and the end of the year.
+        now, reset_date = (ts.month, ts.day), (self.reset_month, self.reset_day)
+        reset_year = ts.year if now >= reset_date else ts.year - 1
+
+        first = self._last_reset_year is None
+        if first and now != reset_date:
+            # Assume we reset before the model started
+            self._last_reset_year = reset_year
+
+        # Reset the storage volume if we've passed a reset date since the last reset
+        if reset_year != self._last_reset_year:
+            # Reset maximum volume depending on user preference ...
+            use_initial_volume = self.reset_to_initial_volume
+            if first and isinstance(self.max_volume, Parameter):
+                # ... if it is the first timestep and max volume is a parameter, then we can only reset to
+                # initial volume because the max volume would not be evaluated
+                use_initial_volume = True
 
-                self._reset_storage_only(use_initial_volume=use_initial_volume)
-                self._last_reset_year = ts.year
-                self.active = True
+            self._reset_storage_only(use_initial_volume=use_initial_volume)
+            self._last_reset_year = reset_year
 
 
 class SeasonalVirtualStorage(AnnualVirtualStorage):
@@ -687,36 +684,19 @@ class SeasonalVirtualStorage(AnnualVirtualStorage):
     def __init__(self, *args, **kwargs):
         self.end_day = kwargs.pop("end_day", 31)
         self.end_month = kwargs.pop("end_month", 12)
-        self._last_active_year = None
-
         super().__init__(*args, **kwargs)
 
     def before(self, ts):
         super().before(ts)
 
-        if ts.year != self._last_active_year:
-            if ts.index == 0:
-                if self._last_reset_year == ts.year:
-                    # First timestep is later in year than reset date
-                    if self.end_month < self.reset_month or (
-                        self.end_month == self.reset_month
-                        and self.end_day <= self.reset_day
-                    ):
-                        # end date is earlier in year than reset date so do not deactivate node in first year
-                        self._last_active_year = ts.year
-                else:
-                    # First timestep is earlier in year than reset date
-                    if self.end_month > self.reset_month or (
-                        self.end_month == self.reset_month
-                        and self.end_day >= self.reset_day
-                    ):
-                        # end date is later in year than reset date so node needs to be deactivated
-                        self.active = False
-            elif ts.month > self.end_month or (
-                ts.month == self.end_month and ts.day >= self.end_day
-            ):
-                self._last_active_year = ts.year
-                self.active = False
+        # The node is active from its reset date up to (but not including) its end date
+        now = (ts.month, ts.day)
+        reset_date = (self.reset_month, self.reset_day)
+        end_date = (self.end_month, self.end_day)
+        if reset_date < end_date:
+            self.active = reset_date <= now < end_date
+        else:
+            self.active = now >= reset_date or now < end_date
 
 
 class MonthlyVirtualStorage(VirtualStorage):
-- 
2.43.0


From 35a71a8a5dbb2ab0921557aff22cea2d0cb194e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 02/55] fix: aggregated node limits count a route once per
 member

The weight of a route (or edge) shared by several members of an aggregated
node was overwritten instead of summed, so min_flow and max_flow did not
apply to the flow the node reports.
---
 pywr/solvers/cython_glpk.pyx    | 7 ++++---
 pywr/solvers/cython_lpsolve.pyx | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index baa5f4a..4274b0c 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -686,8 +686,9 @@ cdef class CythonGLPKSolver(GLPKSolver):
             matrix = {}
             for some_node, w in zip(nodes, weights):
                 for n, route in enumerate(routes):
-                    if some_node in route:
-                        matrix[n] = w
+                    # An input or output part way along a route does not carry its flow
+                    if some_node is route[0] or some_node is route[-1] or (some_node in route and isinstance(some_node, BaseLink)):
+                        matrix[n] = matrix.get(n, 0.0) + w
             length = len(matrix)
             ind = <int*>malloc(1+length * sizeof(int))
             val = <double*>malloc(1+length * sizeof(double))
@@ -1517,7 +1518,7 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
                     node_cols = some_node._AbstractNode__data.out_edges
 
                 for n in node_cols:
-                    matrix[n] = w
+                    matrix[n] = matrix.get(n, 0.0) + w
 
             length = len(matrix)
             ind = <int*>malloc(1+length * sizeof(int))
diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index 2eb1e72..25b8f63 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -428,8 +428,9 @@ cdef class CythonLPSolveSolver:
             matrix = {}
             for node, w in zip(nodes, weights):
                 for n, route in enumerate(routes):
-                    if node in route:
-                        matrix[n] = w
+                    # An input or output part way along a route does not carry its flow
+                    if node is route[0] or node is route[-1] or (node in route and isinstance(node, BaseLink)):
+                        matrix[n] = matrix.get(n, 0.0) + w
 
             length = len(matrix)
             ind = <int*>malloc(length * sizeof(int))
-- 
2.43.0


From 0235a7bc0ae1328c92d9d4c256eb2fedb0c3875c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 03/55] fix: lpsolve solver applies aggregated node limits each
 timestep

The limits were read once during setup, so a Parameter limit raised a
TypeError and later changes to a limit were ignored.
---
 pywr/solvers/cython_lpsolve.pyx | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index 25b8f63..b64a9b7 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -122,6 +122,7 @@ cdef class CythonLPSolveSolver:
     cdef list storages
     cdef list virtual_storages
     cdef list aggregated
+    cdef list aggregated_min_max
     cdef public object stats
     cdef int num_routes
     cdef int num_scenarios
@@ -196,9 +197,7 @@ cdef class CythonLPSolveSolver:
                                         when using the lpsolve solver. Please use the glpk or glpk-edge solver \
                                         instead".format(some_node.name))
                     aggregated.append(some_node)
-                if some_node.min_flow > -inf or \
-                   some_node.max_flow < inf:
-                    aggregated_min_max.append(some_node)
+                aggregated_min_max.append(some_node)
 
         if len(routes) == 0:
             raise ModelStructureError("Model has no valid routes")
@@ -412,14 +411,6 @@ cdef class CythonLPSolveSolver:
         for row, agg_node in enumerate(aggregated_min_max):
             row = self.idx_row_aggregated_min_max + row
             nodes = agg_node.nodes
-            min_flow = agg_node.min_flow
-            max_flow = agg_node.max_flow
-            if min_flow is None:
-                min_flow = -inf
-            if max_flow is None:
-                max_flow = inf
-            min_flow = inf_to_dbl_max(min_flow)
-            max_flow = inf_to_dbl_max(max_flow)
 
             weights = agg_node.flow_weights
             if weights is None:
@@ -439,7 +430,6 @@ cdef class CythonLPSolveSolver:
                 ind[i] = 1+col
                 val[i] = matrix[col]
             add_constraintex(self.prob, length, val, ind, EQ, 0.0)
-            set_row_bnds(self.prob, row, min_flow, max_flow)
             free(ind)
             free(val)
 
@@ -465,6 +455,7 @@ cdef class CythonLPSolveSolver:
         self.storages = storages
         self.virtual_storages = virtual_storages
         self.aggregated = aggregated
+        self.aggregated_min_max = aggregated_min_max
 
     cpdef object solve(self, model):
         cdef int[:] scenario_combination
@@ -529,6 +520,12 @@ cdef class CythonLPSolveSolver:
             set_bounds(self.prob, self.idx_col_demands+col, min_flow, max_flow)
             set_obj(self.prob, self.idx_col_demands+col, cost)
 
+        # update aggregated node min/max flow constraints
+        for row, agg_node in enumerate(self.aggregated_min_max):
+            min_flow = inf_to_dbl_max(agg_node.get_min_flow(scenario_index))
+            max_flow = inf_to_dbl_max(agg_node.get_max_flow(scenario_index))
+            set_row_bnds(self.prob, self.idx_row_aggregated_min_max+row, min_flow, max_flow)
+
         self.stats['bounds_update_nonstorage'] += time.perf_counter() - t0
         t0 = time.perf_counter()
 
-- 
2.43.0


From 2e77ed8f80667d158e7ea5c0bda0604e338893f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 04/55] fix: lpsolve solver tolerates a storage above its
 maximum volume

As in the GLPK solvers, a storage whose volume is above a (lowered) maximum
cannot be filled further, but it is not forced to release the excess.
---
 pywr/solvers/cython_lpsolve.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index b64a9b7..49e4177 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -536,7 +536,7 @@ cdef class CythonLPSolveSolver:
             # change in storage cannot be more than the current volume or
             # result in maximum volume being exceeded
             lb = -avail_volume/timestep.days
-            ub = (max_volume - storage._volume[scenario_index.global_id]) / timestep.days
+            ub = max(max_volume - storage._volume[scenario_index.global_id], 0.0) / timestep.days
             set_row_bnds(self.prob, self.idx_row_storages+col, lb, ub)
 
         # update virtual storage node constraint
@@ -549,7 +549,7 @@ cdef class CythonLPSolveSolver:
                 # change in storage cannot be more than the current volume or
                 # result in maximum volume being exceeded
                 lb = -avail_volume/timestep.days
-                ub = (max_volume - storage._volume[scenario_index.global_id]) / timestep.days
+                ub = max(max_volume - storage._volume[scenario_index.global_id], 0.0) / timestep.days
                 set_row_bnds(self.prob, self.idx_row_virtual_storages+col, lb, ub)
 
         self.stats['bounds_update_storage'] += time.perf_counter() - t0
-- 
2.43.0


From bc75c1ba1d93e3cff2f62c4a1979c44ec89e25af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 05/55] fix: inactive virtual storage reports no flow

It kept reporting the flow of the last step in which it was active.
---
 pywr/_core.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index 3b1780c..e980c22 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -1491,6 +1491,9 @@ cdef class VirtualStorage(Storage):
                 for n, f in zip(self._nodes, self._factors):
                     self._flow[i] -= f*n._flow[i]
             Storage.after(self, ts, adjustment=adjustment)
+        else:
+            # nothing is drawn from an inactive storage
+            self._flow[:] = 0.0
 
 
 cdef class RollingVirtualStorage(VirtualStorage):
-- 
2.43.0


From c90c9a42fec75cf04f527f8d604f540b16c8613a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:12 +0000
Subject: [PATCH 06/55] fix: a reservoir loaded from JSON uses its above curve
 cost

The constant cost was applied again after the control curve parameter had
been created from it, so above_curve_cost had no effect.
---
 pywr/domains/river.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pywr/domains/river.py b/pywr/domains/river.py
index 6027a9b..3e4e8e9 100644
--- a/pywr/domains/river.py
+++ b/pywr/domains/river.py
@@ -97,6 +97,14 @@ class Reservoir(RiverDomainMixin, Storage):
             kwargs["cost"] = cost
         super(Reservoir, self).__init__(model, *args, **kwargs)
 
+    @classmethod
+    def _pre_load_parameter(cls, key, value, param_data, non_param_data):
+        if key == "cost" and isinstance(value, (float, int)):
+            # A constant cost is needed in `__init__` where it is combined with any above curve cost.
+            non_param_data[key] = value
+        else:
+            super()._pre_load_parameter(key, value, param_data, non_param_data)
+
 
 class River(RiverDomainMixin, Link):
     """A node in the river network
-- 
2.43.0


From 8542039272590b327252bc81568dd0e6ab09d1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:12 +0000
Subject: [PATCH 07/55] fix: lpsolve solver rejects a minimum flow above the
 maximum flow

Such bounds were ignored and the step returned flows that break the minimum;
the GLPK solvers fail.
---
 pywr/solvers/cython_lpsolve.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index 49e4177..4063ab0 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -510,6 +510,8 @@ cdef class CythonLPSolveSolver:
         for col, supply in enumerate(supplys):
             min_flow = inf_to_dbl_max(supply.get_min_flow(scenario_index))
             max_flow = inf_to_dbl_max(supply.get_max_flow(scenario_index))
+            if min_flow - max_flow > 1e-8:
+                raise RuntimeError('Minimum flow of node "{}" is greater than its maximum flow.'.format(supply.name))
             set_row_bnds(self.prob, self.idx_row_supplys+col, min_flow, max_flow)
 
         # update demand properties
@@ -517,6 +519,8 @@ cdef class CythonLPSolveSolver:
             min_flow = inf_to_dbl_max(demand.get_min_flow(scenario_index))
             max_flow = inf_to_dbl_max(demand.get_max_flow(scenario_index))
             cost = demand.get_cost(scenario_index)
+            if min_flow - max_flow > 1e-8:
+                raise RuntimeError('Minimum flow of node "{}" is greater than its maximum flow.'.format(demand.name))
             set_bounds(self.prob, self.idx_col_demands+col, min_flow, max_flow)
             set_obj(self.prob, self.idx_col_demands+col, cost)
 
@@ -524,6 +528,8 @@ cdef class CythonLPSolveSolver:
         for row, agg_node in enumerate(self.aggregated_min_max):
             min_flow = inf_to_dbl_max(agg_node.get_min_flow(scenario_index))
             max_flow = inf_to_dbl_max(agg_node.get_max_flow(scenario_index))
+            if min_flow - max_flow > 1e-8:
+                raise RuntimeError('Minimum flow of node "{}" is greater than its maximum flow.'.format(agg_node.name))
             set_row_bnds(self.prob, self.idx_row_aggregated_min_max+row, min_flow, max_flow)
 
         self.stats['bounds_update_nonstorage'] += time.perf_counter() - t0
-- 
2.43.0


From 96d845ff87195a774609e92468ec8053cd7684f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:54 +0000
Subject: [PATCH 08/55] fix: licences hold their amount for every timestep
 length

The annual licence took the last day of a monthly or weekly timestep for its
first, which released the remaining volume every day of December and charged
most of January to the new year before it was used; its remaining volume could
also become negative. The storage licence allowed its whole volume each day.
---
 pywr/parameters/licenses.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pywr/parameters/licenses.py b/pywr/parameters/licenses.py
index c375cc4..ebfe83e 100644
--- a/pywr/parameters/licenses.py
+++ b/pywr/parameters/licenses.py
@@ -84,7 +84,7 @@ class StorageLicense(License):
         self._remaining = np.ones(len(self.model.scenarios.combinations)) * self._amount
 
     def value(self, timestep, scenario_index):
-        return self._remaining[scenario_index.global_id]
+        return self._remaining[scenario_index.global_id] / timestep.days
 
     def after(self):
         timestep = self.model.timestepper.current
@@ -124,8 +124,10 @@ class AnnualLicense(StorageLicense):
 
     def value(self, timestep, scenario_index):
         i = scenario_index.global_id
-        day_of_year = timestep.dayofyear
-        days_in_year = 365 + int(calendar.isleap(timestep.year))
+        # NB the calendar properties of a monthly or weekly timestep are those of its last day
+        start = timestep.period.start_time
+        day_of_year = start.dayofyear
+        days_in_year = 365 + int(calendar.isleap(start.year))
         if day_of_year == days_in_year:
             return self._remaining[i]
         else:
@@ -134,17 +136,18 @@ class AnnualLicense(StorageLicense):
 
     def before(self):
         # Reset licence if year changes.
-        timestep = self.model.timestepper.current
-        if self._prev_year != timestep.year:
+        start = self.model.timestepper.current.period.start_time
+        if self._prev_year != start.year:
             self.reset()
 
             # The number of days in the year before the first timestep of that year
-            days_before_reset = timestep.dayofyear - 1
+            days_before_reset = start.dayofyear - 1
             # Adjust the license by the rate in previous timestep. This is needed for timesteps greater
             # than 1 day where the license reset is not exactly on the anniversary
             self._remaining[...] -= days_before_reset * self._node.prev_flow
+            self._remaining[self._remaining < 0] = 0.0
 
-            self._prev_year = timestep.year
+            self._prev_year = start.year
 
 
 AnnualLicense.register()
-- 
2.43.0


From 6116eb50a2c24e8f3bd372992f1742e4df35f73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:28 +0000
Subject: [PATCH 09/55] fix: a model whose setup failed is set up again

---
 pywr/_model.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 2389d23..e5dd89c 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -693,6 +693,8 @@ class Model(object):
             A CSV filename to write a dataframe of profile checkpoints. Has no effect if profile is not True.
         """
         logger.info('Setting up model ...')
+        # Until the setup is complete the model needs setting up (again).
+        self.dirty = True
         self.timestepper.setup()
         self.scenarios.setup()
         length_changed = self.timestepper.reset()
-- 
2.43.0


From 9f0de36dbc6b4ac8a53a53d621afbe789547b2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:05 +0000
Subject: [PATCH 10/55] fix: annual recorders count a week across the year end
 in the right year

---
 pywr/_core.pyx                |  8 ++++----
 pywr/recorders/_recorders.pyx | 16 ++++++++++------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index e980c22..e2de91b 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -309,9 +309,9 @@ cdef class Timestep:
         return "<Timestep date=\"{}\">".format(self.period.strftime("%Y-%m-%d"))
 
     cpdef double days_in_current_year(self):
-        """Returns the number of days of the current timestep that fall in the current year"""
+        """Returns the number of days of the current timestep that fall in the year in which it starts"""
         cdef double year_end, ts_start
-        if self.year != self.end_year:
+        if self.period.start_time.year != self.end_year:
             # end time of period is in the next year
             year_end = pd.Timestamp(f"{self.end_year}-01-01").value
             ts_start = self.period.start_time.value
@@ -319,9 +319,9 @@ cdef class Timestep:
         return self.days
 
     cpdef double days_in_next_year(self):
-        """Returns the number of days of the current timestep that fall in the next year"""
+        """Returns the number of days of the current timestep that fall in the year after the one in which it starts"""
         cdef double year_end, ts_end
-        if self.year != self.end_year:
+        if self.period.start_time.year != self.end_year:
             year_end = pd.Timestamp(f"{self.end_year}-01-01").value
             ts_end = self.period.end_time.value
             return (ts_end - year_end) / 8.64e+13
diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 62b529e..39c522f 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1966,7 +1966,7 @@ cdef class AnnualCountIndexThresholdRecorder(Recorder):
 
     cpdef setup(self):
         super(AnnualCountIndexThresholdRecorder, self).setup()
-        self._num_years = self.model.timestepper.end.year - self.model.timestepper.start.year + 1
+        self._num_years = self.model.timestepper.end_period.year - self.model.timestepper.start.year + 1
         self._ncomb = len(self.model.scenarios.combinations)
         self._data = np.empty([self._num_years, self._ncomb])
         self._data_this_year = np.zeros([len(self.parameters), self._ncomb])
@@ -2023,6 +2023,9 @@ cdef class AnnualCountIndexThresholdRecorder(Recorder):
     cpdef finish(self):
         cdef int idx = self._current_year - self._start_year
         cdef Py_ssize_t i
+        if self._current_year == -1:
+            # No timestep has been run
+            return
         for i in range(self._ncomb):
             self._data[idx, i] = np.sum(self._data_this_year[:, i])
 
@@ -2039,7 +2042,7 @@ cdef class AnnualCountIndexThresholdRecorder(Recorder):
         allows for easy combination with multiple recorder's DataFrames.
         """
         start_year = self.model.timestepper.start.year
-        end_year = self.model.timestepper.end.year
+        end_year = self.model.timestepper.end_period.year
         index = pd.period_range(f'{start_year}-01-01', f'{end_year}-01-01', freq='Y')
         sc_index = self.model.scenarios.multiindex
         return pd.DataFrame(data=np.array(self._data, dtype=int), index=index, columns=sc_index)
@@ -2096,19 +2099,20 @@ cdef class AnnualTotalFlowRecorder(Recorder):
 
     cpdef setup(self):
         super(AnnualTotalFlowRecorder, self).setup()
-        self._num_years = self.model.timestepper.end.year - self.model.timestepper.start.year + 1
+        start_year = self.model.timestepper.start_period.start_time.year
+        self._num_years = self.model.timestepper.end.year - start_year + 1
         self._ncomb = len(self.model.scenarios.combinations)
         self._data = np.empty([self._num_years, self._ncomb])
 
     cpdef reset(self):
         self._data[...] = 0
         self._current_year = -1
-        self._start_year = self.model.timestepper.start.year
+        self._start_year = self.model.timestepper.start_period.start_time.year
 
     cpdef after(self):
         cdef int i, j
         cdef Timestep ts = self.model.timestepper.current
-        cdef int idx = ts.year - self._start_year
+        cdef int idx = ts.period.start_time.year - self._start_year
         cdef AbstractNode node
         cdef double days_in_current_year = ts.days_in_current_year()
         cdef double days_in_next_year = ts.days_in_next_year()
@@ -2137,7 +2141,7 @@ cdef class AnnualTotalFlowRecorder(Recorder):
         as the first level and scenario combination names as the second level. This
         allows for easy combination with multiple recorder's DataFrames.
         """
-        start_year = self.model.timestepper.start.year
+        start_year = self.model.timestepper.start_period.start_time.year
         end_year = self.model.timestepper.end.year
         index = pd.period_range(f'{start_year}-01-01', f'{end_year}-01-01', freq='Y')
         sc_index = self.model.scenarios.multiindex
-- 
2.43.0


From 0de228bc5230b3938206cf12878b156fb558fe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:05 +0000
Subject: [PATCH 11/55] fix: mean recorders divide by the timesteps they
 recorded

---
 pywr/recorders/_recorders.pxd |  4 +++-
 pywr/recorders/_recorders.pyx | 34 ++++++++++++++++++++++++++++------
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/pywr/recorders/_recorders.pxd b/pywr/recorders/_recorders.pxd
index c456d2c..ca67593 100644
--- a/pywr/recorders/_recorders.pxd
+++ b/pywr/recorders/_recorders.pxd
@@ -123,9 +123,10 @@ cdef class TotalFlowNodeRecorder(BaseConstantNodeRecorder):
 
 cdef class MeanFlowNodeRecorder(BaseConstantNodeRecorder):
     cdef public double factor
+    cdef int _nsteps
 
 cdef class DeficitFrequencyNodeRecorder(BaseConstantNodeRecorder):
-    pass
+    cdef int _nsteps
 
 cdef class BaseConstantStorageRecorder(StorageRecorder):
     cdef double[:] _values
@@ -185,3 +186,4 @@ cdef class TotalParameterRecorder(BaseConstantParameterRecorder):
 
 cdef class MeanParameterRecorder(BaseConstantParameterRecorder):
     cdef public double factor
+    cdef int _nsteps
diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 39c522f..ff17857 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1786,25 +1786,36 @@ cdef class MeanFlowNodeRecorder(BaseConstantNodeRecorder):
         self.factor = kwargs.pop('factor', 1.0)
         super(MeanFlowNodeRecorder, self).__init__(*args, **kwargs)
 
+    cpdef reset(self):
+        super(MeanFlowNodeRecorder, self).reset()
+        self._nsteps = 0
+
     cpdef after(self):
         cdef ScenarioIndex scenario_index
         cdef int i
         for scenario_index in self.model.scenarios.combinations:
             i = scenario_index.global_id
             self._values[i] += self._node._flow[i]*self.factor
+        self._nsteps += 1
         return 0
 
     cpdef finish(self):
         cdef int i
-        cdef int nt = self.model.timestepper.current.index
+        if self._nsteps == 0:
+            # No timestep has been recorded
+            return
         for i in range(self._values.shape[0]):
-            self._values[i] /= nt
+            self._values[i] /= self._nsteps
 MeanFlowNodeRecorder.register()
 
 
 cdef class DeficitFrequencyNodeRecorder(BaseConstantNodeRecorder):
     """Recorder to return the frequency of timesteps with a failure to meet max_flow.
     """
+    cpdef reset(self):
+        super(DeficitFrequencyNodeRecorder, self).reset()
+        self._nsteps = 0
+
     cpdef after(self):
         cdef double max_flow
         cdef ScenarioIndex scenario_index
@@ -1814,12 +1825,16 @@ cdef class DeficitFrequencyNodeRecorder(BaseConstantNodeRecorder):
             max_flow = node.get_max_flow(scenario_index)
             if abs(node._flow[scenario_index.global_id] - max_flow) > 1e-6:
                 self._values[scenario_index.global_id] += 1.0
+        self._nsteps += 1
+        return 0
 
     cpdef finish(self):
         cdef int i
-        cdef int nt = self.model.timestepper.current.index
+        if self._nsteps == 0:
+            # No timestep has been recorded
+            return
         for i in range(self._values.shape[0]):
-            self._values[i] /= nt
+            self._values[i] /= self._nsteps
 DeficitFrequencyNodeRecorder.register()
 
 cdef class BaseConstantStorageRecorder(StorageRecorder):
@@ -2339,6 +2354,10 @@ cdef class MeanParameterRecorder(BaseConstantParameterRecorder):
         self.factor = kwargs.pop('factor', 1.0)
         super(MeanParameterRecorder, self).__init__(*args, **kwargs)
 
+    cpdef reset(self):
+        super(MeanParameterRecorder, self).reset()
+        self._nsteps = 0
+
     cpdef after(self):
         cdef ScenarioIndex scenario_index
         cdef int i
@@ -2349,11 +2368,14 @@ cdef class MeanParameterRecorder(BaseConstantParameterRecorder):
         for scenario_index in self.model.scenarios.combinations:
             i = scenario_index.global_id
             self._values[i] += values[i]*factor
+        self._nsteps += 1
         return 0
 
     cpdef finish(self):
         cdef int i
-        cdef int nt = self.model.timestepper.current.index
+        if self._nsteps == 0:
+            # No timestep has been recorded
+            return
         for i in range(self._values.shape[0]):
-            self._values[i] /= nt
+            self._values[i] /= self._nsteps
 MeanParameterRecorder.register()
-- 
2.43.0


From c85454672eab571e9cdc1aa2a8b3a16e2bc48f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:22 +0000
Subject: [PATCH 12/55] fix: a failed run reports its own error and finishes
 every component

---
 pywr/_model.pyx | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index e5dd89c..c526f2b 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -650,8 +650,14 @@ class Model(object):
                 self.timestep = timestep
                 ret = self._step()
             t2 = time.time()
-        finally:
-            self.finish()
+        except BaseException:
+            # The error that stopped the run is the one to report
+            try:
+                self.finish()
+            except Exception:
+                logger.exception("An error occurred finishing a model run that had failed")
+            raise
+        self.finish()
         t3 = time.time()
 
         if timestep is None:
@@ -862,16 +868,23 @@ class Model(object):
         self._time_after += time.time() - t0
 
     def finish(self):
+        error = None
         for node in self.graph.nodes():
-            node.finish()
+            try:
+                node.finish()
+            except BaseException as err:
+                logger.critical("An error occurred finishing node %s", node.name)
+                error = error or err
         components = self.flatten_component_tree(rebuild=False)
         for component in components:
             try:
                 component.finish()
-            except Exception as err:
-                # reraise the exception after logging some info about source of error
+            except BaseException as err:
+                # log some info about source of error and continue with the other components
                 logger.critical("An error occurred finishing component %s", component.name)
-                raise
+                error = error or err
+        if error is not None:
+            raise error
 
     def to_dataframe(self):
         """ Return a DataFrame from any Recorders with a `to_dataframe` attribute
-- 
2.43.0


From 352a18314a3a4d4b8f3a9426c3cb88464ed08463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:34 +0000
Subject: [PATCH 13/55] fix: annual licence is not exceeded by the step that
 crosses the year end

---
 pywr/parameters/licenses.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pywr/parameters/licenses.py b/pywr/parameters/licenses.py
index ebfe83e..64c53bf 100644
--- a/pywr/parameters/licenses.py
+++ b/pywr/parameters/licenses.py
@@ -128,11 +128,12 @@ class AnnualLicense(StorageLicense):
         start = timestep.period.start_time
         day_of_year = start.dayofyear
         days_in_year = 365 + int(calendar.isleap(start.year))
-        if day_of_year == days_in_year:
-            return self._remaining[i]
-        else:
-            days_remaining = days_in_year - (day_of_year - 1)
-            return self._remaining[i] / days_remaining
+        days_remaining = days_in_year - (day_of_year - 1)
+        value = self._remaining[i] / days_remaining
+        if timestep.days > days_remaining:
+            # The rest of the timestep is taken from the licence of the next year
+            value = min(value, self._amount / (timestep.days - days_remaining))
+        return value
 
     def before(self):
         # Reset licence if year changes.
-- 
2.43.0


From ae13c5d093ced0b141a34e97206b84d46986cdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 14/55] fix: previous flow of aggregated, break, delay and loss
 nodes is that of the previous step

---
 pywr/_core.pyx | 8 ++++++--
 pywr/nodes.py  | 9 ++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index e2de91b..6fef530 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -760,7 +760,6 @@ cdef class AggregatedNode(AbstractNode):
             self.model.dirty = True
 
     cpdef after(self, Timestep ts):
-        AbstractNode.after(self, ts)
         cdef int i, j
         cdef Node n
 
@@ -774,6 +773,8 @@ cdef class AggregatedNode(AbstractNode):
             self._flow[i] = 0.0
             for j, n in enumerate(self._nodes):
                 self._flow[i] += n._flow[i]*weights[j]
+        # Make sure save is done after setting aggregated flow
+        AbstractNode.after(self, ts)
 
     property factors:
         def __get__(self):
@@ -1386,6 +1387,7 @@ cdef class AggregatedStorage(AbstractStorage):
         cdef double mxv = 0.0
         cdef ScenarioIndex si
 
+        AbstractStorage.reset(self)
         for i, si in enumerate(self.model.scenarios.combinations):
             mxv = 0.0
             for s in self._storage_nodes:
@@ -1399,7 +1401,6 @@ cdef class AggregatedStorage(AbstractStorage):
                 self._current_pc[i] = np.nan
 
     cpdef after(self, Timestep ts):
-        AbstractStorage.after(self, ts)
         cdef int i
         cdef Storage s
         cdef double mxv
@@ -1425,6 +1426,8 @@ cdef class AggregatedStorage(AbstractStorage):
                 self._current_pc[i] = self._volume[i] / mxv
             except ZeroDivisionError:
                 self._current_pc[i] = np.nan
+        # Make sure save is done after setting aggregated flow
+        AbstractStorage.after(self, ts)
 
     cpdef double[:] get_all_min_volume(self, double[:] out=None):
         cdef int i
@@ -1494,6 +1497,7 @@ cdef class VirtualStorage(Storage):
         else:
             # nothing is drawn from an inactive storage
             self._flow[:] = 0.0
+            AbstractStorage.after(self, ts)
 
 
 cdef class RollingVirtualStorage(VirtualStorage):
diff --git a/pywr/nodes.py b/pywr/nodes.py
index e7c514c..0746f36 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1146,9 +1146,10 @@ class BreakLink(Node):
             yield self.storage.outputs[0]
 
     def after(self, timestep):
-        super(BreakLink, self).after(timestep)
         # update flow on transfer node to flow via link node
         self.commit_all(self.link.flow)
+        # Make sure save is done after setting the flow
+        super(BreakLink, self).after(timestep)
 
 
 class DelayNode(Node):
@@ -1214,9 +1215,10 @@ class DelayNode(Node):
             yield self.output
 
     def after(self, timestep):
-        super().after(timestep)
         # delayed flow is saved to the DelayNode
         self.commit_all(self.input.flow)
+        # Make sure save is done after setting the flow
+        super().after(timestep)
 
 
 class LossLink(Node):
@@ -1339,9 +1341,10 @@ class LossLink(Node):
             yield self.gross
 
     def after(self, timestep):
-        super().after(timestep)
         # Net flow is saved to the node.
         self.commit_all(self.net.flow)
+        # Make sure save is done after setting the flow
+        super().after(timestep)
 
 
 class ShadowStorage(Loadable, Drawable, _core.ShadowStorage, metaclass=NodeMeta):
-- 
2.43.0


From 4085de554281c925d58702eb352f6c77afed0cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 15/55] fix: polynomial parameter uses the previous flow of its
 node

---
 pywr/parameters/_polynomial.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/parameters/_polynomial.pyx b/pywr/parameters/_polynomial.pyx
index 6d1e631..d06b41e 100644
--- a/pywr/parameters/_polynomial.pyx
+++ b/pywr/parameters/_polynomial.pyx
@@ -71,7 +71,7 @@ cdef class Polynomial1DParameter(Parameter):
             else:
                 x = self._storage_node._volume[scenario_index.global_id]
         elif self._other_node is not None:
-            x = self._other_node._flow[scenario_index.global_id]
+            x = self._other_node._prev_flow[scenario_index.global_id]
         else:
             x = self._node._flow[scenario_index.global_id]
 
-- 
2.43.0


From fa4e5c38d1e5b9fd5e144a27fc93d2ad0befb4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 16/55] fix: multiple threshold index parameters depend on
 their thresholds

---
 pywr/parameters/_thresholds.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_thresholds.pyx b/pywr/parameters/_thresholds.pyx
index 5a98a9f..cfec7a9 100644
--- a/pywr/parameters/_thresholds.pyx
+++ b/pywr/parameters/_thresholds.pyx
@@ -207,7 +207,7 @@ cdef class MultipleThresholdIndexParameter(IndexParameter):
             self.thresholds.append(threshold)
 
         for threshold in self.thresholds:
-            self.children.add(thresholds)
+            self.children.add(threshold)
 
     cpdef int index(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
         """Returns the index of the first threshold the node flow is above.
@@ -260,7 +260,7 @@ cdef class MultipleThresholdParameterIndexParameter(IndexParameter):
             self.thresholds.append(threshold)
 
         for threshold in self.thresholds:
-            self.children.add(thresholds)
+            self.children.add(threshold)
 
     cpdef int index(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
         """Returns the index of the first threshold the parameter value is above.
-- 
2.43.0


From 15b622a26909142e6e6752ee91712fb7a6e2f3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 17/55] fix: thresholds and rolling means of past flows start
 from their initial value after a restart

---
 pywr/parameters/_parameters.pxd |  1 +
 pywr/parameters/_parameters.pyx |  8 +++++---
 pywr/parameters/_thresholds.pxd |  1 +
 pywr/parameters/_thresholds.pyx | 10 +++++++---
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pywr/parameters/_parameters.pxd b/pywr/parameters/_parameters.pxd
index 6050684..34a988b 100644
--- a/pywr/parameters/_parameters.pxd
+++ b/pywr/parameters/_parameters.pxd
@@ -231,6 +231,7 @@ cdef class DiscountFactorParameter(Parameter):
 
 cdef class RollingMeanFlowNodeParameter(Parameter):
     cdef int position
+    cdef int _num_flows
     cdef public int timesteps
     cdef public int days
     cdef public double initial_flow
diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 39084ba..2a89b64 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -2238,18 +2238,19 @@ cdef class RollingMeanFlowNodeParameter(Parameter):
     cpdef reset(self):
         super(RollingMeanFlowNodeParameter, self).reset()
         self.position = 0
+        self._num_flows = 0
         self._memory[:] = 0.0
 
     cpdef double value(self, Timestep ts, ScenarioIndex scenario_index) except? -1:
 
         cdef int n
         # No data in memory yet
-        if ts.index == 0:
+        if self._num_flows == 0:
             return self.initial_flow
 
         # Calculate the mean flow from the memory
-        if ts.index <= self.timesteps:
-            n = ts.index
+        if self._num_flows <= self.timesteps:
+            n = self._num_flows
         else:
             n = self.timesteps
         return np.mean(self._memory[scenario_index.global_id, :n])
@@ -2259,6 +2260,7 @@ cdef class RollingMeanFlowNodeParameter(Parameter):
         # save today's flow (NB - this won't change the parameter until tomorrow)
         for i in range(0, self._memory.shape[0]):
             self._memory[i, self.position] = self.node._flow[i]
+        self._num_flows += 1
 
         # prepare for the next timestep
         self.position += 1
diff --git a/pywr/parameters/_thresholds.pxd b/pywr/parameters/_thresholds.pxd
index d87dfaf..3a2a440 100644
--- a/pywr/parameters/_thresholds.pxd
+++ b/pywr/parameters/_thresholds.pxd
@@ -12,6 +12,7 @@ cdef class AbstractThresholdParameter(IndexParameter):
     cdef int predicate
     cdef public bint ratchet
     cdef uint8[:] _triggered
+    cdef bint _initial_timestep
     cpdef double _value_to_compare(self, Timestep timestep, ScenarioIndex scenario_index) except? -1
 
 cdef class StorageThresholdParameter(AbstractThresholdParameter):
diff --git a/pywr/parameters/_thresholds.pyx b/pywr/parameters/_thresholds.pyx
index cfec7a9..03bafe4 100644
--- a/pywr/parameters/_thresholds.pyx
+++ b/pywr/parameters/_thresholds.pyx
@@ -67,6 +67,11 @@ cdef class AbstractThresholdParameter(IndexParameter):
     cpdef reset(self):
         super(AbstractThresholdParameter, self).reset()
         self._triggered[...] = 0
+        self._initial_timestep = True
+
+    cpdef after(self):
+        super(AbstractThresholdParameter, self).after()
+        self._initial_timestep = False
 
     cpdef double _value_to_compare(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
         raise NotImplementedError()
@@ -172,7 +177,7 @@ cdef class NodeThresholdParameter(AbstractThresholdParameter):
         return self.node._prev_flow[scenario_index.global_id]
 
     cpdef int index(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
-        if timestep.index == 0:
+        if self._initial_timestep:
             # previous flow on initial timestep is undefined
             return 0
         return AbstractThresholdParameter.index(self, timestep, scenario_index)
@@ -338,9 +343,8 @@ cdef class RecorderThresholdParameter(AbstractThresholdParameter):
 
     cpdef int index(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
         """Returns 1 if the predicate evalutes True, else 0"""
-        cdef int index = timestep.index
         cdef int ind
-        if index == 0:
+        if self._initial_timestep:
             # on the first day the recorder doesn't have a value so we have no
             # threshold to compare to
             ind = self.initial_value
-- 
2.43.0


From e0f9edd3e9c2ae59b14a45e1e7140664360d556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 18/55] fix: resetting a model resets the nodes inside compound
 nodes

---
 pywr/_model.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index c526f2b..350fc33 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -792,6 +792,11 @@ class Model(object):
                 logger.critical("An error occurred calling reset on node %s", node.name)
                 raise
 
+        # The nodes inside compound nodes
+        for node in self.graph.nodes():
+            if node.parent is not None:
+                node.reset()
+
         components = self.flatten_component_tree(rebuild=False)
 
         # Reset the resource counters in the profiler after the component tree is re-computed.
-- 
2.43.0


From 0cf46e0455006162c47e63b5785dc7bd1c50bfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 19/55] fix: initial proportion of an aggregated storage does
 not depend on earlier runs

---
 pywr/_core.pxd |  1 +
 pywr/_core.pyx | 20 ++++++++++++++++----
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/pywr/_core.pxd b/pywr/_core.pxd
index 0ccb43a..d2df616 100644
--- a/pywr/_core.pxd
+++ b/pywr/_core.pxd
@@ -133,6 +133,7 @@ cdef class Storage(AbstractStorage):
     cdef Parameter _area_param
     cpdef double get_initial_volume(self) except? -1
     cpdef double get_initial_pc(self) except? -1
+    cpdef double get_initial_max_volume(self) except? -1
     cpdef _reset_storage_only(self, bint use_initial_volume=*)
     cpdef double get_min_volume(self, ScenarioIndex scenario_index) except? -1
     cpdef double[:] get_all_min_volume(self, double[:] out=*)
diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index 6fef530..4652313 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -1182,6 +1182,17 @@ cdef class Storage(AbstractStorage):
                 raise RuntimeError('Initial volume must be set as either a percentage or absolute volume.')
         return initial_pc
 
+    cpdef double get_initial_max_volume(self) except? -1:
+        """Returns the maximum volume at the beginning of a run, before any parameter is evaluated. """
+        if self._max_volume_param is None:
+            return self._max_volume
+        if self._max_volume_param.is_constant:
+            return self._max_volume_param.get_constant_value()
+        # The one implied by the initial volume and proportion
+        if self._initial_volume_pc > 0.0:
+            return self._initial_volume / self._initial_volume_pc
+        return 0.0
+
     property min_volume:
         def __get__(self):
             if self._min_volume_param is None:
@@ -1385,14 +1396,15 @@ cdef class AggregatedStorage(AbstractStorage):
     cpdef reset(self):
         cdef int i
         cdef double mxv = 0.0
+        cdef Storage s
         cdef ScenarioIndex si
 
         AbstractStorage.reset(self)
-        for i, si in enumerate(self.model.scenarios.combinations):
-            mxv = 0.0
-            for s in self._storage_nodes:
-                mxv += s.get_max_volume(si)
+        # The parameters have not been evaluated yet
+        for s in self._storage_nodes:
+            mxv += s.get_initial_max_volume()
 
+        for i, si in enumerate(self.model.scenarios.combinations):
             self._volume[i] = self.initial_volume
             # Ensure variable maximum volume is taken in to account
             try:
-- 
2.43.0


From bfb97599326bb74adffcf33c56a99fdd535a018e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 20/55] fix: aggregating a 2D array with ignore_nan keeps its
 shape

---
 pywr/recorders/_recorders.pyx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index ff17857..b3edbe4 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -146,7 +146,13 @@ cdef class Aggregator:
         cdef Py_ssize_t i
 
         if ignore_nan:
-            values = np.array(values)[~np.isnan(values)]
+            # Each vector along the axis may have a different number of NaNs
+            if axis == 1:
+                values = values.T
+            out = np.empty(values.shape[1])
+            for i in range(values.shape[1]):
+                out[i] = self.aggregate_1d(values[:, i], ignore_nan=True)
+            return out
 
         if self._func == AggFuncs.PRODUCT:
             return np.prod(values, axis=axis)
-- 
2.43.0


From ffbe28a6a8c5103d40b54b0cdfccc11f554c6925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 21/55] fix: flow duration curve deviation recorder loads its
 scenario

---
 pywr/recorders/_recorders.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index b3edbe4..22f1c97 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -987,10 +987,12 @@ cdef class FlowDurationCurveDeviationRecorder(FlowDurationCurveRecorder):
         # because the scenarios might change after the Recorder is created.
         if self.scenario is not None:
             if self._lower_target_fdc is not None:
-                if self._lower_target_fdc.shape[1] != self.scenario.size:
+                # a single target applies to all scenarios
+                if self._lower_target_fdc.shape[1] > 1 and self._lower_target_fdc.shape[1] != self.scenario.size:
                     raise ValueError('The number of lower target FDCs does not match the size ({}) of scenario "{}"'.format(self.scenario.size, self.scenario.name))
             if self._upper_target_fdc is not None:
-                if self._upper_target_fdc.shape[1] != self.scenario.size:
+                # a single target applies to all scenarios
+                if self._upper_target_fdc.shape[1] > 1 and self._upper_target_fdc.shape[1] != self.scenario.size:
                     raise ValueError('The number of upper target FDCs does not match the size ({}) of scenario "{}"'.format(self.scenario.size, self.scenario.name))
         else:
             if self._lower_target_fdc is not None:
@@ -1104,7 +1106,7 @@ cdef class FlowDurationCurveDeviationRecorder(FlowDurationCurveRecorder):
             lower_target_fdc.update({"indexes": percentiles})
             lower_target_fdc = load_parameter_values(model, lower_target_fdc)
         return cls(model, node, percentiles, lower_target_fdc=lower_target_fdc, upper_target_fdc=upper_target_fdc,
-                   **data)
+                   scenario=scenario, **data)
 
 FlowDurationCurveDeviationRecorder.register()
 
-- 
2.43.0


From 23f5259dcfb0f0750347298892f92136c8766f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 22/55] fix: rolling recorders only aggregate steps of the
 current run

---
 pywr/recorders/_recorders.pxd |  2 ++
 pywr/recorders/_recorders.pyx | 22 +++++++++++++---------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/pywr/recorders/_recorders.pxd b/pywr/recorders/_recorders.pxd
index ca67593..f340f74 100644
--- a/pywr/recorders/_recorders.pxd
+++ b/pywr/recorders/_recorders.pxd
@@ -102,11 +102,13 @@ cdef class RollingWindowParameterRecorder(ParameterRecorder):
     cdef public Aggregator _temporal_aggregator
     cdef public int window
     cdef int position
+    cdef int _count
     cdef double[:, :] _memory
     cdef double[:, :] _data
 
 cdef class RollingMeanFlowNodeRecorder(NodeRecorder):
     cdef int position
+    cdef int _count
     cdef public int timesteps
     cdef public int days
     cdef double[:, :] _memory
diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 22f1c97..ba92505 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1588,10 +1588,12 @@ cdef class RollingWindowParameterRecorder(ParameterRecorder):
         self._data = np.zeros((nts, ncomb,), np.float64)
         self._memory = np.empty((nts, ncomb,), np.float64)
         self.position = 0
+        self._count = 0
 
     cpdef reset(self):
         self._data[...] = 0
         self.position = 0
+        self._count = 0
 
     cpdef after(self):
         cdef int i, n
@@ -1602,10 +1604,10 @@ cdef class RollingWindowParameterRecorder(ParameterRecorder):
         for i, scenario_index in enumerate(self.model.scenarios.combinations):
             self._memory[self.position, i] = self._param.get_value(scenario_index)
 
-        if timestep.index < self.window:
-            n = timestep.index + 1
-        else:
-            n = self.window
+        # the run may not have started at the first timestep
+        if self._count < self.window:
+            self._count += 1
+        n = self._count
 
         value = self._temporal_aggregator.aggregate_2d(self._memory[0:n, :], axis=0)
         self._data[timestep.index, :] = value
@@ -1672,7 +1674,7 @@ cdef class RollingMeanFlowNodeRecorder(NodeRecorder):
 
     cpdef setup(self):
         super(RollingMeanFlowNodeRecorder, self).setup()
-        self._data = np.empty([len(self.model.timestepper), len(self.model.scenarios.combinations)])
+        self._data = np.zeros([len(self.model.timestepper), len(self.model.scenarios.combinations)])
         if self.days > 0:
             try:
                 self.timesteps = self.days // self.model.timestepper.delta
@@ -1684,7 +1686,9 @@ cdef class RollingMeanFlowNodeRecorder(NodeRecorder):
 
     cpdef reset(self):
         super(RollingMeanFlowNodeRecorder, self).reset()
+        self._data[...] = 0
         self.position = 0
+        self._count = 0
 
     cpdef after(self):
         cdef Timestep timestep
@@ -1695,10 +1699,10 @@ cdef class RollingMeanFlowNodeRecorder(NodeRecorder):
             self._memory[i, self.position] = self._node._flow[i]
         # calculate the mean flow
         timestep = self.model.timestepper.current
-        if timestep.index < self.timesteps:
-            n = timestep.index + 1
-        else:
-            n = self.timesteps
+        # the run may not have started at the first timestep
+        if self._count < self.timesteps:
+            self._count += 1
+        n = self._count
         # save the mean flow
         mean_flow = np.mean(self._memory[:, 0:n], axis=1)
         self._data[<int>(timestep.index), :] = mean_flow
-- 
2.43.0


From e8721474931c948d9019087a2e78c4accd56cf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 23/55] fix: an event is active while its threshold is any
 non-zero value

---
 pywr/recorders/events.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/recorders/events.py b/pywr/recorders/events.py
index b591a29..99943e5 100644
--- a/pywr/recorders/events.py
+++ b/pywr/recorders/events.py
@@ -87,11 +87,11 @@ class EventRecorder(Recorder):
         from pywr.parameters import Parameter, IndexParameter
 
         if isinstance(self.threshold, Recorder):
-            all_triggered = np.array(self.threshold.values(), dtype=int)
+            all_triggered = np.array(self.threshold.values()) != 0
         elif isinstance(self.threshold, IndexParameter):
             all_triggered = self.threshold.get_all_indices()
         elif isinstance(self.threshold, Parameter):
-            all_triggered = np.array(self.threshold.get_all_values(), dtype=int)
+            all_triggered = np.array(self.threshold.get_all_values()) != 0
         else:
             raise TypeError(
                 "Threshold must be either a Recorder or Parameter instance."
-- 
2.43.0


From bd314e483135317276850eebd140a9e5db751147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 24/55] fix: minimum event length also applies to events that
 are open at the end

---
 pywr/recorders/events.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywr/recorders/events.py b/pywr/recorders/events.py
index 99943e5..066dc18 100644
--- a/pywr/recorders/events.py
+++ b/pywr/recorders/events.py
@@ -155,7 +155,9 @@ class EventRecorder(Recorder):
             if current_event is not None:
                 # Unfinished event
                 current_event.end = ts
-                self.events.append(current_event)
+                # As for finished events; only keep it if it is long enough
+                if ts.index - current_event.start.index >= self.minimum_event_length:
+                    self.events.append(current_event)
                 self._current_events[si.global_id] = None
 
     def to_dataframe(self):
-- 
2.43.0


From ef074744685398a12285e3e24a0ee04358e9876d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:48 +0000
Subject: [PATCH 25/55] fix: lpsolve solver raises an error for NaN costs and
 bounds

---
 pywr/solvers/cython_lpsolve.pyx | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index 4063ab0..74e2625 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -1,4 +1,5 @@
 from libc.float cimport DBL_MAX
+from libc.math cimport isnan
 from libc.stdlib cimport malloc, free
 from cython.view cimport array as cvarray
 from pywr._core import BaseInput, BaseOutput, BaseLink
@@ -65,7 +66,22 @@ cdef extern from "lpsolve/lp_lib.h":
     int get_presolve(lprec *lp)
     int get_presolveloops(lprec *lp)
 
-cdef inline int set_row_bnds(lprec *prob, int row, double a, double b):
+# lpsolve accepts NaN but the solution is then meaningless; these functions check for it
+cdef inline int set_obj_checked(lprec *prob, int col, double coef) except -1:
+    if isnan(coef):
+        raise RuntimeError(f"NaN detected in objective coefficient of column {col}")
+    set_obj(prob, col, coef)
+    return 0
+
+cdef inline int set_bounds_checked(lprec *prob, int col, double a, double b) except -1:
+    if isnan(a) or isnan(b):
+        raise RuntimeError(f"NaN detected in bounds of column {col}")
+    set_bounds(prob, col, a, b)
+    return 0
+
+cdef inline int set_row_bnds(lprec *prob, int row, double a, double b) except -1:
+    if isnan(a) or isnan(b):
+        raise RuntimeError(f"NaN detected in bounds of row {row}")
     if a == b:
         set_constr_type(prob, row, EQ)
         set_rh(prob, row, a)
@@ -87,6 +103,7 @@ cdef inline int set_row_bnds(lprec *prob, int row, double a, double b):
         set_constr_type(prob, row, LE)
         set_rh(prob, row, b)
         set_rh_range(prob, row, b-a)
+    return 0
 
 cdef double inf = float('inf')
 
@@ -501,7 +518,7 @@ cdef class CythonLPSolveSolver:
             for node in route[1:-1]:
                 if isinstance(node, BaseLink):
                     cost += node.get_cost(scenario_index)
-            set_obj(self.prob, self.idx_col_routes+col, cost)
+            set_obj_checked(self.prob, self.idx_col_routes+col, cost)
 
         self.stats['bounds_update_routes'] += time.perf_counter() - t0
         t0 = time.perf_counter()
@@ -521,8 +538,8 @@ cdef class CythonLPSolveSolver:
             cost = demand.get_cost(scenario_index)
             if min_flow - max_flow > 1e-8:
                 raise RuntimeError('Minimum flow of node "{}" is greater than its maximum flow.'.format(demand.name))
-            set_bounds(self.prob, self.idx_col_demands+col, min_flow, max_flow)
-            set_obj(self.prob, self.idx_col_demands+col, cost)
+            set_bounds_checked(self.prob, self.idx_col_demands+col, min_flow, max_flow)
+            set_obj_checked(self.prob, self.idx_col_demands+col, cost)
 
         # update aggregated node min/max flow constraints
         for row, agg_node in enumerate(self.aggregated_min_max):
-- 
2.43.0


From a4403dee9ff1ea6e147bdb1db91a2c9f5a8df7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 26/55] fix: DataFrameParameter passes its keyword arguments on
 by name

---
 pywr/parameters/_parameters.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 2a89b64..5897a15 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -204,7 +204,7 @@ cdef class DataFrameParameter(Parameter):
         value available.
     """
     def __init__(self, model, dataframe, scenario=None, timestep_offset=0, **kwargs):
-        super(DataFrameParameter, self).__init__(model, *kwargs)
+        super(DataFrameParameter, self).__init__(model, **kwargs)
         self.dataframe = dataframe
         self.scenario = scenario
         self.timestep_offset = timestep_offset
-- 
2.43.0


From f5ce6c96f30b828beb8fc8f638d33201c61a517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 27/55] fix: data parameters accept scenario slices without an
 explicit positive stop

---
 pywr/parameters/_parameters.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 5897a15..750c292 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -241,7 +241,7 @@ cdef class DataFrameParameter(Parameter):
                     scenario_indices.add(user_combination[self._scenario_index])
                 scenario_indices = sorted(list(scenario_indices))
             elif self.scenario.slice:
-                scenario_indices = range(*self.scenario.slice.indices(self.scenario.slice.stop))
+                scenario_indices = sorted(range(self.scenario.size)[self.scenario.slice])
             else:
                 # scenario is defined, but all data required
                 self._scenario_ids = None
@@ -429,7 +429,7 @@ cdef class TablesArrayParameter(IndexParameter):
                     scenario_indices.add(user_combination[self._scenario_index])
                 scenario_indices = sorted(list(scenario_indices))
             elif self.scenario.slice:
-                scenario_indices = range(*self.scenario.slice.indices(self.scenario.slice.stop))
+                scenario_indices = sorted(range(self.scenario.size)[self.scenario.slice])
             else:
                 # scenario is defined, but all data required
                 self._scenario_ids = None
-- 
2.43.0


From df4bc3bcb4690571ed8e7d700551ef027ee1985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:00 +0000
Subject: [PATCH 28/55] fix: MultiModel documents set the time-step length of
 their sub-models

---
 pywr/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/model.py b/pywr/model.py
index 71d92e7..831a54d 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -159,7 +159,7 @@ class MultiModel:
 
             sub_model.timestepper.start = timestepper_data["start"]
             sub_model.timestepper.end = timestepper_data["end"]
-            sub_model.timestepper.timestep = timestepper_data["timestep"]
+            sub_model.timestepper.delta = timestepper_data["timestep"]
             model.add_model(sub_model_name, sub_model)
 
         return model
-- 
2.43.0


From 9530c16142f90363d56354d57cc375c62e089b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:00 +0000
Subject: [PATCH 29/55] fix: MultiModel.load uses the given solver for
 dictionaries too

---
 pywr/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/model.py b/pywr/model.py
index 831a54d..0a69fc3 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -84,7 +84,7 @@ class MultiModel:
             data = data.read()
             return cls.loads(data, model, path, solver)
 
-        return cls.load_from_dict(data, model=model, path=path, solver=None)
+        return cls.load_from_dict(data, model=model, path=path, solver=solver)
 
     @classmethod
     def _load_from_dict(cls, *args, **kwargs) -> "MultiModel":
-- 
2.43.0


From 64e5b816a18af22535d02e8dabc7128b85bd8b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:23 +0000
Subject: [PATCH 30/55] fix: MultiModel checks scenarios before setup so that
 the error is raised on every run

---
 pywr/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywr/model.py b/pywr/model.py
index 0a69fc3..3324332 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -207,6 +207,9 @@ class MultiModel:
     def setup(self, profile=False, profile_dump_filename=None):
         profilers = {}
 
+        # Check before any sub-model is setup; models that fail the check stay "dirty".
+        self._check_scenarios()
+
         for name, model in self.models.items():
             profiler = model.setup(profile=profile)
             if profiler is not None:
@@ -219,8 +222,6 @@ class MultiModel:
             )
             df.to_csv(profile_dump_filename)
 
-        self._check_scenarios()
-
     def reset(self):
         for model in self.models.values():
             model.reset()
-- 
2.43.0


From 06d5a5e32fc3f9675cb938769a636a6d32421184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:23 +0000
Subject: [PATCH 31/55] fix: MultiModel.run finishes every sub-model and
 reports the original error

---
 pywr/model.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/pywr/model.py b/pywr/model.py
index 3324332..4884b17 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -237,6 +237,18 @@ class MultiModel:
             logger.debug(f"Finished time-step of sub-model: {name}")
         return rets
 
+    def finish(self):
+        """Finish every sub-model, then raise the first error of any of them."""
+        error = None
+        for name, model in self.models.items():
+            try:
+                model.finish()
+            except BaseException as err:
+                logger.critical(f"An error occurred finishing sub-model: {name}")
+                error = error or err
+        if error is not None:
+            raise error
+
     def run(self):
         """Run the multi model simulation"""
         logger.info("Start multi model run ...")
@@ -265,8 +277,15 @@ class MultiModel:
                 # Perform the internal timestep
                 _ = self._step()
             t2 = time.time()
-        finally:
-            for model in self.models.values():
-                model.finish()
+        except BaseException:
+            # The error that stopped the run is the one to report
+            try:
+                self.finish()
+            except Exception:
+                logger.exception(
+                    "An error occurred finishing a model run that had failed"
+                )
+            raise
+        self.finish()
         t3 = time.time()
         return
-- 
2.43.0


From 68bec99734ef1b7677d8a96e2f72112a4b078b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:23 +0000
Subject: [PATCH 32/55] fix: MultiModel.run advances all clocks to the end of
 the run and detects different lengths

---
 pywr/model.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pywr/model.py b/pywr/model.py
index 4884b17..a10115d 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -1,3 +1,4 @@
+import itertools
 import warnings
 from io import IOBase
 from pathlib import Path
@@ -266,10 +267,16 @@ class MultiModel:
             t1 = time.time()
 
             # Begin time-stepping
-            for timesteps in zip(*timesteppers):
+            # Every timestepper is advanced each time, including past the end of the run.
+            for timesteps in itertools.zip_longest(*timesteppers):
                 for model, timestep in zip(self.models.values(), timesteps):
                     # Check all timesteps are the same
-                    if timestep.datetime != timesteps[0].datetime:
+                    if (
+                        timestep is None
+                        or timesteps[0] is None
+                        or timestep.datetime != timesteps[0].datetime
+                        or timestep.days != timesteps[0].days
+                    ):
                         raise RuntimeError(
                             "Timesteps are not synchronised across all sub-models."
                         )
-- 
2.43.0


From 7278ddae90a6494b8ad75aecce3874a957644f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:11 +0000
Subject: [PATCH 33/55] fix: parameters start every run with the value zero
 until first evaluated

---
 pywr/_model.pyx                 |  5 +++++
 pywr/parameters/_parameters.pxd |  1 +
 pywr/parameters/_parameters.pyx | 14 ++++++++++++--
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 350fc33..86e5926 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -803,6 +803,11 @@ class Model(object):
         if profiler is not None:
             profiler.reset()
 
+        for component in components:
+            # Nothing of an earlier run is left to be read before the first evaluation
+            if isinstance(component, BaseParameter):
+                (<BaseParameter>component).reset_values()
+
         for component in components:
             if length_changed:
                 try:
diff --git a/pywr/parameters/_parameters.pxd b/pywr/parameters/_parameters.pxd
index 34a988b..368539d 100644
--- a/pywr/parameters/_parameters.pxd
+++ b/pywr/parameters/_parameters.pxd
@@ -12,6 +12,7 @@ cdef class Parameter(Component):
     cpdef double value(self, Timestep ts, ScenarioIndex scenario_index) except? -1
     cdef double[:] __values
     cdef calc_values(self, Timestep ts)
+    cdef reset_values(self)
     cpdef double get_value(self, ScenarioIndex scenario_index)
     cpdef double[:] get_all_values(self)
     cpdef double get_constant_value(self)
diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 750c292..addbd9a 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -62,7 +62,7 @@ cdef class Parameter(Component):
             num_comb = len(self.model.scenarios.combinations)
         else:
             num_comb = 1
-        self._Parameter__values = np.empty([num_comb], np.float64)
+        self._Parameter__values = np.zeros([num_comb], np.float64)
 
     cpdef double value(self, Timestep ts, ScenarioIndex scenario_index) except? -1:
         raise NotImplementedError("Parameter must be subclassed")
@@ -74,6 +74,11 @@ cdef class Parameter(Component):
         for scenario_index in scenario_collection.combinations:
             self._Parameter__values[<int>(scenario_index.global_id)] = self.value(timestep, scenario_index)
 
+    cdef reset_values(self):
+        # values before the first evaluation of a run
+        if self._Parameter__values is not None:
+            self._Parameter__values[...] = 0.0
+
     cpdef double get_value(self, ScenarioIndex scenario_index):
         return self._Parameter__values[<int>(scenario_index.global_id)]
 
@@ -1208,7 +1213,7 @@ cdef class IndexParameter(Parameter):
             num_comb = len(self.model.scenarios.combinations)
         else:
             num_comb = 1
-        self._IndexParameter__indices = np.empty([num_comb], np.int32)
+        self._IndexParameter__indices = np.zeros([num_comb], np.int32)
 
     cdef calc_values(self, Timestep timestep):
         cdef ScenarioIndex scenario_index
@@ -1217,6 +1222,11 @@ cdef class IndexParameter(Parameter):
             self._IndexParameter__indices[<int>(scenario_index.global_id)] = self.index(timestep, scenario_index)
             self._Parameter__values[<int>(scenario_index.global_id)] = self.value(timestep, scenario_index)
 
+    cdef reset_values(self):
+        Parameter.reset_values(self)
+        if self._IndexParameter__indices is not None:
+            self._IndexParameter__indices[...] = 0
+
     cpdef int get_index(self, ScenarioIndex scenario_index):
         return self._IndexParameter__indices[<int>(scenario_index.global_id)]
 
-- 
2.43.0


From ba9851cc663ba902570e81f56b447c8322ded4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:23 +0000
Subject: [PATCH 34/55] fix: CSVRecorder accepts csv_kwargs

---
 pywr/recorders/recorders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 3b4d3e5..548f6e7 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -141,11 +141,11 @@ class CSVRecorder(Recorder):
         complevel=9,
         **kwargs,
     ):
+        self.csv_kwargs = kwargs.pop("csv_kwargs", {})
         super(CSVRecorder, self).__init__(model, **kwargs)
         self.csvfile = csvfile
         self.scenario_index = scenario_index
         self.nodes = nodes
-        self.csv_kwargs = kwargs.pop("csv_kwargs", {})
         self._node_names = None
         self._fh = None
         self._writer = None
-- 
2.43.0


From 8a74359749605c882290410d51dd7ab6b0ed7755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:23 +0000
Subject: [PATCH 35/55] fix: CSVRecorder closes the file of an unfinished run
 before writing it again

---
 pywr/recorders/recorders.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 548f6e7..db2115c 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -182,6 +182,11 @@ class CSVRecorder(Recorder):
     def reset(self):
         import csv
 
+        # Close the file of an unfinished run before it is overwritten
+        self._writer = None
+        if self._fh:
+            self._fh.close()
+
         kwargs = {"newline": "", "encoding": "utf-8"}
         mode = "wt"
 
-- 
2.43.0


From 3e497a8f13a284e9c0b4588bed2cce87a7ecda0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:52 +0000
Subject: [PATCH 36/55] fix: HDF5 recorders close their file explicitly, also
 when a run was not finished or flushing fails

---
 pywr/h5tools.py                      |  6 ++-
 pywr/recorders/_tables_recorders.pyx | 56 +++++++++++++++++-----------
 pywr/recorders/recorders.py          | 25 ++++++++++---
 3 files changed, 58 insertions(+), 29 deletions(-)

diff --git a/pywr/h5tools.py b/pywr/h5tools.py
index 8187436..1b00c30 100644
--- a/pywr/h5tools.py
+++ b/pywr/h5tools.py
@@ -58,6 +58,10 @@ class H5Store(object):
             for k, v in metadata.items():
                 setattr(self.file.root._v_attrs, k, v)
 
-    def __del__(self):
+    def close(self):
+        """Close the file if it was opened by this object."""
         if self._opened and self.file.isopen:
             self.file.close()
+
+    def __del__(self):
+        self.close()
diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 5812459..2782994 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -210,6 +210,9 @@ class TablesRecorder2(Recorder):
         from pywr.parameters import IndexParameter
         import tables
 
+        # The file of an unfinished run may still be open
+        self._close()
+
         # The first dimension is the number of timesteps.
         # The following dimensions are sized per scenario
         scenario_shape = list(self.model.scenarios.shape)
@@ -376,11 +379,24 @@ class TablesRecorder2(Recorder):
                         entry.append()
                 tbl.flush()
 
-        self.h5store = None
+        self._close()
+
+    def _close(self):
+        """Close the file, unless it is managed by the user, and let go of its nodes."""
+        store, self.h5store = self.h5store, None
+        self._time_table = None
+        self._routes_flow_array = None
+        self._node_arrays = {}
+        self._storage_node_arrays = {}
+        self._parameter_arrays = {}
+        self._index_parameter_arrays = {}
+        if store is not None:
+            store.close()
 
     def reset(self):
         import tables
 
+        self._close()
         mode = "r+"  # always need to append, as file already created in setup
         self.h5store = H5Store(self.h5file, self.filter_kwds, mode)
 
@@ -614,27 +630,23 @@ class TablesRecorder2(Recorder):
             self._time_table.flush()
 
     def finish(self):
-
-        if self._buffer_num_timesteps > 1:
-            ts = self.model.timestepper.current
-            # The final time-step is one past the end of the data
-            idx = ts.index
-            residual_timesteps = idx % self._buffer_num_timesteps
-
-            # Flush the buffer if there are residual time-steps, or our buffer covered the entire simulation
-            if residual_timesteps > 0:
-                self.flush_buffer(idx - 1, residual_timesteps)
-            elif self._buffer_num_timesteps == len(self.model.timestepper):
-                self.flush_buffer(idx - 1, self._buffer_num_timesteps)
-
-        if self._time_table is not None:
-            self._time_table.flush()
-        self.h5store = None
-        self._node_arrays = {}
-        self._storage_node_arrays = {}
-        self._parameter_arrays = {}
-        self._index_parameter_arrays = {}
-        self._routes_flow_array = None
+        try:
+            if self._buffer_num_timesteps > 1:
+                ts = self.model.timestepper.current
+                # The final time-step is one past the end of the data
+                idx = ts.index
+                residual_timesteps = idx % self._buffer_num_timesteps
+
+                # Flush the buffer if there are residual time-steps, or our buffer covered the entire simulation
+                if residual_timesteps > 0:
+                    self.flush_buffer(idx - 1, residual_timesteps)
+                elif self._buffer_num_timesteps == len(self.model.timestepper):
+                    self.flush_buffer(idx - 1, self._buffer_num_timesteps)
+
+            if self._time_table is not None:
+                self._time_table.flush()
+        finally:
+            self._close()
 
     @staticmethod
     def generate_dataframes(h5file, time="/time", scenarios="/scenarios"):
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index db2115c..4ff478f 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -418,6 +418,9 @@ class TablesRecorder(Recorder):
         from pywr.parameters import IndexParameter
         import tables
 
+        # The file of an unfinished run may still be open
+        self._close()
+
         # The first dimension is the number of timesteps.
         # The following dimensions are sized per scenario
         scenario_shape = list(self.model.scenarios.shape)
@@ -547,11 +550,21 @@ class TablesRecorder(Recorder):
                         entry.append()
                 tbl.flush()
 
-        self.h5store = None
+        self._close()
+
+    def _close(self):
+        """Close the file, unless it is managed by the user, and let go of its nodes."""
+        store, self.h5store = self.h5store, None
+        self._time_table = None
+        self._routes_flow_array = None
+        self._arrays = {}
+        if store is not None:
+            store.close()
 
     def reset(self):
         import tables
 
+        self._close()
         mode = "r+"  # always need to append, as file already created in setup
         self.h5store = H5Store(self.h5file, self.filter_kwds, mode)
         self._arrays = {}
@@ -683,11 +696,11 @@ class TablesRecorder(Recorder):
             )
 
     def finish(self):
-        if self._time_table is not None:
-            self._time_table.flush()
-        self.h5store = None
-        self._arrays = {}
-        self._routes_flow_array = None
+        try:
+            if self._time_table is not None:
+                self._time_table.flush()
+        finally:
+            self._close()
 
     @staticmethod
     def generate_dataframes(h5file, time="/time", scenarios="/scenarios"):
-- 
2.43.0


From 229e4a16f809eddea498847673a06f4d5f08e6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 37/55] fix: TablesRecorder2 only flushes buffered time-steps
 of the current run; time rows follow their data

---
 pywr/recorders/_tables_recorders.pyx | 51 ++++++++++++++--------------
 pywr/recorders/recorders.py          | 17 +++++-----
 2 files changed, 35 insertions(+), 33 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 2782994..e47b9e1 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -99,6 +99,9 @@ class TablesRecorder2(Recorder):
         self.buffer_size = kwargs.pop("buffer_size", 100)
         self.buffer_timesteps = kwargs.pop("buffer_timesteps", None)
         self._buffer_num_timesteps = 1
+        # Number of timesteps in the buffer, and the index of the last of them
+        self._buffer_length = 0
+        self._buffer_index = -1
 
         title = kwargs.pop("title", None)
         if title is None:
@@ -406,7 +409,7 @@ class TablesRecorder2(Recorder):
         else:
             buffer_shape = None
 
-        self._buffer_write_position = 0
+        self._buffer_length = 0
 
         self._node_arrays = {}
         for where, node in self._nodes:
@@ -538,15 +541,7 @@ class TablesRecorder2(Recorder):
         ts = self.model.timestepper.current
         idx = ts.index
 
-        if self._time_table is not None:
-            entry = self._time_table.row
-            entry["year"] = ts.year
-            entry["month"] = ts.month
-            entry["day"] = ts.day
-            entry["index"] = idx
-            entry.append()
-
-        buffer_idx = idx % self._buffer_num_timesteps
+        buffer_idx = self._buffer_length
 
         for node, (arrays, buffer) in self._node_arrays.items():
             if buffer is None:
@@ -594,10 +589,6 @@ class TablesRecorder2(Recorder):
             else:
                 buffer[0, buffer_idx, ...] = np.reshape(index_parameter.get_all_indices(), scenario_shape)
 
-        # Flush before we overwrite the data if this is the last entry in the buffer
-        if self._buffer_num_timesteps > 1 and (idx + 1) % self._buffer_num_timesteps == 0:
-            self.flush_buffer(idx, self._buffer_num_timesteps)
-
         if self._routes_flow_array is not None:
             routes_shape = [
                 len(self.model.solver.routes),
@@ -606,6 +597,23 @@ class TablesRecorder2(Recorder):
                 self.model.solver.routes_flows_array.T, routes_shape
             )
 
+        # The row is only listed once its data has been saved
+        if self._time_table is not None:
+            entry = self._time_table.row
+            entry["year"] = ts.year
+            entry["month"] = ts.month
+            entry["day"] = ts.day
+            entry["index"] = idx
+            entry.append()
+
+        if self._buffer_num_timesteps > 1:
+            self._buffer_length += 1
+            self._buffer_index = idx
+            # Flush before we overwrite the data if this is the last entry in the buffer
+            if self._buffer_length == self._buffer_num_timesteps:
+                self.flush_buffer(idx, self._buffer_length)
+                self._buffer_length = 0
+
     def flush_buffer(self, int idx, int num_timesteps):
         """Flush the buffer arrays to PyTables"""
         cdef int idx_start = idx + 1 - num_timesteps
@@ -631,17 +639,10 @@ class TablesRecorder2(Recorder):
 
     def finish(self):
         try:
-            if self._buffer_num_timesteps > 1:
-                ts = self.model.timestepper.current
-                # The final time-step is one past the end of the data
-                idx = ts.index
-                residual_timesteps = idx % self._buffer_num_timesteps
-
-                # Flush the buffer if there are residual time-steps, or our buffer covered the entire simulation
-                if residual_timesteps > 0:
-                    self.flush_buffer(idx - 1, residual_timesteps)
-                elif self._buffer_num_timesteps == len(self.model.timestepper):
-                    self.flush_buffer(idx - 1, self._buffer_num_timesteps)
+            # Flush the buffer if there are residual time-steps
+            if self._buffer_length > 0:
+                self.flush_buffer(self._buffer_index, self._buffer_length)
+                self._buffer_length = 0
 
             if self._time_table is not None:
                 self._time_table.flush()
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 4ff478f..d137d21 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -663,14 +663,6 @@ class TablesRecorder(Recorder):
         ts = self.model.timestepper.current
         idx = ts.index
 
-        if self._time_table is not None:
-            entry = self._time_table.row
-            entry["year"] = ts.year
-            entry["month"] = ts.month
-            entry["day"] = ts.day
-            entry["index"] = idx
-            entry.append()
-
         for node, ca in self._arrays.items():
             if isinstance(node, AbstractStorage):
                 ca[idx, :] = np.reshape(node.volume, scenario_shape)
@@ -695,6 +687,15 @@ class TablesRecorder(Recorder):
                 self.model.solver.routes_flows_array.T, routes_shape
             )
 
+        # The row is only listed once its data has been saved
+        if self._time_table is not None:
+            entry = self._time_table.row
+            entry["year"] = ts.year
+            entry["month"] = ts.month
+            entry["day"] = ts.day
+            entry["index"] = idx
+            entry.append()
+
     def finish(self):
         try:
             if self._time_table is not None:
-- 
2.43.0


From 245dae5f215172422019839738556a7cff97f01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:28 +0000
Subject: [PATCH 38/55] fix: HDF5 recorders start every run with a new file
 instead of the data of the previous one

---
 pywr/recorders/_tables_recorders.pyx | 9 +++++++++
 pywr/recorders/recorders.py          | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index e47b9e1..1b7aa28 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -1,4 +1,5 @@
 from typing import Tuple
+import os
 import pandas
 cimport numpy as np
 import numpy as np
@@ -114,6 +115,8 @@ class TablesRecorder2(Recorder):
 
         self.h5file = h5file
         self.h5store = None
+        # Has the file been written to by a run since it was created?
+        self._used = True
         # Separate internal storage
         self._node_arrays = None
         self._nodes = None
@@ -383,6 +386,7 @@ class TablesRecorder2(Recorder):
                 tbl.flush()
 
         self._close()
+        self._used = False
 
     def _close(self):
         """Close the file, unless it is managed by the user, and let go of its nodes."""
@@ -400,6 +404,11 @@ class TablesRecorder2(Recorder):
         import tables
 
         self._close()
+        if self._used and self.mode == "w" and isinstance(self.h5file, (str, os.PathLike)):
+            # Start with a new file, nothing of the previous run remains
+            self.setup()
+        self._used = True
+
         mode = "r+"  # always need to append, as file already created in setup
         self.h5store = H5Store(self.h5file, self.filter_kwds, mode)
 
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index d137d21..fabde3d 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -1,3 +1,4 @@
+import os
 import sys
 import pandas
 import numpy as np
@@ -325,6 +326,8 @@ class TablesRecorder(Recorder):
 
         self.h5file = h5file
         self.h5store = None
+        # Has the file been written to by a run since it was created?
+        self._used = True
         self._arrays = {}
         self.nodes = nodes
         self.where = where
@@ -551,6 +554,7 @@ class TablesRecorder(Recorder):
                 tbl.flush()
 
         self._close()
+        self._used = False
 
     def _close(self):
         """Close the file, unless it is managed by the user, and let go of its nodes."""
@@ -565,6 +569,11 @@ class TablesRecorder(Recorder):
         import tables
 
         self._close()
+        if self._used and self.mode == "w" and isinstance(self.h5file, (str, os.PathLike)):
+            # Start with a new file, nothing of the previous run remains
+            self.setup()
+        self._used = True
+
         mode = "r+"  # always need to append, as file already created in setup
         self.h5store = H5Store(self.h5file, self.filter_kwds, mode)
         self._arrays = {}
-- 
2.43.0


From 5bebbf8f079b9252af8abf756fe2844e45520e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:28 +0000
Subject: [PATCH 39/55] fix: HDF5 recorders accept nodes and parameters with
 names of two characters, and node objects

---
 pywr/recorders/_tables_recorders.pyx | 26 ++++++++++++++++----------
 pywr/recorders/recorders.py          | 26 ++++++++++++++++----------
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 1b7aa28..bb43bc0 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -146,11 +146,13 @@ class TablesRecorder2(Recorder):
         self._routes_flow_array = None
 
     def _add_parameter(self, parameter):
-        try:
-            where, param = parameter
-        except (TypeError, ValueError):
-            where = None
-            param = parameter
+        if isinstance(parameter, str):
+            where, param = None, parameter
+        else:
+            try:
+                where, param = parameter
+            except (TypeError, ValueError):
+                where, param = None, parameter
         if isinstance(param, str):
             from ..parameters import load_parameter
 
@@ -248,15 +250,19 @@ class TablesRecorder2(Recorder):
         else:
             items = []
             for n in self.nodes:
-                try:
-                    where, node = n
-                except (TypeError, ValueError):
-                    node = n
-                    where = self.where + "/" + node
+                if isinstance(n, str):
+                    where, node = None, n
+                else:
+                    try:
+                        where, node = n
+                    except (TypeError, ValueError):
+                        where, node = None, n
 
                 # Accept a str, and lookup node by name instead.
                 if isinstance(node, str):
                     node = self.model.nodes[node]
+                if where is None:
+                    where = self.where + "/" + node.name
                 # Otherwise assume it is a node object anyway
 
                 where = where.replace("//", "/")
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index fabde3d..8c90651 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -350,11 +350,13 @@ class TablesRecorder(Recorder):
         self._routes_flow_array = None
 
     def _add_parameter(self, parameter):
-        try:
-            where, param = parameter
-        except (TypeError, ValueError):
-            where = None
-            param = parameter
+        if isinstance(parameter, str):
+            where, param = None, parameter
+        else:
+            try:
+                where, param = parameter
+            except (TypeError, ValueError):
+                where, param = None, parameter
         if isinstance(param, str):
             from ..parameters import load_parameter
 
@@ -450,15 +452,19 @@ class TablesRecorder(Recorder):
         else:
             nodes = []
             for n in self.nodes:
-                try:
-                    where, node = n
-                except (TypeError, ValueError):
-                    node = n
-                    where = self.where + "/" + node
+                if isinstance(n, str):
+                    where, node = None, n
+                else:
+                    try:
+                        where, node = n
+                    except (TypeError, ValueError):
+                        where, node = None, n
 
                 # Accept a str, and lookup node by name instead.
                 if isinstance(node, str):
                     node = self.model.nodes[node]
+                if where is None:
+                    where = self.where + "/" + node.name
                 # Otherwise assume it is a node object anyway
 
                 where = where.replace("//", "/")
-- 
2.43.0


From 0689a07ab60f2df349e66e02f67eead1a6fc4c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:28 +0000
Subject: [PATCH 40/55] fix: HDF5 recorders accept scenario slices with open
 ends

---
 pywr/recorders/_tables_recorders.pyx | 10 ++++------
 pywr/recorders/recorders.py          | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index bb43bc0..9620c01 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -382,12 +382,10 @@ class TablesRecorder2(Recorder):
                 for scenario in self.model.scenarios.scenarios:
                     if scenario.slice is not None:
                         entry["name"] = scenario.name.encode("utf-8")
-                        entry["start"] = scenario.slice.start
-                        entry["stop"] = scenario.slice.stop
-                        if scenario.slice.step:
-                            entry["step"] = scenario.slice.step
-                        else:
-                            entry["step"] = 1
+                        start, stop, step = scenario.slice.indices(scenario.size)
+                        entry["start"] = start
+                        entry["stop"] = stop
+                        entry["step"] = step
                         entry.append()
                 tbl.flush()
 
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 8c90651..8d77e93 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -550,12 +550,10 @@ class TablesRecorder(Recorder):
                 for scenario in self.model.scenarios.scenarios:
                     if scenario.slice is not None:
                         entry["name"] = scenario.name.encode("utf-8")
-                        entry["start"] = scenario.slice.start
-                        entry["stop"] = scenario.slice.stop
-                        if scenario.slice.step:
-                            entry["step"] = scenario.slice.step
-                        else:
-                            entry["step"] = 1
+                        start, stop, step = scenario.slice.indices(scenario.size)
+                        entry["start"] = start
+                        entry["stop"] = stop
+                        entry["step"] = step
                         entry.append()
                 tbl.flush()
 
-- 
2.43.0


From 2832aefa7cc1ab955f062f55bd14baaf2a149aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:27 +0000
Subject: [PATCH 41/55] fix: TablesRecorder2 lists buffered time-steps only
 once their data has been written

---
 pywr/recorders/_tables_recorders.pyx | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 9620c01..87904b5 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -103,6 +103,8 @@ class TablesRecorder2(Recorder):
         # Number of timesteps in the buffer, and the index of the last of them
         self._buffer_length = 0
         self._buffer_index = -1
+        # Time-steps whose data has not been saved yet
+        self._buffer_times = []
 
         title = kwargs.pop("title", None)
         if title is None:
@@ -423,6 +425,7 @@ class TablesRecorder2(Recorder):
             buffer_shape = None
 
         self._buffer_length = 0
+        self._buffer_times = []
 
         self._node_arrays = {}
         for where, node in self._nodes:
@@ -610,14 +613,7 @@ class TablesRecorder2(Recorder):
                 self.model.solver.routes_flows_array.T, routes_shape
             )
 
-        # The row is only listed once its data has been saved
-        if self._time_table is not None:
-            entry = self._time_table.row
-            entry["year"] = ts.year
-            entry["month"] = ts.month
-            entry["day"] = ts.day
-            entry["index"] = idx
-            entry.append()
+        self._buffer_times.append((ts.year, ts.month, ts.day, idx))
 
         if self._buffer_num_timesteps > 1:
             self._buffer_length += 1
@@ -626,6 +622,20 @@ class TablesRecorder2(Recorder):
             if self._buffer_length == self._buffer_num_timesteps:
                 self.flush_buffer(idx, self._buffer_length)
                 self._buffer_length = 0
+        else:
+            self._save_times()
+
+    def _save_times(self):
+        """List the time-steps in the time table, once their data has been saved"""
+        times, self._buffer_times = self._buffer_times, []
+        if self._time_table is not None:
+            entry = self._time_table.row
+            for year, month, day, index in times:
+                entry["year"] = year
+                entry["month"] = month
+                entry["day"] = day
+                entry["index"] = index
+                entry.append()
 
     def flush_buffer(self, int idx, int num_timesteps):
         """Flush the buffer arrays to PyTables"""
@@ -647,6 +657,7 @@ class TablesRecorder2(Recorder):
         for _, (arrays, buffer) in self._index_parameter_arrays.items():
             arrays.parameter_index[idx_start:idx + 1, ...] = buffer[0, :num_timesteps, ...]
 
+        self._save_times()
         if self._time_table is not None:
             self._time_table.flush()
 
-- 
2.43.0


From 8cc5ac098a8b8194497bf93ee7c5b1f113dd12e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:05 +0000
Subject: [PATCH 42/55] fix: generate_dataframes of the HDF5 recorders with
 scenario combinations, slices, routes and without scenarios

---
 pywr/h5tools.py                      | 26 ++++++++++++++++++++++++++
 pywr/recorders/_tables_recorders.pyx | 15 ++++-----------
 pywr/recorders/recorders.py          | 13 ++++---------
 3 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/pywr/h5tools.py b/pywr/h5tools.py
index 1b00c30..63767c6 100644
--- a/pywr/h5tools.py
+++ b/pywr/h5tools.py
@@ -1,5 +1,6 @@
 import tables
 import os
+import pandas
 
 
 class H5Store(object):
@@ -65,3 +66,28 @@ class H5Store(object):
 
     def __del__(self):
         self.close()
+
+
+def scenario_columns(file, scenarios):
+    """The scenario indices of the columns of the arrays in `file`, or None if the model had no scenarios."""
+    table = file.get_node(scenarios)
+    names = [name.decode("utf-8") for name in table.col("name")]
+    if not names:
+        return None
+
+    group = table._v_parent
+    for parent in (group, file.root):
+        if "scenario_combinations" in parent:
+            node = parent._f_get_child("scenario_combinations")
+            if isinstance(node, tables.Table):
+                combinations = list(zip(*(node.col(name) for name in names)))
+            else:
+                combinations = [tuple(row) for row in node.read()]
+            return pandas.MultiIndex.from_tuples(combinations, names=names)
+
+    indices = [range(size) for size in table.col("size")]
+    if "scenario_slices" in group:
+        for row in group._f_get_child("scenario_slices").read():
+            i = names.index(row["name"].decode("utf-8"))
+            indices[i] = range(row["start"], row["stop"], row["step"])
+    return pandas.MultiIndex.from_product(indices, names=names)
diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 87904b5..98626d5 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -3,7 +3,7 @@ import os
 import pandas
 cimport numpy as np
 import numpy as np
-from pywr.h5tools import H5Store
+from pywr.h5tools import H5Store, scenario_columns
 import warnings
 from pywr.parameters._parameters cimport IndexParameter, Parameter
 from pywr.recorders._recorders cimport Recorder
@@ -698,20 +698,13 @@ class TablesRecorder2(Recorder):
 
         # Get the scenario information
         if scenarios:
-            scenarios_table = store.file.get_node(scenarios)
-            scenarios = pandas.DataFrame(
-                {k: scenarios_table.col(k) for k in ("name", "size")}
-            )
-            columns = pandas.MultiIndex.from_product(
-                [range(row["size"]) for _, row in scenarios.iterrows()],
-                names=[row["name"].decode() for _, row in scenarios.iterrows()],
-            )
+            columns = scenario_columns(store.file, scenarios)
         else:
             columns = None
 
         for node in store.file.walk_nodes("/", "CArray"):
-            if node.name in ("scenario_combinations", "scenario_ensemble_names"):
-                continue
+            if "PYWR_ATTRIBUTE" not in node._v_attrs._v_attrnames:
+                continue  # e.g. the scenario combinations, or the flows of the routes
             data = node.read()
             data = data.reshape((data.shape[0], -1))
             df = pandas.DataFrame(data, index=index, columns=columns)
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 8d77e93..37cac52 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -11,7 +11,7 @@ from ._tables_recorders import TablesRecorder2, ParameterNameWarning
 from .events import *
 from .calibration import *
 from .kde import *
-from pywr.h5tools import H5Store
+from pywr.h5tools import H5Store, scenario_columns
 from ..parameter_property import parameter_property
 import warnings
 
@@ -741,18 +741,13 @@ class TablesRecorder(Recorder):
 
         # Get the scenario information
         if scenarios:
-            scenarios_table = store.file.get_node(scenarios)
-            scenarios = pandas.DataFrame(
-                {k: scenarios_table.col(k) for k in ("name", "size")}
-            )
-            columns = pandas.MultiIndex.from_product(
-                [range(row["size"]) for _, row in scenarios.iterrows()],
-                names=[row["name"].decode() for _, row in scenarios.iterrows()],
-            )
+            columns = scenario_columns(store.file, scenarios)
         else:
             columns = None
 
         for node in store.file.walk_nodes("/", "CArray"):
+            if not {"PYWR_ATTRIBUTE", "pywr-attribute"} & set(node._v_attrs._v_attrnames):
+                continue  # e.g. the flows of the routes
             data = node.read()
             data = data.reshape((data.shape[0], -1))
             df = pandas.DataFrame(data, index=index, columns=columns)
-- 
2.43.0


From d1b41dafdf2b772706d3704a3cf5f93a4fe4b366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:48 +0000
Subject: [PATCH 43/55] fix: HDF5 recorders close their file when creating it
 fails

---
 pywr/recorders/_tables_recorders.pyx | 11 ++++++++---
 pywr/recorders/recorders.py          | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 98626d5..aafff67 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -217,6 +217,14 @@ class TablesRecorder2(Recorder):
         """
         Setup the tables
         """
+        try:
+            self._create_file()
+        finally:
+            self._close()
+        self._used = False
+
+    def _create_file(self):
+        """Create the file with empty arrays for the current model, and the scenario tables"""
         from pywr.parameters import IndexParameter
         import tables
 
@@ -391,9 +399,6 @@ class TablesRecorder2(Recorder):
                         entry.append()
                 tbl.flush()
 
-        self._close()
-        self._used = False
-
     def _close(self):
         """Close the file, unless it is managed by the user, and let go of its nodes."""
         store, self.h5store = self.h5store, None
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 37cac52..e158c5d 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -420,6 +420,14 @@ class TablesRecorder(Recorder):
         """
         Setup the tables
         """
+        try:
+            self._create_file()
+        finally:
+            self._close()
+        self._used = False
+
+    def _create_file(self):
+        """Create the file with empty arrays for the current model, and the scenario tables"""
         from pywr.parameters import IndexParameter
         import tables
 
@@ -557,9 +565,6 @@ class TablesRecorder(Recorder):
                         entry.append()
                 tbl.flush()
 
-        self._close()
-        self._used = False
-
     def _close(self):
         """Close the file, unless it is managed by the user, and let go of its nodes."""
         store, self.h5store = self.h5store, None
-- 
2.43.0


From 46bc681b87f12fc7fb58a7bf19175f39034715be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:51 +0000
Subject: [PATCH 44/55] fix: HDF5 recorders can be closed after their time
 table could not be flushed

---
 pywr/recorders/_tables_recorders.pyx | 14 ++++++--------
 pywr/recorders/recorders.py          | 13 +++++++------
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index aafff67..109d2c5 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -633,14 +633,12 @@ class TablesRecorder2(Recorder):
     def _save_times(self):
         """List the time-steps in the time table, once their data has been saved"""
         times, self._buffer_times = self._buffer_times, []
-        if self._time_table is not None:
-            entry = self._time_table.row
-            for year, month, day, index in times:
-                entry["year"] = year
-                entry["month"] = month
-                entry["day"] = day
-                entry["index"] = index
-                entry.append()
+        if self._time_table is not None and times:
+            # Written at once, a table with unsaved rows can not be closed after an error
+            rows = np.empty(len(times), dtype=self._time_table.dtype)
+            for n, column in enumerate(("year", "month", "day", "index")):
+                rows[column] = [time[n] for time in times]
+            self._time_table.append(rows)
 
     def flush_buffer(self, int idx, int num_timesteps):
         """Flush the buffer arrays to PyTables"""
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index e158c5d..e25a0a2 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -707,12 +707,13 @@ class TablesRecorder(Recorder):
 
         # The row is only listed once its data has been saved
         if self._time_table is not None:
-            entry = self._time_table.row
-            entry["year"] = ts.year
-            entry["month"] = ts.month
-            entry["day"] = ts.day
-            entry["index"] = idx
-            entry.append()
+            # Written at once, a table with unsaved rows can not be closed after an error
+            row = np.empty(1, dtype=self._time_table.dtype)
+            row["year"] = ts.year
+            row["month"] = ts.month
+            row["day"] = ts.day
+            row["index"] = idx
+            self._time_table.append(row)
 
     def finish(self):
         try:
-- 
2.43.0


From a8b1e0ff76e3d0c99b4b1a2f703a73a98795c0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:03 +0000
Subject: [PATCH 45/55] fix: a cached file hash is not used after the file was
 modified

---
 pywr/hashes.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pywr/hashes.py b/pywr/hashes.py
index 5d0f570..461463f 100644
--- a/pywr/hashes.py
+++ b/pywr/hashes.py
@@ -1,6 +1,7 @@
 """Generic utilities functions useful for pywr, but not specific to any of the core modules"""
 
 import io
+import os
 import hashlib
 
 
@@ -19,7 +20,7 @@ def check_hash(filename, hash, cache=None, algorithm="md5", **kwargs):
     """Check the hash for filename using the named algorithm
 
     If a cache provided, it is checked to see if the file hash has already been
-    computed. If it has not, a hash is computed for the file using the given
+    computed and the file has not been modified since. If not, a hash is computed for the file using the given
     algorithm. The cached/computed cache is then compared against the provided
     hash. If the hashes do not match a HashMismatchError error is raised.
 
@@ -27,7 +28,10 @@ def check_hash(filename, hash, cache=None, algorithm="md5", **kwargs):
     """
 
     if cache is not None:
-        if (cached_hash := cache.get((filename, algorithm))) is not None:
+        stat = os.stat(filename)
+        version = (stat.st_mtime_ns, stat.st_size, stat.st_ino)
+        cached_hash = cache.get((filename, algorithm))
+        if cached_hash is not None and cache.get((filename, algorithm, "version")) == version:
             if cached_hash.lower() == hash.lower():
                 return
             else:
@@ -44,6 +48,7 @@ def check_hash(filename, hash, cache=None, algorithm="md5", **kwargs):
 
     if cache is not None:
         cache[(filename, algorithm)] = actual_hash
+        cache[(filename, algorithm, "version")] = version
 
 
 class HashMismatchError(IOError):
-- 
2.43.0


From d7ed945983979c8b7d71ddc50d1db2da5185c088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:40 +0000
Subject: [PATCH 46/55] fix: TablesArrayParameter checks the declared checksum
 when it reads the file

---
 pywr/parameters/_parameters.pxd | 1 +
 pywr/parameters/_parameters.pyx | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pywr/parameters/_parameters.pxd b/pywr/parameters/_parameters.pxd
index 368539d..4674db2 100644
--- a/pywr/parameters/_parameters.pxd
+++ b/pywr/parameters/_parameters.pxd
@@ -134,6 +134,7 @@ cdef class TablesArrayParameter(IndexParameter):
     cdef public object h5store
     cdef public object node
     cdef public object where
+    cdef public dict checksum
     cdef public int timestep_offset
     cdef int _scenario_index
     cdef int[:] _scenario_ids
diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index addbd9a..0e6130f 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -374,6 +374,7 @@ cdef class TablesArrayParameter(IndexParameter):
         self.where = where
         self.scenario = scenario
         self.timestep_offset = timestep_offset
+        self.checksum = {}
 
         # Private attributes, initialised during setup()
         self._values_dbl = None  # Stores the loaded data if float
@@ -392,6 +393,10 @@ cdef class TablesArrayParameter(IndexParameter):
         if self.scenario is not None:
             self._scenario_index = self.model.scenarios.get_scenario_index(self.scenario)
 
+        # The file may have been modified since the parameter was loaded
+        for algo, hash in self.checksum.items():
+            self.model.check_hash(self.h5file, hash, algorithm=algo)
+
         self.h5store = H5Store(self.h5file, None, "r")
         node = self.h5store.file.get_node(self.where, self.node)
         if not node.dtype in (np.float32, np.float64, np.int8, np.int16, np.int32):
@@ -513,7 +518,9 @@ cdef class TablesArrayParameter(IndexParameter):
         for algo, hash in checksums.items():
             model.check_hash(url, hash, algorithm=algo)
 
-        return cls(model, url, node, where=where, scenario=scenario, **data)
+        param = cls(model, url, node, where=where, scenario=scenario, **data)
+        param.checksum = checksums
+        return param
 TablesArrayParameter.register()
 
 
-- 
2.43.0


From 46e42f267538af75c8a6f0a129c47eb4b1ed9f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:51 +0000
Subject: [PATCH 47/55] fix: the includes of a model document read from text
 are loaded once

Model.loads loaded them into the document before load_from_dict did so
again: scenarios given in an included file were added twice, and included
Python files were run twice.
---
 pywr/_model.pyx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 86e5926..7230767 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -209,7 +209,6 @@ class Model(object):
             if path:
                 e.args = ("{} [{}]".format(e.args[0], os.path.basename(path)),)
             raise(e)
-        cls._load_includes(data, path)
         return cls.load(data, model, path, **kwargs)
 
     @classmethod
-- 
2.43.0


From b3742356af042c7994aeb0a0ad000271650f512f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:45 +0000
Subject: [PATCH 48/55] fix: model documents given as bytes paths find their
 relative files

---
 pywr/_model.pyx | 2 +-
 pywr/model.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 7230767..fb0540a 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -286,7 +286,7 @@ class Model(object):
         """
         if isinstance(data, (str, bytes, os.PathLike)):
             # argument is a filename
-            path = data
+            path = os.fsdecode(data)
             logger.info('Loading model from file: "{}"'.format(path))
             with open(path, "r") as f:
                 data = f.read()
diff --git a/pywr/model.py b/pywr/model.py
index a10115d..977de41 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -73,7 +73,7 @@ class MultiModel:
         """
         if isinstance(data, (str, bytes, os.PathLike)):
             # argument is a filename
-            path = data
+            path = os.fsdecode(data)
             logger.info('Loading model from file: "{}"'.format(path))
             with open(path, "r") as f:
                 data = f.read()
-- 
2.43.0


From fdf6e3e57b616d12ee2c9156bdc72669894e7222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:45 +0000
Subject: [PATCH 49/55] fix: includes are found when the path given to load is
 a folder

Model.path may be a folder, and MultiModel passes its folder to the
sub-models given as data, but includes were looked for in its parent.
---
 pywr/_model.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index fb0540a..4b94a51 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -229,7 +229,8 @@ class Model(object):
             for filename in data["includes"]:
                 _, ext = os.path.splitext(filename)
                 if path is not None:
-                    filename = os.path.join(os.path.dirname(path), filename)
+                    folder = path if os.path.isdir(path) else os.path.dirname(path)
+                    filename = os.path.join(folder, filename)
 
                 ext = ext.lower()
                 if ext == '.json':
-- 
2.43.0


From 3cc00da656157ed743a4de51b4e7297e92f84a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:55 +0000
Subject: [PATCH 50/55] fix: Parameter.load keeps the comment given in the
 model document

---
 pywr/parameters/_parameters.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 0e6130f..f171e4c 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -142,9 +142,9 @@ cdef class Parameter(Component):
             scenario = model.scenarios[scenario]
             # Only pass scenario object if one provided; most Parameter subclasses
             # do not accept a scenario argument.
-            return cls(model, scenario=scenario, values=values, name=name, comment=None, **data)
+            return cls(model, scenario=scenario, values=values, name=name, comment=comment, **data)
         else:
-            return cls(model, values=values, name=name, comment=None, **data)
+            return cls(model, values=values, name=name, comment=comment, **data)
 Parameter.register()
 
 
-- 
2.43.0


From 6b5861635b165129d5cdd14fad02dbdc05815376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:45 +0000
Subject: [PATCH 51/55] fix: RollingMeanFlowNodeRecorder keeps all options
 given in the model document

Its load passed only the window on: agg_func, is_objective, factor and the
other recorder options were ignored.
---
 pywr/recorders/_recorders.pyx | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index ba92505..c86c591 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1717,17 +1717,8 @@ cdef class RollingMeanFlowNodeRecorder(NodeRecorder):
 
     @classmethod
     def load(cls, model, data):
-        name = data.get("name")
-        node = model.nodes[data["node"]]
-        if "timesteps" in data:
-            timesteps = int(data["timesteps"])
-        else:
-            timesteps = None
-        if "days" in data:
-            days = int(data["days"])
-        else:
-            days = None
-        return cls(model, node, timesteps=timesteps, days=days, name=name)
+        node = model.nodes[data.pop("node")]
+        return cls(model, node, **data)
 
 RollingMeanFlowNodeRecorder.register()
 
-- 
2.43.0


From be1d2b0ef3a088bb15fedd6f2a54483caca33b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:54 +0000
Subject: [PATCH 52/55] fix: PygmoWrapper returns equality constraints in the
 form h(x) = 0

---
 pywr/optimisation/pygmo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr/optimisation/pygmo.py b/pywr/optimisation/pygmo.py
index 4214ff9..7d63423 100644
--- a/pywr/optimisation/pygmo.py
+++ b/pywr/optimisation/pygmo.py
@@ -35,7 +35,8 @@ class PygmoWrapper(BaseOptimisationWrapper):
                 ineq_constraints.append(r.constraint_lower_bounds - x)
                 ineq_constraints.append(x - r.constraint_upper_bounds)
             elif r.is_equality_constraint:
-                eq_constraints.append(x)
+                # pygmo requires that equality constraints are of the form h(x) = 0
+                eq_constraints.append(x - r.constraint_lower_bounds)
             elif r.is_lower_bounded_constraint:
                 ineq_constraints.append(r.constraint_lower_bounds - x)
             elif r.is_upper_bounded_constraint:
-- 
2.43.0


From 8f77f55ff73ba9a0967466d461ee3d8422a2cf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:54 +0000
Subject: [PATCH 53/55] fix: PygmoWrapper sets the integer variables of a
 candidate

---
 pywr/optimisation/pygmo.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pywr/optimisation/pygmo.py b/pywr/optimisation/pygmo.py
index 7d63423..ff75e5b 100644
--- a/pywr/optimisation/pygmo.py
+++ b/pywr/optimisation/pygmo.py
@@ -12,7 +12,13 @@ class PygmoWrapper(BaseOptimisationWrapper):
 
         for ivar, var in enumerate(self.model_variables):
             j = slice(self.model_variable_map[ivar], self.model_variable_map[ivar + 1])
-            var.set_double_variables(np.array(solution[j]).copy())
+            x = np.array(solution[j])
+            if var.double_size > 0:
+                var.set_double_variables(np.array(x[: var.double_size]))
+
+            if var.integer_size > 0:
+                ints = np.round(np.array(x[-var.integer_size :])).astype(np.int32)
+                var.set_integer_variables(ints)
 
         self.model.reset()
         self.run_stats = self.model.run()
-- 
2.43.0


From 7b39c7e352116d3b9abfed6a5791a1018773696e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:09 +0000
Subject: [PATCH 54/55] fix: RollingVirtualStorage starts every run from its
 current volumes

Its initial utilisation was calculated in setup only, so that a run after
a change of the maximum or initial volume (e.g. by an optimiser) started
from the utilisation of the old one.
---
 pywr/_core.pyx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index 4652313..cc99d7c 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -1521,6 +1521,11 @@ cdef class RollingVirtualStorage(VirtualStorage):
         cdef int ncomb = len(model.scenarios.combinations)
         if self.timesteps < 2:
             raise ValueError('The number of time-steps for a RollingVirtualStorage node must be greater than one.')
+        self._update_initial_utilisation()
+        self._memory = np.full((self.timesteps-1, ncomb), self._initial_utilisation, dtype=np.float64)
+        self._memory_pointer = 0
+
+    def _update_initial_utilisation(self):
         cdef double initial_vol = self.get_initial_volume()
         cdef double initial_pc = self.get_initial_pc()
 
@@ -1530,11 +1535,11 @@ cdef class RollingVirtualStorage(VirtualStorage):
             self._initial_utilisation = self._max_volume / (self.timesteps - 1)
         else:
             self._initial_utilisation = ((initial_vol / initial_pc) - initial_vol) / (self.timesteps - 1)
-        self._memory = np.full((self.timesteps-1, ncomb), self._initial_utilisation, dtype=np.float64)
-        self._memory_pointer = 0
 
     cpdef reset(self):
         VirtualStorage.reset(self)
+        # The maximum and initial volume may have changed since setup
+        self._update_initial_utilisation()
         self._memory[:] = self._initial_utilisation
         self._memory_pointer = 0
 
-- 
2.43.0


From 75ee0125e85f98743110d059c4bf23829c11bbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:24 +0000
Subject: [PATCH 55/55] fix: lpsolve solver uses the current factors of
 aggregated nodes in every run

The coefficients were set in setup only and ignored scale and offset of
the factors' ConstantParameters, so that values set since (e.g. by an
optimiser) had no effect.
---
 pywr/solvers/__init__.py        |  2 +-
 pywr/solvers/cython_lpsolve.pyx | 27 +++++++++++++++++++++------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/pywr/solvers/__init__.py b/pywr/solvers/__init__.py
index 318b532..681eba7 100644
--- a/pywr/solvers/__init__.py
+++ b/pywr/solvers/__init__.py
@@ -327,7 +327,7 @@ else:
             return self._cy_solver.solve(model)
 
         def reset(self):
-            pass
+            return self._cy_solver.reset()
 
         @property
         def save_routes_flows(self):
diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index 74e2625..a047b55 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -51,6 +51,7 @@ cdef extern from "lpsolve/lp_lib.h":
     MYBOOL set_lowbo(lprec *lp, int colnr, REAL value)
     MYBOOL set_row(lprec *lp, int rownr, REAL *row)
     MYBOOL set_rowex(lprec *lp, int rownr, int count, REAL *row, int *colno)
+    MYBOOL set_mat(lprec *lp, int row, int column, REAL value)
     MYBOOL set_rh(lprec *lp, int rownr, REAL value)
     MYBOOL set_rh_range(lprec *lp, int rownr, REAL deltavalue)
     int get_Norig_rows(lprec *lp)
@@ -389,8 +390,8 @@ cdef class CythonLPSolveSolver:
         for agg_node in aggregated:
             nodes = agg_node.nodes
             # NB this only works because the solver supports only fixed (i.e. ConstantParameter) factors
-            factors = [f.get_double_variables()[0] for f in agg_node.factors]
-            assert(len(nodes) == len(factors))
+            factors_norm = agg_node.get_factors_norm(None)
+            assert(len(nodes) == len(factors_norm))
 
             ret = resize_lp(self.prob, get_Norig_rows(self.prob)+len(agg_node.nodes)-1, get_Norig_columns(self.prob))
             row = get_Norig_rows(self.prob)+1
@@ -399,10 +400,6 @@ cdef class CythonLPSolveSolver:
             for node in nodes:
                 cols.append([n for n, route in enumerate(routes) if node in route])
 
-            # normalise factors
-            f0 = factors[0]
-            factors_norm = [f0/f for f in factors]
-
             # update matrix
             for n in range(len(nodes)-1):
                 length = len(cols[0])+len(cols[n+1])
@@ -474,6 +471,24 @@ cdef class CythonLPSolveSolver:
         self.aggregated = aggregated
         self.aggregated_min_max = aggregated_min_max
 
+    def reset(self):
+        # The factors are fixed during a run, but may have been changed since the previous one
+        cdef AggregatedNode agg_node
+        cdef double[:] factors_norm
+        cdef int row, col, n
+
+        if not self.aggregated:
+            return
+
+        row = self.idx_row_aggregated
+        for agg_node in self.aggregated:
+            factors_norm = agg_node.get_factors_norm(None)
+            for n in range(1, len(factors_norm)):
+                for col, route in enumerate(self.routes):
+                    if agg_node.nodes[n] in route:
+                        set_mat(self.prob, row, 1+col, -factors_norm[n])
+                row += 1
+
     cpdef object solve(self, model):
         cdef int[:] scenario_combination
         cdef int scenario_id
-- 
2.43.0


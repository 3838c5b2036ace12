From 285fc9f0e6eb4f601a809de51d5bc95283b9fd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 01/85] fix: record the previous flow of compound and
 aggregated nodes

AggregatedNode, AggregatedStorage, BreakLink, DelayNode and LossLink saved their
previous flow before their own flow was computed, so it was always zero.
---
 pywr/_core.pyx | 9 +++++++--
 pywr/nodes.py  | 9 ++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index 3b1780c..1f4e307 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -760,7 +760,6 @@ cdef class AggregatedNode(AbstractNode):
             self.model.dirty = True
 
     cpdef after(self, Timestep ts):
-        AbstractNode.after(self, ts)
         cdef int i, j
         cdef Node n
 
@@ -774,6 +773,8 @@ cdef class AggregatedNode(AbstractNode):
             self._flow[i] = 0.0
             for j, n in enumerate(self._nodes):
                 self._flow[i] += n._flow[i]*weights[j]
+        # Make sure save is done after setting aggregated flow
+        AbstractNode.after(self, ts)
 
     property factors:
         def __get__(self):
@@ -1399,7 +1400,6 @@ cdef class AggregatedStorage(AbstractStorage):
                 self._current_pc[i] = np.nan
 
     cpdef after(self, Timestep ts):
-        AbstractStorage.after(self, ts)
         cdef int i
         cdef Storage s
         cdef double mxv
@@ -1425,6 +1425,8 @@ cdef class AggregatedStorage(AbstractStorage):
                 self._current_pc[i] = self._volume[i] / mxv
             except ZeroDivisionError:
                 self._current_pc[i] = np.nan
+        # Make sure save is done after setting aggregated flow
+        AbstractStorage.after(self, ts)
 
     cpdef double[:] get_all_min_volume(self, double[:] out=None):
         cdef int i
@@ -1491,6 +1493,9 @@ cdef class VirtualStorage(Storage):
                 for n, f in zip(self._nodes, self._factors):
                     self._flow[i] -= f*n._flow[i]
             Storage.after(self, ts, adjustment=adjustment)
+        else:
+            # No flow is recorded while inactive
+            AbstractStorage.after(self, ts)
 
 
 cdef class RollingVirtualStorage(VirtualStorage):
diff --git a/pywr/nodes.py b/pywr/nodes.py
index 6f32f0e..2efd035 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1166,9 +1166,10 @@ class BreakLink(Node):
             yield self.storage.outputs[0]
 
     def after(self, timestep):
-        super(BreakLink, self).after(timestep)
         # update flow on transfer node to flow via link node
         self.commit_all(self.link.flow)
+        # Make sure save is done after setting the flow
+        super(BreakLink, self).after(timestep)
 
 
 class DelayNode(Node):
@@ -1234,9 +1235,10 @@ class DelayNode(Node):
             yield self.output
 
     def after(self, timestep):
-        super().after(timestep)
         # delayed flow is saved to the DelayNode
         self.commit_all(self.input.flow)
+        # Make sure save is done after setting the flow
+        super().after(timestep)
 
 
 class LossLink(Node):
@@ -1359,9 +1361,10 @@ class LossLink(Node):
             yield self.gross
 
     def after(self, timestep):
-        super().after(timestep)
         # Net flow is saved to the node.
         self.commit_all(self.net.flow)
+        # Make sure save is done after setting the flow
+        super().after(timestep)
 
 
 class ShadowStorage(Loadable, Drawable, _core.ShadowStorage, metaclass=NodeMeta):
-- 
2.43.0


From 27e20c53c25b041bd785f178649c56a766a2285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 02/85] fix: reset the flow of an aggregated storage

---
 pywr/_core.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index 1f4e307..8673a5b 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -1383,6 +1383,7 @@ cdef class AggregatedStorage(AbstractStorage):
             return np.sum([s.get_initial_volume() for s in self._storage_nodes])
 
     cpdef reset(self):
+        AbstractStorage.reset(self)
         cdef int i
         cdef double mxv = 0.0
         cdef ScenarioIndex si
-- 
2.43.0


From f6e9705068a78207a5ee28bd1147d23375dc71ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 03/85] fix: reset the sub-nodes of compound nodes at the start
 of a run

---
 pywr/_model.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 2389d23..4c0181d 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -767,7 +767,8 @@ class Model(object):
         if profile:
             profiler = Profiler()
 
-        for node in self.nodes:
+        # Reset all nodes, including those that are part of a compound node
+        for node in self.graph.nodes():
             if length_changed:
                 try:
                     node.setup(self)
-- 
2.43.0


From 0d3ee8aaf2e2cfe8866940b2d704bd7df1b0cf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 04/85] fix: set the model up again when a component has been
 added since the last run

---
 pywr/_component.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywr/_component.pyx b/pywr/_component.pyx
index 1b00d6b..9ee8f93 100644
--- a/pywr/_component.pyx
+++ b/pywr/_component.pyx
@@ -87,6 +87,8 @@ cdef class Component:
         self.comment = comment
         self.tags = tags
         model.component_graph.add_edge(ROOT_NODE, self)
+        # The new component must be set up before the next run
+        model.dirty = True
         self.parents = GraphInterface(self)
         self.children = GraphInterface(self)
 
-- 
2.43.0


From aa7c4a5aafaab44714dd0364b2bdf8984475d90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 05/85] fix: evaluate the thresholds of multiple threshold
 parameters before the parameter

---
 pywr/parameters/_thresholds.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_thresholds.pyx b/pywr/parameters/_thresholds.pyx
index 5a98a9f..cfec7a9 100644
--- a/pywr/parameters/_thresholds.pyx
+++ b/pywr/parameters/_thresholds.pyx
@@ -207,7 +207,7 @@ cdef class MultipleThresholdIndexParameter(IndexParameter):
             self.thresholds.append(threshold)
 
         for threshold in self.thresholds:
-            self.children.add(thresholds)
+            self.children.add(threshold)
 
     cpdef int index(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
         """Returns the index of the first threshold the node flow is above.
@@ -260,7 +260,7 @@ cdef class MultipleThresholdParameterIndexParameter(IndexParameter):
             self.thresholds.append(threshold)
 
         for threshold in self.thresholds:
-            self.children.add(thresholds)
+            self.children.add(threshold)
 
     cpdef int index(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
         """Returns the index of the first threshold the parameter value is above.
-- 
2.43.0


From 29c505483ba547bebbecfa93749a3192fdf7b976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 06/85] fix: read the is_constant property of the max volume of
 a weighted average profile

---
 pywr/parameters/_control_curves.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/parameters/_control_curves.pyx b/pywr/parameters/_control_curves.pyx
index 2b659e9..4126199 100644
--- a/pywr/parameters/_control_curves.pyx
+++ b/pywr/parameters/_control_curves.pyx
@@ -588,7 +588,7 @@ cdef class WeightedAverageProfileParameter(Parameter):
         for (storage, profile) in zip(self.storages, self.profiles):
             max_volume = storage.max_volume
             if isinstance(max_volume, Parameter):
-                if max_volume.is_constant():
+                if max_volume.is_constant:
                     max_volume = max_volume.get_constant_value()
                 else:
                     raise ValueError("Storages with max_volume set to non-constant parameters cannot be used in WeightedAverageProfileParameter")
-- 
2.43.0


From fc520e0ef782ca9785db10e450492db033050d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 07/85] fix: pass the keyword arguments of a dataframe
 parameter on to its base class

---
 pywr/parameters/_parameters.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 39084ba..6bb4a39 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -204,7 +204,7 @@ cdef class DataFrameParameter(Parameter):
         value available.
     """
     def __init__(self, model, dataframe, scenario=None, timestep_offset=0, **kwargs):
-        super(DataFrameParameter, self).__init__(model, *kwargs)
+        super(DataFrameParameter, self).__init__(model, **kwargs)
         self.dataframe = dataframe
         self.scenario = scenario
         self.timestep_offset = timestep_offset
-- 
2.43.0


From 7e2b6c1acb9b35e01319adec11dd24afaff8e64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 08/85] fix: set the model up again when a parameter has been
 added since the last run

---
 pywr/_component.pyx             | 2 --
 pywr/parameters/_parameters.pyx | 2 ++
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/_component.pyx b/pywr/_component.pyx
index 9ee8f93..1b00d6b 100644
--- a/pywr/_component.pyx
+++ b/pywr/_component.pyx
@@ -87,8 +87,6 @@ cdef class Component:
         self.comment = comment
         self.tags = tags
         model.component_graph.add_edge(ROOT_NODE, self)
-        # The new component must be set up before the next run
-        model.dirty = True
         self.parents = GraphInterface(self)
         self.children = GraphInterface(self)
 
diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 6bb4a39..3b62a7b 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -42,6 +42,8 @@ class TypeNotFoundError(KeyError):
 cdef class Parameter(Component):
     def __init__(self, *args, is_variable=False, **kwargs):
         super(Parameter, self).__init__(*args, **kwargs)
+        # The new parameter must be set up before the next run
+        self.model.dirty = True
         self.is_variable = is_variable
         self.double_size = 0
         self.integer_size = 0
-- 
2.43.0


From d288973920d3e55539d27849120352387fc9ce22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:07 +0000
Subject: [PATCH 09/85] fix: keep the reset of sub-nodes within their compound
 node's profile entry

---
 pywr/_model.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 4c0181d..5dcdee7 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -778,7 +778,8 @@ class Model(object):
                     raise
             try:
                 node.reset()
-                if profiler is not None:
+                # sub-nodes are part of their compound node's entry
+                if profiler is not None and node.parent is None:
                     profiler.checkpoint('reset', node.__class__.__name__, node.name)
             except Exception as err:
                 # reraise the exception after logging some info about source of error
-- 
2.43.0


From f4f23b33050fb29e31086a516f553b829fec4b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 10/85] fix: derive whether a seasonal virtual storage operates
 from the date alone

---
 pywr/nodes.py | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 2efd035..0016099 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -687,36 +687,21 @@ class SeasonalVirtualStorage(AnnualVirtualStorage):
     def __init__(self, *args, **kwargs):
         self.end_day = kwargs.pop("end_day", 31)
         self.end_month = kwargs.pop("end_month", 12)
-        self._last_active_year = None
 
         super().__init__(*args, **kwargs)
 
     def before(self, ts):
         super().before(ts)
 
-        if ts.year != self._last_active_year:
-            if ts.index == 0:
-                if self._last_reset_year == ts.year:
-                    # First timestep is later in year than reset date
-                    if self.end_month < self.reset_month or (
-                        self.end_month == self.reset_month
-                        and self.end_day <= self.reset_day
-                    ):
-                        # end date is earlier in year than reset date so do not deactivate node in first year
-                        self._last_active_year = ts.year
-                else:
-                    # First timestep is earlier in year than reset date
-                    if self.end_month > self.reset_month or (
-                        self.end_month == self.reset_month
-                        and self.end_day >= self.reset_day
-                    ):
-                        # end date is later in year than reset date so node needs to be deactivated
-                        self.active = False
-            elif ts.month > self.end_month or (
-                ts.month == self.end_month and ts.day >= self.end_day
-            ):
-                self._last_active_year = ts.year
-                self.active = False
+        # The node operates from its reset date up to (but excluding) its end date
+        date = (ts.month, ts.day)
+        start = (self.reset_month, self.reset_day)
+        end = (self.end_month, self.end_day)
+        if start < end:
+            self.active = start <= date < end
+        else:
+            # The end date is earlier in year than reset date so the operating period spans the year boundary
+            self.active = date >= start or date < end
 
 
 class MonthlyVirtualStorage(VirtualStorage):
-- 
2.43.0


From 802e5ab978be20d63231967f3145e538b73a24df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 11/85] fix: reset an annual virtual storage when its reset
 date falls between timesteps of different years

---
 pywr/nodes.py | 45 +++++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 0016099..095e2b6 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -630,30 +630,27 @@ class AnnualVirtualStorage(VirtualStorage):
     def before(self, ts):
         super(AnnualVirtualStorage, self).before(ts)
 
-        if ts.index == 0:
-            if ts.month > self.reset_month or (
-                ts.month == self.reset_month and ts.day > self.reset_day
-            ):
-                # Assume we reset before the model started
-                self._last_reset_year = ts.year
-
-        # Reset the storage volume if necessary
-        if ts.year != self._last_reset_year:
-            # I.e. we're in a new year and ...
-            # ... we're at or past the reset month/day
-            if ts.month > self.reset_month or (
-                ts.month == self.reset_month and ts.day >= self.reset_day
-            ):
-                # Reset maximum volume depending on user preference ...
-                use_initial_volume = self.reset_to_initial_volume
-                if ts.index == 0 and isinstance(self.max_volume, Parameter):
-                    # ... if it is the first timestep and max volume is a parameter, then we can only reset to
-                    # initial volume because the max volume would not be evaluated
-                    use_initial_volume = True
-
-                self._reset_storage_only(use_initial_volume=use_initial_volume)
-                self._last_reset_year = ts.year
-                self.active = True
+        # The year of the most recent reset date
+        date = (ts.month, ts.day)
+        reset_date = (self.reset_month, self.reset_day)
+        reset_year = ts.year if date >= reset_date else ts.year - 1
+
+        if ts.index == 0 and date != reset_date:
+            # Assume we reset before the model started
+            self._last_reset_year = reset_year
+
+        # Reset the storage volume if a reset date has been reached (or passed) since the last reset
+        if reset_year != self._last_reset_year:
+            # Reset maximum volume depending on user preference ...
+            use_initial_volume = self.reset_to_initial_volume
+            if ts.index == 0 and isinstance(self.max_volume, Parameter):
+                # ... if it is the first timestep and max volume is a parameter, then we can only reset to
+                # initial volume because the max volume would not be evaluated
+                use_initial_volume = True
+
+            self._reset_storage_only(use_initial_volume=use_initial_volume)
+            self._last_reset_year = reset_year
+            self.active = True
 
 
 class SeasonalVirtualStorage(AnnualVirtualStorage):
-- 
2.43.0


From f06824d1d5db7d338596968bbece85c63fe28f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 12/85] fix: count the months passed between timesteps in
 monthly virtual storages

---
 pywr/nodes.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 095e2b6..9c1f09c 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -729,14 +729,18 @@ class MonthlyVirtualStorage(VirtualStorage):
 
     def before(self, ts):
         super().before(ts)
-        if ts.month != self._last_month:
-            self._last_month = ts.month
-            self._count += 1
-            if self._count == self.months:
-                self._count = 0
-                self._reset_storage_only(
-                    use_initial_volume=self.reset_to_initial_volume
-                )
+        month = ts.year * 12 + ts.month
+        if month != self._last_month:
+            # More than one month can pass between timesteps
+            self._count += 1 if self._last_month is None else month - self._last_month
+            self._last_month = month
+            if self._count >= self.months:
+                self._count %= self.months
+                use_initial_volume = self.reset_to_initial_volume
+                if ts.index == 0 and isinstance(self.max_volume, Parameter):
+                    # The max volume is not evaluated before the first timestep
+                    use_initial_volume = True
+                self._reset_storage_only(use_initial_volume=use_initial_volume)
 
 
 class PiecewiseLink(Node):
-- 
2.43.0


From 62ae5a12e244a0bc61bdceacaf1492818c723aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:26 +0000
Subject: [PATCH 13/85] fix: compute the initial utilisation of a rolling
 virtual storage at the start of every run

---
 pywr/_core.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index 8673a5b..e76f7e0 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -1508,6 +1508,11 @@ cdef class RollingVirtualStorage(VirtualStorage):
         cdef int ncomb = len(model.scenarios.combinations)
         if self.timesteps < 2:
             raise ValueError('The number of time-steps for a RollingVirtualStorage node must be greater than one.')
+        self._memory = np.empty((self.timesteps-1, ncomb), dtype=np.float64)
+        self._memory_pointer = 0
+
+    cpdef reset(self):
+        VirtualStorage.reset(self)
         cdef double initial_vol = self.get_initial_volume()
         cdef double initial_pc = self.get_initial_pc()
 
@@ -1517,11 +1522,6 @@ cdef class RollingVirtualStorage(VirtualStorage):
             self._initial_utilisation = self._max_volume / (self.timesteps - 1)
         else:
             self._initial_utilisation = ((initial_vol / initial_pc) - initial_vol) / (self.timesteps - 1)
-        self._memory = np.full((self.timesteps-1, ncomb), self._initial_utilisation, dtype=np.float64)
-        self._memory_pointer = 0
-
-    cpdef reset(self):
-        VirtualStorage.reset(self)
         self._memory[:] = self._initial_utilisation
         self._memory_pointer = 0
 
-- 
2.43.0


From cafcede35357d76f1f94908808373a79e463e942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:42 +0000
Subject: [PATCH 14/85] fix: divide mean and frequency recorders by the number
 of timesteps taken

---
 pywr/recorders/_recorders.pyx | 21 ++++++++++++---------
 pywr/timestepper.py           |  6 ++++++
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 62b529e..791e991 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1796,9 +1796,10 @@ cdef class MeanFlowNodeRecorder(BaseConstantNodeRecorder):
 
     cpdef finish(self):
         cdef int i
-        cdef int nt = self.model.timestepper.current.index
-        for i in range(self._values.shape[0]):
-            self._values[i] /= nt
+        cdef int nt = self.model.timestepper.steps_taken
+        if nt > 0:
+            for i in range(self._values.shape[0]):
+                self._values[i] /= nt
 MeanFlowNodeRecorder.register()
 
 
@@ -1817,9 +1818,10 @@ cdef class DeficitFrequencyNodeRecorder(BaseConstantNodeRecorder):
 
     cpdef finish(self):
         cdef int i
-        cdef int nt = self.model.timestepper.current.index
-        for i in range(self._values.shape[0]):
-            self._values[i] /= nt
+        cdef int nt = self.model.timestepper.steps_taken
+        if nt > 0:
+            for i in range(self._values.shape[0]):
+                self._values[i] /= nt
 DeficitFrequencyNodeRecorder.register()
 
 cdef class BaseConstantStorageRecorder(StorageRecorder):
@@ -2349,7 +2351,8 @@ cdef class MeanParameterRecorder(BaseConstantParameterRecorder):
 
     cpdef finish(self):
         cdef int i
-        cdef int nt = self.model.timestepper.current.index
-        for i in range(self._values.shape[0]):
-            self._values[i] /= nt
+        cdef int nt = self.model.timestepper.steps_taken
+        if nt > 0:
+            for i in range(self._values.shape[0]):
+                self._values[i] /= nt
 MeanParameterRecorder.register()
diff --git a/pywr/timestepper.py b/pywr/timestepper.py
index e7282ce..7321ba1 100644
--- a/pywr/timestepper.py
+++ b/pywr/timestepper.py
@@ -71,6 +71,7 @@ class Timestepper(object):
                     "New starting position is outside the range of the model timesteps."
                 )
 
+        self._first_index = current_index
         self._next = _core.Timestep(
             self._periods[current_index], current_index, self._deltas[current_index]
         )
@@ -109,6 +110,11 @@ class Timestepper(object):
         # Return this timestep
         return current
 
+    @property
+    def steps_taken(self):
+        """The number of timesteps taken since the last reset."""
+        return 0 if self._next is None else self._next.index - self._first_index
+
     @property
     def start(self):
         return self._start
-- 
2.43.0


From 525281e452fc151dcd12e2acbc15a706e0747762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:16 +0000
Subject: [PATCH 15/85] fix: count a flow once per member it passes in the
 limits of aggregated nodes

---
 pywr/solvers/cython_glpk.pyx    | 12 ++++++------
 pywr/solvers/cython_lpsolve.pyx |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index baa5f4a..b7f9ed8 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -687,10 +687,10 @@ cdef class CythonGLPKSolver(GLPKSolver):
             for some_node, w in zip(nodes, weights):
                 for n, route in enumerate(routes):
                     if some_node in route:
-                        matrix[n] = w
+                        matrix[n] = matrix.get(n, 0.0) + w
             length = len(matrix)
-            ind = <int*>malloc(1+length * sizeof(int))
-            val = <double*>malloc(1+length * sizeof(double))
+            ind = <int*>malloc((1+length) * sizeof(int))
+            val = <double*>malloc((1+length) * sizeof(double))
             for i, col in enumerate(sorted(matrix)):
                 ind[1+i] = 1+col
                 val[1+i] = matrix[col]
@@ -1517,11 +1517,11 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
                     node_cols = some_node._AbstractNode__data.out_edges
 
                 for n in node_cols:
-                    matrix[n] = w
+                    matrix[n] = matrix.get(n, 0.0) + w
 
             length = len(matrix)
-            ind = <int*>malloc(1+length * sizeof(int))
-            val = <double*>malloc(1+length * sizeof(double))
+            ind = <int*>malloc((1+length) * sizeof(int))
+            val = <double*>malloc((1+length) * sizeof(double))
             for i, col in enumerate(sorted(matrix)):
                 ind[1+i] = 1+col
                 val[1+i] = matrix[col]
diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index 2eb1e72..dfa9cbe 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -429,7 +429,7 @@ cdef class CythonLPSolveSolver:
             for node, w in zip(nodes, weights):
                 for n, route in enumerate(routes):
                     if node in route:
-                        matrix[n] = w
+                        matrix[n] = matrix.get(n, 0.0) + w
 
             length = len(matrix)
             ind = <int*>malloc(length * sizeof(int))
-- 
2.43.0


From b6abcefe298318c8ea02937ced43175ba6a75205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:15 +0000
Subject: [PATCH 16/85] fix: count only the routes whose flow a member carries
 in the limits of aggregated nodes

---
 pywr/solvers/cython_glpk.pyx    | 3 ++-
 pywr/solvers/cython_lpsolve.pyx | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index b7f9ed8..98ce6b5 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -686,7 +686,8 @@ cdef class CythonGLPKSolver(GLPKSolver):
             matrix = {}
             for some_node, w in zip(nodes, weights):
                 for n, route in enumerate(routes):
-                    if some_node in route:
+                    # an input or output has the flow of a route only at its start or end
+                    if some_node is route[0] or some_node is route[-1] or (isinstance(some_node, BaseLink) and some_node in route):
                         matrix[n] = matrix.get(n, 0.0) + w
             length = len(matrix)
             ind = <int*>malloc((1+length) * sizeof(int))
diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index dfa9cbe..f23eea1 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -428,7 +428,8 @@ cdef class CythonLPSolveSolver:
             matrix = {}
             for node, w in zip(nodes, weights):
                 for n, route in enumerate(routes):
-                    if node in route:
+                    # an input or output has the flow of a route only at its start or end
+                    if node is route[0] or node is route[-1] or (isinstance(node, BaseLink) and node in route):
                         matrix[n] = matrix.get(n, 0.0) + w
 
             length = len(matrix)
-- 
2.43.0


From ca74f17993794b4b78bfb5ac51cf69028fef4a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 17/85] fix: allow the factors of aggregated nodes to become
 zero

---
 pywr/_core.pyx               |  3 ++-
 pywr/solvers/cython_glpk.pyx | 24 ++++++++++++++++--------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index e76f7e0..a5bccc8 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -936,7 +936,8 @@ cdef class AggregatedNode(AbstractNode):
         factors_norm = np.empty(len(factors), np.float64)
 
         for i in range(len(factors)):
-            factors_norm[i] = f0/factors[i]
+            # A factor of zero is represented by infinity
+            factors_norm[i] = f0/factors[i] if factors[i] != 0.0 else inf
         return factors_norm
 
 
diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index 98ce6b5..ff5afec 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -810,9 +810,11 @@ cdef class CythonGLPKSolver(GLPKSolver):
                 ptr = indptr_array[n]
                 length = indptr_array[n+1] - ptr
 
-                # only update factors for second node of each row, factor values for first node are already 1.0
+                # a node with a factor of zero has no flow whatever the flow of the first node
+                for i in range(ptr + 1, ptr + agg_data.node_ind):
+                    vals[i] = 0.0 if factors_norm[n+1] == inf else 1.0
                 for i in range(ptr + agg_data.node_ind, ptr + length):
-                    vals[i] = -factors_norm[n+1]
+                    vals[i] = 1.0 if factors_norm[n+1] == inf else -factors_norm[n+1]
 
                 # 'length - 1' is used here because the ind and val slices start with a padded zero value.
                 # This is required by 'set_mat_row'.
@@ -915,9 +917,11 @@ cdef class CythonGLPKSolver(GLPKSolver):
                 ptr = indptr_array[n]
                 length = indptr_array[n+1] - ptr
 
-                # only update factors for second node of each row, factor values for first node are already 1.0
+                # a node with a factor of zero has no flow whatever the flow of the first node
+                for i in range(ptr + 1, ptr + agg_data.node_ind):
+                    vals[i] = 0.0 if factors_norm[n+1] == inf else 1.0
                 for i in range(ptr + agg_data.node_ind, ptr + length):
-                    vals[i] = -factors_norm[n+1]
+                    vals[i] = 1.0 if factors_norm[n+1] == inf else -factors_norm[n+1]
 
                 # 'length - 1' is used here because the ind and val slices start with a padded zero value.
                 # This is required by 'set_mat_row'.
@@ -1623,9 +1627,11 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
                 ptr = indptr_array[n]
                 length = indptr_array[n+1] - ptr
 
-                # only update factors for second node of each row, factor values for first node are already 1.0
+                # a node with a factor of zero has no flow whatever the flow of the first node
+                for i in range(ptr + 1, ptr + agg_data.node_ind):
+                    vals[i] = 0.0 if factors_norm[n+1] == inf else 1.0
                 for i in range(ptr + agg_data.node_ind, ptr + length):
-                    vals[i] = -factors_norm[n+1]
+                    vals[i] = 1.0 if factors_norm[n+1] == inf else -factors_norm[n+1]
 
                 # 'length - 1' is used here because the ind and val slices start with a padded zero value.
                 # This is required by 'set_mat_row'.
@@ -1739,9 +1745,11 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
                 ptr = indptr_array[n]
                 length = indptr_array[n+1] - ptr
 
-                # only update factors for second node of each row, factor values for first node are already 1.0
+                # a node with a factor of zero has no flow whatever the flow of the first node
+                for i in range(ptr + 1, ptr + agg_data.node_ind):
+                    vals[i] = 0.0 if factors_norm[n+1] == inf else 1.0
                 for i in range(ptr + agg_data.node_ind, ptr + length):
-                    vals[i] = -factors_norm[n+1]
+                    vals[i] = 1.0 if factors_norm[n+1] == inf else -factors_norm[n+1]
 
                 # 'length - 1' is used here because the ind and val slices start with a padded zero value.
                 # This is required by 'set_mat_row'.
-- 
2.43.0


From a94d18dc52636f6ef6fedb059b8822c6d9e97750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:25 +0000
Subject: [PATCH 18/85] fix: infeasible limits and shrunken storages with
 lpsolve

---
 pywr/solvers/cython_lpsolve.pyx | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index f23eea1..310f54e 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -66,7 +66,7 @@ cdef extern from "lpsolve/lp_lib.h":
     int get_presolveloops(lprec *lp)
 
 cdef inline int set_row_bnds(lprec *prob, int row, double a, double b):
-    if a == b:
+    if a >= b:
         set_constr_type(prob, row, EQ)
         set_rh(prob, row, a)
         # set_rh_range(prob, row, 0.0)
@@ -104,6 +104,12 @@ cdef inline double inf_to_dbl_max(double a):
         return -DBL_MAX
     return a
 
+cdef int check_bnds(object node, double a, double b) except -1:
+    """Raise an error if the bounds contradict each other; lpsolve would not report the problem as infeasible"""
+    if a - b > 1e-8:
+        raise RuntimeError(f'The minimum ({a}) of node "{node.name}" is greater than its maximum ({b}): the problem is infeasible.')
+    return 0
+
 cdef class CythonLPSolveSolver:
     cdef lprec *prob
     cdef int idx_col_routes
@@ -519,6 +525,7 @@ cdef class CythonLPSolveSolver:
         for col, supply in enumerate(supplys):
             min_flow = inf_to_dbl_max(supply.get_min_flow(scenario_index))
             max_flow = inf_to_dbl_max(supply.get_max_flow(scenario_index))
+            check_bnds(supply, min_flow, max_flow)
             set_row_bnds(self.prob, self.idx_row_supplys+col, min_flow, max_flow)
 
         # update demand properties
@@ -526,7 +533,8 @@ cdef class CythonLPSolveSolver:
             min_flow = inf_to_dbl_max(demand.get_min_flow(scenario_index))
             max_flow = inf_to_dbl_max(demand.get_max_flow(scenario_index))
             cost = demand.get_cost(scenario_index)
-            set_bounds(self.prob, self.idx_col_demands+col, min_flow, max_flow)
+            check_bnds(demand, min_flow, max_flow)
+            set_bounds(self.prob, self.idx_col_demands+col, min(min_flow, max_flow), max_flow)
             set_obj(self.prob, self.idx_col_demands+col, cost)
 
         self.stats['bounds_update_nonstorage'] += time.perf_counter() - t0
@@ -539,7 +547,7 @@ cdef class CythonLPSolveSolver:
             # change in storage cannot be more than the current volume or
             # result in maximum volume being exceeded
             lb = -avail_volume/timestep.days
-            ub = (max_volume - storage._volume[scenario_index.global_id]) / timestep.days
+            ub = max(max_volume - storage._volume[scenario_index.global_id], 0.0) / timestep.days
             set_row_bnds(self.prob, self.idx_row_storages+col, lb, ub)
 
         # update virtual storage node constraint
@@ -552,7 +560,7 @@ cdef class CythonLPSolveSolver:
                 # change in storage cannot be more than the current volume or
                 # result in maximum volume being exceeded
                 lb = -avail_volume/timestep.days
-                ub = (max_volume - storage._volume[scenario_index.global_id]) / timestep.days
+                ub = max(max_volume - storage._volume[scenario_index.global_id], 0.0) / timestep.days
                 set_row_bnds(self.prob, self.idx_row_virtual_storages+col, lb, ub)
 
         self.stats['bounds_update_storage'] += time.perf_counter() - t0
-- 
2.43.0


From 6d81ae8cace94e100cb2e1b04eb01856282d9bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:49 +0000
Subject: [PATCH 19/85] fix: apply the current limits of aggregated nodes with
 lpsolve

---
 pywr/solvers/cython_lpsolve.pyx | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index 310f54e..507df79 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -128,6 +128,7 @@ cdef class CythonLPSolveSolver:
     cdef list storages
     cdef list virtual_storages
     cdef list aggregated
+    cdef list aggregated_min_max
     cdef public object stats
     cdef int num_routes
     cdef int num_scenarios
@@ -202,9 +203,7 @@ cdef class CythonLPSolveSolver:
                                         when using the lpsolve solver. Please use the glpk or glpk-edge solver \
                                         instead".format(some_node.name))
                     aggregated.append(some_node)
-                if some_node.min_flow > -inf or \
-                   some_node.max_flow < inf:
-                    aggregated_min_max.append(some_node)
+                aggregated_min_max.append(some_node)
 
         if len(routes) == 0:
             raise ModelStructureError("Model has no valid routes")
@@ -415,17 +414,8 @@ cdef class CythonLPSolveSolver:
             self.idx_row_aggregated_min_max = get_Norig_rows(self.prob)+1
             ret = resize_lp(self.prob, get_Norig_rows(self.prob)+len(aggregated_min_max), get_Norig_columns(self.prob))
 
-        for row, agg_node in enumerate(aggregated_min_max):
-            row = self.idx_row_aggregated_min_max + row
+        for agg_node in aggregated_min_max:
             nodes = agg_node.nodes
-            min_flow = agg_node.min_flow
-            max_flow = agg_node.max_flow
-            if min_flow is None:
-                min_flow = -inf
-            if max_flow is None:
-                max_flow = inf
-            min_flow = inf_to_dbl_max(min_flow)
-            max_flow = inf_to_dbl_max(max_flow)
 
             weights = agg_node.flow_weights
             if weights is None:
@@ -445,7 +435,6 @@ cdef class CythonLPSolveSolver:
                 ind[i] = 1+col
                 val[i] = matrix[col]
             add_constraintex(self.prob, length, val, ind, EQ, 0.0)
-            set_row_bnds(self.prob, row, min_flow, max_flow)
             free(ind)
             free(val)
 
@@ -471,6 +460,7 @@ cdef class CythonLPSolveSolver:
         self.storages = storages
         self.virtual_storages = virtual_storages
         self.aggregated = aggregated
+        self.aggregated_min_max = aggregated_min_max
 
     cpdef object solve(self, model):
         cdef int[:] scenario_combination
@@ -484,6 +474,7 @@ cdef class CythonLPSolveSolver:
         cdef Node supply
         cdef Node demand
         cdef Node node
+        cdef AggregatedNode agg_node
         cdef double min_flow
         cdef double max_flow
         cdef double cost
@@ -537,6 +528,13 @@ cdef class CythonLPSolveSolver:
             set_bounds(self.prob, self.idx_col_demands+col, min(min_flow, max_flow), max_flow)
             set_obj(self.prob, self.idx_col_demands+col, cost)
 
+        # update the limits of aggregated nodes
+        for col, agg_node in enumerate(self.aggregated_min_max):
+            min_flow = inf_to_dbl_max(agg_node.get_min_flow(scenario_index))
+            max_flow = inf_to_dbl_max(agg_node.get_max_flow(scenario_index))
+            check_bnds(agg_node, min_flow, max_flow)
+            set_row_bnds(self.prob, self.idx_row_aggregated_min_max+col, min_flow, max_flow)
+
         self.stats['bounds_update_nonstorage'] += time.perf_counter() - t0
         t0 = time.perf_counter()
 
-- 
2.43.0


From ff4962bd7b339b16746ae0aa66bf0069e22b75d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:48 +0000
Subject: [PATCH 20/85] fix: rebuild the basis when varying factors make it
 singular

---
 pywr/solvers/cython_glpk.pyx | 15 ++++++++++++++-
 pywr/solvers/libglpk.pxd     |  3 +++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index ff5afec..d95367d 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -1034,7 +1034,13 @@ cdef class CythonGLPKSolver(GLPKSolver):
             simplex_ret = simplex_unsafe(self.prob, self.smcp)
         else:
             simplex_ret = simplex_safe(self.prob, self.smcp)
-
+        if simplex_ret in (GLP_EBADB, GLP_ESING, GLP_ECOND):
+            # the basis of the previous solve is no longer valid with the current factors of aggregated nodes
+            glp_adv_basis(self.prob, 0)
+            if self.use_unsafe_api:
+                simplex_ret = simplex_unsafe(self.prob, self.smcp)
+            else:
+                simplex_ret = simplex_safe(self.prob, self.smcp)
         status = glp_get_status(self.prob)
         if (status != GLP_OPT or simplex_ret != 0) and self.retry_solve:
             # try creating a new basis and resolving
@@ -1862,6 +1868,13 @@ cdef class CythonGLPKEdgeSolver(GLPKSolver):
             simplex_ret = simplex_unsafe(self.prob, self.smcp)
         else:
             simplex_ret = simplex_safe(self.prob, self.smcp)
+        if simplex_ret in (GLP_EBADB, GLP_ESING, GLP_ECOND):
+            # the basis of the previous solve is no longer valid with the current factors of aggregated nodes
+            glp_adv_basis(self.prob, 0)
+            if self.use_unsafe_api:
+                simplex_ret = simplex_unsafe(self.prob, self.smcp)
+            else:
+                simplex_ret = simplex_safe(self.prob, self.smcp)
         status = glp_get_status(self.prob)
         if (status != GLP_OPT or simplex_ret != 0) and self.retry_solve:
             # try creating a new basis and resolving
diff --git a/pywr/solvers/libglpk.pxd b/pywr/solvers/libglpk.pxd
index e7663eb..b3f1e54 100644
--- a/pywr/solvers/libglpk.pxd
+++ b/pywr/solvers/libglpk.pxd
@@ -31,6 +31,9 @@ cdef extern from "glpk.h":
     int GLP_INFEAS = 3  # solution is infeasible
     int GLP_NOFEAS = 4  # no feasible solution exists
     int GLP_OPT = 5  # solution is optimal
+    int GLP_EBADB = 0x01  # invalid basis
+    int GLP_ESING = 0x02  # singular matrix
+    int GLP_ECOND = 0x03  # ill-conditioned matrix
     int GLP_UNBND = 6  # solution is unbounded
 
     int GLP_MSG_OFF = 0  # no output
-- 
2.43.0


From e3d73c57dda876d79293fc5b7700828b01fdb404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:34 +0000
Subject: [PATCH 21/85] fix: reset periodic virtual storages by the first
 timestep of the run

---
 pywr/nodes.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 9c1f09c..e50322a 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -635,7 +635,9 @@ class AnnualVirtualStorage(VirtualStorage):
         reset_date = (self.reset_month, self.reset_day)
         reset_year = ts.year if date >= reset_date else ts.year - 1
 
-        if ts.index == 0 and date != reset_date:
+        # A run can start part-way through the model's time period
+        first_timestep = self._last_reset_year is None
+        if first_timestep and date != reset_date:
             # Assume we reset before the model started
             self._last_reset_year = reset_year
 
@@ -643,7 +645,7 @@ class AnnualVirtualStorage(VirtualStorage):
         if reset_year != self._last_reset_year:
             # Reset maximum volume depending on user preference ...
             use_initial_volume = self.reset_to_initial_volume
-            if ts.index == 0 and isinstance(self.max_volume, Parameter):
+            if first_timestep and isinstance(self.max_volume, Parameter):
                 # ... if it is the first timestep and max volume is a parameter, then we can only reset to
                 # initial volume because the max volume would not be evaluated
                 use_initial_volume = True
@@ -730,14 +732,15 @@ class MonthlyVirtualStorage(VirtualStorage):
     def before(self, ts):
         super().before(ts)
         month = ts.year * 12 + ts.month
+        first_timestep = self._last_month is None
         if month != self._last_month:
             # More than one month can pass between timesteps
-            self._count += 1 if self._last_month is None else month - self._last_month
+            self._count += 1 if first_timestep else month - self._last_month
             self._last_month = month
             if self._count >= self.months:
                 self._count %= self.months
                 use_initial_volume = self.reset_to_initial_volume
-                if ts.index == 0 and isinstance(self.max_volume, Parameter):
+                if first_timestep and isinstance(self.max_volume, Parameter):
                     # The max volume is not evaluated before the first timestep
                     use_initial_volume = True
                 self._reset_storage_only(use_initial_volume=use_initial_volume)
-- 
2.43.0


From 2e3556b36d6bd4e1fad31cca40562507225983df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:34 +0000
Subject: [PATCH 22/85] fix: rolling mean of the flows stored since the start
 of the run

---
 pywr/parameters/_parameters.pxd |  1 +
 pywr/parameters/_parameters.pyx | 13 ++++++-------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/pywr/parameters/_parameters.pxd b/pywr/parameters/_parameters.pxd
index 6050684..009c46a 100644
--- a/pywr/parameters/_parameters.pxd
+++ b/pywr/parameters/_parameters.pxd
@@ -231,6 +231,7 @@ cdef class DiscountFactorParameter(Parameter):
 
 cdef class RollingMeanFlowNodeParameter(Parameter):
     cdef int position
+    cdef int _stored
     cdef public int timesteps
     cdef public int days
     cdef public double initial_flow
diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 3b62a7b..1950fa7 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -2225,6 +2225,7 @@ cdef class RollingMeanFlowNodeParameter(Parameter):
             self.days = 0
         self._memory = None
         self.position = 0
+        self._stored = 0
 
     cpdef setup(self):
         super(RollingMeanFlowNodeParameter, self).setup()
@@ -2240,21 +2241,17 @@ cdef class RollingMeanFlowNodeParameter(Parameter):
     cpdef reset(self):
         super(RollingMeanFlowNodeParameter, self).reset()
         self.position = 0
+        self._stored = 0
         self._memory[:] = 0.0
 
     cpdef double value(self, Timestep ts, ScenarioIndex scenario_index) except? -1:
 
-        cdef int n
         # No data in memory yet
-        if ts.index == 0:
+        if self._stored == 0:
             return self.initial_flow
 
         # Calculate the mean flow from the memory
-        if ts.index <= self.timesteps:
-            n = ts.index
-        else:
-            n = self.timesteps
-        return np.mean(self._memory[scenario_index.global_id, :n])
+        return np.mean(self._memory[scenario_index.global_id, :self._stored])
 
     cpdef after(self):
         cdef int i
@@ -2263,6 +2260,8 @@ cdef class RollingMeanFlowNodeParameter(Parameter):
             self._memory[i, self.position] = self.node._flow[i]
 
         # prepare for the next timestep
+        if self._stored < self.timesteps:
+            self._stored += 1
         self.position += 1
         if self.position >= self.timesteps:
             self.position = 0
-- 
2.43.0


From cf5173f3c90db2e04e1b84e16c4307255e44df74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:40 +0000
Subject: [PATCH 23/85] fix: deficits of compound nodes

---
 pywr/nodes.py                   | 18 ++++++++++++++++++
 pywr/parameters/_parameters.pyx | 13 +++++--------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index e50322a..85e4881 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1146,6 +1146,15 @@ class BreakLink(Node):
 
     cost = property(**cost())
 
+    def get_min_flow(self, si):
+        return self.link.get_min_flow(si)
+
+    def get_max_flow(self, si):
+        return self.link.get_max_flow(si)
+
+    def get_cost(self, si):
+        return self.link.get_cost(si)
+
     def iter_slots(self, slot_name=None, is_connector=True):
         if is_connector:
             # connecting FROM the transfer TO something else
@@ -1343,6 +1352,15 @@ class LossLink(Node):
 
     cost = property(**cost())
 
+    def get_min_flow(self, si):
+        return self.net.get_min_flow(si)
+
+    def get_max_flow(self, si):
+        return self.net.get_max_flow(si)
+
+    def get_cost(self, si):
+        return self.net.get_cost(si)
+
     def iter_slots(self, slot_name=None, is_connector=True):
         if is_connector:
             yield self.net
diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 1950fa7..b46ab0b 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -1940,15 +1940,12 @@ cdef class DeficitParameter(Parameter):
         pass # calculation done in after
 
     cpdef after(self):
-        cdef double[:] max_flow
+        cdef ScenarioIndex scenario_index
         cdef int i
-        if self.node._max_flow_param is None:
-            for i in range(0, self.node._flow.shape[0]):
-                self._Parameter__values[i] = self.node._max_flow - self.node._flow[i]
-        else:
-            max_flow = self.node._max_flow_param.get_all_values()
-            for i in range(0, self.node._flow.shape[0]):
-                self._Parameter__values[i] = max_flow[i] - self.node._flow[i]
+        for scenario_index in self.model.scenarios.combinations:
+            i = scenario_index.global_id
+            # Compound nodes do not have a max flow of their own
+            self._Parameter__values[i] = self.node.get_max_flow(scenario_index) - self.node._flow[i]
 
     @classmethod
     def load(cls, model, data):
-- 
2.43.0


From 820c35446254f8ed0f34480af8ac33a93c61c243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:20 +0000
Subject: [PATCH 24/85] fix: scenario slices without a stop or with one beyond
 the scenario

---
 pywr/parameters/_parameters.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index b46ab0b..4d754fe 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -243,7 +243,7 @@ cdef class DataFrameParameter(Parameter):
                     scenario_indices.add(user_combination[self._scenario_index])
                 scenario_indices = sorted(list(scenario_indices))
             elif self.scenario.slice:
-                scenario_indices = range(*self.scenario.slice.indices(self.scenario.slice.stop))
+                scenario_indices = range(*self.scenario.slice.indices(self.scenario.size))
             else:
                 # scenario is defined, but all data required
                 self._scenario_ids = None
@@ -431,7 +431,7 @@ cdef class TablesArrayParameter(IndexParameter):
                     scenario_indices.add(user_combination[self._scenario_index])
                 scenario_indices = sorted(list(scenario_indices))
             elif self.scenario.slice:
-                scenario_indices = range(*self.scenario.slice.indices(self.scenario.slice.stop))
+                scenario_indices = range(*self.scenario.slice.indices(self.scenario.size))
             else:
                 # scenario is defined, but all data required
                 self._scenario_ids = None
-- 
2.43.0


From 7662185b9266f4beb81614ef7b61658046386a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:20 +0000
Subject: [PATCH 25/85] fix: timestep offset beyond the run when only some
 scenario members are loaded

---
 pywr/parameters/_parameters.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 4d754fe..5e1a7ba 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -441,10 +441,12 @@ cdef class TablesArrayParameter(IndexParameter):
                 for n, i in enumerate(scenario_indices):
                     self._scenario_ids[i] = n
 
+                # A positive offset looks beyond the last timestep
+                num_rows = min(len(self.model.timestepper) + max(self.timestep_offset, 0), node.shape[0])
                 if node.dtype in (np.float32, np.float64):
-                    self._values_dbl = node[:len(self.model.timestepper), scenario_indices].astype(np.float64)
+                    self._values_dbl = node[:num_rows, scenario_indices].astype(np.float64)
                 else:
-                    self._values_int = node[:len(self.model.timestepper), scenario_indices].astype(np.int32)
+                    self._values_int = node[:num_rows, scenario_indices].astype(np.int32)
 
         if node.dtype in (np.float32, np.float64):
             if self._values_dbl is None:
-- 
2.43.0


From 9990acdcf6eb0cff60a82948ce86a950bcfdac38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 26/85] fix: evaluate the polynomial of a node with its
 previous flow

---
 pywr/parameters/_polynomial.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/parameters/_polynomial.pyx b/pywr/parameters/_polynomial.pyx
index 6d1e631..d06b41e 100644
--- a/pywr/parameters/_polynomial.pyx
+++ b/pywr/parameters/_polynomial.pyx
@@ -71,7 +71,7 @@ cdef class Polynomial1DParameter(Parameter):
             else:
                 x = self._storage_node._volume[scenario_index.global_id]
         elif self._other_node is not None:
-            x = self._other_node._flow[scenario_index.global_id]
+            x = self._other_node._prev_flow[scenario_index.global_id]
         else:
             x = self._node._flow[scenario_index.global_id]
 
-- 
2.43.0


From 19e1bcac6eac01a08e04e49b142694f5dede4986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 27/85] fix: evaluate the level of an aquifer before its stream
 flow

---
 pywr/parameters/groundwater.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/groundwater.py b/pywr/parameters/groundwater.py
index 0e41641..fca6055 100644
--- a/pywr/parameters/groundwater.py
+++ b/pywr/parameters/groundwater.py
@@ -32,6 +32,9 @@ class KeatingStreamFlowParameter(Parameter):
         """
         super(KeatingStreamFlowParameter, self).__init__(model, **kwargs)
         self.storage_node = storage_node
+        # The level has to be up to date when the stream flow is calculated
+        if isinstance(storage_node.level, Parameter):
+            self.children.add(storage_node.level)
 
         if len(levels) != len(transmissivity):
             raise ValueError(
@@ -44,8 +47,6 @@ class KeatingStreamFlowParameter(Parameter):
 
     def value(self, ts, scenario_index):
         # Get the current level of the aquifer
-        # TODO: this is a HACK - we can't use get_level/get_value as there is
-        #       no way to define the parent/child relationship
         level = self.storage_node.level.value(ts, scenario_index)
 
         # Coefficient
-- 
2.43.0


From 87a9c0ca38f9e271277539cc47088a62f5e302e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 28/85] fix: thresholds of flows and recorders on the first
 timestep of a run

---
 pywr/parameters/_thresholds.pxd |  2 ++
 pywr/parameters/_thresholds.pyx | 24 ++++++++++++++++++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/pywr/parameters/_thresholds.pxd b/pywr/parameters/_thresholds.pxd
index d87dfaf..b998601 100644
--- a/pywr/parameters/_thresholds.pxd
+++ b/pywr/parameters/_thresholds.pxd
@@ -19,6 +19,7 @@ cdef class StorageThresholdParameter(AbstractThresholdParameter):
 
 cdef class NodeThresholdParameter(AbstractThresholdParameter):
     cdef public AbstractNode node
+    cdef bint _started
 
 cdef class MultipleThresholdIndexParameter(IndexParameter):
     cdef public AbstractNode node
@@ -35,6 +36,7 @@ cdef class ParameterThresholdParameter(AbstractThresholdParameter):
 cdef class RecorderThresholdParameter(AbstractThresholdParameter):
     cdef public Recorder recorder
     cdef public initial_value
+    cdef bint _started
 
 cdef class CurrentYearThresholdParameter(AbstractThresholdParameter):
     pass
diff --git a/pywr/parameters/_thresholds.pyx b/pywr/parameters/_thresholds.pyx
index cfec7a9..07579be 100644
--- a/pywr/parameters/_thresholds.pyx
+++ b/pywr/parameters/_thresholds.pyx
@@ -168,12 +168,20 @@ cdef class NodeThresholdParameter(AbstractThresholdParameter):
         super(NodeThresholdParameter, self).__init__(model, *args, **kwargs)
         self.node = node
 
+    cpdef reset(self):
+        super(NodeThresholdParameter, self).reset()
+        self._started = False
+
+    cpdef after(self):
+        super(NodeThresholdParameter, self).after()
+        self._started = True
+
     cpdef double _value_to_compare(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
         return self.node._prev_flow[scenario_index.global_id]
 
     cpdef int index(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
-        if timestep.index == 0:
-            # previous flow on initial timestep is undefined
+        if timestep.index == 0 or not self._started:
+            # previous flow on initial timestep (of any run) is undefined
             return 0
         return AbstractThresholdParameter.index(self, timestep, scenario_index)
 
@@ -332,6 +340,14 @@ cdef class RecorderThresholdParameter(AbstractThresholdParameter):
         self.recorder.parents.add(self)
         self.initial_value = initial_value
 
+    cpdef reset(self):
+        super(RecorderThresholdParameter, self).reset()
+        self._started = False
+
+    cpdef after(self):
+        super(RecorderThresholdParameter, self).after()
+        self._started = True
+
     cpdef double _value_to_compare(self, Timestep timestep, ScenarioIndex scenario_index) except? -1:
         # TODO Make this a more general API on Recorder
         return self.recorder.data[timestep.index - 1, scenario_index.global_id]
@@ -340,8 +356,8 @@ cdef class RecorderThresholdParameter(AbstractThresholdParameter):
         """Returns 1 if the predicate evalutes True, else 0"""
         cdef int index = timestep.index
         cdef int ind
-        if index == 0:
-            # on the first day the recorder doesn't have a value so we have no
+        if index == 0 or not self._started:
+            # on the first day (of any run) the recorder doesn't have a value so we have no
             # threshold to compare to
             ind = self.initial_value
         else:
-- 
2.43.0


From d4680387107b4a97b6f58f559c62dfe5ca2b2ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 29/85] fix: annual licences used up by the step across the
 year end are not negative

---
 pywr/parameters/licenses.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pywr/parameters/licenses.py b/pywr/parameters/licenses.py
index c375cc4..1580558 100644
--- a/pywr/parameters/licenses.py
+++ b/pywr/parameters/licenses.py
@@ -143,6 +143,7 @@ class AnnualLicense(StorageLicense):
             # Adjust the license by the rate in previous timestep. This is needed for timesteps greater
             # than 1 day where the license reset is not exactly on the anniversary
             self._remaining[...] -= days_before_reset * self._node.prev_flow
+            self._remaining[self._remaining < 0] = 0.0
 
             self._prev_year = timestep.year
 
-- 
2.43.0


From f397cf51c62cf268e3c784ecb958d2077150aae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 30/85] fix: aggregate comparisons with observed flows, also
 over scenarios

---
 pywr/recorders/calibration.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pywr/recorders/calibration.py b/pywr/recorders/calibration.py
index d249cc6..c604152 100644
--- a/pywr/recorders/calibration.py
+++ b/pywr/recorders/calibration.py
@@ -30,9 +30,16 @@ class AbstractComparisonNodeRecorder(NumpyArrayNodeRecorder):
         # Align the observed data to the model
         from pywr.parameters import align_and_resample_dataframe
 
-        self._aligned_observed = align_and_resample_dataframe(
-            self.observed, self.model.timestepper.datetime_index
+        aligned = np.asarray(
+            align_and_resample_dataframe(
+                self.observed, self.model.timestepper.datetime_index
+            ),
+            dtype=np.float64,
         )
+        # One column for all scenarios, or a column for each
+        if aligned.ndim == 1:
+            aligned = aligned[:, np.newaxis]
+        self._aligned_observed = aligned
 
 
 class RootMeanSquaredErrorNodeRecorder(AbstractComparisonNodeRecorder):
-- 
2.43.0


From fa4960368bb5d0cb84080e2acbd0f2fb822e84ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 31/85] fix: ignore NaN values when aggregating over time

---
 pywr/recorders/_recorders.pyx | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 791e991..fb3071f 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -145,8 +145,19 @@ cdef class Aggregator:
         cdef double[:, :] values = data
         cdef Py_ssize_t i
 
-        if ignore_nan:
-            values = np.array(values)[~np.isnan(values)]
+        if ignore_nan and np.isnan(values).any():
+            # The number of values to aggregate can be different for each row or column
+            if axis == 0:
+                out = np.empty(data.shape[1])
+                for i in range(data.shape[1]):
+                    out[i] = self.aggregate_1d(values[:, i], ignore_nan=True)
+            elif axis == 1:
+                out = np.empty(data.shape[0])
+                for i in range(data.shape[0]):
+                    out[i] = self.aggregate_1d(values[i, :], ignore_nan=True)
+            else:
+                raise ValueError('Axis "{}" not recognised when ignoring NaN values.'.format(axis))
+            return out
 
         if self._func == AggFuncs.PRODUCT:
             return np.prod(values, axis=axis)
-- 
2.43.0


From 2330f93424ab2f89ca1c731c5d93a6c0a9c8bc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 32/85] fix: normalised storage relative to a control curve at
 full storage

---
 pywr/recorders/_recorders.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index fb3071f..5615a24 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1234,6 +1234,9 @@ cdef class NumpyArrayNormalisedStorageRecorder(NumpyArrayAbstractStorageRecorder
             if vol < cc:
                 # Lower than control curve; value between -1.0 and 0.0
                 norm_vol = vol / cc - 1.0
+            elif cc >= 1.0:
+                # Full, and the control curve is at or above full
+                norm_vol = 1.0
             else:
                 # At or above control curve; value between 0.0 and 1.0
                 norm_vol = (vol - cc) / (1.0 - cc)
-- 
2.43.0


From 4481d2cba8d7fe3a9a873c2a667469face9cc4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 33/85] fix: load the scenario of flow duration curve targets

---
 pywr/recorders/_recorders.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 5615a24..9cff24d 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1109,7 +1109,7 @@ cdef class FlowDurationCurveDeviationRecorder(FlowDurationCurveRecorder):
             lower_target_fdc.update({"indexes": percentiles})
             lower_target_fdc = load_parameter_values(model, lower_target_fdc)
         return cls(model, node, percentiles, lower_target_fdc=lower_target_fdc, upper_target_fdc=upper_target_fdc,
-                   **data)
+                   scenario=scenario, **data)
 
 FlowDurationCurveDeviationRecorder.register()
 
-- 
2.43.0


From 449f75fba51587de35100afdd11007207e664676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 34/85] fix: rolling recorders use the timesteps of the run

---
 pywr/recorders/_recorders.pxd |  2 ++
 pywr/recorders/_recorders.pyx | 16 ++++++++--------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/pywr/recorders/_recorders.pxd b/pywr/recorders/_recorders.pxd
index c456d2c..0b061aa 100644
--- a/pywr/recorders/_recorders.pxd
+++ b/pywr/recorders/_recorders.pxd
@@ -102,11 +102,13 @@ cdef class RollingWindowParameterRecorder(ParameterRecorder):
     cdef public Aggregator _temporal_aggregator
     cdef public int window
     cdef int position
+    cdef int _stored
     cdef double[:, :] _memory
     cdef double[:, :] _data
 
 cdef class RollingMeanFlowNodeRecorder(NodeRecorder):
     cdef int position
+    cdef int _stored
     cdef public int timesteps
     cdef public int days
     cdef double[:, :] _memory
diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 9cff24d..e48f0d4 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1598,6 +1598,7 @@ cdef class RollingWindowParameterRecorder(ParameterRecorder):
     cpdef reset(self):
         self._data[...] = 0
         self.position = 0
+        self._stored = 0
 
     cpdef after(self):
         cdef int i, n
@@ -1608,10 +1609,9 @@ cdef class RollingWindowParameterRecorder(ParameterRecorder):
         for i, scenario_index in enumerate(self.model.scenarios.combinations):
             self._memory[self.position, i] = self._param.get_value(scenario_index)
 
-        if timestep.index < self.window:
-            n = timestep.index + 1
-        else:
-            n = self.window
+        # A run can start part-way through the timesteps
+        self._stored = min(self._stored + 1, self.window)
+        n = self._stored
 
         value = self._temporal_aggregator.aggregate_2d(self._memory[0:n, :], axis=0)
         self._data[timestep.index, :] = value
@@ -1691,6 +1691,7 @@ cdef class RollingMeanFlowNodeRecorder(NodeRecorder):
     cpdef reset(self):
         super(RollingMeanFlowNodeRecorder, self).reset()
         self.position = 0
+        self._stored = 0
 
     cpdef after(self):
         cdef Timestep timestep
@@ -1701,10 +1702,9 @@ cdef class RollingMeanFlowNodeRecorder(NodeRecorder):
             self._memory[i, self.position] = self._node._flow[i]
         # calculate the mean flow
         timestep = self.model.timestepper.current
-        if timestep.index < self.timesteps:
-            n = timestep.index + 1
-        else:
-            n = self.timesteps
+        # A run can start part-way through the timesteps
+        self._stored = min(self._stored + 1, self.timesteps)
+        n = self._stored
         # save the mean flow
         mean_flow = np.mean(self._memory[:, 0:n], axis=1)
         self._data[<int>(timestep.index), :] = mean_flow
-- 
2.43.0


From e867e72f8f0fb7563354f1e545b361a878657606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 35/85] fix: a single flow duration curve target can be loaded
 with a scenario

---
 pywr/recorders/_recorders.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index e48f0d4..5323835 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -992,10 +992,12 @@ cdef class FlowDurationCurveDeviationRecorder(FlowDurationCurveRecorder):
         # because the scenarios might change after the Recorder is created.
         if self.scenario is not None:
             if self._lower_target_fdc is not None:
-                if self._lower_target_fdc.shape[1] != self.scenario.size:
+                if self._lower_target_fdc.shape[1] > 1 and \
+                        self._lower_target_fdc.shape[1] != self.scenario.size:
                     raise ValueError('The number of lower target FDCs does not match the size ({}) of scenario "{}"'.format(self.scenario.size, self.scenario.name))
             if self._upper_target_fdc is not None:
-                if self._upper_target_fdc.shape[1] != self.scenario.size:
+                if self._upper_target_fdc.shape[1] > 1 and \
+                        self._upper_target_fdc.shape[1] != self.scenario.size:
                     raise ValueError('The number of upper target FDCs does not match the size ({}) of scenario "{}"'.format(self.scenario.size, self.scenario.name))
         else:
             if self._lower_target_fdc is not None:
-- 
2.43.0


From 5f16bc6cb4461ab7836d32b076333ac35a79f6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 36/85] fix: annual licences count days from the first day of
 calendar timesteps

---
 pywr/parameters/licenses.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pywr/parameters/licenses.py b/pywr/parameters/licenses.py
index 1580558..a3c0694 100644
--- a/pywr/parameters/licenses.py
+++ b/pywr/parameters/licenses.py
@@ -124,8 +124,9 @@ class AnnualLicense(StorageLicense):
 
     def value(self, timestep, scenario_index):
         i = scenario_index.global_id
-        day_of_year = timestep.dayofyear
-        days_in_year = 365 + int(calendar.isleap(timestep.year))
+        start = timestep.period.start_time
+        day_of_year = start.dayofyear
+        days_in_year = 365 + int(calendar.isleap(start.year))
         if day_of_year == days_in_year:
             return self._remaining[i]
         else:
@@ -134,18 +135,19 @@ class AnnualLicense(StorageLicense):
 
     def before(self):
         # Reset licence if year changes.
-        timestep = self.model.timestepper.current
-        if self._prev_year != timestep.year:
+        # Calendar periods (e.g. months) are labelled by a later date than their first day
+        start = self.model.timestepper.current.period.start_time
+        if self._prev_year != start.year:
             self.reset()
 
             # The number of days in the year before the first timestep of that year
-            days_before_reset = timestep.dayofyear - 1
+            days_before_reset = start.dayofyear - 1
             # Adjust the license by the rate in previous timestep. This is needed for timesteps greater
             # than 1 day where the license reset is not exactly on the anniversary
             self._remaining[...] -= days_before_reset * self._node.prev_flow
             self._remaining[self._remaining < 0] = 0.0
 
-            self._prev_year = timestep.year
+            self._prev_year = start.year
 
 
 AnnualLicense.register()
@@ -183,7 +185,8 @@ class AnnualExponentialLicense(AnnualLicense):
         remaining = super(AnnualExponentialLicense, self).value(
             timestep, scenario_index
         )
-        expected = self._amount / (365 + int(calendar.isleap(timestep.year)))
+        start = timestep.period.start_time
+        expected = self._amount / (365 + int(calendar.isleap(start.year)))
         x = remaining / expected
         return self._max_value * np.exp(-x / self._k)
 
@@ -218,7 +221,8 @@ class AnnualHyperbolaLicense(AnnualLicense):
 
     def value(self, timestep, scenario_index):
         remaining = super(AnnualHyperbolaLicense, self).value(timestep, scenario_index)
-        expected = self._amount / (365 + int(calendar.isleap(timestep.year)))
+        start = timestep.period.start_time
+        expected = self._amount / (365 + int(calendar.isleap(start.year)))
         x = remaining / expected
         try:
             return self._value / x
-- 
2.43.0


From feb9fd43a8e03470a6af052448a29c69c84c8f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:08 +0000
Subject: [PATCH 37/85] fix: years of annual recorders include those of steps
 dated after the end of the run

---
 pywr/recorders/_recorders.pyx | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 5323835..6fbdd97 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1932,6 +1932,11 @@ cdef class TimestepCountIndexParameterRecorder(IndexParameterRecorder):
 TimestepCountIndexParameterRecorder.register()
 
 
+def _last_year(timestepper):
+    """The last calendar year of a run, including that of a final timestep dated after the end of the run."""
+    return max(timestepper.end.year, timestepper.datetime_index[-1].year)
+
+
 cdef class AnnualCountIndexThresholdRecorder(Recorder):
     """For each scenario, count the number of times a list of parameters exceeds a threshold in each year.
 
@@ -1984,7 +1989,7 @@ cdef class AnnualCountIndexThresholdRecorder(Recorder):
 
     cpdef setup(self):
         super(AnnualCountIndexThresholdRecorder, self).setup()
-        self._num_years = self.model.timestepper.end.year - self.model.timestepper.start.year + 1
+        self._num_years = _last_year(self.model.timestepper) - self.model.timestepper.start.year + 1
         self._ncomb = len(self.model.scenarios.combinations)
         self._data = np.empty([self._num_years, self._ncomb])
         self._data_this_year = np.zeros([len(self.parameters), self._ncomb])
@@ -2057,7 +2062,7 @@ cdef class AnnualCountIndexThresholdRecorder(Recorder):
         allows for easy combination with multiple recorder's DataFrames.
         """
         start_year = self.model.timestepper.start.year
-        end_year = self.model.timestepper.end.year
+        end_year = _last_year(self.model.timestepper)
         index = pd.period_range(f'{start_year}-01-01', f'{end_year}-01-01', freq='Y')
         sc_index = self.model.scenarios.multiindex
         return pd.DataFrame(data=np.array(self._data, dtype=int), index=index, columns=sc_index)
@@ -2114,7 +2119,7 @@ cdef class AnnualTotalFlowRecorder(Recorder):
 
     cpdef setup(self):
         super(AnnualTotalFlowRecorder, self).setup()
-        self._num_years = self.model.timestepper.end.year - self.model.timestepper.start.year + 1
+        self._num_years = _last_year(self.model.timestepper) - self.model.timestepper.start.year + 1
         self._ncomb = len(self.model.scenarios.combinations)
         self._data = np.empty([self._num_years, self._ncomb])
 
@@ -2156,7 +2161,7 @@ cdef class AnnualTotalFlowRecorder(Recorder):
         allows for easy combination with multiple recorder's DataFrames.
         """
         start_year = self.model.timestepper.start.year
-        end_year = self.model.timestepper.end.year
+        end_year = _last_year(self.model.timestepper)
         index = pd.period_range(f'{start_year}-01-01', f'{end_year}-01-01', freq='Y')
         sc_index = self.model.scenarios.multiindex
         return pd.DataFrame(data=np.array(self._data), index=index, columns=sc_index)
-- 
2.43.0


From 8c824bec125714d779235d3e9a8010d3bf7e743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:08 +0000
Subject: [PATCH 38/85] fix: annual totals of flow split each timestep over the
 calendar years it is part of

---
 pywr/_core.pxd                |  1 +
 pywr/_core.pyx                |  7 +++++++
 pywr/recorders/_recorders.pyx | 26 ++++++++++++++------------
 3 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/pywr/_core.pxd b/pywr/_core.pxd
index 0ccb43a..8f8a0e7 100644
--- a/pywr/_core.pxd
+++ b/pywr/_core.pxd
@@ -39,6 +39,7 @@ cdef class Timestep:
     cdef readonly int end_year
     cpdef public double days_in_current_year(self)
     cpdef public double days_in_next_year(self)
+    cpdef public double days_in_year(self, int year)
 
 cdef class Domain:
     cdef object name
diff --git a/pywr/_core.pyx b/pywr/_core.pyx
index a5bccc8..cae1b42 100644
--- a/pywr/_core.pyx
+++ b/pywr/_core.pyx
@@ -327,6 +327,13 @@ cdef class Timestep:
             return (ts_end - year_end) / 8.64e+13
         return 0
 
+    cpdef double days_in_year(self, int year):
+        """Returns the number of days of the current timestep that fall in the given calendar year"""
+        start = self.period.start_time
+        end = min(start + pd.Timedelta(days=self.days), pd.Timestamp(year + 1, 1, 1))
+        start = max(start, pd.Timestamp(year, 1, 1))
+        return max((end - start).total_seconds() / 86400.0, 0.0)
+
 cdef class Domain:
     """ Domain class which all Node objects must have. """
     def __init__(self, name):
diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 6fbdd97..6a655bd 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -2129,20 +2129,22 @@ cdef class AnnualTotalFlowRecorder(Recorder):
         self._start_year = self.model.timestepper.start.year
 
     cpdef after(self):
-        cdef int i, j
+        cdef int i, j, idx, year
         cdef Timestep ts = self.model.timestepper.current
-        cdef int idx = ts.year - self._start_year
         cdef AbstractNode node
-        cdef double days_in_current_year = ts.days_in_current_year()
-        cdef double days_in_next_year = ts.days_in_next_year()
-        cdef double ts_days = ts.days
-
-        for i in range(self._ncomb):
-            for j, node in enumerate(self.nodes):
-                self._data[idx, i] += node._flow[i] * days_in_current_year * self._factors[j]
-                if days_in_current_year != ts.days and idx+1 < self._data.shape[0]:
-                    # Timestep cross into the next year.
-                    self._data[idx + 1, i] += node._flow[i] * days_in_next_year * self._factors[j]
+        cdef double days
+        cdef int first_year = ts.period.start_time.year
+        cdef int last_year = ts.period.end_time.year
+
+        # A timestep adds to every calendar year which it is part of
+        for year in range(first_year, last_year + 1):
+            idx = year - self._start_year
+            if idx < 0 or idx >= self._num_years:
+                continue
+            days = ts.days if first_year == last_year else ts.days_in_year(year)
+            for i in range(self._ncomb):
+                for j, node in enumerate(self.nodes):
+                    self._data[idx, i] += node._flow[i] * days * self._factors[j]
 
     cpdef double[:] values(self) except *:
         """Compute a value for each scenario using `temporal_agg_func`.
-- 
2.43.0


From 3e84e850b39d6b9c88ce2daa8530e17a811227cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:08 +0000
Subject: [PATCH 39/85] fix: count of years with an index over a threshold with
 negative indices or no timesteps

---
 pywr/recorders/_recorders.pyx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 6a655bd..48be377 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -2046,6 +2046,9 @@ cdef class AnnualCountIndexThresholdRecorder(Recorder):
     cpdef finish(self):
         cdef int idx = self._current_year - self._start_year
         cdef Py_ssize_t i
+        if self._current_year == -1:
+            # No timestep has been taken
+            return
         for i in range(self._ncomb):
             self._data[idx, i] = np.sum(self._data_this_year[:, i])
 
@@ -2187,7 +2190,7 @@ cdef class AnnualCountIndexParameterRecorder(IndexParameterRecorder):
 
     cpdef reset(self):
         self._count[...] = 0
-        self._current_max[...] = 0
+        self._current_max[...] = np.iinfo(np.int32).min
         self._current_year = -1
 
     cpdef after(self):
@@ -2207,7 +2210,7 @@ cdef class AnnualCountIndexParameterRecorder(IndexParameterRecorder):
                         self._count[i] += 1
 
             # Finally reset current maximum and update current year
-            self._current_max[...] = 0
+            self._current_max[...] = np.iinfo(np.int32).min
             self._current_year = ts.year
 
         for scenario_index in self.model.scenarios.combinations:
@@ -2223,6 +2226,9 @@ cdef class AnnualCountIndexParameterRecorder(IndexParameterRecorder):
     cpdef finish(self):
         cdef int i
         cdef int ncomb = len(self.model.scenarios.combinations)
+        if self._current_year == -1:
+            # No timestep has been taken
+            return
         # Complete the current year by updating the count if threshold equal to or exceeded
         for i in range(ncomb):
             if self._current_max[i] >= self.threshold:
-- 
2.43.0


From 06b5db40f7a0740beb2a94023d01a8803978e645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 40/85] fix: events are active while the value of a threshold
 is non-zero, not only when it is beyond one

---
 pywr/recorders/events.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywr/recorders/events.py b/pywr/recorders/events.py
index b591a29..9247be4 100644
--- a/pywr/recorders/events.py
+++ b/pywr/recorders/events.py
@@ -87,11 +87,11 @@ class EventRecorder(Recorder):
         from pywr.parameters import Parameter, IndexParameter
 
         if isinstance(self.threshold, Recorder):
-            all_triggered = np.array(self.threshold.values(), dtype=int)
+            all_triggered = np.asarray(self.threshold.values()) != 0
         elif isinstance(self.threshold, IndexParameter):
             all_triggered = self.threshold.get_all_indices()
         elif isinstance(self.threshold, Parameter):
-            all_triggered = np.array(self.threshold.get_all_values(), dtype=int)
+            all_triggered = np.asarray(self.threshold.get_all_values()) != 0
         else:
             raise TypeError(
                 "Threshold must be either a Recorder or Parameter instance."
-- 
2.43.0


From b4b47c1e63ec0e8681ea885e275cae418f5c454d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 41/85] fix: minimum length of events which are not finished by
 the end of the run

---
 pywr/recorders/events.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywr/recorders/events.py b/pywr/recorders/events.py
index 9247be4..caa4871 100644
--- a/pywr/recorders/events.py
+++ b/pywr/recorders/events.py
@@ -155,7 +155,9 @@ class EventRecorder(Recorder):
             if current_event is not None:
                 # Unfinished event
                 current_event.end = ts
-                self.events.append(current_event)
+                current_length = ts.index - current_event.start.index
+                if current_length >= self.minimum_event_length:
+                    self.events.append(current_event)
                 self._current_events[si.global_id] = None
 
     def to_dataframe(self):
-- 
2.43.0


From 3dabf0b3dcd3123f5e54a128d60a29872b352370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 42/85] fix: end of unfinished events of a run which is not
 iterated to its end

---
 pywr/recorders/events.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pywr/recorders/events.py b/pywr/recorders/events.py
index caa4871..cb51a01 100644
--- a/pywr/recorders/events.py
+++ b/pywr/recorders/events.py
@@ -67,6 +67,7 @@ class EventRecorder(Recorder):
         self.minimum_event_length = minimum_event_length
         self.events = None
         self._current_events = None
+        self._end = None
         # TODO make this more generic to track components or  nodes (e.g. storage volume)
         self.tracked_parameter = tracked_parameter
         if self.tracked_parameter is not None:
@@ -83,6 +84,8 @@ class EventRecorder(Recorder):
     def after(self):
         # Current timestep
         ts = self.model.timestepper.current
+        # Events which are active in the last timestep of a run end with the timestep after it
+        self._end = self.model.timestepper._next
 
         from pywr.parameters import Parameter, IndexParameter
 
@@ -147,7 +150,7 @@ class EventRecorder(Recorder):
             self._current_events[si.global_id] = current_event
 
     def finish(self):
-        ts = self.model.timestepper.current
+        ts = self._end
         # Complete any unfinished events
         for si in self.model.scenarios.combinations:
             # Get the current event
-- 
2.43.0


From 8c486d7714cf25b4a1b351e2874499f432adb109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 43/85] fix: tables recorders with node objects and with names
 of two characters

---
 pywr/recorders/_tables_recorders.pyx | 11 +++++++----
 pywr/recorders/recorders.py          | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 5812459..04bfd3a 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -141,7 +141,8 @@ class TablesRecorder2(Recorder):
 
     def _add_parameter(self, parameter):
         try:
-            where, param = parameter
+            # A str is always the name of a parameter, also if it is two characters long
+            where, param = (None, parameter) if isinstance(parameter, str) else parameter
         except (TypeError, ValueError):
             where = None
             param = parameter
@@ -240,15 +241,17 @@ class TablesRecorder2(Recorder):
             items = []
             for n in self.nodes:
                 try:
-                    where, node = n
+                    # A str is always the name of a node, also if it is two characters long
+                    where, node = (None, n) if isinstance(n, str) else n
                 except (TypeError, ValueError):
-                    node = n
-                    where = self.where + "/" + node
+                    where, node = None, n
 
                 # Accept a str, and lookup node by name instead.
                 if isinstance(node, str):
                     node = self.model.nodes[node]
                 # Otherwise assume it is a node object anyway
+                if where is None:
+                    where = self.where + "/" + node.name
 
                 where = where.replace("//", "/")
                 items.append((where, node))
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 3b4d3e5..a3baecf 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -343,7 +343,8 @@ class TablesRecorder(Recorder):
 
     def _add_parameter(self, parameter):
         try:
-            where, param = parameter
+            # A str is always the name of a parameter, also if it is two characters long
+            where, param = (None, parameter) if isinstance(parameter, str) else parameter
         except (TypeError, ValueError):
             where = None
             param = parameter
@@ -440,15 +441,17 @@ class TablesRecorder(Recorder):
             nodes = []
             for n in self.nodes:
                 try:
-                    where, node = n
+                    # A str is always the name of a node, also if it is two characters long
+                    where, node = (None, n) if isinstance(n, str) else n
                 except (TypeError, ValueError):
-                    node = n
-                    where = self.where + "/" + node
+                    where, node = None, n
 
                 # Accept a str, and lookup node by name instead.
                 if isinstance(node, str):
                     node = self.model.nodes[node]
                 # Otherwise assume it is a node object anyway
+                if where is None:
+                    where = self.where + "/" + node.name
 
                 where = where.replace("//", "/")
                 nodes.append((where, node))
-- 
2.43.0


From f79527c59aab44d5aea82f433be7e8d9ba3dd020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 44/85] fix: rows of buffered tables recorders in runs which
 are restarted or ended early

---
 pywr/recorders/_tables_recorders.pyx | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 04bfd3a..01375f7 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -99,6 +99,8 @@ class TablesRecorder2(Recorder):
         self.buffer_size = kwargs.pop("buffer_size", 100)
         self.buffer_timesteps = kwargs.pop("buffer_timesteps", None)
         self._buffer_num_timesteps = 1
+        self._buffer_write_position = 0
+        self._buffer_last_index = -1
 
         title = kwargs.pop("title", None)
         if title is None:
@@ -533,7 +535,7 @@ class TablesRecorder2(Recorder):
             entry["index"] = idx
             entry.append()
 
-        buffer_idx = idx % self._buffer_num_timesteps
+        buffer_idx = self._buffer_write_position
 
         for node, (arrays, buffer) in self._node_arrays.items():
             if buffer is None:
@@ -582,8 +584,12 @@ class TablesRecorder2(Recorder):
                 buffer[0, buffer_idx, ...] = np.reshape(index_parameter.get_all_indices(), scenario_shape)
 
         # Flush before we overwrite the data if this is the last entry in the buffer
-        if self._buffer_num_timesteps > 1 and (idx + 1) % self._buffer_num_timesteps == 0:
-            self.flush_buffer(idx, self._buffer_num_timesteps)
+        if self._buffer_num_timesteps > 1:
+            self._buffer_last_index = idx
+            self._buffer_write_position += 1
+            if self._buffer_write_position == self._buffer_num_timesteps:
+                self.flush_buffer(idx, self._buffer_num_timesteps)
+                self._buffer_write_position = 0
 
         if self._routes_flow_array is not None:
             routes_shape = [
@@ -618,17 +624,10 @@ class TablesRecorder2(Recorder):
 
     def finish(self):
 
-        if self._buffer_num_timesteps > 1:
-            ts = self.model.timestepper.current
-            # The final time-step is one past the end of the data
-            idx = ts.index
-            residual_timesteps = idx % self._buffer_num_timesteps
-
-            # Flush the buffer if there are residual time-steps, or our buffer covered the entire simulation
-            if residual_timesteps > 0:
-                self.flush_buffer(idx - 1, residual_timesteps)
-            elif self._buffer_num_timesteps == len(self.model.timestepper):
-                self.flush_buffer(idx - 1, self._buffer_num_timesteps)
+        # Flush the buffer if there are residual time-steps
+        if self._buffer_write_position > 0:
+            self.flush_buffer(self._buffer_last_index, self._buffer_write_position)
+            self._buffer_write_position = 0
 
         if self._time_table is not None:
             self._time_table.flush()
-- 
2.43.0


From 8f6d8f1df31ba4dc33663048a9003e562b91d36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 45/85] fix: tables recorder without nodes or parameters

---
 pywr/recorders/_tables_recorders.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 01375f7..fabdb0e 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -268,7 +268,7 @@ class TablesRecorder2(Recorder):
             # Divide by 8 as we are storing 64-bit floats
             # Also assume most data is nodes, and we store 3 values for each
             total_buffer_values = self.buffer_size * 1024 * 1024 / 8 / 3
-            buffer_per_item = total_buffer_values // len(items)
+            buffer_per_item = total_buffer_values // max(1, len(items))
             self._buffer_num_timesteps = min(max(1, int(buffer_per_item // np.prod(scenario_shape))), len(self.model.timestepper))
         else:
             self._buffer_num_timesteps = 1
-- 
2.43.0


From 401ebdd24dd140701ae279ee051c23863aa0fb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 46/85] fix: tables recorders with the same item in several
 places

---
 pywr/recorders/_tables_recorders.pyx | 24 ++++++++++++------------
 pywr/recorders/recorders.py          |  4 ++--
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index fabdb0e..9455d8a 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -404,7 +404,7 @@ class TablesRecorder2(Recorder):
             else:
                 buffer = None
 
-            self._node_arrays[node] = (self.h5store.file.get_node(where), buffer)
+            self._node_arrays[where] = (node, self.h5store.file.get_node(where), buffer)
 
         self._storage_node_arrays = {}
         for where, node in self._storage_nodes:
@@ -412,7 +412,7 @@ class TablesRecorder2(Recorder):
                 buffer = np.empty([3, ] + buffer_shape, dtype=np.float64)
             else:
                 buffer = None
-            self._storage_node_arrays[node] = (self.h5store.file.get_node(where), buffer)
+            self._storage_node_arrays[where] = (node, self.h5store.file.get_node(where), buffer)
 
         self._index_parameter_arrays = {}
         for where, node in self._index_parameters:
@@ -420,7 +420,7 @@ class TablesRecorder2(Recorder):
                 buffer = np.empty([1, ] + buffer_shape, dtype=np.int32)
             else:
                 buffer = None
-            self._index_parameter_arrays[node] = (self.h5store.file.get_node(where), buffer)
+            self._index_parameter_arrays[where] = (node, self.h5store.file.get_node(where), buffer)
 
         self._parameter_arrays = {}
         for where, node in self._parameters:
@@ -428,7 +428,7 @@ class TablesRecorder2(Recorder):
                 buffer = np.empty([1, ] + buffer_shape, dtype=np.float64)
             else:
                 buffer = None
-            self._parameter_arrays[node] = (self.h5store.file.get_node(where), buffer)
+            self._parameter_arrays[where] = (node, self.h5store.file.get_node(where), buffer)
 
         self._time_table = None
         # Create time table
@@ -537,7 +537,7 @@ class TablesRecorder2(Recorder):
 
         buffer_idx = self._buffer_write_position
 
-        for node, (arrays, buffer) in self._node_arrays.items():
+        for node, arrays, buffer in self._node_arrays.values():
             if buffer is None:
                 node.get_all_max_flow(out)
                 arrays.max_flow[idx, :] = np.reshape(out, scenario_shape)
@@ -553,7 +553,7 @@ class TablesRecorder2(Recorder):
                 buffer[1, buffer_idx, ...] = np.reshape(out, scenario_shape)
                 buffer[2, buffer_idx, ...] = np.reshape(node._flow, scenario_shape)
 
-        for storage_node, (arrays, buffer) in self._storage_node_arrays.items():
+        for storage_node, arrays, buffer in self._storage_node_arrays.values():
             if buffer is None:
                 storage_node.get_all_max_volume(out)
                 arrays.max_volume[idx, :] = np.reshape(out, scenario_shape)
@@ -569,14 +569,14 @@ class TablesRecorder2(Recorder):
                 buffer[1, buffer_idx, ...] = np.reshape(out, scenario_shape)
                 buffer[2, buffer_idx, ...] = np.reshape(storage_node._volume, scenario_shape)
 
-        for parameter, (arrays, buffer) in self._parameter_arrays.items():
+        for parameter, arrays, buffer in self._parameter_arrays.values():
             if buffer is None:
                 v = parameter.get_all_values()
                 arrays.parameter[idx, :] = np.reshape(v, scenario_shape)
             else:
                 buffer[0, buffer_idx, ...] = np.reshape(parameter.get_all_values(), scenario_shape)
 
-        for index_parameter, (arrays, buffer) in self._index_parameter_arrays.items():
+        for index_parameter, arrays, buffer in self._index_parameter_arrays.values():
             if buffer is None:
                 i = index_parameter.get_all_indices()
                 arrays.parameter_index[idx, :] = np.reshape(i, scenario_shape)
@@ -603,20 +603,20 @@ class TablesRecorder2(Recorder):
         """Flush the buffer arrays to PyTables"""
         cdef int idx_start = idx + 1 - num_timesteps
 
-        for _, (arrays, buffer) in self._node_arrays.items():
+        for _, arrays, buffer in self._node_arrays.values():
             arrays.max_flow[idx_start:idx + 1, ...] = buffer[0, :num_timesteps, ...]
             arrays.min_flow[idx_start:idx + 1, ...] = buffer[1, :num_timesteps, ...]
             arrays.flow[idx_start:idx + 1, ...] = buffer[2, :num_timesteps, ...]
 
-        for _, (arrays, buffer) in self._storage_node_arrays.items():
+        for _, arrays, buffer in self._storage_node_arrays.values():
             arrays.max_volume[idx_start:idx + 1, ...] = buffer[0, :num_timesteps, ...]
             arrays.min_volume[idx_start:idx + 1, ...] = buffer[1, :num_timesteps, ...]
             arrays.volume[idx_start:idx + 1, ...] = buffer[2, :num_timesteps, ...]
 
-        for _, (arrays, buffer) in self._parameter_arrays.items():
+        for _, arrays, buffer in self._parameter_arrays.values():
             arrays.parameter[idx_start:idx + 1, ...] = buffer[0, :num_timesteps, ...]
 
-        for _, (arrays, buffer) in self._index_parameter_arrays.items():
+        for _, arrays, buffer in self._index_parameter_arrays.values():
             arrays.parameter_index[idx_start:idx + 1, ...] = buffer[0, :num_timesteps, ...]
 
         if self._time_table is not None:
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index a3baecf..c0733e2 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -554,7 +554,7 @@ class TablesRecorder(Recorder):
         self.h5store = H5Store(self.h5file, self.filter_kwds, mode)
         self._arrays = {}
         for where, node in self._nodes:
-            self._arrays[node] = self.h5store.file.get_node(where)
+            self._arrays[where] = (node, self.h5store.file.get_node(where))
 
         self._time_table = None
         # Create time table
@@ -656,7 +656,7 @@ class TablesRecorder(Recorder):
             entry["index"] = idx
             entry.append()
 
-        for node, ca in self._arrays.items():
+        for node, ca in self._arrays.values():
             if isinstance(node, AbstractStorage):
                 ca[idx, :] = np.reshape(node.volume, scenario_shape)
             elif isinstance(node, AbstractNode):
-- 
2.43.0


From 293f02848148047bee16b225a79e049b001aa0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 47/85] fix: store open-ended slices of scenarios

---
 pywr/recorders/_tables_recorders.pyx | 10 ++++------
 pywr/recorders/recorders.py          | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 9455d8a..279967a 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -372,12 +372,10 @@ class TablesRecorder2(Recorder):
                 for scenario in self.model.scenarios.scenarios:
                     if scenario.slice is not None:
                         entry["name"] = scenario.name.encode("utf-8")
-                        entry["start"] = scenario.slice.start
-                        entry["stop"] = scenario.slice.stop
-                        if scenario.slice.step:
-                            entry["step"] = scenario.slice.step
-                        else:
-                            entry["step"] = 1
+                        start, stop, step = scenario.slice.indices(scenario.size)
+                        entry["start"] = start
+                        entry["stop"] = stop
+                        entry["step"] = step
                         entry.append()
                 tbl.flush()
 
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index c0733e2..d77fd77 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -536,12 +536,10 @@ class TablesRecorder(Recorder):
                 for scenario in self.model.scenarios.scenarios:
                     if scenario.slice is not None:
                         entry["name"] = scenario.name.encode("utf-8")
-                        entry["start"] = scenario.slice.start
-                        entry["stop"] = scenario.slice.stop
-                        if scenario.slice.step:
-                            entry["step"] = scenario.slice.step
-                        else:
-                            entry["step"] = 1
+                        start, stop, step = scenario.slice.indices(scenario.size)
+                        entry["start"] = start
+                        entry["stop"] = stop
+                        entry["step"] = step
                         entry.append()
                 tbl.flush()
 
-- 
2.43.0


From fb07d6daf95e9b1c51c0bf3d33c8ff24254df4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 48/85] fix: data frames of stored runs which are ended early,
 with routes, scenario combinations or slices

---
 pywr/h5tools.py                      | 34 ++++++++++++++++++++++++++++
 pywr/recorders/_tables_recorders.pyx | 17 ++++++--------
 pywr/recorders/recorders.py          | 17 +++++++-------
 3 files changed, 49 insertions(+), 19 deletions(-)

diff --git a/pywr/h5tools.py b/pywr/h5tools.py
index 8187436..739df6f 100644
--- a/pywr/h5tools.py
+++ b/pywr/h5tools.py
@@ -1,5 +1,6 @@
 import tables
 import os
+import pandas
 
 
 class H5Store(object):
@@ -61,3 +62,36 @@ class H5Store(object):
     def __del__(self):
         if self._opened and self.file.isopen:
             self.file.close()
+
+
+def get_scenario_columns(store, where):
+    """The columns of the scenarios which have been simulated, or None if there are no scenarios
+
+    Parameters
+    ----------
+    store : H5Store
+        A file created by `TablesRecorder` or `TablesRecorder2`.
+    where : str
+        The table that contains the scenario information.
+    """
+    table = store.file.get_node(where)
+    names = [name.decode() for name in table.col("name")]
+    if len(names) == 0:
+        return None
+
+    group = where.rsplit("/", 1)[0]
+    # User defined combinations are saved as either a table or an array
+    for path in (group + "/scenario_combinations", "/scenario_combinations"):
+        if path in store.file:
+            node = store.file.get_node(path)
+            if isinstance(node, tables.Table):
+                indices = [node.col(name) for name in names]
+            else:
+                indices = list(node.read().T)
+            return pandas.MultiIndex.from_arrays(indices, names=names)
+
+    ranges = {name: range(size) for name, size in zip(names, table.col("size"))}
+    if group + "/scenario_slices" in store.file:
+        for row in store.file.get_node(group + "/scenario_slices").read():
+            ranges[row["name"].decode()] = range(row["start"], row["stop"], row["step"])
+    return pandas.MultiIndex.from_product([ranges[name] for name in names], names=names)
diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index 279967a..b8d2b52 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -2,7 +2,7 @@ from typing import Tuple
 import pandas
 cimport numpy as np
 import numpy as np
-from pywr.h5tools import H5Store
+from pywr.h5tools import H5Store, get_scenario_columns
 import warnings
 from pywr.parameters._parameters cimport IndexParameter, Parameter
 from pywr.recorders._recorders cimport Recorder
@@ -661,22 +661,19 @@ class TablesRecorder2(Recorder):
 
         # Get the scenario information
         if scenarios:
-            scenarios_table = store.file.get_node(scenarios)
-            scenarios = pandas.DataFrame(
-                {k: scenarios_table.col(k) for k in ("name", "size")}
-            )
-            columns = pandas.MultiIndex.from_product(
-                [range(row["size"]) for _, row in scenarios.iterrows()],
-                names=[row["name"].decode() for _, row in scenarios.iterrows()],
-            )
+            columns = get_scenario_columns(store, scenarios)
         else:
             columns = None
 
         for node in store.file.walk_nodes("/", "CArray"):
-            if node.name in ("scenario_combinations", "scenario_ensemble_names"):
+            if not any(a in node._v_attrs for a in ("PYWR_ATTRIBUTE", "pywr-attribute")):
+                # Not a node or a parameter (e.g. the flows of the routes)
                 continue
             data = node.read()
             data = data.reshape((data.shape[0], -1))
+            if time:
+                # Only the timesteps which have been simulated
+                data = data[time_table.col("index")]
             df = pandas.DataFrame(data, index=index, columns=columns)
             yield f"{node._v_parent._v_name}.{node._v_name}", df
 
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index d77fd77..7fe42e1 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -10,7 +10,7 @@ from ._tables_recorders import TablesRecorder2, ParameterNameWarning
 from .events import *
 from .calibration import *
 from .kde import *
-from pywr.h5tools import H5Store
+from pywr.h5tools import H5Store, get_scenario_columns
 from ..parameter_property import parameter_property
 import warnings
 
@@ -710,20 +710,19 @@ class TablesRecorder(Recorder):
 
         # Get the scenario information
         if scenarios:
-            scenarios_table = store.file.get_node(scenarios)
-            scenarios = pandas.DataFrame(
-                {k: scenarios_table.col(k) for k in ("name", "size")}
-            )
-            columns = pandas.MultiIndex.from_product(
-                [range(row["size"]) for _, row in scenarios.iterrows()],
-                names=[row["name"].decode() for _, row in scenarios.iterrows()],
-            )
+            columns = get_scenario_columns(store, scenarios)
         else:
             columns = None
 
         for node in store.file.walk_nodes("/", "CArray"):
+            if not any(a in node._v_attrs for a in ("PYWR_ATTRIBUTE", "pywr-attribute")):
+                # Not a node or a parameter (e.g. the flows of the routes)
+                continue
             data = node.read()
             data = data.reshape((data.shape[0], -1))
+            if time:
+                # Only the timesteps which have been simulated
+                data = data[time_table.col("index")]
             df = pandas.DataFrame(data, index=index, columns=columns)
             yield node._v_name, df
 
-- 
2.43.0


From 1cdaa3a3d78f2772f052f9b3c2fd16b7e3a548a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 49/85] fix: csv_kwargs of CSV recorders

---
 pywr/recorders/recorders.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 7fe42e1..80d23e3 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -127,7 +127,8 @@ class CSVRecorder(Recorder):
         The scenario index of the model to save.
     nodes : iterable (default=None)
         An iterable of nodes to save data. It defaults to None which is all nodes in the model
-    kwargs : Additional keyword arguments to pass to the `csv.writer` object
+    csv_kwargs : dict
+        Additional keyword arguments to pass to the `csv.writer` object
 
     """
 
@@ -141,11 +142,12 @@ class CSVRecorder(Recorder):
         complevel=9,
         **kwargs,
     ):
+        csv_kwargs = kwargs.pop("csv_kwargs", {})
         super(CSVRecorder, self).__init__(model, **kwargs)
         self.csvfile = csvfile
         self.scenario_index = scenario_index
         self.nodes = nodes
-        self.csv_kwargs = kwargs.pop("csv_kwargs", {})
+        self.csv_kwargs = csv_kwargs
         self._node_names = None
         self._fh = None
         self._writer = None
-- 
2.43.0


From 791aab8fbc99a52980bd03b2d7e00a737993f532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 50/85] fix: close the file of a CSV recorder before it is
 written again

---
 pywr/recorders/recorders.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 80d23e3..7216b06 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -184,6 +184,9 @@ class CSVRecorder(Recorder):
     def reset(self):
         import csv
 
+        # Close the file of a run which was not finished before it is written again
+        self.finish()
+
         kwargs = {"newline": "", "encoding": "utf-8"}
         mode = "wt"
 
@@ -225,6 +228,7 @@ class CSVRecorder(Recorder):
     def finish(self):
         if self._fh:
             self._fh.close()
+            self._fh = None
 
 
 CSVRecorder.register()
-- 
2.43.0


From 5b6a91069b2b644d353e0a5d26b3445afb683c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 51/85] fix: set up tables recorders again after a run which
 was not finished

---
 pywr/recorders/_tables_recorders.pyx | 6 ++++++
 pywr/recorders/recorders.py          | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/pywr/recorders/_tables_recorders.pyx b/pywr/recorders/_tables_recorders.pyx
index b8d2b52..8f5d38a 100644
--- a/pywr/recorders/_tables_recorders.pyx
+++ b/pywr/recorders/_tables_recorders.pyx
@@ -217,6 +217,8 @@ class TablesRecorder2(Recorder):
         # The following dimensions are sized per scenario
         scenario_shape = list(self.model.scenarios.shape)
         shape = [len(self.model.timestepper)] + scenario_shape
+        # Close the file of a run which was not finished before it is created again
+        self.finish()
         self.h5store = H5Store(
             self.h5file,
             self.filter_kwds,
@@ -384,6 +386,9 @@ class TablesRecorder2(Recorder):
     def reset(self):
         import tables
 
+        # Close the file of a run which was not finished before it is written again
+        self.finish()
+
         mode = "r+"  # always need to append, as file already created in setup
         self.h5store = H5Store(self.h5file, self.filter_kwds, mode)
 
@@ -629,6 +634,7 @@ class TablesRecorder2(Recorder):
 
         if self._time_table is not None:
             self._time_table.flush()
+            self._time_table = None
         self.h5store = None
         self._node_arrays = {}
         self._storage_node_arrays = {}
diff --git a/pywr/recorders/recorders.py b/pywr/recorders/recorders.py
index 7216b06..c2ef897 100644
--- a/pywr/recorders/recorders.py
+++ b/pywr/recorders/recorders.py
@@ -424,7 +424,8 @@ class TablesRecorder(Recorder):
         # The following dimensions are sized per scenario
         scenario_shape = list(self.model.scenarios.shape)
         shape = [len(self.model.timestepper)] + scenario_shape
-
+        # Close the file of a run which was not finished before it is created again
+        self.finish()
         self.h5store = H5Store(
             self.h5file,
             self.filter_kwds,
@@ -554,6 +555,9 @@ class TablesRecorder(Recorder):
     def reset(self):
         import tables
 
+        # Close the file of a run which was not finished before it is written again
+        self.finish()
+
         mode = "r+"  # always need to append, as file already created in setup
         self.h5store = H5Store(self.h5file, self.filter_kwds, mode)
         self._arrays = {}
@@ -687,6 +691,7 @@ class TablesRecorder(Recorder):
     def finish(self):
         if self._time_table is not None:
             self._time_table.flush()
+            self._time_table = None
         self.h5store = None
         self._arrays = {}
         self._routes_flow_array = None
-- 
2.43.0


From b9915e99747c099e3a10d77c90b3abf21b512007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:54 +0000
Subject: [PATCH 52/85] fix: timestep of linked models loaded from a document

---
 pywr/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/model.py b/pywr/model.py
index 71d92e7..831a54d 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -159,7 +159,7 @@ class MultiModel:
 
             sub_model.timestepper.start = timestepper_data["start"]
             sub_model.timestepper.end = timestepper_data["end"]
-            sub_model.timestepper.timestep = timestepper_data["timestep"]
+            sub_model.timestepper.delta = timestepper_data["timestep"]
             model.add_model(sub_model_name, sub_model)
 
         return model
-- 
2.43.0


From 2bb1be8774e3803937eff1c3ddda4f26ad20dbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:54 +0000
Subject: [PATCH 53/85] fix: solver of linked models loaded from a document

---
 pywr/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/model.py b/pywr/model.py
index 831a54d..0a69fc3 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -84,7 +84,7 @@ class MultiModel:
             data = data.read()
             return cls.loads(data, model, path, solver)
 
-        return cls.load_from_dict(data, model=model, path=path, solver=None)
+        return cls.load_from_dict(data, model=model, path=path, solver=solver)
 
     @classmethod
     def _load_from_dict(cls, *args, **kwargs) -> "MultiModel":
-- 
2.43.0


From 150635af866a33203e1570a8f34e783f045c68eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:22 +0000
Subject: [PATCH 54/85] fix: refuse linked models which would not be run to the
 end

---
 pywr/model.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pywr/model.py b/pywr/model.py
index 0a69fc3..7f38643 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -204,6 +204,24 @@ class MultiModel:
                     f"Sub-models have inconsistent combinations defined: {combinations[0]} vs {combination}"
                 )
 
+    def _check_timesteps(self):
+        """Check that all sub-models have the same timesteps.
+
+        This method will raise a `RuntimeError` if the timesteps are not the same across all models.
+        """
+        timesteps = []
+        for model in self.models.values():
+            periods = model.timestepper.datetime_index
+            starts = periods.to_timestamp(how="s")
+            ends = periods.to_timestamp(how="e")
+            timesteps.append((list(starts), list(ends)))
+
+        for other in timesteps:
+            if other != timesteps[0]:
+                raise RuntimeError(
+                    "Timesteps are not synchronised across all sub-models."
+                )
+
     def setup(self, profile=False, profile_dump_filename=None):
         profilers = {}
 
@@ -250,6 +268,7 @@ class MultiModel:
                 self.setup()
             else:
                 self.reset()
+            self._check_timesteps()
             t1 = time.time()
 
             # Begin time-stepping
-- 
2.43.0


From 25dba210e66de785d2ae166452f1c6dd315db748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:14 +0000
Subject: [PATCH 55/85] fix: values of parameters read before the first
 timestep of a run

---
 pywr/parameters/_parameters.pyx | 18 ++++++++++++++++--
 pywr/parameters/licenses.py     |  1 +
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 5e1a7ba..48595ea 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -64,7 +64,16 @@ cdef class Parameter(Component):
             num_comb = len(self.model.scenarios.combinations)
         else:
             num_comb = 1
-        self._Parameter__values = np.empty([num_comb], np.float64)
+        self._Parameter__values = np.zeros([num_comb], np.float64)
+
+    cpdef reset(self):
+        super(Parameter, self).reset()
+        # Until it is evaluated in the first timestep a parameter has no value of the present run. Another model of a
+        # `MultiModel` may read it before that.
+        if self.is_constant:
+            self._Parameter__values[...] = self.get_constant_value()
+        else:
+            self._Parameter__values[...] = 0.0
 
     cpdef double value(self, Timestep ts, ScenarioIndex scenario_index) except? -1:
         raise NotImplementedError("Parameter must be subclassed")
@@ -1212,7 +1221,11 @@ cdef class IndexParameter(Parameter):
             num_comb = len(self.model.scenarios.combinations)
         else:
             num_comb = 1
-        self._IndexParameter__indices = np.empty([num_comb], np.int32)
+        self._IndexParameter__indices = np.zeros([num_comb], np.int32)
+
+    cpdef reset(self):
+        super(IndexParameter, self).reset()
+        self._IndexParameter__indices[...] = 0
 
     cdef calc_values(self, Timestep timestep):
         cdef ScenarioIndex scenario_index
@@ -2143,6 +2156,7 @@ cdef class FlowDelayParameter(Parameter):
         self._memory_pointer = 0
 
     cpdef reset(self):
+        super(FlowDelayParameter, self).reset()
         self._memory[...] = self.initial_flow
         self._memory_pointer = 0
 
diff --git a/pywr/parameters/licenses.py b/pywr/parameters/licenses.py
index a3c0694..f90a4dd 100644
--- a/pywr/parameters/licenses.py
+++ b/pywr/parameters/licenses.py
@@ -92,6 +92,7 @@ class StorageLicense(License):
         self._remaining[self._remaining < 0] = 0.0
 
     def reset(self):
+        super().reset()
         self._remaining[...] = self._amount
 
     @classmethod
-- 
2.43.0


From defc629842211cd044aa94fcd9ef9b03a927735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 56/85] fix: data path of linked models loaded from files

---
 pywr/model.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pywr/model.py b/pywr/model.py
index 7f38643..b617eb2 100644
--- a/pywr/model.py
+++ b/pywr/model.py
@@ -143,9 +143,13 @@ class MultiModel:
                 if path is not None:
                     sub_model_filename = os.path.join(path, sub_model_filename)
 
-                sub_model = Model.load(
-                    sub_model_filename, path=sub_model_path, solver=sub_model_solver
-                )
+                if sub_model_path is None:
+                    sub_model_path = sub_model_filename
+
+                with open(sub_model_filename, "r") as f:
+                    sub_model = Model.load(
+                        f, path=sub_model_path, solver=sub_model_solver
+                    )
             elif sub_model_data is not None:
                 sub_model_path = sub_model_definition.get("path", path)
 
-- 
2.43.0


From 38b601245b22732c59fce299da1698abf38c8ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:37 +0000
Subject: [PATCH 57/85] fix: include files of a document once, also relative to
 a directory

---
 pywr/_model.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 5dcdee7..57a3eee 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -209,7 +209,6 @@ class Model(object):
             if path:
                 e.args = ("{} [{}]".format(e.args[0], os.path.basename(path)),)
             raise(e)
-        cls._load_includes(data, path)
         return cls.load(data, model, path, **kwargs)
 
     @classmethod
@@ -227,10 +226,12 @@ class Model(object):
         Note that the data dictionary is modified in-place.
         """
         if "includes" in data:
+            if path is not None and not os.path.isdir(path):
+                path = os.path.dirname(path)
             for filename in data["includes"]:
                 _, ext = os.path.splitext(filename)
                 if path is not None:
-                    filename = os.path.join(os.path.dirname(path), filename)
+                    filename = os.path.join(path, filename)
 
                 ext = ext.lower()
                 if ext == '.json':
-- 
2.43.0


From b1c205c442db7f6d5f560a41cd1b4006bfdc8013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:03 +0000
Subject: [PATCH 58/85] fix: keep the comments of parameters loaded from a
 document

---
 pywr/parameters/_parameters.pyx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 48595ea..b537004 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -137,20 +137,20 @@ cdef class Parameter(Component):
     def load(cls, model, data):
         # If a scenario is given don't pass this to the load values methods
         scenario = data.pop('scenario', None)
+        name = data.pop("name", None)
+        comment = data.pop("comment", None)
 
         values = load_parameter_values(model, data)
         data.pop("values", None)
         data.pop("url", None)
-        name = data.pop("name", None)
-        comment = data.pop("comment", None)
 
         if scenario is not None:
             scenario = model.scenarios[scenario]
             # Only pass scenario object if one provided; most Parameter subclasses
             # do not accept a scenario argument.
-            return cls(model, scenario=scenario, values=values, name=name, comment=None, **data)
+            return cls(model, scenario=scenario, values=values, name=name, comment=comment, **data)
         else:
-            return cls(model, values=values, name=name, comment=None, **data)
+            return cls(model, values=values, name=name, comment=comment, **data)
 Parameter.register()
 
 
@@ -2329,6 +2329,7 @@ def load_parameter(model, data, parameter_name=None):
     else:
         # parameter is dynamic
         tags = data.pop("tags", None)
+        comment = data.pop("comment", None)
 
         try:
              parameter_type = data['type']
@@ -2351,6 +2352,8 @@ def load_parameter(model, data, parameter_name=None):
 
         if tags is not None:
             parameter.tags = tags
+        if comment is not None:
+            parameter.comment = comment
 
     if parameter_name is not None:
         # TODO FIXME: memory leak if parameter is subsequently removed from the model
-- 
2.43.0


From 7c3cc4be67ab7a0f4ccc1319c5cef8011aa2c54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:03 +0000
Subject: [PATCH 59/85] fix: load all options of rolling mean flow recorders

---
 pywr/recorders/_recorders.pyx | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 48be377..9d1c0e0 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -1721,17 +1721,12 @@ cdef class RollingMeanFlowNodeRecorder(NodeRecorder):
 
     @classmethod
     def load(cls, model, data):
-        name = data.get("name")
-        node = model.nodes[data["node"]]
+        node = model.nodes[data.pop("node")]
         if "timesteps" in data:
-            timesteps = int(data["timesteps"])
-        else:
-            timesteps = None
+            data["timesteps"] = int(data["timesteps"])
         if "days" in data:
-            days = int(data["days"])
-        else:
-            days = None
-        return cls(model, node, timesteps=timesteps, days=days, name=name)
+            data["days"] = int(data["days"])
+        return cls(model, node, **data)
 
 RollingMeanFlowNodeRecorder.register()
 
-- 
2.43.0


From 75edabf4a8277a6c3d5d4c19c1b62cfde2c30588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:03 +0000
Subject: [PATCH 60/85] fix: refuse documents which define a node more than
 once

---
 pywr/_model.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 57a3eee..aca7538 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -409,6 +409,8 @@ class Model(object):
         nodes_to_load = {}
         for node_data in data["nodes"]:
             node_name = node_data["name"]
+            if node_name in nodes_to_load:
+                raise ValueError('A node with the name "{}" is defined more than once.'.format(node_name))
             nodes_to_load[node_name] = node_data
         model._nodes_to_load = nodes_to_load
 
-- 
2.43.0


From e3c42d59950dda09caba2bf89faa8cbd4a49e639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:16 +0000
Subject: [PATCH 61/85] fix: refuse recorder definitions with the name of
 another recorder

---
 pywr/recorders/_recorders.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 9d1c0e0..a5fde93 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -2240,11 +2240,11 @@ def load_recorder(model, data, recorder_name=None):
     if isinstance(data, str):
         recorder_name = data
 
-    # check if recorder has already been loaded
-    for rec in model.recorders:
-        if rec.name == recorder_name:
-            recorder = rec
-            break
+        # check if recorder has already been loaded
+        for rec in model.recorders:
+            if rec.name == recorder_name:
+                recorder = rec
+                break
 
     if recorder is None and isinstance(data, str):
         # recorder was requested by name, but hasn't been loaded yet
-- 
2.43.0


From 7c6f0be2355243d44c94a0f43b4b364048d718fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 62/85] fix: report errors in the thresholds of event recorders
 as they are

---
 pywr/recorders/events.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pywr/recorders/events.py b/pywr/recorders/events.py
index cb51a01..f32a1c9 100644
--- a/pywr/recorders/events.py
+++ b/pywr/recorders/events.py
@@ -198,10 +198,13 @@ class EventRecorder(Recorder):
         from pywr.parameters import load_parameter
 
         threshold = data.pop("threshold")
-        try:
-            threshold = load_parameter(model, threshold)
-        except KeyError:
+        if isinstance(threshold, str) and (
+            threshold in model.recorders.keys()
+            or threshold in getattr(model, "_recorders_to_load", {})
+        ):
             threshold = load_recorder(model, threshold)
+        else:
+            threshold = load_parameter(model, threshold)
         tracked_param = data.pop("tracked_parameter", None)
         if tracked_param:
             tracked_param = load_parameter(model, tracked_param)
-- 
2.43.0


From 538e9e9972a84a0825be8baa30359a03c5ab8d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 63/85] fix: load the costs and maximum flows of split links

---
 pywr/nodes.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 85e4881..a2ef58c 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -77,6 +77,7 @@ class Loadable:
 
     def finalise_load(self):
         """Finish loading a node by converting parameter name references to instance references."""
+        parameters = {}
         for key, parameter_data in self.__parameters_to_load.items():
             if isinstance(parameter_data, list):
                 # List of parameter references
@@ -84,9 +85,15 @@ class Loadable:
             else:
                 parameter = load_parameter(self.model, parameter_data)
 
-            setattr(self, key, parameter)
+            parameters[key] = parameter
+        self._set_loaded_parameters(parameters)
         del self.__parameters_to_load
 
+    def _set_loaded_parameters(self, parameters):
+        """Set the attributes which were given as references to, or definitions of, parameters."""
+        for key, parameter in parameters.items():
+            setattr(self, key, parameter)
+
 
 class Connectable(object):
     """A mixin class providing methods for connecting nodes in the model graph"""
@@ -993,6 +1000,15 @@ class MultiSplitLink(PiecewiseLink):
             agg = AggregatedNode(self.model, "{} Agg".format(self.name), nodes)
             agg.factors = valid_factors
 
+    def _set_loaded_parameters(self, parameters):
+        # No cost or maximum flow is given for the additional links
+        for key, default in (("costs", 0.0), ("max_flows", None)):
+            values = parameters.get(key)
+            extra = len(self._extra_inputs)
+            if values is not None and len(values) == len(self.sublinks) - extra:
+                parameters[key] = values + [default] * extra
+        super()._set_loaded_parameters(parameters)
+
     def iter_slots(self, slot_name=None, is_connector=True):
         if is_connector:
             i = self.slot_names.index(slot_name)
-- 
2.43.0


From 443ac4641ce58ca35273e16cd1e8ac9f664a8759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:59 +0000
Subject: [PATCH 64/85] fix: load the control curve and cost of reservoirs with
 a cost above it

---
 pywr/domains/river.py | 60 ++++++++++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/pywr/domains/river.py b/pywr/domains/river.py
index 6027a9b..0aa0283 100644
--- a/pywr/domains/river.py
+++ b/pywr/domains/river.py
@@ -64,6 +64,11 @@ class Reservoir(RiverDomainMixin, Storage):
     to represent a benefit of filling the reservoir when it is below its curve.
     """
 
+    __parameter_attributes__ = Storage.__parameter_attributes__ + (
+        "control_curve",
+        "above_curve_cost",
+    )
+
     def __init__(self, model, *args, **kwargs):
         """
 
@@ -75,28 +80,43 @@ class Reservoir(RiverDomainMixin, Storage):
         above_curve_cost = kwargs.pop("above_curve_cost", None)
         cost = kwargs.pop("cost", 0.0)
         if above_curve_cost is not None:
-            if control_curve is None:
-                # Make a default control curve at 100% capacity
-                control_curve = ConstantParameter(model, 1.0)
-            elif not isinstance(control_curve, Parameter):
-                # Assume parameter is some kind of constant and coerce to ConstantParameter
-                control_curve = ConstantParameter(model, control_curve)
-
-            if not isinstance(cost, Parameter):
-                # In the case where an above_curve_cost is given and cost is not a Parameter
-                # a default cost Parameter is created.
-                kwargs["cost"] = ControlCurveParameter(
-                    model, self, control_curve, [above_curve_cost, cost]
-                )
-            else:
-                raise ValueError(
-                    "If an above_curve_cost is given cost must not be a Parameter."
-                )
-        else:
-            # reinstate the given cost parameter to pass to the parent constructors
-            kwargs["cost"] = cost
+            cost = self._control_curve_cost(
+                model, control_curve, above_curve_cost, cost
+            )
+        # reinstate the cost parameter to pass to the parent constructors
+        kwargs["cost"] = cost
         super(Reservoir, self).__init__(model, *args, **kwargs)
 
+    def _control_curve_cost(self, model, control_curve, above_curve_cost, cost):
+        if control_curve is None:
+            # Make a default control curve at 100% capacity
+            control_curve = ConstantParameter(model, 1.0)
+        elif not isinstance(control_curve, Parameter):
+            # Assume parameter is some kind of constant and coerce to ConstantParameter
+            control_curve = ConstantParameter(model, control_curve)
+
+        if isinstance(cost, Parameter):
+            raise ValueError(
+                "If an above_curve_cost is given cost must not be a Parameter."
+            )
+        # In the case where an above_curve_cost is given and cost is not a Parameter
+        # a default cost Parameter is created.
+        return ControlCurveParameter(
+            model, self, control_curve, [above_curve_cost, cost]
+        )
+
+    def _set_loaded_parameters(self, parameters):
+        control_curve = parameters.pop("control_curve", None)
+        above_curve_cost = parameters.pop("above_curve_cost", None)
+        if above_curve_cost is not None:
+            parameters["cost"] = self._control_curve_cost(
+                self.model,
+                control_curve,
+                above_curve_cost,
+                parameters.get("cost", 0.0),
+            )
+        super()._set_loaded_parameters(parameters)
+
 
 class River(RiverDomainMixin, Link):
     """A node in the river network
-- 
2.43.0


From d3bde1cd6b9f5cba3cac8a23e81423e1b8ed8a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:59 +0000
Subject: [PATCH 65/85] fix: keep the colour given to inputs

---
 pywr/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index a2ef58c..bebc8f6 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -262,8 +262,8 @@ class Input(Node, BaseInput):
         max_flow : float (optional)
             A simple maximum flow constraint for the input. Defaults to 0.0
         """
+        kwargs["color"] = kwargs.pop("color", "#F26C4F")  # light red
         super(Input, self).__init__(*args, **kwargs)
-        self.color = "#F26C4F"  # light red
 
 
 class Output(Node, BaseOutput):
-- 
2.43.0


From b6cd6f7ba17103cd6182451909070e6240308adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:32 +0000
Subject: [PATCH 66/85] fix: default aggregation of aggregated recorders

---
 pywr/recorders/_recorders.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index a5fde93..07bc727 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -392,7 +392,7 @@ cdef class AggregatedRecorder(Recorder):
     """
     def __init__(self, model, recorders, **kwargs):
         # Optional different method for aggregating across self.recorders scenarios
-        agg_func = kwargs.pop('recorder_agg_func', kwargs.get('agg_func'))
+        agg_func = kwargs.pop('recorder_agg_func', kwargs.get('agg_func', 'mean'))
 
         if isinstance(agg_func, str):
             agg_func = _agg_func_lookup[agg_func.lower()]
-- 
2.43.0


From 223e0e4caea2c66964f2c1932f3822ddad84e648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:52 +0000
Subject: [PATCH 67/85] fix: load tables of values for scenarios with a single
 member

---
 pywr/parameters/_parameters.pyx | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index b537004..239e848 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -137,15 +137,17 @@ cdef class Parameter(Component):
     def load(cls, model, data):
         # If a scenario is given don't pass this to the load values methods
         scenario = data.pop('scenario', None)
+        if scenario is not None:
+            scenario = model.scenarios[scenario]
         name = data.pop("name", None)
         comment = data.pop("comment", None)
 
-        values = load_parameter_values(model, data)
+        # The dimension of a scenario with a single member is kept
+        values = load_parameter_values(model, data, squeeze=scenario is None or scenario.size > 1)
         data.pop("values", None)
         data.pop("url", None)
 
         if scenario is not None:
-            scenario = model.scenarios[scenario]
             # Only pass scenario object if one provided; most Parameter subclasses
             # do not accept a scenario argument.
             return cls(model, scenario=scenario, values=values, name=name, comment=comment, **data)
@@ -616,7 +618,8 @@ cdef class ArrayIndexedScenarioMonthlyFactorsParameter(Parameter):
         if isinstance(data["factors"], list):
             factors = np.asarray(data.pop("factors"), np.float64)
         elif isinstance(data["factors"], dict):
-            factors = load_parameter_values(model, data.pop("factors"))
+            # The dimension of a scenario with a single member is kept
+            factors = load_parameter_values(model, data.pop("factors"), squeeze=scenario.size > 1)
         else:
             raise TypeError("Unexpected type for \"factors\" in {}".format(cls.__name__))
 
@@ -2364,7 +2367,7 @@ def load_parameter(model, data, parameter_name=None):
 
 
 def load_parameter_values(model, data, values_key='values', url_key='url',
-                          table_key='table'):
+                          table_key='table', squeeze=True):
     """ Function to load values from a data dictionary.
 
     This function tries to load values in to a `np.ndarray` if 'values_key' is
@@ -2380,6 +2383,8 @@ def load_parameter_values(model, data, values_key='values', url_key='url',
         Key in data to load values directly from an external file reference (using pandas)
     table_key - str
         Key in data to load values directly from an external file reference (using pandas)
+    squeeze - bool
+        Remove the dimensions of length one from values loaded from an external file or table (default=True)
     """
     if values_key in data:
         # values are given as an array
@@ -2391,7 +2396,9 @@ def load_parameter_values(model, data, values_key='values', url_key='url',
             values = df.values
         except AttributeError:
             values = df
-        values = np.squeeze(values.astype(np.float64))
+        values = values.astype(np.float64)
+        if squeeze:
+            values = np.squeeze(values)
     else:
         # Try to get some useful information about the parameter for the error message
         name = data.get('name', None)
-- 
2.43.0


From b8d4af0c00388cfc1516f9b329a3a77055cb1944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 68/85] fix: disconnect nodes with slots and compound nodes

---
 pywr/nodes.py | 62 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index bebc8f6..15f09f0 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -113,6 +113,13 @@ class Connectable(object):
             raise ValueError("{} does not have slot: {}".format(self, slot_name))
         yield self
 
+    def _iter_all_slots(self, is_connector=True):
+        """Returns the objects which can be connected, regardless of their slot
+
+        Overload this method when implementing nodes with more than one slot.
+        """
+        return self.iter_slots(is_connector=is_connector)
+
     def connect(self, node, from_slot=None, to_slot=None):
         """Create an edge from this Node to another Node
 
@@ -152,31 +159,38 @@ class Connectable(object):
         if node is not None:
             self._disconnect(node, slot_name=slot_name, all_slots=all_slots)
         else:
-            neighbors = self.model.graph.neighbors(self)
-            for neighbor in [neighbor for neighbor in neighbors]:
-                self._disconnect(neighbor, slot_name=slot_name, all_slots=all_slots)
+            graph = self.model.graph
+            for node1 in list(self._iter_all_slots(is_connector=True)):
+                for node2 in list(graph.successors(node1)):
+                    if node2.parent is self:
+                        continue  # not a connection to another node
+                    graph.remove_edge(node1, node2)
+                    self.model.dirty = True
 
     def _disconnect(self, node, slot_name=None, all_slots=True):
         """As disconnect, except node argument is required"""
-        disconnected = False
-        try:
-            self.model.graph.remove_edge(self, node)
-        except nx.exception.NetworkXError:
-            for node_slot in node.iter_slots(
-                slot_name=slot_name, is_connector=False, all_slots=all_slots
-            ):
-                try:
-                    self.model.graph.remove_edge(self, node_slot)
-                except nx.exception.NetworkXError:
-                    pass
-                else:
-                    disconnected = True
-        else:
-            disconnected = True
-        if not disconnected:
+        graph = self.model.graph
+        # Connections are between the slots of the two nodes
+        slots = list(self._iter_all_slots(is_connector=True))
+        edges = [(node1, node) for node1 in slots if graph.has_edge(node1, node)]
+        if not edges and isinstance(node, Connectable):
+            if slot_name is None and all_slots:
+                node_slots = list(node._iter_all_slots(is_connector=False))
+            else:
+                node_slots = list(
+                    node.iter_slots(slot_name=slot_name, is_connector=False)
+                )
+            edges = [
+                (node1, node2)
+                for node1 in slots
+                for node2 in node_slots
+                if graph.has_edge(node1, node2)
+            ]
+        if not edges:
             raise nx.exception.NetworkXError(
                 "{} is not connected to {}".format(self, node)
             )
+        graph.remove_edges_from(edges)
         self.model.dirty = True
 
 
@@ -424,6 +438,9 @@ class Storage(Loadable, Drawable, Connectable, _core.Storage, metaclass=NodeMeta
             else:
                 yield self.outputs[slot_name]
 
+    def _iter_all_slots(self, is_connector=True):
+        return iter(self.inputs if is_connector else self.outputs)
+
     def check(self):
         pass  # TODO
 
@@ -1019,6 +1036,13 @@ class MultiSplitLink(PiecewiseLink):
         else:
             yield self.output
 
+    def _iter_all_slots(self, is_connector=True):
+        if is_connector:
+            yield self.input
+            yield from self._extra_inputs
+        else:
+            yield self.output
+
 
 class AggregatedStorage(
     Loadable, Drawable, _core.AggregatedStorage, metaclass=NodeMeta
-- 
2.43.0


From 41b499b73e8c1ec3b5a33bf11cc06adada16367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 69/85] fix: refuse unknown slots of compound nodes

---
 pywr/nodes.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 15f09f0..51097ef 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -885,6 +885,8 @@ class PiecewiseLink(Node):
     max_flows = property(**max_flows())
 
     def iter_slots(self, slot_name=None, is_connector=True):
+        if slot_name is not None:
+            raise ValueError("{} does not have slot: {}".format(self, slot_name))
         if is_connector:
             yield self.input
         else:
@@ -1034,6 +1036,8 @@ class MultiSplitLink(PiecewiseLink):
             else:
                 yield self._extra_inputs[i - 1]
         else:
+            if slot_name is not None:
+                raise ValueError("{} does not have slot: {}".format(self, slot_name))
             yield self.output
 
     def _iter_all_slots(self, is_connector=True):
@@ -1196,6 +1200,8 @@ class BreakLink(Node):
         return self.link.get_cost(si)
 
     def iter_slots(self, slot_name=None, is_connector=True):
+        if slot_name is not None:
+            raise ValueError("{} does not have slot: {}".format(self, slot_name))
         if is_connector:
             # connecting FROM the transfer TO something else
             yield self.link
@@ -1267,6 +1273,8 @@ class DelayNode(Node):
         super().__init__(model, name, **kwargs)
 
     def iter_slots(self, slot_name=None, is_connector=True):
+        if slot_name is not None:
+            raise ValueError("{} does not have slot: {}".format(self, slot_name))
         if is_connector:
             yield self.input
         else:
@@ -1402,6 +1410,8 @@ class LossLink(Node):
         return self.net.get_cost(si)
 
     def iter_slots(self, slot_name=None, is_connector=True):
+        if slot_name is not None:
+            raise ValueError("{} does not have slot: {}".format(self, slot_name))
         if is_connector:
             yield self.net
         else:
-- 
2.43.0


From e5465f26d5a22e8b07cba85059ec7de93e6b6e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 70/85] fix: remove the parts of a node which could not be
 created

---
 pywr/nodes.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 51097ef..73aa2d5 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -209,7 +209,20 @@ class NodeMeta(type):
 
     def __call__(cls, *args, **kwargs):
         # Create new instance of Node (or subclass thereof)
-        node = type.__call__(cls, *args, **kwargs)
+        model = kwargs["model"] if "model" in kwargs else next(iter(args), None)
+        graphs = [
+            getattr(model, attr)
+            for attr in ("graph", "component_graph")
+            if hasattr(model, attr)
+        ]
+        sizes = [len(graph) for graph in graphs]
+        try:
+            node = type.__call__(cls, *args, **kwargs)
+        except Exception:
+            # Remove the sub-nodes and components which have already been created
+            for graph, size in zip(graphs, sizes):
+                graph.remove_nodes_from(list(graph)[size:])
+            raise
         # Add node to Model graph. This needs to be done here, so that if the
         # __init__ method of Node raises an exception it is not added.
         node.model.graph.add_node(node)
-- 
2.43.0


From d5d95bcaf9516edee92efca3ae10fc5f21778c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 71/85] fix: remove all parts of a node and set the model up
 again after removing a node

---
 pywr/_model.pyx | 7 +++++++
 pywr/nodes.py   | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index aca7538..88512a2 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -976,6 +976,13 @@ class NodeIterator(object):
         for node2 in nodes_to_delete:
             del(self[node2])
         self.model.graph.remove_node(node)
+        # Also remove everything else which was created as part of the node
+        for part in getattr(node, "_parts", []):
+            if part in self.model.graph:
+                del(self[part])
+            elif part in self.model.component_graph:
+                self.model.component_graph.remove_node(part)
+        self.model.dirty = True
 
     def keys(self):
         for node in self._nodes():
diff --git a/pywr/nodes.py b/pywr/nodes.py
index 73aa2d5..466db9e 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -223,6 +223,10 @@ class NodeMeta(type):
             for graph, size in zip(graphs, sizes):
                 graph.remove_nodes_from(list(graph)[size:])
             raise
+        # Remember the nodes and components the node is made of, so that they can be removed with it
+        node._parts = [
+            part for graph, size in zip(graphs, sizes) for part in list(graph)[size:]
+        ]
         # Add node to Model graph. This needs to be done here, so that if the
         # __init__ method of Node raises an exception it is not added.
         node.model.graph.add_node(node)
-- 
2.43.0


From 04819642a13749efa0dbac055cf144711e6c0e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 72/85] fix: look up nodes by name before the parts of compound
 nodes

---
 pywr/_model.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pywr/_model.pyx b/pywr/_model.pyx
index 88512a2..743f813 100644
--- a/pywr/_model.pyx
+++ b/pywr/_model.pyx
@@ -956,9 +956,10 @@ class NodeIterator(object):
 
     def __getitem__(self, key):
         """Get a node from the graph by it's name"""
-        for node in self._nodes(hide_children=False):
-            if node.name == key:
-                return node
+        for hide_children in (True, False):  # nodes take precedence over the parts of other nodes
+            for node in self._nodes(hide_children=hide_children):
+                if node.name == key:
+                    return node
         raise KeyError("'{}'".format(key))
 
     def __delitem__(self, key):
-- 
2.43.0


From 0500d97ec285b2597d7ad1338d48513693d47d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:01 +0000
Subject: [PATCH 73/85] fix: set the integer variables of pygmo problems

---
 pywr/optimisation/pygmo.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pywr/optimisation/pygmo.py b/pywr/optimisation/pygmo.py
index 4214ff9..6717462 100644
--- a/pywr/optimisation/pygmo.py
+++ b/pywr/optimisation/pygmo.py
@@ -12,7 +12,13 @@ class PygmoWrapper(BaseOptimisationWrapper):
 
         for ivar, var in enumerate(self.model_variables):
             j = slice(self.model_variable_map[ivar], self.model_variable_map[ivar + 1])
-            var.set_double_variables(np.array(solution[j]).copy())
+            x = np.array(solution[j])
+            if var.double_size > 0:
+                var.set_double_variables(np.array(x[: var.double_size]))
+
+            if var.integer_size > 0:
+                ints = np.round(np.array(x[-var.integer_size :])).astype(np.int32)
+                var.set_integer_variables(ints)
 
         self.model.reset()
         self.run_stats = self.model.run()
-- 
2.43.0


From 319c2f519ef96e79eeac8b4435707502483f5cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:01 +0000
Subject: [PATCH 74/85] fix: equality constraints of pygmo problems relative to
 their bound

---
 pywr/optimisation/pygmo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pywr/optimisation/pygmo.py b/pywr/optimisation/pygmo.py
index 6717462..2f28e35 100644
--- a/pywr/optimisation/pygmo.py
+++ b/pywr/optimisation/pygmo.py
@@ -30,8 +30,8 @@ class PygmoWrapper(BaseOptimisationWrapper):
             objectives.append(sign * value)
 
         # Return separate lists for equality and inequality constraints.
-        # pygmo requires that inequality constraints are all of the form g(x) <= 0
-        # Therefore these are converted to this form from their respective bounds.
+        # pygmo requires that equality constraints are of the form c(x) = 0 and that inequality constraints are all
+        # of the form g(x) <= 0. Therefore these are converted to this form from their respective bounds.
         eq_constraints = []
         ineq_constraints = []
         for r in self.model_constraints:
@@ -41,7 +41,7 @@ class PygmoWrapper(BaseOptimisationWrapper):
                 ineq_constraints.append(r.constraint_lower_bounds - x)
                 ineq_constraints.append(x - r.constraint_upper_bounds)
             elif r.is_equality_constraint:
-                eq_constraints.append(x)
+                eq_constraints.append(x - r.constraint_lower_bounds)
             elif r.is_lower_bounded_constraint:
                 ineq_constraints.append(r.constraint_lower_bounds - x)
             elif r.is_upper_bounded_constraint:
-- 
2.43.0


From 0e0010792a8afd0d0302266e136732cecd4e412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:01 +0000
Subject: [PATCH 75/85] fix: upper bounds of the days of radial basis profiles
 within the year

---
 pywr/parameters/_parameters.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 239e848..853dc5c 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -1102,7 +1102,7 @@ cdef class RbfProfileParameter(Parameter):
             self.integer_size = len(values) - 1
             self._doy_lower_bounds = np.array([d - self.variable_days_of_year_range
                                                for d in self.days_of_year[1:]], dtype=np.int32)
-            self._doy_upper_bounds = np.array([d + self.variable_days_of_year_range
+            self._doy_upper_bounds = np.array([min(d + self.variable_days_of_year_range, 365)
                                                for d in self.days_of_year[1:]], dtype=np.int32)
         else:
             self.integer_size = 0
-- 
2.43.0


From bb07e0b20fb943771a1579b97ac62384154b86c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:01 +0000
Subject: [PATCH 76/85] fix: copy the values of control curve parameters

---
 pywr/parameters/_control_curves.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywr/parameters/_control_curves.pyx b/pywr/parameters/_control_curves.pyx
index 4126199..243f173 100644
--- a/pywr/parameters/_control_curves.pyx
+++ b/pywr/parameters/_control_curves.pyx
@@ -472,7 +472,8 @@ cdef class ControlCurveParameter(BaseControlCurveParameter):
         def __get__(self):
             return np.asarray(self._values)
         def __set__(self, values):
-            self._values = np.asarray(values, dtype=np.float64)
+            # These are changed by `set_double_variables`, which must not affect where they came from.
+            self._values = np.array(values, dtype=np.float64)
 
     property variable_indices:
         def __get__(self):
-- 
2.43.0


From 254b856825a0a9f2d2593ef9dcdce3fd94fd3dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:01 +0000
Subject: [PATCH 77/85] fix: values and bounds of parameters given as whole
 numbers

---
 pywr/parameters/_control_curves.pyx |  8 ++++----
 pywr/parameters/_parameters.pyx     | 24 ++++++++++++------------
 pywr/recorders/_recorders.pyx       |  2 +-
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/pywr/parameters/_control_curves.pyx b/pywr/parameters/_control_curves.pyx
index 243f173..e50f6a8 100644
--- a/pywr/parameters/_control_curves.pyx
+++ b/pywr/parameters/_control_curves.pyx
@@ -166,7 +166,7 @@ cdef class ControlCurveInterpolatedParameter(BaseControlCurveParameter):
         def __get__(self):
             return np.array(self._values)
         def __set__(self, values):
-            self._values = np.array(values)
+            self._values = np.array(values, dtype=np.float64)
 
     cpdef double value(self, Timestep ts, ScenarioIndex scenario_index) except? -1:
         cdef int j
@@ -271,7 +271,7 @@ cdef class ControlCurvePiecewiseInterpolatedParameter(BaseControlCurveParameter)
                                  'control curves ({}).'.format(nvalues))
             elif len(values[0]) != 2:
                 raise ValueError('The second dimension of values should be of length 2.')
-            self._values = np.array(values)
+            self._values = np.array(values, dtype=np.float64)
 
     cpdef double value(self, Timestep ts, ScenarioIndex scenario_index) except? -1:
         cdef int j, ncc
@@ -457,7 +457,7 @@ cdef class ControlCurveParameter(BaseControlCurveParameter):
             if len(upper_bounds) != self.double_size:
                 raise ValueError('Length of upper_bounds should be equal to the length of `variable_indices` '
                                  '({}).'.format(self.double_size))
-            self._upper_bounds = np.array(upper_bounds)
+            self._upper_bounds = np.array(upper_bounds, dtype=np.float64)
 
         if lower_bounds is not None:
             if self.values is None or variable_indices is None:
@@ -466,7 +466,7 @@ cdef class ControlCurveParameter(BaseControlCurveParameter):
             if len(lower_bounds) != self.double_size:
                 raise ValueError('Length of lower_bounds should be equal to the length of `variable_indices` '
                                  '({}).'.format(self.double_size))
-            self._lower_bounds = np.array(lower_bounds)
+            self._lower_bounds = np.array(lower_bounds, dtype=np.float64)
 
     property values:
         def __get__(self):
diff --git a/pywr/parameters/_parameters.pyx b/pywr/parameters/_parameters.pyx
index 853dc5c..d18c515 100644
--- a/pywr/parameters/_parameters.pyx
+++ b/pywr/parameters/_parameters.pyx
@@ -642,7 +642,7 @@ cdef class DailyProfileParameter(Parameter):
     """
     def __init__(self, model, values, *args, **kwargs):
         super(DailyProfileParameter, self).__init__(model, *args, **kwargs)
-        v = np.squeeze(np.array(values))
+        v = np.squeeze(np.array(values, dtype=np.float64))
         if v.ndim != 1:
             raise ValueError("values must be 1-dimensional.")
         if len(values) != 366:
@@ -663,7 +663,7 @@ cdef class WeeklyProfileParameter(Parameter):
     """
     def __init__(self, model, values, *args, **kwargs):
         super(WeeklyProfileParameter, self).__init__(model, *args, **kwargs)
-        v = np.squeeze(np.array(values))
+        v = np.squeeze(np.array(values, dtype=np.float64))
         if v.ndim != 1:
             raise ValueError("values must be 1-dimensional.")
         if len(values) == 53:
@@ -716,13 +716,13 @@ cdef class MonthlyProfileParameter(Parameter):
         self.integer_size = 0
         if len(values) != self.double_size:
             raise ValueError("12 values must be given for a monthly profile.")
-        self._values = np.array(values)
+        self._values = np.array(values, dtype=np.float64)
         self.interp_day = interp_day
 
         if np.isscalar(lower_bounds):
             lb = np.ones(self.double_size) * lower_bounds
         else:
-            lb = np.array(lower_bounds)
+            lb = np.array(lower_bounds, dtype=np.float64)
             if len(lb) != self.double_size:
                 raise ValueError("Lower bounds must be a scalar or array like of 12 values.")
         self._lower_bounds = lb
@@ -730,7 +730,7 @@ cdef class MonthlyProfileParameter(Parameter):
         if np.isscalar(upper_bounds):
             ub = np.ones(self.double_size) * upper_bounds
         else:
-            ub = np.array(upper_bounds)
+            ub = np.array(upper_bounds, dtype=np.float64)
             if len(ub) != self.double_size:
                 raise ValueError("Upper bounds must be a scalar or array like of 12 values.")
         self._upper_bounds = ub
@@ -834,7 +834,7 @@ cdef class ScenarioMonthlyProfileParameter(Parameter):
         if values.shape[1] != 12:
             raise ValueError("Second dimension of factors must be 12.")
         self._scenario = scenario
-        self._values = np.array(values)
+        self._values = np.array(values, dtype=np.float64)
 
     cpdef setup(self):
         super(ScenarioMonthlyProfileParameter, self).setup()
@@ -864,7 +864,7 @@ cdef class ScenarioWeeklyProfileParameter(Parameter):
     """
     def __init__(self, model, Scenario scenario, values, *args, **kwargs):
         super().__init__(model, *args, **kwargs)
-        values = np.array(values)
+        values = np.array(values, dtype=np.float64)
         if values.ndim != 2:
             raise ValueError("Factors must be two dimensional.")
         if scenario._size != values.shape[0]:
@@ -902,7 +902,7 @@ cdef class ScenarioDailyProfileParameter(Parameter):
     """
     def __init__(self, model, Scenario scenario, values, *args, **kwargs):
         super().__init__(model, *args, **kwargs)
-        values = np.array(values)
+        values = np.array(values, dtype=np.float64)
         if values.ndim != 2:
             raise ValueError("Factors must be two dimensional.")
         if scenario._size != values.shape[0]:
@@ -1063,7 +1063,7 @@ cdef class RbfProfileParameter(Parameter):
         if np.isscalar(lower_bounds):
             lb = np.ones(self.double_size) * lower_bounds
         else:
-            lb = np.array(lower_bounds)
+            lb = np.array(lower_bounds, dtype=np.float64)
             if len(lb) != self.double_size:
                 raise ValueError("Lower bounds must be a scalar or array like with length equivalent to rbf values")
         self._lower_bounds = lb
@@ -1071,7 +1071,7 @@ cdef class RbfProfileParameter(Parameter):
         if np.isscalar(upper_bounds):
             ub = np.ones(self.double_size) * upper_bounds
         else:
-            ub = np.array(upper_bounds)
+            ub = np.array(upper_bounds, dtype=np.float64)
             if len(ub) != self.double_size:
                raise ValueError("Upper bounds must be a scalar or array like with length equivalent to rbf values")
         self._upper_bounds = ub
@@ -1359,8 +1359,8 @@ cdef class AnnualHarmonicSeriesParameter(Parameter):
             raise ValueError("The number  of amplitudes and phases must be the same.")
         n = len(amplitudes)
         self.mean = mean
-        self._amplitudes = np.array(amplitudes)
-        self._phases = np.array(phases)
+        self._amplitudes = np.array(amplitudes, dtype=np.float64)
+        self._phases = np.array(phases, dtype=np.float64)
 
         self._mean_lower_bounds = kwargs.pop('mean_lower_bounds', 0.0)
         self._mean_upper_bounds = kwargs.pop('mean_upper_bounds', np.inf)
diff --git a/pywr/recorders/_recorders.pyx b/pywr/recorders/_recorders.pyx
index 07bc727..0e8bcb5 100644
--- a/pywr/recorders/_recorders.pyx
+++ b/pywr/recorders/_recorders.pyx
@@ -2113,7 +2113,7 @@ cdef class AnnualTotalFlowRecorder(Recorder):
         def __set__(self, factors):
             if factors is None:
                 factors = np.array([1.0 for n in self.nodes])
-            self._factors = np.array(factors)
+            self._factors = np.array(factors, dtype=np.float64)
 
     cpdef setup(self):
         super(AnnualTotalFlowRecorder, self).setup()
-- 
2.43.0


From 994813ea48cd023d33bc283726c4789c2f04a28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:34 +0000
Subject: [PATCH 78/85] fix: leave every kind of virtual node out of the
 schematic of a document

---
 pywr/notebook/__init__.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pywr/notebook/__init__.py b/pywr/notebook/__init__.py
index a0b8721..47d3641 100644
--- a/pywr/notebook/__init__.py
+++ b/pywr/notebook/__init__.py
@@ -6,6 +6,7 @@ from IPython.display import Javascript, display
 from jinja2 import Template
 from pywr.core import Node
 from pywr.core import Model
+from pywr._core import AggregatedNode, AggregatedStorage, VirtualStorage
 from pywr.nodes import NodeMeta
 from pywr._component import Component
 from pywr.parameters._parameters import get_parameter_from_registry
@@ -307,14 +308,9 @@ def pywr_json_to_d3_json(model, attributes=False):
 
     nodes = []
     node_classes = create_node_class_trees()
+    virtual_classes = (VirtualStorage, AggregatedNode, AggregatedStorage)
     for node in model["nodes"]:
-        if node["type"].lower() in [
-            "annualvirtualstorage",
-            "virtualstorage",
-            "aggregatednode",
-            "aggregatedstorage",
-            "seasonalvirtualstorage",
-        ]:
+        if issubclass(NodeMeta.node_registry[node["type"].lower()], virtual_classes):
             # Do not add virtual nodes to the graph
             continue
 
-- 
2.43.0


From 7bb9daa8e07bfd436d52fac0c2853987de0714b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:34 +0000
Subject: [PATCH 79/85] fix: attributes with lists, or of documents without
 parameters, in the schematic of a document

---
 pywr/notebook/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/notebook/__init__.py b/pywr/notebook/__init__.py
index 47d3641..a9dbbfa 100644
--- a/pywr/notebook/__init__.py
+++ b/pywr/notebook/__init__.py
@@ -333,7 +333,7 @@ def pywr_json_to_d3_json(model, attributes=False):
                         attr_val = get_parameter_from_registry(val["type"]).__name__
                     except KeyError:
                         pass
-                elif val in model["parameters"].keys():
+                elif isinstance(val, str) and val in model.get("parameters", {}):
                     param = model["parameters"][val]
                     attr_type = get_parameter_from_registry(param["type"]).__name__
                     attr_val = attr_val + " - " + attr_type
-- 
2.43.0


From 6eecf7e7f1bb834ebc6892b7007b433ff79dcbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:34 +0000
Subject: [PATCH 80/85] fix: the storage and link of a BreakLink are parts of
 it

---
 pywr/nodes.py             | 3 ++-
 pywr/notebook/__init__.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pywr/nodes.py b/pywr/nodes.py
index 466db9e..1ef9fcf 100644
--- a/pywr/nodes.py
+++ b/pywr/nodes.py
@@ -1167,8 +1167,9 @@ class BreakLink(Node):
             max_volume=0,
             initial_volume=0,
             cost=0,
+            parent=self,
         )
-        self.link = Link(model, name=link_name)
+        self.link = Link(model, name=link_name, parent=self)
 
         self.storage.connect(self.link)
 
diff --git a/pywr/notebook/__init__.py b/pywr/notebook/__init__.py
index a9dbbfa..60df704 100644
--- a/pywr/notebook/__init__.py
+++ b/pywr/notebook/__init__.py
@@ -191,9 +191,9 @@ def pywr_model_to_d3_json(model, attributes=False):
         node_source, node_target = edge
 
         # where a link is to/from a subnode, display a link to the parent instead
-        if node_source.parent is not None:
+        while node_source.parent is not None:
             node_source = node_source.parent
-        if node_target.parent is not None:
+        while node_target.parent is not None:
             node_target = node_target.parent
 
         if node_source is node_target:
-- 
2.43.0


From a7fef7a8870cb043f40621405d0d3ff8a85ccecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:34 +0000
Subject: [PATCH 81/85] fix: initial level of a KeatingAquifer before it is set
 up

---
 pywr/domains/groundwater.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywr/domains/groundwater.py b/pywr/domains/groundwater.py
index 4175f5e..ac06318 100644
--- a/pywr/domains/groundwater.py
+++ b/pywr/domains/groundwater.py
@@ -115,7 +115,9 @@ class KeatingAquifer(Storage):
     def initial_level():
         def fget(self):
             # get the initial level from the volume
-            return self.level.interp(self.initial_volume)
+            if self.initial_volume is None:
+                return None
+            return float(interp1d(self._volumes, self._levels)(self.initial_volume))
 
         def fset(self, value):
             # actually sets the initial volume
-- 
2.43.0


From 7bc1ce9a56e3c5adc029f94408fa6234af86f64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:55 +0000
Subject: [PATCH 82/85] fix: changing a component's dependencies requires the
 model to be set up again

The order in which components are evaluated is worked out during set-up. Editing
the dependencies of a component afterwards left the model with the old order, so
a following run evaluated components before those they depend on.
---
 pywr/_component.pyx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pywr/_component.pyx b/pywr/_component.pyx
index 1b00d6b..df8c18f 100644
--- a/pywr/_component.pyx
+++ b/pywr/_component.pyx
@@ -22,6 +22,7 @@ class GraphInterface:
             self.graph.add_edge(item, self.obj)
         else:
             self.graph.add_edge(self.obj, item)
+        self._mark_dirty()
 
     def remove(self, item):
         if not isinstance(item, Component):
@@ -30,6 +31,7 @@ class GraphInterface:
             self.graph.remove_edge(item, self.obj)
         else:
             self.graph.remove_edge(self.obj, item)
+        self._mark_dirty()
 
     def clear(self):
         for n in self._members:
@@ -37,6 +39,14 @@ class GraphInterface:
                 self.graph.remove_edge(n, self.obj)
             else:
                 self.graph.remove_edge(self.obj, n)
+        self._mark_dirty()
+
+    def _mark_dirty(self):
+        """The order in which components are evaluated depends on this graph. If this component
+        has already been included in that order then it needs to be worked out again."""
+        model = self.obj.model
+        if model.component_tree_flat is not None and self.obj in model.component_tree_flat:
+            model.dirty = True
 
     @property
     def _members(self):
-- 
2.43.0


From fa4d19ab5715ef46bfdecdfec583060f984b93e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:55 +0000
Subject: [PATCH 83/85] fix: use the scenario aggregation function given for
 the links of flow diagrams

---
 pywr/notebook/sankey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr/notebook/sankey.py b/pywr/notebook/sankey.py
index 808039a..af88afd 100644
--- a/pywr/notebook/sankey.py
+++ b/pywr/notebook/sankey.py
@@ -19,7 +19,7 @@ def routes_to_sankey_links(
     time_agg_func = kwargs.pop("time_agg_func", np.mean)
 
     scenario_slice = kwargs.pop("scenario_slice", None)
-    scenario_agg_func = kwargs.pop("scenario_slice", np.mean)
+    scenario_agg_func = kwargs.pop("scenario_agg_func", np.mean)
 
     sources = defaultdict(lambda: defaultdict(lambda: 0.0))
 
-- 
2.43.0


From 9d42c90adccf0bf1539a1b12edaaa22573df89fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:55 +0000
Subject: [PATCH 84/85] fix: load aquifers described by their area and
 storativity from a document

---
 pywr/domains/groundwater.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pywr/domains/groundwater.py b/pywr/domains/groundwater.py
index ac06318..520be9b 100644
--- a/pywr/domains/groundwater.py
+++ b/pywr/domains/groundwater.py
@@ -7,6 +7,11 @@ from scipy.interpolate import interp1d
 
 
 class KeatingAquifer(Storage):
+    # The area is required to create the aquifer, so it can't be set afterwards
+    __parameter_attributes__ = tuple(
+        attr for attr in Storage.__parameter_attributes__ if attr != "area"
+    )
+
     def __init__(
         self,
         model,
-- 
2.43.0


From c0d56d9fcba94a3f5773278ffd86b6951abc1eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:04 +0000
Subject: [PATCH 85/85] fix: count a node as often as it is listed in the limit
 of a virtual storage

---
 pywr/solvers/cython_glpk.pyx    | 16 +++++++---------
 pywr/solvers/cython_lpsolve.pyx | 16 +++++++---------
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/pywr/solvers/cython_glpk.pyx b/pywr/solvers/cython_glpk.pyx
index d95367d..0cffe5a 100644
--- a/pywr/solvers/cython_glpk.pyx
+++ b/pywr/solvers/cython_glpk.pyx
@@ -608,15 +608,13 @@ cdef class CythonGLPKSolver(GLPKSolver):
             cols = {}
             for n, route in enumerate(routes):
                 for some_node in route:
-                    try:
-                        i = storage.nodes.index(some_node)
-                    except ValueError:
-                        pass
-                    else:
-                        try:
-                            cols[n] += storage.factors[i]
-                        except KeyError:
-                            cols[n] = storage.factors[i]
+                    # A node counts as often as it is listed
+                    for vs_node, factor in zip(storage.nodes, storage.factors):
+                        if vs_node is some_node:
+                            try:
+                                cols[n] += factor
+                            except KeyError:
+                                cols[n] = factor
 
             ind = <int*>malloc((1+len(cols)) * sizeof(int))
             val = <double*>malloc((1+len(cols)) * sizeof(double))
diff --git a/pywr/solvers/cython_lpsolve.pyx b/pywr/solvers/cython_lpsolve.pyx
index 507df79..fa490d0 100644
--- a/pywr/solvers/cython_lpsolve.pyx
+++ b/pywr/solvers/cython_lpsolve.pyx
@@ -350,15 +350,13 @@ cdef class CythonLPSolveSolver:
             cols = {}
             for n, route in enumerate(routes):
                 for some_node in route:
-                    try:
-                        i = storage.nodes.index(some_node)
-                    except ValueError:
-                        pass
-                    else:
-                        try:
-                            cols[n] += storage.factors[i]
-                        except KeyError:
-                            cols[n] = storage.factors[i]
+                    # A node counts as often as it is listed
+                    for vs_node, factor in zip(storage.nodes, storage.factors):
+                        if vs_node is some_node:
+                            try:
+                                cols[n] += factor
+                            except KeyError:
+                                cols[n] = factor
 
             ind = <int*>malloc((len(cols)) * sizeof(int))
             val = <double*>malloc((len(cols)) * sizeof(double))
-- 
2.43.0


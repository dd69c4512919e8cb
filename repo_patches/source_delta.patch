From 1bc7ba8cb42ae6ade74d221a0b6c028523b49018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:03 +0000
Subject: [PATCH 01/31] fix: integer and 32-bit arrays are accepted by the
 study but crash the solver

Costs, ratios or efficiencies given as an integer (or float32/int32) array raised a
TypeError in ortools at solve time. Convert numeric arrays to double on creation.
---
 hadar/optimizer/domain/numeric.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hadar/optimizer/domain/numeric.py b/hadar/optimizer/domain/numeric.py
index 18291f9..81a3361 100644
--- a/hadar/optimizer/domain/numeric.py
+++ b/hadar/optimizer/domain/numeric.py
@@ -185,6 +185,10 @@ class NumericalValueFactory:
             value = np.array(value)
 
         if isinstance(value, np.ndarray):
+            # Solver coefficients and serialization only accept double numbers
+            if value.dtype.kind in "iuf":
+                value = value.astype(np.float64)
+
             # If scenario are not provided copy timeseries for each scenario
             if value.shape == (self.horizon,):
                 return RowNumericValue(
-- 
2.43.0


From e7d24864f45f8c0453de1e7da4a38995bfe52fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:25 +0000
Subject: [PATCH 02/31] fix: only the first storage of a node was constrained

StorageBuilder returned inside its loop, so the volume of every other storage
of the node was free: they delivered energy out of nothing.
---
 hadar/optimizer/lp/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index e2eb4bd..406e01b 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -295,6 +295,7 @@ class StorageBuilder:
     def add_node(
         self, name_network: str, name_node: str, node: LPNode, t: int
     ) -> Constraint:
+        const = None
         for stor in node.storages:
             self.capacities[(t, name_network, name_node, stor.name)] = stor.var_capacity
             if t == 0:
@@ -302,7 +303,6 @@ class StorageBuilder:
                 const.SetCoefficient(stor.var_flow_in, -stor.eff)
                 const.SetCoefficient(stor.var_flow_out, 1)
                 const.SetCoefficient(stor.var_capacity, 1)
-                return const
             else:
                 const = self.solver.Constraint(0, 0)
                 const.SetCoefficient(stor.var_flow_in, -stor.eff)
@@ -311,7 +311,7 @@ class StorageBuilder:
                     self.capacities[(t - 1, name_network, name_node, stor.name)], -1
                 )
                 const.SetCoefficient(stor.var_capacity, 1)
-                return const
+        return const
 
     def build(self):
         pass  # Currently nothing are need at the end. But we keep builder pattern syntax
-- 
2.43.0


From 67d9e9a58643c34dce4cf413ff6ac9c003894705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:12 +0000
Subject: [PATCH 03/31] fix: an infeasible study silently returned a
 meaningless result

The solver status was ignored: e.g. an initial storage volume which neither fits
in the capacity nor can be released gave a result violating the node balance.
---
 hadar/optimizer/lp/optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index 406e01b..6e47134 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -404,7 +404,9 @@ def _solve_batch(params) -> bytes:
 
     logger.info("Problem build. Start solver")
     solver.EnableOutput()
-    solver.Solve()
+    status = solver.Solve()
+    if status in [Solver.INFEASIBLE, Solver.UNBOUNDED]:
+        raise ValueError("Study has no feasible solution for scenario %d" % i_scn)
 
     problem_solved = time.time()
     logger.info("Solver finish cost=%d", solver.Objective().Value())
-- 
2.43.0


From 405aa0f680ad867e8ccecc8645acb2c296acfb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:19 +0000
Subject: [PATCH 04/31] fix: a link from a node to itself created energy

The import coefficient replaced the export one on the same constraint.
---
 hadar/optimizer/lp/optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index 6e47134..2805602 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -279,7 +279,9 @@ class AdequacyBuilder:
         """
         # Apply import link in adequacy
         for (t, net, src, dest), var in self.importations.items():
-            self.constraints[(t, net, dest)].SetCoefficient(var, 1)
+            # Link looping on its own node: import and export cancel each other
+            coef = 0 if src == dest else 1
+            self.constraints[(t, net, dest)].SetCoefficient(var, coef)
 
 
 class StorageBuilder:
-- 
2.43.0


From 495d80f1ea7049a0424ab0b0c46896d92c8876b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:46 +0000
Subject: [PATCH 05/31] fix: analyzer kept only the last storage of the study

All storages were written on the same rows, the others stayed uninitialised.
---
 hadar/analyzer/result.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 01c33e8..adb5653 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -331,6 +331,8 @@ class ResultAnalyzer:
                     stor.loc[slices, "t"] = np.tile(np.arange(h), scn)
                     stor.loc[slices, "scn"] = np.repeat(np.arange(scn), h)
 
+                    n_stor += 1
+
         return stor
 
     @staticmethod
-- 
2.43.0


From 73462bfac3c2b8ce7ac9e247fbece2768f643708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:52 +0000
Subject: [PATCH 06/31] fix: analyzer destination converters were sized by
 number of sources

Converters with many sources created rows without data, time and scenario.
---
 hadar/analyzer/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index adb5653..acbccfe 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -386,7 +386,7 @@ class ResultAnalyzer:
     def _build_dest_converter(study: Study, result: Result):
         h = study.horizon
         scn = study.nb_scn
-        elements = sum([len(v.src_ratios) for v in study.converters.values()])
+        elements = len(study.converters)
         size = h * scn * elements
 
         dest_conv = {
-- 
2.43.0


From 7f282e1ee2ad9ba04bdc4a55f033c7c8ee8aeee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:57 +0000
Subject: [PATCH 07/31] fix: analyzer mixed up sources of converters

With several sources the slice of each source overlapped the next ones and the
scenario column did not follow the data.
---
 hadar/analyzer/result.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index acbccfe..de4603b 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -436,10 +436,12 @@ class ResultAnalyzer:
             slices = src_conv.index[s:e]
             src_conv.loc[slices, "name"] = v.name
             src_conv.loc[slices, "t"] = np.tile(np.arange(h), scn * src_size)
-            src_conv.loc[slices, "scn"] = np.repeat(np.arange(scn), h * src_size)
+            src_conv.loc[slices, "scn"] = np.tile(
+                np.repeat(np.arange(scn), h), src_size
+            )
 
-            for i_src, (net, node) in enumerate(v.src_ratios.keys()):
-                e = s + h * scn * (i_src + 1)
+            for net, node in v.src_ratios.keys():
+                e = s + h * scn
                 slices = src_conv.index[s:e]
                 src_conv.loc[slices, "network"] = net
                 src_conv.loc[slices, "node"] = node
@@ -449,7 +451,6 @@ class ResultAnalyzer:
                     result.converters[name].flow_src[(net, node)].flatten()
                 )
                 s = e
-            s = e
 
         src_conv.loc[:, "max"] /= src_conv[
             "ratio"
-- 
2.43.0


From 7e0308457722bf25e9602f21e78bcde315322c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:27 +0000
Subject: [PATCH 08/31] fix: analyzer time and scenario slices with an open or
 empty range

slice(None, n) selected nothing, slice(n, None) raised a TypeError and an empty
slice raised an IndexError.
---
 hadar/analyzer/result.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index de4603b..0a9015a 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -61,7 +61,7 @@ class Index(Generic[T]):
 
         :return: if index filter only one value return True else False
         """
-        return not self.all and len(self.index) <= 1
+        return not self.all and len(self.index) == 1
 
 
 class ProdIndex(Index[str]):
@@ -131,13 +131,23 @@ class IntIndex(Index[int]):
         :param start: start datetime to filter (to use instead of index)
         :param end: end datetime to filter (to use instead of index)
         """
+        self.open_slice = None
         if isinstance(index, slice):
             start = 0 if index.start is None else index.start
-            stop = -1 if index.start is None else index.stop
             step = 1 if index.step is None else index.step
-            index = tuple(range(start, stop, step))
+            if index.stop is None:  # no upper boundary, keep everything after start
+                self.open_slice = (start, step)
+                index = None
+            else:
+                index = tuple(range(start, index.stop, step))
         Index.__init__(self, column=column, index=index)
 
+    def filter(self, df: pd.DataFrame) -> pd.Series:
+        if self.open_slice is None:
+            return Index.filter(self, df)
+        start, step = self.open_slice
+        return (df[self.column] >= start) & ((df[self.column] - start) % step == 0)
+
 
 class TimeIndex(IntIndex):
     """Index implementation to filter by time step"""
-- 
2.43.0


From 8075ab571c971c26541387d430344c876234c512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:33 +0000
Subject: [PATCH 09/31] fix: analyzer query with one element on each level
 raised IndexError

---
 hadar/analyzer/result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 0a9015a..cd66e17 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -480,7 +480,7 @@ class ResultAnalyzer:
         :return: dataframe trimed with useless index(es) level
         """
         # TODO refactor without the help of indexes
-        if indexes[0].is_alone() and indexes[0].index[0] in df.index:
+        if indexes and indexes[0].is_alone() and indexes[0].index[0] in df.index:
             df = df.loc[indexes[0].index[0]].copy()
             return ResultAnalyzer._remove_useless_index_level(df, indexes[1:])
         else:
-- 
2.43.0


From e2545a9cffba6f73fdef72a5904dd697a9b8cfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:39 +0000
Subject: [PATCH 10/31] fix: a partial analyzer query could not be reused

Each step was appended to the selector it was called on, so a second query
started from the same selector carried the steps of the first one.
---
 hadar/analyzer/result.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index cd66e17..2154737 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -814,8 +814,8 @@ class NetworkFluentAPISelector:
         :param index:
         :return:
         """
-        self.indexes.append(index)
-        if len(self.indexes) == NetworkFluentAPISelector.FULL_DESCRIPTION:
-            return self.analyzer.filter(self.indexes)
+        indexes = deepcopy(self.indexes) + [index]
+        if len(indexes) == NetworkFluentAPISelector.FULL_DESCRIPTION:
+            return self.analyzer.filter(indexes)
         else:
-            return NetworkFluentAPISelector(deepcopy(self.indexes), self.analyzer)
+            return NetworkFluentAPISelector(indexes, self.analyzer)
-- 
2.43.0


From 12aba58d6067e219e5b3423cbc0a6a27d3ba3b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:58 +0000
Subject: [PATCH 11/31] fix: converter queries raised KeyError when the study
 has no converter

---
 hadar/analyzer/result.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hadar/analyzer/result.py b/hadar/analyzer/result.py
index 2154737..5e18307 100644
--- a/hadar/analyzer/result.py
+++ b/hadar/analyzer/result.py
@@ -406,6 +406,8 @@ class ResultAnalyzer:
             "flow": np.empty(size, dtype=float),
             "cost": np.empty(size, dtype=float),
             "max": np.empty(size, dtype=float),
+            "t": np.empty(size, dtype=float),
+            "scn": np.empty(size, dtype=float),
         }
         dest_conv = pd.DataFrame(data=dest_conv)
 
@@ -417,8 +419,8 @@ class ResultAnalyzer:
             dest_conv.loc[slices, "network"] = v.dest_network
             dest_conv.loc[slices, "node"] = v.dest_node
             dest_conv.loc[slices, "flow"] = result.converters[name].flow_dest.flatten()
-            dest_conv.loc[slices, "t"] = np.tile(np.arange(h), scn)
-            dest_conv.loc[slices, "scn"] = np.repeat(np.arange(scn), h)
+            dest_conv.loc[slices, "t"] = np.tile(np.arange(h, dtype=float), scn)
+            dest_conv.loc[slices, "scn"] = np.repeat(np.arange(scn, dtype=float), h)
 
         return dest_conv
 
@@ -436,6 +438,8 @@ class ResultAnalyzer:
             "ratio": np.empty(size, dtype=float),
             "flow": np.empty(size, dtype=float),
             "max": np.empty(size, dtype=float),
+            "t": np.empty(size, dtype=float),
+            "scn": np.empty(size, dtype=float),
         }
         src_conv = pd.DataFrame(data=src_conv)
 
@@ -445,9 +449,9 @@ class ResultAnalyzer:
             e = s + h * scn * src_size
             slices = src_conv.index[s:e]
             src_conv.loc[slices, "name"] = v.name
-            src_conv.loc[slices, "t"] = np.tile(np.arange(h), scn * src_size)
+            src_conv.loc[slices, "t"] = np.tile(np.arange(h, dtype=float), scn * src_size)
             src_conv.loc[slices, "scn"] = np.tile(
-                np.repeat(np.arange(scn), h), src_size
+                np.repeat(np.arange(scn, dtype=float), h), src_size
             )
 
             for net, node in v.src_ratios.keys():
-- 
2.43.0


From 5fa08839c19e0ac89376e7030a7d31a0134ef397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:49 +0000
Subject: [PATCH 12/31] fix: study accepted arrays holding some negative (or
 out of range) values

---
 hadar/optimizer/domain/input.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 035fc2b..6bcbc0e 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -342,7 +342,7 @@ class Study(JSON):
             raise ValueError("link destination must be unique on a node")
 
         quantity = self.factory.create(quantity)
-        if quantity < 0:
+        if np.any(quantity.flatten() < 0):
             raise ValueError("Link quantity must be positive")
 
         cost = self.factory.create(cost)
@@ -369,7 +369,7 @@ class Study(JSON):
             raise ValueError("production name must be unique on a node")
 
         prod.quantity = self.factory.create(prod.quantity)
-        if prod.quantity < 0:
+        if np.any(prod.quantity.flatten() < 0):
             raise ValueError("Production quantity must be positive")
 
         prod.cost = self.factory.create(prod.cost)
@@ -382,7 +382,7 @@ class Study(JSON):
             raise ValueError("consumption name must be unique on a node")
 
         cons.quantity = self.factory.create(cons.quantity)
-        if cons.quantity < 0:
+        if np.any(cons.quantity.flatten() < 0):
             raise ValueError("Consumption quantity must be positive")
 
         cons.cost = self.factory.create(cons.cost)
@@ -394,15 +394,15 @@ class Study(JSON):
 
         store.flow_in = self.factory.create(store.flow_in)
         store.flow_out = self.factory.create(store.flow_out)
-        if store.flow_in < 0 or store.flow_out < 0:
+        if np.any(store.flow_in.flatten() < 0) or np.any(store.flow_out.flatten() < 0):
             raise ValueError("storage flow must be positive")
 
         store.capacity = self.factory.create(store.capacity)
-        if store.capacity < 0 or store.init_capacity < 0:
+        if np.any(store.capacity.flatten() < 0) or store.init_capacity < 0:
             raise ValueError("storage capacities must be positive")
 
         store.eff = self.factory.create(store.eff)
-        if store.eff < 0 or store.eff > 1:
+        if np.any(store.eff.flatten() < 0) or np.any(store.eff.flatten() > 1):
             raise ValueError("storage efficiency must be in ]0, 1[")
 
         store.cost = self.factory.create(store.cost)
-- 
2.43.0


From f298911c772b7a1b8b09db6e865ad40974672988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:54 +0000
Subject: [PATCH 13/31] fix: selecting another node re-pointed the node
 selectors taken before

---
 hadar/optimizer/domain/input.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 6bcbc0e..9cd504e 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -464,9 +464,8 @@ class NetworkFluentAPISelector:
         :param name: node to select when changing level
         :return: NodeFluentAPISelector initialized
         """
-        self.selector["node"] = name
         self.study.add_node(network=self.selector["network"], node=name)
-        return NodeFluentAPISelector(self.study, self.selector)
+        return NodeFluentAPISelector(self.study, {**self.selector, "node": name})
 
     def link(
         self,
-- 
2.43.0


From a4c7a6332b0bcb4d44742b6b180d7338db66a8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:00 +0000
Subject: [PATCH 14/31] fix: fluent api lost its network after adding a
 converter

---
 hadar/optimizer/domain/input.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index 9cd504e..f4c65cb 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -525,7 +525,7 @@ class NetworkFluentAPISelector:
         self.study._set_converter_dest(
             name=name, network=to_network, node=to_node, cost=cost, max=max
         )
-        return NetworkFluentAPISelector(selector={}, study=self.study)
+        return NetworkFluentAPISelector(selector=self.selector, study=self.study)
 
     def build(self):
         """
@@ -667,7 +667,7 @@ class NodeFluentAPISelector:
         :param cost: cost for each quantity produce by converter
         :return:
         """
-        return NetworkFluentAPISelector(selector={}, study=self.study).converter(
+        return NetworkFluentAPISelector(self.study, self.selector).converter(
             name=name, to_network=to_network, to_node=to_node, max=max, cost=cost
         )
 
-- 
2.43.0


From 2922c80f16541c2b7a8041089e6998b043c97732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:06 +0000
Subject: [PATCH 15/31] fix: a refused converter call left a half built
 converter in the study

---
 hadar/optimizer/domain/input.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/hadar/optimizer/domain/input.py b/hadar/optimizer/domain/input.py
index f4c65cb..4f58476 100644
--- a/hadar/optimizer/domain/input.py
+++ b/hadar/optimizer/domain/input.py
@@ -418,12 +418,13 @@ class Study(JSON):
     def _add_converter_src(
         self, name: str, network: str, node: str, ratio: NumericalValueType
     ):
-        if (network, node) in self.converters[name].src_ratios:
+        if name in self.converters and (network, node) in self.converters[name].src_ratios:
             raise ValueError(
                 "converter input already has node %s on network %s" % (node, network)
             )
 
         ratio = self.factory.create(ratio)
+        self._add_converter(name=name)
         self.converters[name].src_ratios[(network, node)] = ratio
 
     def _set_converter_dest(
@@ -434,7 +435,11 @@ class Study(JSON):
         cost: NumericalValueType,
         max: NumericalValueType,
     ):
-        if self.converters[name].dest_network and self.converters[name].dest_node:
+        if (
+            name in self.converters
+            and self.converters[name].dest_network
+            and self.converters[name].dest_node
+        ):
             raise ValueError("converter has already output set")
         if (
             network not in self.networks
@@ -442,10 +447,13 @@ class Study(JSON):
         ):
             raise ValueError("Node %s is not present in network %s" % (node, network))
 
+        cost = self.factory.create(cost)
+        max = self.factory.create(max)
+        self._add_converter(name=name)
         self.converters[name].dest_network = network
         self.converters[name].dest_node = node
-        self.converters[name].cost = self.factory.create(cost)
-        self.converters[name].max = self.factory.create(max)
+        self.converters[name].cost = cost
+        self.converters[name].max = max
 
 
 class NetworkFluentAPISelector:
@@ -521,7 +529,6 @@ class NetworkFluentAPISelector:
         :param cost: cost for each quantity produce by converter
         :return:
         """
-        self.study._add_converter(name=name)
         self.study._set_converter_dest(
             name=name, network=to_network, node=to_node, cost=cost, max=max
         )
@@ -679,7 +686,6 @@ class NodeFluentAPISelector:
         :param ratio: ratio for output
         :return:
         """
-        self.study._add_converter(name=name)
         self.study._add_converter_src(
             name=name,
             network=self.selector["network"],
-- 
2.43.0


From 9b08317a50c78df4e4a3d427ae6391f2a6128823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:12 +0000
Subject: [PATCH 16/31] fix: reading a result from json rewrote the dictionary
 given

---
 hadar/optimizer/domain/output.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hadar/optimizer/domain/output.py b/hadar/optimizer/domain/output.py
index be26482..7045f43 100644
--- a/hadar/optimizer/domain/output.py
+++ b/hadar/optimizer/domain/output.py
@@ -273,6 +273,7 @@ class Result(JSON):
 
     @staticmethod
     def from_json(dict, factory=None):
+        dict = deepcopy(dict)
         return Result(
             networks={
                 k: OutputNetwork.from_json(v) for k, v in dict["networks"].items()
-- 
2.43.0


From 54d1df0fa904e61034c9c90f46fe41befb1bed4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:03 +0000
Subject: [PATCH 17/31] fix: focus stages lost data with a custom time index or
 an additional column

---
 hadar/workflow/pipeline.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index bdc32e6..ca2674a 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -380,18 +380,14 @@ class FocusStage(Stage, ABC):
         :param timeline:
         :return:
         """
-        scenarios = timeline.columns.get_level_values(0).unique()
-
-        n_scn = len(scenarios)
-        n_time = timeline.shape[0]
-        n_type = len(self.plug.outputs)
-
-        index = FocusStage.build_multi_index(scenarios, names=self.plug.outputs)
-
-        output = pd.DataFrame(data=np.zeros((n_time, n_type * n_scn)), columns=index)
+        output = {}
         for scn in timeline.columns.get_level_values(0).unique():
-            output[scn] = self._process_scenarios(scn, timeline[scn].copy())
-        return output
+            scenario = self._process_scenarios(scn, timeline[scn].copy())
+            # outputs described by plug first, then columns only forwarded
+            outputs = [e for e in self.plug.outputs if e in scenario.columns]
+            others = [e for e in scenario.columns if e not in outputs]
+            output[scn] = scenario[outputs + others]
+        return pd.concat(output, axis=1)
 
 
 class Clip(Stage):
-- 
2.43.0


From 0f8140a03bf5266b298786e79bd05e03c2662814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:08 +0000
Subject: [PATCH 18/31] fix: linking a stage in a pipeline rewrote the stage's
 own plug

---
 hadar/workflow/pipeline.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index ca2674a..0d6df0d 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -149,8 +149,10 @@ class RestrictedPlug(Plug):
             return self
 
         # keep output not used by next pipeline and add next outputs
-        next.outputs += [e for e in self.outputs if e not in next.inputs]
-        return RestrictedPlug(inputs=self.inputs, outputs=next.outputs)
+        outputs = next.outputs + [
+            e for e in self.outputs if e not in next.inputs and e not in next.outputs
+        ]
+        return RestrictedPlug(inputs=self.inputs, outputs=outputs)
 
 
 class Pipeline:
@@ -169,12 +171,11 @@ class Pipeline:
         self.plug = stages[0].plug
 
         # Verify stage linkable capacity
-        for i in range(0, len(stages) - 1):
-            curr, next = stages[i], stages[i + 1]
-            if not curr.plug.linkable_to(next.plug):
+        for next in stages[1:]:
+            if not self.plug.linkable_to(next.plug):
                 raise ValueError(
                     "Pipeline can't be added current outputs are %s and %s has input %s"
-                    % (self.plug.outputs, curr.__class__.__name__, next.plug.inputs)
+                    % (self.plug.outputs, next.__class__.__name__, next.plug.inputs)
                 )
 
             self.plug += next.plug
-- 
2.43.0


From 5449cff9a61cdd858ee68b954af4e47318f97806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:13 +0000
Subject: [PATCH 19/31] fix: adding a stage to a pipeline modified the pipeline
 instead of returning a new one

---
 hadar/workflow/pipeline.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index 0d6df0d..1a240eb 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -167,7 +167,7 @@ class Pipeline:
         :param stages: list of stage to execute
         :param plug: current
         """
-        self.stages = stages
+        self.stages = list(stages)
         self.plug = stages[0].plug
 
         # Verify stage linkable capacity
@@ -196,9 +196,7 @@ class Pipeline:
                 % (self.plug.outputs, other.__class__.__name__, other.plug.inputs)
             )
 
-        self.plug += other.plug
-        self.stages.append(other)
-        return self
+        return Pipeline(stages=self.stages + [other])
 
     def __call__(self, timeline):
         """
-- 
2.43.0


From 15e662ab559390acb14d101bf43ab20a908ab4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:18 +0000
Subject: [PATCH 20/31] fix: running a stage rewrote the columns of the
 dataframe given

---
 hadar/workflow/pipeline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index 1a240eb..13804f8 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -308,6 +308,7 @@ class Stage(ABC):
         # Add 0th scenarios column if not present.
         if not isinstance(timeline.columns, MultiIndex):
             columns = timeline.columns.values
+            timeline = timeline.copy(deep=False)  # do not touch user's dataframe
             timeline.columns = MultiIndex.from_arrays([np.zeros_like(columns), columns])
 
         return timeline
-- 
2.43.0


From 2933ec64b078a7e008231e8fa9b27adfbd2d0bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:23 +0000
Subject: [PATCH 21/31] fix: fault stage ignored seed 0

---
 hadar/workflow/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index 13804f8..f768eb1 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -508,7 +508,7 @@ class Fault(FocusStage):
         self.seed = seed
 
     def _process_scenarios(self, n_scn: int, scenario: pd.DataFrame) -> pd.DataFrame:
-        if self.seed:
+        if self.seed is not None:
             np.random.seed(self.seed)
 
         horizon = scenario.shape[0]
-- 
2.43.0


From 572c21b65c4d11efae72edc84f5269487356bff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:29 +0000
Subject: [PATCH 22/31] fix: fault stage never reached its maximal downtime

---
 hadar/workflow/pipeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index f768eb1..5657c1f 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -518,7 +518,7 @@ class Fault(FocusStage):
         loss_qt = np.zeros(horizon)
         faults_begin = np.random.randint(low=0, high=horizon, size=nb_faults)
         faults_duration = np.random.randint(
-            low=self.downtime_min, high=self.downtime_max, size=nb_faults
+            low=self.downtime_min, high=self.downtime_max + 1, size=nb_faults
         )
         for begin, duration in zip(faults_begin, faults_duration):
             loss_qt[begin : (begin + duration)] += self.loss
-- 
2.43.0


From 19dbe5fbe5d1ee7edb21b03c2758bb9ed933fdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:34 +0000
Subject: [PATCH 23/31] fix: repeating scenarios mislabelled columns and lost
 the time index

---
 hadar/workflow/pipeline.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/hadar/workflow/pipeline.py b/hadar/workflow/pipeline.py
index 5657c1f..90d7c8f 100644
--- a/hadar/workflow/pipeline.py
+++ b/hadar/workflow/pipeline.py
@@ -545,10 +545,15 @@ class RepeatScenario(Stage):
     def _process_timeline(self, timeline: pd.DataFrame) -> pd.DataFrame:
         data = np.tile(timeline.values, self.n)
 
-        n_scn = Stage.get_scenarios(timeline).size
-        names = Stage.get_names(timeline)
-        index = Stage.build_multi_index(
-            scenarios=np.arange(0, n_scn * self.n), names=names
+        # serial number and name of each column, whatever order they are given
+        scenarios = list(Stage.get_scenarios(timeline))
+        serials = np.array([scenarios.index(scn) for scn, _ in timeline.columns])
+        names = timeline.columns.get_level_values(1).values
+        index = MultiIndex.from_arrays(
+            [
+                np.concatenate([serials + i * len(scenarios) for i in range(self.n)]),
+                np.tile(names, self.n),
+            ]
         )
 
-        return pd.DataFrame(data=data, columns=index)
+        return pd.DataFrame(data=data, columns=index, index=timeline.index)
-- 
2.43.0


From 76b17ce2748014f9439ba1d8ab64c179187b6dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:40 +0000
Subject: [PATCH 24/31] fix: add_pipeline did not return the shuffler

---
 hadar/workflow/shuffler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index 76ee6f8..9fccac7 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -134,6 +134,7 @@ class Shuffler:
         pipeline.assert_to_shuffler()
 
         self.timelines[name] = TimelinePipeline(data, pipeline, sampler=self.sampler)
+        return self
 
     def shuffle(self, nb_scn):
         """
-- 
2.43.0


From 4f3dd49b749e84e73989e8eb761d52cf103d52ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:47 +0000
Subject: [PATCH 25/31] fix: shuffler kept a column with an empty name as a
 scenario

---
 hadar/workflow/shuffler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index 9fccac7..3035720 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -78,7 +78,7 @@ class TimelinePipeline(Timeline):
         """
         res = self.pipeline(self.df)
         drop_columns = res.columns.get_level_values(1).unique().drop(TO_SHUFFLER)
-        if drop_columns.any():
+        if len(drop_columns) > 0:
             res = res.drop(drop_columns, axis=1, level=1)
         return res.values.T
 
-- 
2.43.0


From 99c43848fbde68df61943b19f26452fd7e3c9423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:52 +0000
Subject: [PATCH 26/31] fix: shuffler drew the same scenarios for every raw
 timelines

---
 hadar/workflow/shuffler.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hadar/workflow/shuffler.py b/hadar/workflow/shuffler.py
index 3035720..29f5e45 100644
--- a/hadar/workflow/shuffler.py
+++ b/hadar/workflow/shuffler.py
@@ -5,16 +5,23 @@
 #  SPDX-License-Identifier: Apache-2.0
 #  This file is part of hadar-simulator, a python adequacy library for everyone.
 import multiprocessing
+import os
 
 import numpy as np
 import pandas as pd
-from numpy.random import randint
 
 from hadar.workflow.pipeline import Pipeline, TO_SHUFFLER, Stage
 
 __all__ = ["Shuffler", "Timeline"]
 
 
+def randint(low, high, size):
+    """
+    Default sampler. Use random state of the process, whereas np.random.randint is sent to workers with its own state.
+    """
+    return np.random.randint(low, high, size)
+
+
 class Timeline:
     """
     Manage data used to generate timeline. Perform sampling too.
@@ -90,6 +97,9 @@ def compute(params):
     :param params: (timeline, number of scenarios, timeline name)
     :return: (name, sampling)
     """
+    # Workers of the pool share the same random state. Without new seed every timelines draw the same scenarios
+    np.random.seed(int.from_bytes(os.urandom(4), byteorder="little"))
+
     tl, nb, name = params
     return name, tl.sample(nb)
 
-- 
2.43.0


From 2dada66de5c3e928b9b886789fc33e5317bdee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:20 +0000
Subject: [PATCH 27/31] fix: gaussian of converters for one scenario draws that
 scenario's timeline

---
 hadar/viewer/abc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hadar/viewer/abc.py b/hadar/viewer/abc.py
index 5154d47..24e01bf 100644
--- a/hadar/viewer/abc.py
+++ b/hadar/viewer/abc.py
@@ -644,8 +644,8 @@ class SrcConverterFluentAPISelector(FluentAPISelector):
                 self.agg.network(self.network)
                 .node(self.node)
                 .to_converter(self.name)
-                .time(t)
-                .scn()["flow"]
+                .scn(scn)
+                .time()["flow"]
                 .values
             )
             rac = self.agg.get_rac(network=self.network)[scn, :]
@@ -762,8 +762,8 @@ class DestConverterFluentAPISelector(FluentAPISelector):
                 self.agg.network(self.network)
                 .node(self.node)
                 .from_converter(self.name)
-                .time(t)
-                .scn()["flow"]
+                .scn(scn)
+                .time()["flow"]
                 .values
             )
             rac = self.agg.get_rac(network=self.network)[scn, :]
-- 
2.43.0


From 778f42d9d2f7216ec3609e691da720aa99e037ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:26 +0000
Subject: [PATCH 28/31] fix: RAC matrix with no positive or no negative
 capacity raises ValueError

---
 hadar/viewer/html.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hadar/viewer/html.py b/hadar/viewer/html.py
index e791890..1b4df1f 100644
--- a/hadar/viewer/html.py
+++ b/hadar/viewer/html.py
@@ -231,8 +231,10 @@ class HTMLElementPlotting(ABCElementPlotting):
 
     def matrix(self, data: np.ndarray, title):
         def sdt(x):
-            x[x > 0] /= np.max(x[x > 0])
-            x[x < 0] /= -np.min(x[x < 0])
+            if (x > 0).any():
+                x[x > 0] /= np.max(x[x > 0])
+            if (x < 0).any():
+                x[x < 0] /= -np.min(x[x < 0])
             return x
 
         fig = go.Figure(
-- 
2.43.0


From bfc702a93e4d94061da01df9ffad4bc25cf08f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:59 +0000
Subject: [PATCH 29/31] fix: a plan of zeros was returned when the solver
 called its solution imprecise

Status ABNORMAL was ignored. Solver gives it, and forgets the optimum it has found, as soon as rounding
errors exceed 1e-6, e.g. with a consumption costing 10**6 next to a small storage.
---
 hadar/optimizer/lp/optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hadar/optimizer/lp/optimizer.py b/hadar/optimizer/lp/optimizer.py
index 2805602..630a780 100644
--- a/hadar/optimizer/lp/optimizer.py
+++ b/hadar/optimizer/lp/optimizer.py
@@ -359,6 +359,8 @@ def _solve_batch(params) -> bytes:
         study, i_scn = params
 
         solver = Solver("simple_lp_program", Solver.GLOP_LINEAR_PROGRAMMING)
+        # Rounding errors on high costs must not make solver forget the optimum it has found
+        solver.SetSolverSpecificParametersAsString("change_status_to_imprecise:false")
 
         objective = ObjectiveBuilder(solver=solver)
         adequacy = AdequacyBuilder(solver=solver)
@@ -407,7 +409,7 @@ def _solve_batch(params) -> bytes:
     logger.info("Problem build. Start solver")
     solver.EnableOutput()
     status = solver.Solve()
-    if status in [Solver.INFEASIBLE, Solver.UNBOUNDED]:
+    if status in [Solver.INFEASIBLE, Solver.UNBOUNDED, Solver.ABNORMAL]:
         raise ValueError("Study has no feasible solution for scenario %d" % i_scn)
 
     problem_solved = time.time()
-- 
2.43.0


From a3ea45740d9ee854df1d7d26f3fc33d0f8ce5409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:38 +0000
Subject: [PATCH 30/31] fix: refuse figures whose cells are not numbers

A list or table of text, dates or None was accepted as a cost, or raised TypeError
as a quantity, and an array without dimension raised IndexError.
---
 hadar/optimizer/domain/numeric.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hadar/optimizer/domain/numeric.py b/hadar/optimizer/domain/numeric.py
index 81a3361..a3d4486 100644
--- a/hadar/optimizer/domain/numeric.py
+++ b/hadar/optimizer/domain/numeric.py
@@ -185,6 +185,14 @@ class NumericalValueFactory:
             value = np.array(value)
 
         if isinstance(value, np.ndarray):
+            # Objects are accepted only if all of them are numbers
+            if value.dtype.kind == "O" and all(
+                isinstance(v, (int, float, np.integer, np.floating)) for v in value.flat
+            ):
+                value = value.astype(np.float64)
+            if value.ndim == 0 or value.dtype.kind not in "biufc":
+                raise ValueError("Array must be a list or a table of numbers only")
+
             # Solver coefficients and serialization only accept double numbers
             if value.dtype.kind in "iuf":
                 value = value.astype(np.float64)
-- 
2.43.0


From 6984b3ddf4adeda8f862491f9812e7d18ca1eb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:42 +0000
Subject: [PATCH 31/31] fix: refuse a numerical value made for a study of
 another size

---
 hadar/optimizer/domain/numeric.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hadar/optimizer/domain/numeric.py b/hadar/optimizer/domain/numeric.py
index a3d4486..9ce0d70 100644
--- a/hadar/optimizer/domain/numeric.py
+++ b/hadar/optimizer/domain/numeric.py
@@ -168,6 +168,11 @@ class NumericalValueFactory:
         self, value: Union[float, List[float], str, np.ndarray, NumericalValue]
     ) -> NumericalValue:
         if isinstance(value, NumericalValue):
+            if value.horizon != self.horizon or value.nb_scn != self.nb_scn:
+                raise ValueError(
+                    "Value has been created for horizon %d and nb_scn %d"
+                    % (value.horizon, value.nb_scn)
+                )
             return value
 
         # If data come from json serialized dictionary, use 'value' key as input
-- 
2.43.0


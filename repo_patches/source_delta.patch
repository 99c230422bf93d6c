From 4dc5acce658217e699755ccbb780f59b61578d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 01/32] fix: fill_nan_values no longer loops forever on a cell
 whose neighbours are all NaN

---
 dany/dem_conditioning.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index ce8e814..5be49a9 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -286,7 +286,8 @@ def fill_nan_values(modelgrid, dem, method="mean"):
     neighbors = modelgrid.neighbors(as_nodes=True, method="queen")
     method = method.lower()
 
-    while stack:
+    stalled = 0
+    while stalled < len(stack):
         node = stack.pop()
         nn = neighbors[node]
         elevs = filled_dem[nn]
@@ -302,8 +303,11 @@ def fill_nan_values(modelgrid, dem, method="mean"):
             raise NotImplementedError(f"{method} has not been implemented")
 
         if np.isnan(elev):
-            stack.append(node)
+            # no data to fill from yet, try again after the other cells
+            stack.insert(0, node)
+            stalled += 1
         else:
             filled_dem[node] = elev
+            stalled = 0
 
     return filled_dem.reshape(dem.shape)
-- 
2.43.0


From a9ecb6df95bb4606af25e27ee01977d3c8010e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 02/32] fix: priority flood keeps the eps increment on integer
 DEMs

---
 dany/dem_conditioning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index 5be49a9..b407d6c 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -171,7 +171,7 @@ def _priority_flood(modelgrid, dem, eps=2e-06, seed=0, streams=False):
 
     """
     import heapq
-    newdem = dem.ravel().copy()
+    newdem = dem.ravel().astype(float)
 
     if isinstance(seed, int):
         seed = [seed]
-- 
2.43.0


From 4f5e176c35b0db08f7f44ee4fbde28e104a2f29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 03/32] fix: DEM conditioning recomputes queen neighbors
 instead of trusting the grid's cache

---
 dany/dem_conditioning.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index b407d6c..670550d 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -183,7 +183,7 @@ def _priority_flood(modelgrid, dem, eps=2e-06, seed=0, streams=False):
 
     closed = np.zeros(dem.size, dtype=bool)
     closed[seed] = True
-    neighbors = modelgrid.neighbors(method="queen", as_nodes=True)
+    neighbors = modelgrid.neighbors(method="queen", as_nodes=True, reset=True)
 
     while open or pit:
         if pit:
@@ -283,7 +283,9 @@ def fill_nan_values(modelgrid, dem, method="mean"):
     """
     filled_dem = np.ravel(dem).copy()
     stack = list(np.where(np.isnan(filled_dem))[0])
-    neighbors = modelgrid.neighbors(as_nodes=True, method="queen")
+    neighbors = modelgrid.neighbors(
+        as_nodes=True, method="queen", reset=True
+    )
     method = method.lower()
 
     stalled = 0
-- 
2.43.0


From be931079849417b060b71a93d951c28338666093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 04/32] fix: flow directions recompute queen neighbors instead
 of trusting the grid's cache

---
 dany/flow_directions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index b43dd91..e8229c0 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -34,7 +34,9 @@ class FlowDirections:
         else:
             self._shape = self._modelgrid.shape
 
-        self._neighbors = copy.deepcopy(modelgrid.neighbors(method="queen"))
+        self._neighbors = copy.deepcopy(
+            modelgrid.neighbors(method="queen", reset=True)
+        )
         self._area = self._shoelace_area()
         self._fneighbors = None
         # self._dem = dem.ravel()
-- 
2.43.0


From bbea0fc5d6d49a722d96c7ebb520bb32e529adde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 05/32] fix: control point tracing uses queen neighbors on
 every grid

---
 dany/stream_util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index c4ccb2e..7d01c76 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -33,7 +33,9 @@ class StreamBase:
             self._nnodes = self._modelgrid.nnodes
             self._shape = (self._nnodes,)
 
-        self._neighbors = modelgrid.neighbors(as_nodes=False)
+        self._neighbors = modelgrid.neighbors(
+            method="queen", as_nodes=False, reset=True
+        )
         
     @property
     def stream_array(self):
-- 
2.43.0


From dd3602076e09c15fcc427a9ed7c16844cfcf56bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 06/32] fix: fill index of the neighbor array is the cell count
 on every grid type

---
 dany/flow_directions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index e8229c0..0a30831 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -62,7 +62,7 @@ class FlowDirections:
         self._fdir_r = None
         self._facc = None
         self._fillval = self._dem[-1]
-        self._fillidx = self._modelgrid.ncpl
+        self._fillidx = self._dem.size - 1
         self._threshold = 1e-6
 
     @property
-- 
2.43.0


From 69be55e9e72e5aa868012be01165f9eeacfe885c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 07/32] fix: a cell with no neighbor carrying data never flows
 to the fill index

---
 dany/flow_directions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 0a30831..e99b088 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -152,7 +152,7 @@ class FlowDirections:
         -------
         slopes : np.ndarray
             uniform array of neighboring slopes, "fake cells" are given a
-            very large upward slope as fill.
+            nan slope as fill.
         """
         cell_elevation = np.expand_dims(self._dem[:-1], axis=1)
         neighbor_elevation = self._dem[self._fneighbors]
@@ -169,7 +169,7 @@ class FlowDirections:
 
         slopes = np.where(
             self._fneighbors == self._fillidx,
-            1e+10,
+            np.nan,
             drop / dist
         )
 
-- 
2.43.0


From 2852f929ae703f3db429b0e63df57b3472a46e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 08/32] fix: resolving flats never overwrites outlet and
 terminal cells

---
 dany/flow_directions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index e99b088..46c3e7f 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -277,7 +277,8 @@ class FlowDirections:
                     # we can apply hydrologic conditioning...
                     self._fdir[ix] = -2
                     for cell in self._stack.keys():
-                        self._fdir[cell] = -2
+                        if self._fdir[cell] != cell:
+                            self._fdir[cell] = -2
                 else:
                     # create a weighted distance array
                     flow_trace = {list(self._stack[dest])[0]: [dest, 0]}
@@ -323,7 +324,8 @@ class FlowDirections:
                     if ix not in flow_trace:
                         print('break')
                     for node, (node_to, dist) in flow_trace.items():
-                        self._fdir[node] = node_to
+                        if self._fdir[node] != node:
+                            self._fdir[node] = node_to
 
     def _resolve_flats(self, cell, flow_to, dest):
         """
-- 
2.43.0


From 15678b46b9fcbc51371ca03f1a8a719e8eae1116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 09/32] fix: unresolved sinks are not treated as flow into
 another cell

---
 dany/flow_directions.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 46c3e7f..95e5a19 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -366,6 +366,8 @@ class FlowDirections:
             max_nidp = np.max(self.get_nidp())
             self._fdir_r = np.full((max_nidp, self._fdir.size), -1, dtype=int)
             for ix, fdir in enumerate(self._fdir):
+                if fdir < 0:
+                    continue
                 for jx in range(max_nidp):
                     if self._fdir_r[jx, fdir] == -1:
                         self._fdir_r[jx, fdir] = ix
@@ -384,7 +386,8 @@ class FlowDirections:
         nidp_array = np.zeros(self._fdir.size, dtype=int)
 
         for cell in self._fdir:
-            nidp_array[cell] += 1
+            if cell >= 0:
+                nidp_array[cell] += 1
 
         return nidp_array
 
@@ -469,6 +472,8 @@ class FlowDirections:
                     nidp_array[n] -= 1
                     break
                 n = self._fdir[n]
+                if n < 0:
+                    break
 
         if as_cells:
             self._facc = flow_acc
@@ -607,6 +612,10 @@ class FlowDirections:
                         graph[current] = -1
                         break
                     cellid = self._fdir[cellid]
+                    if cellid < 0:
+                        # basin outlet condition 3 flow ends in a sink
+                        graph[current] = -1
+                        break
                 else:
                     graph[current] = cellid
                     break
@@ -658,6 +667,8 @@ class FlowDirections:
         iverts = self._modelgrid.iverts
         hru_len = []
         for node, dn_node in enumerate(fdir):
+            if dn_node < 0:
+                dn_node = node
             shared_vrts = []
             up_nodes = np.where(fdir == node)[0]
             ivs = iverts[node]
@@ -701,6 +712,7 @@ class FlowDirections:
             slope of the cell's drainage path
         """
         fdir = self.flow_direction_array.ravel()
+        fdir = np.where(fdir < 0, np.arange(fdir.size), fdir)
         dem = self._dem[:-1]
 
         x0, y0 = self._xcenters[:-1], self._ycenters[:-1]
@@ -727,6 +739,7 @@ class FlowDirections:
 
         """
         fdir = self.flow_direction_array.ravel()
+        fdir = np.where(fdir < 0, np.arange(fdir.size), fdir)
         xc, yc = self._xcenters[:-1], self._ycenters[:-1]
         xp = xc[fdir] - xc
         yp = yc[fdir] - yc
-- 
2.43.0


From 28552093eeb6c8d73dd9de98940189882bb6db47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 10/32] fix: re-running flow directions drops the stale
 reversed directions

---
 dany/flow_directions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index 95e5a19..f73fd1b 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -415,6 +415,7 @@ class FlowDirections:
         self._threshold = burn_threshold
         self._fdir = np.full(self._dem.size - 1, -1)
         self._fdir[self._min_cell] = self._min_cell
+        self._fdir_r = None
         if terminal_cells:
             if isinstance(terminal_cells[0], (list, tuple)):
                 if self._modelgrid.grid_type == "structured":
-- 
2.43.0


From eceef9331f5e63e5a9d431fdf3d5264967494d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 11/32] fix: topological sort of long streams does not exhaust
 the call stack

---
 dany/stream_util.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 7d01c76..c03626c 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1435,8 +1435,9 @@ class Topology(object):
 
     def _sort_util(self, seg, visited, stack):
         """
-        Recursive function used by topological
-        sort to perform sorting
+        Function used by topological sort to perform sorting. Follows the
+        connections downstream from a segment and then adds the newly
+        visited segments to the stack
 
         Parameters
         ----------
@@ -1448,21 +1449,20 @@ class Topology(object):
             stack of sorted segment numbers
 
         """
-        visited[seg] = True
-        if seg == 0:
-            ioutseg = 0
-        else:
-            ioutseg = self.topology[seg]
-
-        if not visited[ioutseg]:
-            self._sort_util(ioutseg, visited, stack)
-
-        if seg == 0:
-            pass
-        elif ioutseg == 0:
-            stack.append(seg)
-        else:
-            stack.insert(0, seg)
+        path = []
+        while not visited[seg]:
+            visited[seg] = True
+            path.append(seg)
+            if seg != 0:
+                seg = self.topology[seg]
+
+        for seg in reversed(path):
+            if seg == 0:
+                pass
+            elif self.topology[seg] == 0:
+                stack.append(seg)
+            else:
+                stack.insert(0, seg)
 
     def sort(self):
         """
-- 
2.43.0


From 53d9e02af7504549894d9310e536e355f5d0c100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 12/32] fix: subbasin delineation accepts a pour point in cell
 0

---
 dany/flow_directions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index f73fd1b..ed1b3f1 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -621,12 +621,15 @@ class FlowDirections:
                     graph[current] = cellid
                     break
 
+        # shift cell ids by one, Topology reserves 0 for the outlet
         topo = Topology()
         for cellid, cellid_to in graph.items():
-            topo.add_connection(cellid, cellid_to)
+            if cellid_to != -1:
+                cellid_to += 1
+            topo.add_connection(cellid + 1, cellid_to)
 
         topo.add_connection(-1, -1)
-        solution_order = topo.sort()[:-1]
+        solution_order = [topoid - 1 for topoid in topo.sort()[:-1]]
         solution_idxs = [cellids.index(cellid) for cellid in solution_order]
 
         subbasins = np.zeros(self._fdir.shape, dtype=int)
-- 
2.43.0


From 3d5110af432d60fd1300e10e2c432271b7ed20f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 13/32] fix: irunbnd does not overwrite stream cells upstream
 of another segment

---
 dany/stream_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index c03626c..6a48230 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -947,7 +947,7 @@ class Sfr2005(StreamBase):
                 else:
                     visited.append(node)
 
-                upnodes = fdir_r[node]
+                upnodes = [n for n in fdir_r[node] if not stream_array[n] > 0]
                 irunbnd[upnodes] = iseg
                 stack.extend(upnodes)
 
-- 
2.43.0


From b041e5d7fa43b09aac42a6661a9be55e5f6cc69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 14/32] fix: MF2005 stream array keeps the grid shape on
 unstructured grids

---
 dany/stream_util.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 6a48230..7b146a8 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -305,9 +305,7 @@ class StreamBase:
             )[0]
             seg_array[idx] = new_seg
 
-        self._stream_array = seg_array.reshape(
-            tuple(self._modelgrid.shape[1:])
-        )
+        self._stream_array = seg_array.reshape(self._shape)
         self._graph = graph
         self._seg_graph = seg_graph
         self._node_seg_rch = np.array(nd_seg_rch)
-- 
2.43.0


From 3f909c48f1574f04af2ed23cba44e3b204c6f333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 15/32] fix: a lone self-draining stream cell keeps its MF2005
 segment

---
 dany/stream_util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 7b146a8..f8207f4 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -220,7 +220,9 @@ class StreamBase:
             segstrts = {}
             iseg = 1
             for node in nodesup:
-                if node not in nodesdn:
+                if node not in nodesdn or (
+                    graph[node] == node and nodesdn.count(node) == 1
+                ):
                     segstrts[node] = iseg
                     iseg += 1
 
-- 
2.43.0


From f2c07f9d081dc11d8629ccf8525246d589400f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 16/32] fix: many to many cascades do not leave the basin
 boundary

---
 dany/stream_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index f8207f4..47b9766 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1323,7 +1323,7 @@ class PrmsStreams(StreamBase):
                 #  links that point out of the active model extent based
                 #  on slope
                 flow_to = np.array(flow_to)
-                keep_idx = [ix for ix, conn in enumerate(conns) if fdir[conn] != 0]
+                keep_idx = [ix for ix, conn in enumerate(conns) if fdir[conn] != -9]
                 flow_to = list(flow_to[keep_idx])
                 conns = conns[keep_idx]
 
-- 
2.43.0


From 9772ac072b3fbd863b83dfd234f8fb7fb6ba67c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 17/32] fix: pyGSFLOW stream builder accepts its keyword
 arguments

---
 dany/stream_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 47b9766..50348a8 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1008,7 +1008,7 @@ class Sfr2005(StreamBase):
             }
         }
         group_segments = kwargs.pop("group_segments", True)
-        for k, v in kwargs:
+        for k, v in kwargs.items():
             if k in defaults["reach"]:
                 defaults["reach"][k] = v
             elif k in defaults["segment"]:
-- 
2.43.0


From 7694c0950f9ab276b2034ecc812e9ef70d350325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:11 +0000
Subject: [PATCH 18/32] fix: many to one cascades route a basin outlet to
 itself, not its inactive neighbor

---
 dany/stream_util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 50348a8..f3d7e80 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1233,7 +1233,7 @@ class PrmsStreams(StreamBase):
         hru_up_id = []
         hru_down_id = []
         hru_pct_up = []
-        for hru_down in fdir:
+        for node, hru_down in enumerate(fdir):
             if hru_down == -9:
                 continue
 
@@ -1243,7 +1243,8 @@ class PrmsStreams(StreamBase):
 
             if fdir[hru_down] == -9:
                 # trap for outlets, need to set hru_up and hru_dn to same val
-                idxs = [hru_down]
+                hru_down = node
+                idxs = [node]
 
             hru_up = list(idxs)
             hru_down = [hru_down,] * len(hru_up)
-- 
2.43.0


From bd08c2861e513db2a82b562c0c2d82d6377984f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 19/32] fix: stream networks and cascades end at unresolved
 sinks

---
 dany/stream_util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index f3d7e80..d8c6c41 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -146,7 +146,7 @@ class StreamBase:
         for node in strm_nodes:
             rchid = stream_array[node]
             flow_to = self._fdir[node]
-            rchto = stream_array[flow_to]
+            rchto = stream_array[flow_to] if flow_to >= 0 else 0
             topo.add_connection(rchid, rchto)
 
         rchid_mapper = {rchid: ix + 1 for ix, rchid in enumerate(topo.sort())}
@@ -1227,6 +1227,7 @@ class PrmsStreams(StreamBase):
         )
         """
         fdir = self._fdir.copy().ravel()
+        fdir = np.where(fdir < 0, np.arange(fdir.size), fdir)
         if basin_boundary is not None:
             fdir[basin_boundary.ravel() == 0] = -9
 
@@ -1288,6 +1289,7 @@ class PrmsStreams(StreamBase):
 
         """
         fdir = self._fdir.copy().ravel()
+        fdir = np.where(fdir < 0, np.arange(fdir.size), fdir)
         if basin_boundary is not None:
             fdir[basin_boundary.ravel() == 0] = -9
 
-- 
2.43.0


From 15e5c5910133cb9f9143713fe58ac1cb71b8945d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 20/32] fix: reach numbering works for boolean and narrow
 integer stream arrays

---
 dany/stream_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index d8c6c41..9de575f 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -133,7 +133,7 @@ class StreamBase:
                 )
             stream_array = self._stream_array
 
-        stream_array = stream_array.copy().ravel()
+        stream_array = np.where(stream_array.ravel() > 0, 1, 0)
         strm_nodes = np.where(stream_array)[0]
 
         # assign an initial reach number to stream cells
@@ -203,7 +203,7 @@ class StreamBase:
             stream_array = self._stream_array
 
         # 1a) create graph of connectivity via node numbers...
-        stream_array = stream_array.copy().ravel()
+        stream_array = np.where(stream_array.ravel() > 0, 1, 0)
         strm_nodes = np.where(stream_array)[0]
 
         graph = {}
-- 
2.43.0


From 421b80710a24518754d3613bf57cfc1e38be42f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 21/32] fix: a new stream array drops the connectivity of the
 previous one

---
 dany/stream_util.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 9de575f..f2c0730 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -26,6 +26,8 @@ class StreamBase:
         self._shape = shape
         self._stream_array = None
         self._graph = None
+        self._seg_graph = None
+        self._node_seg_rch = None
 
         self._shape = self._modelgrid.shape[1:]
         self._nnodes = self._modelgrid.ncpl
@@ -75,6 +77,8 @@ class StreamBase:
             )
 
         self._stream_array = stream_array.reshape(self._shape)
+        self._graph = None
+        self._seg_graph = None
 
     def delineate_streams(self, contrib_area, basin_boundary=None):
         """
@@ -106,6 +110,8 @@ class StreamBase:
             stream_array[basin_boundary.ravel() == 0] = 0
 
         self._stream_array = stream_array.reshape(self._shape)
+        self._graph = None
+        self._seg_graph = None
         return self._stream_array
 
     def _mf6_stream_connectivity(self, stream_array=None):
-- 
2.43.0


From 221e85ae06f8a0599d4232daedceb38a3f0d825e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 22/32] fix: an explicitly passed stream array is not ignored
 in favor of stored connectivity

---
 dany/stream_util.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index f2c0730..e985a7f 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -114,6 +114,22 @@ class StreamBase:
         self._seg_graph = None
         return self._stream_array
 
+    def _is_stored(self, stream_array):
+        """
+        Method to check if an array is the internally stored stream array
+
+        Parameters
+        ----------
+        stream_array : np.ndarray
+
+        Returns
+        -------
+            bool
+        """
+        return self._stream_array is not None and np.array_equal(
+            stream_array.ravel(), self._stream_array.ravel()
+        )
+
     def _mf6_stream_connectivity(self, stream_array=None):
         """
         Method to determine MF6 stream connectivity by reach
@@ -578,6 +594,7 @@ class Sfr6(StreamBase):
             stream_array = self.stream_array
         else:
             graph = self._mf6_stream_connectivity(stream_array)
+            stream_array = self.stream_array
 
         stream_array = stream_array.ravel()
         dem_top = self._modelgrid.top.ravel()
@@ -758,7 +775,7 @@ class Sfr2005(StreamBase):
                 )
             stream_array = self._stream_array
 
-        if self._seg_graph is None:
+        if self._seg_graph is None or not self._is_stored(stream_array):
             group_segments = kwargs.pop("group_segments", True)
             self._mf2005_stream_connectivity(
                 stream_array, group_segments=group_segments
@@ -874,7 +891,7 @@ class Sfr2005(StreamBase):
                 )
             stream_array = self._stream_array
 
-        if self._seg_graph is None:
+        if self._seg_graph is None or not self._is_stored(stream_array):
             group_segments = kwargs.pop("group_segments", True)
             self._mf2005_stream_connectivity(
                 stream_array, group_segments=group_segments
@@ -918,7 +935,7 @@ class Sfr2005(StreamBase):
             stream_array = self._stream_array
 
         if segment_graph is None:
-            if self._seg_graph is None:
+            if self._seg_graph is None or not self._is_stored(stream_array):
                 group_segments = kwargs.pop("group_segments", True)
                 segment_graph = self.get_stream_connectivity(
                     stream_array=stream_array,
@@ -1174,7 +1191,7 @@ class PrmsStreams(StreamBase):
         if stream_array is None:
             stream_array = self.stream_array
 
-        if self._graph is None:
+        if self._graph is None or not self._is_stored(stream_array):
             group_segments = kwargs.pop("group_segments", False)
             self.get_stream_connectivity(stream_array, group_segments)
             stream_array = self.stream_array
-- 
2.43.0


From bacf85273bf0a5826637969a870ee309aa5d3572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 23/32] fix: drawing stream vectors leaves the stored stream
 connectivity alone

---
 dany/stream_util.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index e985a7f..be60b21 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -361,9 +361,19 @@ class StreamBase:
         if stream_array is not None:
             stream_array = stream_array.copy()
             stream_array[np.isnan(stream_array)] = 0
+        stored = (
+            self._stream_array, self._graph,
+            self._seg_graph, self._node_seg_rch
+        )
         seg_graph = self._mf2005_stream_connectivity(
             stream_array, group_segments=group_segments
         )
+        nsr = self._node_seg_rch.copy()
+        if stored[0] is not None:
+            (
+                self._stream_array, self._graph,
+                self._seg_graph, self._node_seg_rch
+            ) = stored
         # get headwater segs
         headwaters = []
         seg_graph_r = {v: k for k, v in seg_graph.items()}
@@ -374,7 +384,6 @@ class StreamBase:
         vectors = {}
         processed = []
         stack = []
-        nsr = self._node_seg_rch.copy()
         while headwaters or stack:
             if stack:
                 seg = stack.pop(0)
-- 
2.43.0


From 96ae5c4dbad9c8823bcc522d3ab29da2cbd81176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 24/32] fix: reach data looks up downstream reaches by segment,
 not by column

---
 dany/stream_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index be60b21..2d6c586 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -848,12 +848,12 @@ class Sfr2005(StreamBase):
         for ix in range(len(basic_rec)):
             rec = basic_rec[ix]
             if len(rec) < rec_len:
-                iseg = rec[3]
+                iseg = rec[4]
                 if iseg not in self._seg_graph:
                     downreach = 0
                 else:
                     outseg = self._seg_graph[iseg]
-                    downreach = seg_rid_lut[outseg]
+                    downreach = seg_rid_lut.get(outseg, 0)
                 basic_rec[ix].append(downreach)
 
         nreach = len(basic_rec)
-- 
2.43.0


From 41e00341982906aabd27f9e6f4accb39e3431d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 25/32] fix: pyGSFLOW stream builder measures slope to the
 downstream reach

---
 dany/stream_util.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 2d6c586..4a8db55 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -1067,10 +1067,22 @@ class Sfr2005(StreamBase):
             xcenters = self._modelgrid.xcellcenters.ravel()
             ycenters = self._modelgrid.ycellcenters.ravel()
             dem = self._modelgrid.top.ravel()
+            outsegs = dict(zip(segment_data["nseg"], segment_data["outseg"]))
+            segstrts = {
+                r["iseg"]: r["node"] for r in reach_data if r["ireach"] == 1
+            }
+            nodes = {(r["iseg"], r["ireach"]): r["node"] for r in reach_data}
             for ix, rec in enumerate(reach_data):
                 node = rec["node"]
                 rec_dn_ix = rec["outreach"] - 1
-                if rec_dn_ix >= len(reach_data):
+                if rec_dn_ix < 0:
+                    # outreach is not set, get it from the connectivity
+                    iseg, ireach = rec["iseg"], rec["ireach"]
+                    node_dn = nodes.get(
+                        (iseg, ireach + 1),
+                        segstrts.get(outsegs.get(iseg), node)
+                    )
+                elif rec_dn_ix >= len(reach_data):
                     node_dn = rec["node"]
                 else:
                     node_dn = reach_data[rec_dn_ix]["node"]
-- 
2.43.0


From 772a18d47aa800036a0f2487477a92aa0f56fc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 26/32] fix: no zero-length stream line for a self-draining
 outlet

---
 dany/stream_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 4a8db55..006b5e6 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -395,7 +395,7 @@ class StreamBase:
 
             # add downstream connection
             dn_seg = seg_graph[seg]
-            if dn_seg != 0:
+            if dn_seg != 0 and dn_seg != seg:
                 if dn_seg not in processed:
                     stack.append(dn_seg)
                 bool_slice = nsr[:, 1] == dn_seg
-- 
2.43.0


From 189105d271e7699f82514f60c1182e25cd9e4ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 27/32] fix: stream vectors of an explicit array are not stored
 as stream connectivity

---
 dany/stream_util.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 006b5e6..bf61e08 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -369,11 +369,10 @@ class StreamBase:
             stream_array, group_segments=group_segments
         )
         nsr = self._node_seg_rch.copy()
-        if stored[0] is not None:
-            (
-                self._stream_array, self._graph,
-                self._seg_graph, self._node_seg_rch
-            ) = stored
+        (
+            self._stream_array, self._graph,
+            self._seg_graph, self._node_seg_rch
+        ) = stored
         # get headwater segs
         headwaters = []
         seg_graph_r = {v: k for k, v in seg_graph.items()}
-- 
2.43.0


From 9a0618f617aa52ba6ceeb0bc674c25bdc042b3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 28/32] fix: flow directions of a grid without any neighbors

---
 dany/flow_directions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/flow_directions.py b/dany/flow_directions.py
index ed1b3f1..b0f4ba1 100644
--- a/dany/flow_directions.py
+++ b/dany/flow_directions.py
@@ -129,7 +129,7 @@ class FlowDirections:
 
         """
         axis0 = len(self._neighbors)
-        axis1 = 0
+        axis1 = 1
         for _, n in self._neighbors.items():
             if len(n) > axis1:
                 axis1 = len(n)
-- 
2.43.0


From 7a9f3a1756dad252b120620c4ec51ba6e262eef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 29/32] fix: nan cells without neighbors when filling with min
 or max

---
 dany/dem_conditioning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dany/dem_conditioning.py b/dany/dem_conditioning.py
index 670550d..76736b1 100644
--- a/dany/dem_conditioning.py
+++ b/dany/dem_conditioning.py
@@ -298,9 +298,9 @@ def fill_nan_values(modelgrid, dem, method="mean"):
         elif method == "median":
             elev = np.nanmedian(elevs)
         elif method == "min":
-            elev = np.nanmin(elevs)
+            elev = np.nanmin(elevs) if len(elevs) > 0 else np.nan
         elif method == "max":
-            elev = np.nanmax(elevs)
+            elev = np.nanmax(elevs) if len(elevs) > 0 else np.nan
         else:
             raise NotImplementedError(f"{method} has not been implemented")
 
-- 
2.43.0


From c72179e1918214dc7a83ba61d37aabf35cd9eb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:33 +0000
Subject: [PATCH 30/32] fix: grouping of an equal stored stream array is not
 mistaken for the requested one

---
 dany/stream_util.py | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index bf61e08..fb85114 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -28,6 +28,7 @@ class StreamBase:
         self._graph = None
         self._seg_graph = None
         self._node_seg_rch = None
+        self._group_segments = None
 
         self._shape = self._modelgrid.shape[1:]
         self._nnodes = self._modelgrid.ncpl
@@ -114,18 +115,23 @@ class StreamBase:
         self._seg_graph = None
         return self._stream_array
 
-    def _is_stored(self, stream_array):
+    def _is_stored(self, stream_array, group_segments=None):
         """
         Method to check if an array is the internally stored stream array
+        and its connectivity was calculated with the requested grouping
 
         Parameters
         ----------
         stream_array : np.ndarray
+        group_segments : bool or None
+            requested grouping, None accepts the stored one
 
         Returns
         -------
             bool
         """
+        if group_segments not in (None, self._group_segments):
+            return False
         return self._stream_array is not None and np.array_equal(
             stream_array.ravel(), self._stream_array.ravel()
         )
@@ -192,6 +198,7 @@ class StreamBase:
 
         self._stream_array = stream_array
         self._graph = new_map
+        self._group_segments = False
         return new_map
 
     def _mf2005_stream_connectivity(self, stream_array=None, group_segments=True):
@@ -333,6 +340,7 @@ class StreamBase:
         self._graph = graph
         self._seg_graph = seg_graph
         self._node_seg_rch = np.array(nd_seg_rch)
+        self._group_segments = group_segments
         return seg_graph
 
     def create_stream_vectors(self, stream_array=None, group_segments=True):
@@ -363,7 +371,7 @@ class StreamBase:
             stream_array[np.isnan(stream_array)] = 0
         stored = (
             self._stream_array, self._graph,
-            self._seg_graph, self._node_seg_rch
+            self._seg_graph, self._node_seg_rch, self._group_segments
         )
         seg_graph = self._mf2005_stream_connectivity(
             stream_array, group_segments=group_segments
@@ -371,7 +379,7 @@ class StreamBase:
         nsr = self._node_seg_rch.copy()
         (
             self._stream_array, self._graph,
-            self._seg_graph, self._node_seg_rch
+            self._seg_graph, self._node_seg_rch, self._group_segments
         ) = stored
         # get headwater segs
         headwaters = []
@@ -783,7 +791,9 @@ class Sfr2005(StreamBase):
                 )
             stream_array = self._stream_array
 
-        if self._seg_graph is None or not self._is_stored(stream_array):
+        if self._seg_graph is None or not self._is_stored(
+            stream_array, kwargs.get("group_segments")
+        ):
             group_segments = kwargs.pop("group_segments", True)
             self._mf2005_stream_connectivity(
                 stream_array, group_segments=group_segments
@@ -899,7 +909,9 @@ class Sfr2005(StreamBase):
                 )
             stream_array = self._stream_array
 
-        if self._seg_graph is None or not self._is_stored(stream_array):
+        if self._seg_graph is None or not self._is_stored(
+            stream_array, kwargs.get("group_segments")
+        ):
             group_segments = kwargs.pop("group_segments", True)
             self._mf2005_stream_connectivity(
                 stream_array, group_segments=group_segments
@@ -943,7 +955,9 @@ class Sfr2005(StreamBase):
             stream_array = self._stream_array
 
         if segment_graph is None:
-            if self._seg_graph is None or not self._is_stored(stream_array):
+            if self._seg_graph is None or not self._is_stored(
+                stream_array, kwargs.get("group_segments")
+            ):
                 group_segments = kwargs.pop("group_segments", True)
                 segment_graph = self.get_stream_connectivity(
                     stream_array=stream_array,
@@ -1038,7 +1052,9 @@ class Sfr2005(StreamBase):
                 "max_slope": 1
             }
         }
-        group_segments = kwargs.pop("group_segments", True)
+        group = {}
+        if "group_segments" in kwargs:
+            group["group_segments"] = kwargs.pop("group_segments")
         for k, v in kwargs.items():
             if k in defaults["reach"]:
                 defaults["reach"][k] = v
@@ -1052,11 +1068,11 @@ class Sfr2005(StreamBase):
                 )
 
         if reach_data is None:
-            reach_data = self.reach_data(group_segments=group_segments)
+            reach_data = self.reach_data(**group)
         if segment_data is None:
-            segment_data = self.segment_data(group_segments=group_segments)
+            segment_data = self.segment_data(**group)
         if irunbnd is None:
-            irunbnd = self.irunbnd(group_segments=group_segments)
+            irunbnd = self.irunbnd(**group)
 
         if apply_defaults:
             pgs_defaults = defaults["pgs_defaults"]
@@ -1211,7 +1227,9 @@ class PrmsStreams(StreamBase):
         if stream_array is None:
             stream_array = self.stream_array
 
-        if self._graph is None or not self._is_stored(stream_array):
+        if self._graph is None or not self._is_stored(
+            stream_array, kwargs.get("group_segments")
+        ):
             group_segments = kwargs.pop("group_segments", False)
             self.get_stream_connectivity(stream_array, group_segments)
             stream_array = self.stream_array
-- 
2.43.0


From ff861257bc1cb6b1f109f93cf0ec7c0054db7f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:29 +0000
Subject: [PATCH 31/32] fix: reach_data returns an empty table when there are
 no stream cells instead of raising IndexError

---
 dany/stream_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index fb85114..5ad5740 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -866,7 +866,7 @@ class Sfr2005(StreamBase):
                 basic_rec[ix].append(downreach)
 
         nreach = len(basic_rec)
-        basic_rec = np.array(basic_rec).T
+        basic_rec = np.array(basic_rec).reshape((nreach, 11)).T
 
         reach_data = ModflowSfr2.get_empty_reach_data(nreaches=nreach)
         reach_data["node"] = basic_rec[0]
-- 
2.43.0


From 3c39fb3d8d18f14195a4d7c34373244ea6c590d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:29 +0000
Subject: [PATCH 32/32] fix: splitting cell ids into columns works for package
 data without rows

---
 dany/stream_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dany/stream_util.py b/dany/stream_util.py
index 5ad5740..01bc391 100644
--- a/dany/stream_util.py
+++ b/dany/stream_util.py
@@ -697,9 +697,9 @@ class Sfr6(StreamBase):
 
         """
         odtype = recarray.dtype.descr
-        if len(recarray["cellid"][0]) == 3:
+        if self._modelgrid.grid_type == "structured":
             cellid = [("k", int), ("i", int), ("j", int)]
-        elif len(recarray["cellid"][0]) == 2:
+        elif self._modelgrid.grid_type == "vertex":
             cellid = [("k", int), ("node", int)]
         else:
             cellid = [("node", int),]
-- 
2.43.0


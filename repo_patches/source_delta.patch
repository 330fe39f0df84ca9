From 4d214025fea984f3fe73892f2d3fad3f60d06b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 01/30] fix: PermitSym with a negative bound permits no set at
 all

---
 src/SAPPOROBDD/ZBDD.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SAPPOROBDD/ZBDD.cc b/src/SAPPOROBDD/ZBDD.cc
index d021c2a..2eb10b0 100644
--- a/src/SAPPOROBDD/ZBDD.cc
+++ b/src/SAPPOROBDD/ZBDD.cc
@@ -124,6 +124,7 @@ ZBDD ZBDD::PermitSym(int n) const
 {
   if(*this == -1) return -1;
   if(*this == 0) return 0;
+  if(n < 0) return 0;
   if(*this == 1) return 1;
   if(n < 1) return *this & 1;
 
-- 
2.43.0


From 7ad005bc7d87e0b73ffac0fd65a3943468688695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 02/30] fix: non_supersets of {{}} removes the empty set when
 it is in the other family

---
 src/graphillion/zdd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 411e250..69d40c0 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -229,7 +229,7 @@ zdd_t non_supersets(zdd_t f, zdd_t g) {
   else if (f == bot() || g == top() || f == g)
     return bot();
   else if (f == top())
-    return top();
+    return f - g;
   else if (elem(f) > elem(g))
     return non_supersets(f, lo(g));
   pair<word_t, word_t> k = make_key(f, g);
-- 
2.43.0


From 59c3b750232fab3fe28a961247d325219aa8288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 03/30] fix: every set of the universe hits all members of the
 empty family

---
 src/graphillion/zdd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 69d40c0..8c6f61e 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -139,7 +139,7 @@ zdd_t maximal(zdd_t f) {
 }
 
 zdd_t hitting(zdd_t f, elem_t num_elems_a) {
-  if (f == bot()) return top();
+  if (f == bot()) return complement(bot(), num_elems_a);
   if (f == top()) return bot();
   vector<vector<zdd_t> > stacks(num_elems_a + 1);
   set<word_t> visited;
-- 
2.43.0


From a7c6cbb9119876dc1e943bf9f9930b01f2e7be41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 04/30] fix: setset::count counts the given set only, not its
 supersets

---
 src/graphillion/setset.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphillion/setset.cc b/src/graphillion/setset.cc
index b1f1eaf..543a71d 100644
--- a/src/graphillion/setset.cc
+++ b/src/graphillion/setset.cc
@@ -301,7 +301,7 @@ setset::iterator setset::find(const set<elem_t>& s) const {
 }
 
 size_t setset::count(const set<elem_t>& s) const {
-  return this->zdd_ / setset(s).zdd_ != bot() ? 1 : 0;
+  return this->find(s) != end() ? 1 : 0;
 }
 
 pair<setset::iterator, bool> setset::insert(const set<elem_t>& s) {
-- 
2.43.0


From 754a3441f3d8fe7818aff838653f75494e6bf8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:52 +0000
Subject: [PATCH 05/30] fix: cache add_some_element and
 remove_add_some_elements by variable, not by level

---
 src/graphillion/reconf.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/graphillion/reconf.cc b/src/graphillion/reconf.cc
index 638ed63..09ab526 100644
--- a/src/graphillion/reconf.cc
+++ b/src/graphillion/reconf.cc
@@ -34,6 +34,14 @@ typedef unsigned long long int ullint;
 #define BC_ADDE_CPP     30
 #define BC_SWAPE_CPP    31
 
+// Results are cached by variables, not by levels: the level of a variable
+// changes when the universe grows, and the cache outlives that.
+static bddword cache_key(int n, int lower)
+{
+  return (static_cast<bddword>(BDD_VarOfLev(n)) << 16)
+      + (BDD_VarUsed() + 1 - lower);
+}
+
 ZBDD removeSomeElement(const ZBDD& f)
 {
   if (f == ZBDD(0) || f == ZBDD(1)) {
@@ -89,7 +97,7 @@ ZBDD addSomeElement(const ZBDD& f, int n, int lower)
   }
 
   bddword fx = f.GetID();
-  ZBDD h = BDD_CacheZBDD(BC_ADDE_CPP, fx, static_cast<bddword>((n << 16) + lower));
+  ZBDD h = BDD_CacheZBDD(BC_ADDE_CPP, fx, cache_key(n, lower));
   if(h != -1) {
     return h;
   }
@@ -111,7 +119,7 @@ ZBDD addSomeElement(const ZBDD& f, int n, int lower)
 
   BDD_RECUR_DEC;
   if(h != -1) {
-    BDD_CacheEnt(BC_ADDE_CPP, fx, static_cast<bddword>((n << 16) + lower), h.GetID());
+    BDD_CacheEnt(BC_ADDE_CPP, fx, cache_key(n, lower), h.GetID());
   }
 
   return h;
@@ -129,7 +137,7 @@ ZBDD removeAddSomeElements(const ZBDD& f, int n, int lower)
   assert(flev <= n);
 
   bddword fx = f.GetID();
-  ZBDD h = BDD_CacheZBDD(BC_SWAPE_CPP, fx, static_cast<bddword>((n << 16) + lower));
+  ZBDD h = BDD_CacheZBDD(BC_SWAPE_CPP, fx, cache_key(n, lower));
   if(h != -1) {
     return h;
   }
@@ -155,7 +163,7 @@ ZBDD removeAddSomeElements(const ZBDD& f, int n, int lower)
 
   BDD_RECUR_DEC;
   if(h != -1) {
-    BDD_CacheEnt(BC_SWAPE_CPP, fx, static_cast<bddword>((n << 16) + lower), h.GetID());
+    BDD_CacheEnt(BC_SWAPE_CPP, fx, cache_key(n, lower), h.GetID());
   }
 
   return h;
-- 
2.43.0


From 08691ff8264975bdf8f8ea459abe7a54927f207e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:08 +0000
Subject: [PATCH 06/30] fix: cost_le: sums of 32-bit costs do not fit in an int

---
 src/SAPPOROBDD/BDDCT.h | 5 +++--
 src/pygraphillion.cc   | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/SAPPOROBDD/BDDCT.h b/src/SAPPOROBDD/BDDCT.h
index f1db9ab..00ccb5d 100644
--- a/src/SAPPOROBDD/BDDCT.h
+++ b/src/SAPPOROBDD/BDDCT.h
@@ -14,8 +14,9 @@ class BDDCT;
 #include <iostream>
 #include "ZBDD.h"
 
-typedef int bddcost;
-#define bddcost_null 0x7FFFFFFF
+// wide enough for the sum of the 32-bit costs of all the variables
+typedef long long bddcost;
+#define bddcost_null 0x7FFFFFFFFFFFFFFFLL
 #define CT_STRLEN 15
 
 #include <map>
diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 63760ac..65b65c9 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -1280,7 +1280,7 @@ static PyObject* setset_cost_le(PySetsetObject* self, PyObject* args, PyObject*
   static char s2[] = "cost_bound";
   static char* kwlist[3] = {s1, s2, NULL};
   PyObject* costs_obj = NULL;
-  bddcost cost_bound = 0;
+  int cost_bound = 0;
   if (!PyArg_ParseTupleAndKeywords(args, kwds, "Oi", kwlist, &costs_obj, &cost_bound))
     return NULL;
   if (costs_obj == NULL || costs_obj == Py_None) {
-- 
2.43.0


From a17dda55c139796a1147aac52c6c8cdd6cfda5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:26 +0000
Subject: [PATCH 07/30] fix: bfs and dfs traversals of a directed universe keep
 antiparallel arcs

---
 graphillion/digraphset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 722fa9f..5f961be 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -2117,6 +2117,8 @@ class DiGraphSet(object):
                     if v in visited_vertices:
                         e = (u, v) if (u, v) in indexed_edges else (v, u)
                         sorted_edges.append(e)
+                        if (e[1], e[0]) in indexed_edges:
+                            sorted_edges.append((e[1], e[0]))
                 new_vertices = neighbors[u] - \
                     visited_vertices - set(queue_or_stack)
                 queue_or_stack.extend(sorted(new_vertices))
-- 
2.43.0


From 910d0235ea743df93ce114d628dc02fb00f24eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:54 +0000
Subject: [PATCH 08/30] fix: GraphSet.flip of an edge given in the other
 direction

---
 graphillion/graphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 12c3fc7..abe2e82 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -994,7 +994,7 @@ class GraphSet(object):
         """
         type, obj = GraphSet._conv_arg(edge)
         if type == 'edge':
-            self._ss.flip(Universe.e_objtable, edge)
+            self._ss.flip(Universe.e_objtable, obj)
         else:
             raise TypeError(edge)
 
-- 
2.43.0


From d81607f56cc78c77994eb6161d2c10eeeaadfee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:54 +0000
Subject: [PATCH 09/30] fix: graph searches called on a DiGraphSet object

---
 graphillion/digraphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 5f961be..73a2c92 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -143,7 +143,7 @@ class DiGraphSet(object):
                    'rooted_trees', 'graphs']
         for method in methods:
             setattr(self, method, partial(
-                getattr(DiGraphSet, method), DiGraphSet=self))
+                getattr(DiGraphSet, method), graphset=self))
 
     def copy(self):
         """Returns a new DiGraphSet with a shallow copy of `self`.
-- 
2.43.0


From 2093704b6734b18fe93d396833bbef5f1604a40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:54 +0000
Subject: [PATCH 10/30] fix: cost filters accept edges given in the other
 direction

---
 graphillion/edgevertex_setset.py | 4 +++-
 graphillion/graphset.py          | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/graphillion/edgevertex_setset.py b/graphillion/edgevertex_setset.py
index 88f5b66..a56a461 100644
--- a/graphillion/edgevertex_setset.py
+++ b/graphillion/edgevertex_setset.py
@@ -1375,6 +1375,7 @@ class EdgeVertexSetSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = {EdgeVertexSetSet._conv_edgevertex(ev): c for ev, c in costs.items()}
         return EdgeVertexSetSet(self._ss.cost_le(objtable=Universe.ev_objtable, costs=costs, cost_bound=cost_bound))
 
     def cost_ge(self, costs, cost_bound):
@@ -1411,7 +1412,7 @@ class EdgeVertexSetSet(object):
           TypeError: If at least one cost is not integer.
 
         """
-        inv_costs = {e: -cost for e, cost in costs.items()}
+        inv_costs = {EdgeVertexSetSet._conv_edgevertex(ev): -cost for ev, cost in costs.items()}
         return EdgeVertexSetSet(self._ss.cost_le(objtable=Universe.ev_objtable, costs=inv_costs, cost_bound=-cost_bound))
 
     def cost_eq(self, costs, cost_bound):
@@ -1448,6 +1449,7 @@ class EdgeVertexSetSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = {EdgeVertexSetSet._conv_edgevertex(ev): c for ev, c in costs.items()}
         le_ss = self._ss.cost_le(objtable=Universe.ev_objtable, costs=costs, cost_bound=cost_bound)
         lt_ss = self._ss.cost_le(objtable=Universe.ev_objtable, costs=costs, cost_bound=cost_bound - 1)
         return EdgeVertexSetSet(le_ss.difference(lt_ss))
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index abe2e82..828a507 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -1535,6 +1535,7 @@ class GraphSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = {GraphSet._conv_edge(e): c for e, c in costs.items()}
         return GraphSet(self._ss.cost_le(objtable=Universe.e_objtable, costs=costs, cost_bound=cost_bound))
 
     def cost_ge(self, costs, cost_bound):
@@ -1570,7 +1571,7 @@ class GraphSet(object):
           TypeError: If at least one cost is not integer.
 
         """
-        inv_costs = {e: -cost for e, cost in costs.items()}
+        inv_costs = {GraphSet._conv_edge(e): -cost for e, cost in costs.items()}
         return GraphSet(self._ss.cost_le(objtable=Universe.e_objtable, costs=inv_costs, cost_bound=-cost_bound))
 
     def cost_eq(self, costs, cost_bound):
@@ -1606,6 +1607,7 @@ class GraphSet(object):
           TypeError: If at least one cost is not integer.
 
         """
+        costs = {GraphSet._conv_edge(e): c for e, c in costs.items()}
         le_ss = self._ss.cost_le(objtable=Universe.e_objtable, costs=costs, cost_bound=cost_bound)
         lt_ss = self._ss.cost_le(objtable=Universe.e_objtable, costs=costs, cost_bound=cost_bound - 1)
         return GraphSet(le_ss.difference(lt_ss))
-- 
2.43.0


From 879a85b8f70459a88064380887989eadf8f2c24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:03 +0000
Subject: [PATCH 11/30] fix: weights of edges given in the other direction
 count in min_iter and max_iter

---
 graphillion/edgevertex_setset.py | 11 +++++++++--
 graphillion/graphset.py          | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/graphillion/edgevertex_setset.py b/graphillion/edgevertex_setset.py
index a56a461..794fbe5 100644
--- a/graphillion/edgevertex_setset.py
+++ b/graphillion/edgevertex_setset.py
@@ -628,7 +628,7 @@ class EdgeVertexSetSet(object):
         """
         if weights is None:
             weights = Universe.weights
-        for g in self._ss.min_iter(Universe.ev_objtable, weights):
+        for g in self._ss.min_iter(Universe.ev_objtable, EdgeVertexSetSet._conv_weights(weights)):
             try:
                 yield EdgeVertexSetSet._conv_ret(g)
             except StopIteration:
@@ -669,7 +669,7 @@ class EdgeVertexSetSet(object):
         """
         if weights is None:
             weights = Universe.weights
-        for g in self._ss.max_iter(Universe.ev_objtable, weights):
+        for g in self._ss.max_iter(Universe.ev_objtable, EdgeVertexSetSet._conv_weights(weights)):
             try:
                 yield EdgeVertexSetSet._conv_ret(g)
             except StopIteration:
@@ -1576,6 +1576,13 @@ class EdgeVertexSetSet(object):
             return (edge_or_vertex[1], edge_or_vertex[0])
         raise KeyError(edge_or_vertex)
 
+    @staticmethod
+    def _conv_weights(weights):
+        table = Universe.ev_objtable.obj2int
+        return {e if e in table or not isinstance(e, tuple) or len(e) < 2
+                or (e[1], e[0]) not in table else (e[1], e[0]): w
+                for e, w in weights.items()}
+
     @staticmethod
     def _conv_ret(obj):
         if isinstance(obj, (set, frozenset)):  # a graph
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 828a507..aa6705a 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -725,7 +725,7 @@ class GraphSet(object):
         """
         if weights is None:
             weights = Universe.weights
-        for g in self._ss.min_iter(Universe.e_objtable, weights):
+        for g in self._ss.min_iter(Universe.e_objtable, GraphSet._conv_weights(weights)):
             try:
                 yield GraphSet._conv_ret(g)
             except StopIteration:
@@ -765,7 +765,7 @@ class GraphSet(object):
         """
         if weights is None:
             weights = Universe.weights
-        for g in self._ss.max_iter(Universe.e_objtable, weights):
+        for g in self._ss.max_iter(Universe.e_objtable, GraphSet._conv_weights(weights)):
             try:
                 yield GraphSet._conv_ret(g)
             except StopIteration:
@@ -2976,6 +2976,13 @@ class GraphSet(object):
             return (edge[1], edge[0])
         raise KeyError(edge)
 
+    @staticmethod
+    def _conv_weights(weights):
+        table = Universe.e_objtable.obj2int
+        return {e if e in table or not isinstance(e, tuple) or len(e) < 2
+                or (e[1], e[0]) not in table else (e[1], e[0]): w
+                for e, w in weights.items()}
+
     @staticmethod
     def _conv_ret(obj):
         if isinstance(obj, (set, frozenset)):  # a graph
-- 
2.43.0


From fcb0c6d2216b32f8830460df7d9c4e1700c16d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:48 +0000
Subject: [PATCH 12/30] fix: remove(vertex) stopped half way at the first edge
 that no graph has

---
 graphillion/digraphset.py | 5 ++++-
 graphillion/graphset.py   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 73a2c92..14b01ed 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -870,7 +870,10 @@ class DiGraphSet(object):
         if type == 'graph' or type == 'edge':
             self._ss.remove(DiGraphSet._objtable, obj)
         elif type == 'vertex':
-            for edge in obj:
+            edges = [edge for edge in obj if edge in self]
+            if not edges:
+                raise KeyError(obj)
+            for edge in edges:
                 self.remove(edge)
         else:
             raise TypeError(obj)
diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index aa6705a..e6a72cf 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -881,7 +881,10 @@ class GraphSet(object):
         if type == 'graph' or type == 'edge':
             self._ss.remove(Universe.e_objtable, obj)
         elif type == 'vertex':
-            for edge in obj:
+            edges = [edge for edge in obj if edge in self]
+            if not edges:
+                raise KeyError(obj)
+            for edge in edges:
                 self.remove(edge)
         else:
             raise TypeError(obj)
-- 
2.43.0


From e31db9e046c7b000c8bd8229b156a8413b9ead8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:06 +0000
Subject: [PATCH 13/30] fix: degree_distribution_graphs with a graphset read
 the wrong object

---
 graphillion/graphset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index e6a72cf..6aa2d4e 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2672,7 +2672,8 @@ class GraphSet(object):
             graph.append(
                 (pickle.dumps(e[0], protocol=0), pickle.dumps(e[1], protocol=0)))
 
-        ss = _graphillion._degree_distribution_graphs(graph, deg_dist, is_connected, graphset)
+        ss = None if graphset is None else graphset._ss
+        ss = _graphillion._degree_distribution_graphs(graph, deg_dist, is_connected, ss)
         return GraphSet(ss)
 
     @staticmethod
-- 
2.43.0


From d547eb59e8b24ab775779cc8697d059cdfe519e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:06 +0000
Subject: [PATCH 14/30] fix: steiner_paths took its graphset for a terminal

---
 graphillion/graphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 6aa2d4e..62d3d37 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2634,7 +2634,7 @@ class GraphSet(object):
         Returns:
           A new GraphSet object.
         """
-        gs = GraphSet.paths(graphset)
+        gs = GraphSet.paths(graphset=graphset)
         return GraphSet.graphs(vertex_groups=[terminals], graphset=gs)
 
     DegreeDistribution_Any = -1
-- 
2.43.0


From 9cc0231e63d9e1f727b5a729230a002e55cc2265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:06 +0000
Subject: [PATCH 15/30] fix: bicliques with different sizes raises the
 TypeError it builds

---
 graphillion/graphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 62d3d37..4621d43 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2074,7 +2074,7 @@ class GraphSet(object):
           graphs()
         """
         if a != b:
-            TypeError('a == b must hold.')
+            raise TypeError('a == b must hold.')
         gs = GraphSet.regular_bipartite_graphs(degree=a,
                                                 is_connected=True,
                                                 graphset=graphset)
-- 
2.43.0


From 3ff9f314f4d2448e4fcca0741ea7b82dfa95be08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:20 +0000
Subject: [PATCH 16/30] fix: bipartite_graphs added the empty graph to a
 graphset that does not have it

---
 graphillion/graphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 4621d43..0a16aeb 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2520,7 +2520,7 @@ class GraphSet(object):
 
         if is_connected:
             # The empty set is a bipartite graph.
-            return gs.graphs(vertex_groups=[[]]) | GraphSet([[]])
+            return gs.graphs(vertex_groups=[[]]) | (gs & GraphSet([[]]))
         else:
             return gs
 
-- 
2.43.0


From d8e1743ca00f329372258b6bfd6d8fc6e0d437b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:54 +0000
Subject: [PATCH 17/30] fix: induced_graphs missed subgraphs whose last two
 vertices leave together

---
 src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h b/src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h
index bf80b37..a47fb94 100644
--- a/src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h
+++ b/src/graphillion/induced_graphs/ConnectedInducedSubgraphSpec.h
@@ -141,7 +141,7 @@ class ConnectedInducedSubgraphSpec
   std::vector<Vec2> neighborList;
 
   int takable(Mate const* mate, tdzdd::Graph::EdgeInfo const& e) const {
-    Mate const &w1 = mate[e.v1 - e.v0], w2 = mate[e.v2 - e.v0];
+    Mate const &w1 = mate[e.v1 - e.v0], &w2 = mate[e.v2 - e.v0];
 
     if (!w1.isComponent() && w1.isMarked()) {
       return 0;
-- 
2.43.0


From 206f3dc50589839f9bf3bf53f85a3658cb4d9eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:54 +0000
Subject: [PATCH 18/30] fix: to_edgevertexsetset gave wrong edges unless the
 traversal is as-is

---
 graphillion/universe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/universe.py b/graphillion/universe.py
index 395d473..05403de 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -241,7 +241,7 @@ class Universe:
         vertex_universe = [eval(v) for v in setset_base.get_vertices_from_top(Universe.e_objtable)]
         Universe.set_vertex_universe(vertex_universe, weights, tuple_vertex=True)
 
-        Universe._set_ev_universe(universe)
+        Universe._set_ev_universe(sorted_edges)
 
         if isolated is None:
             Universe.isolated_vertices = set()
-- 
2.43.0


From 4bf79e14a6461b4e8da02336ecc1504f63aae3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:54 +0000
Subject: [PATCH 19/30] fix: reliability accepts edges given in the other
 direction

---
 graphillion/graphset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphset.py b/graphillion/graphset.py
index 0a16aeb..0f7bc56 100644
--- a/graphillion/graphset.py
+++ b/graphillion/graphset.py
@@ -2888,7 +2888,7 @@ class GraphSet(object):
         ps = [1.0] * (Universe.e_objtable.num_elems())
         if probabilities is not None:
           for e, p in probabilities.items():
-              i = Universe.e_objtable.obj2int[e]
+              i = Universe.e_objtable.obj2int[GraphSet._conv_edge(e)]
               ps[i - 1] = p
 
         reliability = _graphillion._reliability(
-- 
2.43.0


From 88326da4bfbd92e5a7e35d6a961f46733384b933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:54 +0000
Subject: [PATCH 20/30] fix: chordal_bipartite_graphs left out disconnected
 graphs

---
 graphillion/graphclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphclass.py b/graphillion/graphclass.py
index fe1051d..1a4ea31 100644
--- a/graphillion/graphclass.py
+++ b/graphillion/graphclass.py
@@ -286,7 +286,7 @@ class GraphClass:
         cycles = GraphSet.cycles()
         cycles_length_at_least_6 = cycles.larger(5) # >= 6
         chordal = GraphSet.forbidden_induced_subgraphs(cycles_length_at_least_6)
-        return chordal & GraphSet.bipartite_graphs()
+        return chordal & GraphSet.bipartite_graphs(is_connected=False)
 
     @staticmethod
     def split_graphs():
-- 
2.43.0


From c9bd6e2335f6aab6529cd2d04c298dd656db3263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:54 +0000
Subject: [PATCH 21/30] fix: odd_hole_graphs raised IndexError with fewer than
 five vertices

---
 graphillion/graphclass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphillion/graphclass.py b/graphillion/graphclass.py
index 1a4ea31..f4799fc 100644
--- a/graphillion/graphclass.py
+++ b/graphillion/graphclass.py
@@ -203,7 +203,7 @@ class GraphClass:
         for v in Universe.vertices:
             dc[v] = range(0, 3, 2)
         return GraphSet.graphs(vertex_groups=[[]], degree_constraints=dc,
-                               num_edges=range(5, n + 1, 2))
+                               num_edges=range(5, max(n, 5) + 1, 2))
 
     @staticmethod
     def odd_hole_free_graphs():
-- 
2.43.0


From c7eb7a4d4c8fb2394a6a80f8195340ace7ba30ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:15 +0000
Subject: [PATCH 22/30] fix: degree constraints of directed graphs with gaps or
 a lower bound above one lost graphs

---
 src/graphillion/digraphs/FrontierDegreeSpecified.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graphillion/digraphs/FrontierDegreeSpecified.hpp b/src/graphillion/digraphs/FrontierDegreeSpecified.hpp
index f6a84da..e462ce1 100644
--- a/src/graphillion/digraphs/FrontierDegreeSpecified.hpp
+++ b/src/graphillion/digraphs/FrontierDegreeSpecified.hpp
@@ -138,13 +138,13 @@ class FrontierDegreeSpecifiedSpec
       // increment deg of v1 and v2 (recall that edge = {v1, v2})
       auto outdeg1 = getOutdeg(data, edge.v1);
       assert(1 <= edge.v1 && edge.v1 < (int)out_constraints.size());
-      if (!out_constraints.at(edge.v1).contains(outdeg1 + 1)) {
+      if (outdeg1 + 1 > out_constraints.at(edge.v1).upperBound()) {
         return 0;
       }
 
       auto indeg2 = getIndeg(data, edge.v2);
       assert(1 <= edge.v2 && edge.v2 < (int)in_constraints.size());
-      if (!in_constraints.at(edge.v2).contains(indeg2 + 1)) {
+      if (indeg2 + 1 > in_constraints.at(edge.v2).upperBound()) {
         return 0;
       }
       setIndeg(data, edge.v2, indeg2 + 1);
-- 
2.43.0


From 447bdfbef2bc1dfb858a1c425e4ea6eee0c69fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:15 +0000
Subject: [PATCH 23/30] fix: spanning rooted trees must cover vertices that are
 processed later

---
 src/graphillion/digraphs/FrontierRootedTree.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/graphillion/digraphs/FrontierRootedTree.hpp b/src/graphillion/digraphs/FrontierRootedTree.hpp
index 6f7967e..aee1ece 100644
--- a/src/graphillion/digraphs/FrontierRootedTree.hpp
+++ b/src/graphillion/digraphs/FrontierRootedTree.hpp
@@ -260,7 +260,9 @@ class FrontierRootedTreeSpec
           // Then, we return the 1-terminal
 
           if (isSpanning_) {
-            if (frontier_exists) {
+            if (frontier_exists ||
+                level > m_ - fm_.getAllVerticesEnteringLevel()) {
+              // Some vertices are not in the tree.
               return 0;
             } else {
               return -1;  // return the 1-terminal
-- 
2.43.0


From 399e92214d9bd92fae133c78b5a40d18de4f6dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 24/30] fix: choose_random descended into an empty branch when
 the random number was exactly 0

---
 src/graphillion/zdd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graphillion/zdd.cc b/src/graphillion/zdd.cc
index 8c6f61e..f409246 100644
--- a/src/graphillion/zdd.cc
+++ b/src/graphillion/zdd.cc
@@ -302,7 +302,7 @@ zdd_t choose_random(zdd_t f, vector<elem_t>* stack) {
   }
   double ch = algo_c(hi(f));
   double cl = algo_c(lo(f));
-  if (rand_xor128() > cl / (ch + cl)) {
+  if (rand_xor128() >= cl / (ch + cl)) {
     stack->push_back(elem(f));
     return choose_random(hi(f), stack);
   } else {
-- 
2.43.0


From fcf1b59e93e02bbe95c2c468caa64e755ac544a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:26 +0000
Subject: [PATCH 25/30] fix: a rejected set_universe left the previous universe
 half replaced

---
 graphillion/digraphset.py | 18 +++++++++------
 graphillion/universe.py   | 46 ++++++++++++++++++++++-----------------
 2 files changed, 37 insertions(+), 27 deletions(-)

diff --git a/graphillion/digraphset.py b/graphillion/digraphset.py
index 14b01ed..36ecfc6 100644
--- a/graphillion/digraphset.py
+++ b/graphillion/digraphset.py
@@ -1762,8 +1762,8 @@ class DiGraphSet(object):
         """
         sorted_edges = []
         indexed_edges = set()
-        DiGraphSet._vertices = set()
-        DiGraphSet._weights = {}
+        vertices = set()
+        weights = {}
         universe = DiGraphSet.converters['to_edges'](universe)
         for e in universe:
             if e[:2] in indexed_edges:  # directed
@@ -1771,7 +1771,7 @@ class DiGraphSet(object):
             sorted_edges.append(e[:2])
             indexed_edges.add(e[:2])
             if len(e) > 2:
-                DiGraphSet._weights[e[:2]] = e[2]
+                weights[e[:2]] = e[2]
         if traversal != 'as-is':
             if source is None:
                 source = sorted_edges[0][0]
@@ -1780,12 +1780,16 @@ class DiGraphSet(object):
             sorted_edges = DiGraphSet._traverse(
                 indexed_edges, traversal, source)
         for u, v in sorted_edges:
-            DiGraphSet._vertices.add(u)
-            DiGraphSet._vertices.add(v)
+            vertices.add(u)
+            vertices.add(v)
         #setset_base.set_universe(sorted_edges)
-        DiGraphSet._objtable = ObjectTable()
+        objtable = ObjectTable()
         for e in sorted_edges:
-            DiGraphSet._objtable.add_elem(e)
+            objtable.add_elem(e)
+        # replace the current universe only after the new one is accepted
+        DiGraphSet._vertices = vertices
+        DiGraphSet._weights = weights
+        DiGraphSet._objtable = objtable
 
     @staticmethod
     def universe():
diff --git a/graphillion/universe.py b/graphillion/universe.py
index 05403de..5b42dda 100644
--- a/graphillion/universe.py
+++ b/graphillion/universe.py
@@ -209,8 +209,7 @@ class Universe:
             raise ValueError("The universe must not be empty.")
         sorted_edges = []
         indexed_edges = set()
-        Universe.vertices = set()
-        Universe.weights = {}
+        edge_weights = {}
         from graphillion import GraphSet  # avoid circular import
         universe = GraphSet.converters['to_edges'](universe)
         for e in universe:
@@ -219,9 +218,9 @@ class Universe:
             sorted_edges.append(e[:2])
             indexed_edges.add(e[:2])
             if len(e) > 2:
-                Universe.weights[e[:2]] = e[2]
+                edge_weights[e[:2]] = e[2]
             elif weights is not None and e in weights:
-                Universe.weights[e] = weights[e]
+                edge_weights[e] = weights[e]
 
         if traversal != 'as-is':
             if source is None:
@@ -229,16 +228,21 @@ class Universe:
                 for e in sorted_edges:
                     source = min(e[0], e[1], source)
             sorted_edges = Universe._traverse(indexed_edges, traversal, source)
-        for u, v in sorted_edges:
-            Universe.vertices.add(u)
-            Universe.vertices.add(v)
-        #setset.set_universe(sorted_edges)
-        Universe.e_objtable = ObjectTable()
+        e_objtable = ObjectTable()
         for e in sorted_edges:
-            Universe.e_objtable.add_elem(e)
+            e_objtable.add_elem(e)
 
         from graphillion.setset_base import setset_base
-        vertex_universe = [eval(v) for v in setset_base.get_vertices_from_top(Universe.e_objtable)]
+        vertex_universe = [eval(v) for v in setset_base.get_vertices_from_top(e_objtable)]
+
+        # replace the current universe only after the new one is accepted
+        #setset.set_universe(sorted_edges)
+        Universe.e_objtable = e_objtable
+        Universe.vertices = set()
+        for u, v in sorted_edges:
+            Universe.vertices.add(u)
+            Universe.vertices.add(v)
+        Universe.weights = edge_weights
         Universe.set_vertex_universe(vertex_universe, weights, tuple_vertex=True)
 
         Universe._set_ev_universe(sorted_edges)
@@ -290,29 +294,31 @@ class Universe:
         if vertex_num != len(set(universe)):
             raise ValueError("duplicated elements found")
 
-        Universe.v_objtable = ObjectTable()
-        if not Universe.weights:
-            Universe.weights = {}
+        v_objtable = ObjectTable()
+        new_weights = {}
 
         for i, vertex in enumerate(universe):
             if not tuple_vertex and isinstance(vertex, tuple):
                 if len(vertex) == 2:
                     vertex, weight = vertex
-                    Universe.weights[vertex] = weight
+                    new_weights[vertex] = weight
                 elif len(vertex) == 1:
                     vertex = vertex[0]
                     if weights is not None and vertex in weights:
-                        Universe.weights[vertex] = weights[vertex]
+                        new_weights[vertex] = weights[vertex]
                     else:
-                        Universe.weights[vertex] = 1
+                        new_weights[vertex] = 1
                 else:
                     raise TypeError(vertex)
             else:
                 if weights is not None and vertex in weights:
-                    Universe.weights[vertex] = weights[vertex]
+                    new_weights[vertex] = weights[vertex]
                 else:
-                    Universe.weights[vertex] = 1
-            Universe.v_objtable.add_elem(vertex)
+                    new_weights[vertex] = 1
+            v_objtable.add_elem(vertex)
+
+        Universe.v_objtable = v_objtable
+        Universe.weights.update(new_weights)
 
     @staticmethod
     def _set_ev_universe(universe):
-- 
2.43.0


From cf4f6ab79fb3e717c0fc55ebcbd47ea802de8420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:00 +0000
Subject: [PATCH 26/30] fix: regular_graphs with frontiers of more than 255
 vertices

RegularSpec stored component numbers and degrees in unsigned char, so that
components in a larger frontier were taken for one another.
---
 src/graphillion/regular/RegularGraphs.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/graphillion/regular/RegularGraphs.cc b/src/graphillion/regular/RegularGraphs.cc
index 42eb906..1891b9d 100644
--- a/src/graphillion/regular/RegularGraphs.cc
+++ b/src/graphillion/regular/RegularGraphs.cc
@@ -11,10 +11,9 @@
 #include <vector>
 #include <climits>
 
-typedef unsigned char uchar;
-typedef unsigned char RData;
+typedef unsigned short RData;
 
-const int RData_MAX = UCHAR_MAX;
+const int RData_MAX = USHRT_MAX;
 
 class RegularSpec
   : public tdzdd::PodArrayDdSpec<RegularSpec, RData, 2> {
@@ -46,7 +45,7 @@ private:
   void setDeg(RData* data, int v, int d) const {
     data[is_connected_ ?
       (fm_.vertexToPos(v) * 2) :
-      fm_.vertexToPos(v)] = static_cast<uchar>(d);
+      fm_.vertexToPos(v)] = static_cast<RData>(d);
   }
 
   // This function gets comp of v.
@@ -59,12 +58,12 @@ private:
   void setComp(RData* data, int v, int c) const {
     assert(is_connected_);
     data[fm_.vertexToPos(v) * 2 + 1] =
-      static_cast<uchar>(fm_.vertexToPos(c));
+      static_cast<RData>(fm_.vertexToPos(c));
   }
 
   void clearComp(RData* data, int v) const {
     assert(is_connected_);
-    data[fm_.vertexToPos(v) * 2 + 1] = static_cast<uchar>(-1);
+    data[fm_.vertexToPos(v) * 2 + 1] = static_cast<RData>(-1);
   }
 
   int getFixedDeg(RData* data) const {
-- 
2.43.0


From ae507491c62a00e090e5307797a84214a6c74632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:00 +0000
Subject: [PATCH 27/30] fix: degree_distribution_graphs with more than 255
 vertices of a degree

DegreeDistributionSpec counted the vertices of each degree, degrees and
component positions in unsigned char; larger numbers wrapped around.
---
 .../degree_distribution/DegreeDistributionSpec.h      | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/graphillion/degree_distribution/DegreeDistributionSpec.h b/src/graphillion/degree_distribution/DegreeDistributionSpec.h
index 019725a..63af3c1 100644
--- a/src/graphillion/degree_distribution/DegreeDistributionSpec.h
+++ b/src/graphillion/degree_distribution/DegreeDistributionSpec.h
@@ -8,10 +8,9 @@
 #include "graphillion/forbidden_induced/FrontierManager.h"
 #include "subsetting/util/IntSubset.hpp"
 
-typedef unsigned char uchar;
-typedef unsigned char DSData;
+typedef unsigned short DSData;
 
-const int DSData_MAX = UCHAR_MAX;
+const int DSData_MAX = USHRT_MAX;
 
 class DegreeDistributionSpec
   : public tdzdd::PodArrayDdSpec<DegreeDistributionSpec, DSData, 2> {
@@ -43,7 +42,7 @@ private:
   void setDeg(DSData* data, int v, int d) const {
     data[is_connected_ ?
       (fm_.vertexToPos(v) * 2) :
-      fm_.vertexToPos(v)] = static_cast<uchar>(d);
+      fm_.vertexToPos(v)] = static_cast<DSData>(d);
   }
 
   // This function gets comp of v.
@@ -56,13 +55,13 @@ private:
   void setComp(DSData* data, int v, int c) const {
     assert(is_connected_);
     data[fm_.vertexToPos(v) * 2 + 1] =
-      static_cast<uchar>(fm_.vertexToPos(c));
+      static_cast<DSData>(fm_.vertexToPos(c));
   }
 
   void clearComp(DSData* data, int v) const {
     assert(is_connected_);
     data[fm_.vertexToPos(v) * 2 + 1] =
-      static_cast<uchar>(-1);
+      static_cast<DSData>(-1);
   }
 
   void incrementFixedDeg(DSData* data, int d) const {
-- 
2.43.0


From 5e5dc489564e20eac4f6573a5db0eb887f9d24a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 28/30] fix: partitions and induced graphs with vertex weights
 above 2^31

---
 .../ComponentWeightInducedSpec.h              |  8 +++----
 .../partition/BalancedPartition.cc            | 10 ++++----
 .../partition/ComponentRatioSpec.h            | 24 +++++++++----------
 .../partition/ComponentWeightSpec.h           | 16 ++++++-------
 4 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/graphillion/induced_graphs/ComponentWeightInducedSpec.h b/src/graphillion/induced_graphs/ComponentWeightInducedSpec.h
index 74a2eb0..2ad2884 100644
--- a/src/graphillion/induced_graphs/ComponentWeightInducedSpec.h
+++ b/src/graphillion/induced_graphs/ComponentWeightInducedSpec.h
@@ -6,7 +6,7 @@
 
 class ComponentWeightInducedSpecMate {
  public:
-  using offset = int32_t;
+  using offset = int64_t;
 
   ComponentWeightInducedSpecMate(offset _offset_or_weight = 0)
       : offset_or_weight(_offset_or_weight),
@@ -53,7 +53,7 @@ class ComponentWeightInducedSpecMate {
     return *(this + (next_conn & next_mask));
   }
 
-  int get_weight() const {
+  offset get_weight() const {
     assert(head().offset_or_weight >= 0);
     return head().offset_or_weight;
   }
@@ -138,8 +138,8 @@ class ComponentWeightInducedSpec
   tdzdd::Graph const& graph;
   int const m;
   int const n;
-  int const lower;
-  int const upper;
+  int64_t const lower;
+  int64_t const upper;
   int const mateSize;
   std::vector<ComponentWeightInducedSpecMate> initialMate;
 
diff --git a/src/graphillion/partition/BalancedPartition.cc b/src/graphillion/partition/BalancedPartition.cc
index c4cb5fb..fe11599 100644
--- a/src/graphillion/partition/BalancedPartition.cc
+++ b/src/graphillion/partition/BalancedPartition.cc
@@ -26,18 +26,18 @@ tdzdd::DdStructure<2> constructRatioDd(const tdzdd::Graph &g,
   auto dd = (k == -1 ? constructPartitionDd(g) : constructPartitionDd(g, k, k));
 
   auto sum =
-      std::accumulate(weight_list.begin(), weight_list.end(), weight_t{0});
-  weight_t initial_lower = 0;
+      std::accumulate(weight_list.begin(), weight_list.end(), uint64_t{0});
+  uint64_t initial_lower = 0;
   if (k != -1) {
     initial_lower = std::max(
-        initial_lower, static_cast<weight_t>(floor(static_cast<double>(sum) /
+        initial_lower, static_cast<uint64_t>(floor(static_cast<double>(sum) /
                                                    (ratio * (k - 1) + 1))));
   }
-  weight_t initial_upper = sum;
+  uint64_t initial_upper = sum;
   if (k != -1) {
     initial_upper =
         std::min(initial_upper,
-                 static_cast<weight_t>(ceil(ratio * static_cast<double>(sum) /
+                 static_cast<uint64_t>(ceil(ratio * static_cast<double>(sum) /
                                             (ratio + (k - 1)))));
   }
 
diff --git a/src/graphillion/partition/ComponentRatioSpec.h b/src/graphillion/partition/ComponentRatioSpec.h
index 31c63fe..73c0c39 100644
--- a/src/graphillion/partition/ComponentRatioSpec.h
+++ b/src/graphillion/partition/ComponentRatioSpec.h
@@ -4,12 +4,12 @@
 #include "subsetting/util/Graph.hpp"
 
 struct ComponentRatioSpecCount {
-  int32_t lower;
-  int32_t upper;
+  int64_t lower;
+  int64_t upper;
 
-  ComponentRatioSpecCount() : lower(INT_MAX), upper(0) {}
+  ComponentRatioSpecCount() : lower(LLONG_MAX), upper(0) {}
 
-  size_t hash() const { return lower + upper * 31415926535; }
+  size_t hash() const { return static_cast<size_t>(lower) + static_cast<size_t>(upper) * 31415926535; }
 
   bool operator==(ComponentRatioSpecCount const& o) const {
     return lower == o.lower && upper == o.upper;
@@ -23,8 +23,8 @@ struct ComponentRatioSpecCount {
 
 class ComponentRatioSpecMate {
  public:
-  typedef int32_t Offset;
-  typedef uint32_t uOffset;
+  typedef int64_t Offset;
+  typedef uint64_t uOffset;
 
  private:
   Offset hoc;  ///< offset to head or vertex-weight.
@@ -58,7 +58,7 @@ class ComponentRatioSpecMate {
 
   ComponentRatioSpecMate const& next() const { return *(this + nxt); }
 
-  int getWeight() const {
+  Offset getWeight() const {
     assert(head().hoc >= 0);
     return head().hoc;
   }
@@ -69,7 +69,7 @@ class ComponentRatioSpecMate {
     ost << "(" << hoc << "," << nxt << ")";
   }
 
-  void print(FILE* fp) const { fprintf(fp, "(%d,%d)", hoc, nxt); }
+  void print(FILE* fp) const { fprintf(fp, "(%lld,%lld)", (long long)hoc, (long long)nxt); }
 
   void mergeLists(ComponentRatioSpecMate& o1, ComponentRatioSpecMate& o2,
                   ComponentRatioSpecMate* mate) {
@@ -149,14 +149,14 @@ class ComponentRatioSpec
   tdzdd::Graph const& graph;
   int const m;
   int const n;
-  int const lower;
-  int const upper;
+  int64_t const lower;
+  int64_t const upper;
   double const ratio;
   int const mateSize;
   std::vector<Mate> initialMate;
   bool const lookahead;
 
-  bool updateRatio(Count& count, int weight) const {
+  bool updateRatio(Count& count, int64_t weight) const {
     if (weight < lower) {
       return false;
     } else {
@@ -302,7 +302,7 @@ class ComponentRatioSpec
     for (int i = 0; i < mateSize; ++i) {
       mate[i] = initialMate[v0 + i];
     }
-    assert(count.lower == INT_MAX);
+    assert(count.lower == LLONG_MAX);
     assert(count.upper == 0);
 
     return n;
diff --git a/src/graphillion/partition/ComponentWeightSpec.h b/src/graphillion/partition/ComponentWeightSpec.h
index e13f4a7..7f023d5 100644
--- a/src/graphillion/partition/ComponentWeightSpec.h
+++ b/src/graphillion/partition/ComponentWeightSpec.h
@@ -5,8 +5,8 @@
 
 class ComponentWeightSpecMate {
  public:
-  typedef int32_t Offset;
-  typedef uint32_t uOffset;
+  typedef int64_t Offset;
+  typedef uint64_t uOffset;
 
  private:
   Offset hoc;  ///< offset to head or vertex-weight.
@@ -40,7 +40,7 @@ class ComponentWeightSpecMate {
 
   ComponentWeightSpecMate const& next() const { return *(this + nxt); }
 
-  int getWeight() const {
+  Offset getWeight() const {
     assert(head().hoc >= 0);
     return head().hoc;
   }
@@ -51,7 +51,7 @@ class ComponentWeightSpecMate {
     ost << "(" << hoc << "," << nxt << ")";
   }
 
-  void print(FILE* fp) const { fprintf(fp, "(%d,%d)", hoc, nxt); }
+  void print(FILE* fp) const { fprintf(fp, "(%lld,%lld)", (long long)hoc, (long long)nxt); }
 
   void mergeLists(ComponentWeightSpecMate& o1, ComponentWeightSpecMate& o2,
                   ComponentWeightSpecMate* mate) {
@@ -130,8 +130,8 @@ class ComponentWeightSpec
   tdzdd::Graph const& graph;
   int const m;
   int const n;
-  int const lower;
-  int const upper;
+  int64_t const lower;
+  int64_t const upper;
   int const mateSize;
   std::vector<Mate> initialMate;
   bool const lookahead;
@@ -230,8 +230,8 @@ class ComponentWeightSpec
   // weight_list: [weight of vertex 1, weight of vertex 2,..., weight of vertex
   // m]
   ComponentWeightSpec(tdzdd::Graph const& graph,
-                      const std::vector<uint32_t>& weight_list, uint32_t lower,
-                      uint32_t upper, bool /*noLoop*/ = false,
+                      const std::vector<uint32_t>& weight_list, int64_t lower,
+                      int64_t upper, bool /*noLoop*/ = false,
                       bool lookahead = true)
       : graph(graph),
         m(graph.vertexSize()),
-- 
2.43.0


From d51ded1461549a0cdf1f17d0c60dd496f03e4ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 29/30] fix: weight bounds above 2^32 were silently reduced

---
 src/pygraphillion.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index 65b65c9..a256c84 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -2226,9 +2226,9 @@ static PyObject* balanced_partitions(PyObject*, PyObject* args, PyObject* kwds)
   PyObject* graph_obj = NULL;
   PyObject* weight_list_obj = NULL;
   double ratio = 0;
-  uint32_t lower = 0, upper = std::numeric_limits<weight_t>::max() / 4;
+  long long lower = 0, upper = std::numeric_limits<weight_t>::max() / 4;
   int num_comps = -1;
-  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OdIIi", kwlist, &graph_obj,
+  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OdLLi", kwlist, &graph_obj,
                                    &weight_list_obj, &ratio, &lower, &upper,
                                    &num_comps)) {
     return NULL;
@@ -2241,6 +2241,10 @@ static PyObject* balanced_partitions(PyObject*, PyObject* args, PyObject* kwds)
     PyErr_SetString(PyExc_ValueError, "lower bound is larger than upper bound");
     return NULL;
   }
+  if (lower < 0 || std::numeric_limits<uint32_t>::max() < upper) {
+    PyErr_SetString(PyExc_ValueError, "weight bound is out of valid range");
+    return NULL;
+  }
   if (ratio != 0 && ratio < 1.0) {
     PyErr_SetString(PyExc_ValueError, "ratio is less than 1.0");
     return NULL;
@@ -2327,8 +2331,8 @@ static PyObject* weighted_induced_graphs(PyObject*, PyObject* args,
 
   PyObject* graph_obj = NULL;
   PyObject* weight_list_obj = NULL;
-  uint32_t lower = 0, upper = std::numeric_limits<uint32_t>::max() / 2;
-  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OII", kwlist, &graph_obj,
+  long long lower = 0, upper = std::numeric_limits<uint32_t>::max() / 2;
+  if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|OLL", kwlist, &graph_obj,
                                    &weight_list_obj, &lower, &upper)) {
     return NULL;
   }
@@ -2336,6 +2340,10 @@ static PyObject* weighted_induced_graphs(PyObject*, PyObject* args,
     PyErr_SetString(PyExc_TypeError, "lower bound is larger than upper bound");
     return NULL;
   }
+  if (lower < 0 || std::numeric_limits<uint32_t>::max() < upper) {
+    PyErr_SetString(PyExc_ValueError, "weight bound is out of valid range");
+    return NULL;
+  }
 
   vector<pair<string, string> > graph;
   if (!translate_graph(graph_obj, graph)) {
-- 
2.43.0


From bce115ea3fc9082a508635feef9c34da6a6d20f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:31 +0000
Subject: [PATCH 30/30] fix: sizes, degrees and edge numbers above 2^31 were
 reduced modulo 2^32

---
 src/pygraphillion.cc | 48 ++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/pygraphillion.cc b/src/pygraphillion.cc
index a256c84..186b771 100644
--- a/src/pygraphillion.cc
+++ b/src/pygraphillion.cc
@@ -191,6 +191,20 @@ static PyObject* setset_build_set(const set<int>& s) {
   return so;
 }
 
+// Converts a Python integer to int.  An integer that does not fit becomes the
+// nearest int, which no size and no degree reaches either.
+static int long_as_int(PyObject* obj) {
+  int overflow = 0;
+  long value = PyLong_AsLongAndOverflow(obj, &overflow);
+  if (overflow > 0 || value > INT_MAX) return INT_MAX;
+  if (overflow < 0 || value < INT_MIN) return INT_MIN;
+  return static_cast<int>(value);
+}
+
+static Range make_range(const vector<int>& r) {
+  return Range(std::min(r[0], INT_MAX - 1), r[1], r[2]);
+}
+
 static int setset_parse_set(PyObject* so, set<int>* s) {
   assert(s != NULL);
   PyObject* i = PyObject_GetIter(so);
@@ -620,7 +634,7 @@ static PyObject* setset_len2(PySetsetObject* self, PyObject* args) {
     }
     return result;
   } else if (PyLong_Check(obj)) {
-    int len = PyLong_AsLong(obj);
+    int len = long_as_int(obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -930,7 +944,7 @@ static PyObject* setset_hitting(PySetsetObject* self, PyObject* io) {
 
 static PyObject* setset_smaller(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int set_size = PyLong_AsLong(io);
+  int set_size = long_as_int(io);
   if (PyErr_Occurred()) {
     return NULL;
   }
@@ -943,7 +957,7 @@ static PyObject* setset_smaller(PySetsetObject* self, PyObject* io) {
 
 static PyObject* setset_larger(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int set_size = PyLong_AsLong(io);
+  int set_size = long_as_int(io);
   if (PyErr_Occurred()) {
     return NULL;
   }
@@ -956,7 +970,7 @@ static PyObject* setset_larger(PySetsetObject* self, PyObject* io) {
 
 static PyObject* setset_set_size(PySetsetObject* self, PyObject* io) {
   CHECK_OR_ERROR(io, PyLong_Check, "int", NULL);
-  int set_size = PyLong_AsLong(io);
+  int set_size = long_as_int(io);
   if (PyErr_Occurred()) {
     return NULL;
   }
@@ -1821,7 +1835,7 @@ static PyObject* graphset_graphs(PyObject*, PyObject* args, PyObject* kwds) {
           PyErr_SetString(PyExc_TypeError, "invalid degree in degree constraints");
           return NULL;
         }
-        long value = PyLong_AsLong(io);
+        int value = long_as_int(io);
         Py_DECREF(io);
         if (PyErr_Occurred()) {
           Py_DECREF(i);
@@ -1838,7 +1852,7 @@ static PyObject* graphset_graphs(PyObject*, PyObject* args, PyObject* kwds) {
         PyErr_SetString(PyExc_ValueError, "degree constraints must have at least 3 values");
         return NULL;
       }
-      (*degree_constraints)[vertex] = Range(r[0], r[1], r[2]);
+      (*degree_constraints)[vertex] = make_range(r);
     }
   }
 
@@ -1857,7 +1871,7 @@ static PyObject* graphset_graphs(PyObject*, PyObject* args, PyObject* kwds) {
         PyErr_SetString(PyExc_TypeError, "invalid number of edges");
         return NULL;
       }
-      long value = PyLong_AsLong(io);
+      int value = long_as_int(io);
       Py_DECREF(io);
       if (PyErr_Occurred()) {
         Py_DECREF(i);
@@ -1874,7 +1888,7 @@ static PyObject* graphset_graphs(PyObject*, PyObject* args, PyObject* kwds) {
       PyErr_SetString(PyExc_ValueError, "num_edges must have at least 3 values");
       return NULL;
     }
-    *num_edges = Range(r[0], r[1], r[2]);
+    *num_edges = make_range(r);
   }
 
   setset* search_space = NULL;
@@ -2033,7 +2047,7 @@ static PyObject* regular_graphs(PyObject*, PyObject* args, PyObject* kwds){
   }
 
   if (PyLong_Check(degree_obj)) {
-    int d = PyLong_AsLong(degree_obj);
+    int d = long_as_int(degree_obj);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -2047,7 +2061,7 @@ static PyObject* regular_graphs(PyObject*, PyObject* args, PyObject* kwds){
     }
     PyObject* lower_obj = PyTuple_GetItem(degree_obj, 0);
     if (PyLong_Check(lower_obj)) {
-      degree_lower = PyLong_AsLong(lower_obj);
+      degree_lower = long_as_int(lower_obj);
       if (PyErr_Occurred()) {
         return NULL;
       }
@@ -2057,7 +2071,7 @@ static PyObject* regular_graphs(PyObject*, PyObject* args, PyObject* kwds){
     }
     PyObject* upper_obj = PyTuple_GetItem(degree_obj, 1);
     if (PyLong_Check(upper_obj)) {
-      degree_upper = PyLong_AsLong(upper_obj);
+      degree_upper = long_as_int(upper_obj);
       if (PyErr_Occurred()) {
         return NULL;
       }
@@ -2146,7 +2160,7 @@ static PyObject* degree_distribution_graphs(PyObject*, PyObject* args, PyObject*
       PyErr_SetString(PyExc_TypeError, "Currently, value must be an integer.");
       return NULL;
     }
-    int k = PyLong_AsLong(key);
+    int k = long_as_int(key);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -2155,7 +2169,11 @@ static PyObject* degree_distribution_graphs(PyObject*, PyObject* args, PyObject*
         "must be non-negative");
       return NULL;
     }
-    int v = PyLong_AsLong(value);
+    if (k > USHRT_MAX) {
+      PyErr_SetString(PyExc_ValueError, "too large degree in degree distribution");
+      return NULL;
+    }
+    int v = long_as_int(value);
     if (PyErr_Occurred()) {
       return NULL;
     }
@@ -2656,7 +2674,7 @@ bool input_vertex_to_range_map(
         PyErr_SetString(PyExc_TypeError, "invalid degree in map object");
         return false;
       }
-      long value = PyLong_AsLong(io);
+      int value = long_as_int(io);
       if (PyErr_Occurred()) {
         Py_DECREF(i);
         return false;
@@ -2671,7 +2689,7 @@ bool input_vertex_to_range_map(
       PyErr_SetString(PyExc_ValueError, "range must contain exactly 3 integers");
       return false;
     }
-    mp[vertex] = Range(r[0], r[1], r[2]);
+    mp[vertex] = make_range(r);
   }
   return true;
 }
-- 
2.43.0


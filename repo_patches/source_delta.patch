From 7d79c34f1380819e6dbdd2d47f244225eaf9480d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 01/78] fix: get_iso_value raised KeyError once is_iso was
 cached as False

Any query that cached is_iso=False (e.g. bellman_ford_path_length) made later
iso_value users (pagerank, katz_centrality) on the same graph fail.
---
 graphblas_algorithms/classes/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/classes/graph.py b/graphblas_algorithms/classes/graph.py
index f3e2239..3ac2a1a 100644
--- a/graphblas_algorithms/classes/graph.py
+++ b/graphblas_algorithms/classes/graph.py
@@ -236,7 +236,7 @@ def get_iso_value(G, mask=None):
                 # SuiteSparse:GraphBLAS
                 cache["iso_value"] = A.ss.iso_value
             else:
-                cache["iso_value"]
+                cache["iso_value"] = None
 
         # min_val, max_val = G.get_properties('min_element+ max_element+')
         # SuiteSparse:GraphBLAS
-- 
2.43.0


From 9db29d05a7bc070c31bd92c2dcff838ddc71b61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 02/78] fix: has_negative_diagonal treated an uncached
 min_element- as zero

With has_negative_edges+ cached as True and min_element- not cached, the graph
was reported to have negative self-loops, so e.g. negative_edge_cycle answered
True for an iso-negative DAG after a Bellman-Ford query.
---
 graphblas_algorithms/classes/graph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/classes/graph.py b/graphblas_algorithms/classes/graph.py
index 3ac2a1a..0cf6c50 100644
--- a/graphblas_algorithms/classes/graph.py
+++ b/graphblas_algorithms/classes/graph.py
@@ -141,9 +141,11 @@ def has_negative_diagonal(G, mask=None):
             cache.get("has_negative_edges+") is True
             and cache.get("has_negative_edges-") is False
             or cache.get("has_negative_edges+") is True
-            and cache.get("min_element-", 0) >= 0
-            or cache.get("min_element+", 0) < 0
-            and cache.get("min_element+", 0) < cache.get("min_element-", 0)
+            and "min_element-" in cache
+            and cache["min_element-"] >= 0
+            or "min_element-" in cache
+            and cache.get("min_element+", 0) < 0
+            and cache["min_element+"] < cache["min_element-"]
         ):
             cache["has_negative_diagonal"] = True
         else:
-- 
2.43.0


From e3e5c2d20459bd29c11885ee804b1869c8701bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 03/78] fix: average_clustering cached weighted and unweighted
 answers under one key

---
 graphblas_algorithms/nxapi/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index 8e61f9b..bc07af3 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -69,7 +69,7 @@ def average_clustering(G, nodes=None, weight=None, count_zeros=True):
         func = algorithms.average_clustering
     if mask is None:
         return G._cacheit(
-            f"average_clustering(count_zeros={count_zeros})",
+            f"average_clustering(weighted={weighted}, count_zeros={bool(count_zeros)})",
             func,
             G,
             weighted=weighted,
-- 
2.43.0


From ccb2dffef7b5265e5be6ed1f58154cceb80da0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 04/78] fix: NodeNodeMap.get always returned None for keys that
 are present

---
 graphblas_algorithms/classes/nodemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 2a32502..26a0edc 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -417,7 +417,7 @@ class NodeNodeMap(MutableMapping):
         idx = self._key_to_id[key]
         if self._fill_value is None and self._get_rows().get(idx) is None:
             return default
-        self.vector_to_nodemap(
+        return self.vector_to_nodemap(
             self.matrix[idx, :].new(),
             fill_value=self._fill_value,
             values_are_keys=self._values_are_keys,
-- 
2.43.0


From b347a2d770c116850630c878540c24b9e033cdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 05/78] fix: VectorMap.__getitem__ returned None instead of
 raising KeyError

---
 graphblas_algorithms/classes/nodemap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 26a0edc..9e73289 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -138,7 +138,9 @@ class VectorMap(MutableMapping):
         del self.vector[key]
 
     def __getitem__(self, key):
-        return self.vector.get(key)
+        if (rv := self.vector.get(key)) is None:
+            raise KeyError(key)
+        return rv
 
     def __iter__(self):
         # Slow if we iterate over one; fast if we iterate over all
-- 
2.43.0


From c065c4f936b049a1c680d6502bf69d8bc59058b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 06/78] fix: NodeMap.setdefault stored node keys instead of ids
 when values are keys

---
 graphblas_algorithms/classes/nodemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 9e73289..f1067fa 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -122,7 +122,7 @@ class NodeMap(MutableMapping):
         if self._fill_value is not None:
             return self._fill_value
         if default is not None:
-            self.vector[idx] = default
+            self[key] = default
         return default
 
     # update
-- 
2.43.0


From e3b26c7a92e7bb830a01cd1e2ee338c5de97f1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 07/78] fix: in, get and discard of node containers raised
 KeyError for non-nodes

The Mapping and Set interfaces answer False, the default, or do nothing.
---
 graphblas_algorithms/classes/nodemap.py | 18 ++++++++++++------
 graphblas_algorithms/classes/nodeset.py |  7 ++++---
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index f1067fa..2b4208d 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -70,7 +70,8 @@ class NodeMap(MutableMapping):
 
     # Override other MutableMapping methods
     def __contains__(self, key):
-        idx = self._key_to_id[key]
+        if (idx := self._key_to_id.get(key)) is None:
+            return False
         return self._fill_value is not None or idx in self.vector
 
     def __eq__(self, other):
@@ -88,7 +89,8 @@ class NodeMap(MutableMapping):
         self._fill_value = None
 
     def get(self, key, default=None):
-        idx = self._key_to_id[key]
+        if (idx := self._key_to_id.get(key)) is None:
+            return default
         rv = self.vector.get(idx)
         if rv is None:
             if self._fill_value is not None:
@@ -272,7 +274,8 @@ class VectorNodeMap(MutableMapping):
 
     # Override other MutableMapping methods
     def __contains__(self, key):
-        idx = self._key_to_id[key]
+        if (idx := self._key_to_id.get(key)) is None:
+            return False
         return idx in self._get_rows()
 
     def __eq__(self, other):
@@ -285,7 +288,8 @@ class VectorNodeMap(MutableMapping):
         self._rows = None
 
     def get(self, key, default=None):
-        idx = self._key_to_id[key]
+        if (idx := self._key_to_id.get(key)) is None:
+            return default
         if self._get_rows().get(idx) is None:
             return default
         return VectorMap(self.matrix[idx, :].new())
@@ -397,7 +401,8 @@ class NodeNodeMap(MutableMapping):
 
     # Override other MutableMapping methods
     def __contains__(self, key):
-        idx = self._key_to_id[key]
+        if (idx := self._key_to_id.get(key)) is None:
+            return False
         return self._fill_value is not None or idx in self._get_rows()
 
     def __eq__(self, other):
@@ -416,7 +421,8 @@ class NodeNodeMap(MutableMapping):
         self._fill_value = None
 
     def get(self, key, default=None):
-        idx = self._key_to_id[key]
+        if (idx := self._key_to_id.get(key)) is None:
+            return default
         if self._fill_value is None and self._get_rows().get(idx) is None:
             return default
         return self.vector_to_nodemap(
diff --git a/graphblas_algorithms/classes/nodeset.py b/graphblas_algorithms/classes/nodeset.py
index b79895e..cd13a57 100644
--- a/graphblas_algorithms/classes/nodeset.py
+++ b/graphblas_algorithms/classes/nodeset.py
@@ -34,7 +34,8 @@ class NodeSet(MutableSet):
 
     # Requirements for MutableSet
     def __contains__(self, x):
-        idx = self._key_to_id[x]
+        if (idx := self._key_to_id.get(x)) is None:
+            return False
         return idx in self.vector
 
     def __iter__(self):
@@ -51,8 +52,8 @@ class NodeSet(MutableSet):
         self.vector[idx] = True
 
     def discard(self, value):
-        idx = self._key_to_id[value]
-        del self.vector[idx]
+        if (idx := self._key_to_id.get(value)) is not None:
+            del self.vector[idx]
 
     # Override other MutableSet methods
     def __eq__(self, other):
-- 
2.43.0


From 1871fd123814217ae53cf6d578b01acdbc81b271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 08/78] fix: NodeSet.isdisjoint was misspelled, so the override
 was never used

---
 graphblas_algorithms/classes/nodeset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/classes/nodeset.py b/graphblas_algorithms/classes/nodeset.py
index cd13a57..f6c6674 100644
--- a/graphblas_algorithms/classes/nodeset.py
+++ b/graphblas_algorithms/classes/nodeset.py
@@ -76,7 +76,7 @@ class NodeSet(MutableSet):
     def clear(self):
         self.vector.clear()
 
-    def isdisjoin(self, other):
+    def isdisjoint(self, other):
         if isinstance(other, NodeSet):
             return not any_pair[bool](self.vector @ other.vector)
         return super().isdisjoint(other)
-- 
2.43.0


From 51d3f09ab616f3c33ce12237906cf16aa152e702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 09/78] fix: s_metric halved the answer for directed graphs

---
 graphblas_algorithms/algorithms/smetric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/smetric.py b/graphblas_algorithms/algorithms/smetric.py
index e2e85bb..8fa7f2b 100644
--- a/graphblas_algorithms/algorithms/smetric.py
+++ b/graphblas_algorithms/algorithms/smetric.py
@@ -6,8 +6,8 @@ __all__ = ["s_metric"]
 def s_metric(G):
     if G.is_directed():
         degrees = G.get_property("total_degrees+")
-    else:
-        degrees = G.get_property("degrees+")
+        return (binary.first(degrees & G._A) @ degrees).reduce().get(0)
+    degrees = G.get_property("degrees+")
     return (binary.first(degrees & G._A) @ degrees).reduce().get(0) / 2
     # Alternatives
     # return (degrees @ binary.second(G._A & degrees)).reduce().get(0) / 2
-- 
2.43.0


From 372d46ba504e13aff98acbb7bbf15dc5d43b958d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 10/78] fix: google_matrix took dangling rows in graph order
 when given a nodelist

---
 graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
index 7391dbe..4144811 100644
--- a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
@@ -130,7 +130,7 @@ def google_matrix(
             raise ZeroDivisionError("personalization sums to 0")
         p = (personalization / denom).new(mask=personalization.V, name="p")
 
-    if ids is None or len(ids) == len(G):
+    if ids is None:
         nonempty_rows = G.get_property("any_rowwise+")  # XXX: What about self-edges?
     else:
         nonempty_rows = A.reduce_rowwise(monoid.any).new(name="nonempty_rows")
-- 
2.43.0


From 1b3a28e3095feaed2b9f1ded6b9a189f40fe4daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 11/78] fix: clustering_directed did not ignore self-edges in
 the transpose

---
 graphblas_algorithms/algorithms/cluster.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/cluster.py b/graphblas_algorithms/algorithms/cluster.py
index 0b9ab21..cdc7806 100644
--- a/graphblas_algorithms/algorithms/cluster.py
+++ b/graphblas_algorithms/algorithms/cluster.py
@@ -100,7 +100,11 @@ def clustering(G, *, weighted=False, mask=None):
 
 def clustering_directed(G, *, weighted=False, mask=None):
     # Can we apply the mask earlier in the computation?
-    A, AT = G.get_properties("offdiag AT")
+    A = G.get_property("offdiag")
+    if G.get_property("has_self_edges"):
+        AT = A.T.new()  # Ignore self-edges
+    else:
+        AT = G.get_property("AT")
     if weighted:
         maxval = G.get_property("max_element-")
         A = unary.cbrt(A / maxval)
-- 
2.43.0


From 05d512251b18290f76e80a1123f67e0fd681c66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 12/78] fix: convert_to_nx gave distance 0 to unreachable pairs
 of floyd_warshall_numpy

---
 graphblas_algorithms/interface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/interface.py b/graphblas_algorithms/interface.py
index c718371..e045d1c 100644
--- a/graphblas_algorithms/interface.py
+++ b/graphblas_algorithms/interface.py
@@ -256,11 +256,13 @@ class Dispatcher:
                 obj = io.to_scipy_sparse(obj)
             elif name in {
                 "directed_modularity_matrix",
-                "floyd_warshall_numpy",
                 "google_matrix",
                 "modularity_matrix",
             }:
                 obj = obj.to_dense(fill_value=False)
+            elif name == "floyd_warshall_numpy":
+                # Missing distances are infinite
+                obj = obj.to_dense(fill_value=float("inf"), dtype=float)
             else:  # pragma: no cover
                 raise RuntimeError(f"Should {name} return a numpy or scipy.sparse array?")
         return obj
-- 
2.43.0


From 54079cec77ac948b84610f11ba5140284184db67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 13/78] fix: edge_boundary of directed graphs lost edges to
 nodes without out-edges

---
 graphblas_algorithms/algorithms/boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/boundary.py b/graphblas_algorithms/algorithms/boundary.py
index 96bd275..b3f964d 100644
--- a/graphblas_algorithms/algorithms/boundary.py
+++ b/graphblas_algorithms/algorithms/boundary.py
@@ -11,8 +11,8 @@ def edge_boundary(G, nbunch1, nbunch2=None, *, is_weighted=False):
         B = binary.pair(nbunch1 & G._A).new(name="boundary")
     if nbunch2 is None:
         # Default nbunch2 is the complement of nbunch1.
-        # We get the row_degrees to better handle hypersparse data.
-        nbunch2 = G.get_property("row_degrees+", mask=~nbunch1.S)
+        # We get the column_degrees to better handle hypersparse data.
+        nbunch2 = G.get_property("column_degrees+", mask=~nbunch1.S)
     if is_weighted:
         B << binary.first(B & nbunch2)
     else:
-- 
2.43.0


From fdb22970cecee72d91ba31b1eb038816c979c7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 14/78] fix: cut_size of directed graphs raised TypeError
 without T

---
 graphblas_algorithms/algorithms/cuts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/algorithms/cuts.py b/graphblas_algorithms/algorithms/cuts.py
index 918dc56..f7cda66 100644
--- a/graphblas_algorithms/algorithms/cuts.py
+++ b/graphblas_algorithms/algorithms/cuts.py
@@ -22,6 +22,8 @@ def cut_size(G, S, T=None, *, is_weighted=False):
     else:
         rv = edges.nvals
     if G.is_directed():
+        if T is None:
+            T = (~S.S).new()
         edges = edge_boundary(G, T, S, is_weighted=is_weighted)
         if is_weighted:
             rv += edges.reduce_scalar(monoid.plus).get(0)
-- 
2.43.0


From 3e6ea7fba14e4d30f7543737b2318b91f50972ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 15/78] fix: weighted volume of directed graphs summed in-edges
 instead of out-edges

---
 graphblas_algorithms/algorithms/cuts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cuts.py b/graphblas_algorithms/algorithms/cuts.py
index f7cda66..f5c8223 100644
--- a/graphblas_algorithms/algorithms/cuts.py
+++ b/graphblas_algorithms/algorithms/cuts.py
@@ -1,5 +1,5 @@
 from graphblas import monoid
-from graphblas.semiring import any_pair, plus_first
+from graphblas.semiring import any_pair, plus_second
 
 from .boundary import edge_boundary, node_boundary
 
@@ -34,7 +34,7 @@ def cut_size(G, S, T=None, *, is_weighted=False):
 
 def volume(G, S, *, weighted=False):
     if weighted:
-        degrees = plus_first(G._A @ S)
+        degrees = plus_second(S @ G._A)
     else:
         degrees = G.get_property("row_degrees+", mask=S.S)
     return degrees.reduce(monoid.plus).get(0)
-- 
2.43.0


From 9686a13be4b499747c695b2db57365d16f437ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 16/78] fix: conductance, normalized_cut_size and the
 expansions ignored weight

---
 graphblas_algorithms/algorithms/cuts.py | 24 ++++++++++++------------
 graphblas_algorithms/nxapi/cuts.py      |  8 ++++----
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cuts.py b/graphblas_algorithms/algorithms/cuts.py
index f5c8223..8b3733b 100644
--- a/graphblas_algorithms/algorithms/cuts.py
+++ b/graphblas_algorithms/algorithms/cuts.py
@@ -40,22 +40,22 @@ def volume(G, S, *, weighted=False):
     return degrees.reduce(monoid.plus).get(0)
 
 
-def normalized_cut_size(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
-    volume_S = volume(G, S)
-    volume_T = volume(G, T)
+def normalized_cut_size(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
+    volume_S = volume(G, S, weighted=is_weighted)
+    volume_T = volume(G, T, weighted=is_weighted)
     return num_cut_edges * ((1 / volume_S) + (1 / volume_T))
 
 
-def conductance(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
-    volume_S = volume(G, S)
-    volume_T = volume(G, T)
+def conductance(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
+    volume_S = volume(G, S, weighted=is_weighted)
+    volume_T = volume(G, T, weighted=is_weighted)
     return num_cut_edges / min(volume_S, volume_T)
 
 
-def edge_expansion(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
+def edge_expansion(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
     if T is None:
         Tnvals = S.size - S.nvals
     else:
@@ -63,8 +63,8 @@ def edge_expansion(G, S, T=None):
     return num_cut_edges / min(S.nvals, Tnvals)
 
 
-def mixing_expansion(G, S, T=None):
-    num_cut_edges = cut_size(G, S, T)
+def mixing_expansion(G, S, T=None, *, is_weighted=False):
+    num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
     return num_cut_edges / G._A.nvals  # Why no factor of 2 in denominator?
 
 
diff --git a/graphblas_algorithms/nxapi/cuts.py b/graphblas_algorithms/nxapi/cuts.py
index 8343109..643861c 100644
--- a/graphblas_algorithms/nxapi/cuts.py
+++ b/graphblas_algorithms/nxapi/cuts.py
@@ -35,7 +35,7 @@ def normalized_cut_size(G, S, T=None, weight=None):
         T = (~S.S).new()
     else:
         T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.normalized_cut_size(G, S, T)
+    return algorithms.normalized_cut_size(G, S, T, is_weighted=weight is not None)
 
 
 def conductance(G, S, T=None, weight=None):
@@ -45,21 +45,21 @@ def conductance(G, S, T=None, weight=None):
         T = (~S.S).new()
     else:
         T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.conductance(G, S, T)
+    return algorithms.conductance(G, S, T, is_weighted=weight is not None)
 
 
 def edge_expansion(G, S, T=None, weight=None):
     G = to_graph(G, weight=weight)
     S = G.set_to_vector(S, ignore_extra=True)
     T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.edge_expansion(G, S, T)
+    return algorithms.edge_expansion(G, S, T, is_weighted=weight is not None)
 
 
 def mixing_expansion(G, S, T=None, weight=None):
     G = to_graph(G, weight=weight)
     S = G.set_to_vector(S, ignore_extra=True)
     T = G.set_to_vector(T, ignore_extra=True)
-    return algorithms.mixing_expansion(G, S, T)
+    return algorithms.mixing_expansion(G, S, T, is_weighted=weight is not None)
 
 
 def node_expansion(G, S):
-- 
2.43.0


From ebd017853de6eeed1156f8fd1cfe4e2e4b1b9534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 17/78] fix: mixing_expansion of directed graphs was twice too
 large

---
 graphblas_algorithms/algorithms/cuts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/cuts.py b/graphblas_algorithms/algorithms/cuts.py
index 8b3733b..42191c3 100644
--- a/graphblas_algorithms/algorithms/cuts.py
+++ b/graphblas_algorithms/algorithms/cuts.py
@@ -65,7 +65,9 @@ def edge_expansion(G, S, T=None, *, is_weighted=False):
 
 def mixing_expansion(G, S, T=None, *, is_weighted=False):
     num_cut_edges = cut_size(G, S, T, is_weighted=is_weighted)
-    return num_cut_edges / G._A.nvals  # Why no factor of 2 in denominator?
+    if G.is_directed():
+        return num_cut_edges / (2 * G._A.nvals)
+    return num_cut_edges / G._A.nvals  # Undirected edges are already stored twice
 
 
 def node_expansion(G, S):
-- 
2.43.0


From 24a38dbbb4d0315084d2ca9631c86762d302e8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 18/78] fix: intra- and inter_community_edges counted
 undirected edges twice

---
 graphblas_algorithms/algorithms/community/quality.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/graphblas_algorithms/algorithms/community/quality.py b/graphblas_algorithms/algorithms/community/quality.py
index d2b1d95..81cd7b7 100644
--- a/graphblas_algorithms/algorithms/community/quality.py
+++ b/graphblas_algorithms/algorithms/community/quality.py
@@ -9,6 +9,11 @@ def intra_community_edges(G, partition):
     for block in partition:
         # is A or A.T faster?
         count += plus_pair(A @ block).new(mask=block.S).reduce().get(0)
+        if not G.is_directed() and G.get_property("has_self_edges"):
+            # Self-edges are stored once, but other undirected edges are stored twice
+            count += G.get_property("diag", mask=block.S).nvals
+    if not G.is_directed():
+        count //= 2
     return count
 
 
@@ -18,6 +23,8 @@ def inter_community_edges(G, partition):
     for block in partition:
         # is A or A.T faster?
         count += plus_pair(A @ block).new(mask=~block.S).reduce().get(0)
+    if not G.is_directed():
+        count //= 2  # Undirected edges are stored twice
     return count
     # Alternative implementation if partition is complete set:
     # return G._A.nvals - intra_community_edges_core(G, partition)
-- 
2.43.0


From dc39e35d9be0282aaa355f05c7c7cd7a01c2a83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 19/78] fix: mutual_weight used weights when weight=None

---
 graphblas_algorithms/algorithms/structuralholes.py | 4 +++-
 graphblas_algorithms/nxapi/structuralholes.py      | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/structuralholes.py b/graphblas_algorithms/algorithms/structuralholes.py
index 7c4bec8..fa292b2 100644
--- a/graphblas_algorithms/algorithms/structuralholes.py
+++ b/graphblas_algorithms/algorithms/structuralholes.py
@@ -1,11 +1,13 @@
 __all__ = ["mutual_weight"]
 
 
-def mutual_weight(G, u, v):
+def mutual_weight(G, u, v, *, is_weighted=True):
     key_to_id = G._key_to_id
     if u not in key_to_id or v not in key_to_id:
         return 0
     u = key_to_id[u]
     v = key_to_id[v]
     A = G._A
+    if not is_weighted:
+        return int(A.get(u, v) is not None) + int(A.get(v, u) is not None)
     return A.get(u, v, 0) + A.get(v, u, 0)
diff --git a/graphblas_algorithms/nxapi/structuralholes.py b/graphblas_algorithms/nxapi/structuralholes.py
index 20227cd..e044549 100644
--- a/graphblas_algorithms/nxapi/structuralholes.py
+++ b/graphblas_algorithms/nxapi/structuralholes.py
@@ -6,4 +6,4 @@ __all__ = []
 
 def mutual_weight(G, u, v, weight=None):
     G = to_graph(G, weight=weight)
-    return algorithms.mutual_weight(G, u, v)
+    return algorithms.mutual_weight(G, u, v, is_weighted=weight is not None)
-- 
2.43.0


From 7e71f1f7939d47980e39781bc1e6abc02e0c336e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 20/78] fix: union listed the nodes of H before those of G,
 unlike the matrix

---
 graphblas_algorithms/algorithms/operators/binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/operators/binary.py b/graphblas_algorithms/algorithms/operators/binary.py
index 4c14a11..a2064fc 100644
--- a/graphblas_algorithms/algorithms/operators/binary.py
+++ b/graphblas_algorithms/algorithms/operators/binary.py
@@ -38,8 +38,8 @@ def union(G, H, rename=(), *, name="union"):
     C[: A.nrows, : A.ncols] = A
     C[A.nrows :, A.ncols :] = B
     offset = A.nrows
-    key_to_id = {key: val + offset for key, val in H._key_to_id.items()}
-    key_to_id.update(G._key_to_id)
+    key_to_id = dict(G._key_to_id)
+    key_to_id.update((key, val + offset) for key, val in H._key_to_id.items())
     return type(G)(C, key_to_id=key_to_id)
 
 
-- 
2.43.0


From 51f9e0c725b8a890b6127d792605f0500f38550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 21/78] fix: compose lost edges and used wrong ids for the new
 nodes of H

---
 graphblas_algorithms/algorithms/operators/binary.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/graphblas_algorithms/algorithms/operators/binary.py b/graphblas_algorithms/algorithms/operators/binary.py
index a2064fc..b2e5b3a 100644
--- a/graphblas_algorithms/algorithms/operators/binary.py
+++ b/graphblas_algorithms/algorithms/operators/binary.py
@@ -1,3 +1,4 @@
+import numpy as np
 from graphblas import Matrix, binary, dtypes, unary
 
 from ..exceptions import GraphBlasAlgorithmException
@@ -136,14 +137,18 @@ def compose(G, H, *, name="compose"):
         C[: A.nrows, : A.ncols] = A
         ids1 = G.list_to_ids(keys)
         ids2 = H.list_to_ids(keys)
-        C[ids1, ids1] = B[ids2, ids2]
+        # Don't lose edges of G that aren't in H
+        C(binary.second)[ids1, ids1] = B[ids2, ids2]
         newkeys = sorted(H._key_to_id.keys() - G._key_to_id.keys(), key=H._key_to_id.__getitem__)
         ids = H.list_to_ids(newkeys)
         C[A.nrows :, A.ncols :] = B[ids, ids]
+        # Edges of H between nodes in G and new nodes
+        newids = np.arange(A.nrows, C.nrows, dtype=np.uint64)
+        C[ids1, newids] = B[ids2, ids]
+        C[newids, ids1] = B[ids, ids2]
         # Now make new `key_to_id`
-        ids += A.nrows
-        key_to_id = dict(zip(newkeys, ids.tolist(), strict=True))
-        key_to_id.update(G._key_to_id)
+        key_to_id = dict(G._key_to_id)
+        key_to_id.update(zip(newkeys, newids.tolist(), strict=True))
     return type(G)(C, key_to_id=key_to_id)
 
 
-- 
2.43.0


From 941a8d4c21f67448bb3e9834cc9111bee9ad3159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 22/78] fix: pagerank raised EmptyObject if nstart or
 personalization lacked nodes

---
 graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
index 4144811..101b0b3 100644
--- a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
@@ -34,6 +34,7 @@ def pagerank(
         if denom == 0:
             raise ZeroDivisionError("nstart sums to 0")
         x << nstart / denom
+        x(~x.S) << 0.0  # Missing values are 0
 
     # Personalization vector or scalar
     if personalization is None:
@@ -43,6 +44,7 @@ def pagerank(
         if denom == 0:
             raise ZeroDivisionError("personalization sums to 0")
         p = (personalization / denom).new(name="p")
+        p(~p.S) << 0.0  # Missing values are 0
 
     # Inverse of row_degrees
     # Fold alpha constant into S
-- 
2.43.0


From 6d059cae216768821e2a9f29c31a84d9e2596d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 23/78] fix: pagerank of graphs without edges was 0 for all
 nodes

---
 graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
index 101b0b3..d571c9e 100644
--- a/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/algorithms/link_analysis/pagerank_alg.py
@@ -22,7 +22,7 @@ def pagerank(
 ) -> Vector:
     A = G._A
     N = A.nrows
-    if A.nvals == 0:
+    if N == 0:
         return Vector(float, N, name=name)
 
     # Initial vector
-- 
2.43.0


From 175860b6f07499bcb445715dbebdc226f45a5530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 24/78] fix: katz_centrality was wrong for graphs with nodes
 without in-edges

---
 graphblas_algorithms/algorithms/centrality/katz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/centrality/katz.py b/graphblas_algorithms/algorithms/centrality/katz.py
index 8087e85..1f9968e 100644
--- a/graphblas_algorithms/algorithms/centrality/katz.py
+++ b/graphblas_algorithms/algorithms/centrality/katz.py
@@ -1,4 +1,4 @@
-from graphblas import Scalar, Vector
+from graphblas import Scalar, Vector, binary
 from graphblas.core.utils import output_type
 from graphblas.semiring import plus_first, plus_times
 
@@ -46,7 +46,7 @@ def katz_centrality(
         # x << alpha * semiring(xprev @ A) + beta
         x << semiring(xprev @ A)
         x *= alpha
-        x += b
+        x(binary.plus)[:] = b  # Also assign to nodes without in-edges
         if is_converged(xprev, x, tol):  # sum(abs(xprev - x)) < N * tol
             x.name = name
             if normalized:
-- 
2.43.0


From 34ca9532a55c0aea8e23ed3d4705ffd517a9715a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 25/78] fix: floyd_warshall predecessors and permutations of
 undirected graphs

---
 graphblas_algorithms/algorithms/shortest_paths/dense.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/dense.py b/graphblas_algorithms/algorithms/shortest_paths/dense.py
index 394d1b4..a8acd45 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/dense.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/dense.py
@@ -18,7 +18,9 @@ def floyd_warshall_predecessor_and_distance(
     # Typically, Floyd-Warshall algorithms sets the diagonal of D to 0 at the beginning.
     # This is unnecessary with sparse matrices, and we set the diagonal to 0 at the end.
     # We also don't iterate over index `i` if either row i or column i are empty.
-    if is_directed := G.is_directed():
+    # Predecessors and permuted matrices are not symmetric or upper-triangular, so for
+    # them we do the computation for undirected graphs the same way as for directed graphs.
+    if is_directed := compute_predecessors or permutation is not None or G.is_directed():
         A, row_degrees, column_degrees = G.get_properties("offdiag row_degrees- column_degrees-")
         nonempty_nodes = binary.pair(row_degrees & column_degrees).new(name="nonempty_nodes")
     else:
-- 
2.43.0


From 2fdd265562e76558f1919643542ce85a5a0cf12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 26/78] fix: bellman_ford_path_length returned an expression
 for iso-valued graphs

---
 graphblas_algorithms/algorithms/shortest_paths/weighted.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index a83a060..3b4b895 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -29,12 +29,12 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
             if cutoff is not None:
                 cutoff = int(cutoff // iso_value.get())
             d = _bfs_level(G, source, target, cutoff=cutoff, dtype=iso_value.dtype)
+            if iso_value != 1:
+                d *= iso_value
             if dst_id is not None:
                 d = d.get(dst_id)
                 if d is None:
                     raise NoPath(f"node {target} not reachable from {source}")
-            if iso_value != 1:
-                d *= iso_value
             return d
         # It's difficult to detect negative cycles with BFS
         if G._A[src_id, src_id].get() is not None:
-- 
2.43.0


From 47f6235b5658e95047d434e5f06e26205ce5a964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 27/78] fix: bellman_ford_path and its length leaked the
 internal Unbounded exception

---
 graphblas_algorithms/nxapi/shortest_paths/weighted.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/graphblas_algorithms/nxapi/shortest_paths/weighted.py b/graphblas_algorithms/nxapi/shortest_paths/weighted.py
index b08dd85..b6d6ab6 100644
--- a/graphblas_algorithms/nxapi/shortest_paths/weighted.py
+++ b/graphblas_algorithms/nxapi/shortest_paths/weighted.py
@@ -62,6 +62,10 @@ def bellman_ford_path(G, source, target, weight="weight"):
     G = to_graph(G, weight=weight)
     try:
         return algorithms.bellman_ford_path(G, source, target)
+    except algorithms.exceptions.Unbounded as e:
+        raise NetworkXUnbounded(*e.args) from e
+    except exceptions.NoPath as e:
+        raise NetworkXNoPath(*e.args) from e
     except KeyError as e:
         raise NodeNotFound(*e.args) from e
 
@@ -70,6 +74,8 @@ def bellman_ford_path_length(G, source, target, weight="weight"):
     G = to_graph(G, weight=weight)
     try:
         return algorithms.bellman_ford_path_length(G, source, target)
+    except algorithms.exceptions.Unbounded as e:
+        raise NetworkXUnbounded(*e.args) from e
     except KeyError as e:
         raise NodeNotFound(*e.args) from e
     except exceptions.NoPath as e:
-- 
2.43.0


From 3371fa0e0d0b7ea7585ed6f3b3d48538c78c02b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 28/78] fix: bellman_ford_path returned an empty path if there
 was no path

---
 graphblas_algorithms/algorithms/shortest_paths/weighted.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index 3b4b895..f4598f7 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -201,7 +201,8 @@ def _reconstruct_path_from_parents(G, parents, src, dst):
     indices, values = parents.to_coo(sort=False)
     d = dict(zip(indices.tolist(), values.tolist(), strict=True))
     if dst not in d:
-        return []
+        source, target = G.list_to_keys([src, dst])
+        raise NoPath(f"node {target} not reachable from {source}")
     cur = dst
     path = [cur]
     while cur != src:
@@ -291,7 +292,7 @@ def bellman_ford_path(G, source, target):
         if mask.get(dst_id):
             raise Unbounded("Negative cycle detected.")
     path = _reconstruct_path_from_parents(G, p, src_id, dst_id)
-    if has_negative_diagonal and path:
+    if has_negative_diagonal:
         mask.clear()
         mask[G.list_to_ids(path)] = True
         diag = G.get_property("diag", mask=mask.S)
-- 
2.43.0


From 195fbf50a708b487dbb4981fddf303cce8adfd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 29/78] fix: bellman_ford_path could loop forever on a negative
 cycle

---
 graphblas_algorithms/algorithms/shortest_paths/weighted.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index f4598f7..2f0824c 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -90,7 +90,7 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
         if cutoff is not None:
             cur << select.valuele(cur, cutoff)
         mask << binary.lt(cur & d)
-        if dst_id is None and mask.reduce(monoid.lor) or dst_id is not None and mask.get(dst_id):
+        if mask.reduce(monoid.lor):
             raise Unbounded("Negative cycle detected.")
     if has_negative_diagonal:
         # We removed diagonal entries above, so check if we visited one with a negative weight
@@ -289,7 +289,7 @@ def bellman_ford_path(G, source, target):
         if cutoff is not None:
             cur << select.valuele(cur, cutoff)
         mask << binary.lt(cur & d)
-        if mask.get(dst_id):
+        if mask.reduce(monoid.lor):
             raise Unbounded("Negative cycle detected.")
     path = _reconstruct_path_from_parents(G, p, src_id, dst_id)
     if has_negative_diagonal:
-- 
2.43.0


From b7279f69bb054eb5320a356fe30e8cefd3996216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 30/78] fix: bellman_ford_path mishandled self-edges if any has
 a negative weight

---
 .../algorithms/shortest_paths/weighted.py     | 21 ++++++-------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index 2f0824c..b64d03e 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -2,7 +2,7 @@ import numpy as np
 from graphblas import Matrix, Vector, binary, indexunary, monoid, replace, select, unary
 from graphblas.semiring import any_pair, min_plus
 
-from .._bfs import _bfs_level, _bfs_levels, _bfs_parent, _bfs_plain
+from .._bfs import _bfs_level, _bfs_levels, _bfs_parent
 from ..exceptions import NoPath, Unbounded
 
 __all__ = [
@@ -291,22 +291,13 @@ def bellman_ford_path(G, source, target):
         mask << binary.lt(cur & d)
         if mask.reduce(monoid.lor):
             raise Unbounded("Negative cycle detected.")
-    path = _reconstruct_path_from_parents(G, p, src_id, dst_id)
     if has_negative_diagonal:
-        mask.clear()
-        mask[G.list_to_ids(path)] = True
-        diag = G.get_property("diag", mask=mask.S)
-        if diag.nvals > 0:
+        # We removed diagonal entries above, so check if we visited one with a negative weight
+        diag = G.get_property("diag")
+        cur << select.valuelt(diag, 0)
+        if any_pair(d @ cur):
             raise Unbounded("Negative cycle detected.")
-        mask << binary.first(mask & cur)  # mask(cur.S, replace) << mask
-        if mask.nvals > 0:
-            # Is there a path from any visited node with negative self-loop to target?
-            # We could actually stop as soon as any from `path` is visited
-            indices, _ = mask.to_coo(values=False)[0]
-            q = _bfs_plain(G, target=target, index=indices, cutoff=_i)
-            if dst_id in q:
-                raise Unbounded("Negative cycle detected.")
-    return path
+    return _reconstruct_path_from_parents(G, p, src_id, dst_id)
 
 
 def negative_edge_cycle(G):
-- 
2.43.0


From 3c11fca8758f37bebacd39bb3d93c3658021ce49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 31/78] fix: bellman_ford_path called every iso-valued negative
 graph unbounded

---
 graphblas_algorithms/algorithms/shortest_paths/weighted.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index b64d03e..988592d 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -220,7 +220,9 @@ def bellman_ford_path(G, source, target):
         if not is_negative:
             p = _bfs_parent(G, source, target)
             return _reconstruct_path_from_parents(G, p, src_id, dst_id)
-        raise Unbounded("Negative cycle detected.")
+        if not G.is_directed() and G._A[src_id, :].nvals > 0:
+            # For undirected graphs, any negative edge is a cycle
+            raise Unbounded("Negative cycle detected.")
     A, is_negative, has_negative_diagonal = G.get_properties(
         "offdiag has_negative_edges- has_negative_diagonal"
     )
-- 
2.43.0


From 9d8c00839841dcb682b72949ca98fcd19613007c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 32/78] fix: square_clustering was wrong for graphs with
 weights

---
 graphblas_algorithms/algorithms/cluster.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cluster.py b/graphblas_algorithms/algorithms/cluster.py
index cdc7806..e234ba4 100644
--- a/graphblas_algorithms/algorithms/cluster.py
+++ b/graphblas_algorithms/algorithms/cluster.py
@@ -1,6 +1,6 @@
 import numpy as np
 from graphblas import Matrix, Vector, binary, replace, unary
-from graphblas.semiring import plus_first, plus_pair, plus_times
+from graphblas.semiring import plus_first, plus_pair, plus_second, plus_times
 
 __all__ = [
     "single_triangle",
@@ -221,7 +221,7 @@ def single_square_clustering(G, idx):
     denom -= deg * (deg - 1)
     # (3) The main contribution to the denominator: degrees[u] + degrees[w] for each u-w combo.
     # This is the only positive term.
-    denom += plus_times(v @ degrees).value * (deg - 1)
+    denom += plus_second(v @ degrees).value * (deg - 1)
     # (4) Subtract the number of squares
     denom -= squares
     # And we're done!
@@ -277,7 +277,7 @@ def square_clustering(G, node_ids=None):
     # (3) The main contribution to the denominator: degrees[u] + degrees[w] for each u-w combo.
     #   uw_degrees = plus_times(A @ degrees) * (degrees - 1)
     # denom(binary.times) << plus_times(A @ degrees)
-    denom(binary.times, denom.S) << plus_times(Asubset @ degrees)
+    denom(binary.times, denom.S) << plus_second(Asubset @ degrees)
 
     # (4) Subtract the number of squares
     denom(binary.minus) << binary.plus(neg_denom & squares)
-- 
2.43.0


From 4301f0438f9dd7189564582a0625569e65ad5673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 33/78] fix: k_truss replaced edge values with numbers of
 triangles

---
 graphblas_algorithms/algorithms/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphblas_algorithms/algorithms/core.py b/graphblas_algorithms/algorithms/core.py
index a6ff26d..b31067e 100644
--- a/graphblas_algorithms/algorithms/core.py
+++ b/graphblas_algorithms/algorithms/core.py
@@ -31,6 +31,9 @@ def k_truss(G: Graph, k) -> Graph:
     # Remove isolate nodes
     indices, _ = C.reduce_rowwise(monoid.any).to_coo(values=False)
     Ktruss = C[indices, indices].new()
+    if k >= 3:
+        # Use the original values instead of the number of triangles
+        Ktruss = G._A[indices, indices].new(mask=Ktruss.S)
 
     # Convert back to networkx graph with correct node ids
     key_to_id = G.renumber_key_to_id(indices.tolist())
-- 
2.43.0


From 5554058fa13cd5ad0ce330590bc918f79d9d7eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 34/78] fix: del of a missing key of node maps did not raise
 KeyError

---
 graphblas_algorithms/classes/nodemap.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 2b4208d..7310bdb 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -37,6 +37,8 @@ class NodeMap(MutableMapping):
     # Requirements for MutableMapping
     def __delitem__(self, key):
         idx = self._key_to_id[key]
+        if self._fill_value is None and idx not in self.vector:
+            raise KeyError(key)
         del self.vector[idx]
 
     def __getitem__(self, key):
@@ -137,6 +139,8 @@ class VectorMap(MutableMapping):
 
     # Requirements for MutableMapping
     def __delitem__(self, key):
+        if key not in self.vector:
+            raise KeyError(key)
         del self.vector[key]
 
     def __getitem__(self, key):
@@ -235,6 +239,8 @@ class VectorNodeMap(MutableMapping):
     # Requirements for MutableMapping
     def __delitem__(self, key):
         idx = self._key_to_id[key]
+        if idx not in self._get_rows():
+            raise KeyError(key)
         del self.matrix[idx, :]
         if self._rows is not None:
             del self._rows[idx]
@@ -353,6 +359,8 @@ class NodeNodeMap(MutableMapping):
     # Requirements for MutableMapping
     def __delitem__(self, key):
         idx = self._key_to_id[key]
+        if self._fill_value is None and idx not in self._get_rows():
+            raise KeyError(key)
         del self.matrix[idx, :]
         if self._rows is not None:
             del self._rows[idx]
-- 
2.43.0


From e4a07f484094007252e5d82a0e0d5bccadf86f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 35/78] fix: VectorNodeMap and NodeNodeMap raised
 AttributeError without key_to_id

---
 graphblas_algorithms/classes/nodemap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 7310bdb..acf0680 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -206,7 +206,7 @@ class VectorNodeMap(MutableMapping):
     def __init__(self, A, *, key_to_id=None):
         self.matrix = A
         if key_to_id is None:
-            self._key_to_id = {i: i for i in range(A.size)}
+            self._key_to_id = {i: i for i in range(A.nrows)}
         else:
             self._key_to_id = key_to_id
         self._id_to_key = None
@@ -324,7 +324,7 @@ class NodeNodeMap(MutableMapping):
     def __init__(self, A, *, fill_value=None, values_are_keys=False, key_to_id=None):
         self.matrix = A
         if key_to_id is None:
-            self._key_to_id = {i: i for i in range(A.size)}
+            self._key_to_id = {i: i for i in range(A.nrows)}
         else:
             self._key_to_id = key_to_id
         self._id_to_key = None
-- 
2.43.0


From f8609c25422b6d90f3a1ccbc1cf11113f3395c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 36/78] fix: an interrupted update of node maps left them with
 stale rows

---
 graphblas_algorithms/classes/nodemap.py | 38 +++++++++++++++++--------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index acf0680..cb3c857 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -241,9 +241,12 @@ class VectorNodeMap(MutableMapping):
         idx = self._key_to_id[key]
         if idx not in self._get_rows():
             raise KeyError(key)
+        # Forget `_rows` meanwhile, so it is never stale if we get interrupted
+        rows, self._rows = self._rows, None
         del self.matrix[idx, :]
-        if self._rows is not None:
-            del self._rows[idx]
+        if rows is not None:
+            del rows[idx]
+            self._rows = rows
 
     def __getitem__(self, key):
         idx = self._key_to_id[key]
@@ -269,14 +272,16 @@ class VectorNodeMap(MutableMapping):
             val = Vector.from_dict(val, self.matrix.dtype, size=self.matrix.ncols)
         else:
             raise TypeError
+        rows, self._rows = self._rows, None
         if val.nvals == 0:
             del self.matrix[idx, :]
-            if self._rows is not None:
-                del self._rows[idx]
+            if rows is not None:
+                del rows[idx]
         else:
             self.matrix[idx, :] = val
-            if self._rows is not None:
-                self._rows[idx] = 1
+            if rows is not None:
+                rows[idx] = 1
+        self._rows = rows
 
     # Override other MutableMapping methods
     def __contains__(self, key):
@@ -311,8 +316,10 @@ class VectorNodeMap(MutableMapping):
         except StopIteration:
             raise KeyError from None
         value = VectorMap(self.matrix[idx, :].new())
+        self._rows = None
         del self.matrix[idx, :]
         del rows[idx]
+        self._rows = rows
         return self.id_to_key[idx], value
 
     # setdefault
@@ -361,9 +368,12 @@ class NodeNodeMap(MutableMapping):
         idx = self._key_to_id[key]
         if self._fill_value is None and idx not in self._get_rows():
             raise KeyError(key)
+        # Forget `_rows` meanwhile, so it is never stale if we get interrupted
+        rows, self._rows = self._rows, None
         del self.matrix[idx, :]
-        if self._rows is not None:
-            del self._rows[idx]
+        if rows is not None:
+            del rows[idx]
+            self._rows = rows
 
     def __getitem__(self, key):
         idx = self._key_to_id[key]
@@ -398,14 +408,16 @@ class NodeNodeMap(MutableMapping):
             val = Vector.from_dict(val, self.matrix.dtype, size=self.matrix.ncols)
         else:
             raise TypeError
+        rows, self._rows = self._rows, None
         if val.nvals == 0:
             del self.matrix[idx, :]
-            if self._rows is not None:
-                del self._rows[idx]
+            if rows is not None:
+                del rows[idx]
         else:
             self.matrix[idx, :] = val
-            if self._rows is not None:
-                self._rows[idx] = 1
+            if rows is not None:
+                rows[idx] = 1
+        self._rows = rows
 
     # Override other MutableMapping methods
     def __contains__(self, key):
@@ -454,8 +466,10 @@ class NodeNodeMap(MutableMapping):
             fill_value=self._fill_value,
             values_are_keys=self._values_are_keys,
         )
+        self._rows = None
         del self.matrix[idx, :]
         del rows[idx]
+        self._rows = rows
         return self.id_to_key[idx], value
 
     # setdefault
-- 
2.43.0


From 6e4f687c5275770f230ba5df72342391ba814480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 37/78] fix: an interrupted clear of node maps left them with
 stale rows

---
 graphblas_algorithms/classes/nodemap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index cb3c857..922eed6 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -295,8 +295,8 @@ class VectorNodeMap(MutableMapping):
         return super().__eq__(other)
 
     def clear(self):
-        self.matrix.clear()
         self._rows = None
+        self.matrix.clear()
 
     def get(self, key, default=None):
         if (idx := self._key_to_id.get(key)) is None:
@@ -436,8 +436,8 @@ class NodeNodeMap(MutableMapping):
         return super().__eq__(other)
 
     def clear(self):
-        self.matrix.clear()
         self._rows = None
+        self.matrix.clear()
         self._fill_value = None
 
     def get(self, key, default=None):
-- 
2.43.0


From 181b13ed1fd6a7a4a277955966b0813c191ad9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 38/78] fix: generalized_degree of a single node returned node
 keys instead of triangle counts

---
 graphblas_algorithms/nxapi/cluster.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index bc07af3..1ed1695 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -3,6 +3,7 @@ from graphblas import monoid
 from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.digraph import to_graph
 from graphblas_algorithms.classes.graph import to_undirected_graph
+from graphblas_algorithms.classes.nodemap import VectorMap
 from graphblas_algorithms.utils import not_implemented_for
 
 from ._utils import normalize_chunksize, partition
@@ -128,7 +129,7 @@ def generalized_degree(G, nodes=None):
         return {}
     if nodes in G:
         result = algorithms.single_generalized_degree(G, nodes)
-        return G.vector_to_nodemap(result)
+        return VectorMap(result)
     mask = G.list_to_mask(nodes)
     result = algorithms.generalized_degree(G, mask=mask)
     return G.matrix_to_vectornodemap(result)
-- 
2.43.0


From d10cb3681338a2d7ed19e0d2bcabbd65afaff5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 39/78] fix: scalar reductions without the diagonal raised
 AttributeError after L- and U- were computed

---
 graphblas_algorithms/classes/_caching.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/classes/_caching.py b/graphblas_algorithms/classes/_caching.py
index 3074bed..d7c6c5c 100644
--- a/graphblas_algorithms/classes/_caching.py
+++ b/graphblas_algorithms/classes/_caching.py
@@ -123,9 +123,10 @@ def get_reduce_to_scalar(key, opname):
                     and opclass in {"BinaryOp", "Monoid"}
                     and G.get_property("has_self_edges")
                 ):
-                    return op_(
-                        cache["L-"].reduce(op_)._as_vector() | cache["U-"].reduce(op_)._as_vector()
-                    )[0].new(name=key)
+                    cache[key] = op_(
+                        cache["L-"].reduce_scalar(op_).new()._as_vector()
+                        | cache["U-"].reduce_scalar(op_).new()._as_vector()
+                    ).new()[0].new(name=key)
                 elif not G.get_property("has_self_edges"):
                     cache[key] = G.get_property(f"{keybase}+")
                 else:
-- 
2.43.0


From 8c02f16e116646e604df2bf3ccbe9a7a3007dc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 40/78] fix: chunked square_clustering of no nodes raised
 AttributeError

---
 graphblas_algorithms/nxapi/cluster.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index 1ed1695..a694e51 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -90,6 +90,9 @@ def _square_clustering_split(G, node_ids=None, *, chunksize):
             result = res
         else:
             result << monoid.any(result | res)
+    if result is None:
+        # There were no nodes, hence no chunks
+        result = algorithms.square_clustering(G, node_ids)
     return result
 
 
-- 
2.43.0


From 4ffb3274d7cd42cc81d8c4188e420ba01f9d844e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:15 +0000
Subject: [PATCH 41/78] fix: bellman_ford with a target could miss a negative
 self-edge

---
 graphblas_algorithms/algorithms/shortest_paths/weighted.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index 988592d..7596844 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -81,7 +81,7 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
             break
         # Update `d` with values that improved
         d(cur.S) << cur
-        if dst_id is not None and not is_negative:
+        if dst_id is not None and not is_negative and not has_negative_diagonal:
             # Limit exploration if we have a target
             cutoff = cur.get(dst_id, cutoff)
     else:
@@ -264,7 +264,7 @@ def bellman_ford_path(G, source, target):
             break
         # Update `d` with values that improved
         d(cur.S) << cur
-        if not is_negative:
+        if not is_negative and not has_negative_diagonal:
             # Limit exploration if we have a target
             cutoff = cur.get(dst_id, cutoff)
 
-- 
2.43.0


From 404f2d3d8a1e9403cd5a21f11ed88f6305824b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 42/78] fix: total_degrees+ says nothing about self-edges of a
 directed graph

---
 graphblas_algorithms/classes/digraph.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/graphblas_algorithms/classes/digraph.py b/graphblas_algorithms/classes/digraph.py
index 1e9fe5f..b9e15a8 100644
--- a/graphblas_algorithms/classes/digraph.py
+++ b/graphblas_algorithms/classes/digraph.py
@@ -364,8 +364,6 @@ def has_self_edges(G, mask=None):
             cache["has_self_edges"] = cache["column_degrees-"].reduce().get(0) < A.nvals
         elif "total_degrees-" in cache:
             cache["has_self_edges"] = cache["total_degrees-"].reduce().get(0) < 2 * A.nvals
-        elif "total_degrees+" in cache:
-            cache["has_self_edges"] = cache["total_degrees+"].reduce().get(0) > 2 * A.nvals
         else:
             G.get_property("diag")
     return cache["has_self_edges"]
-- 
2.43.0


From bef1b5b092d1a6c415487e56fc2a52ab76e3fc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:49 +0000
Subject: [PATCH 43/78] fix: to_undirected of edges with two values was not
 symmetric

---
 graphblas_algorithms/classes/digraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphblas_algorithms/classes/digraph.py b/graphblas_algorithms/classes/digraph.py
index b9e15a8..75d0778 100644
--- a/graphblas_algorithms/classes/digraph.py
+++ b/graphblas_algorithms/classes/digraph.py
@@ -607,6 +607,9 @@ class DiGraph(Graph):
             B = binary.any(A & A.T).new(name=name)
         else:
             B = binary.any(A | A.T).new(name=name)
+        # Edges in both directions may have different values: use one of them for both
+        L = select.tril(B).new()
+        B << binary.any(L | L.T)
         return Graph(B, key_to_id=self._key_to_id)
 
     def reverse(self, copy=True):
-- 
2.43.0


From f9c11f4b80c360c677c7b13f1abef80046e6eb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 44/78] fix: iso_value raised StopIteration for empty
 iso-valued graphs

---
 graphblas_algorithms/classes/graph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/classes/graph.py b/graphblas_algorithms/classes/graph.py
index 0cf6c50..14593a0 100644
--- a/graphblas_algorithms/classes/graph.py
+++ b/graphblas_algorithms/classes/graph.py
@@ -225,7 +225,8 @@ def is_iso(G, mask=None):
         else:
             # SuiteSparse:GraphBLAS. `A` may still be iso-valued even if `A.ss.is_iso` is False.
             # Should we check this or rely on `A.ss.is_iso` b/c it's fast and should usually work?
-            cache["is_iso"] = A.ss.is_iso
+            # An empty Matrix may be iso-valued, but then it has no iso-value.
+            cache["is_iso"] = A.ss.is_iso and A.nvals > 0
     return cache["is_iso"]
 
 
@@ -242,7 +243,7 @@ def get_iso_value(G, mask=None):
 
         # min_val, max_val = G.get_properties('min_element+ max_element+')
         # SuiteSparse:GraphBLAS
-        elif A.ss.is_iso:
+        elif A.ss.is_iso and A.nvals > 0:
             cache["iso_value"] = A.ss.iso_value
             cache["is_iso"] = True
         else:
-- 
2.43.0


From a701f5ca2e7f91192013cc88d3987e9ce66b2000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 45/78] fix: edge_boundary and cut_size counted undirected
 edges between overlapping nbunches twice

---
 graphblas_algorithms/algorithms/boundary.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/algorithms/boundary.py b/graphblas_algorithms/algorithms/boundary.py
index b3f964d..1c30ee0 100644
--- a/graphblas_algorithms/algorithms/boundary.py
+++ b/graphblas_algorithms/algorithms/boundary.py
@@ -1,4 +1,4 @@
-from graphblas import binary
+from graphblas import binary, replace, select
 from graphblas.semiring import any_pair
 
 __all__ = ["edge_boundary", "node_boundary"]
@@ -9,7 +9,8 @@ def edge_boundary(G, nbunch1, nbunch2=None, *, is_weighted=False):
         B = binary.second(nbunch1 & G._A).new(name="boundary")
     else:
         B = binary.pair(nbunch1 & G._A).new(name="boundary")
-    if nbunch2 is None:
+    is_disjoint = nbunch2 is None
+    if is_disjoint:
         # Default nbunch2 is the complement of nbunch1.
         # We get the column_degrees to better handle hypersparse data.
         nbunch2 = G.get_property("column_degrees+", mask=~nbunch1.S)
@@ -17,6 +18,10 @@ def edge_boundary(G, nbunch1, nbunch2=None, *, is_weighted=False):
         B << binary.first(B & nbunch2)
     else:
         B << binary.pair(B & nbunch2)
+    if not is_disjoint and not G.is_directed():
+        # Edges with both ends in both nbunches were found from each end; keep only one
+        repeated = select.tril(binary.pair(B & B.T), -1).new(name="repeated")
+        B(~repeated.S, replace) << B
     return B
 
 
-- 
2.43.0


From e43383d4ea66d33ed22eb6c2e0270392437ed529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 46/78] fix: batch sizes in bytes raised ZeroDivisionError for
 empty graphs

---
 graphblas_algorithms/nxapi/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/_utils.py b/graphblas_algorithms/nxapi/_utils.py
index 0bb9617..39da450 100644
--- a/graphblas_algorithms/nxapi/_utils.py
+++ b/graphblas_algorithms/nxapi/_utils.py
@@ -80,7 +80,7 @@ def normalize_chunksize(chunksize, itemsize=1, N=None):
             )
         number *= scale
         if chunkstring[-1] == "b":
-            number = max(1, number / itemsize)
+            number = max(1, number / max(1, itemsize))  # itemsize is 0 for an empty graph
         rv = int(round(number))
     if rv <= 0 or N is not None and rv >= N:
         return None
-- 
2.43.0


From 23003facc472dea1a38a93c545dc627b86b5844f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 47/78] fix: efficiency of a missing node raised KeyError
 instead of NodeNotFound

---
 graphblas_algorithms/nxapi/efficiency_measures.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/efficiency_measures.py b/graphblas_algorithms/nxapi/efficiency_measures.py
index 06971a2..725cde2 100644
--- a/graphblas_algorithms/nxapi/efficiency_measures.py
+++ b/graphblas_algorithms/nxapi/efficiency_measures.py
@@ -2,8 +2,13 @@ from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.graph import to_undirected_graph
 from graphblas_algorithms.utils import not_implemented_for
 
+from .exception import NodeNotFound
+
 
 @not_implemented_for("directed")
 def efficiency(G, u, v):
     G = to_undirected_graph(G)
-    return algorithms.efficiency(G, u, v)
+    try:
+        return algorithms.efficiency(G, u, v)
+    except KeyError as e:
+        raise NodeNotFound(*e.args) from e
-- 
2.43.0


From 083e8bd60c00c5b07e6558387c694d30c2867acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 48/78] fix: lowest_common_ancestor of a missing node raised
 KeyError instead of NodeNotFound

---
 graphblas_algorithms/nxapi/lowest_common_ancestors.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/lowest_common_ancestors.py b/graphblas_algorithms/nxapi/lowest_common_ancestors.py
index f94e8c2..98359a7 100644
--- a/graphblas_algorithms/nxapi/lowest_common_ancestors.py
+++ b/graphblas_algorithms/nxapi/lowest_common_ancestors.py
@@ -2,10 +2,15 @@ from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.digraph import to_directed_graph
 from graphblas_algorithms.utils import not_implemented_for
 
+from .exception import NodeNotFound
+
 __all__ = ["lowest_common_ancestor"]
 
 
 @not_implemented_for("undirected")
 def lowest_common_ancestor(G, node1, node2, default=None):
     G = to_directed_graph(G)
-    return algorithms.lowest_common_ancestor(G, node1, node2, default=default)
+    try:
+        return algorithms.lowest_common_ancestor(G, node1, node2, default=default)
+    except KeyError as e:
+        raise NodeNotFound(*e.args) from e
-- 
2.43.0


From 4991c378260830aae66b91b8ab0ef6558575b34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 49/78] fix: ego_graph of a missing node raised KeyError
 instead of NodeNotFound

---
 graphblas_algorithms/nxapi/generators/ego.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/graphblas_algorithms/nxapi/generators/ego.py b/graphblas_algorithms/nxapi/generators/ego.py
index e591cb3..0c49c47 100644
--- a/graphblas_algorithms/nxapi/generators/ego.py
+++ b/graphblas_algorithms/nxapi/generators/ego.py
@@ -1,11 +1,15 @@
 from graphblas_algorithms import generators
 from graphblas_algorithms.classes.digraph import to_graph
 
+from ..exception import NodeNotFound
+
 __all__ = ["ego_graph"]
 
 
 def ego_graph(G, n, radius=1, center=True, undirected=False, distance=None):
     G = to_graph(G, weight=distance)
+    if n not in G:
+        raise NodeNotFound(f"Source {n} is not in G")
     return generators.ego_graph(
         G, n, radius=radius, center=center, undirected=undirected, is_weighted=distance is not None
     )
-- 
2.43.0


From 5a62fa3eb3250b85b7a02ee0e55e39a51bb00e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 50/78] fix: assigning a dict to a row of NodeNodeMap took node
 keys for ids

---
 graphblas_algorithms/classes/nodemap.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 922eed6..e7180e2 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -401,10 +401,17 @@ class NodeNodeMap(MutableMapping):
 
     def __setitem__(self, key, val):
         idx = self._key_to_id[key]
-        if isinstance(val, NodeMap):
-            # TODO: check val._key_to_id?
+        if (
+            isinstance(val, NodeMap)
+            and val._key_to_id is self._key_to_id
+            and val._fill_value == self._fill_value
+        ):
             val = val.vector
-        elif isinstance(val, dict):
+        elif isinstance(val, (dict, NodeMap)):
+            key_to_id = self._key_to_id
+            val = {
+                key_to_id[k]: key_to_id[v] if self._values_are_keys else v for k, v in val.items()
+            }
             val = Vector.from_dict(val, self.matrix.dtype, size=self.matrix.ncols)
         else:
             raise TypeError
-- 
2.43.0


From 647f82a308c44da96902f8560ce526f8012f2b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 51/78] fix: keys could not be removed from maps with a fill
 value

---
 graphblas_algorithms/classes/nodemap.py | 42 ++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index e7180e2..39b6899 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -1,6 +1,6 @@
 from collections.abc import MutableMapping
 
-from graphblas import Vector, monoid
+from graphblas import Matrix, Vector, monoid
 
 from . import _utils
 
@@ -16,6 +16,17 @@ class NodeMap(MutableMapping):
         self._fill_value = fill_value
         self._values_are_keys = values_are_keys
 
+    def _store_fill_value(self):
+        """Store the fill value for the other keys so that keys can be removed"""
+        if self._fill_value is None:
+            return
+        v = self.vector
+        dtype = float if isinstance(self._fill_value, float) else v.dtype
+        filled = Vector(dtype, v.size, name=v.name)
+        filled << self._fill_value
+        filled(v.S) << v
+        self.vector, self._fill_value = filled, None
+
     id_to_key = property(_utils.id_to_key)
     # get_property = _utils.get_property
     # get_properties = _utils.get_properties
@@ -37,7 +48,8 @@ class NodeMap(MutableMapping):
     # Requirements for MutableMapping
     def __delitem__(self, key):
         idx = self._key_to_id[key]
-        if self._fill_value is None and idx not in self.vector:
+        self._store_fill_value()
+        if idx not in self.vector:
             raise KeyError(key)
         del self.vector[idx]
 
@@ -87,8 +99,8 @@ class NodeMap(MutableMapping):
         return super().__eq__(other)
 
     def clear(self):
-        self.vector.clear()
-        self._fill_value = None
+        v = self.vector
+        self.vector, self._fill_value = Vector(v.dtype, v.size, name=v.name), None
 
     def get(self, key, default=None):
         if (idx := self._key_to_id.get(key)) is None:
@@ -107,6 +119,7 @@ class NodeMap(MutableMapping):
     # pop
 
     def popitem(self):
+        self._store_fill_value()
         v = self.vector
         try:
             idx, value = next(v.ss.iteritems())
@@ -345,6 +358,17 @@ class NodeNodeMap(MutableMapping):
             self._rows(self._rows.S) << 1  # Make iso-valued
         return self._rows
 
+    def _store_fill_value(self):
+        """Store the fill value for the other keys so that keys can be removed"""
+        if self._fill_value is None:
+            return
+        A = self.matrix
+        dtype = float if isinstance(self._fill_value, float) else A.dtype
+        filled = Matrix(dtype, A.nrows, A.ncols, name=A.name)
+        filled << self._fill_value
+        filled(A.S) << A
+        self.matrix, self._rows, self._fill_value = filled, None, None
+
     id_to_key = property(_utils.id_to_key)
     # get_property = _utils.get_property
     # get_properties = _utils.get_properties
@@ -366,7 +390,8 @@ class NodeNodeMap(MutableMapping):
     # Requirements for MutableMapping
     def __delitem__(self, key):
         idx = self._key_to_id[key]
-        if self._fill_value is None and idx not in self._get_rows():
+        self._store_fill_value()
+        if idx not in self._get_rows():
             raise KeyError(key)
         # Forget `_rows` meanwhile, so it is never stale if we get interrupted
         rows, self._rows = self._rows, None
@@ -443,9 +468,9 @@ class NodeNodeMap(MutableMapping):
         return super().__eq__(other)
 
     def clear(self):
-        self._rows = None
-        self.matrix.clear()
-        self._fill_value = None
+        A = self.matrix
+        A = Matrix(A.dtype, A.nrows, A.ncols, name=A.name)
+        self.matrix, self._rows, self._fill_value = A, None, None
 
     def get(self, key, default=None):
         if (idx := self._key_to_id.get(key)) is None:
@@ -463,6 +488,7 @@ class NodeNodeMap(MutableMapping):
     # pop
 
     def popitem(self):
+        self._store_fill_value()
         rows = self._get_rows()
         try:
             idx = next(rows.ss.iterkeys())
-- 
2.43.0


From 9ee25666434d25f779535ba0cce420c137d80458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 52/78] fix: equal maps compared unequal when stored
 differently

---
 graphblas_algorithms/classes/nodemap.py | 41 +++++++++++++++----------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 39b6899..54173ab 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -89,13 +89,15 @@ class NodeMap(MutableMapping):
         return self._fill_value is not None or idx in self.vector
 
     def __eq__(self, other):
-        if isinstance(other, NodeMap):
-            return (
-                self._values_are_keys == other._values_are_keys
-                and self._fill_value == other._fill_value
-                and self.vector.isequal(other.vector)
-                and self._key_to_id == other._key_to_id
-            )
+        if (
+            isinstance(other, NodeMap)
+            and self._values_are_keys == other._values_are_keys
+            and self._fill_value == other._fill_value
+            and self.vector.isequal(other.vector)
+            and self._key_to_id == other._key_to_id
+        ):
+            return True
+        # The same items may be stored differently
         return super().__eq__(other)
 
     def clear(self):
@@ -303,8 +305,13 @@ class VectorNodeMap(MutableMapping):
         return idx in self._get_rows()
 
     def __eq__(self, other):
-        if isinstance(other, VectorNodeMap):
-            return self.matrix.isequal(other.matrix) and self._key_to_id == other._key_to_id
+        if (
+            isinstance(other, VectorNodeMap)
+            and self.matrix.isequal(other.matrix)
+            and self._key_to_id == other._key_to_id
+        ):
+            return True
+        # The same items may be stored differently
         return super().__eq__(other)
 
     def clear(self):
@@ -458,13 +465,15 @@ class NodeNodeMap(MutableMapping):
         return self._fill_value is not None or idx in self._get_rows()
 
     def __eq__(self, other):
-        if isinstance(other, NodeNodeMap):
-            return (
-                self._fill_value == other._fill_value
-                and self._values_are_keys == other._values_are_keys
-                and self.matrix.isequal(other.matrix)
-                and self._key_to_id == other._key_to_id
-            )
+        if (
+            isinstance(other, NodeNodeMap)
+            and self._fill_value == other._fill_value
+            and self._values_are_keys == other._values_are_keys
+            and self.matrix.isequal(other.matrix)
+            and self._key_to_id == other._key_to_id
+        ):
+            return True
+        # The same items may be stored differently
         return super().__eq__(other)
 
     def clear(self):
-- 
2.43.0


From 918c209296e6124e8ca8c64291309b3dfc7f18e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 53/78] fix: comparing node sets of different graphs ignored
 how nodes are numbered

---
 graphblas_algorithms/classes/nodeset.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/classes/nodeset.py b/graphblas_algorithms/classes/nodeset.py
index f6c6674..1d43b5d 100644
--- a/graphblas_algorithms/classes/nodeset.py
+++ b/graphblas_algorithms/classes/nodeset.py
@@ -57,14 +57,13 @@ class NodeSet(MutableSet):
 
     # Override other MutableSet methods
     def __eq__(self, other):
-        if isinstance(other, NodeSet):
+        if isinstance(other, NodeSet) and self._key_to_id == other._key_to_id:
             a = self.vector
             b = other.vector
             return (
                 a.size == b.size
                 and (nvals := a.nvals) == b.nvals
                 and plus_pair(a @ b).get(0) == nvals
-                and self._key_to_id == other._key_to_id
             )
         return super().__eq__(other)
 
@@ -77,7 +76,7 @@ class NodeSet(MutableSet):
         self.vector.clear()
 
     def isdisjoint(self, other):
-        if isinstance(other, NodeSet):
+        if isinstance(other, NodeSet) and self._key_to_id == other._key_to_id:
             return not any_pair[bool](self.vector @ other.vector)
         return super().isdisjoint(other)
 
-- 
2.43.0


From cb49a4ab0ae446d883be23fb928d74bf701907cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 54/78] fix: negative keys of VectorMap counted from the end

---
 graphblas_algorithms/classes/nodemap.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 54173ab..5509cc2 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -1,4 +1,5 @@
 from collections.abc import MutableMapping
+from numbers import Integral
 
 from graphblas import Matrix, Vector, monoid
 
@@ -154,14 +155,14 @@ class VectorMap(MutableMapping):
 
     # Requirements for MutableMapping
     def __delitem__(self, key):
-        if key not in self.vector:
+        if key not in self:
             raise KeyError(key)
         del self.vector[key]
 
     def __getitem__(self, key):
-        if (rv := self.vector.get(key)) is None:
+        if key not in self:
             raise KeyError(key)
-        return rv
+        return self.vector.get(key)
 
     def __iter__(self):
         # Slow if we iterate over one; fast if we iterate over all
@@ -171,11 +172,14 @@ class VectorMap(MutableMapping):
         return self.vector.nvals
 
     def __setitem__(self, key, val):
+        if key < 0:
+            raise IndexError(key)
         self.vector[key] = val
 
     # Override other MutableMapping methods
     def __contains__(self, key):
-        return key in self.vector
+        # Vector lets negative indices count from the end
+        return isinstance(key, Integral) and 0 <= key < self.vector.size and key in self.vector
 
     def __eq__(self, other):
         if isinstance(other, VectorMap):
@@ -192,7 +196,7 @@ class VectorMap(MutableMapping):
         self.vector.clear()
 
     def get(self, key, default=None):
-        return self.vector.get(key, default)
+        return self.vector.get(key) if key in self else default
 
     # items
     # keys
@@ -208,9 +212,9 @@ class VectorMap(MutableMapping):
         return idx, value
 
     def setdefault(self, key, default=None):
-        if (value := self.vector.get(key)) is not None:
-            return value
-        self.vector[key] = default
+        if key in self:
+            return self.vector.get(key)
+        self[key] = default
         return default
 
     # update
-- 
2.43.0


From fde13d43cdca74b75ba4b17573ba1899670c5f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:18 +0000
Subject: [PATCH 55/78] fix: matrix_to_dicts failed for a matrix without
 entries

---
 graphblas_algorithms/classes/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/classes/_utils.py b/graphblas_algorithms/classes/_utils.py
index ecf66d9..4a3d48b 100644
--- a/graphblas_algorithms/classes/_utils.py
+++ b/graphblas_algorithms/classes/_utils.py
@@ -198,7 +198,7 @@ def matrix_to_dicts(self, A, *, use_row_index=False, use_column_index=False, val
     id_to_key = self.id_to_key
     if values_are_keys:
         values = [id_to_key[val] for val in values]
-    it = zip(rows, np.lib.stride_tricks.sliding_window_view(indptr, 2).tolist(), strict=True)
+    it = zip(rows, zip(indptr[:-1].tolist(), indptr[1:].tolist(), strict=True), strict=True)
     if use_row_index and use_column_index:
         return {
             row: dict(zip(col_indices[start:stop], values[start:stop], strict=True))
-- 
2.43.0


From b55d4eaa41e4bcd10b4dfb4102253f553e52cdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:18 +0000
Subject: [PATCH 56/78] fix: matrix_to_dicts mixed up row and column options
 for a transposed matrix

---
 graphblas_algorithms/classes/_utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/graphblas_algorithms/classes/_utils.py b/graphblas_algorithms/classes/_utils.py
index 4a3d48b..d7a0f9e 100644
--- a/graphblas_algorithms/classes/_utils.py
+++ b/graphblas_algorithms/classes/_utils.py
@@ -188,7 +188,6 @@ def matrix_to_dicts(self, A, *, use_row_index=False, use_column_index=False, val
         d = A.T.ss.export("hypercsc")
         rows = d["cols"].tolist()
         col_indices = d["row_indices"].tolist()
-        use_row_index, use_column_index = use_column_index, use_row_index
     else:
         d = A.ss.export("hypercsr")
         rows = d["rows"].tolist()
-- 
2.43.0


From 42fdd8b532fdd454561efc41a37eff3020f6603f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:36 +0000
Subject: [PATCH 57/78] fix: matrix_to_dicts failed when all values are the
 same

---
 graphblas_algorithms/classes/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/classes/_utils.py b/graphblas_algorithms/classes/_utils.py
index d7a0f9e..904df2f 100644
--- a/graphblas_algorithms/classes/_utils.py
+++ b/graphblas_algorithms/classes/_utils.py
@@ -194,6 +194,8 @@ def matrix_to_dicts(self, A, *, use_row_index=False, use_column_index=False, val
         col_indices = d["col_indices"].tolist()
     indptr = d["indptr"]
     values = d["values"].tolist()
+    if d.get("is_iso", False):
+        values *= len(col_indices)
     id_to_key = self.id_to_key
     if values_are_keys:
         values = [id_to_key[val] for val in values]
-- 
2.43.0


From 87f79651c141516f98a15c2d56a1f6ac559cfd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:11 +0000
Subject: [PATCH 58/78] fix: bellman_ford_path never returned when the parents
 of a path formed a cycle

---
 graphblas_algorithms/algorithms/shortest_paths/weighted.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index 7596844..92d3721 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -208,6 +208,9 @@ def _reconstruct_path_from_parents(G, parents, src, dst):
     while cur != src:
         cur = d[cur]
         path.append(cur)
+        if len(path) > len(d):
+            # Parents of a shortest path never form a cycle
+            raise Unbounded("Negative cycle detected.")
     return G.list_to_keys(reversed(path))
 
 
-- 
2.43.0


From b70c2cfe53604f6a94c046b1eabc8da8f9238372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:19 +0000
Subject: [PATCH 59/78] fix: no node is at a negative distance

---
 .../algorithms/traversal/breadth_first_search.py                | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/algorithms/traversal/breadth_first_search.py b/graphblas_algorithms/algorithms/traversal/breadth_first_search.py
index a761134..11ca8d0 100644
--- a/graphblas_algorithms/algorithms/traversal/breadth_first_search.py
+++ b/graphblas_algorithms/algorithms/traversal/breadth_first_search.py
@@ -32,6 +32,8 @@ def descendants_at_distance(G, source, distance):
     A = G.get_property("offdiag")
     n = A.nrows
     q = Vector(bool, size=n, name=f"descendants_at_distance_{distance}")
+    if distance < 0:
+        return q
     q[index] = True
     if distance == 0:
         return q
-- 
2.43.0


From daa95f36ddc7ed48fbbd72f8ff589dac3f0f5034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:52 +0000
Subject: [PATCH 60/78] fix: non-integer cutoff with integer weights, and
 infinite cutoff

---
 .../algorithms/shortest_paths/weighted.py                 | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/graphblas_algorithms/algorithms/shortest_paths/weighted.py b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
index 92d3721..3acedb6 100644
--- a/graphblas_algorithms/algorithms/shortest_paths/weighted.py
+++ b/graphblas_algorithms/algorithms/shortest_paths/weighted.py
@@ -1,3 +1,5 @@
+import math
+
 import numpy as np
 from graphblas import Matrix, Vector, binary, indexunary, monoid, replace, select, unary
 from graphblas.semiring import any_pair, min_plus
@@ -21,6 +23,12 @@ def _bellman_ford_path_length(G, source, target=None, *, cutoff=None, name):
         dst_id = G._key_to_id[target]
     else:
         dst_id = None
+    if cutoff is not None:
+        if cutoff == math.inf:
+            cutoff = None
+        elif G._A.dtype.np_type.kind != "f":
+            # `select.valuele` needs the cutoff to be of the same kind as the weights
+            cutoff = math.floor(cutoff)
 
     if G.get_property("is_iso"):
         # If the edges are iso-valued (and positive), then we can simply do level BFS
-- 
2.43.0


From d2632ffd89aba6d1cf51f1bd80ac7fa2df65199d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:52 +0000
Subject: [PATCH 61/78] fix: BFS cutoff that is not an integer

---
 graphblas_algorithms/algorithms/_bfs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/_bfs.py b/graphblas_algorithms/algorithms/_bfs.py
index 8189aae..ddfd791 100644
--- a/graphblas_algorithms/algorithms/_bfs.py
+++ b/graphblas_algorithms/algorithms/_bfs.py
@@ -1,5 +1,7 @@
 """BFS routines used by other algorithms"""
 
+import math
+
 import numpy as np
 from graphblas import Matrix, Vector, binary, indexunary, replace, semiring, unary
 from graphblas.semiring import any_pair
@@ -8,7 +10,7 @@ from graphblas.semiring import any_pair
 def _get_cutoff(n, cutoff):
     if cutoff is None or cutoff >= n:
         return n  # Everything
-    return cutoff + 1  # Inclusive
+    return math.ceil(cutoff) + 1  # Inclusive
 
 
 # Push-pull optimization is possible, but annoying to implement
-- 
2.43.0


From 709b818b5622ffaf7cf9ee8b92c7f0b3ad080704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:23 +0000
Subject: [PATCH 62/78] fix: edge_boundary(data=<name>) yields the values of
 the attribute, as NetworkX does

---
 graphblas_algorithms/nxapi/boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/boundary.py b/graphblas_algorithms/nxapi/boundary.py
index 662cfe4..a49d120 100644
--- a/graphblas_algorithms/nxapi/boundary.py
+++ b/graphblas_algorithms/nxapi/boundary.py
@@ -28,7 +28,7 @@ def edge_boundary(G, nbunch1, nbunch2=None, data=False, keys=False, default=None
             (id_to_key[row] for row in rows),
             (id_to_key[col] for col in cols),
             # Unsure about this; data argument may mean *all* edge attributes
-            ({weight: val} for val in vals),
+            ({weight: val} for val in vals) if data is True else vals,
             strict=True,
         )
     else:
-- 
2.43.0


From 61ae3d870fdfbb6b386a9b02f3c47534a6347cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:14 +0000
Subject: [PATCH 63/78] fix: graphs without edges are regular, and 0-regular

---
 graphblas_algorithms/algorithms/regular.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/algorithms/regular.py b/graphblas_algorithms/algorithms/regular.py
index cf3a057..3fa662c 100644
--- a/graphblas_algorithms/algorithms/regular.py
+++ b/graphblas_algorithms/algorithms/regular.py
@@ -7,12 +7,12 @@ def is_regular(G):
     if not G.is_directed():
         degrees = G.get_property("degrees+")
         if degrees.nvals != degrees.size:
-            return False
+            return degrees.nvals == 0  # every degree is 0
         d = degrees.get(0)
         return (degrees == d).reduce(monoid.land).get(True)
     row_degrees = G.get_property("row_degrees+")
     if row_degrees.nvals != row_degrees.size:
-        return False
+        return row_degrees.nvals == 0  # every degree is 0
     column_degrees = G.get_property("column_degrees+")
     if column_degrees.nvals != column_degrees.size:
         return False
@@ -26,5 +26,5 @@ def is_regular(G):
 def is_k_regular(G, k):
     degrees = G.get_property("degrees+")
     if degrees.nvals != degrees.size:
-        return False
+        return k == 0 and degrees.nvals == 0
     return (degrees == k).reduce(monoid.land).get(True)
-- 
2.43.0


From 73fd37e3c39c105412d58f6cf9d1e8c50b8292fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:53 +0000
Subject: [PATCH 64/78] fix: weighted clustering of graphs without edges raised
 EmptyObject

---
 graphblas_algorithms/algorithms/cluster.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/graphblas_algorithms/algorithms/cluster.py b/graphblas_algorithms/algorithms/cluster.py
index e234ba4..5a20aad 100644
--- a/graphblas_algorithms/algorithms/cluster.py
+++ b/graphblas_algorithms/algorithms/cluster.py
@@ -29,7 +29,7 @@ def single_triangle(G, node, *, weighted=False):
     if G.get_property("has_self_edges"):
         del r[index]  # Ignore self-edges
     if weighted:
-        maxval = G.get_property("max_element-")
+        maxval = G.get_property("max_element-").get(1)  # no value if there are no edges
         L = unary.cbrt(L / maxval)
         r = unary.cbrt(r / maxval)
         semiring = plus_times
@@ -46,7 +46,7 @@ def triangles(G, *, weighted=False, mask=None):
     # Can we apply the mask earlier in the computation?
     L, U = G.get_properties("L- U-")
     if weighted:
-        maxval = G.get_property("max_element-")
+        maxval = G.get_property("max_element-").get(1)  # no value if there are no edges
         L = unary.cbrt(L / maxval)
         U = unary.cbrt(U / maxval)
         semiring = plus_times
@@ -106,7 +106,7 @@ def clustering_directed(G, *, weighted=False, mask=None):
     else:
         AT = G.get_property("AT")
     if weighted:
-        maxval = G.get_property("max_element-")
+        maxval = G.get_property("max_element-").get(1)  # no value if there are no edges
         A = unary.cbrt(A / maxval)
         AT = unary.cbrt(AT / maxval)
         semiring = plus_times
@@ -155,7 +155,7 @@ def single_clustering_directed(G, node, *, weighted=False):
     A = G.get_property("offdiag")
     index = G._key_to_id[node]
     if weighted:
-        maxval = G.get_property("max_element-")
+        maxval = G.get_property("max_element-").get(1)  # no value if there are no edges
         A = unary.cbrt(A / maxval)
         semiring = plus_times
     else:
-- 
2.43.0


From 969f3444bc23e87adf7c8f54a96a8a093691ef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:32 +0000
Subject: [PATCH 65/78] fix: maps of vectors compared unequal to equal maps
 stored differently, and equal to maps with a fill value

---
 graphblas_algorithms/classes/nodemap.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/graphblas_algorithms/classes/nodemap.py b/graphblas_algorithms/classes/nodemap.py
index 5509cc2..f34d8cb 100644
--- a/graphblas_algorithms/classes/nodemap.py
+++ b/graphblas_algorithms/classes/nodemap.py
@@ -182,14 +182,11 @@ class VectorMap(MutableMapping):
         return isinstance(key, Integral) and 0 <= key < self.vector.size and key in self.vector
 
     def __eq__(self, other):
-        if isinstance(other, VectorMap):
-            return self.vector.isequal(other.vector)
+        if isinstance(other, VectorMap) and self.vector.isequal(other.vector):
+            return True
         if isinstance(other, Vector):
             return self.vector.isequal(other)
-        if isinstance(other, NodeMap):
-            return self.vector.isequal(other.vector) and other._key_to_id == {
-                i: i for i in range(self.vector.size)
-            }
+        # The same items may be stored differently
         return super().__eq__(other)
 
     def clear(self):
-- 
2.43.0


From 7b49d3bbf576eedd93a4f73a0172708a31e48c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:35 +0000
Subject: [PATCH 66/78] fix: adjacency and laplacian matrices of NetworkX
 multigraphs ignored parallel edges with weight=None

---
 graphblas_algorithms/nxapi/linalg/graphmatrix.py     | 3 ++-
 graphblas_algorithms/nxapi/linalg/laplacianmatrix.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/graphblas_algorithms/nxapi/linalg/graphmatrix.py b/graphblas_algorithms/nxapi/linalg/graphmatrix.py
index 0b3e7d9..5c109f7 100644
--- a/graphblas_algorithms/nxapi/linalg/graphmatrix.py
+++ b/graphblas_algorithms/nxapi/linalg/graphmatrix.py
@@ -5,5 +5,6 @@ __all__ = ["adjacency_matrix"]
 
 
 def adjacency_matrix(G, nodelist=None, dtype=None, weight="weight"):
+    is_weighted = weight is not None or G.is_multigraph()  # count parallel edges
     G = to_graph(G, weight=weight, dtype=dtype)
-    return linalg.adjacency_matrix(G, nodelist, dtype, is_weighted=weight is not None)
+    return linalg.adjacency_matrix(G, nodelist, dtype, is_weighted=is_weighted)
diff --git a/graphblas_algorithms/nxapi/linalg/laplacianmatrix.py b/graphblas_algorithms/nxapi/linalg/laplacianmatrix.py
index 752ca1e..c518972 100644
--- a/graphblas_algorithms/nxapi/linalg/laplacianmatrix.py
+++ b/graphblas_algorithms/nxapi/linalg/laplacianmatrix.py
@@ -5,10 +5,12 @@ __all__ = ["laplacian_matrix", "normalized_laplacian_matrix"]
 
 
 def laplacian_matrix(G, nodelist=None, weight="weight"):
+    is_weighted = weight is not None or G.is_multigraph()  # count parallel edges
     G = to_graph(G, weight=weight)
-    return linalg.laplacian_matrix(G, nodelist, is_weighted=weight is not None)
+    return linalg.laplacian_matrix(G, nodelist, is_weighted=is_weighted)
 
 
 def normalized_laplacian_matrix(G, nodelist=None, weight="weight"):
+    is_weighted = weight is not None or G.is_multigraph()  # count parallel edges
     G = to_graph(G, weight=weight)
-    return linalg.normalized_laplacian_matrix(G, nodelist, is_weighted=weight is not None)
+    return linalg.normalized_laplacian_matrix(G, nodelist, is_weighted=is_weighted)
-- 
2.43.0


From bde32e44090a829b70675161d8f0dc12d243caf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:18 +0000
Subject: [PATCH 67/78] fix: binary operators combined a directed and an
 undirected graph into a wrong graph

---
 graphblas_algorithms/algorithms/operators/binary.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/graphblas_algorithms/algorithms/operators/binary.py b/graphblas_algorithms/algorithms/operators/binary.py
index b2e5b3a..1e2e038 100644
--- a/graphblas_algorithms/algorithms/operators/binary.py
+++ b/graphblas_algorithms/algorithms/operators/binary.py
@@ -15,6 +15,8 @@ __all__ = [
 
 
 def union(G, H, rename=(), *, name="union"):
+    if G.is_directed() != H.is_directed():
+        raise GraphBlasAlgorithmException("All graphs must be directed or undirected.")
     if G.is_multigraph() != H.is_multigraph():
         raise GraphBlasAlgorithmException("All graphs must be graphs or multigraphs.")
     if G.is_multigraph():
@@ -45,6 +47,8 @@ def union(G, H, rename=(), *, name="union"):
 
 
 def disjoint_union(G, H, *, name="disjoint_union"):
+    if G.is_directed() != H.is_directed():
+        raise GraphBlasAlgorithmException("All graphs must be directed or undirected.")
     if G.is_multigraph() != H.is_multigraph():
         raise GraphBlasAlgorithmException("All graphs must be graphs or multigraphs.")
     if G.is_multigraph():
@@ -58,6 +62,8 @@ def disjoint_union(G, H, *, name="disjoint_union"):
 
 
 def intersection(G, H, *, name="intersection"):
+    if G.is_directed() != H.is_directed():
+        raise GraphBlasAlgorithmException("All graphs must be directed or undirected.")
     if G.is_multigraph() != H.is_multigraph():
         raise GraphBlasAlgorithmException("All graphs must be graphs or multigraphs.")
     if G.is_multigraph():
@@ -111,6 +117,8 @@ def symmetric_difference(G, H, *, name="symmetric_difference"):
 
 
 def compose(G, H, *, name="compose"):
+    if G.is_directed() != H.is_directed():
+        raise GraphBlasAlgorithmException("All graphs must be directed or undirected.")
     if G.is_multigraph() != H.is_multigraph():
         raise GraphBlasAlgorithmException("All graphs must be graphs or multigraphs.")
     if G.is_multigraph():
-- 
2.43.0


From 1d5a3d4ffcced6e1854d6b5d8fed63f5b928cde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:19 +0000
Subject: [PATCH 68/78] fix: difference of an undirected and a directed graph
 was not symmetric

---
 graphblas_algorithms/algorithms/operators/binary.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/algorithms/operators/binary.py b/graphblas_algorithms/algorithms/operators/binary.py
index 1e2e038..6cb851b 100644
--- a/graphblas_algorithms/algorithms/operators/binary.py
+++ b/graphblas_algorithms/algorithms/operators/binary.py
@@ -92,7 +92,12 @@ def difference(G, H, *, name="difference"):
         keys = sorted(G._key_to_id, key=G._key_to_id.__getitem__)
         ids = H.list_to_ids(keys)
         B = H._A[ids, ids].new()
-    C = unary.one(A).new(mask=~B.S, name=name)
+    if G.is_directed() or not H.is_directed():
+        C = unary.one(A).new(mask=~B.S, name=name)
+    else:
+        # Compare each undirected edge once, in the direction in which it is iterated
+        C = unary.one(G.get_property("U+")).new(mask=~B.S, name=name)
+        C << binary.any(C | C.T)
     return type(G)(C, key_to_id=G._key_to_id)
 
 
-- 
2.43.0


From 9f85692fa27ec71c694a3efc97fc070359483ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:19 +0000
Subject: [PATCH 69/78] fix: reverse with copy=False raised TypeError

---
 graphblas_algorithms/classes/digraph.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/graphblas_algorithms/classes/digraph.py b/graphblas_algorithms/classes/digraph.py
index 75d0778..a4927e2 100644
--- a/graphblas_algorithms/classes/digraph.py
+++ b/graphblas_algorithms/classes/digraph.py
@@ -614,9 +614,7 @@ class DiGraph(Graph):
 
     def reverse(self, copy=True):
         # We could even reuse many of the cached values
-        A = self._A.T  # This probably mostly works, but does not yet support assignment
-        if copy:
-            A = A.new()
+        A = self._A.T.new()  # Views are not yet supported, so this copies even if copy=False
         rv = type(self)(A, key_to_id=self._key_to_id)
         rv.graph.update(deepcopy(self.graph))
         return rv
-- 
2.43.0


From 487580f67d6e1c25020a799177dfb1cb51bb97a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:19 +0000
Subject: [PATCH 70/78] fix: empty mappings of nodes to values raised
 ValueError

---
 graphblas_algorithms/classes/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphblas_algorithms/classes/_utils.py b/graphblas_algorithms/classes/_utils.py
index 904df2f..e6ebf4a 100644
--- a/graphblas_algorithms/classes/_utils.py
+++ b/graphblas_algorithms/classes/_utils.py
@@ -60,6 +60,8 @@ def dict_to_vector(self, d, *, size=None, dtype=None, name=None):
         return None
     if size is None:
         size = len(self)
+    if not d:
+        return Vector(float if dtype is None else dtype, size, name=name)
     key_to_id = self._key_to_id
     indices, values = zip(*((key_to_id[key], val) for key, val in d.items()), strict=True)
     return Vector.from_coo(indices, values, size=size, dtype=dtype, name=name)
-- 
2.43.0


From 5e45bf20e9cc3f35d39ef87c8484d9b667f6cb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:19 +0000
Subject: [PATCH 71/78] fix: pagerank and google_matrix raised KeyError for
 values of nodes not in the graph

---
 graphblas_algorithms/classes/_utils.py         |  4 +++-
 .../nxapi/link_analysis/pagerank_alg.py        | 18 +++++++++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/graphblas_algorithms/classes/_utils.py b/graphblas_algorithms/classes/_utils.py
index e6ebf4a..dcf4eec 100644
--- a/graphblas_algorithms/classes/_utils.py
+++ b/graphblas_algorithms/classes/_utils.py
@@ -55,11 +55,13 @@ def get_properties(self, names, *, mask=None):
     return [results[name] for name in names]
 
 
-def dict_to_vector(self, d, *, size=None, dtype=None, name=None):
+def dict_to_vector(self, d, *, ignore_extra=False, size=None, dtype=None, name=None):
     if d is None:
         return None
     if size is None:
         size = len(self)
+    if ignore_extra:
+        d = {key: val for key, val in d.items() if key in self._key_to_id}
     if not d:
         return Vector(float if dtype is None else dtype, size, name=name)
     key_to_id = self._key_to_id
diff --git a/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py b/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py
index 22e977e..4dfcc8f 100644
--- a/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py
+++ b/graphblas_algorithms/nxapi/link_analysis/pagerank_alg.py
@@ -21,11 +21,15 @@ def pagerank(
     if N == 0:
         return {}
     # We'll normalize initial, personalization, and dangling vectors later
-    x = G.dict_to_vector(nstart, dtype=float, name="nstart")
-    p = G.dict_to_vector(personalization, dtype=float, name="personalization")
+    x = G.dict_to_vector(nstart, ignore_extra=True, dtype=float, name="nstart")
+    p = G.dict_to_vector(
+        personalization, ignore_extra=True, dtype=float, name="personalization"
+    )
     row_degrees = G.get_property("plus_rowwise+")  # XXX: What about self-edges?
     if dangling is not None and row_degrees.nvals < N:
-        dangling_weights = G.dict_to_vector(dangling, dtype=float, name="dangling")
+        dangling_weights = G.dict_to_vector(
+            dangling, ignore_extra=True, dtype=float, name="dangling"
+        )
     else:
         dangling_weights = None
     try:
@@ -49,9 +53,13 @@ def google_matrix(
     G, alpha=0.85, personalization=None, nodelist=None, weight="weight", dangling=None
 ):
     G = to_graph(G, weight=weight, dtype=float)
-    p = G.dict_to_vector(personalization, dtype=float, name="personalization")
+    p = G.dict_to_vector(
+        personalization, ignore_extra=True, dtype=float, name="personalization"
+    )
     if dangling is not None and G.get_property("row_degrees+").nvals < len(G):
-        dangling_weights = G.dict_to_vector(dangling, dtype=float, name="dangling")
+        dangling_weights = G.dict_to_vector(
+            dangling, ignore_extra=True, dtype=float, name="dangling"
+        )
     else:
         dangling_weights = None
     return algorithms.google_matrix(
-- 
2.43.0


From 5f24a20aa736fef277c65f8c455e384e49bff7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:19 +0000
Subject: [PATCH 72/78] fix: matrices of missing or repeated nodes, or of no
 nodes, did not raise NetworkXError

---
 graphblas_algorithms/nxapi/_utils.py            | 17 +++++++++++++++++
 .../nxapi/linalg/bethehessianmatrix.py          |  3 +++
 .../nxapi/linalg/graphmatrix.py                 |  3 +++
 .../nxapi/linalg/laplacianmatrix.py             |  4 ++++
 .../nxapi/linalg/modularitymatrix.py            |  4 ++++
 5 files changed, 31 insertions(+)

diff --git a/graphblas_algorithms/nxapi/_utils.py b/graphblas_algorithms/nxapi/_utils.py
index 39da450..a67962c 100644
--- a/graphblas_algorithms/nxapi/_utils.py
+++ b/graphblas_algorithms/nxapi/_utils.py
@@ -1,6 +1,8 @@
 from math import ceil
 from numbers import Number
 
+from .exception import NetworkXError
+
 try:
     from itertools import pairwise  # Added in Python 3.10
 except ImportError:
@@ -33,6 +35,21 @@ BYTES_UNITS = {
 }
 
 
+def check_nodelist(G, nodelist):
+    """Raise as NetworkX does unless ``nodelist`` selects at least one node of G, each once"""
+    if len(G) == 0:
+        raise NetworkXError("Graph has no nodes or edges")
+    if nodelist is None:
+        return
+    if len(nodelist) == 0:
+        raise NetworkXError("nodelist has no nodes")
+    for n in nodelist:
+        if n not in G:
+            raise NetworkXError(f"Node {n} in nodelist is not in G")
+    if len(set(nodelist)) != len(nodelist):
+        raise NetworkXError("nodelist contains duplicates.")
+
+
 def normalize_chunksize(chunksize, itemsize=1, N=None):
     if chunksize is None:
         return None
diff --git a/graphblas_algorithms/nxapi/linalg/bethehessianmatrix.py b/graphblas_algorithms/nxapi/linalg/bethehessianmatrix.py
index 7fa30b4..336e0a8 100644
--- a/graphblas_algorithms/nxapi/linalg/bethehessianmatrix.py
+++ b/graphblas_algorithms/nxapi/linalg/bethehessianmatrix.py
@@ -2,6 +2,8 @@ from graphblas_algorithms import linalg
 from graphblas_algorithms.classes.graph import to_undirected_graph
 from graphblas_algorithms.utils import not_implemented_for
 
+from .._utils import check_nodelist
+
 __all__ = ["bethe_hessian_matrix"]
 
 
@@ -9,4 +11,5 @@ __all__ = ["bethe_hessian_matrix"]
 @not_implemented_for("multigraph")
 def bethe_hessian_matrix(G, r=None, nodelist=None):
     G = to_undirected_graph(G)
+    check_nodelist(G, nodelist)
     return linalg.bethe_hessian_matrix(G, r=r, nodelist=nodelist)
diff --git a/graphblas_algorithms/nxapi/linalg/graphmatrix.py b/graphblas_algorithms/nxapi/linalg/graphmatrix.py
index 5c109f7..66a7c36 100644
--- a/graphblas_algorithms/nxapi/linalg/graphmatrix.py
+++ b/graphblas_algorithms/nxapi/linalg/graphmatrix.py
@@ -1,10 +1,13 @@
 from graphblas_algorithms import linalg
 from graphblas_algorithms.classes.digraph import to_graph
 
+from .._utils import check_nodelist
+
 __all__ = ["adjacency_matrix"]
 
 
 def adjacency_matrix(G, nodelist=None, dtype=None, weight="weight"):
     is_weighted = weight is not None or G.is_multigraph()  # count parallel edges
     G = to_graph(G, weight=weight, dtype=dtype)
+    check_nodelist(G, nodelist)
     return linalg.adjacency_matrix(G, nodelist, dtype, is_weighted=is_weighted)
diff --git a/graphblas_algorithms/nxapi/linalg/laplacianmatrix.py b/graphblas_algorithms/nxapi/linalg/laplacianmatrix.py
index c518972..bb2c90f 100644
--- a/graphblas_algorithms/nxapi/linalg/laplacianmatrix.py
+++ b/graphblas_algorithms/nxapi/linalg/laplacianmatrix.py
@@ -1,16 +1,20 @@
 from graphblas_algorithms import linalg
 from graphblas_algorithms.classes.digraph import to_graph
 
+from .._utils import check_nodelist
+
 __all__ = ["laplacian_matrix", "normalized_laplacian_matrix"]
 
 
 def laplacian_matrix(G, nodelist=None, weight="weight"):
     is_weighted = weight is not None or G.is_multigraph()  # count parallel edges
     G = to_graph(G, weight=weight)
+    check_nodelist(G, nodelist)
     return linalg.laplacian_matrix(G, nodelist, is_weighted=is_weighted)
 
 
 def normalized_laplacian_matrix(G, nodelist=None, weight="weight"):
     is_weighted = weight is not None or G.is_multigraph()  # count parallel edges
     G = to_graph(G, weight=weight)
+    check_nodelist(G, nodelist)
     return linalg.normalized_laplacian_matrix(G, nodelist, is_weighted=is_weighted)
diff --git a/graphblas_algorithms/nxapi/linalg/modularitymatrix.py b/graphblas_algorithms/nxapi/linalg/modularitymatrix.py
index 76e160f..fde0ec1 100644
--- a/graphblas_algorithms/nxapi/linalg/modularitymatrix.py
+++ b/graphblas_algorithms/nxapi/linalg/modularitymatrix.py
@@ -3,6 +3,8 @@ from graphblas_algorithms.classes.digraph import to_directed_graph
 from graphblas_algorithms.classes.graph import to_undirected_graph
 from graphblas_algorithms.utils import not_implemented_for
 
+from .._utils import check_nodelist
+
 __all__ = ["modularity_matrix", "directed_modularity_matrix"]
 
 
@@ -10,6 +12,7 @@ __all__ = ["modularity_matrix", "directed_modularity_matrix"]
 @not_implemented_for("multigraph")
 def modularity_matrix(G, nodelist=None, weight=None):
     G = to_undirected_graph(G, weight=weight)
+    check_nodelist(G, nodelist)
     return linalg.modularity_matrix(G, nodelist, is_weighted=weight is not None)
 
 
@@ -17,4 +20,5 @@ def modularity_matrix(G, nodelist=None, weight=None):
 @not_implemented_for("multigraph")
 def directed_modularity_matrix(G, nodelist=None, weight=None):
     G = to_directed_graph(G, weight=weight)
+    check_nodelist(G, nodelist)
     return linalg.directed_modularity_matrix(G, nodelist, is_weighted=weight is not None)
-- 
2.43.0


From 81b89e8ca75297162c6696e29413e7816c3527ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:19 +0000
Subject: [PATCH 73/78] fix: floyd_warshall_numpy raised KeyError for a
 nodelist with nodes not in the graph

---
 graphblas_algorithms/nxapi/shortest_paths/dense.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphblas_algorithms/nxapi/shortest_paths/dense.py b/graphblas_algorithms/nxapi/shortest_paths/dense.py
index 82c2eed..b15ba72 100644
--- a/graphblas_algorithms/nxapi/shortest_paths/dense.py
+++ b/graphblas_algorithms/nxapi/shortest_paths/dense.py
@@ -26,6 +26,9 @@ def floyd_warshall_numpy(G, nodelist=None, weight="weight"):
     if nodelist is not None:
         if not (len(nodelist) == len(G) == len(set(nodelist))):
             raise NetworkXError("nodelist must contain every node in G with no repeats.")
+        for n in nodelist:
+            if n not in G:
+                raise NetworkXError(f"Node {n} in nodelist is not in G")
         permutation = G.list_to_ids(nodelist)
     else:
         permutation = None
-- 
2.43.0


From 3637428d89737b4dc29c693ced13691a061e330f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:21 +0000
Subject: [PATCH 74/78] fix: symmetric_difference of a directed and an
 undirected graph was wrong

---
 graphblas_algorithms/algorithms/operators/binary.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/graphblas_algorithms/algorithms/operators/binary.py b/graphblas_algorithms/algorithms/operators/binary.py
index 6cb851b..e6b48dc 100644
--- a/graphblas_algorithms/algorithms/operators/binary.py
+++ b/graphblas_algorithms/algorithms/operators/binary.py
@@ -116,6 +116,19 @@ def symmetric_difference(G, H, *, name="symmetric_difference"):
         keys = sorted(G._key_to_id, key=G._key_to_id.__getitem__)
         ids = H.list_to_ids(keys)
         B = H._A[ids, ids].new()
+    if G.is_directed() != H.is_directed():
+        # Compare each undirected edge once, in the direction in which it is iterated
+        if G.is_directed():
+            E, F = A, H.get_property("U+")
+            if B is not H._A:
+                F = F[ids, ids].new()
+        else:
+            E, F = G.get_property("U+"), B
+        C = unary.one(E).new(mask=~B.S, name=name)
+        C << binary.any(C | unary.one(F).new(mask=~A.S))
+        if not G.is_directed():
+            C << binary.any(C | C.T)
+        return type(G)(C, key_to_id=G._key_to_id)
     Mask = binary.pair[bool](A & B).new(name="mask")
     C = binary.pair(A | B, left_default=True, right_default=True).new(mask=~Mask.S, name=name)
     return type(G)(C, key_to_id=G._key_to_id)
-- 
2.43.0


From da698a7c34348e49b0ba8ede71070c5ec80e074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:21 +0000
Subject: [PATCH 75/78] fix: katz_centrality raised KeyError for a beta with
 nodes not in the graph

---
 graphblas_algorithms/nxapi/centrality/katz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/centrality/katz.py b/graphblas_algorithms/nxapi/centrality/katz.py
index 2611a59..6b84263 100644
--- a/graphblas_algorithms/nxapi/centrality/katz.py
+++ b/graphblas_algorithms/nxapi/centrality/katz.py
@@ -27,7 +27,7 @@ def katz_centrality(
     except (TypeError, ValueError):
         try:
             b = G.dict_to_vector(beta, dtype=float, name="beta")
-        except (TypeError, ValueError, AttributeError) as e:
+        except (TypeError, ValueError, AttributeError, KeyError) as e:
             raise NetworkXError(*e.args) from e
     try:
         result = algorithms.katz_centrality(
-- 
2.43.0


From ce7e3c6897bcb5c42d307c65be81a8b360af4887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:09 +0000
Subject: [PATCH 76/78] fix: node selections ignore nodes that are not in the
 graph, as in NetworkX

triangles, clustering, average_clustering, square_clustering, generalized_degree,
reciprocity and volume raised KeyError for them.
---
 graphblas_algorithms/nxapi/_utils.py      | 18 ++++++++++++++++++
 graphblas_algorithms/nxapi/cluster.py     | 12 ++++++------
 graphblas_algorithms/nxapi/cuts.py        |  4 +++-
 graphblas_algorithms/nxapi/reciprocity.py |  3 ++-
 4 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/graphblas_algorithms/nxapi/_utils.py b/graphblas_algorithms/nxapi/_utils.py
index a67962c..7f1b646 100644
--- a/graphblas_algorithms/nxapi/_utils.py
+++ b/graphblas_algorithms/nxapi/_utils.py
@@ -50,6 +50,24 @@ def check_nodelist(G, nodelist):
         raise NetworkXError("nodelist contains duplicates.")
 
 
+def filter_nodes(G, nodes):
+    """The distinct nodes of G among ``nodes``; other nodes are ignored as NetworkX does"""
+    if nodes is None:
+        return None
+    try:
+        nodes = iter(nodes)
+    except TypeError as e:
+        raise NetworkXError("nbunch is not a node or a sequence of nodes.") from e
+    rv = {}
+    for n in nodes:
+        try:
+            if n in G._key_to_id:
+                rv[n] = None
+        except TypeError as e:
+            raise NetworkXError(f"Node {n} in sequence nbunch is not a valid node.") from e
+    return list(rv)
+
+
 def normalize_chunksize(chunksize, itemsize=1, N=None):
     if chunksize is None:
         return None
diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index a694e51..ea7b5c0 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -6,7 +6,7 @@ from graphblas_algorithms.classes.graph import to_undirected_graph
 from graphblas_algorithms.classes.nodemap import VectorMap
 from graphblas_algorithms.utils import not_implemented_for
 
-from ._utils import normalize_chunksize, partition
+from ._utils import filter_nodes, normalize_chunksize, partition
 
 __all__ = [
     "triangles",
@@ -25,7 +25,7 @@ def triangles(G, nodes=None):
         return {}
     if nodes in G:
         return algorithms.single_triangle(G, nodes)
-    mask = G.list_to_mask(nodes)
+    mask = G.list_to_mask(filter_nodes(G, nodes))
     result = algorithms.triangles(G, mask=mask)
     return G.vector_to_nodemap(result, mask=mask, fill_value=0)
 
@@ -50,7 +50,7 @@ def clustering(G, nodes=None, weight=None):
         if G.is_directed():
             return algorithms.single_clustering_directed(G, nodes, weighted=weighted)
         return algorithms.single_clustering(G, nodes, weighted=weighted)
-    mask = G.list_to_mask(nodes)
+    mask = G.list_to_mask(filter_nodes(G, nodes))
     if G.is_directed():
         result = algorithms.clustering_directed(G, weighted=weighted, mask=mask)
     else:
@@ -63,7 +63,7 @@ def average_clustering(G, nodes=None, weight=None, count_zeros=True):
     if len(G) == 0:
         raise ZeroDivisionError
     weighted = weight is not None
-    mask = G.list_to_mask(nodes)
+    mask = G.list_to_mask(filter_nodes(G, nodes))
     if G.is_directed():
         func = algorithms.average_clustering_directed
     else:
@@ -117,7 +117,7 @@ def square_clustering(G, nodes=None, *, chunksize="256 MiB"):
     if nodes in G:
         idx = G._key_to_id[nodes]
         return algorithms.single_square_clustering(G, idx)
-    ids = G.list_to_ids(nodes)
+    ids = G.list_to_ids(filter_nodes(G, nodes))
     if chunksize is None:
         result = algorithms.square_clustering(G, ids)
     else:
@@ -133,6 +133,6 @@ def generalized_degree(G, nodes=None):
     if nodes in G:
         result = algorithms.single_generalized_degree(G, nodes)
         return VectorMap(result)
-    mask = G.list_to_mask(nodes)
+    mask = G.list_to_mask(filter_nodes(G, nodes))
     result = algorithms.generalized_degree(G, mask=mask)
     return G.matrix_to_vectornodemap(result)
diff --git a/graphblas_algorithms/nxapi/cuts.py b/graphblas_algorithms/nxapi/cuts.py
index 643861c..17678e5 100644
--- a/graphblas_algorithms/nxapi/cuts.py
+++ b/graphblas_algorithms/nxapi/cuts.py
@@ -1,6 +1,8 @@
 from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.digraph import to_graph
 
+from ._utils import filter_nodes
+
 __all__ = [
     "cut_size",
     "volume",
@@ -24,7 +26,7 @@ def cut_size(G, S, T=None, weight=None):
 def volume(G, S, weight=None):
     is_multigraph = G.is_multigraph()
     G = to_graph(G, weight=weight)
-    S = G.list_to_vector(S)
+    S = G.list_to_vector(filter_nodes(G, S))
     return algorithms.volume(G, S, weighted=is_multigraph or weight is not None)
 
 
diff --git a/graphblas_algorithms/nxapi/reciprocity.py b/graphblas_algorithms/nxapi/reciprocity.py
index 54192e5..26448fb 100644
--- a/graphblas_algorithms/nxapi/reciprocity.py
+++ b/graphblas_algorithms/nxapi/reciprocity.py
@@ -2,6 +2,7 @@ from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.digraph import to_directed_graph
 from graphblas_algorithms.utils import not_implemented_for
 
+from ._utils import filter_nodes
 from .exception import NetworkXError
 
 __all__ = ["reciprocity", "overall_reciprocity"]
@@ -19,7 +20,7 @@ def reciprocity(G, nodes=None):
         if rv is None:
             raise NetworkXError("Not defined for isolated nodes.")
         return rv
-    mask = G.list_to_mask(nodes)
+    mask = G.list_to_mask(filter_nodes(G, nodes))
     result = algorithms.reciprocity(G, mask=mask)
     return G.vector_to_nodemap(result, mask=mask)
 
-- 
2.43.0


From fc88b62af9709dd3bb7902a8e1faade002cb36c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:09 +0000
Subject: [PATCH 77/78] fix: square_clustering of chosen nodes reports the ones
 that are in no square

---
 graphblas_algorithms/nxapi/cluster.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphblas_algorithms/nxapi/cluster.py b/graphblas_algorithms/nxapi/cluster.py
index ea7b5c0..90e1142 100644
--- a/graphblas_algorithms/nxapi/cluster.py
+++ b/graphblas_algorithms/nxapi/cluster.py
@@ -117,12 +117,13 @@ def square_clustering(G, nodes=None, *, chunksize="256 MiB"):
     if nodes in G:
         idx = G._key_to_id[nodes]
         return algorithms.single_square_clustering(G, idx)
-    ids = G.list_to_ids(filter_nodes(G, nodes))
+    nodes = filter_nodes(G, nodes)
+    ids = G.list_to_ids(nodes)
     if chunksize is None:
         result = algorithms.square_clustering(G, ids)
     else:
         result = _square_clustering_split(G, ids, chunksize=chunksize)
-    return G.vector_to_nodemap(result)
+    return G.vector_to_nodemap(result, mask=G.list_to_mask(nodes), fill_value=0)
 
 
 @not_implemented_for("directed")
-- 
2.43.0


From 6a306eae965df476ffac0c2d9ebc9bb26eb25017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:41 +0000
Subject: [PATCH 78/78] fix: node_expansion raises NetworkXError for a node
 that is not in the graph

---
 graphblas_algorithms/nxapi/cuts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/graphblas_algorithms/nxapi/cuts.py b/graphblas_algorithms/nxapi/cuts.py
index 17678e5..f26b01b 100644
--- a/graphblas_algorithms/nxapi/cuts.py
+++ b/graphblas_algorithms/nxapi/cuts.py
@@ -2,6 +2,7 @@ from graphblas_algorithms import algorithms
 from graphblas_algorithms.classes.digraph import to_graph
 
 from ._utils import filter_nodes
+from .exception import NetworkXError
 
 __all__ = [
     "cut_size",
@@ -66,7 +67,10 @@ def mixing_expansion(G, S, T=None, weight=None):
 
 def node_expansion(G, S):
     G = to_graph(G)
-    S = G.list_to_vector(S)
+    try:
+        S = G.list_to_vector(S)
+    except KeyError as e:
+        raise NetworkXError(f"The node {e} is not in the graph.") from e
     return algorithms.node_expansion(G, S)
 
 
-- 
2.43.0


From a644b43cca00d8d4f46dbc20a2ac991d89dac62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:28 +0000
Subject: [PATCH 01/41] fix: IntervalGraph.remove_node removes the node's edges
 from the index too, and self-loops can be removed

---
 dynetworkx/classes/intervalgraph.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 391f434..539986b 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -610,16 +610,19 @@ class IntervalGraph(object):
             return
 
         if begin is None and end is None:
+            for iedge in set(iv for v in self._adj.get(n, {}) for iv in self._adj[n][v]):
+                self.tree.remove(iedge)
             self._adj.pop(n, None)
             for v in self._adj:
                 if n in self._adj[v]:
                     self._adj[v].pop(n, None)
 
         else:
-            iedges = self.tree[begin:end]
+            # collect first: the tree must not change while it is being searched
+            iedges = [iedge for iedge in self.tree[begin:end] if iedge[0] == n or iedge[1] == n]
             for iedge in iedges:
-                if iedge[0] == n or iedge[1] == n:
-                    self.__remove_iedge(iedge)
+                self.__remove_iedge(iedge)
+                self.__clean_adjacency(iedge[0], iedge[1])
 
         # delete the node and its attributes if no edge left
         if n not in self._adj or len(self._adj[n]) == 0:
@@ -1088,14 +1091,15 @@ class IntervalGraph(object):
             self.__remove_iedge(iv)
 
         # clean up empty dictionaries
-        if len(self._adj[u][v]) == 0:
-            self._adj[u].pop(v, None)
-        if len(self._adj[v][u]) == 0:
-            self._adj[v].pop(u, None)
-        if len(self._adj[u]) == 0:
-            self._adj.pop(u, None)
-        if len(self._adj[v]) == 0:
-            self._adj.pop(v, None)
+        self.__clean_adjacency(u, v)
+
+    def __clean_adjacency(self, u, v):
+        """Drop the adjacency dictionaries of u and v which have become empty. u and v may be the same node."""
+        for a, b in ((u, v), (v, u)):
+            if a in self._adj and b in self._adj[a] and len(self._adj[a][b]) == 0:
+                self._adj[a].pop(b, None)
+            if a in self._adj and len(self._adj[a]) == 0:
+                self._adj.pop(a, None)
 
     def degree(self, node=None, begin=None, end=None, delta=False):
         """Return the degree of a specified node between time begin and end.
-- 
2.43.0


From 950cb64539747026055a32a8beeaf17b4375f0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:39 +0000
Subject: [PATCH 02/41] fix: IntervalTree.remove keeps the rest of the tree and
 recomputes begin and end

---
 dynetworkx/classes/intervaltree.py | 31 +++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index ff9e366..f70d0ef 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -76,13 +76,20 @@ class IntervalTree:
 
     def discard(self, root, node):
         if root is node:
-            if root.left:
-                return root.left
-            if root.right:
+            if not root.left:
                 return root.right
-            return None
+            if not root.right:
+                return root.left
 
-        if node.low < root.low or (node.low == root.low and node.high < root.high):
+            # both subtrees have to be kept: the next node in order takes the place of the removed one
+            successor = root.right
+            while successor.left:
+                successor = successor.left
+            right = self.discard(root.right, successor)
+            successor.left = root.left
+            successor.right = right
+            root = successor
+        elif node.low < root.low or (node.low == root.low and node.high < root.high):
             root.left = self.discard(root.left, node)
         else:
             root.right = self.discard(root.right, node)
@@ -196,17 +203,19 @@ class IntervalTree:
         node.edges.remove(edge)
         self.number_of_edges -= 1
         if len(node.edges) == 0:
-            self.discard(self.root, node)
+            del self.nodes[(start, end)]
+            self.root = self.discard(self.root, node)
+        if self.root is None:
+            self.begin = float("inf")
+            self.end = float("-inf")
+            return
         if self.begin == start:
             traversal_node = self.root
             while traversal_node.left != None:
-                self.begin = traversal_node.left.low
                 traversal_node = traversal_node.left
+            self.begin = traversal_node.low
         if self.end == end:
-            traversal_node = self.root
-            while traversal_node.right != None:
-                self.end = traversal_node.right.high
-                traversal_node = traversal_node.right
+            self.end = self.root.max
 
         return
 
-- 
2.43.0


From 68bce1bdedd958282f94a0ab386de2a009a03845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:11 +0000
Subject: [PATCH 03/41] fix: IntervalTree.slice treats a bound of 0 as a bound
 and a missing bound as no bound

---
 dynetworkx/classes/intervaltree.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index f70d0ef..deb3187 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -224,10 +224,10 @@ class IntervalTree:
             root = self.root
             if not root:
                 return []
-        if not interval_start:
-            interval_start = self.begin
-        if not interval_end:
-            interval_end = self.end
+        if interval_start is None:
+            interval_start = float("-inf")
+        if interval_end is None:
+            interval_end = float("inf")
 
         for node in self.query(root, interval_start, interval_end):
             yield from node.edges
-- 
2.43.0


From 577dc5905017eed6ff403d26ae7c54609b3d09d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:42 +0000
Subject: [PATCH 04/41] fix: unique timestamps include times on the bounds,
 accept 0 as a bound and an empty graph

---
 dynetworkx/classes/intervaltree.py | 33 ++++++++++++++++++------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index deb3187..6dc6434 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -155,15 +155,16 @@ class IntervalTree:
             return 0
         return self.getHeight(node.left) - self.getHeight(node.right)
 
-    def query(self, node, begin, end):
+    def query(self, node, begin, end, closed=False):
+        # closed: also yield the intervals which only touch begin or end
         if node.left and node.left.max >= begin:
-            yield from self.query(node.left, begin, end)
+            yield from self.query(node.left, begin, end, closed)
 
-        if node.inInterval(begin, end):
+        if node.inInterval(begin, end) or (closed and node.low <= end and node.high >= begin):
             yield node
 
         if node.right and node.low <= end and node.right.max >= begin:
-            yield from self.query(node.right, begin, end)
+            yield from self.query(node.right, begin, end, closed)
 
     def add(self, edge):
         # edge = (u, v, begin, end)
@@ -235,9 +236,11 @@ class IntervalTree:
     def unique_timestamps(self, begin=None, end=None, inclusive=(True, True)):
         timestamps = set()
 
-        if not begin:
+        if not self.root:
+            return []
+        if begin is None:
             begin = self.begin
-        if not end:
+        if end is None:
             end = self.end
 
         if inclusive[0]:
@@ -249,7 +252,7 @@ class IntervalTree:
         else:
             end_operator = operator.__lt__
 
-        for n in self.query(self.root, begin, end):
+        for n in self.query(self.root, begin, end, closed=True):
             if n.low not in timestamps and begin_operator(begin, n.low) and end_operator(n.low, end):
                 timestamps.add(n.low)
             if n.high not in timestamps and begin_operator(begin, n.high) and end_operator(n.high, end):
@@ -260,9 +263,11 @@ class IntervalTree:
     def unique_begin_timestamps(self, begin=None, end=None, inclusive=(True, True)):
         timestamps = set()
 
-        if not begin:
+        if not self.root:
+            return []
+        if begin is None:
             begin = self.begin
-        if not end:
+        if end is None:
             end = self.end
 
         if inclusive[0]:
@@ -274,7 +279,7 @@ class IntervalTree:
         else:
             end_operator = operator.__lt__
 
-        for n in self.query(self.root, begin, end):
+        for n in self.query(self.root, begin, end, closed=True):
             if n.low not in timestamps and begin_operator(begin, n.low) and end_operator(n.low, end):
                 timestamps.add(n.low)
 
@@ -283,9 +288,11 @@ class IntervalTree:
     def unique_end_timestamps(self, begin=None, end=None, inclusive=(True, True)):
         timestamps = set()
 
-        if not begin:
+        if not self.root:
+            return []
+        if begin is None:
             begin = self.begin
-        if not end:
+        if end is None:
             end = self.end
 
         if inclusive[0]:
@@ -297,7 +304,7 @@ class IntervalTree:
         else:
             end_operator = operator.__lt__
 
-        for n in self.query(self.root, begin, end):
+        for n in self.query(self.root, begin, end, closed=True):
             if n.high not in timestamps and begin_operator(begin, n.high) and end_operator(n.high, end):
                 timestamps.add(n.high)
 
-- 
2.43.0


From 1563ba7621bc636b2d8b6e2ab68b7593d0bba88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:10 +0000
Subject: [PATCH 05/41] fix: exact interval match (overlapping=False) in
 has_edge and remove_edge of interval graphs

---
 dynetworkx/classes/intervaldigraph.py | 11 ++++++++---
 dynetworkx/classes/intervalgraph.py   |  9 +++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 2749aa1..b3ccaeb 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -257,7 +257,7 @@ class IntervalDiGraph(IntervalGraph):
             if begin is None or end is None:
                 raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
-            return self.edges(u, v, begin, end) is not None
+            return (u, v, begin, end) in self._pred[u][v]
 
         if begin and end and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
@@ -575,9 +575,10 @@ class IntervalDiGraph(IntervalGraph):
             if begin is None or end is None:
                 raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
-            iedge = self.edges(u, v, begin, end)
-            if iedge is not None:
+            iedge = (u, v, begin, end)
+            if iedge in self._pred[u][v]:
                 self.__remove_iedge(iedge)
+                self.__clean_adjacency(u, v)
             return
 
         iedges_to_remove = []
@@ -602,6 +603,10 @@ class IntervalDiGraph(IntervalGraph):
             self.__remove_iedge(iv)
 
         # clean up empty dictionaries
+        self.__clean_adjacency(u, v)
+
+    def __clean_adjacency(self, u, v):
+        """Drop the adjacency dictionaries from u to v which have become empty."""
         if len(self._pred[u][v]) == 0:
             self._pred[u].pop(v, None)
         if len(self._succ[v][u]) == 0:
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 539986b..4accede 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -801,7 +801,7 @@ class IntervalGraph(object):
             if begin is None or end is None:
                 raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
-            return self.edges(u, v, begin, end) is not None
+            return (u, v, begin, end) in self._adj[u][v] or (v, u, begin, end) in self._adj[u][v]
 
         if begin and end and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
@@ -1064,9 +1064,10 @@ class IntervalGraph(object):
             if begin is None or end is None:
                 raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
-            iedge = self.edges(u, v, begin, end)
-            if iedge is not None:
-                self.__remove_iedge(iedge)
+            for iedge in ((u, v, begin, end), (v, u, begin, end)):
+                if u in self._adj and v in self._adj[u] and iedge in self._adj[u][v]:
+                    self.__remove_iedge(iedge)
+                    self.__clean_adjacency(u, v)
             return
 
         iedges_to_remove = []
-- 
2.43.0


From 138d517fd6f99846a275ca4988ebff71f275910b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:21 +0000
Subject: [PATCH 06/41] fix: IntervalDiGraph.remove_node

---
 dynetworkx/classes/intervaldigraph.py | 43 +++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index b3ccaeb..ac8af6a 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -616,6 +616,49 @@ class IntervalDiGraph(IntervalGraph):
         if len(self._succ[v]) == 0:
             self._succ.pop(v, None)
 
+    def remove_node(self, n, begin=None, end=None):
+        """Remove the presence of a node n within the given interval.
+
+        Removes the presence node n and all edges from and to n within the given interval.
+
+        Quiet if n is not in the interval graph.
+
+        Parameters
+        ----------
+        n : node
+           A node in the graph
+        begin: int or float, optional  (default= beginning of the entire interval graph)
+            Inclusive beginning time of the node appearing in the interval graph.
+        end: int or float, optional  (default= end of the entire interval graph + 1)
+            Non-inclusive ending time of the node appearing in the interval graph.
+            Must be bigger than or equal to begin.
+
+        Examples
+        --------
+        >>> G = dnx.IntervalDiGraph()
+        >>> G.add_edges_from([(1, 2, 3, 10), (2, 4, 1, 11), (6, 4, 12, 19), (2, 4, 8, 15)])
+        >>> G.remove_node(2, begin=4, end=6)
+        >>> G.edges()
+        [(6, 4, 12, 19), (2, 4, 8, 15)]
+        """
+        if n not in self._node:
+            return
+
+        if begin is None and end is None:
+            iedges = set(iv for adj in (self._pred.get(n, {}), self._succ.get(n, {})) for v in adj for iv in adj[v])
+        else:
+            iedges = [iedge for iedge in self.tree[begin:end] if iedge[0] == n or iedge[1] == n]
+
+        for iedge in iedges:
+            self.__remove_iedge(iedge)
+            self.__clean_adjacency(iedge[0], iedge[1])
+
+        # delete the node and its attributes if no edge left
+        if not self._pred.get(n) and not self._succ.get(n):
+            self._pred.pop(n, None)
+            self._succ.pop(n, None)
+            self._node.pop(n, None)
+
     def degree(self, node=None, begin=None, end=None, delta=False):
         """Return the degree of a specified node between time begin and end.
 
-- 
2.43.0


From e8d130905aa884ddf60f22c1af75d0a189c5b24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:59 +0000
Subject: [PATCH 07/41] fix: edges(u=, v=) takes a string or a tuple node as
 one node

---
 dynetworkx/classes/impulsedigraph.py  | 11 ++---------
 dynetworkx/classes/impulsegraph.py    | 26 +++++++++++++++++---------
 dynetworkx/classes/intervaldigraph.py | 11 ++---------
 dynetworkx/classes/intervalgraph.py   | 26 +++++++++++++++++---------
 4 files changed, 38 insertions(+), 36 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 81690c0..d17e03b 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -458,15 +458,8 @@ class ImpulseDiGraph(ImpulseGraph):
         [((1, 3, 4), 8)]
         """
 
-        try:
-            _ = (e for e in u)
-        except TypeError:
-            u = [u]
-
-        try:
-            _ = (e for e in v)
-        except TypeError:
-            v = [v]
+        u = self._pack_nodes(u)
+        v = self._pack_nodes(v)
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 91427f9..18c331e 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -753,6 +753,21 @@ class ImpulseGraph(object):
                                 "begin: {}, end: {}.".format(begin, end))
         return [(u, v, t) for t in self.tree.irange(begin, end, inclusive=(True, False)) for u, v in self.tree[t]]
 
+    def _pack_nodes(self, nodes):
+        """Return the list of nodes meant by a constraint of edges(): a string or a node of the graph is one node,
+        even if it is iterable, and any other iterable is a collection of nodes."""
+        if isinstance(nodes, str):
+            return [nodes]
+        try:
+            if nodes in self._node:
+                return [nodes]
+        except TypeError:
+            pass
+        try:
+            return list(nodes)
+        except TypeError:
+            return [nodes]
+
     def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, False), data=False, default=None):
         """Returns a list of Interval objects of the ImpulseGraph edges.
 
@@ -836,15 +851,8 @@ class ImpulseGraph(object):
         [((1, 3, 4), 8)]
         """
 
-        try:
-            _ = (e for e in u)
-        except TypeError:
-            u = [u]
-
-        try:
-            _ = (e for e in v)
-        except TypeError:
-            v = [v]
+        u = self._pack_nodes(u)
+        v = self._pack_nodes(v)
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index ac8af6a..bdf6536 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -393,15 +393,8 @@ class IntervalDiGraph(IntervalGraph):
         # If non of the nodes are defined the interval tree is queried for the list of edges,
         # otherwise the edges are returned based on the nodes in the self._adj.o
 
-        try:
-            _ = (e for e in u)
-        except TypeError:
-            u = [u]
-
-        try:
-            _ = (e for e in v)
-        except TypeError:
-            v = [v]
+        u = self._pack_nodes(u)
+        v = self._pack_nodes(v)
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 4accede..ac899ab 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -850,6 +850,21 @@ class IntervalGraph(object):
                                 "begin: {}, end: {}.".format(begin, end))
         return self.tree[begin:end]
 
+    def _pack_nodes(self, nodes):
+        """Return the list of nodes meant by a constraint of edges(): a string or a node of the graph is one node,
+        even if it is iterable, and any other iterable is a collection of nodes."""
+        if isinstance(nodes, str):
+            return [nodes]
+        try:
+            if nodes in self._node:
+                return [nodes]
+        except TypeError:
+            pass
+        try:
+            return list(nodes)
+        except TypeError:
+            return [nodes]
+
     def edges(self, u=None, v=None, begin=None, end=None, data=False, default=None):
         """Returns a list of Interval objects of the IntervalGraph edges.
 
@@ -944,15 +959,8 @@ class IntervalGraph(object):
         # otherwise the edges are returned based on the nodes in the self._adj.
 
         # Pack u and v if necessary
-        try:
-            _ = (e for e in u)
-        except TypeError:
-            u = [u]
-
-        try:
-            _ = (e for e in v)
-        except TypeError:
-            v = [v]
+        u = self._pack_nodes(u)
+        v = self._pack_nodes(v)
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
-- 
2.43.0


From ad33c8603fa28856cfab9c67de02a46e887a26b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:19 +0000
Subject: [PATCH 08/41] fix: edges() uses every node of a list of nodes when no
 interval is given

---
 dynetworkx/classes/impulsedigraph.py  | 16 ++++++++--------
 dynetworkx/classes/impulsegraph.py    | 16 ++++++++--------
 dynetworkx/classes/intervaldigraph.py | 14 +++++++-------
 dynetworkx/classes/intervalgraph.py   | 14 +++++++-------
 4 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index d17e03b..88523fa 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -358,14 +358,14 @@ class ImpulseDiGraph(ImpulseGraph):
                     continue
                 iedges.update([iv for u in self._succ[v] for iv in self._succ[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
-
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("ImpulseDiGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
+
+        # Interval filtering
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("ImpulseDiGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
 
         return [iv for iv in iedges if ImpulseDiGraph.__overlaps_or_contains(iv, begin, end)]
 
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 18c331e..1c6d015 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -736,14 +736,14 @@ class ImpulseGraph(object):
                     continue
                 iedges.update([iv for u in self._adj[v] for iv in self._adj[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
-
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
+
+        # Interval filtering
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
 
         return [iv for iv in iedges if ImpulseGraph.__overlaps_or_contains(iv, begin, end)]
 
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index bdf6536..cdc4db8 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -289,14 +289,14 @@ class IntervalDiGraph(IntervalGraph):
                     continue
                 iedges.update([iv for u in self._succ[v] for iv in self._succ[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
 
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # Interval filtering
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
 
         return [iv for iv in iedges if IntervalDiGraph.__overlaps_or_contains(iv, begin, end)]
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index ac899ab..9e53c4b 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -833,14 +833,14 @@ class IntervalGraph(object):
                     continue
                 iedges.update([iv for u in self._adj[v] for iv in self._adj[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
 
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # Interval filtering
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
 
         return [iv for iv in iedges if IntervalGraph.__overlaps_or_contains(iv, begin, end)]
 
-- 
2.43.0


From 09c68ba3a247a8fe6d1b3e84cd20bebf2dcd2524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:30 +0000
Subject: [PATCH 09/41] fix: an edge beginning at begin is in an interval
 without an end, as in every other query

---
 dynetworkx/classes/intervaldigraph.py | 2 +-
 dynetworkx/classes/intervalgraph.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index cdc4db8..daca96b 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -1027,5 +1027,5 @@ class IntervalDiGraph(IntervalGraph):
         if begin is None:
             return iv[2] < end
         if end is None:
-            return iv[3] > begin
+            return iv[3] > begin or iv[2] == begin
         return (iv[2] < end and iv[3] > begin) or iv[2] == begin
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 9e53c4b..f2926fb 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1289,7 +1289,7 @@ class IntervalGraph(object):
         if begin is None:
             return iv[2] < end
         if end is None:
-            return iv[3] > begin
+            return iv[3] > begin or iv[2] == begin
         return (iv[2] < end and iv[3] > begin) or iv[2] == begin
 
     def to_networkx_graph(self, begin, end, multigraph=False, edge_data=False, edge_interval_data=False,
-- 
2.43.0


From 4947210ab32d585beba91d80ee728186c9f9ed28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:39 +0000
Subject: [PATCH 10/41] fix: an interval whose begin or end is 0 is checked
 like any other

---
 dynetworkx/classes/impulsedigraph.py  | 2 +-
 dynetworkx/classes/impulsegraph.py    | 2 +-
 dynetworkx/classes/intervaldigraph.py | 6 +++---
 dynetworkx/classes/intervalgraph.py   | 6 +++---
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 88523fa..10b8f36 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -309,7 +309,7 @@ class ImpulseDiGraph(ImpulseGraph):
         if begin is None and end is None:
             return True
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 1c6d015..7766e8e 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -645,7 +645,7 @@ class ImpulseGraph(object):
         if begin is None and end is None:
             return True
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index daca96b..c3f49db 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -259,7 +259,7 @@ class IntervalDiGraph(IntervalGraph):
 
             return (u, v, begin, end) in self._pred[u][v]
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -583,7 +583,7 @@ class IntervalDiGraph(IntervalGraph):
 
         # remove edge between u and v with overlapping interval with the given interval
         else:
-            if begin and end and begin > end:
+            if begin is not None and end is not None and begin > end:
                 raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -958,7 +958,7 @@ class IntervalDiGraph(IntervalGraph):
         >>> list(M.edges(data=True))
         [(1, 2, {'end': 10, 'begin': 3}), (2, 4, {'end': 11, 'begin': 1}), (2, 4, {'end': 15, 'begin': 8})]
         """
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
         iedges = self.tree[begin:end]
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index f2926fb..34017df 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -491,7 +491,7 @@ class IntervalGraph(object):
         if begin is not None and end is not None and end < begin:
             return False
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -803,7 +803,7 @@ class IntervalGraph(object):
 
             return (u, v, begin, end) in self._adj[u][v] or (v, u, begin, end) in self._adj[u][v]
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -1087,7 +1087,7 @@ class IntervalGraph(object):
 
         # remove edge between u and v with overlapping interval with the given interval
         else:
-            if begin and end and begin > end:
+            if begin is not None and end is not None and begin > end:
                 raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                     "begin: {}, end: {}.".format(begin, end))
 
-- 
2.43.0


From 415a7edca1a87b7ce3ef2ade36914b8ee85d0cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:53 +0000
Subject: [PATCH 11/41] fix: edges, degree and remove_edge of impulse graphs
 honour inclusive

---
 dynetworkx/classes/impulsedigraph.py | 62 ++++++++--------------------
 dynetworkx/classes/impulsegraph.py   | 41 +++++-------------
 2 files changed, 28 insertions(+), 75 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 10b8f36..c356b67 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -333,7 +333,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         self._model = model
 
-    def __edges_node_first(self, u_list, v_list, begin, end):
+    def __edges_node_first(self, u_list, v_list, begin, end, inclusive):
         if not isinstance(u_list, list):
             u_list = [u_list]
         if not isinstance(v_list, list):
@@ -367,15 +367,15 @@ class ImpulseDiGraph(ImpulseGraph):
             raise NetworkXError("ImpulseDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
-        return [iv for iv in iedges if ImpulseDiGraph.__overlaps_or_contains(iv, begin, end)]
+        return [iv for iv in iedges if self.__in_interval(iv[2], begin, end, inclusive=inclusive)]
 
-    def __edges_interval_first(self, begin, end):
+    def __edges_interval_first(self, begin, end, inclusive):
         if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
-        return [(u, v, t) for t in self.tree.irange(begin, end, inclusive=(True, False))for u, v in self.tree[t]]
+        return [(u, v, t) for t in self.tree.irange(begin, end, inclusive=inclusive) for u, v in self.tree[t]]
 
-    def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, True), data=False, default=None):
+    def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, False), data=False, default=None):
         """Returns a list of tuples of the ImpulseDiGraph edges.
 
         All edges which are present within the given interval.
@@ -463,11 +463,11 @@ class ImpulseDiGraph(ImpulseGraph):
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Interval First
         elif u == [None] and v == [None]:
-            iedges = self.__edges_interval_first(begin, end)
+            iedges = self.__edges_interval_first(begin, end, inclusive)
 
         # Compound
         elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
@@ -491,13 +491,13 @@ class ImpulseDiGraph(ImpulseGraph):
             node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
 
             if node_time < interval_time:
-                iedges = self.__edges_node_first(u, v, begin, end)
+                iedges = self.__edges_node_first(u, v, begin, end, inclusive)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive) if e[0] in nodes or e[1] in nodes]
 
         # Node First
         else:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Appending attribute data if needed
         if data is False:
@@ -617,7 +617,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         else:
             for iv in self._pred[u][v]:
-                if self.__in_interval(iv[2], begin, end):
+                if self.__in_interval(iv[2], begin, end, inclusive=inclusive):
                     iedges_to_remove.append(iv)
 
         # removing found iedges
@@ -634,7 +634,7 @@ class ImpulseDiGraph(ImpulseGraph):
         if len(self._succ[v]) == 0:
             self._succ.pop(v, None)
 
-    def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, True)):
+    def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the sum of in and out degree of a specified node between time begin and end.
 
         Parameters
@@ -688,9 +688,9 @@ class ImpulseDiGraph(ImpulseGraph):
         output = []
 
         # for each edge determine if the begin and/or end value is in specified time period
-        for edge in self.edges(u=node, begin=begin, end=end, inclusive=(True, False)):
+        for edge in self.edges(u=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
-        for edge in self.edges(v=node, begin=begin, end=end, inclusive=(True, False)):
+        for edge in self.edges(v=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
 
         # for each time in Dict add to output list the len of each value
@@ -699,7 +699,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         return sorted(output)
 
-    def in_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, True)):
+    def in_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the in-degree of a specified node between time begin and end.
 
         Parameters
@@ -748,16 +748,11 @@ class ImpulseDiGraph(ImpulseGraph):
             return len(self.edges(v=node, begin=begin, end=end, inclusive=inclusive))
 
         # delta == True, return list of changes
-        if begin == None:
-            begin = list(self.tree.keys())[0]
-        if end == None:
-            end = list(self.tree.keys())[-1]
-
         d = {}
         output = []
 
         # for each edge determine if the begin and/or end value is in specified time period
-        for edge in self.edges(v=node, begin=begin, end=end, inclusive=(True, True)):
+        for edge in self.edges(v=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
 
         # for each time in Dict add to output list the len of each value
@@ -766,7 +761,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         return output
 
-    def out_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, True)):
+    def out_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the out-degree of a specified node between time begin and end.
 
         Parameters
@@ -819,7 +814,7 @@ class ImpulseDiGraph(ImpulseGraph):
         output = []
 
         # for each edge determine if the begin and/or end value is in specified time period
-        for edge in self.edges(u=node, begin=begin, end=end, inclusive=(True, True)):
+        for edge in self.edges(u=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
 
         # for each time in Dict add to output list the len of each value
@@ -1003,27 +998,6 @@ class ImpulseDiGraph(ImpulseGraph):
         if inclusive == (False, False):
             return begin < t < end
 
-    @staticmethod
-    def __overlaps_or_contains(iv, begin, end):
-        """Returns True if interval `iv` overlaps with begin and end.
-
-       Parameters
-       ----------
-       iv: Interval
-       begin: int or float
-            Inclusive beginning time of the node appearing in the interval graph.
-        end: int or float
-            Non-inclusive ending time of the node appearing in the interval graph.
-            Must be bigger than or equal begin.
-       """
-        if begin is None and end is None:
-            return True
-        if begin is None:
-            return iv[2] < end
-        if end is None:
-            return iv[2] >= begin
-        return (begin < iv[2] < end and iv[2]) or iv[2] == begin
-
     @staticmethod
     def load_from_txt(path, delimiter=" ", nodetype=int, timestamptype=float, order=('u', 'v', 't'), predict=False, comments="#"):
         """Read impulse graph in from path.
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 7766e8e..1f158c9 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -715,7 +715,7 @@ class ImpulseGraph(object):
 
         self._model = model
 
-    def __edges_node_first(self, u_list, v_list, begin, end):
+    def __edges_node_first(self, u_list, v_list, begin, end, inclusive):
         # Node filtering
         iedges = set()
         for u, v in product(u_list, v_list):
@@ -745,13 +745,13 @@ class ImpulseGraph(object):
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
-        return [iv for iv in iedges if ImpulseGraph.__overlaps_or_contains(iv, begin, end)]
+        return [iv for iv in iedges if self.__in_interval(iv[2], begin, end, inclusive=inclusive)]
 
-    def __edges_interval_first(self, begin, end):
+    def __edges_interval_first(self, begin, end, inclusive):
         if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
-        return [(u, v, t) for t in self.tree.irange(begin, end, inclusive=(True, False)) for u, v in self.tree[t]]
+        return [(u, v, t) for t in self.tree.irange(begin, end, inclusive=inclusive) for u, v in self.tree[t]]
 
     def _pack_nodes(self, nodes):
         """Return the list of nodes meant by a constraint of edges(): a string or a node of the graph is one node,
@@ -856,11 +856,11 @@ class ImpulseGraph(object):
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Interval First
         elif u == [None] and v == [None]:
-            iedges = self.__edges_interval_first(begin, end)
+            iedges = self.__edges_interval_first(begin, end, inclusive)
 
         # Compound
         elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
@@ -884,13 +884,13 @@ class ImpulseGraph(object):
             node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
             if node_time < interval_time:
-                iedges = self.__edges_node_first(u, v, begin, end)
+                iedges = self.__edges_node_first(u, v, begin, end, inclusive)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive) if e[0] in nodes or e[1] in nodes]
 
         # Node First
         else:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Appending attribute data if needed
         if data is False:
@@ -947,7 +947,7 @@ class ImpulseGraph(object):
 
         else:
             for iv in self._adj[u][v]:
-                if self.__in_interval(iv[2], begin, end):
+                if self.__in_interval(iv[2], begin, end, inclusive=inclusive):
                     iedges_to_remove.append(iv)
 
         # removing found iedges
@@ -1371,27 +1371,6 @@ class ImpulseGraph(object):
 
         return G
 
-    @staticmethod
-    def __overlaps_or_contains(iv, begin, end):
-        """Returns True if interval `iv` overlaps with begin and end.
-
-       Parameters
-       ----------
-       iv: Interval
-       begin: int or float
-            Inclusive beginning time of the node appearing in the interval graph.
-        end: int or float
-            Non-inclusive ending time of the node appearing in the interval graph.
-            Must be bigger than or equal begin.
-       """
-        if begin is None and end is None:
-            return True
-        if begin is None:
-            return iv[2] < end
-        if end is None:
-            return iv[2] >= begin
-        return (begin < iv[2] < end and iv[2]) or iv[2] == begin
-
     @staticmethod
     def from_networkx_graph(graph, timestamp='timestamp'):
         """Convert a NetworkX Graph to a ImpulseGraph.
-- 
2.43.0


From f9414cd5985ea1b0585213901bc498ac33d339b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:13 +0000
Subject: [PATCH 12/41] fix: begin == end is the same point query in every
 impulse graph method, and yields each edge once

---
 dynetworkx/classes/impulsedigraph.py | 10 ++++++----
 dynetworkx/classes/impulsegraph.py   | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index c356b67..f608e7e 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -373,7 +373,7 @@ class ImpulseDiGraph(ImpulseGraph):
         if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
-        return [(u, v, t) for t in self.tree.irange(begin, end, inclusive=inclusive) for u, v in self.tree[t]]
+        return list(self.__search_tree(begin, end, inclusive=inclusive))
 
     def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, False), data=False, default=None):
         """Returns a list of tuples of the ImpulseDiGraph edges.
@@ -960,9 +960,9 @@ class ImpulseDiGraph(ImpulseGraph):
        """
         begin, end = self.__validate_interval(begin, end)
 
-        if begin is not None and begin == end and begin in self.tree:
-            for edge in self.tree[begin]:
-                yield (*edge, begin)
+        # begin == end stands for that point in time, whether the ends are inclusive or not
+        if begin is not None and begin == end:
+            inclusive = (True, True)
 
         for t in self.tree.irange(begin, end, inclusive=inclusive):
             for edge in self.tree[t]:
@@ -984,6 +984,8 @@ class ImpulseDiGraph(ImpulseGraph):
         -------
         Returns True if t is in the interval (begin,end). Otherwise False.
         """
+        if begin is not None and begin == end:
+            return t == begin
         if begin is None:
             begin = float('-inf')
         if end is None:
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 1f158c9..a1046b2 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -751,7 +751,7 @@ class ImpulseGraph(object):
         if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
-        return [(u, v, t) for t in self.tree.irange(begin, end, inclusive=inclusive) for u, v in self.tree[t]]
+        return list(self.__search_tree(begin, end, inclusive=inclusive))
 
     def _pack_nodes(self, nodes):
         """Return the list of nodes meant by a constraint of edges(): a string or a node of the graph is one node,
@@ -1075,9 +1075,9 @@ class ImpulseGraph(object):
        """
         begin, end = self.__validate_interval(begin, end)
 
-        if begin is not None and begin == end and begin in self.tree:
-            for edge in self.tree[begin]:
-                yield (*edge, begin)
+        # begin == end stands for that point in time, whether the ends are inclusive or not
+        if begin is not None and begin == end:
+            inclusive = (True, True)
 
         for t in self.tree.irange(begin, end, inclusive=inclusive):
             for u, v in self.tree[t]:
@@ -1099,6 +1099,8 @@ class ImpulseGraph(object):
         -------
         Returns True if t is in the interval (begin,end). Otherwise False.
         """
+        if begin is not None and begin == end:
+            return t == begin
         if begin is None:
             begin = float('-inf')
         if end is None:
-- 
2.43.0


From 24b807a16d91c7bdce072846b712cf946880aceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:04 +0000
Subject: [PATCH 13/41] fix: removing edges and nodes of impulse graphs also
 removes them from the index, and works for ImpulseDiGraph and self-loops

---
 dynetworkx/classes/impulsedigraph.py | 57 +++++++++++++++++++++++++---
 dynetworkx/classes/impulsegraph.py   | 32 ++++++++--------
 2 files changed, 68 insertions(+), 21 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index f608e7e..0729e92 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -625,6 +625,10 @@ class ImpulseDiGraph(ImpulseGraph):
             self.__remove_iedge(edge)
 
         # clean up empty dictionaries
+        self.__clean_adjacency(u, v)
+
+    def __clean_adjacency(self, u, v):
+        """Drop the adjacency dictionaries from u to v which have become empty."""
         if len(self._pred[u][v]) == 0:
             self._pred[u].pop(v, None)
         if len(self._succ[v][u]) == 0:
@@ -634,6 +638,48 @@ class ImpulseDiGraph(ImpulseGraph):
         if len(self._succ[v]) == 0:
             self._succ.pop(v, None)
 
+    def remove_node(self, n, begin=None, end=None, inclusive=(True, False)):
+        """Remove the presence of a node n within the given interval.
+
+        Removes the presence node n and all edges from and to n within the given interval.
+
+        Quiet if n is not in the impulse graph.
+
+        Parameters
+        ----------
+        n : node
+           A node in the graph
+        begin: int or float, optional  (default= beginning of the entire impulse graph)
+        end: int or float, optional  (default= end of the entire impulse graph)
+            Must be bigger than or equal to begin.
+        inclusive: 2-tuple boolean that determines inclusivity of begin and end
+
+        Examples
+        --------
+        >>> G = dnx.ImpulseDiGraph()
+        >>> G.add_edges_from([(1, 2, 10), (2, 4, 11), (6, 4, 19), (2, 4, 15)])
+        >>> G.remove_node(2, begin=10, end=12)
+        >>> G.edges()
+        [(6, 4, 19), (2, 4, 15)]
+        """
+        if n not in self._node:
+            return
+
+        if begin is None and end is None:
+            iedges = set(iv for adj in (self._pred.get(n, {}), self._succ.get(n, {})) for v in adj for iv in adj[v])
+        else:
+            iedges = [edge for edge in self.__search_tree(begin, end, inclusive) if edge[0] == n or edge[1] == n]
+
+        for iedge in iedges:
+            self.__remove_iedge(iedge)
+            self.__clean_adjacency(iedge[0], iedge[1])
+
+        # delete the node and its attributes if no edge left
+        if not self._pred.get(n) and not self._succ.get(n):
+            self._pred.pop(n, None)
+            self._succ.pop(n, None)
+            self._node.pop(n, None)
+
     def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the sum of in and out degree of a specified node between time begin and end.
 
@@ -924,12 +970,11 @@ class ImpulseDiGraph(ImpulseGraph):
             Edge to be removed.
         """
 
-        try:
-            self.tree[iedge[2]].remove((iedge[0], iedge[1]))
-            del self._pred[iedge[0]][iedge[1]][iedge]
-            del self._succ[iedge[1]][iedge[0]][iedge]
-        except:
-            return
+        self.tree[iedge[2]].remove((iedge[0], iedge[1]))
+        if len(self.tree[iedge[2]]) == 0:
+            del self.tree[iedge[2]]
+        self._pred[iedge[0]][iedge[1]].pop(iedge, None)
+        self._succ[iedge[1]][iedge[0]].pop(iedge, None)
 
     def __validate_interval(self, begin=None, end=None):
         """Returns validated begin and end.
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index a1046b2..83634bd 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -500,6 +500,8 @@ class ImpulseGraph(object):
             return
 
         if begin is None and end is None:
+            for edge in set(iv for v in self._adj.get(n, {}) for iv in self._adj[n][v]):
+                self.__remove_iedge(edge)
             self._adj.pop(n, None)
             for v in self._adj:
                 if n in self._adj[v]:
@@ -512,6 +514,7 @@ class ImpulseGraph(object):
                     remove_edges.append(edge)
             for edge in remove_edges:
                 self.__remove_iedge(edge)
+                self.__clean_adjacency(edge[0], edge[1])
 
         # delete the node and its attributes if no edge left
         if n not in self._adj or len(self._adj[n]) == 0:
@@ -955,14 +958,15 @@ class ImpulseGraph(object):
             self.__remove_iedge(edge)
 
         # clean up empty dictionaries
-        if len(self._adj[u][v]) == 0:
-            self._adj[u].pop(v, None)
-        if len(self._adj[v][u]) == 0:
-            self._adj[v].pop(u, None)
-        if len(self._adj[u]) == 0:
-            self._adj.pop(u, None)
-        if len(self._adj[v]) == 0:
-            self._adj.pop(v, None)
+        self.__clean_adjacency(u, v)
+
+    def __clean_adjacency(self, u, v):
+        """Drop the adjacency dictionaries of u and v which have become empty. u and v may be the same node."""
+        for a, b in ((u, v), (v, u)):
+            if a in self._adj and b in self._adj[a] and len(self._adj[a][b]) == 0:
+                self._adj[a].pop(b, None)
+            if a in self._adj and len(self._adj[a]) == 0:
+                self._adj.pop(a, None)
 
     def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the degree of a specified node between time begin and end.
@@ -1038,13 +1042,11 @@ class ImpulseGraph(object):
         iedge : Edge Tuple (u,v,eid,t)
             Edge to be removed.
         """
-        try:
-            self.tree[iedge[2]].remove((iedge[0], iedge[1]))
-            del self._adj[iedge[0]][iedge[1]][iedge]
-            del self._adj[iedge[1]][iedge[0]][iedge]
-        except:
-            return
-        print(self._adj)
+        self.tree[iedge[2]].remove((iedge[0], iedge[1]))
+        if len(self.tree[iedge[2]]) == 0:
+            del self.tree[iedge[2]]
+        self._adj[iedge[0]][iedge[1]].pop(iedge, None)
+        self._adj[iedge[1]][iedge[0]].pop(iedge, None)
 
     def __validate_interval(self, begin=None, end=None):
         """Returns validated begin and end.
-- 
2.43.0


From d53c0ff581973fc1eaa276ef71a87c1ced19856b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:16 +0000
Subject: [PATCH 14/41] fix: adding an existing edge to an impulse graph
 updates its data, as documented

---
 dynetworkx/classes/impulsedigraph.py | 5 +++--
 dynetworkx/classes/impulsegraph.py   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 0729e92..c99b3a5 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -236,8 +236,9 @@ class ImpulseDiGraph(ImpulseGraph):
 
         self._node.setdefault(u, {})
         self._node.setdefault(v, {})
-        self._pred.setdefault(u, {}).setdefault(v, {})[(u, v, t)] = attr
-        self._succ.setdefault(v, {}).setdefault(u, {})[(u, v, t)] = attr
+        data = self._pred.setdefault(u, {}).setdefault(v, {}).setdefault((u, v, t), attr)
+        data.update(attr)
+        self._succ.setdefault(v, {}).setdefault(u, {})[(u, v, t)] = data
 
     def add_edges_from(self, ebunch_to_add, **attr):
         """Add all the edges in ebunch_to_add.
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 83634bd..f6d686f 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -576,8 +576,9 @@ class ImpulseGraph(object):
 
         self._node.setdefault(u, {})
         self._node.setdefault(v, {})
-        self._adj.setdefault(u, {}).setdefault(v, {})[(u, v, t)] = attr
-        self._adj.setdefault(v, {}).setdefault(u, {})[(u, v, t)] = attr
+        data = self._adj.setdefault(u, {}).setdefault(v, {}).setdefault((u, v, t), attr)
+        data.update(attr)
+        self._adj.setdefault(v, {}).setdefault(u, {})[(u, v, t)] = data
 
     def add_edges_from(self, ebunch_to_add, **attr):
         """Add all the edges in ebunch_to_add.
-- 
2.43.0


From fbb14c95d3bedbe6800db422bfbe1f3d829c0499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:29 +0000
Subject: [PATCH 15/41] fix: add_nodes_from accepts tuple nodes of any length

---
 dynetworkx/classes/impulsegraph.py  | 2 +-
 dynetworkx/classes/intervalgraph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index f6d686f..1b00618 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -291,7 +291,7 @@ class ImpulseGraph(object):
         """
 
         for n in nodes_for_adding:
-            if isinstance(n, tuple) and isinstance(n[1], dict):
+            if isinstance(n, tuple) and len(n) == 2 and isinstance(n[1], dict):
                 self.add_node(n[0], **attr)
                 self._node[n[0]].update(n[1])
             else:
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 34017df..b396eef 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -365,7 +365,7 @@ class IntervalGraph(object):
         >>> G.add_nodes_from([(1, dict(size=11)), (2, {'color':'blue'})])
         """
         for n in nodes_for_adding:
-            if isinstance(n, tuple) and isinstance(n[1], dict):
+            if isinstance(n, tuple) and len(n) == 2 and isinstance(n[1], dict):
                 self.add_node(n[0], **attr)
                 self._node[n[0]].update(n[1])
             else:
-- 
2.43.0


From 656eb10ccc771b0ffb7e24282964c6ecfa3d3c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:15 +0000
Subject: [PATCH 16/41] fix: a query with nodes and an interval gives the same
 edges with and without a predictive model

---
 dynetworkx/classes/impulsedigraph.py  | 19 ++++++++++---------
 dynetworkx/classes/impulsegraph.py    | 18 ++++++++++--------
 dynetworkx/classes/intervaldigraph.py | 19 ++++++++++---------
 dynetworkx/classes/intervalgraph.py   | 20 +++++++++++---------
 4 files changed, 41 insertions(+), 35 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index c99b3a5..95cc827 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -471,30 +471,31 @@ class ImpulseDiGraph(ImpulseGraph):
             iedges = self.__edges_interval_first(begin, end, inclusive)
 
         # Compound
-        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
+        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None\
+                and self.tree:
             if u == [None]:
                 nodes = v
             elif v == [None]:
                 nodes = u
             else:
-                nodes = set(*u).union(set(*v))
+                nodes = set(u).union(v)
 
             node_percent = len(nodes) / self.number_of_nodes()
 
+            # the part of the graph's interval which is asked for; begin and end themselves stay as they were given
             graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
+            query_begin = graph_begin if begin is None else begin
+            query_end = graph_end if end is None else end
 
-            interval_percent = (end - begin) / (graph_end - graph_begin)
+            interval_percent = (query_end - query_begin) / (graph_end - graph_begin) if graph_begin < graph_end else 1
 
-            node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
+            node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
             if node_time < interval_time:
                 iedges = self.__edges_node_first(u, v, begin, end, inclusive)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive) if
+                          (u == [None] or e[0] in u) and (v == [None] or e[1] in v)]
 
         # Node First
         else:
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 1b00618..1d07b30 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -867,30 +867,32 @@ class ImpulseGraph(object):
             iedges = self.__edges_interval_first(begin, end, inclusive)
 
         # Compound
-        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
+        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None\
+                and self.tree:
             if u == [None]:
                 nodes = v
             elif v == [None]:
                 nodes = u
             else:
-                nodes = set(*u).union(set(*v))
+                nodes = set(u).union(v)
 
             node_percent = len(nodes) / self.number_of_nodes()
 
+            # the part of the graph's interval which is asked for; begin and end themselves stay as they were given
             graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
+            query_begin = graph_begin if begin is None else begin
+            query_end = graph_end if end is None else end
 
-            interval_percent = (end - begin) / (graph_end - graph_begin)
+            interval_percent = (query_end - query_begin) / (graph_end - graph_begin) if graph_begin < graph_end else 1
 
             node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
             if node_time < interval_time:
                 iedges = self.__edges_node_first(u, v, begin, end, inclusive)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive) if
+                          (u == [None] or e[0] in u) and (v == [None] or e[1] in v)
+                          or (u == [None] or e[1] in u) and (v == [None] or e[0] in v)]
 
         # Node First
         else:
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index c3f49db..712a1d8 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -405,30 +405,31 @@ class IntervalDiGraph(IntervalGraph):
             iedges = self.__edges_interval_first(begin, end)
 
         # Compound
-        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
+        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None\
+                and self.tree.root is not None:
             if u == [None]:
                 nodes = v
             elif v == [None]:
                 nodes = u
             else:
-                nodes = set(*u).union(set(*v))
+                nodes = set(u).union(v)
 
             node_percent = len(nodes) / self.number_of_nodes()
 
+            # the part of the graph's interval which is asked for; begin and end themselves stay as they were given
             graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
+            query_begin = graph_begin if begin is None else begin
+            query_end = graph_end if end is None else end
 
-            interval_percent = (end - begin) / (graph_end - graph_begin)
+            interval_percent = (query_end - query_begin) / (graph_end - graph_begin) if graph_begin < graph_end else 1
 
-            node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
+            node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
             if node_time < interval_time:
                 iedges = self.__edges_node_first(u, v, begin, end)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end) if
+                          (u == [None] or e[0] in u) and (v == [None] or e[1] in v)]
 
         # Node First
         else:
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index b396eef..187084e 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -971,30 +971,32 @@ class IntervalGraph(object):
             iedges = self.__edges_interval_first(begin, end)
 
         # Compound
-        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
+        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None\
+                and self.tree.root is not None:
             if u == [None]:
                 nodes = v
             elif v == [None]:
                 nodes = u
             else:
-                nodes = set(*u).union(set(*v))
+                nodes = set(u).union(v)
 
             node_percent = len(nodes) / self.number_of_nodes()
 
+            # the part of the graph's interval which is asked for; begin and end themselves stay as they were given
             graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
+            query_begin = graph_begin if begin is None else begin
+            query_end = graph_end if end is None else end
 
-            interval_percent = (end - begin) / (graph_end - graph_begin)
+            interval_percent = (query_end - query_begin) / (graph_end - graph_begin) if graph_begin < graph_end else 1
 
-            node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
+            node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
             if node_time < interval_time:
                 iedges = self.__edges_node_first(u, v, begin, end)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end) if
+                          (u == [None] or e[0] in u) and (v == [None] or e[1] in v)
+                          or (u == [None] or e[1] in u) and (v == [None] or e[0] in v)]
 
         # Node First
         else:
-- 
2.43.0


From ec50197dbbbb13770954c0936438475b2a5c3929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:52 +0000
Subject: [PATCH 17/41] fix: training data of predictive models: float
 timestamps, nodes without edges, ImpulseDiGraph

---
 dynetworkx/classes/impulsedigraph.py  | 7 ++++---
 dynetworkx/classes/impulsegraph.py    | 7 ++++---
 dynetworkx/classes/intervaldigraph.py | 5 +++--
 dynetworkx/classes/intervalgraph.py   | 7 ++++---
 4 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 95cc827..d0c1ee3 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -528,8 +528,9 @@ class ImpulseDiGraph(ImpulseGraph):
         while len(X) < training_size:
             node_percent = random.randint(1, 50)
             interval_percent = random.randint(1, 50)
-            begin = random.randint(graph_begin,
-                                   graph_end - math.ceil((graph_end - graph_begin) * interval_percent / 100))
+            first = math.floor(graph_begin)
+            last = math.floor(graph_end - (graph_end - graph_begin) * interval_percent / 100)
+            begin = random.randint(first, max(first, last))
             nodes = set(random.choices(node_list, k=math.floor(node_percent / 100 * len(node_list))))
             end = begin + (graph_end - graph_begin) * interval_percent / 100
 
@@ -548,7 +549,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
             interval_edges = []
             start_timer = timer()
-            for edge in self.tree.irange(begin, end, inclusive=(True, False)):
+            for edge in [(u, v, t) for t in self.tree.irange(begin, end, inclusive=(True, False)) for u, v in self.tree[t]]:
                 if edge[0] in nodes or edge[1] in nodes:
                     interval_edges.append(edge)
             interval_time = timer() - start_timer
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 1d07b30..4040917 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -675,15 +675,16 @@ class ImpulseGraph(object):
         while len(X) < training_size:
             node_percent = random.randint(1, 50)
             interval_percent = random.randint(1, 50)
-            begin = random.randint(graph_begin,
-                                   graph_end - math.ceil((graph_end - graph_begin) * interval_percent / 100))
+            first = math.floor(graph_begin)
+            last = math.floor(graph_end - (graph_end - graph_begin) * interval_percent / 100)
+            begin = random.randint(first, max(first, last))
             nodes = set(random.choices(node_list, k=math.floor(node_percent / 100 * len(node_list))))
             end = begin + (graph_end - graph_begin) * interval_percent / 100
 
             node_edges = set()
             start_timer = timer()
             for u in nodes:
-                for v in self._adj[u]:
+                for v in self._adj.get(u, {}):
                     for edge in self._adj[u][v]:
                         if edge not in node_edges and (edge[2] == begin or (begin < edge[2] < end)):
                             node_edges.add(edge)
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 712a1d8..7eb4c92 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -462,8 +462,9 @@ class IntervalDiGraph(IntervalGraph):
         while len(X) < training_size:
             node_percent = random.randint(1, 50)
             interval_percent = random.randint(1, 50)
-            begin = random.randint(graph_begin,
-                                   graph_end - math.ceil((graph_end - graph_begin) * interval_percent / 100))
+            first = math.floor(graph_begin)
+            last = math.floor(graph_end - (graph_end - graph_begin) * interval_percent / 100)
+            begin = random.randint(first, max(first, last))
             nodes = set(random.choices(node_list, k=math.floor(node_percent / 100 * len(node_list))))
             end = begin + (graph_end - graph_begin) * interval_percent / 100
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 187084e..e1f9e4e 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1229,15 +1229,16 @@ class IntervalGraph(object):
         while len(X) < training_size:
             node_percent = random.randint(1, 50)
             interval_percent = random.randint(1, 50)
-            begin = random.randint(graph_begin,
-                                   graph_end - math.ceil((graph_end - graph_begin) * interval_percent / 100))
+            first = math.floor(graph_begin)
+            last = math.floor(graph_end - (graph_end - graph_begin) * interval_percent / 100)
+            begin = random.randint(first, max(first, last))
             nodes = set(random.choices(node_list, k=math.floor(node_percent / 100 * len(node_list))))
             end = begin + (graph_end - graph_begin) * interval_percent / 100
 
             node_edges = set()
             start_timer = timer()
             for u in nodes:
-                for v in self._adj[u]:
+                for v in self._adj.get(u, {}):
                     for edge in self._adj[u][v]:
                         if edge not in node_edges and (edge[2] == begin or (edge[2] > begin and edge[3] < end)):
                             node_edges.add(edge)
-- 
2.43.0


From 0ac4f3a545f436bc841342a5f6f5eeaa3b95c7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:05 +0000
Subject: [PATCH 18/41] fix: to_subgraph of IntervalDiGraph, and of
 ImpulseGraph with both edge data and timestamps

---
 dynetworkx/classes/impulsegraph.py    |  2 +-
 dynetworkx/classes/intervaldigraph.py | 11 +++++------
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 4040917..f381fb4 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1194,7 +1194,7 @@ class ImpulseGraph(object):
             G = Graph()
 
         if edge_data and edge_timestamp_data:
-            G.add_edges_from((iedge[0], iedge[1], dict(self._adj[iedge[0]][iedge], timestamp=iedge[2]))
+            G.add_edges_from((iedge[0], iedge[1], dict(self._adj[iedge[0]][iedge[1]][iedge], timestamp=iedge[2]))
                              for iedge in iedges)
         elif edge_data:
             G.add_edges_from((iedge[0], iedge[1], self._adj[iedge[0]][iedge[1]][iedge])
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 7eb4c92..2c18226 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -892,7 +892,6 @@ class IntervalDiGraph(IntervalGraph):
                 # iterate through SortedDict, only advancing current degree if edge was not counted on init
                 if time[0] != begin:
                     current_degree += time[1]
-                    print(time, begin, edge, current_degree)
                 output.append((time[0], current_degree))
 
         return sorted(output)
@@ -971,17 +970,17 @@ class IntervalDiGraph(IntervalGraph):
             G = DiGraph()
 
         if edge_data and edge_interval_data:
-            G.add_edges_from((iedge.data[0], iedge.data[1],
-                              dict(self._pred[iedge.data[0]][iedge], begin=iedge.begin, end=iedge.end))
+            G.add_edges_from((iedge[0], iedge[1],
+                              dict(self._pred[iedge[0]][iedge[1]][iedge], begin=iedge[2], end=iedge[3]))
                              for iedge in iedges)
         elif edge_data:
-            G.add_edges_from((iedge.data[0], iedge.data[1], self._pred[iedge.data[0]][iedge].copy())
+            G.add_edges_from((iedge[0], iedge[1], self._pred[iedge[0]][iedge[1]][iedge].copy())
                              for iedge in iedges)
         elif edge_interval_data:
-            G.add_edges_from((iedge.data[0], iedge.data[1], {'begin': iedge.begin, 'end': iedge.end})
+            G.add_edges_from((iedge[0], iedge[1], {'begin': iedge[2], 'end': iedge[3]})
                              for iedge in iedges)
         else:
-            G.add_edges_from((iedge.data[0], iedge.data[1]) for iedge in iedges)
+            G.add_edges_from((iedge[0], iedge[1]) for iedge in iedges)
 
         # include node attributes
         if node_data:
-- 
2.43.0


From c2319ab5aee80475a9f33cbb76c25ee26d6baeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:54 +0000
Subject: [PATCH 19/41] fix: to_snapshots with float lengths or float
 timestamps, and with a rounded end of the last snapshot

---
 dynetworkx/classes/impulsegraph.py  | 8 +++++---
 dynetworkx/classes/intervalgraph.py | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index f381fb4..88d4af1 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1292,7 +1292,7 @@ class ImpulseGraph(object):
             if length_of_snapshots < 0:
                 raise NetworkXError("IntervalGraph: length of snapshots must be bigger than 0. "
                                     "{0} was passed.".format(number_of_snapshots))
-            number_of_snapshots = (end - begin) // length_of_snapshots
+            number_of_snapshots = int((end - begin) // length_of_snapshots)
             if (end - begin) % length_of_snapshots != 0:
                 number_of_snapshots += 1
 
@@ -1306,11 +1306,13 @@ class ImpulseGraph(object):
         snapshots = []
         inclusive = (True, False)
         for i in range(number_of_snapshots):
+            snapshot_end = begin + length_of_snapshots * (i + 1)
             if i == number_of_snapshots - 1:
                 inclusive = (True, True)
+                # the last impulse belongs to the last snapshot, also if snapshot_end has been rounded down
+                snapshot_end = max(snapshot_end, end)
             snapshots.append(
-                self.to_subgraph(begin + length_of_snapshots * i,
-                                 begin + length_of_snapshots * (i + 1), inclusive=inclusive,
+                self.to_subgraph(begin + length_of_snapshots * i, snapshot_end, inclusive=inclusive,
                                  multigraph=multigraph, edge_data=edge_data, edge_timestamp_data=edge_timestamp_data,
                                  node_data=node_data))
         if return_length:
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index e1f9e4e..7f77211 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1466,7 +1466,7 @@ class IntervalGraph(object):
             if length_of_snapshots < 0:
                 raise NetworkXError("IntervalGraph: length of snapshots must be bigger than 0. "
                                     "{0} was passed.".format(number_of_snapshots))
-            number_of_snapshots = (end - begin) // length_of_snapshots
+            number_of_snapshots = int((end - begin) // length_of_snapshots)
             if (end - begin) % length_of_snapshots != 0:
                 number_of_snapshots += 1
 
-- 
2.43.0


From d6b4aece15863c4f69c52e92a10ca2a174a55b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:56 +0000
Subject: [PATCH 20/41] fix: to_snapshot_graph makes no empty extra snapshots
 when several edges end or begin at the same time

---
 dynetworkx/classes/intervalgraph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 7f77211..6d700c3 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -4,7 +4,7 @@ from networkx.exception import NetworkXError
 from dynetworkx.classes.intervaltree import IntervalTree
 from networkx.classes.multigraph import MultiGraph
 from networkx.classes.reportviews import NodeDataView
-from sortedcontainers import SortedList, SortedDict
+from sortedcontainers import SortedSet, SortedDict
 import random
 import math
 from timeit import default_timer as timer
@@ -1556,7 +1556,7 @@ class IntervalGraph(object):
         # into a snapshot graph. Snapshots' lengths are variable and each snapshot represents a change in a series edges
         # E.g: 2 edges with time intervals [(2,5), (3,7)] will be split into 3 snapshots [(2,3), (3,5), (5, 7)]
 
-        time = SortedList()  # this contains a list of sorted unique time stamp which will be used as "end" timestamp
+        time = SortedSet()  # this contains a list of sorted unique time stamp which will be used as "end" timestamp
         # for each slice in following iterations
         # We use a moving window specified by "begin" and "end" to slice each snapshots.
         begin = None
@@ -1593,6 +1593,7 @@ class IntervalGraph(object):
                             break
 
                     end = node.low
+                    time.discard(end)
                     time.add(node.high)
                     G.insert(graph=self.to_subgraph(begin=begin, end=end, multigraph=multigraph, edge_data=edge_data,
                                                     edge_interval_data=edge_interval_data, node_data=node_data),
-- 
2.43.0


From 168960a88e9bfa9b72ce63b4d8352539adcb31b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:48 +0000
Subject: [PATCH 21/41] fix: snapshot graphs treat 0 as a start or end time and
 an empty sbunch as no snapshots

---
 dynetworkx/classes/snapshotdigraph.py |  2 +-
 dynetworkx/classes/snapshotgraph.py   | 64 +++++++++++++--------------
 2 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/dynetworkx/classes/snapshotdigraph.py b/dynetworkx/classes/snapshotdigraph.py
index 2e5ee02..e9636cf 100644
--- a/dynetworkx/classes/snapshotdigraph.py
+++ b/dynetworkx/classes/snapshotdigraph.py
@@ -39,7 +39,7 @@ class SnapshotDiGraph(SnapshotGraph):
         else:
             g = graph
 
-        if time is not None and (start or end):
+        if time is not None and (start is not None or end is not None):
             raise ValueError('Time and (start or end) cannot both be specified.')
         elif time is not None:
             self.insert(g, time=time)
diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 7901bc5..799d471 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -148,7 +148,7 @@ class SnapshotGraph(object):
         >>> G.insert(nxG1, start=0, end=3)
 
         """
-        if time is not None and (start or end):
+        if time is not None and (start is not None or end is not None):
             raise ValueError('Time and (start or end) cannot both be specified.')
         elif time is not None:
             self.snapshots.update({(time, time): graph})
@@ -187,7 +187,7 @@ class SnapshotGraph(object):
         else:
             g = graph
 
-        if time is not None and (start or end):
+        if time is not None and (start is not None or end is not None):
             raise ValueError('Time and (start or end) cannot both be specified.')
         elif time is not None:
             self.insert(g, time=time)
@@ -230,9 +230,9 @@ class SnapshotGraph(object):
         subgraph = SnapshotGraph()
         subgraph.graph = self.graph
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             for key, snapshot in self._get(sbunch=sbunch):
                 subgraph.add_snapshot(graph=snapshot.subgraph(nbunch), start=key[0], end=key[1])
         else:
@@ -277,15 +277,15 @@ class SnapshotGraph(object):
         # returns a list of degrees for each graph snapshot in snapshots
         # use generator to create list of degrees
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
-            if nbunch:
+        elif sbunch is not None:
+            if nbunch is not None:
                 return [graph.degree(nbunch, weight=weight) for graph in self._get(sbunch=sbunch)]
             else:
                 return [graph.degree(graph, weight=weight) for graph in self._get(sbunch=sbunch)]
         else:
-            if nbunch:
+            if nbunch is not None:
                 return [graph.degree(nbunch, weight=weight) for graph in self._get(start=start, end=end)]
             else:
                 return [graph.degree(graph, weight=weight) for graph in self._get(start=start, end=end)]
@@ -319,9 +319,9 @@ class SnapshotGraph(object):
         """
         # returns a list of the number of nodes in each graph in the range
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.number_of_nodes() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.number_of_nodes() for graph in self._get(start=start, end=end)]
@@ -355,9 +355,9 @@ class SnapshotGraph(object):
         """
         # returns a list of the order of the graph in the range
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.order() for graph in self._get(sbunch=sbunch)]
         else:
             return [g.order() for g in self._get(start=start, end=end)]
@@ -392,9 +392,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.has_node(n) for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.has_node(n) for graph in self._get(start=start, end=end)]
@@ -428,9 +428,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.is_multigraph() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.is_multigraph() for graph in self._get(start=start, end=end)]
@@ -464,9 +464,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.is_directed() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.is_directed() for graph in self._get(start=start, end=end)]
@@ -498,9 +498,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.to_directed() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.to_directed() for graph in self._get(start=start, end=end)]
@@ -532,9 +532,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.to_undirected() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.to_undirected() for graph in self._get(start=start, end=end)]
@@ -571,9 +571,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.size(weight=weight) for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.size(weight=weight) for graph in self._get(start=start, end=end)]
@@ -620,9 +620,9 @@ class SnapshotGraph(object):
         else:
             graphs = self.snapshots.values()
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:  # if retrieve by indexes
+        elif sbunch is not None:  # if retrieve by indexes
             for index in sbunch:
                 yield graphs[index]
         else:  # if retrieve by interval
@@ -734,9 +734,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             for graph in self._get(sbunch=sbunch):
                 graph.add_nodes_from(nbunch, **attrs)
         else:
@@ -792,9 +792,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             for graph in self._get(sbunch=sbunch):
                 graph.add_edges_from(ebunch, **attrs)
         else:
@@ -930,9 +930,9 @@ class SnapshotGraph(object):
         >>> G.compute_network_statistic(nx.algorithms.centrality.degree_centrality)
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [nx_statistic_function(graph, **kwargs) for graph in self._get(sbunch=sbunch)]
         else:
             return [nx_statistic_function(graph, **kwargs) for graph in self._get(start=start, end=end)]
-- 
2.43.0


From 20e985277097415f2bdd03f8d64a5b93ff3ee50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:00 +0000
Subject: [PATCH 22/41] fix: add_snapshot takes an empty graph

---
 dynetworkx/classes/snapshotdigraph.py | 2 +-
 dynetworkx/classes/snapshotgraph.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/snapshotdigraph.py b/dynetworkx/classes/snapshotdigraph.py
index e9636cf..e5985b0 100644
--- a/dynetworkx/classes/snapshotdigraph.py
+++ b/dynetworkx/classes/snapshotdigraph.py
@@ -30,7 +30,7 @@ class SnapshotDiGraph(SnapshotGraph):
         >>> G = dnx.SnapshotGraph()
         >>> G.add_snapshot([(1, 4), (1, 3)])
         """
-        if not graph:
+        if graph is None:
             if multi is True:
                 g = MultiDiGraph()
             else:
diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 799d471..5ce06cf 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -181,7 +181,7 @@ class SnapshotGraph(object):
         >>> G = dnx.SnapshotGraph()
         >>> G.add_snapshot([(1, 4), (1, 3)], start=0, end=3)
         """
-        if not graph:
+        if graph is None:
             g = Graph()
             g.add_edges_from(ebunch)
         else:
-- 
2.43.0


From 5df5782e3bab3c790ff1d56a469de90d7f5bc3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:14 +0000
Subject: [PATCH 23/41] fix: SnapshotGraph.subgraph with snapshot indexes

---
 dynetworkx/classes/snapshotgraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 5ce06cf..53ef089 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -233,7 +233,7 @@ class SnapshotGraph(object):
         if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
         elif sbunch is not None:
-            for key, snapshot in self._get(sbunch=sbunch):
+            for key, snapshot in self._get(sbunch=sbunch, include_interval=True):
                 subgraph.add_snapshot(graph=snapshot.subgraph(nbunch), start=key[0], end=key[1])
         else:
             for key, snapshot in self._get(start=start, end=end, include_interval=True):
-- 
2.43.0


From 4129356fc4e6d78e41507c9fa9b2337fb41b72d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:27 +0000
Subject: [PATCH 24/41] fix: SnapshotGraph time windows: start after the last
 snapshot's start, gaps, and splitting at end

---
 dynetworkx/classes/snapshotgraph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 53ef089..39aaf4d 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -634,7 +634,7 @@ class SnapshotGraph(object):
                 # Decrease 1 index if start is in the middle of an interval
                 # Eg: if Keys = [(2,5)(5,6)], start=3 won't retrieve (2,5) as we want,
                 # therefore, decrease 1 index to include (2,5). If start=5, then we won't need to change
-                if min_idx > 0 and start < self.snapshots.keys()[min_idx][0]:
+                if min_idx > 0 and start < self.snapshots.keys()[min_idx - 1][1]:
                     if split_overlaps:
                         # Eg: if Keys = [(2,5)(5,6)] and start=3, split (2,5) into (2,3) and (3,5)
                         key, g = self.snapshots.popitem(min_idx - 1)
@@ -649,8 +649,8 @@ class SnapshotGraph(object):
                 max_idx = self.snapshots.bisect_left((end,))
                 # Split the snapshot if 'end' is in the middle of an interval
                 # Eg: if Keys = [(2,5)(5,9)] and end=7, split (5,9) into (5,7) and (7,9)
-                if split_overlaps and max_idx < len(self.snapshots) and end < self.snapshots.keys()[max_idx][1]:
-                    key, g = self.snapshots.popitem(max_idx)
+                if split_overlaps and max_idx > 0 and end < self.snapshots.keys()[max_idx - 1][1]:
+                    key, g = self.snapshots.popitem(max_idx - 1)
                     self.insert(g, key[0], end)
                     self.insert(copy.deepcopy(g), end, key[1])
 
-- 
2.43.0


From 7e8d4df8b3c6d295984e6047f4c5c03ca41e0138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:39 +0000
Subject: [PATCH 25/41] fix: SnapshotGraph.load_from_txt reads matrix entries
 as numbers, so zeros are not edges

---
 dynetworkx/classes/snapshotgraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 39aaf4d..8581a41 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -870,7 +870,7 @@ class SnapshotGraph(object):
                 for row in line.split(delimiter):
                     matrix.append(row.split(' '))
 
-                g = from_numpy_array(np.array(matrix))
+                g = from_numpy_array(np.array(matrix, dtype=float))
                 sg.insert(g, start=interval[0], end=interval[1])
 
         return sg
-- 
2.43.0


From 1d6af94cf8ae660a763313b6d0bc17b98039fa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:45 +0000
Subject: [PATCH 26/41] fix: SnapshotDiGraph.load_from_txt gives a
 SnapshotDiGraph of directed graphs

---
 dynetworkx/classes/snapshotdigraph.py |  1 +
 dynetworkx/classes/snapshotgraph.py   | 10 ++++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/snapshotdigraph.py b/dynetworkx/classes/snapshotdigraph.py
index e5985b0..869542c 100644
--- a/dynetworkx/classes/snapshotdigraph.py
+++ b/dynetworkx/classes/snapshotdigraph.py
@@ -4,6 +4,7 @@ from dynetworkx.classes.snapshotgraph import SnapshotGraph
 
 
 class SnapshotDiGraph(SnapshotGraph):
+    _graph_type = DiGraph
 
     def add_snapshot(self, ebunch=None, graph=None, start=None, end=None, time=None, multi=False):
         """Add a snapshot with a bunch of edge values.
diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 8581a41..7a56573 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -6,6 +6,8 @@ import copy
 
 
 class SnapshotGraph(object):
+    _graph_type = Graph
+
     def __init__(self, **attr):
         self.graph = {}
         self.graph.update(attr)
@@ -801,8 +803,8 @@ class SnapshotGraph(object):
             for graph in self._get(start=start, end=end, split_overlaps=True):
                 graph.add_edges_from(ebunch, **attrs)
 
-    @staticmethod
-    def load_from_txt(path, delimiter=";", comments="#", start='start', end='end'):
+    @classmethod
+    def load_from_txt(cls, path, delimiter=";", comments="#", start='start', end='end'):
         """Read snapshot graph in from path.
            Every line in the file must be an adjacency matrix, with rows separated by delimiter.
 
@@ -836,7 +838,7 @@ class SnapshotGraph(object):
         if delimiter == ' ' or delimiter == '\n':
             raise ValueError("Delimiter cannot be " + delimiter + ".")
 
-        sg = SnapshotGraph()
+        sg = cls()
 
         with open(path, 'r') as file:
             for line in file:
@@ -870,7 +872,7 @@ class SnapshotGraph(object):
                 for row in line.split(delimiter):
                     matrix.append(row.split(' '))
 
-                g = from_numpy_array(np.array(matrix, dtype=float))
+                g = from_numpy_array(np.array(matrix, dtype=float), create_using=cls._graph_type)
                 sg.insert(g, start=interval[0], end=interval[1])
 
         return sg
-- 
2.43.0


From f21e9e42e557fedb153940388fbbb535693d0c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:57 +0000
Subject: [PATCH 27/41] fix: from_networkx_graph, from_snapshot_graph and
 load_from_txt of IntervalDiGraph and ImpulseDiGraph keep directions

---
 dynetworkx/classes/impulsegraph.py  |  6 +++---
 dynetworkx/classes/intervalgraph.py | 18 +++++++++---------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 88d4af1..1773b11 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1381,8 +1381,8 @@ class ImpulseGraph(object):
 
         return G
 
-    @staticmethod
-    def from_networkx_graph(graph, timestamp='timestamp'):
+    @classmethod
+    def from_networkx_graph(cls, graph, timestamp='timestamp'):
         """Convert a NetworkX Graph to a ImpulseGraph.
 
         Parameters
@@ -1407,7 +1407,7 @@ class ImpulseGraph(object):
         ig = ImpulseGraph.from_networkx_graph(graph)
       """
 
-        G = ImpulseGraph()
+        G = cls()
 
         for edge in graph.edges(data=True):
             attr = {}
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 6d700c3..57418e5 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1617,8 +1617,8 @@ class IntervalGraph(object):
 
         return G
 
-    @staticmethod
-    def from_snapshot_graph(snapshot_graph, begin=0, period=1):
+    @classmethod
+    def from_snapshot_graph(cls, snapshot_graph, begin=0, period=1):
         """Convert a SnapshotGraph to a IntervalGraph.
 
         Parameters
@@ -1646,7 +1646,7 @@ class IntervalGraph(object):
         >>> sg.add_edges_from([(8,9)],weight=1)
         >>> ig = IntervalGraph.from_snapshot_graph(sg,0,1)
         """
-        G = IntervalGraph()
+        G = cls()
         edge_dict = {}
 
         for snapshot in snapshot_graph.get():
@@ -1670,8 +1670,8 @@ class IntervalGraph(object):
 
         return G
 
-    @staticmethod
-    def from_networkx_graph(graph, begin='begin', end='end'):
+    @classmethod
+    def from_networkx_graph(cls, graph, begin='begin', end='end'):
         """Convert a NetworkX Graph to a IntervalGraph.
 
         Parameters
@@ -1699,7 +1699,7 @@ class IntervalGraph(object):
         ig = IntervalGraph.from_networkx_graph(graph)
       """
 
-        G = IntervalGraph()
+        G = cls()
 
         for edge in graph.edges(data=True):
             attr = {}
@@ -1712,8 +1712,8 @@ class IntervalGraph(object):
 
         return G
 
-    @staticmethod
-    def load_from_txt(path, delimiter=" ", nodetype=int, intervaltype=float, order=('u', 'v', 'begin', 'end'),
+    @classmethod
+    def load_from_txt(cls, path, delimiter=" ", nodetype=int, intervaltype=float, order=('u', 'v', 'begin', 'end'),
                       merge=(False, 0), predict=False, comments="#"):
         """Read interval graph in from path.
            Both interval times must be integers or floats.
@@ -1772,7 +1772,7 @@ class IntervalGraph(object):
         types (e.g. int, float, str, frozenset - or tuples of those, etc.)
         """
 
-        G = IntervalGraph()
+        G = cls()
 
         if delimiter == '=':
             raise ValueError("Delimiter cannot be =.")
-- 
2.43.0


From c41b1b8c786c8245a64003f52c49abdc7b0856ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:08 +0000
Subject: [PATCH 28/41] fix: load_from_txt skips blank lines and lines with
 only a comment after whitespace

---
 dynetworkx/classes/impulsedigraph.py | 2 +-
 dynetworkx/classes/impulsegraph.py   | 2 +-
 dynetworkx/classes/intervalgraph.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index d0c1ee3..8a870c1 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -1113,7 +1113,7 @@ class ImpulseDiGraph(ImpulseGraph):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not len(line.strip()):
                     continue
 
                 line = re.split(delimiter+'+', line.strip())
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 1773b11..010e677 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1485,7 +1485,7 @@ class ImpulseGraph(object):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not len(line.strip()):
                     continue
 
                 line = line.rstrip().split(delimiter)
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 57418e5..aabb099 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1786,7 +1786,7 @@ class IntervalGraph(object):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not len(line.strip()):
                     continue
 
                 line = line.rstrip().split(delimiter)
-- 
2.43.0


From 24edaf51de09ef4e4aae02a123ad05f18af9adac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:22 +0000
Subject: [PATCH 29/41] fix: ImpulseDiGraph.load_from_txt takes any delimiter
 literally

---
 dynetworkx/classes/impulsedigraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 8a870c1..0ef2135 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -1116,7 +1116,7 @@ class ImpulseDiGraph(ImpulseGraph):
                 if not len(line.strip()):
                     continue
 
-                line = re.split(delimiter+'+', line.strip())
+                line = re.split('(?:' + re.escape(delimiter) + ')+', line.strip())
 
                 u = line[order.index('u')]
                 v = line[order.index('v')]
-- 
2.43.0


From 8e0e570838107856459b58535b243fcd0f1745ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:36 +0000
Subject: [PATCH 30/41] fix: load_from_txt with a duration reads every edge
 attribute

---
 dynetworkx/classes/intervalgraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index aabb099..5cb0d4e 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1804,7 +1804,7 @@ class IntervalGraph(object):
 
                 edgedata = {}
                 try:
-                    for data in line[4:]:
+                    for data in line[len([column for column in order if isinstance(column, str)]):]:
                         key, value = data.split('=')
                         try:
                             value = float(value)
-- 
2.43.0


From 3d1d5cd7440db3f35aaebcab1a9f7437c0a05549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:48 +0000
Subject: [PATCH 31/41] fix: load_from_txt with merge

---
 dynetworkx/classes/intervalgraph.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 5cb0d4e..f808bce 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1835,13 +1835,10 @@ class IntervalGraph(object):
 
                 if merge[0]:
                     for edge, edge_data in G.edges(u, v, begin - merge[1] - 1, end + merge[1] + 1, data=True):
-                        if edge_data != edgedata:
-                            G.add_edge(u, v, begin, end ** edgedata)
-                        else:
-                            begin = min(begin, edge[0])
-                            end = max(end, edge[1])
-                            G.remove_edge(u, v, edge[0], edge[1])
-                            G.add_edge(u, v, begin, end, **edgedata)
+                        if edge_data == edgedata:
+                            begin = min(begin, edge[2])
+                            end = max(end, edge[3])
+                            G.remove_edge(*edge, overlapping=False)
 
                 G.add_edge(u, v, begin, end, **edgedata)
 
-- 
2.43.0


From 5292acdf935a4b3d79e6a164ee42701d9dd84b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:25 +0000
Subject: [PATCH 32/41] fix: count_temporal_motif counts motifs of a node 0

---
 dynetworkx/algorithms/count_temporal_motif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/algorithms/count_temporal_motif.py b/dynetworkx/algorithms/count_temporal_motif.py
index 94afbae..98de2ce 100644
--- a/dynetworkx/algorithms/count_temporal_motif.py
+++ b/dynetworkx/algorithms/count_temporal_motif.py
@@ -153,7 +153,7 @@ def count_temporal_motif(G, sequence, delta):
                 isomorphic = True
                 # check matching sequences (node sequence vs key)
                 for n in range(len(node_sequence)):
-                    if node_map.get(node_sequence[n]):
+                    if node_sequence[n] in node_map:
                         if node_map[node_sequence[n]] == keys[n]:
                             continue
                         else:
-- 
2.43.0


From ccf284cb0891ff85bddbfaede7709f41e204ba4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:04 +0000
Subject: [PATCH 33/41] fix: count_temporal_motif counts every instance of a
 one-edge motif

---
 dynetworkx/algorithms/count_temporal_motif.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dynetworkx/algorithms/count_temporal_motif.py b/dynetworkx/algorithms/count_temporal_motif.py
index 98de2ce..061320f 100644
--- a/dynetworkx/algorithms/count_temporal_motif.py
+++ b/dynetworkx/algorithms/count_temporal_motif.py
@@ -222,6 +222,10 @@ def __decrement_counts(edges, motif_length, counts):
     -------
     None
     """
+    # counts of whole motifs are final, only those of shorter sequences follow the window
+    if motif_length == 1:
+        return
+
     suffixes = sorted(counts.keys(), key=len)
     for e in edges:
         counts[e] -= 1
-- 
2.43.0


From 65d7967e6a857b74a8c52cb7548a2b0d96fae427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:52 +0000
Subject: [PATCH 34/41] fix: IntervalDiGraph.degree(delta=True) lists changes
 at the same time in the order they happen

---
 dynetworkx/classes/intervaldigraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 2c18226..5a1eb69 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -738,7 +738,7 @@ class IntervalDiGraph(IntervalGraph):
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
-        return sorted(output)
+        return output
 
     def in_degree(self, node=None, begin=None, end=None, delta=False):
         """Return the in-degree of a specified node between time begin and end.
-- 
2.43.0


From 22b642cd71dc18f56c5769079e067222a0613f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:25 +0000
Subject: [PATCH 35/41] fix: in_degree and out_degree of IntervalDiGraph list
 changes at the same time in order too

---
 dynetworkx/classes/intervaldigraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 5a1eb69..b6d5307 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -816,7 +816,7 @@ class IntervalDiGraph(IntervalGraph):
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
-        return sorted(output)
+        return output
 
     def out_degree(self, node=None, begin=None, end=None, delta=False):
         """Return the out-degree of a specified node between time begin and end.
@@ -894,7 +894,7 @@ class IntervalDiGraph(IntervalGraph):
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
-        return sorted(output)
+        return output
 
     def to_networkx_graph(self, begin, end, multigraph=False, edge_data=False, edge_interval_data=False, node_data=False):
         """Return a networkx DiGraph or MultiDiGraph which includes all the nodes and
-- 
2.43.0


From bbc37c6bcb542350e12927e3a3fc4508173d9c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:04 +0000
Subject: [PATCH 36/41] fix: refuse an interval edge which ends before it
 begins

---
 dynetworkx/classes/intervaldigraph.py | 3 +++
 dynetworkx/classes/intervalgraph.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index b6d5307..b2635eb 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -139,6 +139,9 @@ class IntervalDiGraph(IntervalGraph):
 
         iedge = (u, v, begin, end)
 
+        if begin > end:
+            raise NetworkXError("IntervalDiGraph: edge cannot end before it begins {0}.".format(iedge))
+
         # add nodes
 
         self._pred.setdefault(u, {}).setdefault(v, {})
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index f808bce..a5e0764 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -689,6 +689,9 @@ class IntervalGraph(object):
 
         iedge = (u, v, begin, end)
 
+        if begin > end:
+            raise NetworkXError("IntervalGraph: edge cannot end before it begins {0}.".format(iedge))
+
         # add nodes
         self._adj.setdefault(u, {}).setdefault(v, {})
         self._adj.setdefault(v, {}).setdefault(u, {})
-- 
2.43.0


From 45d0dd447b0647b03747193b9fae92de2aadfeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:04 +0000
Subject: [PATCH 37/41] fix: skip blank lines when loading a snapshot graph
 from text

---
 dynetworkx/classes/snapshotgraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 7a56573..3e926c1 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -845,7 +845,7 @@ class SnapshotGraph(object):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not line.strip():
                     continue
 
                 p = min(line.find(start), line.find(end))
-- 
2.43.0


From 9c1d4ceea24e4d2887091611b2786500ea291f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:04 +0000
Subject: [PATCH 38/41] fix: refuse snapshots of length zero

---
 dynetworkx/classes/impulsegraph.py  | 2 +-
 dynetworkx/classes/intervalgraph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 010e677..a84c1f4 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1289,7 +1289,7 @@ class ImpulseGraph(object):
 
         begin, end = self.interval()
         if type(length_of_snapshots) is int or type(length_of_snapshots) is float:
-            if length_of_snapshots < 0:
+            if length_of_snapshots <= 0:
                 raise NetworkXError("IntervalGraph: length of snapshots must be bigger than 0. "
                                     "{0} was passed.".format(number_of_snapshots))
             number_of_snapshots = int((end - begin) // length_of_snapshots)
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index a5e0764..bd4dd24 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1466,7 +1466,7 @@ class IntervalGraph(object):
 
         begin, end = self.interval()
         if type(length_of_snapshots) is int or type(length_of_snapshots) is float:
-            if length_of_snapshots < 0:
+            if length_of_snapshots <= 0:
                 raise NetworkXError("IntervalGraph: length of snapshots must be bigger than 0. "
                                     "{0} was passed.".format(number_of_snapshots))
             number_of_snapshots = int((end - begin) // length_of_snapshots)
-- 
2.43.0


From 8d29e37f0e5f89ee641210fbbb05e53767da31e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:27 +0000
Subject: [PATCH 39/41] fix: list no degree changes beyond the last edge, or
 without edges, instead of raising

---
 dynetworkx/classes/intervaldigraph.py | 36 ++++++++++++++++++---------
 dynetworkx/classes/intervalgraph.py   | 12 ++++++---
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index b2635eb..18c830d 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -709,10 +709,14 @@ class IntervalDiGraph(IntervalGraph):
                    len(self.edges(v=node, begin=begin, end=end))
 
         # delta == True, return list of changes
-        if begin is None:
-            begin = self.tree.begin
-        if end is None:
-            end = self.tree.end
+        if begin is None or end is None:
+            if begin is None:
+                begin = self.tree.begin
+            if end is None:
+                end = self.tree.end
+            # no edge lies beyond the given bound, or there are no edges at all
+            if begin > end:
+                return []
 
         current_degree = self.degree(node, begin=begin, end=begin)
         sd = SortedDict()
@@ -794,10 +798,14 @@ class IntervalDiGraph(IntervalGraph):
             return len(self.edges(v=node, begin=begin, end=end))
 
         # delta == True, return list of changes
-        if begin == None:
-            begin = self.tree.begin
-        if end == None:
-            end = self.tree.end
+        if begin == None or end == None:
+            if begin == None:
+                begin = self.tree.begin
+            if end == None:
+                end = self.tree.end
+            # no edge lies beyond the given bound, or there are no edges at all
+            if begin > end:
+                return []
 
         current_degree = self.in_degree(node, begin=begin, end=begin)
         sd = SortedDict()
@@ -872,10 +880,14 @@ class IntervalDiGraph(IntervalGraph):
             return len(self.edges(u=node, begin=begin, end=end))
 
         # delta == True, return list of changes
-        if begin == None:
-            begin = self.tree.begin
-        if end == None:
-            end = self.tree.end
+        if begin == None or end == None:
+            if begin == None:
+                begin = self.tree.begin
+            if end == None:
+                end = self.tree.end
+            # no edge lies beyond the given bound, or there are no edges at all
+            if begin > end:
+                return []
 
         current_degree = self.out_degree(node, begin=begin, end=begin)
         sd = SortedDict()
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index bd4dd24..ca98af3 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1166,10 +1166,14 @@ class IntervalGraph(object):
             return len(self.edges(u=node, begin=begin, end=end))
 
         # delta == True, return list of changes
-        if begin == None:
-            begin = self.tree.begin
-        if end == None:
-            end = self.tree.end
+        if begin == None or end == None:
+            if begin == None:
+                begin = self.tree.begin
+            if end == None:
+                end = self.tree.end
+            # no edge lies beyond the given bound, or there are no edges at all
+            if begin > end:
+                return []
 
         current_degree = self.degree(node, begin=begin, end=begin)
         sd = SortedDict()
-- 
2.43.0


From 379b138c945ccc7f2275397fa04edcf8a6caf886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:35 +0000
Subject: [PATCH 40/41] fix: what cannot be a node is not in an impulse graph,
 instead of raising

---
 dynetworkx/classes/impulsegraph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index a84c1f4..232c043 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -196,7 +196,10 @@ class ImpulseGraph(object):
         True
         """
 
-        return n in self._node
+        try:
+            return n in self._node
+        except TypeError:
+            return False
 
     def interval(self):
         """Return a 2-tuple as (begin, end) interval of the entire
-- 
2.43.0


From 27a8db3c472ab419ffff58832dda07a8d8c08aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:24 +0000
Subject: [PATCH 41/41] fix: add edges and nodes to every snapshot, also when
 they come from an iterator

---
 dynetworkx/classes/snapshotgraph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 3e926c1..3807ba7 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -736,6 +736,9 @@ class SnapshotGraph(object):
 
         """
 
+        # nbunch is needed once for each snapshot
+        nbunch = list(nbunch)
+
         if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
         elif sbunch is not None:
@@ -794,6 +797,9 @@ class SnapshotGraph(object):
 
         """
 
+        # ebunch is needed once for each snapshot
+        ebunch = list(ebunch)
+
         if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
         elif sbunch is not None:
-- 
2.43.0


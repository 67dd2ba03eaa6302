From b120560081a02e6876912b26612e76f95849ffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:44 +0000
Subject: [PATCH 001/116] fix: graph equality must compare which shared node an
 edge leads back to

dag_equal only recorded that a child had been visited, so two DAGs whose
edges lead to different, equal-looking shared nodes compared equal.
---
 hatchet/graph.py |  4 ++--
 hatchet/node.py  | 18 ++++++++++--------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 55194bd..17d1958 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -387,8 +387,8 @@ class Graph:
         """Check if two graphs have the same structure by comparing frame at each
         node.
         """
-        vs = set()
-        vo = set()
+        vs = {}
+        vo = {}
 
         # if both graphs are pointing to the same object, then graphs are equal
         if self is other:
diff --git a/hatchet/node.py b/hatchet/node.py
index 672627a..42dc395 100644
--- a/hatchet/node.py
+++ b/hatchet/node.py
@@ -75,13 +75,14 @@ class Node:
         """Check if DAG rooted at self has the same structure as that rooted at
         other.
         """
+        # vs and vo map the id of each visited node to its visit number
         if vs is None:
-            vs = set()
+            vs = {}
         if vo is None:
-            vo = set()
+            vo = {}
 
-        vs.add(self._hatchet_nid)
-        vo.add(other._hatchet_nid)
+        vs[self._hatchet_nid] = len(vs)
+        vo[other._hatchet_nid] = len(vo)
 
         # if number of children do not match, then nodes are not equal
         if len(self.children) != len(other.children):
@@ -96,15 +97,16 @@ class Node:
             if self_child.frame != other_child.frame:
                 return False
 
-            visited_s = self_child._hatchet_nid in vs
-            visited_o = other_child._hatchet_nid in vo
+            visited_s = vs.get(self_child._hatchet_nid)
+            visited_o = vo.get(other_child._hatchet_nid)
 
-            # check for duplicate nodes
+            # check for duplicate nodes: both sides must be new, or both must
+            # lead back to the same previously visited node
             if visited_s != visited_o:
                 return False
 
             # skip visited nodes
-            if visited_s or visited_o:
+            if visited_s is not None:
                 continue
 
             # recursive check for node equality
-- 
2.43.0


From 8fb87992fd144d830830393b0da5cb4493c06c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:04 +0000
Subject: [PATCH 002/116] fix: keep node order when copying a graph ordered by
 node id

Graph.copy created nodes without ids and then renumbered a node_ordering
graph by those ids, so the recorded order was lost in copy and deepcopy.
---
 hatchet/graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 17d1958..7b281dd 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -177,7 +177,10 @@ class Graph:
 
         # first pass creates new nodes
         for node in self.traverse():
-            old_to_new[node] = node.copy()
+            new_node = node.copy()
+            # keep the id, which holds the order of node_ordering graphs
+            new_node._hatchet_nid = node._hatchet_nid
+            old_to_new[node] = new_node
 
         # second pass hooks up parents and children
         for old, new in old_to_new.items():
-- 
2.43.0


From 116999774375edacd74d2857e2fd7b27541752a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:24 +0000
Subject: [PATCH 003/116] fix: graph union must keep every edge of graphs with
 shared nodes

When matching nodes had already been mapped to different new nodes, the
edge to the second one was dropped, losing its call paths; and nodes mapped
to the same new node were connected to their parent twice.
---
 hatchet/graph.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 7b281dd..f3ae0b3 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -236,7 +236,14 @@ class Graph:
 
             new_children = []
 
+            # ids of the new nodes that are already connected to parent
+            connected = set(id(n) for n in parent.children) if parent else set()
+
             def connect(parent, new_node):
+                # several old children may be mapped to the same new node
+                if id(new_node) in connected:
+                    return
+                connected.add(id(new_node))
                 if parent:
                     parent.add_child(new_node)
                     new_node.add_parent(parent)
@@ -303,6 +310,10 @@ class Graph:
                     )
 
                     connect(parent, new_node)
+                    if other_mapped and other_mapped is not new_node:
+                        # both nodes were already mapped, but to different new
+                        # nodes: keep the edges to both of them
+                        connect(parent, other_mapped)
                     self_child = next(self_children, None)
                     other_child = next(other_children, None)
 
-- 
2.43.0


From eb0e1d48bc74e14405b45dec33b19d2bf9b0f1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 004/116] fix: parallel filter must return the graph's own
 nodes in row order

Worker processes sent back whole rows, so their nodes were unpickled copies
that belong to no graph (unify and arithmetic on an unsquashed result raised
KeyError), in the order the workers finished; and workers without rows failed.
---
 hatchet/graphframe.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 822720a..3c6edc8 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -42,10 +42,17 @@ except ImportError:
 
 def parallel_apply(filter_function, dataframe, queue):
     """A function called in parallel, which does a pandas apply on part of a
-    dataframe and returns the results via multiprocessing queue function."""
-    filtered_rows = dataframe.apply(filter_function, axis=1)
-    filtered_df = dataframe[filtered_rows]
-    queue.put(filtered_df)
+    dataframe and returns the labels of the rows that pass the filter via
+    multiprocessing queue function.
+
+    Only labels are returned, as the nodes in the rows would become copies when
+    sent between processes."""
+    filtered_index = dataframe.index
+    # apply does not return a value per row if there are no rows
+    if not dataframe.empty:
+        filtered_rows = dataframe.apply(filter_function, axis=1)
+        filtered_index = dataframe[filtered_rows].index
+    queue.put(filtered_index.values)
 
 
 class GraphFrame:
@@ -472,7 +479,7 @@ class GraphFrame:
                 # perform filter in parallel (default)
                 queue = mp.Queue()
                 processes = []
-                returned_frames = []
+                returned_rows = []
                 subframes = np.array_split(dataframe_copy, num_procs)
 
                 # Manually create a number of processes equal to the number of
@@ -485,18 +492,18 @@ class GraphFrame:
                     process.start()
                     processes.append(process)
 
-                # Stores filtered subframes in a list: 'returned_frames', for
-                # pandas concatenation. This intermediary list is used because
-                # pandas concat is faster when called only once on a list of
-                # dataframes, than when called multiple times appending onto a
-                # frame of increasing size.
+                # Stores labels of the filtered rows in a list: 'returned_rows'.
+                # The processes may finish in any order, so the labels are
+                # sorted to keep the order of the rows.
                 for pid in range(num_procs):
-                    returned_frames.append(queue.get())
+                    returned_rows.append(queue.get())
 
                 for proc in processes:
                     proc.join()
 
-                filtered_df = pd.concat(returned_frames)
+                filtered_df = dataframe_copy.loc[
+                    np.sort(np.concatenate(returned_rows))
+                ]
 
             else:
                 # perform filter sequentiually if num_procs = 1
-- 
2.43.0


From bd0d598614bed80025128214a933bff4d1de7005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 005/116] fix: parallel filter must fail, not hang, when a
 worker fails

A predicate that raised (or a worker that was killed) left the caller waiting
for a result that never comes.
---
 hatchet/graphframe.py | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 3c6edc8..f01ef5d 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -8,6 +8,7 @@ import sys
 import traceback
 
 from collections import defaultdict
+from queue import Empty
 
 import pandas as pd
 import numpy as np
@@ -46,13 +47,17 @@ def parallel_apply(filter_function, dataframe, queue):
     multiprocessing queue function.
 
     Only labels are returned, as the nodes in the rows would become copies when
-    sent between processes."""
-    filtered_index = dataframe.index
-    # apply does not return a value per row if there are no rows
-    if not dataframe.empty:
-        filtered_rows = dataframe.apply(filter_function, axis=1)
-        filtered_index = dataframe[filtered_rows].index
-    queue.put(filtered_index.values)
+    sent between processes. If the filter raises, a description of the error is
+    returned instead."""
+    try:
+        filtered_index = dataframe.index
+        # apply does not return a value per row if there are no rows
+        if not dataframe.empty:
+            filtered_rows = dataframe.apply(filter_function, axis=1)
+            filtered_index = dataframe[filtered_rows].index
+        queue.put((filtered_index.values, None))
+    except Exception:
+        queue.put((None, traceback.format_exc()))
 
 
 class GraphFrame:
@@ -495,12 +500,28 @@ class GraphFrame:
                 # Stores labels of the filtered rows in a list: 'returned_rows'.
                 # The processes may finish in any order, so the labels are
                 # sorted to keep the order of the rows.
-                for pid in range(num_procs):
-                    returned_rows.append(queue.get())
+                errors = []
+                while len(returned_rows) + len(errors) < num_procs:
+                    is_running = any(proc.is_alive() for proc in processes)
+                    try:
+                        rows, error = queue.get(timeout=0.5)
+                    except Empty:
+                        # do not wait for processes that ended without a result
+                        if not is_running:
+                            errors.append("A filter process ended unexpectedly.")
+                            break
+                        continue
+                    if error is None:
+                        returned_rows.append(rows)
+                    else:
+                        errors.append(error)
 
                 for proc in processes:
                     proc.join()
 
+                if errors:
+                    raise RuntimeError("Parallel filter failed:\n" + errors[0])
+
                 filtered_df = dataframe_copy.loc[
                     np.sort(np.concatenate(returned_rows))
                 ]
-- 
2.43.0


From 3214e90cc9b4c399ae47fac6a9989dd72c10aebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:49 +0000
Subject: [PATCH 006/116] fix: renumber nodes after squash merges equal-frame
 siblings

The merged graph kept the ids from before the merge, leaving gaps and ids
out of traversal order.
---
 hatchet/graphframe.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index f01ef5d..39803b8 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -645,6 +645,10 @@ class GraphFrame:
         merges = graph.normalize()
         df["node"] = df["node"].apply(lambda n: merges.get(n, n))
 
+        # merging leaves gaps in the node ids
+        if merges:
+            graph.enumerate_traverse()
+
         self.dataframe.set_index(index_names, inplace=True)
         df.set_index(index_names, inplace=True)
         # create dict that stores aggregation function for each column
-- 
2.43.0


From feb86b3fd96353387a82c72b2119ee8e2d787c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 007/116] fix: inclusive metrics of frames indexed by node,
 rank and thread

DataFrame.loc[(node, rank, thread), column] = value makes pandas look the whole
key up in the three-level index, which compares nodes with ranks and raises
AttributeError. Name the column in a list, so that it is taken as a column.
---
 hatchet/graphframe.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 39803b8..381898f 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -744,8 +744,10 @@ class GraphFrame:
                             df_index1 = (node, rank_thread)
                             df_index2 = ([node] + node.children, rank_thread)
 
+                        # the column is given as a list, as pandas would try to
+                        # find (df_index1, col) in the index otherwise
                         for col in out_columns:
-                            self.dataframe.loc[df_index1, col] = function(
+                            self.dataframe.loc[df_index1, [col]] = function(
                                 self.dataframe.loc[df_index2, col]
                             )
                 else:
@@ -806,10 +808,12 @@ class GraphFrame:
                         df_index1 = (node, rank_thread)
                         df_index2 = (subgraph_nodes, rank_thread)
 
+                    # the column is given as a list, as pandas would try to
+                    # find (df_index1, col) in the index otherwise
                     for col in out_columns:
-                        self.dataframe.loc[df_index1, col] = [
-                            function(self.dataframe.loc[df_index2, col])
-                        ]
+                        self.dataframe.loc[df_index1, [col]] = function(
+                            self.dataframe.loc[df_index2, col]
+                        )
             else:
                 # TODO: if you take the list constructor away from the
                 # TODO: assignment below, this assignment gives NaNs. Why?
-- 
2.43.0


From b9cca1d406dfb9ef3b44aa6860198b9d523f9c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:26 +0000
Subject: [PATCH 008/116] fix: subgraph sums must not add up values that are
 already sums

In graphs with shared nodes an ancestor may be visited after one of its
descendants. The sums of indexed-by-rank frames and in-place sums read the
column being written, so the descendant's part was counted twice.
---
 hatchet/graphframe.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 381898f..8e4a92e 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -781,6 +781,10 @@ class GraphFrame:
             self.subtree_sum(columns, out_columns, function)
             return
 
+        # always sum the original values, as the output columns already contain
+        # the sums of the nodes that have been visited
+        values = self.dataframe[columns].copy()
+
         out_columns = self._init_sum_columns(columns, out_columns)
         for node in self.graph.traverse():
             subgraph_nodes = list(node.traverse())
@@ -810,15 +814,15 @@ class GraphFrame:
 
                     # the column is given as a list, as pandas would try to
                     # find (df_index1, col) in the index otherwise
-                    for col in out_columns:
-                        self.dataframe.loc[df_index1, [col]] = function(
-                            self.dataframe.loc[df_index2, col]
+                    for col, out in zip(columns, out_columns):
+                        self.dataframe.loc[df_index1, [out]] = function(
+                            values.loc[df_index2, col]
                         )
             else:
                 # TODO: if you take the list constructor away from the
                 # TODO: assignment below, this assignment gives NaNs. Why?
                 self.dataframe.loc[(node), out_columns] = list(
-                    function(self.dataframe.loc[(subgraph_nodes), columns])
+                    function(values.loc[(subgraph_nodes), columns])
                 )
 
     def generate_exclusive_columns(self, inc_metrics=None):
-- 
2.43.0


From 3eec0cc21f8e98583adc02ef636fb47af698c97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:46 +0000
Subject: [PATCH 009/116] fix: subtree sums must reach past nodes without a row
 for the rank

If a child has no row for a rank or thread but its own children have, their
values were missing from the inclusive metrics of all ancestors.
---
 hatchet/graphframe.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 8e4a92e..826ae8a 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -737,12 +737,21 @@ class GraphFrame:
                         # We check if rank_thread is a tuple and if it is, we
                         # create a tuple of (node, rank, thread). If not, we create
                         # a tuple of (node, rank).
-                        if isinstance(rank_thread, tuple):
-                            df_index1 = (node,) + rank_thread
-                            df_index2 = ([node] + node.children,) + rank_thread
-                        else:
-                            df_index1 = (node, rank_thread)
-                            df_index2 = ([node] + node.children, rank_thread)
+                        if not isinstance(rank_thread, tuple):
+                            rank_thread = (rank_thread,)
+                        df_index1 = (node,) + rank_thread
+
+                        # a child may lack a row for this rank and thread,
+                        # look for the rows of its descendants then
+                        nodes = [node]
+                        pending = list(node.children)
+                        while pending:
+                            child = pending.pop()
+                            if (child,) + rank_thread in self.dataframe.index:
+                                nodes.append(child)
+                            else:
+                                pending.extend(child.children)
+                        df_index2 = (nodes,) + rank_thread
 
                         # the column is given as a list, as pandas would try to
                         # find (df_index1, col) in the index otherwise
-- 
2.43.0


From 8e4df86189eab29002f45917f2ddfb4c9b15f3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 010/116] fix: generate exclusive columns of frames in which a
 child lacks a row

A child without a row for a rank or thread raised KeyError; it has no inclusive
value to subtract.
---
 hatchet/graphframe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 826ae8a..493b718 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -898,6 +898,9 @@ class GraphFrame:
                         for child in node.children:
                             # TODO: See note about full_idx above
                             child_idx = tuple([child]) + tuple(non_node_idx)
+                            # A child may lack a row for this part of the MultiIndex
+                            if child_idx not in self.dataframe.index:
+                                continue
                             inc_sum += np.nan_to_num(self.dataframe.loc[child_idx, inc])
                         # Subtract the current node's inclusive metric from the previously calculated sum to
                         # get the exclusive metric value for the node
-- 
2.43.0


From b1921a66ebae5a6ac7be7c3b71a5c33f9b217c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:08 +0000
Subject: [PATCH 011/116] fix: arithmetic on three-level indices, and on frames
 sharing their data

DataFrame.update raises AttributeError for frames indexed by node, rank and
thread, and writes in place: gf1 += gf2 also changed shallow copies of gf1.
---
 hatchet/graphframe.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 493b718..642307a 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1297,7 +1297,15 @@ class GraphFrame:
             )
         )
 
-        self.dataframe.update(op(other.dataframe[all_metrics]))
+        result = op(other.dataframe[all_metrics])
+
+        # update the columns one by one, as DataFrame.update fails for indices
+        # with three levels and writes to data that is shared with shallow copies
+        for metric in all_metrics:
+            if metric in self.dataframe.columns:
+                column = self.dataframe[metric].copy()
+                column.update(result[metric])
+                self.dataframe[metric] = column
 
         return self
 
-- 
2.43.0


From d7b9e5b1e53e8facf0ddc548e5edac2980cee144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:29 +0000
Subject: [PATCH 012/116] fix: call path queries must find all matching paths

A '*' in the middle of a query ended at the first node that matches the next
query node, so paths on which a later node matches were missed. Neither could
consecutive '*' (or '+', '*') all match no node. Try both to end and to continue
the wildcard, and let it be followed by an empty wildcard.
---
 hatchet/query/engine.py | 70 ++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 32 deletions(-)

diff --git a/hatchet/query/engine.py b/hatchet/query/engine.py
index 707a565..f0c9a63 100644
--- a/hatchet/query/engine.py
+++ b/hatchet/query/engine.py
@@ -3,7 +3,7 @@
 #
 # SPDX-License-Identifier: MIT
 
-from itertools import groupby
+from collections import OrderedDict
 import pandas as pd
 
 from .errors import InvalidQueryFilter
@@ -100,34 +100,38 @@ class QueryEngine:
         # Cache the node if it's not already cached
         if node._hatchet_nid not in self.search_cache:
             self._cache_node(node, query, dframe)
-        # If the node matches with the next non-wildcard query node,
-        # end the recursion and return the node.
-        if wcard_idx + 1 in self.search_cache[node._hatchet_nid]:
-            return [[]]
+        # Check if all the query nodes after the "*" can match 0 nodes.
+        is_last = all(w == "*" for w, _ in query.query_pattern[wcard_idx + 1 :])
+        matches = []
+        # If the node matches with the next query node, the "*" predicate can
+        # end before the node. Another "*" predicate can always come next.
+        if wcard_idx + 1 < len(query) and (
+            query.query_pattern[wcard_idx + 1][0] == "*"
+            or wcard_idx + 1 in self.search_cache[node._hatchet_nid]
+        ):
+            matches.append([])
         # If the node matches the "*" wildcard query, recursively
         # apply this function to the current node's children. Then,
         # collect their returned matches, and prepend the current node.
-        elif wcard_idx in self.search_cache[node._hatchet_nid]:
-            matches = []
-            if len(node.children) == 0:
-                if wcard_idx == len(query) - 1:
-                    return [[node]]
-                return None
+        # This is also done if the "*" predicate could end before the node, as
+        # the next query node may match other nodes further down.
+        if wcard_idx in self.search_cache[node._hatchet_nid]:
+            sub_matches = []
+            if len(node.children) == 0 and is_last:
+                sub_matches.append([])
             for child in sorted(node.children, key=traversal_order):
                 sub_match = self._match_0_or_more(query, dframe, child, wcard_idx)
                 if sub_match is not None:
-                    matches.extend(sub_match)
-            if len(matches) == 0:
-                return None
-            tmp = set(tuple(m) for m in matches)
-            matches = [list(t) for t in tmp]
-            return [[node] + m for m in matches]
+                    sub_matches.extend(sub_match)
+            tmp = set(tuple(m) for m in sub_matches)
+            matches.extend([node] + list(t) for t in tmp)
         # If the current node doesn't match the current "*" wildcard or
-        # the next non-wildcard query node, return None.
-        else:
-            if wcard_idx == len(query) - 1:
-                return [[]]
+        # the next query node, return None unless the query ends here.
+        elif wcard_idx == len(query) - 1:
+            matches.append([])
+        if len(matches) == 0:
             return None
+        return matches
 
     def _match_1(self, query, dframe, node, idx):
         """Process a "." predicate in the query on a subgraph.
@@ -173,7 +177,7 @@ class QueryEngine:
         # Starting query node
         pattern_idx = match_idx + 1
         if query.query_pattern[match_idx][0] == "*":
-            pattern_idx = 0
+            pattern_idx = match_idx
         # Starting matching pattern
         matches = [[pattern_root]]
         while pattern_idx < len(query):
@@ -211,9 +215,9 @@ class QueryEngine:
                 for s in sub_match:
                     if s is not None:
                         new_matches.append(m + s)
-                new_matches = [uniq_match for uniq_match, _ in groupby(new_matches)]
-            # Overwrite the old matches with the updated matches
-            matches = new_matches
+            # Overwrite the old matches with the updated matches. Different ways
+            # of matching a path to the query are only considered once.
+            matches = [list(m) for m in OrderedDict.fromkeys(map(tuple, new_matches))]
             # If all the existing partial matches were not able to be
             # expanded into full matches, return None.
             if len(matches) == 0:
@@ -242,15 +246,17 @@ class QueryEngine:
         # If the node matches the starting/root node of the query,
         # try to get all query matches in the subgraph rooted at
         # this node.
-        if query.query_pattern[0][0] == "*":
-            if 1 in self.search_cache[node._hatchet_nid]:
-                sub_match = self._match_pattern(query, dframe, node, 1)
+        # If the query starts with "*" wildcards, the path can start at the
+        # query nodes after them, too.
+        start_idx = 0
+        while start_idx < len(query):
+            if start_idx in self.search_cache[node._hatchet_nid]:
+                sub_match = self._match_pattern(query, dframe, node, start_idx)
                 if sub_match is not None:
                     matches.extend(sub_match)
-        if 0 in self.search_cache[node._hatchet_nid]:
-            sub_match = self._match_pattern(query, dframe, node, 0)
-            if sub_match is not None:
-                matches.extend(sub_match)
+            if query.query_pattern[start_idx][0] != "*":
+                break
+            start_idx += 1
         # Note that the node is now visited.
         visited.add(node._hatchet_nid)
         # Continue the Depth First Search.
-- 
2.43.0


From d6e1eb154468fa1095b2de544f8aef882c4f8daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:52 +0000
Subject: [PATCH 013/116] fix: every alternative of a regex in an object query
 must match the whole text

---
 hatchet/query/object_dialect.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/object_dialect.py b/hatchet/query/object_dialect.py
index e401037..7717bf6 100644
--- a/hatchet/query/object_dialect.py
+++ b/hatchet/query/object_dialect.py
@@ -27,6 +27,11 @@ def _process_multi_index_mode(apply_result, multi_index_mode):
     )
 
 
+def _matches_regex(regex, value):
+    """Checks whether the regex matches the whole value"""
+    return re.fullmatch(regex, value) is not None
+
+
 def _process_predicate(attr_filter, multi_index_mode):
     """Converts high-level API attribute filter to a lambda"""
     compops = ("<", ">", "==", ">=", "<=", "<>", "!=")  # ,
@@ -69,7 +74,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                     raise InvalidQueryFilter(
                         "Value for attribute {} must be a string.".format(key)
                     )
-                return re.match(single_value + r"\Z", df_row[key]) is not None
+                return _matches_regex(single_value, df_row[key])
             if isinstance(df_row[key], Real):
                 if isinstance(single_value, str) and single_value.lower().startswith(
                     compops
@@ -160,7 +165,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                         "Value for attribute {} must be a string.".format(key)
                     )
                 apply_ret = df_row[key].apply(
-                    lambda x: re.match(single_value + r"\Z", x) is not None
+                    lambda x: _matches_regex(single_value, x)
                 )
                 return _process_multi_index_mode(apply_ret, multi_index_mode)
             if is_numeric_dtype(df_row[key]):
-- 
2.43.0


From 89cc2d33e172705091934b211f692894b5e1f182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:52 +0000
Subject: [PATCH 014/116] fix: object queries must compare infinite and missing
 values as they are

---
 hatchet/query/object_dialect.py | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/hatchet/query/object_dialect.py b/hatchet/query/object_dialect.py
index 7717bf6..8d0be04 100644
--- a/hatchet/query/object_dialect.py
+++ b/hatchet/query/object_dialect.py
@@ -4,7 +4,7 @@
 # SPDX-License-Identifier: MIT
 
 from numbers import Real
-import numpy as np
+import numpy as np  # noqa: F401
 import pandas as pd
 from pandas.api.types import (
     is_numeric_dtype,
@@ -32,6 +32,14 @@ def _matches_regex(regex, value):
     return re.fullmatch(regex, value) is not None
 
 
+def _compare(value, comparison):
+    """Evaluates a comparison (e.g., "> 5") for the value"""
+    # NaN does not equal itself, so compare a NaN value to "== np.nan" explicitly
+    if pd.isnull(value) and re.match(r"==\s*np\.nan\b", comparison):
+        return True
+    return eval("value {}".format(comparison))
+
+
 def _process_predicate(attr_filter, multi_index_mode):
     """Converts high-level API attribute filter to a lambda"""
     compops = ("<", ">", "==", ">=", "<=", "<>", "!=")  # ,
@@ -79,24 +87,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                 if isinstance(single_value, str) and single_value.lower().startswith(
                     compops
                 ):
-                    # compare nan metric value to numeric query
-                    # (e.g. np.nan > 5)
-                    if pd.isnull(df_row[key]):
-                        nan_str = "np.nan"
-                        # compare nan metric value to nan query
-                        # (e.g., np.nan == np.nan)
-                        if nan_str in single_value:
-                            return eval("pd.isnull({}) == True".format(nan_str))
-                        return eval("{} {}".format(nan_str, single_value))
-                    elif np.isinf(df_row[key]):
-                        inf_str = "np.inf"
-                        # compare inf metric value to inf query
-                        # (e.g., np.inf == np.inf)
-                        if inf_str in single_value:
-                            return eval("np.isinf({}) == True".format(inf_str))
-                        return eval("{} {}".format(inf_str, single_value))
-                    else:
-                        return eval("{} {}".format(df_row[key], single_value))
+                    return _compare(df_row[key], single_value)
 
                 if isinstance(single_value, Real):
                     return df_row[key] == single_value
@@ -173,7 +164,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                     compops
                 ):
                     apply_ret = df_row[key].apply(
-                        lambda x: eval("{} {}".format(x, single_value))
+                        lambda x: _compare(x, single_value)
                     )
                     return _process_multi_index_mode(apply_ret, multi_index_mode)
                 if isinstance(single_value, Real):
-- 
2.43.0


From 15790a45cee8ba176c661ffa173c879e51d0f3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:52 +0000
Subject: [PATCH 015/116] fix: numbers in object queries must hold for all rows
 in multi-index mode "all"

---
 hatchet/query/object_dialect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/query/object_dialect.py b/hatchet/query/object_dialect.py
index 8d0be04..ead6cbf 100644
--- a/hatchet/query/object_dialect.py
+++ b/hatchet/query/object_dialect.py
@@ -168,7 +168,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                     )
                     return _process_multi_index_mode(apply_ret, multi_index_mode)
                 if isinstance(single_value, Real):
-                    apply_ret = df_row[key].apply(lambda x: x == single_value).any()
+                    apply_ret = df_row[key].apply(lambda x: x == single_value)
                     return _process_multi_index_mode(apply_ret, multi_index_mode)
                 raise InvalidQueryFilter(
                     "Attribute {} has a numeric type. Valid filters for this attribute are a string starting with a comparison operator or a real number.".format(
-- 
2.43.0


From 41bc96e665ba698bd164ea8538c02fb0b16e250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:52 +0000
Subject: [PATCH 016/116] fix: object queries must find leaves, and nodes
 without a "name" column, in multi-index data

---
 hatchet/query/object_dialect.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hatchet/query/object_dialect.py b/hatchet/query/object_dialect.py
index ead6cbf..b3944ef 100644
--- a/hatchet/query/object_dialect.py
+++ b/hatchet/query/object_dialect.py
@@ -130,6 +130,9 @@ def _process_predicate(attr_filter, multi_index_mode):
                 ):
                     return eval("{} {}".format(node._depth, single_value))
                 if isinstance(single_value, Real):
+                    # If the value for "depth" is -1, check if the node is a leaf
+                    if single_value == -1:
+                        return len(node.children) == 0
                     return node._depth == single_value
                 raise InvalidQueryFilter(
                     "Attribute {} has a numeric type. Valid filters for this attribute are a string starting with a comparison operator or a real number.".format(
@@ -180,7 +183,7 @@ def _process_predicate(attr_filter, multi_index_mode):
             )
 
         matches = True
-        node = df_row.name.to_frame().index[0][0]
+        node = df_row.index.get_level_values("node")[0]
         for k, v in attr_filter.items():
             try:
                 _ = iter(v)
-- 
2.43.0


From 606de8d50b70bc45f2bed86a356e506f08de53a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:10 +0000
Subject: [PATCH 017/116] fix: string queries without conditions, on all or
 some of their nodes

---
 hatchet/query/string_dialect.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index ed4e871..085076a 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -115,7 +115,8 @@ class StringQuery(Query):
         self.wcard_pos = {}
         self._parse_path(model.path_expr)
         self.filters = [[] for _ in self.wcards]
-        self._parse_conditions(model.cond_expr)
+        if model.cond_expr is not None:
+            self._parse_conditions(model.cond_expr)
         self.lambda_filters = [None for _ in self.wcards]
         self._build_lambdas()
         self._build_query()
@@ -147,7 +148,7 @@ class StringQuery(Query):
         """
         for i in range(0, len(self.wcards)):
             n = self.wcards[i]
-            if n[1] != "":
+            if n[1] != "" and len(self.filters[i]) > 0:
                 bool_expr = ""
                 type_check = ""
                 for j, cond in enumerate(self.filters[i]):
-- 
2.43.0


From c0586530c46284bfc375e72b16ca312531829e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:10 +0000
Subject: [PATCH 018/116] fix: string queries with a condition after one that
 needs no type check

---
 hatchet/query/string_dialect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index 085076a..6b0f3e0 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -156,7 +156,7 @@ class StringQuery(Query):
                         bool_expr += " {}".format(cond[0])
                     bool_expr += " {}".format(cond[1])
                     if cond[2] is not None:
-                        if j == 0:
+                        if type_check == "":
                             type_check += " {}".format(cond[2])
                         else:
                             type_check += " and {}".format(cond[2])
-- 
2.43.0


From 3a76426a9f5edd0da0c5d9420d8e0dfeff24cb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:10 +0000
Subject: [PATCH 019/116] fix: escape quotes and backslashes of string queries
 in predicates

---
 hatchet/query/string_dialect.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index 6b0f3e0..9a5ce9f 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -63,6 +63,13 @@ def cname(obj):
     return obj.__class__.__name__
 
 
+def _escape(text):
+    """Utility function to escape text for use within the quotes of a Python string"""
+    for char, escaped in (("\\", "\\\\"), ('"', '\\"'), ("'", "\\'"), ("\n", "\\n")):
+        text = text.replace(char, escaped)
+    return text
+
+
 def filter_check_types(type_check, df_row, filt_lambda):
     """Utility function used in String-based predicates
        to make sure the node data used in the actual boolean predicate
@@ -162,7 +169,7 @@ class StringQuery(Query):
                             type_check += " and {}".format(cond[2])
                 bool_expr = "lambda df_row: {}".format(bool_expr)
                 bool_expr = (
-                    'lambda df_row: filter_check_types("{}", df_row, {})'.format(
+                    'lambda df_row: filter_check_types({!r}, df_row, {})'.format(
                         type_check, bool_expr
                     )
                 )
@@ -260,6 +267,10 @@ class StringQuery(Query):
 
     def _parse_single_cond(self, obj):
         """Top level function for parsing individual numeric or string predicates."""
+        # The property and value become string literals in the predicate's code
+        for attr in ("prop", "val"):
+            if isinstance(getattr(obj, attr, None), str):
+                setattr(obj, attr, _escape(getattr(obj, attr)))
         if self._is_str_cond(obj):
             return self._parse_str(obj)
         if self._is_num_cond(obj):
-- 
2.43.0


From 6b58098d5a851b9e78d22bb18b62610d1cc2a918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:10 +0000
Subject: [PATCH 020/116] fix: "IS NOT NAN" and "IS NOT INF" must test each row
 of multi-index data

---
 hatchet/query/string_dialect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index 9a5ce9f..f272c09 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -1309,7 +1309,7 @@ class StringQuery(Query):
             None,
             obj.name,
             self._add_aggregation_call_to_multi_idx_predicate(
-                'not pd.isna(df_row["{}"])'.format(obj.prop)
+                '(~pd.isna(df_row["{}"]))'.format(obj.prop)
             ),
             "is_numeric_dtype(df_row['{}'])".format(obj.prop),
         ]
@@ -1403,7 +1403,7 @@ class StringQuery(Query):
             None,
             obj.name,
             self._add_aggregation_call_to_multi_idx_predicate(
-                'not np.isinf(df_row["{}"])'.format(obj.prop)
+                '(~np.isinf(df_row["{}"]))'.format(obj.prop)
             ),
             "is_numeric_dtype(df_row['{}'])".format(obj.prop),
         ]
-- 
2.43.0


From 4040024283d90ca836c8234875e2d53cc3a21d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 021/116] fix: parse nested, single, negated and leaf curly
 brace regions of string queries

---
 hatchet/query/string_dialect.py | 99 +++++++++++++++++----------------
 1 file changed, 52 insertions(+), 47 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index f272c09..087e6c5 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -1409,6 +1409,34 @@ class StringQuery(Query):
         ]
 
 
+def _find_curly_brace_regions(query_str):
+    """Utility function to find the outermost curly brace-delimited regions of a query.
+    Curly braces within strings do not count.
+
+    Arguments:
+        query_str (str): the String-based query
+
+    Returns:
+        (list): the start and end index of each region
+    """
+    regions = []
+    start = None
+    depth = 0
+    token = r"""(?P<string>"(\\"|[^"])*"|'(\\'|[^'])*')|[{}]"""
+    for match in re.finditer(token, query_str):
+        if match.group("string") is not None:
+            continue
+        if match.group() == "{":
+            if depth == 0:
+                start = match.start()
+            depth += 1
+        elif depth > 0:
+            depth -= 1
+            if depth == 0:
+                regions.append((start, match.end()))
+    return regions
+
+
 def parse_string_dialect(query_str, multi_index_mode="off"):
     """Parse all types of String-based queries, including multi-queries that leverage
     the curly brace delimiters.
@@ -1419,12 +1447,9 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
     Returns:
         (Query or CompoundQuery): A Hatchet query object representing the String-based query
     """
-    # TODO Check if there's a way to prevent curly braces in a string
-    #      from being captured
-
     # Find the number of curly brace-delimited regions in the query
     query_str = query_str.strip()
-    curly_brace_elems = re.findall(r"\{(.*?)\}", query_str)
+    curly_brace_elems = _find_curly_brace_regions(query_str)
     num_curly_brace_elems = len(curly_brace_elems)
     # If there are no curly brace-delimited regions, just pass the query
     # off to the CypherQuery constructor
@@ -1432,46 +1457,26 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
         if sys.version_info[0] == 2:
             query_str = query_str.decode("utf-8")
         return StringQuery(query_str, multi_index_mode)
-    # Create an iterator over the curly brace-delimited regions
-    curly_brace_iter = re.finditer(r"\{(.*?)\}", query_str)
     # Will store curly brace-delimited regions in the WHERE clause
     condition_list = None
     # Will store curly brace-delimited regions that contain entire
     # mid-level queries (MATCH clause and WHERE clause)
     query_list = None
-    # If entire queries are in brace-delimited regions, store the indexes
-    # of the regions here so we don't consider brace-delimited regions
-    # within the already-captured region.
-    query_idxes = None
     # Store which compound queries to apply to the curly brace-delimited regions
     compound_ops = []
-    for i, match in enumerate(curly_brace_iter):
+    for i, (start, end) in enumerate(curly_brace_elems):
         # Get the substring within curly braces
-        substr = query_str[match.start() + 1 : match.end() - 1]
+        substr = query_str[start + 1 : end - 1]
         substr = substr.strip()
         # If an entire query (MATCH + WHERE) is within curly braces,
-        # add the query to "query_list", and add the indexes corresponding
-        # to the query to "query_idxes"
-        if substr.startswith("MATCH"):
+        # or a compound of entire queries is, add the query to "query_list"
+        if substr.startswith("MATCH") or substr.startswith("{"):
             if query_list is None:
                 query_list = []
-            if query_idxes is None:
-                query_idxes = []
             query_list.append(substr)
-            query_idxes.append((match.start(), match.end()))
         # If the curly brace-delimited region contains only parts of a
-        # WHERE clause, first, check if the region is within another
-        # curly brace delimited region. If it is, do nothing (it will
-        # be handled later). Otherwise, add the region to "condition_list"
-        elif re.match(r"[a-zA-Z0-9_]+\..*", substr) is not None:
-            is_encapsulated_region = False
-            if query_idxes is not None:
-                for s, e in query_idxes:
-                    if match.start() >= s or match.end() <= e:
-                        is_encapsulated_region = True
-                        break
-            if is_encapsulated_region:
-                continue
+        # WHERE clause, add the region to "condition_list"
+        elif re.match(r"[a-zA-Z0-9_]+(\.|\s).*", substr) is not None:
             if condition_list is None:
                 condition_list = []
             condition_list.append(substr)
@@ -1482,7 +1487,7 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
         # If there is a compound operator directly after the curly brace-delimited region,
         # capture the type of operator, and store the type in "compound_ops"
         if i + 1 < num_curly_brace_elems:
-            rest_substr = query_str[match.end() :]
+            rest_substr = query_str[end:]
             rest_substr = rest_substr.strip()
             if rest_substr.startswith("AND"):
                 compound_ops.append("AND")
@@ -1508,19 +1513,21 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
                 "Incompatible number of curly brace elements and compound operators"
             )
         # Get the MATCH clause that will be shared across the subqueries
-        match_comp_obj = re.search(r"MATCH\s+(?P<match_field>.*)\s+WHERE", query_str)
+        match_comp_obj = re.search(
+            r"MATCH\s+(?P<match_field>.*)\s+WHERE",
+            query_str[: curly_brace_elems[0][0]],
+            re.DOTALL,
+        )
         match_comp = match_comp_obj.group("match_field")
+        # Set the initial query as a CypherQuery where the MATCH clause is
+        # the shared match clause and the WHERE clause is the first curly
+        # brace-delimited region
+        query1 = "MATCH {} WHERE {}".format(match_comp, condition_list[0])
+        if sys.version_info[0] == 2:
+            query1 = query1.decode("utf-8")
+        full_query = StringQuery(query1, multi_index_mode)
         # Iterate over the compound operators
-        full_query = None
         for i, op in enumerate(compound_ops):
-            # If in the first iteration, set the initial query as a CypherQuery where
-            # the MATCH clause is the shared match clause and the WHERE clause is the
-            # first curly brace-delimited region
-            if i == 0:
-                query1 = "MATCH {} WHERE {}".format(match_comp, condition_list[i])
-                if sys.version_info[0] == 2:
-                    query1 = query1.decode("utf-8")
-                full_query = StringQuery(query1, multi_index_mode)
             # Get the next query as a CypherQuery where
             # the MATCH clause is the shared match clause and the WHERE clause is the
             # next curly brace-delimited region
@@ -1545,16 +1552,14 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
             raise ValueError(
                 "Incompatible number of curly brace elements and compound operators"
             )
+        # Set the initial query as the result of recursively calling this function
+        # on the first curly brace-delimited region
+        full_query = parse_string_dialect(query_list[0], multi_index_mode)
         # Iterate over the compound operators
-        full_query = None
         for i, op in enumerate(compound_ops):
-            # If in the first iteration, set the initial query as the result
-            # of recursively calling this function on the first curly brace-delimited region
-            if i == 0:
-                full_query = parse_string_dialect(query_list[i])
             # Get the next query by recursively calling this function
             # on the next curly brace-delimited region
-            next_query = parse_string_dialect(query_list[i + 1])
+            next_query = parse_string_dialect(query_list[i + 1], multi_index_mode)
             # Add the next query to the full query using the compound operator
             # currently being considered
             if op == "AND":
-- 
2.43.0


From 32ba4d136e619820b204210fe0a3d7baba6c5bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:04 +0000
Subject: [PATCH 022/116] fix: provide the negation operator of queries

---
 hatchet/query/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hatchet/query/__init__.py b/hatchet/query/__init__.py
index 77e5bfd..4a91951 100644
--- a/hatchet/query/__init__.py
+++ b/hatchet/query/__init__.py
@@ -60,12 +60,14 @@ Query.__and__ = combine_via_conjunction
 Query.__or__ = combine_via_disjunction
 Query.__xor__ = combine_via_exclusive_disjunction
 Query.__not__ = negate_query
+Query.__invert__ = negate_query
 
 
 CompoundQuery.__and__ = combine_via_conjunction
 CompoundQuery.__or__ = combine_via_disjunction
 CompoundQuery.__xor__ = combine_via_exclusive_disjunction
 CompoundQuery.__not__ = negate_query
+CompoundQuery.__invert__ = negate_query
 
 
 def is_hatchet_query(query_obj):
-- 
2.43.0


From 323c76ada4c28b13a7b5e3d7823ddd29c9890913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:53 +0000
Subject: [PATCH 023/116] fix: nodes of a literal with the same id, not the
 same frame, are one node

---
 hatchet/readers/literal_reader.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/hatchet/readers/literal_reader.py b/hatchet/readers/literal_reader.py
index c3c95a0..fbff47e 100644
--- a/hatchet/readers/literal_reader.py
+++ b/hatchet/readers/literal_reader.py
@@ -67,7 +67,7 @@ class LiteralReader:
         self.graph_dict = graph_dict
 
     def parse_node_literal(
-        self, frame_to_node_dict, node_dicts, child_dict, hparent, seen_nids
+        self, nid_to_node_dict, node_dicts, child_dict, hparent, seen_nids
     ):
         """Create node_dict for one node and then call the function
         recursively on all children.
@@ -94,26 +94,30 @@ class LiteralReader:
             )
 
             node_dicts.append(node_dict)
-            frame_to_node_dict[frame] = hnode
-
             if hnid != -1:
                 seen_nids.append(hnid)
+                nid_to_node_dict[hnid] = hnode
+
+            hparent.add_child(hnode)
 
         else:
-            hnode = frame_to_node_dict.get(frame)
+            # this node was already created for another (or the same) parent
+            hnode = nid_to_node_dict[hnid]
 
-        hparent.add_child(hnode)
+            if hnode not in hparent.children:
+                hparent.add_child(hnode)
+                hnode.add_parent(hparent)
 
         if "children" in child_dict:
             for child in child_dict["children"]:
                 self.parse_node_literal(
-                    frame_to_node_dict, node_dicts, child, hnode, seen_nids
+                    nid_to_node_dict, node_dicts, child, hnode, seen_nids
                 )
 
     def read(self):
         list_roots = []
         node_dicts = []
-        frame_to_node_dict = {}
+        nid_to_node_dict = {}
         frame = None
         seen_nids = []
         hnid = -1
@@ -137,13 +141,14 @@ class LiteralReader:
             node_dicts.append(node_dict)
 
             list_roots.append(graph_root)
-            frame_to_node_dict[frame] = graph_root
+            if hnid != -1:
+                nid_to_node_dict[hnid] = graph_root
 
             # call recursively on all children of root
             if "children" in self.graph_dict[i]:
                 for child in self.graph_dict[i]["children"]:
                     self.parse_node_literal(
-                        frame_to_node_dict, node_dicts, child, graph_root, seen_nids
+                        nid_to_node_dict, node_dicts, child, graph_root, seen_nids
                     )
 
         graph = Graph(list_roots)
-- 
2.43.0


From 555aec2cdddafb9173ac53fa5e4b27b2bd67fa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:53 +0000
Subject: [PATCH 024/116] fix: a root of a literal must not take over the id of
 the root before it

---
 hatchet/readers/literal_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/literal_reader.py b/hatchet/readers/literal_reader.py
index fbff47e..a03e0a0 100644
--- a/hatchet/readers/literal_reader.py
+++ b/hatchet/readers/literal_reader.py
@@ -120,10 +120,10 @@ class LiteralReader:
         nid_to_node_dict = {}
         frame = None
         seen_nids = []
-        hnid = -1
 
         # start with creating a node_dict for each root
         for i in range(len(self.graph_dict)):
+            hnid = -1
             if "_hatchet_nid" in self.graph_dict[i]["metrics"]:
                 hnid = self.graph_dict[i]["metrics"]["_hatchet_nid"]
                 seen_nids.append(hnid)
-- 
2.43.0


From c7e808beb241f0c58866ff244bc9ccfe9dd87259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:02 +0000
Subject: [PATCH 025/116] fix: the id of a literal's node is no metric, and
 reading must not change the literal

---
 hatchet/readers/literal_reader.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/hatchet/readers/literal_reader.py b/hatchet/readers/literal_reader.py
index a03e0a0..e4d796d 100644
--- a/hatchet/readers/literal_reader.py
+++ b/hatchet/readers/literal_reader.py
@@ -76,11 +76,10 @@ class LiteralReader:
         # pull out _hatchet_nid if it exists
         # so it will not be inserted into
         # dataframe like a normal metric
-        hnid = -1
-        if "_hatchet_nid" in child_dict["metrics"]:
-            hnid = child_dict["metrics"]["_hatchet_nid"]
+        metrics = dict(child_dict["metrics"])
+        hnid = metrics.pop("_hatchet_nid", -1)
 
-        frame = Frame(child_dict["frame"])
+        frame = Frame(dict(child_dict["frame"]))
         if hnid not in seen_nids:
             hnode = Node(frame, hparent, hnid=hnid)
 
@@ -89,9 +88,7 @@ class LiteralReader:
             if not node_name:
                 node_name = child_dict["name"]
 
-            node_dict = dict(
-                {"node": hnode, "name": node_name}, **child_dict["metrics"]
-            )
+            node_dict = dict({"node": hnode, "name": node_name}, **metrics)
 
             node_dicts.append(node_dict)
             if hnid != -1:
@@ -123,11 +120,11 @@ class LiteralReader:
 
         # start with creating a node_dict for each root
         for i in range(len(self.graph_dict)):
-            hnid = -1
-            if "_hatchet_nid" in self.graph_dict[i]["metrics"]:
-                hnid = self.graph_dict[i]["metrics"]["_hatchet_nid"]
+            metrics = dict(self.graph_dict[i]["metrics"])
+            hnid = metrics.pop("_hatchet_nid", -1)
+            if hnid != -1:
                 seen_nids.append(hnid)
-            frame = Frame(self.graph_dict[i]["frame"])
+            frame = Frame(dict(self.graph_dict[i]["frame"]))
             graph_root = Node(frame, None, hnid=hnid)
 
             # depending on the node type, the name may not be in the frame
@@ -135,9 +132,7 @@ class LiteralReader:
             if not node_name:
                 node_name = self.graph_dict[i]["name"]
 
-            node_dict = dict(
-                {"node": graph_root, "name": node_name}, **self.graph_dict[i]["metrics"]
-            )
+            node_dict = dict({"node": graph_root, "name": node_name}, **metrics)
             node_dicts.append(node_dict)
 
             list_roots.append(graph_root)
@@ -161,7 +156,7 @@ class LiteralReader:
 
         exc_metrics = []
         inc_metrics = []
-        for key in self.graph_dict[i]["metrics"].keys():
+        for key in metrics.keys():
             if "(inc)" in key:
                 inc_metrics.append(key)
             else:
-- 
2.43.0


From 9519e250490ffc539b05a2930e4c58ebde1ee6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:38 +0000
Subject: [PATCH 026/116] fix: graphs read from JSON must share nodes between
 roots and know their depths

---
 hatchet/readers/json_reader.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/hatchet/readers/json_reader.py b/hatchet/readers/json_reader.py
index 407536b..1467ac7 100644
--- a/hatchet/readers/json_reader.py
+++ b/hatchet/readers/json_reader.py
@@ -29,30 +29,32 @@ class JsonReader:
 
     def read(self):
         roots = []
+        nodes = {}
         for graph_spec in self.spec_dict["graph"]:
+            # nodes that are shared by several roots are part of the
+            # specification of each of them
+            new_nids = [nid for nid in graph_spec if nid not in nodes]
+
             # turn frames into nodes
-            for nid, value in graph_spec.items():
-                graph_spec[nid]["data"] = Node(Frame(value["data"]), hnid=int(nid))
+            for nid in new_nids:
+                nodes[nid] = Node(Frame(graph_spec[nid]["data"]), hnid=int(nid))
 
             # connect nodes
-            for nid, value in graph_spec.items():
-                for child in value["children"]:
-                    child = str(child)
-                    value["data"].add_child(graph_spec[child]["data"])
-                    graph_spec[child]["data"].add_parent(value["data"])
+            for nid in new_nids:
+                for child in graph_spec[nid]["children"]:
+                    nodes[nid].add_child(nodes[str(child)])
+                    nodes[str(child)].add_parent(nodes[nid])
 
-            for nid, value in graph_spec.items():
-                if len(value["data"].parents) == 0:
-                    roots.append(value["data"])
+            for nid in new_nids:
+                if len(nodes[nid].parents) == 0:
+                    roots.append(nodes[nid])
 
         grph = Graph(roots)
+        grph.enumerate_depth()
 
         # make the dataframes
         dataframe = pd.DataFrame(self.spec_dict["dataframe"])
-        for graph_spec in self.spec_dict["graph"]:
-            dataframe["node"] = dataframe["node"].map(
-                lambda n: graph_spec[str(n)]["data"] if (str(n) in graph_spec) else n
-            )
+        dataframe["node"] = dataframe["node"].map(lambda n: nodes[str(n)])
         dataframe.set_index(self.spec_dict["dataframe_indices"], inplace=True)
 
         return hatchet.graphframe.GraphFrame(
-- 
2.43.0


From 7cba553a5a3908834211b2dc0321d7b79bb9cd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:20 +0000
Subject: [PATCH 027/116] fix: squash must merge all equal-frame siblings of
 graphs with shared nodes

---
 hatchet/graph.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index f3ae0b3..b272b81 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -133,6 +133,13 @@ class Graph:
                 processed.append(node)
             _find_child_merges(nodes)
 
+        # a node that others are merged into may itself have been merged into
+        # another node, among the children of another parent
+        for old, new in merges.items():
+            while merges.get(new, new) is not new:
+                new = merges[new]
+            merges[old] = new
+
         return merges
 
     def merge_nodes(self, merges):
@@ -160,8 +167,17 @@ class Graph:
         self.roots = transform(self.roots)
 
     def normalize(self):
-        merges = self.find_merges()
-        self.merge_nodes(merges)
+        merges = {}
+        new_merges = self.find_merges()
+        # merging nodes makes their children siblings, which may have to be
+        # merged as well
+        while any(old is not new for old, new in new_merges.items()):
+            self.merge_nodes(new_merges)
+            for old, new in merges.items():
+                merges[old] = new_merges.get(new, new)
+            for old, new in new_merges.items():
+                merges.setdefault(old, new)
+            new_merges = self.find_merges()
         return merges
 
     def copy(self, old_to_new=None):
-- 
2.43.0


From ea431285689e830f75629a2d7e622e7dec459ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:19 +0000
Subject: [PATCH 028/116] fix: rebuild graphs of multi-index data from HDF5
 files

---
 hatchet/readers/dataframe_reader.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/hatchet/readers/dataframe_reader.py b/hatchet/readers/dataframe_reader.py
index 7b298c2..075ec54 100644
--- a/hatchet/readers/dataframe_reader.py
+++ b/hatchet/readers/dataframe_reader.py
@@ -46,14 +46,12 @@ def _get_parents_and_children(df):
 
 
 def _reconstruct_graph(df, rel_dict):
-    node_list = sorted(list(df.index.to_frame()["node"]))
-    for i in range(len(df)):
-        node = _get_node_from_df_iloc(df, i)
-        if len(node.children) == 0:
-            node.children = [node_list[nid] for nid in rel_dict[node]["children"]]
-        if len(node.parents) == 0:
-            node.parents = [node_list[nid] for nid in rel_dict[node]["parents"]]
-    roots = [node for node in node_list if len(node.parents) == 0]
+    # a node has several rows if the index has more levels
+    nodes = {n._hatchet_nid: n for n in df.index.get_level_values("node")}
+    for node in nodes.values():
+        node.children = [nodes[nid] for nid in rel_dict[node]["children"]]
+        node.parents = [nodes[nid] for nid in rel_dict[node]["parents"]]
+    roots = [nodes[nid] for nid in sorted(nodes) if len(nodes[nid].parents) == 0]
     return Graph(roots)
 
 
-- 
2.43.0


From 144640ef977e028df807ae6b176a17a12307e357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:29 +0000
Subject: [PATCH 029/116] fix: honour min_value and max_value of 0 in tree()

---
 hatchet/external/console.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hatchet/external/console.py b/hatchet/external/console.py
index 613b523..de8903e 100644
--- a/hatchet/external/console.py
+++ b/hatchet/external/console.py
@@ -141,8 +141,12 @@ class ConsoleRenderer:
             metric_series.values[isfinite_mask], metric_series.index[isfinite_mask]
         )
 
-        self.max_metric = self.max_value if self.max_value else filtered_series.max()
-        self.min_metric = self.min_value if self.min_value else filtered_series.min()
+        self.max_metric = (
+            self.max_value if self.max_value is not None else filtered_series.max()
+        )
+        self.min_metric = (
+            self.min_value if self.min_value is not None else filtered_series.min()
+        )
 
         if self.unicode:
             self.lr_arrows = {"◀": "◀ ", "▶": "▶ "}
-- 
2.43.0


From a2bf58422abc6c839c68efe619245499e69eb957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:29 +0000
Subject: [PATCH 030/116] fix: escape quotes and backslashes of node names in
 DOT output

---
 hatchet/util/dot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hatchet/util/dot.py b/hatchet/util/dot.py
index 84cd62a..66d871d 100644
--- a/hatchet/util/dot.py
+++ b/hatchet/util/dot.py
@@ -52,7 +52,9 @@ def to_dot(hnode, dataframe, metric, name, rank, thread, threshold, visited):
             df_index = hnode
 
         node_time = dataframe.loc[df_index, metric]
-        node_name = dataframe.loc[df_index, name]
+        node_name = str(dataframe.loc[df_index, name])
+        # the name is written as a double-quoted string
+        node_name = node_name.replace("\\", "\\\\").replace('"', '\\"')
         node_id = hnode._hatchet_nid
 
         weight = (node_time - min_time) / (max_time - min_time)
-- 
2.43.0


From 7b62fd7f1a86c7bde2280587384a280895710f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:28 +0000
Subject: [PATCH 031/116] fix: to_flamegraph uses the name column it is given

---
 hatchet/graphframe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 642307a..c9b0cda 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1126,7 +1126,7 @@ class GraphFrame:
                     else:
                         df_index = callpath[i]
                     folded_stack = (
-                        folded_stack + str(self.dataframe.loc[df_index, "name"]) + "; "
+                        folded_stack + str(self.dataframe.loc[df_index, name]) + "; "
                     )
 
                 if (
@@ -1141,7 +1141,7 @@ class GraphFrame:
                 else:
                     df_index = callpath[-1]
                 folded_stack = (
-                    folded_stack + str(self.dataframe.loc[df_index, "name"]) + " "
+                    folded_stack + str(self.dataframe.loc[df_index, name]) + " "
                 )
 
                 # set dataframe index based on if rank and thread are part of the index
-- 
2.43.0


From 7ba080228246da0def24dfd24fb91a5581511654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:54 +0000
Subject: [PATCH 032/116] fix: a root of a literal that was already met below
 another root is one node

---
 hatchet/readers/literal_reader.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/hatchet/readers/literal_reader.py b/hatchet/readers/literal_reader.py
index e4d796d..926a283 100644
--- a/hatchet/readers/literal_reader.py
+++ b/hatchet/readers/literal_reader.py
@@ -122,22 +122,26 @@ class LiteralReader:
         for i in range(len(self.graph_dict)):
             metrics = dict(self.graph_dict[i]["metrics"])
             hnid = metrics.pop("_hatchet_nid", -1)
-            if hnid != -1:
-                seen_nids.append(hnid)
-            frame = Frame(dict(self.graph_dict[i]["frame"]))
-            graph_root = Node(frame, None, hnid=hnid)
+            if hnid in seen_nids:
+                # this node was already created below an earlier root
+                graph_root = nid_to_node_dict[hnid]
+            else:
+                frame = Frame(dict(self.graph_dict[i]["frame"]))
+                graph_root = Node(frame, None, hnid=hnid)
 
-            # depending on the node type, the name may not be in the frame
-            node_name = self.graph_dict[i]["frame"].get("name")
-            if not node_name:
-                node_name = self.graph_dict[i]["name"]
+                # depending on the node type, the name may not be in the frame
+                node_name = self.graph_dict[i]["frame"].get("name")
+                if not node_name:
+                    node_name = self.graph_dict[i]["name"]
 
-            node_dict = dict({"node": graph_root, "name": node_name}, **metrics)
-            node_dicts.append(node_dict)
+                node_dict = dict({"node": graph_root, "name": node_name}, **metrics)
+                node_dicts.append(node_dict)
+
+                if hnid != -1:
+                    seen_nids.append(hnid)
+                    nid_to_node_dict[hnid] = graph_root
 
             list_roots.append(graph_root)
-            if hnid != -1:
-                nid_to_node_dict[hnid] = graph_root
 
             # call recursively on all children of root
             if "children" in self.graph_dict[i]:
-- 
2.43.0


From 18cc5efe58e88f25d32355b5c566ea5b795ea015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:31 +0000
Subject: [PATCH 033/116] fix: HPCToolkit statements after a nested scope got
 that scope's file

---
 hatchet/readers/hpctoolkit_reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hatchet/readers/hpctoolkit_reader.py b/hatchet/readers/hpctoolkit_reader.py
index a0e0dae..cfd4d94 100644
--- a/hatchet/readers/hpctoolkit_reader.py
+++ b/hatchet/readers/hpctoolkit_reader.py
@@ -320,8 +320,13 @@ class HPCToolkitReader:
 
     def parse_xml_children(self, xml_node, hnode):
         """Parses all children of an XML node."""
+        global src_file
+        scope_file = src_file
+
         for xml_child in xml_node:
             if xml_child.tag != "M":
+                # a scope nested in a previous sibling may be in another file
+                src_file = scope_file
                 nid = int(xml_node.get("i"))
                 line = int(xml_node.get("l"))
                 self.parse_xml_node(xml_child, nid, line, hnode)
-- 
2.43.0


From b3d885d992964274d1d98e71f47ee1a322dc78ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:07 +0000
Subject: [PATCH 034/116] fix: HPCToolkit databases whose ranks differ in
 threads or are not numbered from 0

---
 hatchet/readers/hpctoolkit_reader.py | 60 +++++++---------------------
 1 file changed, 14 insertions(+), 46 deletions(-)

diff --git a/hatchet/readers/hpctoolkit_reader.py b/hatchet/readers/hpctoolkit_reader.py
index cfd4d94..90c4260 100644
--- a/hatchet/readers/hpctoolkit_reader.py
+++ b/hatchet/readers/hpctoolkit_reader.py
@@ -50,14 +50,7 @@ def init_shared_array(buf_):
 
 def read_metricdb_file(args):
     """Read a single metricdb file into a 1D array."""
-    (
-        filename,
-        num_nodes,
-        num_threads_per_rank,
-        num_cpu_threads_per_rank,
-        num_metrics,
-        shape,
-    ) = args
+    filename, file_index, num_nodes, num_metrics, shape = args
     rank = int(
         re.search(r"\-(\d+)\-(\d+)\-([\w\d]+)\-(\d+)\-\d.metric-db$", filename).group(1)
     )
@@ -73,14 +66,9 @@ def read_metricdb_file(args):
 
     arr = np.frombuffer(shared_metrics).reshape(shape)
 
-    # copy the data in the right place in the larger 2D array of metrics
-    if thread < 500:
-        rank_offset = (rank * num_threads_per_rank + thread) * num_nodes
-    else:
-        # GPU streams in hpctoolkit 2021.05.15 start at thread id 500
-        rank_offset = (
-            rank * num_threads_per_rank + num_cpu_threads_per_rank + (thread - 500)
-        ) * num_nodes
+    # copy the data in the right place in the larger 2D array of metrics: one
+    # block of rows per file, as ranks may have different numbers of threads
+    rank_offset = file_index * num_nodes
 
     arr[rank_offset : rank_offset + num_nodes, :num_metrics].flat = arr1d.flat
     arr[rank_offset : rank_offset + num_nodes, num_metrics] = range(1, num_nodes + 1)
@@ -110,16 +98,12 @@ class HPCToolkitReader:
         metricdb_files = glob.glob(self.dir_name + "/*.metric-db")
         self.num_metricdb_files = len(metricdb_files)
 
-        # We need to know how many threads per rank there are. This counts the
-        # number of thread 0 metric-db files (i.e., number of ranks), then
-        # uses this as the divisor to the total number of metric-db files.
+        # We need to know if there are several threads per rank. This counts the
+        # number of thread 0 metric-db files (i.e., number of ranks), and compares
+        # it with the total number of metric-db files.
         metricdb_numranks_files = glob.glob(self.dir_name + "/*-000-*.metric-db")
         self.num_ranks = len(metricdb_numranks_files)
-        self.num_threads_per_rank = int(
-            self.num_metricdb_files / len(metricdb_numranks_files)
-        )
-
-        self.num_cpu_threads_per_rank = self.count_cpu_threads_per_rank()
+        self.has_threads = self.num_metricdb_files > self.num_ranks
 
         # Read one metric-db file to extract the number of nodes in the CCT
         # and the number of metrics
@@ -193,13 +177,12 @@ class HPCToolkitReader:
         args = [
             (
                 filename,
+                file_index,
                 self.num_nodes,
-                self.num_threads_per_rank,
-                self.num_cpu_threads_per_rank,
                 self.num_metrics,
                 shape,
             )
-            for filename in metricdb_files
+            for file_index, filename in enumerate(metricdb_files)
         ]
         try:
             pool.map(read_metricdb_file, args)
@@ -224,7 +207,7 @@ class HPCToolkitReader:
         self.df_metrics["thread"] = self.df_metrics["thread"].astype(int, copy=False)
 
         # if number of threads per rank is 1, we do not need to keep the thread ID column
-        if self.num_threads_per_rank == 1:
+        if not self.has_threads:
             del self.df_metrics["thread"]
 
         # used to speedup parse_xml_node
@@ -232,7 +215,7 @@ class HPCToolkitReader:
 
         # getting the number of execution threads for our stride in
         # subtract_exclusive_metric_vals/ num nodes is already calculated
-        self.total_execution_threads = self.num_threads_per_rank * self.num_ranks
+        self.total_execution_threads = self.num_metricdb_files
 
     def read(self):
         """Read the experiment.xml file to extract the calling context tree and create
@@ -299,10 +282,10 @@ class HPCToolkitReader:
             dataframe = pd.merge(self.df_metrics, self.df_nodes, on="nid")
 
             # set the index to be a MultiIndex
-            if self.num_threads_per_rank > 1:
+            if self.has_threads:
                 indices = ["node", "rank", "thread"]
             # if number of threads per rank is 1, do not make thread an index
-            elif self.num_threads_per_rank == 1:
+            else:
                 indices = ["node", "rank"]
             dataframe.set_index(indices, inplace=True)
             dataframe.sort_index(inplace=True)
@@ -432,18 +415,3 @@ class HPCToolkitReader:
         }
 
         return node_dict
-
-    def count_cpu_threads_per_rank(self):
-        metricdb_files = glob.glob(self.dir_name + "/*.metric-db")
-        cpu_thread_ids = set()
-
-        for filename in metricdb_files:
-            thread = int(
-                re.search(
-                    r"\-(\d+)\-(\d+)\-([\w\d]+)\-(\d+)\-\d.metric-db$", filename
-                ).group(2)
-            )
-            if thread < 500:
-                cpu_thread_ids.add(thread)
-
-        return len(cpu_thread_ids)
-- 
2.43.0


From a779d80a924ecbe940988f652b4b0c4397305e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:36 +0000
Subject: [PATCH 035/116] fix: nodes read from Caliper JSON did not know their
 parents

---
 hatchet/readers/caliper_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 3156e31..b738258 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -176,6 +176,7 @@ class CaliperReader:
                     parent_hnode = (self.idx_to_node[node["parent"]])["node"]
                     hnode = Node(
                         Frame({"type": self.node_type, "name": node_label}),
+                        parent_hnode,
                         hnid=order,
                     )
                     parent_hnode.add_child(hnode)
-- 
2.43.0


From a5ed3ea14d55c4e137d36e0692345234dc3446cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:54 +0000
Subject: [PATCH 036/116] fix: Caliper JSON node order was taken from unrelated
 records

---
 hatchet/readers/caliper_reader.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index b738258..14a342a 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -146,6 +146,15 @@ class CaliperReader:
         global unknown_label_counter
         order = -1
 
+        # order of the nodes as recorded in the "Node order" column, if it exists
+        node_orders = {}
+        if "Node order" in self.json_cols:
+            self.node_ordering = True
+            order_col = self.json_cols.index("Node order")
+            path_col = self.json_cols.index(self.nid_col_name)
+            for entry in self.json_data:
+                node_orders.setdefault(entry[path_col], entry[order_col])
+
         # find nodes in the nodes section that represent the path hierarchy
         for idx, node in enumerate(self.json_nodes):
             node_label = node["label"]
@@ -156,9 +165,8 @@ class CaliperReader:
 
             if node["column"] == self.path_col_name:
                 # If there is a node orderering, assign to the _hatchet_nid
-                if "Node order" in self.json_cols:
-                    self.node_ordering = True
-                    order = self.json_data[idx][0]
+                if self.node_ordering:
+                    order = node_orders.get(idx, -1)
                 if "parent" not in node:
                     # since this node does not have a parent, this is a root
                     graph_root = Node(
-- 
2.43.0


From d9c8f7f356e2d5168b5389f90756401f888f9791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:12 +0000
Subject: [PATCH 037/116] fix: Caliper JSON records without a value in a text
 column could not be read

---
 hatchet/readers/caliper_reader.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 14a342a..d69d42b 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -8,7 +8,6 @@ import sys
 import re
 import subprocess
 import os
-import math
 
 import pandas as pd
 import numpy as np
@@ -252,18 +251,15 @@ class CaliperReader:
                     )
                     self.df_json_data.drop(self.json_cols[idx], axis=1, inplace=True)
                     sourceloc_idx = idx
-                elif self.json_cols[idx] == "path":
-                    # we will only reach here if path is the "secondary"
-                    # hierarchy in the data
-                    self.df_json_data["path"] = self.df_json_data["path"].apply(
-                        lambda x: None
-                        if (math.isnan(x))
-                        else self.json_nodes[int(x)]["label"]
-                    )
                 else:
+                    # records without a value have no label
                     self.df_json_data[self.json_cols[idx]] = self.df_json_data[
                         self.json_cols[idx]
-                    ].apply(lambda x: self.json_nodes[x]["label"])
+                    ].apply(
+                        lambda x: None
+                        if pd.isna(x)
+                        else self.json_nodes[int(x)]["label"]
+                    )
 
         # since we split sourceloc, we should update json_cols and
         # json_cols_mdata
-- 
2.43.0


From c39121de93a9981f050adf641432cc2ca8dab877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:29 +0000
Subject: [PATCH 038/116] fix: Caliper JSON can be read from text streams

---
 hatchet/readers/caliper_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index d69d42b..c426d81 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -72,7 +72,7 @@ class CaliperReader:
             with open(self.filename_or_stream) as cali_json:
                 json_obj = json.load(cali_json)
         else:
-            json_obj = json.loads(self.filename_or_stream.read().decode("utf-8"))
+            json_obj = json.load(self.filename_or_stream)
 
         # read various sections of the Caliper JSON file
         self.json_data = json_obj["data"]
-- 
2.43.0


From 5f9a12dd6c1962d0372fedceb7bbb8ce401619ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:48 +0000
Subject: [PATCH 039/116] fix: Caliper JSON listed the dropped node order
 column as a metric

---
 hatchet/readers/caliper_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index c426d81..e86bd90 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -383,6 +383,7 @@ class CaliperReader:
             graph.node_ordering = True
             # we do not want to expose the "Node order" column to the user
             self.df_metrics = self.df_metrics.drop(columns="Node order")
+            self.metric_columns.remove("Node order")
         graph.enumerate_traverse()
 
         # merge the metrics and node dataframes on the idx column
-- 
2.43.0


From 58199450055bce70bc45976f6ddef28afcbca3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:02 +0000
Subject: [PATCH 040/116] fix: Caliper JSON with both hierarchies and source
 locations could not be read

---
 hatchet/readers/caliper_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index e86bd90..b5d2f10 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -221,7 +221,7 @@ class CaliperReader:
             agg_dict = {}
             for idx, item in enumerate(self.json_cols_mdata):
                 col = self.json_cols[idx]
-                if col != "rank" and col != "nid":
+                if col not in groupby_cols:
                     if item["is_value"] is True:
                         agg_dict[col] = np.sum
                     else:
-- 
2.43.0


From f9e88e27833f7a1323a8be40067c21ae75380819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:17 +0000
Subject: [PATCH 041/116] fix: ids of Caliper statement nodes collided with
 nodes without records

---
 hatchet/readers/caliper_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index b5d2f10..7470dba 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -271,7 +271,8 @@ class CaliperReader:
             self.json_cols_mdata.append({"is_value": False})
             self.json_cols_mdata.append({"is_value": False})
 
-        max_nid = self.df_json_data[self.nid_col_name].max()
+        # new nodes are numbered after all nodes, not only those with records
+        max_nid = max(self.idx_to_node)
 
         if "line" in self.df_json_data.columns:
             # split nodes that have multiple file:line numbers to have a child
-- 
2.43.0


From 653620fcc4c9ca959f1a5ace9ba407f75805dbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:45 +0000
Subject: [PATCH 042/116] fix: Caliper JSON mixed up source locations of
 different files on the same line

---
 hatchet/readers/caliper_reader.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 7470dba..4aef76e 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -281,15 +281,14 @@ class CaliperReader:
             df_concat = [self.df_json_data]
 
             for nid, super_node in unique_nodes:
-                line_groups = super_node.groupby("line")
+                line_groups = super_node.groupby(["file", "line"])
                 # only need to do something if there are more than one
                 # file:line number entries for the node
                 if len(line_groups.size()) > 1:
                     sn_hnode = self.idx_to_node[nid]["node"]
 
-                    for line, line_group in line_groups:
+                    for (file_path, line), line_group in line_groups:
                         # create the node label
-                        file_path = (line_group.head(1))["file"].item()
                         file_name = os.path.basename(file_path)
                         node_label = file_name + ":" + line
 
-- 
2.43.0


From 9ed2d5c72d8dc481533185d1823f4a91bcf8c6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:39 +0000
Subject: [PATCH 043/116] fix: native Caliper files kept the values of only one
 rank per region

---
 hatchet/readers/caliper_native_reader.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 171fda6..b1f39a4 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -82,12 +82,20 @@ class CaliperNativeReader:
             self.string_attributes = [self.string_attributes]
 
     def _create_metric_df(self, metrics):
-        """Make a list of metric columns and create a dataframe, group by node"""
+        """Make a list of metric columns and create a dataframe, group by node
+        (and rank)"""
         for col in self.record_data_cols:
             if self.filename_or_caliperreader.attribute(col).is_value():
                 self.metric_cols.append(col)
         df_metrics = pd.DataFrame.from_dict(data=metrics)
-        df_new = df_metrics.groupby(df_metrics["nid"]).aggregate("first").reset_index()
+        group_cols = ["nid"]
+        if "mpi.rank" in df_metrics.columns:
+            group_cols.append("mpi.rank")
+        df_new = (
+            df_metrics.groupby(group_cols, dropna=False)
+            .aggregate("first")
+            .reset_index()
+        )
         return df_new
 
     def _reset_metrics(self, metrics):
-- 
2.43.0


From 26551e03c6d0115e367f0bbbf53c6eca56178fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:55 +0000
Subject: [PATCH 044/116] fix: roots of native Caliper files were entered twice

---
 hatchet/readers/caliper_native_reader.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index b1f39a4..79f8afe 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -224,16 +224,7 @@ class CaliperNativeReader:
                 # if root node, end recursive call to create parent nodes
                 if not parent_callpath:
                     list_roots.append(child_node)
-
-                    node_dict = dict(
-                        {
-                            "name": child_node.frame["name"],
-                            "node": child_node,
-                            "nid": self.global_nid,
-                        }
-                    )
-
-                    self.idx_to_node[self.global_nid] = node_dict
+                    # the caller enters the root; nids start at 1
                     self.global_nid += 1
                 else:
                     grandparent_callpath = parent_callpath[:-1]
-- 
2.43.0


From a80c163a506c94e189ebc0279b7bb5e17569689b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:14 +0000
Subject: [PATCH 045/116] fix: regions of native Caliper files without records
 had no row

---
 hatchet/readers/caliper_native_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 79f8afe..4fdcb74 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -439,6 +439,7 @@ class CaliperNativeReader:
                     if metric_rows.empty:
                         # add a single row
                         node_dict = dict(default_metric_dict)
+                        node_dict["nid"] = row["nid"]
                         missing_nodes.append(node_dict)
                 else:
                     if metric_rows.empty:
-- 
2.43.0


From 9e871e214fd9729c3372312cc765fa5ad8ccf863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:34 +0000
Subject: [PATCH 046/116] fix: false values of native Caliper files were read
 as true

---
 hatchet/readers/caliper_native_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 4fdcb74..73cd639 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -36,7 +36,7 @@ class CaliperNativeReader:
         "string": str,
         "addr": np.uint64,
         "double": np.float64,
-        "bool": bool,
+        "bool": lambda value: str(value).lower() in ("true", "1"),
         "type": lambda dummy: __raise_cali_type_error(
             "Caliper 'type' types are unsupported in Hatchet"
         ),
-- 
2.43.0


From 977ae883523fad9e62151e4b4ff2f7be8690eb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:52 +0000
Subject: [PATCH 047/116] fix: metrics of Caliper time series were listed once
 per interval

---
 hatchet/readers/caliper_native_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 73cd639..1e8db71 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -86,7 +86,8 @@ class CaliperNativeReader:
         (and rank)"""
         for col in self.record_data_cols:
             if self.filename_or_caliperreader.attribute(col).is_value():
-                self.metric_cols.append(col)
+                if col not in self.metric_cols:
+                    self.metric_cols.append(col)
         df_metrics = pd.DataFrame.from_dict(data=metrics)
         group_cols = ["nid"]
         if "mpi.rank" in df_metrics.columns:
-- 
2.43.0


From 169131a220544ec606c4146d8c06fcff1c711634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:09 +0000
Subject: [PATCH 048/116] fix: default metric of native Caliper files with only
 inclusive time had no column

---
 hatchet/readers/caliper_native_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 1e8db71..16da7d4 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -540,7 +540,9 @@ class CaliperNativeReader:
             # set the default metric
             if self.default_metric is None:
                 if "time (inc)" in dataframe.columns:
-                    self.default_metric = "time"
+                    self.default_metric = (
+                        "time" if "time" in dataframe.columns else "time (inc)"
+                    )
                 elif "avg#inclusive#sum#time.duration" in dataframe.columns:
                     self.default_metric = "avg#inclusive#sum#time.duration"
                 elif len(inc_metrics) > 0:
-- 
2.43.0


From ba2ea57055b8ed6017c6f5e12100c40500e5fbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:40 +0000
Subject: [PATCH 049/116] fix: Caliper time series mixed values of the start
 into later intervals and needed loop columns

---
 hatchet/readers/caliper_native_reader.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 16da7d4..56e9618 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -105,13 +105,20 @@ class CaliperNativeReader:
         new_mets = []
         cols_to_keep = [
             "nid",
+            "mpi.rank",
             "loop.iterations",
             "loop.start_iteration",
             "timeseries.snapshot",
         ]
         for node_dict in metrics:
             if node_dict.get("timeseries.snapshot") == 0.0:
-                new_mets.append({k: node_dict.get(k, np.nan) for k in cols_to_keep})
+                new_mets.append(
+                    {
+                        k: node_dict.get(k, np.nan)
+                        for k in cols_to_keep
+                        if k == "nid" or k in self.record_data_cols
+                    }
+                )
         return new_mets
 
     def read_metrics(self, ctx="path"):
@@ -119,6 +126,7 @@ class CaliperNativeReader:
         """append each metrics table to a list and return the list, split on timeseries_level if exists"""
         metric_dfs = []
         all_metrics = []
+        initial_metrics = []
         next_timestep = 0
         cur_timestep = 0
         records = self.filename_or_caliperreader.records
@@ -130,10 +138,15 @@ class CaliperNativeReader:
                 next_timestep = int(record[self.timeseries_level])
                 if cur_timestep != next_timestep:
                     # make a dataframe for the current profile before we continue reading metrics
-                    df_new = self._create_metric_df(all_metrics)
-                    metric_dfs.append(df_new)
+                    # (the metrics of the timestep take precedence over those kept from
+                    # the start; nothing may have been recorded before the first timestep)
+                    all_metrics += initial_metrics
+                    if all_metrics:
+                        df_new = self._create_metric_df(all_metrics)
+                        metric_dfs.append(df_new)
                     # reset the metrics for the next df, and update the timestep
-                    all_metrics = self._reset_metrics(all_metrics)
+                    initial_metrics = self._reset_metrics(all_metrics)
+                    all_metrics = []
                     cur_timestep = next_timestep
 
             node_dict = {}
@@ -196,7 +209,7 @@ class CaliperNativeReader:
                     all_metrics.append(node_dict)
 
         # create the dataframe, if a single profile (or last one if the timeseries)
-        df_new = self._create_metric_df(all_metrics)
+        df_new = self._create_metric_df(all_metrics + initial_metrics)
         metric_dfs.append(df_new)
         # will return a list with only one element unless it is a timeseries
         return metric_dfs
-- 
2.43.0


From a6cbdef463949f1a31fc9a045496e89db36c8e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:13 +0000
Subject: [PATCH 050/116] fix: CUPTI activities other than kernels and copies
 were attributed to another region

---
 hatchet/readers/caliper_native_reader.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 56e9618..75ef139 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -164,7 +164,7 @@ class CaliperNativeReader:
                             if record["cupti.activity.kind"] == "kernel":
                                 node_label = record["cupti.kernel.name"]
                                 node_callpath = tuple(record[ctx] + [node_label])
-                            elif record["cupti.activity.kind"] == "memcpy":
+                            else:
                                 node_label = record["cupti.activity.kind"]
                                 node_callpath = tuple(record[ctx] + [node_label])
                         else:
@@ -285,13 +285,12 @@ class CaliperNativeReader:
                                 node_callpath = tuple(record[ctx] + [node_label])
                                 parent_callpath = node_callpath[:-1]
                                 node_type = "kernel"
-                            elif record["cupti.activity.kind"] == "memcpy":
+                            else:
+                                # memcpy and other activities are named by their kind
                                 node_label = record["cupti.activity.kind"]
                                 node_callpath = tuple(record[ctx] + [node_label])
                                 parent_callpath = node_callpath[:-1]
-                                node_type = "memcpy"
-                            else:
-                                Exception("Haven't seen this activity kind yet")
+                                node_type = record["cupti.activity.kind"]
                         else:
                             node_label = record[ctx][-1]
                             node_callpath = tuple(record[ctx])
-- 
2.43.0


From af6e0afb4e99d1e19fe8ef5356af7413dbd2c3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:00 +0000
Subject: [PATCH 051/116] fix: native Caliper node order was lost for regions
 recorded after their children

---
 hatchet/readers/caliper_native_reader.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 75ef139..6a0cbde 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -330,6 +330,13 @@ class CaliperNativeReader:
                             )
                             self.idx_to_node[self.global_nid] = node_dict
                             self.global_nid += 1
+                        elif (
+                            hnode._hatchet_nid == -1
+                            and "min#min#aggregate.slot" in record
+                        ):
+                            # the node was created as the parent of an earlier record
+                            self.node_ordering = True
+                            hnode._hatchet_nid = int(record["min#min#aggregate.slot"])
 
                     # if it's a string, then it's a root
                     else:
-- 
2.43.0


From 0887a6796c349e964a2c795d58803c8aae6831f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:02 +0000
Subject: [PATCH 052/116] fix: metrics missing from a Caliper time series
 interval had no column

---
 hatchet/readers/caliper_native_reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 6a0cbde..1720c05 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -482,6 +482,11 @@ class CaliperNativeReader:
             df_missing = pd.DataFrame.from_dict(data=missing_nodes)
             df_metrics = pd.concat([df_fixed_data, df_missing], sort=False)
 
+            # every profile of a timeseries has the same columns
+            for col in self.record_data_cols:
+                if col not in df_metrics.columns:
+                    df_metrics[col] = np.nan
+
             # rename columns to user-readable metric names (i.e., aliases)
             if not self.use_native_metric_names:
                 for col in df_metrics.columns:
-- 
2.43.0


From ad2f900b69251e59cdf4a26f296eb3e74ae5f860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:42 +0000
Subject: [PATCH 053/116] fix: TAU profiles with context user events could not
 be read

---
 hatchet/readers/tau_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index aed2af1..3f9a565 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -333,6 +333,10 @@ class TAUReader:
             # Uses the same "line_index" for other metric files of a rank.
             for line_index in range(1, len(file_data[0])):
                 line = file_data[0][line_index]
+                # The events end here. Names of the user events that follow
+                # may also contain "=>".
+                if re.match(r"\d+ aggregates", line):
+                    break
                 metric_values = []
                 # We only parse the lines that has "=>" symbol which shows the callpath info.
                 # We just skip the other lines.
-- 
2.43.0


From 98814d1983fabc27242a3816c2b1d1abbb49d723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:57 +0000
Subject: [PATCH 054/116] fix: TAU directories with pattern characters in their
 name could not be read

---
 hatchet/readers/tau_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index 3f9a565..c567fcc 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -240,7 +240,7 @@ class TAUReader:
         # files -> returns filenames in a directory, list
         profile_filenames = []
         for dirpath, dirnames, files in os.walk(self.dirname):
-            profiles_in_dir = glob.glob(dirpath + "/profile.*")
+            profiles_in_dir = glob.glob(glob.escape(dirpath) + "/profile.*")
             if profiles_in_dir:
                 # sort input files in each directory in the same order
                 profile_filenames.append(sorted(profiles_in_dir))
-- 
2.43.0


From 26f459c9a6d5830bd6f1d685e14fcaeb7de640dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:11 +0000
Subject: [PATCH 055/116] fix: TAU profiles whose root has fractional or huge
 values could not be read

---
 hatchet/readers/tau_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index c567fcc..36a5848 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -279,7 +279,7 @@ class TAUReader:
             root_name = root_line.group(1).strip(" ")
             # convert it to a tuple to use it as a key in callpath_to_node dictionary
             root_callpath = tuple([root_name])
-            root_values = list(map(int, root_line.group(2).split(" ")[:-1]))
+            root_values = list(map(float, root_line.group(2).split(" ")[:-1]))
 
             # After first profile.0.0.0, only get Excl and Incl metric values
             # from other files since other columns will be the same.
@@ -297,7 +297,7 @@ class TAUReader:
                     + "\nLine: 2"
                 )
                 root_line = re.match(r"\"(.*)\"\s(.*)\sG", file_data[f_index][0])
-                root_values.extend(list(map(int, root_line.group(2).split(" ")[2:4])))
+                root_values.extend(list(map(float, root_line.group(2).split(" ")[2:4])))
 
             # Check if the root exists in other ranks.
             # Note that we assume the root is the same for all metric files of a rank.
-- 
2.43.0


From 8e037363d95e177cafea5aa7cf44d2bb56da2c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:44 +0000
Subject: [PATCH 056/116] fix: name, file and lines of the root event of TAU
 profiles were not parsed

---
 hatchet/readers/tau_reader.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index 36a5848..f222994 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -279,6 +279,12 @@ class TAUReader:
             root_name = root_line.group(1).strip(" ")
             # convert it to a tuple to use it as a key in callpath_to_node dictionary
             root_callpath = tuple([root_name])
+            # Get start and end line, name, file, and module information of the root
+            root_line_numbers = _get_line_numbers(root_name)
+            symbol = " C " if " C " in root_name else ""
+            root_name, root_file, root_module = _get_name_file_module(
+                False, root_name, symbol
+            )
             root_values = list(map(float, root_line.group(2).split(" ")[:-1]))
 
             # After first profile.0.0.0, only get Excl and Incl metric values
@@ -286,11 +292,13 @@ class TAUReader:
             # We assume each metric file of a rank has the same root.
             first_file_root_name = re.search(r"\"(.*?)\"", file_data[0][0]).group(1)
             for f_index in range(1, len(file_data)):
-                root_name = re.search(r"\"(.*?)\"", file_data[f_index][0]).group(1)
+                other_root_name = re.search(
+                    r"\"(.*?)\"", file_data[f_index][0]
+                ).group(1)
                 # Below assert statement throws an error if the roots are not the
                 # same for different metric files.
                 # TODO: We need to find a solution if this throws an error.
-                assert first_file_root_name == root_name, (
+                assert first_file_root_name == other_root_name, (
                     "Metric files for a rank has different roots.\n"
                     + "File: "
                     + filenames_per_rank[f_index]
@@ -317,10 +325,10 @@ class TAUReader:
                 self.columns,
                 root_values,
                 root_name,
-                None,
-                None,
-                0,
-                0,
+                root_file,
+                root_module,
+                root_line_numbers[0],
+                root_line_numbers[1],
                 rank,
                 thread,
             )
-- 
2.43.0


From 0e888d1e9b17b45353f50c741070b84ef5ae288e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:01 +0000
Subject: [PATCH 057/116] fix: names of TAU events seen as parents first were
 cut at the first space

---
 hatchet/readers/tau_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index f222994..efce062 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -96,7 +96,10 @@ class TAUReader:
                     name = "[UNWIND] " + name_and_module[0]
                 else:
                     # We just need to take name if it is a parent
-                    name = "[UNWIND] " + node_info[1].split()[0]
+                    if "[{" in node_info[1]:
+                        name = "[UNWIND] " + node_info[1].split(" [{")[0]
+                    else:
+                        name = "[UNWIND] " + node_info[1].split()[0]
             elif symbol == " C ":
                 # Check if there is a C symbol.
                 # "C" symbol means it's a C function.
-- 
2.43.0


From 855e7608e8ab5f4d2dfb4358d05db64f70b629ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:14 +0000
Subject: [PATCH 058/116] fix: default metric of TAU profiles without time had
 no column

---
 hatchet/readers/tau_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index efce062..fcca5fa 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -515,6 +515,8 @@ class TAUReader:
             dataframe = dataframe.stack()
 
         default_metric = "time (inc)"
+        if default_metric not in self.inc_metrics:
+            default_metric = self.inc_metrics[0]
 
         return hatchet.graphframe.GraphFrame(
             graph, dataframe, self.exc_metrics, self.inc_metrics, default_metric
-- 
2.43.0


From 31021d3ae62e074ef26f2d8529ab2c8b58ed81bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:53 +0000
Subject: [PATCH 059/116] fix: unknown files and modules of TAU events on
 several ranks became 0

---
 hatchet/readers/tau_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index fcca5fa..228018a 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -508,8 +508,10 @@ class TAUReader:
                     module = row["module"][row["module"].first_valid_index()]
                     dataframe.loc[idx, "module"] = module
 
-                # Fill the rest with 0
-                dataframe.fillna(0, inplace=True)
+            # Fill the rest with 0, except for files and modules that are not known
+            for column in dataframe.columns:
+                if column[0] not in ("file", "module"):
+                    dataframe[column] = dataframe[column].fillna(0)
 
             # Stack the dataframe
             dataframe = dataframe.stack()
-- 
2.43.0


From 20eef21df11eae6584862748b85d742e6d3f3788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:11 +0000
Subject: [PATCH 060/116] fix: CPU_TIME and TIME of a TAU profile overwrote
 each other

---
 hatchet/readers/tau_reader.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index 228018a..856a1e1 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -211,6 +211,7 @@ class TAUReader:
             second line (metadata) of these files.
             """
             columns = []
+            metric_names = []
             for file_index in range(len(first_rank_filenames)):
                 with open(first_rank_filenames[file_index], "r") as f:
                     # Skip the first line: "192 templated_functions_MULTI_TIME"
@@ -229,13 +230,17 @@ class TAUReader:
                     # Example metric_name: "PAPI_L2_TCM"
                     # TODO: Decide if Calls and Subrs should be inc or exc metrics
                     metric_name = re.search(r"<value>(.*?)<\/value>", metadata).group(1)
-                    if metric_name == "CPU_TIME" or metric_name == "TIME":
-                        metric_name = "time"
-                    elif metric_name == "Name":
-                        metric_name == "name"
-                    columns.extend([metric_name, metric_name + " (inc)"])
-                    self.exc_metrics.append(metric_name)
-                    self.inc_metrics.append(metric_name + " (inc)")
+                    metric_names.append(metric_name)
+
+            for metric_name in metric_names:
+                # CPU_TIME keeps its name if there is also TIME
+                if metric_name == "TIME" or (
+                    metric_name == "CPU_TIME" and "TIME" not in metric_names
+                ):
+                    metric_name = "time"
+                columns.extend([metric_name, metric_name + " (inc)"])
+                self.exc_metrics.append(metric_name)
+                self.inc_metrics.append(metric_name + " (inc)")
             return columns
 
         # dirpath -> returns path of a directory, string
-- 
2.43.0


From 3e49d6da510adf461a7dfcf390009e13f015219c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:48 +0000
Subject: [PATCH 061/116] fix: columns of TAU profiles with a # in their
 metadata were wrong

---
 hatchet/readers/tau_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index 856a1e1..0e80b59 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -224,7 +224,7 @@ class TAUReader:
                     # We only do this once since these column names are the same for all files.
                     if file_index == 0:
                         columns.extend(
-                            re.match(r"\#\s(.*)\s\#", metadata).group(1).split(" ")[:-3]
+                            re.match(r"\#\s(.*?)\s\#", metadata).group(1).split(" ")[:-3]
                         )
 
                     # Example metric_name: "PAPI_L2_TCM"
-- 
2.43.0


From 53835abe73ac91746517bf6c3caa3f2c04fb5cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:11 +0000
Subject: [PATCH 062/116] fix: timemory trees could not be read from file
 streams

---
 hatchet/readers/timemory_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index ba69ced..897c1fb 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -571,7 +571,7 @@ class TimemoryReader:
         if isinstance(self.input, dict):
             self.graph_dict = self.input
         # check if the input is a directory and get '.tree.json' files if true.
-        elif os.path.isdir(self.input):
+        elif isinstance(self.input, str) and os.path.isdir(self.input):
             tree_files = glob.glob(self.input + "/*.tree.json")
             for file in tree_files:
                 # read all files that end with .tree.json.
-- 
2.43.0


From c59b57cc419095c407340fd827ee8c9e799767bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:24 +0000
Subject: [PATCH 063/116] fix: timemory trees with several threads but without
 ranks could not be read

---
 hatchet/readers/timemory_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index 897c1fb..13bbe8f 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -521,7 +521,8 @@ class TimemoryReader:
             dataframe.drop(columns=["thread"], inplace=True)
             indices = ["node", "rank"]
         elif self.multiple_threads:
-            dataframe.drop(columns=["rank"], inplace=True)
+            # there is no rank without distributed memory parallelism
+            dataframe.drop(columns=["rank"], inplace=True, errors="ignore")
             indices = ["node", "thread"]
         else:
             indices = ["node"]
-- 
2.43.0


From 0f8c047d97a97c764ee0a0906b4f5c2a40f0c1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:38 +0000
Subject: [PATCH 064/116] fix: reading a timemory dictionary changed it

---
 hatchet/readers/timemory_reader.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index 13bbe8f..4a46a97 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -320,8 +320,12 @@ class TimemoryReader:
             _metrics_in_vector = True if not isinstance(_labels, str) else False
             # remove some spurious data from inclusive/exclusive stats
             _remove = ["cereal_class_version", "count"]
-            _inc_stats = remove_keys(_node_data["node"]["inclusive"]["stats"], _remove)
-            _exc_stats = remove_keys(_node_data["node"]["exclusive"]["stats"], _remove)
+            _inc_stats = remove_keys(
+                dict(_node_data["node"]["inclusive"]["stats"]), _remove
+            )
+            _exc_stats = remove_keys(
+                dict(_node_data["node"]["exclusive"]["stats"]), _remove
+            )
 
             # if multi-dimensions, create alternative "sum.<...>", etc. labels + data
             # add " (inc)" to the end of every column that represents an inclusive stat
@@ -427,7 +431,7 @@ class TimemoryReader:
                 properties[_metric_name] = {}
             try:
                 properties[_metric_name]["properties"] = remove_keys(
-                    _metric_data["properties"], "cereal_class_version"
+                    dict(_metric_data["properties"]), "cereal_class_version"
                 )
             except KeyError:
                 pass
-- 
2.43.0


From fe8da17a465b648663a3fd82a60cd6cbfe4709c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:54 +0000
Subject: [PATCH 065/116] fix: from_timemory without input returned nothing

---
 hatchet/graphframe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index c9b0cda..75977bf 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -313,7 +313,9 @@ class GraphFrame:
             try:
                 import timemory
 
-                TimemoryReader(timemory.get(hierarchy=True), select, **_kwargs).read()
+                return TimemoryReader(
+                    timemory.get(hierarchy=True), select, **_kwargs
+                ).read()
             except ImportError:
                 print(
                     "Error! timemory could not be imported. Provide filename, file stream, or dict."
-- 
2.43.0


From ce24a66b4ec036f20dfa812cc651628afd12e7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:07 +0000
Subject: [PATCH 066/116] fix: timemory directories with pattern characters in
 their name could not be read

---
 hatchet/readers/timemory_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index 4a46a97..f0bb1a3 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -577,7 +577,7 @@ class TimemoryReader:
             self.graph_dict = self.input
         # check if the input is a directory and get '.tree.json' files if true.
         elif isinstance(self.input, str) and os.path.isdir(self.input):
-            tree_files = glob.glob(self.input + "/*.tree.json")
+            tree_files = glob.glob(glob.escape(self.input) + "/*.tree.json")
             for file in tree_files:
                 # read all files that end with .tree.json.
                 with open(file, "r") as f:
-- 
2.43.0


From 84d9e0a7273b2757ca65e7f284a8b041746ae1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:22 +0000
Subject: [PATCH 067/116] fix: timemory regions of the same name in different
 files or lines overwrote each other

---
 hatchet/readers/timemory_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index f0bb1a3..d26c101 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -274,7 +274,8 @@ class TimemoryReader:
             _prop = self.properties[_metric_name]
             _frame_attrs, _extra = get_name_line_file(_node_data["node"]["prefix"])
 
-            callpath = _parent_callpath + (_frame_attrs["name"],)
+            # functions of the same name may be in different files or lines
+            callpath = _parent_callpath + (_node_data["node"]["prefix"],)
 
             # check if the node already exits.
             _hnode = self.callpath_to_node.get(callpath)
-- 
2.43.0


From 76ca592d1fdf21fdc04b6d368adc9d988f1f849b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:08 +0000
Subject: [PATCH 068/116] fix: gprof2dot labels without module or number of
 calls could not be read

---
 hatchet/readers/gprof_dot_reader.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/hatchet/readers/gprof_dot_reader.py b/hatchet/readers/gprof_dot_reader.py
index 49b878f..73f54a3 100644
--- a/hatchet/readers/gprof_dot_reader.py
+++ b/hatchet/readers/gprof_dot_reader.py
@@ -74,10 +74,15 @@ class GprofDotReader:
                         continue
                     node_label = node.obj_dict["attributes"].get("label").strip('"')
 
-                    module, _, inc, exc, _ = node_label.split(r"\n")
-
-                    inc_time = float(re.sub(r"\%", "", inc))
-                    exc_time = float(re.sub(r"[\(\%\)]", "", exc))
+                    # the module and the number of calls are not always known:
+                    # [<module>\n]<name>\n<inc>%\n(<exc>%)[\n<calls>]
+                    label = re.match(
+                        r"(?:(.*?)\\n)?(?:.*?)\\n([\d.]+)%\\n\(([\d.]+)%\)(?:\\n|$)",
+                        node_label,
+                    )
+                    module = label.group(1)
+                    inc_time = float(label.group(2))
+                    exc_time = float(label.group(3))
 
                     # create a dict with node properties
                     node_dict = {
-- 
2.43.0


From 5e529541249db5afe90b41222799f2667e25091c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:25 +0000
Subject: [PATCH 069/116] fix: first callers of gprof2dot functions were listed
 twice as parents

---
 hatchet/readers/gprof_dot_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/gprof_dot_reader.py b/hatchet/readers/gprof_dot_reader.py
index 73f54a3..c86d81d 100644
--- a/hatchet/readers/gprof_dot_reader.py
+++ b/hatchet/readers/gprof_dot_reader.py
@@ -48,7 +48,7 @@ class GprofDotReader:
                 if not dst_hnode:
                     # create a node if it doesn't exist yet
                     dst_hnode = Node(
-                        Frame({"type": "function", "name": dst_name}), src_hnode
+                        Frame({"type": "function", "name": dst_name}), None
                     )
                     self.name_to_hnode[dst_name] = dst_hnode
                 # add source node as parent
-- 
2.43.0


From 4d8aa4366c8ed020edbc1f4662bab6f5292fbd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:39 +0000
Subject: [PATCH 070/116] fix: recursive functions without other callers were
 missing from gprof2dot graphs

---
 hatchet/readers/gprof_dot_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/gprof_dot_reader.py b/hatchet/readers/gprof_dot_reader.py
index c86d81d..7d27aaa 100644
--- a/hatchet/readers/gprof_dot_reader.py
+++ b/hatchet/readers/gprof_dot_reader.py
@@ -94,10 +94,10 @@ class GprofDotReader:
                     }
                     self.name_to_dict[node_name] = node_dict
 
-        # add all nodes with no parents to the list of roots
+        # add all nodes with no parents (other than themselves) to the list of roots
         list_roots = []
         for (key, val) in self.name_to_hnode.items():
-            if not val.parents:
+            if all(parent is val for parent in val.parents):
                 list_roots.append(val)
 
         return list_roots
-- 
2.43.0


From 6c1240764cb066fd51935ad65a62aa6fe8520ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:54 +0000
Subject: [PATCH 071/116] fix: names with double quotes were wrong when read
 from gprof2dot

---
 hatchet/readers/gprof_dot_reader.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hatchet/readers/gprof_dot_reader.py b/hatchet/readers/gprof_dot_reader.py
index 7d27aaa..5b3588f 100644
--- a/hatchet/readers/gprof_dot_reader.py
+++ b/hatchet/readers/gprof_dot_reader.py
@@ -27,14 +27,20 @@ class GprofDotReader:
 
         self.timer = Timer()
 
+    def _unquote(self, name):
+        """Name of a function from its (quoted) DOT id."""
+        if name.startswith('"') and name.endswith('"'):
+            name = name[1:-1].replace('\\"', '"')
+        return name
+
     def create_graph(self):
         """Read the DOT files to create a graph."""
         graphs = pydot.graph_from_dot_file(self.dotfile, encoding="utf-8")
 
         for graph in graphs:
             for edge in graph.get_edges():
-                src_name = edge.get_source().strip('"')
-                dst_name = edge.get_destination().strip('"')
+                src_name = self._unquote(edge.get_source())
+                dst_name = self._unquote(edge.get_destination())
 
                 src_hnode = self.name_to_hnode.get(src_name)
                 if not src_hnode:
@@ -61,7 +67,7 @@ class GprofDotReader:
                 node_name = node.get_name()
 
                 if node_name not in dot_keywords:
-                    node_name = node_name.strip('"')
+                    node_name = self._unquote(node_name)
                     hnode = self.name_to_hnode.get(node_name)
                     if not hnode:
                         # create a node if it doesn't exist yet
-- 
2.43.0


From 4202c56bbe3ac2a016004d4aa44072237f733ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:23 +0000
Subject: [PATCH 072/116] fix: cProfile functions of equally named files
 overwrote each other

---
 hatchet/readers/cprofile_reader.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/hatchet/readers/cprofile_reader.py b/hatchet/readers/cprofile_reader.py
index 3b3f5ca..4979d9c 100644
--- a/hatchet/readers/cprofile_reader.py
+++ b/hatchet/readers/cprofile_reader.py
@@ -56,11 +56,8 @@ class CProfileReader:
         and creates a node for it and adds a new line of metadata to our
         dataframe if it does not exist.
         """
-        u_fn_name = "{}:{}:{}".format(
-            fn_name,
-            fn_data[NameData.FILE].split("/")[-1],
-            fn_data[NameData.LINE],
-        )
+        # (file, line, name) identifies a function
+        u_fn_name = fn_data
         fn_hnode = self.name_to_hnode.get(u_fn_name)
 
         if not fn_hnode:
-- 
2.43.0


From aa03ab1f9929ff1000c16270096e9efde905617f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:38 +0000
Subject: [PATCH 073/116] fix: recursive functions without other callers were
 missing from cProfile graphs

---
 hatchet/readers/cprofile_reader.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/hatchet/readers/cprofile_reader.py b/hatchet/readers/cprofile_reader.py
index 4979d9c..893e0b5 100644
--- a/hatchet/readers/cprofile_reader.py
+++ b/hatchet/readers/cprofile_reader.py
@@ -106,18 +106,19 @@ class CProfileReader:
             # get all parents of our current destination node
             # create source nodes and link with destination node
             srcs = self._get_src(dst_stats)
-            if srcs == {}:
+            # a function that is only called by itself is a root
+            if all(src == dst_module_data for src in srcs):
                 list_roots.append(dst_hnode)
-            else:
-                for src_module_data in srcs.keys():
-                    src_name = src_module_data[NameData.FNCNAME]
-
-                    if src_name is not None:
-                        src_hnode = self._create_node_and_row(
-                            src_module_data, src_name, stats_dict
-                        )
-                        dst_hnode.add_parent(src_hnode)
-                        src_hnode.add_child(dst_hnode)
+
+            for src_module_data in srcs.keys():
+                src_name = src_module_data[NameData.FNCNAME]
+
+                if src_name is not None:
+                    src_hnode = self._create_node_and_row(
+                        src_module_data, src_name, stats_dict
+                    )
+                    dst_hnode.add_parent(src_hnode)
+                    src_hnode.add_child(dst_hnode)
 
         return list_roots
 
-- 
2.43.0


From e4e838dddb28dd519d797284229e82e155fa6c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:57 +0000
Subject: [PATCH 074/116] fix: numcalls and nativecalls (primitive calls) of
 cProfile functions were swapped

---
 hatchet/readers/cprofile_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/cprofile_reader.py b/hatchet/readers/cprofile_reader.py
index 893e0b5..33a1c49 100644
--- a/hatchet/readers/cprofile_reader.py
+++ b/hatchet/readers/cprofile_reader.py
@@ -28,8 +28,9 @@ def print_incomptable_msg(stats_file):
 class StatData:
     """Faux Enum for python"""
 
-    NUMCALLS = 0
-    NATIVECALLS = 1
+    # pstats stores the primitive calls first
+    NUMCALLS = 1
+    NATIVECALLS = 0
     EXCTIME = 2
     INCTIME = 3
     SRCNODE = 4
-- 
2.43.0


From e84151aec79fd67eee25013decdae2ac780bb8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:42 +0000
Subject: [PATCH 075/116] fix: Profiler overwrote profiles written within the
 same second

---
 hatchet/util/profiler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hatchet/util/profiler.py b/hatchet/util/profiler.py
index 22ce80d..4514d77 100644
--- a/hatchet/util/profiler.py
+++ b/hatchet/util/profiler.py
@@ -109,5 +109,11 @@ class Profiler:
         else:
             if os.path.exists(filename):
                 now = datetime.now().strftime("%H%M%S")
-                filename = "{}_{}.pstats".format(filename, now)
+                basename = "{}_{}".format(filename, now)
+                filename = basename + ".pstats"
+                # several files may be written within a second
+                count = 1
+                while os.path.exists(filename):
+                    filename = "{}_{}.pstats".format(basename, count)
+                    count += 1
             sts.dump_stats(filename)
-- 
2.43.0


From 451b28b72088b1e45bc8eeb47a2764c8a79dfcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:21 +0000
Subject: [PATCH 076/116] fix: SpotDBReader reads no runs for an empty list of
 run ids

---
 hatchet/readers/spotdb_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hatchet/readers/spotdb_reader.py b/hatchet/readers/spotdb_reader.py
index 3913e1d..5ae7457 100644
--- a/hatchet/readers/spotdb_reader.py
+++ b/hatchet/readers/spotdb_reader.py
@@ -169,7 +169,9 @@ class SpotDBReader:
         else:
             db = self.db_key
 
-        runs = self.list_of_ids or db.get_all_run_ids()
+        runs = self.list_of_ids
+        if runs is None:
+            runs = db.get_all_run_ids()
 
         regionprofiles = db.get_regionprofiles(runs)
         metadata = db.get_global_data(runs)
-- 
2.43.0


From de6add74f9a4e509098fc1650d9e3f21f3e071c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:37 +0000
Subject: [PATCH 077/116] fix: SpotDB regions without a record of their own get
 a row

---
 hatchet/readers/spotdb_reader.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hatchet/readers/spotdb_reader.py b/hatchet/readers/spotdb_reader.py
index 5ae7457..ca43f6d 100644
--- a/hatchet/readers/spotdb_reader.py
+++ b/hatchet/readers/spotdb_reader.py
@@ -81,6 +81,14 @@ class SpotDatasetReader:
 
             self.df_data.append(dict({"name": name, "node": node}, **metrics))
 
+        # regions that only appear as a prefix of other regions' paths have
+        # no record, but every node needs a row
+        recorded = set(id(row["node"]) for row in self.df_data)
+        for root in self.roots.values():
+            for node in root.traverse():
+                if id(node) not in recorded:
+                    self.df_data.append({"name": node.frame["name"], "node": node})
+
     def read(self, default_metric="Total time (inc)"):
         """Create GraphFrame for the given Spot dataset."""
 
-- 
2.43.0


From 9c5843ced01f4520a7707b090ddfceee961886ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:51 +0000
Subject: [PATCH 078/116] fix: SpotDB reader keeps the metrics in the order
 they are recorded

---
 hatchet/readers/spotdb_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/spotdb_reader.py b/hatchet/readers/spotdb_reader.py
index ca43f6d..beb20b2 100644
--- a/hatchet/readers/spotdb_reader.py
+++ b/hatchet/readers/spotdb_reader.py
@@ -45,7 +45,7 @@ class SpotDatasetReader:
         self.metadata = metadata
         self.df_data = []
         self.roots = {}
-        self.metric_columns = set()
+        self.metric_columns = []
 
         self.timer = Timer()
 
@@ -77,7 +77,8 @@ class SpotDatasetReader:
                     metrics[colm] = int(v)
                 else:
                     metrics[colm] = v
-                self.metric_columns.add(colm)
+                if colm not in self.metric_columns:
+                    self.metric_columns.append(colm)
 
             self.df_data.append(dict({"name": name, "node": node}, **metrics))
 
-- 
2.43.0


From 0b6c279c54e1a6b6808aea1d88d30ef75d53687d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:18 +0000
Subject: [PATCH 079/116] fix: fast_not_isin failed for empty tables and for
 the largest id

---
 hatchet/cython_modules/graphframe_modules.pyx | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hatchet/cython_modules/graphframe_modules.pyx b/hatchet/cython_modules/graphframe_modules.pyx
index 54582de..aef87ef 100644
--- a/hatchet/cython_modules/graphframe_modules.pyx
+++ b/hatchet/cython_modules/graphframe_modules.pyx
@@ -31,12 +31,11 @@ cpdef fast_not_isin(const unsigned long long[:,:] arr1, const unsigned long long
     """
     result = np.zeros(len(arr1), dtype=np.bool_)
     cdef long index = -1
-    cdef unsigned long long prior = -1
     cdef long i = 0
 
     for i in range(arr1_len):
         # mini optimization: don't perform binsearch if we already know node is/isnot in graph
-        if prior == arr1[i][0]:
+        if i > 0 and arr1[i-1][0] == arr1[i][0]:
             result[arr1[i][1]] = result[arr1[i-1][1]]
         else:
             index = binary_search(arr2, arr2_len, arr1[i][0])
@@ -45,8 +44,6 @@ cpdef fast_not_isin(const unsigned long long[:,:] arr1, const unsigned long long
             else:
                 result[arr1[i][1]] = False
 
-    prior = arr1[i][0]
-
     return result
 
 cdef binary_search(const unsigned long long[:,:] array, const long arr_len, const unsigned long long key):
-- 
2.43.0


From 6d7b7cca154aeae492e283a49f6edc83ff94d9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:10 +0000
Subject: [PATCH 080/116] fix: marks of missing nodes survived into later
 operations

---
 hatchet/graphframe.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 75977bf..456a34b 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1326,6 +1326,9 @@ class GraphFrame:
             )
         )
 
+        # marks left by an earlier operation do not apply to this one
+        self.dataframe = self.dataframe.drop(columns="_missing_node", errors="ignore")
+
         # make two 2D nparrays arrays with two columns:
         # 1) the hashed value of a node and 2) a numerical index
         # Many operations are stacked here to reduce the need for storing
@@ -1362,6 +1365,9 @@ class GraphFrame:
                 self_hsh_ndx_sorted.shape[0],
             )
         ]
+        other_not_in_self = other_not_in_self.drop(
+            columns="_missing_node", errors="ignore"
+        )
         # get nodes that exist in self, but not in other
         self_not_in_other = self.dataframe[
             _gfm_cy.fast_not_isin(
-- 
2.43.0


From 6fead4e31084e14009e0b8ef8201193b1c72200f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:45 +0000
Subject: [PATCH 081/116] fix: in-place division of graphframes returned a new
 graphframe

---
 hatchet/graphframe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 456a34b..d0afe3e 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1707,6 +1707,8 @@ class GraphFrame:
 
         return self._operator(other_copy, self.dataframe.div)
 
+    __itruediv__ = __idiv__
+
     def __truediv__(self, other):
         """Returns the column-wise float division of two graphframes as a new
         graphframe.
-- 
2.43.0


From 110ece10b099cccd8950b149d5e7a76f783efd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:58 +0000
Subject: [PATCH 082/116] fix: graphframes shared metric lists and metadata
 with the frames they were derived from

---
 hatchet/graphframe.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index d0afe3e..570cc17 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -72,7 +72,7 @@ class GraphFrame:
         exc_metrics=None,
         inc_metrics=None,
         default_metric="time",
-        metadata={},
+        metadata=None,
     ):
         """Create a new GraphFrame from a graph and a dataframe.
 
@@ -100,10 +100,10 @@ class GraphFrame:
 
         self.graph = graph
         self.dataframe = dataframe
-        self.exc_metrics = [] if exc_metrics is None else exc_metrics
-        self.inc_metrics = [] if inc_metrics is None else inc_metrics
+        self.exc_metrics = [] if exc_metrics is None else list(exc_metrics)
+        self.inc_metrics = [] if inc_metrics is None else list(inc_metrics)
         self.default_metric = default_metric
-        self.metadata = metadata
+        self.metadata = {} if metadata is None else copy.copy(metadata)
         self.query_engine = QueryEngine()
 
     @staticmethod
@@ -563,11 +563,14 @@ class GraphFrame:
 
         filtered_df.set_index(index_names, inplace=True)
 
-        filtered_gf = GraphFrame(self.graph, filtered_df)
-        filtered_gf.exc_metrics = self.exc_metrics
-        filtered_gf.inc_metrics = self.inc_metrics
-        filtered_gf.default_metric = self.default_metric
-        filtered_gf.metadata = self.metadata
+        filtered_gf = GraphFrame(
+            self.graph,
+            filtered_df,
+            self.exc_metrics,
+            self.inc_metrics,
+            self.default_metric,
+            self.metadata,
+        )
 
         if squash:
             return filtered_gf.squash(update_inc_cols)
-- 
2.43.0


From 39cfd1ec358339070065cf475e0629813d1cb662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 083/116] fix: a failing drop_index_levels left the dataframe
 without its node index

---
 hatchet/graphframe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 570cc17..24346f3 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -446,8 +446,8 @@ class GraphFrame:
                 agg_dict[col] = lambda x: x.iloc[0]
 
         # perform a groupby to merge nodes that just differ in index columns
-        self.dataframe.reset_index(level="node", inplace=True)
-        agg_df = self.dataframe.groupby("node").agg(agg_dict)
+        df = self.dataframe.reset_index(level="node")
+        agg_df = df.groupby("node").agg(agg_dict)
 
         self.dataframe = agg_df
 
-- 
2.43.0


From b04968b4710135bf0e83a12ac136093d9b79b2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:30 +0000
Subject: [PATCH 084/116] fix: a failing squash left the dataframe without its
 index

---
 hatchet/graphframe.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 24346f3..d7ad9b7 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -586,10 +586,10 @@ class GraphFrame:
             update_inc_cols (boolean, optional): if True, update inclusive columns.
         """
         index_names = self.dataframe.index.names
-        self.dataframe.reset_index(inplace=True)
+        df = self.dataframe.reset_index()
 
         # create new nodes for each unique node in the old dataframe
-        old_to_new = {n: n.copy() for n in set(self.dataframe["node"])}
+        old_to_new = {n: n.copy() for n in set(df["node"])}
         for i in old_to_new:
             old_to_new[i]._hatchet_nid = i._hatchet_nid
 
@@ -642,7 +642,6 @@ class GraphFrame:
         graph.enumerate_traverse()
 
         # reindex new dataframe with new nodes
-        df = self.dataframe.copy()
         df["node"] = df["node"].apply(lambda x: old_to_new[x])
 
         # at this point, the graph is potentially invalid, as some nodes
@@ -654,7 +653,6 @@ class GraphFrame:
         if merges:
             graph.enumerate_traverse()
 
-        self.dataframe.set_index(index_names, inplace=True)
         df.set_index(index_names, inplace=True)
         # create dict that stores aggregation function for each column
         agg_dict = {}
-- 
2.43.0


From a82b7f9d02e5f9c4d8100fde4e55a42acef25c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 085/116] fix: metrics without any value became text columns
 when read from JSON

---
 hatchet/readers/json_reader.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hatchet/readers/json_reader.py b/hatchet/readers/json_reader.py
index 1467ac7..3c8d4ea 100644
--- a/hatchet/readers/json_reader.py
+++ b/hatchet/readers/json_reader.py
@@ -57,6 +57,15 @@ class JsonReader:
         dataframe["node"] = dataframe["node"].map(lambda n: nodes[str(n)])
         dataframe.set_index(self.spec_dict["dataframe_indices"], inplace=True)
 
+        # missing values are null in the specification, a column of nothing else
+        # would not be numeric
+        metrics = (
+            self.spec_dict["exclusive_metrics"] + self.spec_dict["inclusive_metrics"]
+        )
+        for metric in metrics:
+            if metric in dataframe.columns and dataframe[metric].isna().all():
+                dataframe[metric] = dataframe[metric].astype(float)
+
         return hatchet.graphframe.GraphFrame(
             grph,
             dataframe,
-- 
2.43.0


From 21eebac68d1e7d59e190ce85164eb0d30e36e2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:28 +0000
Subject: [PATCH 086/116] fix: unify sums up the rows of nodes that become one
 in the union

---
 hatchet/graphframe.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index d7ad9b7..c29a2cb 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -994,6 +994,10 @@ class GraphFrame:
             lambda x: node_map[id(x)]
         )
 
+        # nodes of one graph may be merged in the union
+        self._aggregate_merged_rows(self_index_names)
+        other._aggregate_merged_rows(other_index_names)
+
         # add missing rows to copy of self's dataframe in preparation for
         # operation
         self._insert_missing_rows(other)
@@ -1312,6 +1316,29 @@ class GraphFrame:
 
         return self
 
+    def _aggregate_merged_rows(self, index_names):
+        """Helper function to combine the rows of nodes that have been merged.
+
+        The index levels have to be columns of the dataframe. Metrics are summed up,
+        the first value is kept for other columns.
+        """
+        index_names = list(index_names)
+        if not self.dataframe.duplicated(subset=index_names).any():
+            return
+
+        metrics = self.exc_metrics + self.inc_metrics
+        agg_dict = {}
+        for col in self.dataframe.columns.drop(index_names):
+            if col in metrics:
+                # the sum of an all-NA series is NaN, not 0
+                agg_dict[col] = lambda x: x.sum(min_count=1)
+            else:
+                agg_dict[col] = lambda x: x.iloc[0]
+
+        self.dataframe = self.dataframe.groupby(
+            index_names, as_index=False, sort=False, dropna=False
+        ).agg(agg_dict)
+
     def _insert_missing_rows(self, other):
         """Helper function to add rows that exist in other, but not in self.
 
-- 
2.43.0


From 7c5f673d5e09322d8f7c6625ce8077a515a904f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:51 +0000
Subject: [PATCH 087/116] fix: keep brackets and parentheses of the elements of
 list metadata in Caliper files

---
 hatchet/readers/caliper_native_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 1720c05..39f30ba 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -393,11 +393,11 @@ class CaliperNativeReader:
                     # tuple
                     if v.startswith("[") and v.endswith("]"):
                         parsed_mdata[k] = [
-                            elem.strip() for elem in v.strip("][").split(",")
+                            elem.strip() for elem in v[1:-1].split(",")
                         ]
                     elif v.startswith("(") and v.endswith(")"):
                         parsed_mdata[k] = [
-                            elem.strip() for elem in v.strip(")(").split(",")
+                            elem.strip() for elem in v[1:-1].split(",")
                         ]
                     # If the value is a string, just save it as-is
                     else:
-- 
2.43.0


From 7d91108317f7c99854393baa927fb93fed0fe6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:11 +0000
Subject: [PATCH 088/116] fix: keep Caliper metadata with underscores, such as
 job ids, as text

---
 hatchet/readers/caliper_native_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hatchet/readers/caliper_native_reader.py b/hatchet/readers/caliper_native_reader.py
index 39f30ba..9722b5b 100644
--- a/hatchet/readers/caliper_native_reader.py
+++ b/hatchet/readers/caliper_native_reader.py
@@ -381,6 +381,10 @@ class CaliperNativeReader:
             if isinstance(v, list):
                 parsed_mdata[k] = v
                 continue
+            # Python would take underscores, as in job ids, for digit separators
+            if isinstance(v, str) and "_" in v and v[0] not in "[(":
+                parsed_mdata[k] = v
+                continue
             # If the value is an int, convert it to an int.
             try:
                 parsed_mdata[k] = int(v)
-- 
2.43.0


From ad9fe99b316ead56d7269cff6eb47b9dcd2ea4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 089/116] fix: report an unknown colormap as the documented
 ValueError

---
 hatchet/util/colormaps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/util/colormaps.py b/hatchet/util/colormaps.py
index b3b23ce..998f272 100644
--- a/hatchet/util/colormaps.py
+++ b/hatchet/util/colormaps.py
@@ -125,7 +125,7 @@ class ColorMaps:
             self.colors = self.Spectral.copy()
         else:
             raise ValueError(
-                self.colormap
+                str(colormap)
                 + " is an incorrect colormap. Select one BrBG, PiYg, PRGn,"
                 + " PuOr, RdBu, RdGy, RdYlBu, RdYlGn, or Spectral."
             )
-- 
2.43.0


From 1b266078302441841bc5b951201712564f9bd1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 090/116] fix: legend of temporal patterns when no node is
 rendered

---
 hatchet/external/console.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hatchet/external/console.py b/hatchet/external/console.py
index de8903e..2b5a1f8 100644
--- a/hatchet/external/console.py
+++ b/hatchet/external/console.py
@@ -42,6 +42,13 @@ class ConsoleRenderer:
         self.unicode = unicode
         self.color = color
         self.visited = []
+        self.temporal_symbols = {
+            "none": "",
+            "constant": "\U00002192",
+            "phased": "\U00002933",
+            "dynamic": "\U000021DD",
+            "sporadic": "\U0000219D",
+        }
 
     def render(self, roots, dataframe, **kwargs):
         self.render_header = kwargs["render_header"]
@@ -288,13 +295,6 @@ class ConsoleRenderer:
 
                 # custom visualization for temporal pattern metrics if it is the annotation column
                 if "_pattern" in self.annotation_column:
-                    self.temporal_symbols = {
-                        "none": "",
-                        "constant": "\U00002192",
-                        "phased": "\U00002933",
-                        "dynamic": "\U000021DD",
-                        "sporadic": "\U0000219D",
-                    }
                     pattern_metric = dataframe.loc[df_index, self.annotation_column]
                     annotation_content = self.temporal_symbols[pattern_metric]
                     if self.colormap_annotations:
-- 
2.43.0


From 6a6ef3fb054d0aa7726b86ea2c34e5cc65da4574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:52 +0000
Subject: [PATCH 091/116] fix: list literal metrics that the last root does not
 have

---
 hatchet/readers/literal_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hatchet/readers/literal_reader.py b/hatchet/readers/literal_reader.py
index 926a283..037db8b 100644
--- a/hatchet/readers/literal_reader.py
+++ b/hatchet/readers/literal_reader.py
@@ -160,7 +160,11 @@ class LiteralReader:
 
         exc_metrics = []
         inc_metrics = []
+        # a metric may be missing for some nodes, including the roots
+        metrics = dict.fromkeys(key for row in node_dicts for key in row)
         for key in metrics.keys():
+            if key in ("node", "name"):
+                continue
             if "(inc)" in key:
                 inc_metrics.append(key)
             else:
-- 
2.43.0


From 82b664f3a625331fa93e77c3866da36d0261fd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:59 +0000
Subject: [PATCH 092/116] fix: metric lists in the same order in every process

---
 hatchet/graphframe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index c29a2cb..cd70802 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -930,7 +930,7 @@ class GraphFrame:
                 )
         # Add the newly created metrics to self.exc_metrics
         self.exc_metrics.extend([metric_tuple[0] for metric_tuple in generation_pairs])
-        self.exc_metrics = list(set(self.exc_metrics))
+        self.exc_metrics = list(dict.fromkeys(self.exc_metrics))
 
     def update_inclusive_columns(self):
         """Update inclusive columns (typically after operations that rewire the
@@ -963,7 +963,7 @@ class GraphFrame:
         self.inc_metrics = new_inc_metrics
 
         self.subgraph_sum(self.exc_metrics, self.inc_metrics)
-        self.inc_metrics = list(set(self.inc_metrics + old_inc_metrics))
+        self.inc_metrics = list(dict.fromkeys(self.inc_metrics + old_inc_metrics))
 
     def show_metric_columns(self):
         """Returns a list of dataframe column labels."""
-- 
2.43.0


From 69d116e212a2ed73ca1fc63efec9ee6db656b476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:15 +0000
Subject: [PATCH 093/116] fix: visit siblings with equal frames in their order,
 not by memory address

---
 hatchet/node.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hatchet/node.py b/hatchet/node.py
index 42dc395..a67bb59 100644
--- a/hatchet/node.py
+++ b/hatchet/node.py
@@ -9,8 +9,11 @@ from .frame import Frame
 
 
 def traversal_order(node):
-    """Deterministic key function for sorting nodes in traversals."""
-    return (node.frame, id(node))
+    """Deterministic key function for sorting nodes in traversals.
+
+    Sorting is stable, so nodes with equal frames stay in their original order.
+    """
+    return node.frame
 
 
 def node_traversal_order(node):
-- 
2.43.0


From 68fcffabcf372c7ffbc586a7fc37326fcdd9a59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 094/116] fix: read the files of a timemory directory in sorted
 order

---
 hatchet/readers/timemory_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/timemory_reader.py b/hatchet/readers/timemory_reader.py
index d26c101..fe0323a 100644
--- a/hatchet/readers/timemory_reader.py
+++ b/hatchet/readers/timemory_reader.py
@@ -578,7 +578,7 @@ class TimemoryReader:
             self.graph_dict = self.input
         # check if the input is a directory and get '.tree.json' files if true.
         elif isinstance(self.input, str) and os.path.isdir(self.input):
-            tree_files = glob.glob(glob.escape(self.input) + "/*.tree.json")
+            tree_files = sorted(glob.glob(glob.escape(self.input) + "/*.tree.json"))
             for file in tree_files:
                 # read all files that end with .tree.json.
                 with open(file, "r") as f:
-- 
2.43.0


From 9c4166085b98e354131519aa0a9909d715623350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 095/116] fix: HPCToolkit databases in directories with
 brackets in their name

---
 hatchet/readers/hpctoolkit_reader.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hatchet/readers/hpctoolkit_reader.py b/hatchet/readers/hpctoolkit_reader.py
index 90c4260..85eff54 100644
--- a/hatchet/readers/hpctoolkit_reader.py
+++ b/hatchet/readers/hpctoolkit_reader.py
@@ -95,13 +95,15 @@ class HPCToolkitReader:
 
         # For a parallel run, there should be one metric-db file per MPI
         # process
-        metricdb_files = glob.glob(self.dir_name + "/*.metric-db")
+        metricdb_files = glob.glob(glob.escape(self.dir_name) + "/*.metric-db")
         self.num_metricdb_files = len(metricdb_files)
 
         # We need to know if there are several threads per rank. This counts the
         # number of thread 0 metric-db files (i.e., number of ranks), and compares
         # it with the total number of metric-db files.
-        metricdb_numranks_files = glob.glob(self.dir_name + "/*-000-*.metric-db")
+        metricdb_numranks_files = glob.glob(
+            glob.escape(self.dir_name) + "/*-000-*.metric-db"
+        )
         self.num_ranks = len(metricdb_numranks_files)
         self.has_threads = self.num_metricdb_files > self.num_ranks
 
@@ -160,7 +162,7 @@ class HPCToolkitReader:
         num_metricdb_files rows and num_metrics columns. Three additional columns
         store the node id, MPI process rank, and thread id (if applicable).
         """
-        metricdb_files = glob.glob(self.dir_name + "/*.metric-db")
+        metricdb_files = glob.glob(glob.escape(self.dir_name) + "/*.metric-db")
         metricdb_files.sort()
 
         # All the metric data per node and per process is read into the metrics
-- 
2.43.0


From 842f5605c4e1938bb79546950ca1cd5273e167e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 096/116] fix: merge equal siblings into the first of them, not
 the one at the lowest address

---
 hatchet/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index b272b81..1ac3fc1 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -99,11 +99,11 @@ class Graph:
             index = index_by("frame", node_list)
             for frame, children in index.items():
                 if len(children) > 1:
-                    min_id = min(children, key=id)
+                    min_id = min(children, key=node_traversal_order)
                     for child in children:
                         prev_min = merges.get(child, min_id)
                         # Get the new merged_node
-                        curr_min = min([min_id, prev_min], key=id)
+                        curr_min = min([min_id, prev_min], key=node_traversal_order)
                         # Save the new merged_node to the merges dict
                         # so that the merge can happen later.
                         merges[child] = curr_min
-- 
2.43.0


From 2238322ffe5d82999600c8e1c4ed2c51bff58d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:09 +0000
Subject: [PATCH 097/116] fix: save columns of nullable integers, e.g. of
 Caliper node ids, to HDF5

---
 hatchet/writers/hdf5_writer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hatchet/writers/hdf5_writer.py b/hatchet/writers/hdf5_writer.py
index 8148901..6d4d476 100644
--- a/hatchet/writers/hdf5_writer.py
+++ b/hatchet/writers/hdf5_writer.py
@@ -6,6 +6,8 @@
 import warnings
 import sys
 
+import pandas as pd
+
 from .dataframe_writer import DataframeWriter
 
 
@@ -21,6 +23,10 @@ class HDF5Writer(DataframeWriter):
             raise KeyError("Writing to HDF5 requires a user-supplied key")
         key = kwargs["key"]
         del kwargs["key"]
+        # HDF5 cannot store pandas' extension types, e.g., nullable integers
+        for col, dtype in df.dtypes.items():
+            if pd.api.types.is_extension_array_dtype(dtype):
+                df[col] = df[col].astype(object)
         with warnings.catch_warnings():
             warnings.filterwarnings("ignore", category=Warning)
             df.to_hdf(self.filename, key, **kwargs)
-- 
2.43.0


From 5d217015d6a0e8acdf1f8bd942f7fb394ce34d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:56 +0000
Subject: [PATCH 098/116] fix: keep the node order of graphs in JSON and HDF5

---
 hatchet/graphframe.py               | 4 ++++
 hatchet/readers/dataframe_reader.py | 4 ++++
 hatchet/readers/json_reader.py      | 1 +
 hatchet/writers/dataframe_writer.py | 2 ++
 4 files changed, 11 insertions(+)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index cd70802..179ebaf 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1280,6 +1280,10 @@ class GraphFrame:
         hatchet_dict["inclusive_metrics"] = self.inc_metrics
         hatchet_dict["exclusive_metrics"] = self.exc_metrics
 
+        # the ids of the nodes hold their order
+        if self.graph.node_ordering:
+            hatchet_dict["node_ordering"] = True
+
         return hatchet_dict
 
     def to_json(self):
diff --git a/hatchet/readers/dataframe_reader.py b/hatchet/readers/dataframe_reader.py
index 075ec54..f99ee1c 100644
--- a/hatchet/readers/dataframe_reader.py
+++ b/hatchet/readers/dataframe_reader.py
@@ -69,6 +69,10 @@ class DataframeReader(ABC):
         df = self._read_dataframe_from_file(**kwargs)
         rel_dict = _get_parents_and_children(df)
         graph = _reconstruct_graph(df, rel_dict)
+        # only files of graphs with a "node order" have this column
+        if "node_ordering" in df.columns:
+            graph.node_ordering = True
+            df.drop(columns=["node_ordering"], inplace=True)
         graph.enumerate_traverse()
         exc_metrics = df.iloc[0, df.columns.get_loc("exc_metrics")]
         inc_metrics = df.iloc[0, df.columns.get_loc("inc_metrics")]
diff --git a/hatchet/readers/json_reader.py b/hatchet/readers/json_reader.py
index 3c8d4ea..211899b 100644
--- a/hatchet/readers/json_reader.py
+++ b/hatchet/readers/json_reader.py
@@ -50,6 +50,7 @@ class JsonReader:
                     roots.append(nodes[nid])
 
         grph = Graph(roots)
+        grph.node_ordering = self.spec_dict.get("node_ordering", False)
         grph.enumerate_depth()
 
         # make the dataframes
diff --git a/hatchet/writers/dataframe_writer.py b/hatchet/writers/dataframe_writer.py
index 3d71bff..5082e85 100644
--- a/hatchet/writers/dataframe_writer.py
+++ b/hatchet/writers/dataframe_writer.py
@@ -67,6 +67,8 @@ class DataframeWriter(ABC):
         dump_df.iat[
             0, dump_df.columns.get_loc("default_metric")
         ] = gf_cpy.default_metric
+        if gf_cpy.graph.node_ordering:
+            dump_df["node_ordering"] = True
         self._write_dataframe_to_file(dump_df, **kwargs)
 
 
-- 
2.43.0


From 5556ece9d8edb892e9f187da962544d933da1b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:12 +0000
Subject: [PATCH 099/116] fix: look up rows of graphframes loaded from HDF5 by
 the new node ids

---
 hatchet/readers/dataframe_reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hatchet/readers/dataframe_reader.py b/hatchet/readers/dataframe_reader.py
index f99ee1c..a8fe31b 100644
--- a/hatchet/readers/dataframe_reader.py
+++ b/hatchet/readers/dataframe_reader.py
@@ -74,6 +74,9 @@ class DataframeReader(ABC):
             graph.node_ordering = True
             df.drop(columns=["node_ordering"], inplace=True)
         graph.enumerate_traverse()
+        # the levels of the index are still sorted by the ids in the file
+        index_names = list(df.index.names)
+        df = df.reset_index().set_index(index_names)
         exc_metrics = df.iloc[0, df.columns.get_loc("exc_metrics")]
         inc_metrics = df.iloc[0, df.columns.get_loc("inc_metrics")]
         default_metric = df.iloc[0, df.columns.get_loc("default_metric")]
-- 
2.43.0


From c755317a7036bcf7dace460b9e5f3146d82d4185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:39 +0000
Subject: [PATCH 100/116] fix: order of TAU metrics does not depend on the
 directory listing

---
 hatchet/readers/tau_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/tau_reader.py b/hatchet/readers/tau_reader.py
index 0e80b59..d01b76f 100644
--- a/hatchet/readers/tau_reader.py
+++ b/hatchet/readers/tau_reader.py
@@ -247,7 +247,7 @@ class TAUReader:
         # dirnames -> returns directory names, list
         # files -> returns filenames in a directory, list
         profile_filenames = []
-        for dirpath, dirnames, files in os.walk(self.dirname):
+        for dirpath, dirnames, files in sorted(os.walk(self.dirname)):
             profiles_in_dir = glob.glob(glob.escape(dirpath) + "/profile.*")
             if profiles_in_dir:
                 # sort input files in each directory in the same order
-- 
2.43.0


From 0b2663d71c00de5b8c147bbff45a131789ade3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:56 +0000
Subject: [PATCH 101/116] fix: reading a Caliper file again gives the same
 names to unlabelled nodes

---
 hatchet/readers/caliper_reader.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 4aef76e..0f72cf4 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -19,8 +19,6 @@ from hatchet.frame import Frame
 from hatchet.util.timer import Timer
 from hatchet.util.executable import which
 
-unknown_label_counter = 0
-
 
 class CaliperReader:
     """Read in a Caliper file (`cali` or split JSON) or file-like object."""
@@ -142,7 +140,8 @@ class CaliperReader:
     def create_graph(self):
         list_roots = []
 
-        global unknown_label_counter
+        # numbers the labels of this file, so that reading it again gives equal nodes
+        unknown_label_counter = 0
         order = -1
 
         # order of the nodes as recorded in the "Node order" column, if it exists
-- 
2.43.0


From c945d4afc1c0f295b20afc4d8011101804d9f482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:00 +0000
Subject: [PATCH 102/116] fix: from_caliper() closes the pipe from cali-query
 and waits for it

---
 hatchet/readers/caliper_reader.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 0f72cf4..850d07f 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -58,15 +58,16 @@ class CaliperReader:
             cali_query = which("cali-query")
             if not cali_query:
                 raise ValueError("from_caliper() needs cali-query to query .cali file")
-            cali_json = subprocess.Popen(
+            # leaving the block closes the pipe and waits for cali-query
+            with subprocess.Popen(
                 [cali_query, "-q", self.query, self.filename_or_stream],
                 stdout=subprocess.PIPE,
-            )
-            self.filename_or_stream = cali_json.stdout
+            ) as cali_json:
+                json_obj = json.load(cali_json.stdout)
 
         # if filename_or_stream is a str, then open the file, otherwise
         # directly load the file-like object
-        if isinstance(self.filename_or_stream, str):
+        elif isinstance(self.filename_or_stream, str):
             with open(self.filename_or_stream) as cali_json:
                 json_obj = json.load(cali_json)
         else:
-- 
2.43.0


From 829061273cb7310808996a0e4f1a437ecd6eb7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 103/116] fix: refuse truncated HPCToolkit metric-db files
 instead of repeating their values

---
 hatchet/readers/hpctoolkit_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hatchet/readers/hpctoolkit_reader.py b/hatchet/readers/hpctoolkit_reader.py
index 85eff54..1133169 100644
--- a/hatchet/readers/hpctoolkit_reader.py
+++ b/hatchet/readers/hpctoolkit_reader.py
@@ -64,6 +64,10 @@ def read_metricdb_file(args):
             metricdb, dtype=np.dtype(">f8"), count=num_nodes * num_metrics
         )
 
+    # filling the block below would repeat the values of a file that is cut off
+    if arr1d.size != num_nodes * num_metrics:
+        raise ValueError("HPCToolkit metric-db file is truncated: " + filename)
+
     arr = np.frombuffer(shared_metrics).reshape(shape)
 
     # copy the data in the right place in the larger 2D array of metrics: one
-- 
2.43.0


From 0af0a341e9b52c010f79518f5b7783dec57ca83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:49 +0000
Subject: [PATCH 104/116] fix: sum columns that are themselves sum inputs are
 copied first, and lengths are checked before writing

---
 hatchet/graphframe.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 179ebaf..4eaa112 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -688,12 +688,14 @@ class GraphFrame:
         if out_columns is None:
             out_columns = columns
         else:
-            # init out columns with input columns in case they are not there.
-            for col, out in zip(columns, out_columns):
-                self.dataframe[out] = self.dataframe[col]
+            if len(columns) != len(out_columns):
+                raise ValueError("columns out_columns must be the same length!")
 
-        if len(columns) != len(out_columns):
-            raise ValueError("columns out_columns must be the same length!")
+            # init out columns with input columns in case they are not there.
+            # an output column may be the input column of another one
+            values = [self.dataframe[col].copy() for col in columns]
+            for out, value in zip(out_columns, values):
+                self.dataframe[out] = value
 
         return out_columns
 
-- 
2.43.0


From f8bdc3760f45b8b072d45c4d404829068d6ca915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 105/116] fix: a failed update_inclusive_columns() leaves the
 list of inclusive metrics alone

---
 hatchet/graphframe.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 4eaa112..4c144d4 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -962,10 +962,9 @@ class GraphFrame:
                     new_inc_metrics.append(exc[: -len("(exc)")].strip())
                 else:
                     new_inc_metrics.append("%s (inc)" % exc)
-        self.inc_metrics = new_inc_metrics
 
-        self.subgraph_sum(self.exc_metrics, self.inc_metrics)
-        self.inc_metrics = list(dict.fromkeys(self.inc_metrics + old_inc_metrics))
+        self.subgraph_sum(self.exc_metrics, new_inc_metrics)
+        self.inc_metrics = list(dict.fromkeys(new_inc_metrics + old_inc_metrics))
 
     def show_metric_columns(self):
         """Returns a list of dataframe column labels."""
-- 
2.43.0


From 99bf71724864820d448d68247cee34b15a5456b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:48 +0000
Subject: [PATCH 106/116] fix: Frame() changed and kept the dictionary it was
 given

---
 hatchet/frame.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/frame.py b/hatchet/frame.py
index b090a96..b6a8483 100644
--- a/hatchet/frame.py
+++ b/hatchet/frame.py
@@ -32,8 +32,8 @@ class Frame:
             Frame({"name": "foo", "file": "baz.h"}, file="bar.c")
 
         """
-        # attributes dictionary
-        self.attrs = attrs if attrs else {}
+        # attributes dictionary (the one passed in may be used for other frames)
+        self.attrs = dict(attrs) if attrs else {}
 
         # add keyword arguments, if any.
         if kwargs:
-- 
2.43.0


From a23d0d3f98326ec6560910f852ee1c7a422acd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 107/116] fix: to_dict() and to_literal() handed out the
 graphframe's own frames and metric lists

---
 hatchet/graphframe.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 4c144d4..9d61bcd 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1235,7 +1235,7 @@ class GraphFrame:
                 node_name = node_name[0]
 
             node_dict["name"] = node_name
-            node_dict["frame"] = hnode.frame.attrs
+            node_dict["frame"] = dict(hnode.frame.attrs)
             node_dict["metrics"] = metrics_to_dict(df_index)
             # node_dict["metrics"]["_hatchet_nid"] = int(self.dataframe["nid"][df_index])
             node_dict["metrics"]["_hatchet_nid"] = int(hnode._hatchet_nid)
@@ -1266,7 +1266,7 @@ class GraphFrame:
             formatted_graph_dict = {}
             for n in root.traverse():
                 formatted_graph_dict[n._hatchet_nid] = {
-                    "data": n.frame.attrs,
+                    "data": dict(n.frame.attrs),
                     "children": [c._hatchet_nid for c in n.children],
                 }
             graphs.append(formatted_graph_dict)
@@ -1278,8 +1278,8 @@ class GraphFrame:
         ef["node"] = ef["node"].apply(lambda n: n._hatchet_nid)
         hatchet_dict["dataframe"] = ef.replace({np.nan: None}).to_dict("records")
 
-        hatchet_dict["inclusive_metrics"] = self.inc_metrics
-        hatchet_dict["exclusive_metrics"] = self.exc_metrics
+        hatchet_dict["inclusive_metrics"] = list(self.inc_metrics)
+        hatchet_dict["exclusive_metrics"] = list(self.exc_metrics)
 
         # the ids of the nodes hold their order
         if self.graph.node_ordering:
-- 
2.43.0


From 384971dd457a1fce8ce406a1ab03888791e95bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:57 +0000
Subject: [PATCH 108/116] fix: object queries changed with the dictionaries
 they were made from, and used up iterators

---
 hatchet/query/object_dialect.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/hatchet/query/object_dialect.py b/hatchet/query/object_dialect.py
index b3944ef..6da08eb 100644
--- a/hatchet/query/object_dialect.py
+++ b/hatchet/query/object_dialect.py
@@ -40,10 +40,23 @@ def _compare(value, comparison):
     return eval("value {}".format(comparison))
 
 
+def _copy_filter_value(value):
+    """Copies the value(s) for an attribute of a filter"""
+    if isinstance(value, str):
+        return value
+    try:
+        return list(value)
+    except TypeError:
+        return value
+
+
 def _process_predicate(attr_filter, multi_index_mode):
     """Converts high-level API attribute filter to a lambda"""
     compops = ("<", ">", "==", ">=", "<=", "<>", "!=")  # ,
 
+    # the filter is used for every node, whatever happens to the one passed in
+    attr_filter = {k: _copy_filter_value(v) for k, v in attr_filter.items()}
+
     def filter_series(df_row):
         def filter_single_series(df_row, key, single_value):
             if key == "depth":
-- 
2.43.0


From edc402319434efc178a5f2e3b0355d14f3fce705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:44 +0000
Subject: [PATCH 109/116] fix: to_literal gave NumPy numbers, which cannot be
 written as JSON

---
 hatchet/graphframe.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 9d61bcd..8564c85 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1195,6 +1195,10 @@ class GraphFrame:
 
             return df_index
 
+        def to_python(value):
+            # NumPy's integers and booleans cannot be written as JSON
+            return value.item() if isinstance(value, np.generic) else value
+
         def metrics_to_dict(df_index):
             metrics_dict = {}
             for m in sorted(self.inc_metrics + self.exc_metrics):
@@ -1205,7 +1209,7 @@ class GraphFrame:
                     node_metric_val = 0.0
                 if pd.isna(node_metric_val):
                     node_metric_val = 0.0
-                metrics_dict[m] = node_metric_val
+                metrics_dict[m] = to_python(node_metric_val)
 
             return metrics_dict
 
@@ -1219,7 +1223,7 @@ class GraphFrame:
                 node_attr_val = self.dataframe.loc[df_index, m]
                 if isinstance(node_attr_val, pd.Series):
                     node_attr_val = node_attr_val[0]
-                attributes_dict[m] = node_attr_val
+                attributes_dict[m] = to_python(node_attr_val)
 
             return attributes_dict
 
-- 
2.43.0


From 557d367cc033b4e2a1a32a9e98b85373aff2abe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:02 +0000
Subject: [PATCH 110/116] fix: a query run by a predicate of another query
 destroyed its state

---
 hatchet/query/engine.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/engine.py b/hatchet/query/engine.py
index f0c9a63..ce5b15b 100644
--- a/hatchet/query/engine.py
+++ b/hatchet/query/engine.py
@@ -38,11 +38,16 @@ class QueryEngine:
             (list): A list representing the set of nodes from paths that match the query
         """
         if issubclass(type(query), Query):
+            # this may be called by a predicate of a query that is being applied
+            outer_cache = self.search_cache
             self.reset_cache()
             matches = []
             visited = set()
-            for root in sorted(graph.roots, key=traversal_order):
-                self._apply_impl(query, dframe, root, visited, matches)
+            try:
+                for root in sorted(graph.roots, key=traversal_order):
+                    self._apply_impl(query, dframe, root, visited, matches)
+            finally:
+                self.search_cache = outer_cache
             assert len(visited) == len(graph)
             matched_node_set = list(set().union(*matches))
             # return matches
-- 
2.43.0


From 8db01e63e9d5370b8304a85f4c197a1149ee5789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 111/116] fix: groupby_aggregate by name, node id or function
 gave broken rows

---
 hatchet/graphframe.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 8564c85..8574e34 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1553,16 +1553,14 @@ class GraphFrame:
         for root in self.graph.roots:
             reindex(root, None, visited)
 
-        # append super nodes to groupby-aggregate dataframe
-        df_index = list(agg_df.index.names)
-        agg_df.reset_index(inplace=True)
+        # index the groupby-aggregate dataframe by the super nodes instead of the
+        # group keys. The columns of the super nodes take the place of aggregated
+        # columns of the same name.
         df_nodes = pd.DataFrame.from_dict(data=node_dicts)
+        agg_df = agg_df.reset_index(drop=True)
+        agg_df = agg_df.drop(columns=df_nodes.columns, errors="ignore")
         tmp_df = pd.concat([agg_df, df_nodes], axis=1)
-        # add node to dataframe index if it doesn't exist
-        if "node" not in df_index:
-            df_index.append("node")
-        # reset index
-        tmp_df.set_index(df_index, inplace=True)
+        tmp_df.set_index("node", inplace=True)
 
         # update _hatchet_nid in reindexed graph and groupby-aggregate dataframe
         graph = Graph(new_roots)
-- 
2.43.0


From 8f1e6242da946ce7230529d55a37d9835b984eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 112/116] fix: text with quotes, backslashes or line breaks
 broke on its way to and from a visualisation

---
 .../external/roundtrip/roundtrip/manager.py   | 26 ++++++++++++++++---
 .../external/roundtrip/roundtrip/roundtrip.js |  2 +-
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/hatchet/external/roundtrip/roundtrip/manager.py b/hatchet/external/roundtrip/roundtrip/manager.py
index 1b37973..9178a85 100644
--- a/hatchet/external/roundtrip/roundtrip/manager.py
+++ b/hatchet/external/roundtrip/roundtrip/manager.py
@@ -44,6 +44,24 @@ def _default_from_converter(data):
     return data
 
 
+def _escape_js(text):
+    """
+    Escape a string so that it can be put between quotes in JavaScript code.
+
+    :param text: The string to escape.
+    :returns: The contents of a JavaScript string literal with the value of text.
+    """
+    for char, escaped in (
+        ("\\", "\\\\"),
+        ('"', '\\"'),
+        ("'", "\\'"),
+        ("\n", "\\n"),
+        ("\r", "\\r"),
+    ):
+        text = text.replace(char, escaped)
+    return text
+
+
 class RoundTrip:
     """
     Core Roundtrip class.
@@ -372,7 +390,9 @@ class RoundTrip:
         for flag in update_flags:
             new_data = self.watched[flag]["converter"](self.shell.user_ns[flag])
             for var in self.watched[flag]["js_var"]:
-                code += update_hook.format(js_var=var, data=new_data, var=flag)
+                code += update_hook.format(
+                    js_var=var, data=_escape_js(new_data), var=flag
+                )
         if code != "":
             display(Javascript(code))
 
@@ -482,7 +502,7 @@ class Bridge:
             pass
 
         # Patch: Ensure all ' and " are escaped
-        data = data.replace('"', '\\"').replace("'", "\\'")
+        data = _escape_js(data)
 
         conv_spec = None
 
@@ -509,7 +529,7 @@ class Bridge:
         hook_template = """
             (function(){{
                     var holder = Roundtrip['{src}'];
-                    holder = `\'${{holder}}\'`;
+                    holder = JSON.stringify(`${{holder}}`);
                     var code = {converter_code};
                     code += `\n{dest} = {converter_name}(${{holder}})`;
                     IPython.notebook.kernel.execute(code, {{
diff --git a/hatchet/external/roundtrip/roundtrip/roundtrip.js b/hatchet/external/roundtrip/roundtrip/roundtrip.js
index 309fd2d..a12b2fe 100644
--- a/hatchet/external/roundtrip/roundtrip/roundtrip.js
+++ b/hatchet/external/roundtrip/roundtrip/roundtrip.js
@@ -35,7 +35,7 @@ function unindentPyCode(code){
  */
 function buildPythonAssignment(val, py_var, converter){
     // console.log(val, py_var, converter);
-    var holder = `'${val}'`;
+    var holder = JSON.stringify(`${val}`);
     var code = `${unindentPyCode(converter.code)}`
     code += `\ntmp = ${holder}`;
     code += `\n${py_var} = ${converter.name}(tmp)`
-- 
2.43.0


From e206e2e5885ac77fed9d112d96af8284dfe27366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:06 +0000
Subject: [PATCH 113/116] fix: bindings of a variable to several members were
 lost, and the callback after a cell failed

---
 .../external/roundtrip/roundtrip/manager.py   | 35 +++++++++----------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/hatchet/external/roundtrip/roundtrip/manager.py b/hatchet/external/roundtrip/roundtrip/manager.py
index 9178a85..f585147 100644
--- a/hatchet/external/roundtrip/roundtrip/manager.py
+++ b/hatchet/external/roundtrip/roundtrip/manager.py
@@ -303,16 +303,9 @@ class RoundTrip:
 
             jup_var = jup_var[1:]
 
-            if (
-                jup_var in self.watched.keys()
-                and js_variable not in self.watched[jup_var]["js_var"]
-            ):
-                self.watched[jup_var]["js_var"].append(js_variable)
-            else:
-                self.watched[jup_var] = {
-                    "converter": to_js_converter,
-                    "js_var": [js_variable],
-                }
+            # the same variable may be bound to several members, each with a
+            # converter of its own
+            self.watched.setdefault(jup_var, {})[js_variable] = to_js_converter
         else:
             watch = "false"
 
@@ -330,7 +323,7 @@ class RoundTrip:
             js_to_py_converter=from_js_converter,
         )
 
-    def manage_jupter_change(self):
+    def manage_jupter_change(self, result=None):
         """
         Callback function which runs after a cell is executed.
 
@@ -339,12 +332,16 @@ class RoundTrip:
 
         """
 
-        tokens = [
-            token
-            for token in tokenize.tokenize(
-                io.BytesIO(self.shell.user_ns["_ih"][-1].encode("utf-8")).readline
-            )
-        ]
+        try:
+            tokens = [
+                token
+                for token in tokenize.tokenize(
+                    io.BytesIO(self.shell.user_ns["_ih"][-1].encode("utf-8")).readline
+                )
+            ]
+        except (tokenize.TokenError, SyntaxError):
+            # this cell is not valid Python, so nothing was run
+            return
         assignment_tokens = [
             "=",
             "+=",
@@ -388,8 +385,8 @@ class RoundTrip:
                         break
 
         for flag in update_flags:
-            new_data = self.watched[flag]["converter"](self.shell.user_ns[flag])
-            for var in self.watched[flag]["js_var"]:
+            for var, converter in self.watched[flag].items():
+                new_data = converter(self.shell.user_ns[flag])
                 code += update_hook.format(
                     js_var=var, data=_escape_js(new_data), var=flag
                 )
-- 
2.43.0


From 48e6fbd2db4bbe4f8a04a8d9f0d58090766322d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:23 +0000
Subject: [PATCH 114/116] fix: visualisations loaded with load_web_files shared
 one element id

---
 hatchet/external/roundtrip/roundtrip/manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hatchet/external/roundtrip/roundtrip/manager.py b/hatchet/external/roundtrip/roundtrip/manager.py
index f585147..58b9404 100644
--- a/hatchet/external/roundtrip/roundtrip/manager.py
+++ b/hatchet/external/roundtrip/roundtrip/manager.py
@@ -228,6 +228,9 @@ class RoundTrip:
                 output_html += self._file_formatter(file)
 
         bdg = Bridge(output_html, scripts, self.shell, self.istest)
+
+        self.scrid += 1
+
         self.bridges[bdg.id] = bdg
         self.last_id = bdg.id
 
-- 
2.43.0


From 7f9754a261ce877bc086a430e2d66eff96c4a6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:46 +0000
Subject: [PATCH 115/116] fix: showing a graphframe left a file named check in
 the working directory

---
 hatchet/vis/loader.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/hatchet/vis/loader.py b/hatchet/vis/loader.py
index 902dce8..8298294 100644
--- a/hatchet/vis/loader.py
+++ b/hatchet/vis/loader.py
@@ -26,8 +26,6 @@ def _gf_to_json(data):
         if isinstance(data, GraphFrame):
             return json.dumps(data.to_literal(), default=serialize)
         else:
-            with open("check", "w") as f:
-                f.write(json.dumps(data, default=serialize))
             return json.dumps(data, default=serialize)
     except ValueError:
         raise "Input data is not of type graphframe or json serializable."
-- 
2.43.0


From bf2990c71dba359053c236f6434d7118d670b3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:21 +0000
Subject: [PATCH 116/116] fix: queries of the tree visualisation arrived in the
 notebook with backslashes before their quotes

---
 hatchet/vis/scripts/cct/cct_model.js | 14 +++++++-------
 hatchet/vis/static/cct_bundle.js     | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/hatchet/vis/scripts/cct/cct_model.js b/hatchet/vis/scripts/cct/cct_model.js
index 51518b3..5e7d3c5 100644
--- a/hatchet/vis/scripts/cct/cct_model.js
+++ b/hatchet/vis/scripts/cct/cct_model.js
@@ -39,7 +39,7 @@ class Model{
                     };
 
         //setup model
-        RT['jsNodeSelected'] = 'MATCH (\\"*\\")->(a) WHERE a.\\"name\\" IS NOT NONE';
+        RT['jsNodeSelected'] = 'MATCH ("*")->(a) WHERE a."name" IS NOT NONE';
         let cleanTree = RT["hatchet_tree_def"];
         let _forestData = JSON.parse(cleanTree);
         this.forest = new Forest(_forestData);
@@ -673,20 +673,20 @@ class Model{
         let full_query = '';
 
         //inclusive query
-        let path_query = `MATCH (\\"*\\")->(n) `;
+        let path_query = `MATCH ("*")->(n) `;
         let initial_flag = true;
         for(const leaf of norms){
             if(initial_flag){
                 if(leaf.data.aggregate){
-                    path_query += `WHERE n.\\"node_id\\" = ${leaf.data.prototype.data.metrics._hatchet_nid}`;
+                    path_query += `WHERE n."node_id" = ${leaf.data.prototype.data.metrics._hatchet_nid}`;
                 }
                 else{
-                    path_query += `WHERE n.\\"node_id\\" = ${leaf.data.metrics._hatchet_nid}`;
+                    path_query += `WHERE n."node_id" = ${leaf.data.metrics._hatchet_nid}`;
                 }
                 initial_flag = false;
             }
             else{
-                path_query += ` OR n.\\"node_id\\" = ${leaf.data.metrics._hatchet_nid}`;
+                path_query += ` OR n."node_id" = ${leaf.data.metrics._hatchet_nid}`;
             }
         }
 
@@ -700,11 +700,11 @@ class Model{
             let ex_query = 'MATCH (r) ' 
             for(const node of this.data.removedNodes){
                 if(initial_flag){
-                    ex_query += `WHERE NOT r.\\"node_id\\" = ${node.data.metrics._hatchet_nid}`;
+                    ex_query += `WHERE NOT r."node_id" = ${node.data.metrics._hatchet_nid}`;
                     initial_flag = false;
                 }
                 else{
-                    ex_query += ` AND NOT r.\\"node_id\\" = ${node.data.metrics._hatchet_nid}`;
+                    ex_query += ` AND NOT r."node_id" = ${node.data.metrics._hatchet_nid}`;
                 }
             }
 
diff --git a/hatchet/vis/static/cct_bundle.js b/hatchet/vis/static/cct_bundle.js
index 912ac50..f7f3067 100644
--- a/hatchet/vis/static/cct_bundle.js
+++ b/hatchet/vis/static/cct_bundle.js
@@ -22044,7 +22044,7 @@ var Model = /*#__PURE__*/function () {
       "metricUpdated": true
     }; //setup model
 
-    RT.jsNodeSelected = 'MATCH (\\"*\\")->(a) WHERE a.\\"name\\" IS NOT NONE';
+    RT.jsNodeSelected = 'MATCH ("*")->(a) WHERE a."name" IS NOT NONE';
     var cleanTree = RT.hatchet_tree_def;
 
     var _forestData = JSON.parse(cleanTree);
@@ -22797,7 +22797,7 @@ var Model = /*#__PURE__*/function () {
       console.log(norms);
       var full_query = ''; //inclusive query
 
-      var path_query = "MATCH (\\\"*\\\")->(n) ";
+      var path_query = "MATCH (\"*\")->(n) ";
       var initial_flag = true;
 
       var _iterator8 = cct_model_createForOfIteratorHelper(norms),
@@ -22809,14 +22809,14 @@ var Model = /*#__PURE__*/function () {
 
           if (initial_flag) {
             if (leaf.data.aggregate) {
-              path_query += "WHERE n.\\\"node_id\\\" = ".concat(leaf.data.prototype.data.metrics._hatchet_nid);
+              path_query += "WHERE n.\"node_id\" = ".concat(leaf.data.prototype.data.metrics._hatchet_nid);
             } else {
-              path_query += "WHERE n.\\\"node_id\\\" = ".concat(leaf.data.metrics._hatchet_nid);
+              path_query += "WHERE n.\"node_id\" = ".concat(leaf.data.metrics._hatchet_nid);
             }
 
             initial_flag = false;
           } else {
-            path_query += " OR n.\\\"node_id\\\" = ".concat(leaf.data.metrics._hatchet_nid);
+            path_query += " OR n.\"node_id\" = ".concat(leaf.data.metrics._hatchet_nid);
           }
         }
       } catch (err) {
@@ -22840,10 +22840,10 @@ var Model = /*#__PURE__*/function () {
             var node = _step9.value;
 
             if (initial_flag) {
-              ex_query += "WHERE NOT r.\\\"node_id\\\" = ".concat(node.data.metrics._hatchet_nid);
+              ex_query += "WHERE NOT r.\"node_id\" = ".concat(node.data.metrics._hatchet_nid);
               initial_flag = false;
             } else {
-              ex_query += " AND NOT r.\\\"node_id\\\" = ".concat(node.data.metrics._hatchet_nid);
+              ex_query += " AND NOT r.\"node_id\" = ".concat(node.data.metrics._hatchet_nid);
             }
           }
         } catch (err) {
-- 
2.43.0


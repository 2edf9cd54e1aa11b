From ce96a8156c741a6d211c272ca8d576b6b3aea379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 01/36] fix: graphframe arithmetic no longer overwrites the
 data of its operands

copy() shares column data, and _operator updated the dataframe in place: when
both operands share a graph (gf + gf, gf - gf.copy()), the operands' own
metrics were overwritten with the result.
---
 hatchet/graphframe.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 822720a..af5cb73 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1245,7 +1245,12 @@ class GraphFrame:
             )
         )
 
-        self.dataframe.update(op(other.dataframe[all_metrics]))
+        result = op(other.dataframe[all_metrics])
+
+        # the dataframe's data may be shared with other graphframes (copies are
+        # shallow), so store the result in a copy instead of in place
+        self.dataframe = self.dataframe.copy()
+        self.dataframe.update(result)
 
         return self
 
-- 
2.43.0


From 2a2ff09fc7e8a9b05e91b9cc45d3700def1fbdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 02/36] fix: graph equality distinguishes which shared node an
 edge leads to

dag_equal only checked that both children had been visited before, not that
they had been visited together, so DAGs with different sharing (and different
call paths) compared equal.
---
 hatchet/graph.py |  4 ++--
 hatchet/node.py  | 18 ++++++++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 55194bd..17d1958 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -387,8 +387,8 @@ class Graph:
         """Check if two graphs have the same structure by comparing frame at each
         node.
         """
-        vs = set()
-        vo = set()
+        vs = {}
+        vo = {}
 
         # if both graphs are pointing to the same object, then graphs are equal
         if self is other:
diff --git a/hatchet/node.py b/hatchet/node.py
index 672627a..4168a55 100644
--- a/hatchet/node.py
+++ b/hatchet/node.py
@@ -75,13 +75,14 @@ class Node:
         """Check if DAG rooted at self has the same structure as that rooted at
         other.
         """
+        # vs and vo map the visited nodes of self and other to their counterparts
         if vs is None:
-            vs = set()
+            vs = {}
         if vo is None:
-            vo = set()
+            vo = {}
 
-        vs.add(self._hatchet_nid)
-        vo.add(other._hatchet_nid)
+        vs[self._hatchet_nid] = other._hatchet_nid
+        vo[other._hatchet_nid] = self._hatchet_nid
 
         # if number of children do not match, then nodes are not equal
         if len(self.children) != len(other.children):
@@ -103,8 +104,13 @@ class Node:
             if visited_s != visited_o:
                 return False
 
-            # skip visited nodes
-            if visited_s or visited_o:
+            # skip visited nodes, provided that they were visited together
+            if visited_s:
+                if (
+                    vs[self_child._hatchet_nid] != other_child._hatchet_nid
+                    or vo[other_child._hatchet_nid] != self_child._hatchet_nid
+                ):
+                    return False
                 continue
 
             # recursive check for node equality
-- 
2.43.0


From cd666e4db3468df1b697a31602a2fe73db80dd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 03/36] fix: copying a graph keeps its explicit node order

The copied nodes had no node id when a graph with node ordering was
re-enumerated, so siblings were numbered in child-list order instead.
---
 hatchet/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 17d1958..b77a556 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -178,6 +178,8 @@ class Graph:
         # first pass creates new nodes
         for node in self.traverse():
             old_to_new[node] = node.copy()
+            # keep the node order, which enumerate_traverse may sort by
+            old_to_new[node]._hatchet_nid = node._hatchet_nid
 
         # second pass hooks up parents and children
         for old, new in old_to_new.items():
-- 
2.43.0


From b79560da86629cd9773f429eaf7037a7fe1e51da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:14 +0000
Subject: [PATCH 04/36] fix: union keeps both targets when equal children are
 already mapped apart

When both children had been mapped before, to different nodes, only self's
node was connected, and the call paths of other through its node were lost.
---
 hatchet/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index b77a556..3466961 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -302,6 +302,9 @@ class Graph:
                     )
 
                     connect(parent, new_node)
+                    # both may already be mapped, but to different nodes
+                    if other_mapped and other_mapped is not new_node:
+                        connect(parent, other_mapped)
                     self_child = next(self_children, None)
                     other_child = next(other_children, None)
 
-- 
2.43.0


From 79735842efaf8dfe3acf757cc9768c0a90a116f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:53 +0000
Subject: [PATCH 05/36] fix: union adds each edge once

A node's children are merged once per operand; a child reached again through
the other operand was connected to the same parent a second time.
---
 hatchet/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hatchet/graph.py b/hatchet/graph.py
index 3466961..ee9a3f0 100644
--- a/hatchet/graph.py
+++ b/hatchet/graph.py
@@ -236,7 +236,8 @@ class Graph:
             new_children = []
 
             def connect(parent, new_node):
-                if parent:
+                # a parent is visited once per operand, and may be connected already
+                if parent and not any(p is parent for p in new_node.parents):
                     parent.add_child(new_node)
                     new_node.add_parent(parent)
                 new_children.append(new_node)
-- 
2.43.0


From a79dec3f3506426a2643a39c936f010dc46d3db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:46 +0000
Subject: [PATCH 06/36] fix: subgraph_sum reads its input columns while it
 overwrites its output

On a DAG with a multi-index, or in place, nodes reached along several paths
were added to sums that already contained them.
---
 hatchet/graphframe.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index af5cb73..a043e88 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -748,6 +748,8 @@ class GraphFrame:
             return
 
         out_columns = self._init_sum_columns(columns, out_columns)
+        # the output columns are overwritten node by node, so sum over a copy
+        source = self.dataframe[list(columns)].copy()
         for node in self.graph.traverse():
             subgraph_nodes = list(node.traverse())
             # TODO: need a better way of aggregating inclusive metrics when
@@ -774,15 +776,15 @@ class GraphFrame:
                         df_index1 = (node, rank_thread)
                         df_index2 = (subgraph_nodes, rank_thread)
 
-                    for col in out_columns:
-                        self.dataframe.loc[df_index1, col] = [
-                            function(self.dataframe.loc[df_index2, col])
+                    for col, out in zip(columns, out_columns):
+                        self.dataframe.loc[df_index1, out] = [
+                            function(source.loc[df_index2, col])
                         ]
             else:
                 # TODO: if you take the list constructor away from the
                 # TODO: assignment below, this assignment gives NaNs. Why?
                 self.dataframe.loc[(node), out_columns] = list(
-                    function(self.dataframe.loc[(subgraph_nodes), columns])
+                    function(source.loc[(subgraph_nodes), columns])
                 )
 
     def generate_exclusive_columns(self, inc_metrics=None):
-- 
2.43.0


From 2eda0403e21d659a7aba9d01c356443991840640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:35 +0000
Subject: [PATCH 07/36] fix: squash renumbers the nodes after merging siblings

Merging left gaps in the node ids, which then no longer were the positions of
the nodes in the traversal (HDF5 output, which indexes by id, failed).
---
 hatchet/graphframe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index a043e88..69cdded 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -616,6 +616,9 @@ class GraphFrame:
         # may have children with identical frames.
         merges = graph.normalize()
         df["node"] = df["node"].apply(lambda n: merges.get(n, n))
+        # merging leaves gaps in the node ids
+        if merges:
+            graph.enumerate_traverse()
 
         self.dataframe.set_index(index_names, inplace=True)
         df.set_index(index_names, inplace=True)
-- 
2.43.0


From ec0d3b2f5f19332834acc20893842d9c67756cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 08/36] fix: reading a multi-indexed graphframe back rebuilds
 its graph

Node ids were used as positions in a list of the nodes of all rows, which
repeats each node for a multi-indexed dataframe.
---
 hatchet/readers/dataframe_reader.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hatchet/readers/dataframe_reader.py b/hatchet/readers/dataframe_reader.py
index 7b298c2..cbad0c1 100644
--- a/hatchet/readers/dataframe_reader.py
+++ b/hatchet/readers/dataframe_reader.py
@@ -46,13 +46,14 @@ def _get_parents_and_children(df):
 
 
 def _reconstruct_graph(df, rel_dict):
-    node_list = sorted(list(df.index.to_frame()["node"]))
-    for i in range(len(df)):
-        node = _get_node_from_df_iloc(df, i)
+    # rows of a multi-indexed dataframe repeat their node
+    node_list = sorted(df.index.get_level_values("node").unique())
+    nodes = {node._hatchet_nid: node for node in node_list}
+    for node in node_list:
         if len(node.children) == 0:
-            node.children = [node_list[nid] for nid in rel_dict[node]["children"]]
+            node.children = [nodes[nid] for nid in rel_dict[node]["children"]]
         if len(node.parents) == 0:
-            node.parents = [node_list[nid] for nid in rel_dict[node]["parents"]]
+            node.parents = [nodes[nid] for nid in rel_dict[node]["parents"]]
     roots = [node for node in node_list if len(node.parents) == 0]
     return Graph(roots)
 
-- 
2.43.0


From 70ba53087c1d8954ca7557cd7e60cb7af5ebbdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:54 +0000
Subject: [PATCH 09/36] fix: from_literal connects shared nodes to all of their
 parents

A node repeated by id was looked up by its frame (which other nodes may have
too) and only the first parent was recorded; a root without an id took over
the id of the root before it.
---
 hatchet/readers/literal_reader.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/hatchet/readers/literal_reader.py b/hatchet/readers/literal_reader.py
index c3c95a0..27bb180 100644
--- a/hatchet/readers/literal_reader.py
+++ b/hatchet/readers/literal_reader.py
@@ -66,6 +66,16 @@ class LiteralReader:
         """
         self.graph_dict = graph_dict
 
+    def _is_ancestor(self, hnode, descendant):
+        """True if hnode is descendant, or one of its ancestors."""
+        pending = [descendant]
+        while pending:
+            current = pending.pop()
+            if current is hnode:
+                return True
+            pending.extend(current.parents)
+        return False
+
     def parse_node_literal(
         self, frame_to_node_dict, node_dicts, child_dict, hparent, seen_nids
     ):
@@ -97,10 +107,13 @@ class LiteralReader:
             frame_to_node_dict[frame] = hnode
 
             if hnid != -1:
-                seen_nids.append(hnid)
+                seen_nids[hnid] = hnode
 
         else:
-            hnode = frame_to_node_dict.get(frame)
+            # different nodes may have the same frame, so look the node up by id
+            hnode = seen_nids[hnid]
+            if not self._is_ancestor(hnode, hparent):
+                hnode.add_parent(hparent)
 
         hparent.add_child(hnode)
 
@@ -115,16 +128,17 @@ class LiteralReader:
         node_dicts = []
         frame_to_node_dict = {}
         frame = None
-        seen_nids = []
-        hnid = -1
+        seen_nids = {}
 
         # start with creating a node_dict for each root
         for i in range(len(self.graph_dict)):
+            hnid = -1
             if "_hatchet_nid" in self.graph_dict[i]["metrics"]:
                 hnid = self.graph_dict[i]["metrics"]["_hatchet_nid"]
-                seen_nids.append(hnid)
             frame = Frame(self.graph_dict[i]["frame"])
             graph_root = Node(frame, None, hnid=hnid)
+            if hnid != -1:
+                seen_nids[hnid] = graph_root
 
             # depending on the node type, the name may not be in the frame
             node_name = self.graph_dict[i]["frame"].get("name")
-- 
2.43.0


From e274105c288b0a077b04b72a4924b43a5f233da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 10/36] fix: from_json reads nodes shared by several roots
 once, and sets depths

Each root's section created its own copy of a shared node, of which only one
had rows in the dataframe; and node depths were left unset.
---
 hatchet/readers/json_reader.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/hatchet/readers/json_reader.py b/hatchet/readers/json_reader.py
index 407536b..329464a 100644
--- a/hatchet/readers/json_reader.py
+++ b/hatchet/readers/json_reader.py
@@ -29,30 +29,30 @@ class JsonReader:
 
     def read(self):
         roots = []
+        nodes = {}
         for graph_spec in self.spec_dict["graph"]:
-            # turn frames into nodes
-            for nid, value in graph_spec.items():
-                graph_spec[nid]["data"] = Node(Frame(value["data"]), hnid=int(nid))
+            # turn frames into nodes, which may be shared by several roots
+            new_nids = [nid for nid in graph_spec if nid not in nodes]
+            for nid in new_nids:
+                nodes[nid] = Node(Frame(graph_spec[nid]["data"]), hnid=int(nid))
 
             # connect nodes
-            for nid, value in graph_spec.items():
-                for child in value["children"]:
+            for nid in new_nids:
+                for child in graph_spec[nid]["children"]:
                     child = str(child)
-                    value["data"].add_child(graph_spec[child]["data"])
-                    graph_spec[child]["data"].add_parent(value["data"])
+                    nodes[nid].add_child(nodes[child])
+                    nodes[child].add_parent(nodes[nid])
 
-            for nid, value in graph_spec.items():
-                if len(value["data"].parents) == 0:
-                    roots.append(value["data"])
+            for nid in new_nids:
+                if len(nodes[nid].parents) == 0:
+                    roots.append(nodes[nid])
 
         grph = Graph(roots)
+        grph.enumerate_depth()
 
         # make the dataframes
         dataframe = pd.DataFrame(self.spec_dict["dataframe"])
-        for graph_spec in self.spec_dict["graph"]:
-            dataframe["node"] = dataframe["node"].map(
-                lambda n: graph_spec[str(n)]["data"] if (str(n) in graph_spec) else n
-            )
+        dataframe["node"] = dataframe["node"].map(lambda n: nodes.get(str(n), n))
         dataframe.set_index(self.spec_dict["dataframe_indices"], inplace=True)
 
         return hatchet.graphframe.GraphFrame(
-- 
2.43.0


From 79460daed18139d94c4c7bcdc19514ede22f11de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 11/36] fix: from_literal keeps node ids out of the metrics

As the reader's own comment says: the ids were inserted into the dataframe and
listed as an exclusive metric.
---
 hatchet/readers/literal_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hatchet/readers/literal_reader.py b/hatchet/readers/literal_reader.py
index 27bb180..d4a415c 100644
--- a/hatchet/readers/literal_reader.py
+++ b/hatchet/readers/literal_reader.py
@@ -102,6 +102,7 @@ class LiteralReader:
             node_dict = dict(
                 {"node": hnode, "name": node_name}, **child_dict["metrics"]
             )
+            node_dict.pop("_hatchet_nid", None)
 
             node_dicts.append(node_dict)
             frame_to_node_dict[frame] = hnode
@@ -148,6 +149,7 @@ class LiteralReader:
             node_dict = dict(
                 {"node": graph_root, "name": node_name}, **self.graph_dict[i]["metrics"]
             )
+            node_dict.pop("_hatchet_nid", None)
             node_dicts.append(node_dict)
 
             list_roots.append(graph_root)
@@ -171,6 +173,8 @@ class LiteralReader:
         exc_metrics = []
         inc_metrics = []
         for key in self.graph_dict[i]["metrics"].keys():
+            if key == "_hatchet_nid":
+                continue
             if "(inc)" in key:
                 inc_metrics.append(key)
             else:
-- 
2.43.0


From 1e7cf06f79f55c103e76b9ff3344ec91798eb6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 12/36] fix: Caliper JSON reader sets the parents of its nodes

Nodes were only added to their parents' children, so paths(), and all that
uses it, saw every node as a root.
---
 hatchet/readers/caliper_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hatchet/readers/caliper_reader.py b/hatchet/readers/caliper_reader.py
index 3156e31..b738258 100644
--- a/hatchet/readers/caliper_reader.py
+++ b/hatchet/readers/caliper_reader.py
@@ -176,6 +176,7 @@ class CaliperReader:
                     parent_hnode = (self.idx_to_node[node["parent"]])["node"]
                     hnode = Node(
                         Frame({"type": self.node_type, "name": node_label}),
+                        parent_hnode,
                         hnid=order,
                     )
                     parent_hnode.add_child(hnode)
-- 
2.43.0


From f61b14eebc5622c0f8706da1710bcb5e2c345a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:15 +0000
Subject: [PATCH 13/36] fix: gprof dot reader adds each parent once

The first edge to a function recorded its source as a parent twice, which
doubled the function's call paths.
---
 hatchet/readers/gprof_dot_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/readers/gprof_dot_reader.py b/hatchet/readers/gprof_dot_reader.py
index 49b878f..3bc9ba5 100644
--- a/hatchet/readers/gprof_dot_reader.py
+++ b/hatchet/readers/gprof_dot_reader.py
@@ -48,7 +48,7 @@ class GprofDotReader:
                 if not dst_hnode:
                     # create a node if it doesn't exist yet
                     dst_hnode = Node(
-                        Frame({"type": "function", "name": dst_name}), src_hnode
+                        Frame({"type": "function", "name": dst_name}), None
                     )
                     self.name_to_hnode[dst_name] = dst_hnode
                 # add source node as parent
-- 
2.43.0


From 447002cdc8e9096e9f1f1d737bc537efc753124f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:24 +0000
Subject: [PATCH 14/36] fix: object queries honour multi-index mode 'all' for
 numeric values

---
 hatchet/query/object_dialect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/query/object_dialect.py b/hatchet/query/object_dialect.py
index e401037..8d0eece 100644
--- a/hatchet/query/object_dialect.py
+++ b/hatchet/query/object_dialect.py
@@ -172,7 +172,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                     )
                     return _process_multi_index_mode(apply_ret, multi_index_mode)
                 if isinstance(single_value, Real):
-                    apply_ret = df_row[key].apply(lambda x: x == single_value).any()
+                    apply_ret = df_row[key].apply(lambda x: x == single_value)
                     return _process_multi_index_mode(apply_ret, multi_index_mode)
                 raise InvalidQueryFilter(
                     "Attribute {} has a numeric type. Valid filters for this attribute are a string starting with a comparison operator or a real number.".format(
-- 
2.43.0


From 313428fcab966790d1433ddcf93b031a905e757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:44 +0000
Subject: [PATCH 15/36] fix: object queries treat depth -1 as leaf for
 multi-indexed data too

---
 hatchet/query/object_dialect.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hatchet/query/object_dialect.py b/hatchet/query/object_dialect.py
index 8d0eece..eba5be4 100644
--- a/hatchet/query/object_dialect.py
+++ b/hatchet/query/object_dialect.py
@@ -134,6 +134,9 @@ def _process_predicate(attr_filter, multi_index_mode):
                 ):
                     return eval("{} {}".format(node._depth, single_value))
                 if isinstance(single_value, Real):
+                    # If the value for "depth" is -1, check if the node is a leaf
+                    if single_value == -1:
+                        return len(node.children) == 0
                     return node._depth == single_value
                 raise InvalidQueryFilter(
                     "Attribute {} has a numeric type. Valid filters for this attribute are a string starting with a comparison operator or a real number.".format(
-- 
2.43.0


From 0338328879b97fbdab9c28be046e80203f6286a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 16/36] fix: object queries keep the sign and the operator of
 infinite values

---
 hatchet/query/object_dialect.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/hatchet/query/object_dialect.py b/hatchet/query/object_dialect.py
index eba5be4..469e3e6 100644
--- a/hatchet/query/object_dialect.py
+++ b/hatchet/query/object_dialect.py
@@ -84,11 +84,8 @@ def _process_predicate(attr_filter, multi_index_mode):
                             return eval("pd.isnull({}) == True".format(nan_str))
                         return eval("{} {}".format(nan_str, single_value))
                     elif np.isinf(df_row[key]):
-                        inf_str = "np.inf"
-                        # compare inf metric value to inf query
-                        # (e.g., np.inf == np.inf)
-                        if inf_str in single_value:
-                            return eval("np.isinf({}) == True".format(inf_str))
+                        # keep the sign of the infinity
+                        inf_str = "np.inf" if df_row[key] > 0 else "-np.inf"
                         return eval("{} {}".format(inf_str, single_value))
                     else:
                         return eval("{} {}".format(df_row[key], single_value))
-- 
2.43.0


From 3f0a0f592e14befea7e9400fa3eeb2940da1e8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:22 +0000
Subject: [PATCH 17/36] fix: object queries compare NaN and infinity in
 multi-indexed data

---
 hatchet/query/object_dialect.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hatchet/query/object_dialect.py b/hatchet/query/object_dialect.py
index 469e3e6..d0cf325 100644
--- a/hatchet/query/object_dialect.py
+++ b/hatchet/query/object_dialect.py
@@ -167,8 +167,12 @@ def _process_predicate(attr_filter, multi_index_mode):
                 if isinstance(single_value, str) and single_value.lower().startswith(
                     compops
                 ):
+                    # bind the value to a name, so that NaN and infinity
+                    # (whose text is not a Python expression) can be compared
                     apply_ret = df_row[key].apply(
-                        lambda x: eval("{} {}".format(x, single_value))
+                        lambda x: bool(pd.isnull(x))
+                        if pd.isnull(x) and "np.nan" in single_value
+                        else eval("x {}".format(single_value), globals(), {"x": x})
                     )
                     return _process_multi_index_mode(apply_ret, multi_index_mode)
                 if isinstance(single_value, Real):
-- 
2.43.0


From bb9389b1762476b510431c8cbbdbf52f24f7bbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:43 +0000
Subject: [PATCH 18/36] fix: object queries anchor every alternative of a
 regular expression

---
 hatchet/query/object_dialect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/object_dialect.py b/hatchet/query/object_dialect.py
index d0cf325..dea3ee7 100644
--- a/hatchet/query/object_dialect.py
+++ b/hatchet/query/object_dialect.py
@@ -69,7 +69,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                     raise InvalidQueryFilter(
                         "Value for attribute {} must be a string.".format(key)
                     )
-                return re.match(single_value + r"\Z", df_row[key]) is not None
+                return re.match("(?:" + single_value + r")\Z", df_row[key]) is not None
             if isinstance(df_row[key], Real):
                 if isinstance(single_value, str) and single_value.lower().startswith(
                     compops
@@ -160,7 +160,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                         "Value for attribute {} must be a string.".format(key)
                     )
                 apply_ret = df_row[key].apply(
-                    lambda x: re.match(single_value + r"\Z", x) is not None
+                    lambda x: re.match("(?:" + single_value + r")\Z", x) is not None
                 )
                 return _process_multi_index_mode(apply_ret, multi_index_mode)
             if is_numeric_dtype(df_row[key]):
-- 
2.43.0


From 363955ce3b9725e0ea026a8a64a85741d626e829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:00 +0000
Subject: [PATCH 19/36] fix: string queries with an untyped first condition
 build valid predicates

---
 hatchet/query/string_dialect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index ed4e871..6031e95 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -150,12 +150,12 @@ class StringQuery(Query):
             if n[1] != "":
                 bool_expr = ""
                 type_check = ""
-                for j, cond in enumerate(self.filters[i]):
+                for cond in self.filters[i]:
                     if cond[0] is not None:
                         bool_expr += " {}".format(cond[0])
                     bool_expr += " {}".format(cond[1])
                     if cond[2] is not None:
-                        if j == 0:
+                        if type_check == "":
                             type_check += " {}".format(cond[2])
                         else:
                             type_check += " and {}".format(cond[2])
-- 
2.43.0


From bc60f6b60bc7b34e2a50ed13e89dd82722b5b258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:18 +0000
Subject: [PATCH 20/36] fix: string queries accept nodes without conditions

---
 hatchet/query/string_dialect.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index 6031e95..6338762 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -115,7 +115,8 @@ class StringQuery(Query):
         self.wcard_pos = {}
         self._parse_path(model.path_expr)
         self.filters = [[] for _ in self.wcards]
-        self._parse_conditions(model.cond_expr)
+        if model.cond_expr is not None:
+            self._parse_conditions(model.cond_expr)
         self.lambda_filters = [None for _ in self.wcards]
         self._build_lambdas()
         self._build_query()
@@ -147,7 +148,7 @@ class StringQuery(Query):
         """
         for i in range(0, len(self.wcards)):
             n = self.wcards[i]
-            if n[1] != "":
+            if n[1] != "" and len(self.filters[i]) > 0:
                 bool_expr = ""
                 type_check = ""
                 for cond in self.filters[i]:
-- 
2.43.0


From 87fe0805586cd921e744a096f709bdee877b3798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:40 +0000
Subject: [PATCH 21/36] fix: string queries keep quotes and backslashes in
 string values

---
 hatchet/query/string_dialect.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index 6338762..eeb09f5 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -3,6 +3,7 @@
 #
 # SPDX-License-Identifier: MIT
 
+import json
 from numbers import Real
 import re
 import sys
@@ -447,6 +448,8 @@ class StringQuery(Query):
         """Function that redirects processing of string predicates
         to the correct function.
         """
+        # The value is placed between double quotes in the generated code
+        obj.val = json.dumps(obj.val, ensure_ascii=False)[1:-1]
         if cname(obj) == "StringEq":
             return self._run_method_based_on_multi_idx_mode("_parse_str_eq", obj)
         if cname(obj) == "StringStartsWith":
-- 
2.43.0


From df0b64198c34e359f0359aacc030b51d4c9df5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:57 +0000
Subject: [PATCH 22/36] fix: string queries aggregate negated NaN and infinity
 checks per row

---
 hatchet/query/string_dialect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index eeb09f5..f0ea5da 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -1301,7 +1301,7 @@ class StringQuery(Query):
             None,
             obj.name,
             self._add_aggregation_call_to_multi_idx_predicate(
-                'not pd.isna(df_row["{}"])'.format(obj.prop)
+                '(~pd.isna(df_row["{}"]))'.format(obj.prop)
             ),
             "is_numeric_dtype(df_row['{}'])".format(obj.prop),
         ]
@@ -1395,7 +1395,7 @@ class StringQuery(Query):
             None,
             obj.name,
             self._add_aggregation_call_to_multi_idx_predicate(
-                'not np.isinf(df_row["{}"])'.format(obj.prop)
+                '(~np.isinf(df_row["{}"]))'.format(obj.prop)
             ),
             "is_numeric_dtype(df_row['{}'])".format(obj.prop),
         ]
-- 
2.43.0


From 9069cfe4501c519e605d64ae7cbf8abaef2db995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:14 +0000
Subject: [PATCH 23/36] fix: braced string queries keep the multi-index mode

---
 hatchet/query/string_dialect.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index f0ea5da..8b966e9 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -1543,10 +1543,12 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
             # If in the first iteration, set the initial query as the result
             # of recursively calling this function on the first curly brace-delimited region
             if i == 0:
-                full_query = parse_string_dialect(query_list[i])
+                full_query = parse_string_dialect(query_list[i], multi_index_mode)
             # Get the next query by recursively calling this function
             # on the next curly brace-delimited region
-            next_query = parse_string_dialect(query_list[i + 1])
+            next_query = parse_string_dialect(
+                query_list[i + 1], multi_index_mode
+            )
             # Add the next query to the full query using the compound operator
             # currently being considered
             if op == "AND":
-- 
2.43.0


From d06a08ea88e74dda4466b3f66e5ca8ec27c61c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:33 +0000
Subject: [PATCH 24/36] fix: query engine restarts a wildcard match at the
 wildcard itself

---
 hatchet/query/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/query/engine.py b/hatchet/query/engine.py
index 707a565..a3bf736 100644
--- a/hatchet/query/engine.py
+++ b/hatchet/query/engine.py
@@ -173,7 +173,7 @@ class QueryEngine:
         # Starting query node
         pattern_idx = match_idx + 1
         if query.query_pattern[match_idx][0] == "*":
-            pattern_idx = 0
+            pattern_idx = match_idx
         # Starting matching pattern
         matches = [[pattern_root]]
         while pattern_idx < len(query):
-- 
2.43.0


From 69a958470f8fde63a843724c53463f5169645219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 25/36] fix: object queries accept regular expressions with
 leading inline flags

---
 hatchet/query/object_dialect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/query/object_dialect.py b/hatchet/query/object_dialect.py
index dea3ee7..4239b83 100644
--- a/hatchet/query/object_dialect.py
+++ b/hatchet/query/object_dialect.py
@@ -69,7 +69,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                     raise InvalidQueryFilter(
                         "Value for attribute {} must be a string.".format(key)
                     )
-                return re.match("(?:" + single_value + r")\Z", df_row[key]) is not None
+                return re.fullmatch(single_value, df_row[key]) is not None
             if isinstance(df_row[key], Real):
                 if isinstance(single_value, str) and single_value.lower().startswith(
                     compops
@@ -160,7 +160,7 @@ def _process_predicate(attr_filter, multi_index_mode):
                         "Value for attribute {} must be a string.".format(key)
                     )
                 apply_ret = df_row[key].apply(
-                    lambda x: re.match("(?:" + single_value + r")\Z", x) is not None
+                    lambda x: re.fullmatch(single_value, x) is not None
                 )
                 return _process_multi_index_mode(apply_ret, multi_index_mode)
             if is_numeric_dtype(df_row[key]):
-- 
2.43.0


From 53bdf0043a438dfc3fb52c2474824e527d5977db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:54 +0000
Subject: [PATCH 26/36] fix: to_flamegraph uses the name column it is given

---
 hatchet/graphframe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 69cdded..1d73c8f 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1079,7 +1079,7 @@ class GraphFrame:
                     else:
                         df_index = callpath[i]
                     folded_stack = (
-                        folded_stack + str(self.dataframe.loc[df_index, "name"]) + "; "
+                        folded_stack + str(self.dataframe.loc[df_index, name]) + "; "
                     )
 
                 if (
@@ -1094,7 +1094,7 @@ class GraphFrame:
                 else:
                     df_index = callpath[-1]
                 folded_stack = (
-                    folded_stack + str(self.dataframe.loc[df_index, "name"]) + " "
+                    folded_stack + str(self.dataframe.loc[df_index, name]) + " "
                 )
 
                 # set dataframe index based on if rank and thread are part of the index
-- 
2.43.0


From f42ad3dd0e2e758fd6a530ee661baba942d512c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 27/36] fix: an unknown colormap is reported as a ValueError

---
 hatchet/util/colormaps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hatchet/util/colormaps.py b/hatchet/util/colormaps.py
index b3b23ce..998f272 100644
--- a/hatchet/util/colormaps.py
+++ b/hatchet/util/colormaps.py
@@ -125,7 +125,7 @@ class ColorMaps:
             self.colors = self.Spectral.copy()
         else:
             raise ValueError(
-                self.colormap
+                str(colormap)
                 + " is an incorrect colormap. Select one BrBG, PiYg, PRGn,"
                 + " PuOr, RdBu, RdGy, RdYlBu, RdYlGn, or Spectral."
             )
-- 
2.43.0


From b298718736def35a26371be5121d207fc7a93a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 28/36] fix: generating exclusive metrics leaves other
 graphframes' metric lists alone

---
 hatchet/graphframe.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 1d73c8f..b2a35d0 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -879,8 +879,10 @@ class GraphFrame:
                     **{exc: pd.Series(data=new_data)}
                 )
         # Add the newly created metrics to self.exc_metrics
-        self.exc_metrics.extend([metric_tuple[0] for metric_tuple in generation_pairs])
-        self.exc_metrics = list(set(self.exc_metrics))
+        # (the list may be shared with other graphframes, so build a new one)
+        self.exc_metrics = list(
+            set(self.exc_metrics + [metric_tuple[0] for metric_tuple in generation_pairs])
+        )
 
     def update_inclusive_columns(self):
         """Update inclusive columns (typically after operations that rewire the
-- 
2.43.0


From 685d47e6af666200b8d3b700b5c64d2b776b7551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:05 +0000
Subject: [PATCH 29/36] fix: nodes cannot be ordered against other types, as
 pandas expects

---
 hatchet/node.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hatchet/node.py b/hatchet/node.py
index 4168a55..3f6b7a7 100644
--- a/hatchet/node.py
+++ b/hatchet/node.py
@@ -200,9 +200,14 @@ class Node:
         return self._hatchet_nid == other._hatchet_nid
 
     def __lt__(self, other):
+        # pandas probes index levels with other types, and expects a TypeError
+        if not isinstance(other, Node):
+            return NotImplemented
         return self._hatchet_nid < other._hatchet_nid
 
     def __gt__(self, other):
+        if not isinstance(other, Node):
+            return NotImplemented
         return self._hatchet_nid > other._hatchet_nid
 
     def __str__(self):
-- 
2.43.0


From 7ea54b25fb93660cf0037df3dbd65c5305a7afa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 30/36] fix: parallel filter keeps the graph's own nodes and
 the row order

---
 hatchet/graphframe.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index b2a35d0..fd6a411 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -496,7 +496,12 @@ class GraphFrame:
                 for proc in processes:
                     proc.join()
 
-                filtered_df = pd.concat(returned_frames)
+                # The frames returned contain copies of the nodes, in the order in
+                # which the processes finished, so pick the rows they name from
+                # the original data.
+                filtered_df = dataframe_copy.loc[
+                    pd.concat(returned_frames).index.sort_values()
+                ]
 
             else:
                 # perform filter sequentiually if num_procs = 1
-- 
2.43.0


From dfc27148eaea9e3fdedf1a27e7c6b4742791b13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:00 +0000
Subject: [PATCH 31/36] fix: braces inside quoted values do not group string
 queries

---
 hatchet/query/string_dialect.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/hatchet/query/string_dialect.py b/hatchet/query/string_dialect.py
index 8b966e9..fda114b 100644
--- a/hatchet/query/string_dialect.py
+++ b/hatchet/query/string_dialect.py
@@ -1411,12 +1411,15 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
     Returns:
         (Query or CompoundQuery): A Hatchet query object representing the String-based query
     """
-    # TODO Check if there's a way to prevent curly braces in a string
-    #      from being captured
-
-    # Find the number of curly brace-delimited regions in the query
+    # Find the number of curly brace-delimited regions in the query. Quoted
+    # strings are blanked out for this, because they may contain curly braces.
     query_str = query_str.strip()
-    curly_brace_elems = re.findall(r"\{(.*?)\}", query_str)
+    unquoted_str = re.sub(
+        r'"(\\"|[^"])*"|' r"'(\\'|[^'])*'",
+        lambda match: " " * len(match.group()),
+        query_str,
+    )
+    curly_brace_elems = re.findall(r"\{(.*?)\}", unquoted_str)
     num_curly_brace_elems = len(curly_brace_elems)
     # If there are no curly brace-delimited regions, just pass the query
     # off to the CypherQuery constructor
@@ -1425,7 +1428,7 @@ def parse_string_dialect(query_str, multi_index_mode="off"):
             query_str = query_str.decode("utf-8")
         return StringQuery(query_str, multi_index_mode)
     # Create an iterator over the curly brace-delimited regions
-    curly_brace_iter = re.finditer(r"\{(.*?)\}", query_str)
+    curly_brace_iter = re.finditer(r"\{(.*?)\}", unquoted_str)
     # Will store curly brace-delimited regions in the WHERE clause
     condition_list = None
     # Will store curly brace-delimited regions that contain entire
-- 
2.43.0


From 79f390c3ff074d970143fc13b5d1779048175528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 32/36] fix: from_json keeps metrics without any value numeric

---
 hatchet/readers/json_reader.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hatchet/readers/json_reader.py b/hatchet/readers/json_reader.py
index 329464a..636ca85 100644
--- a/hatchet/readers/json_reader.py
+++ b/hatchet/readers/json_reader.py
@@ -55,6 +55,13 @@ class JsonReader:
         dataframe["node"] = dataframe["node"].map(lambda n: nodes.get(str(n), n))
         dataframe.set_index(self.spec_dict["dataframe_indices"], inplace=True)
 
+        # a metric all of whose values are missing is still numeric
+        for metric in (
+            self.spec_dict["exclusive_metrics"] + self.spec_dict["inclusive_metrics"]
+        ):
+            if metric in dataframe.columns and dataframe[metric].isna().all():
+                dataframe[metric] = dataframe[metric].astype(float)
+
         return hatchet.graphframe.GraphFrame(
             grph,
             dataframe,
-- 
2.43.0


From e40e909b2591c77315b62ef1e3e72de00845376b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:00 +0000
Subject: [PATCH 33/36] fix: fast_not_isin marks every row by its own key, also
 the largest key, and accepts no rows

---
 hatchet/cython_modules/graphframe_modules.pyx | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hatchet/cython_modules/graphframe_modules.pyx b/hatchet/cython_modules/graphframe_modules.pyx
index 54582de..501e1b0 100644
--- a/hatchet/cython_modules/graphframe_modules.pyx
+++ b/hatchet/cython_modules/graphframe_modules.pyx
@@ -31,12 +31,11 @@ cpdef fast_not_isin(const unsigned long long[:,:] arr1, const unsigned long long
     """
     result = np.zeros(len(arr1), dtype=np.bool_)
     cdef long index = -1
-    cdef unsigned long long prior = -1
     cdef long i = 0
 
     for i in range(arr1_len):
         # mini optimization: don't perform binsearch if we already know node is/isnot in graph
-        if prior == arr1[i][0]:
+        if i > 0 and arr1[i][0] == arr1[i-1][0]:
             result[arr1[i][1]] = result[arr1[i-1][1]]
         else:
             index = binary_search(arr2, arr2_len, arr1[i][0])
@@ -45,8 +44,6 @@ cpdef fast_not_isin(const unsigned long long[:,:] arr1, const unsigned long long
             else:
                 result[arr1[i][1]] = False
 
-    prior = arr1[i][0]
-
     return result
 
 cdef binary_search(const unsigned long long[:,:] array, const long arr_len, const unsigned long long key):
-- 
2.43.0


From ee473c4814dd70722c23f7989ea9a03bb364c180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:12 +0000
Subject: [PATCH 34/36] fix: subgraph_sum and subtree_sum handle output columns
 that are input columns of others

---
 hatchet/graphframe.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index fd6a411..e6cca89 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -662,8 +662,10 @@ class GraphFrame:
             out_columns = columns
         else:
             # init out columns with input columns in case they are not there.
-            for col, out in zip(columns, out_columns):
-                self.dataframe[out] = self.dataframe[col]
+            # (an output column may be the input of another one)
+            values = [self.dataframe[col] for col in columns]
+            for value, out in zip(values, out_columns):
+                self.dataframe[out] = value
 
         if len(columns) != len(out_columns):
             raise ValueError("columns out_columns must be the same length!")
@@ -755,9 +757,9 @@ class GraphFrame:
             self.subtree_sum(columns, out_columns, function)
             return
 
-        out_columns = self._init_sum_columns(columns, out_columns)
         # the output columns are overwritten node by node, so sum over a copy
         source = self.dataframe[list(columns)].copy()
+        out_columns = self._init_sum_columns(columns, out_columns)
         for node in self.graph.traverse():
             subgraph_nodes = list(node.traverse())
             # TODO: need a better way of aggregating inclusive metrics when
-- 
2.43.0


From ec189906ed902f729d6943f442dbe396a84939bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 35/36] fix: generating the exclusive metric of one named
 metric leaves out metrics whose name is part of it

---
 hatchet/graphframe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index e6cca89..6b4d34a 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -817,6 +817,9 @@ class GraphFrame:
         # TODO Change how exclusive-inclusive pairs are determined when inc_metrics and exc_metrics are changed
         # Iterate over inclusive metrics and collect tuples of (new exclusive metrics name, inclusive metric name)
         generation_pairs = []
+        # A single name is a list of one metric (and not of the names within it)
+        if isinstance(inc_metrics, str):
+            inc_metrics = [inc_metrics]
         for inc in self.inc_metrics:
             if inc_metrics and inc not in inc_metrics:
                 continue
-- 
2.43.0


From 33375a7d9a5fb9861c81dabf37c98030c6928108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:06 +0000
Subject: [PATCH 36/36] fix: in-place division stores its result in the left
 operand

---
 hatchet/graphframe.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hatchet/graphframe.py b/hatchet/graphframe.py
index 6b4d34a..5e3c9aa 100644
--- a/hatchet/graphframe.py
+++ b/hatchet/graphframe.py
@@ -1673,6 +1673,15 @@ class GraphFrame:
         """
         return self.div(other)
 
+    def __itruediv__(self, other):
+        """Computes column-wise float division of two graphframes and stores the
+        result in self (Python 3's name for __idiv__).
+
+        Return:
+            (GraphFrame): self's graphframe modified
+        """
+        return self.__idiv__(other)
+
     def __imul__(self, other):
         """Computes column-wise float multiplication of two graphframes and stores the
         result in self.
-- 
2.43.0


From 2a780bdd3579cf2320fe20200211de4ebc3b6b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 01/93] fix: model_profile must not add excluded ops to the
 shared default set

---
 onnx_tool/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index b7d892a..f145853 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -86,7 +86,7 @@ def model_profile(m, dynamic_shapes: {str: tuple} = None,
         all_ops = {op.name for op in get_all_schemas()}
         for item in exclude_ops:
             assert item in all_ops, f"Provided exclude op is not a valid onnx op: {item}"
-        hidden_ops.update(exclude_ops)
+        hidden_ops = set(hidden_ops or ()) | set(exclude_ops)
     gtmr.start()
     g.shape_infer(dynamic_shapes)
     g.log(f'infered all tensor shapes, time cost {gtmr.stop():.3f} s')
-- 
2.43.0


From 9e1a2cd64034b91d0bc0bf170a0cc1353dac2072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 02/93] fix: profile rows follow graph order, not the hash seed

---
 onnx_tool/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 80de650..fb16023 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1438,7 +1438,7 @@ class Graph():
         self.macs = [0.0, 0.0]
         self.params = 0
         self.memory = 0
-        ops_to_cover = {k for k, v in self.nodemap.items() if v.op_type not in exclude_ops} if exclude_ops else self.nodemap.keys()
+        ops_to_cover = [k for k, v in self.nodemap.items() if v.op_type not in exclude_ops] if exclude_ops else self.nodemap.keys()
         for key in ops_to_cover:
             node = self.nodemap[key]
             itensors = []
@@ -1542,7 +1542,7 @@ class Graph():
         params += 1e-18
         memory += 1e-18
         forward_macs += 1e-18
-        ops_to_cover = {k for k, v in self.nodemap.items() if v.op_type not in exclude_ops} if exclude_ops else self.nodemap.keys()
+        ops_to_cover = [k for k, v in self.nodemap.items() if v.op_type not in exclude_ops] if exclude_ops else self.nodemap.keys()
         for key in ops_to_cover:
             node = self.nodemap[key]
             row = [key, self.nodemap[key].op_type]
-- 
2.43.0


From ca88790fcefb1a9dea093bd7fc115f6e857bae75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 03/93] fix: splitting a model passes the configuration Graph
 requires

---
 onnx_tool/__init__.py | 2 +-
 onnx_tool/graph.py    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index f145853..c92d7c1 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -176,7 +176,7 @@ def model_subgraph(m, in_tensor_names: [str] = None, out_tensor_names: [str] = N
         graph_lvl2.save_model(os.path.join(save_folder, model.modelname + '_level2.onnx'), rawmodel=model.mproto)
     if nodenames is not None:
         rawgraph = graph.get_onnxgraph_by_nodenames(nodenames)
-        subgraph = Graph(rawgraph)
+        subgraph = Graph(rawgraph, model.cfg)
         subgraph.save_model(os.path.join(save_folder, model.modelname + '_subgraph.onnx'), rawmodel=model.mproto)
 
 
diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index fb16023..c3c8148 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -592,9 +592,9 @@ class Graph():
     def get_subgraph(self, inputs: [], outputs: []):
         graph_level0, graph_level1, graph_level2 = self.__get_subnodes_byio__(inputs, outputs)
 
-        graph_level0 = Graph(self.get_onnxgraph_by_nodenames(graph_level0))
-        graph_level1 = Graph(self.get_onnxgraph_by_nodenames(graph_level1))
-        graph_level2 = Graph(self.get_onnxgraph_by_nodenames(graph_level2))
+        graph_level0 = Graph(self.get_onnxgraph_by_nodenames(graph_level0), self.cfg)
+        graph_level1 = Graph(self.get_onnxgraph_by_nodenames(graph_level1), self.cfg)
+        graph_level2 = Graph(self.get_onnxgraph_by_nodenames(graph_level2), self.cfg)
 
         group_outputs = [graph_level0.output, graph_level1.output, graph_level2.output]
         group_inputs = [graph_level0.input, graph_level1.input, graph_level2.input]
-- 
2.43.0


From 5a3311d01043c0931471990225056b68d2932d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 04/93] fix: model_opfusion calls the fusion methods with their
 real parameter names

---
 onnx_tool/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index c92d7c1..209e0fb 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -185,9 +185,9 @@ def model_opfusion(m, op_type: str, op_name: str, save_file: str, in_tensor_name
     model = loadmodel(m)
     graph = model.graph
     if in_tensor_names is not None and out_tensor_names is not None:
-        graph.fuse_subgraph_iotensors(inputs=in_tensor_names, outputs=out_tensor_names, name=op_name,
+        graph.fuse_subgraph_iotensors(inputs=in_tensor_names, outputs=out_tensor_names, name_prefix=op_name,
                                       nodeop=op_type, keep_attr=keep_attr)
         model.save_model(save_file)
     if nodenames is not None:
-        graph.fuse_subgraph_node_names(nodenames, nodeop=op_type, name=op_name, keep_attr=keep_attr)
+        graph.fuse_subgraph_node_names(nodenames, nodeop=op_type, nodename=op_name, keep_attr=keep_attr)
         model.save_model(save_file)
-- 
2.43.0


From ee28c022e282cfd8c9739f1dc11bea71652f5ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 05/93] fix: a graph output stays an output of its part even
 when the part consumes it

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index c3c8148..6ac6b34 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -986,7 +986,7 @@ class Graph():
             for output in self.nodemap[name].output:
                 if remove_initials and output in self.initials:
                     continue
-                if output in self.consumedby:
+                if output in self.consumedby and output not in self.output:
                     consumers = self.consumedby[output]
                     inner = True
                     for consumer in consumers:
-- 
2.43.0


From 0b2c91a1272ee9228811aa5a08d66d82ccfa5bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 06/93] fix: reordering keeps the graph inputs among the
 dynamic tensors

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 6ac6b34..34f5307 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -328,7 +328,7 @@ class Graph():
 
     def update_tensor_relations(self):
         self.__update_consumer_producer__()
-        self.dynamics = list(self.producedby.keys())
+        self.dynamics = [name for name in self.input if name not in self.producedby] + list(self.producedby.keys())
 
     def __remove_if__(self):
         while True:
-- 
2.43.0


From dfe2dd6e7f067f203296dbc6dc6a5262a493cead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 07/93] fix: a refused add_initial/add_dynamic leaves no name
 behind, a repeated one no duplicate

---
 onnx_tool/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 34f5307..b162e20 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -573,20 +573,22 @@ class Graph():
 
     def add_initial(self, name, data):
         from .tensor import create_initial_Tensor
-        self.initials.append(name)
         if isinstance(data, numpy.ndarray):
             self.tensormap[name] = create_initial_Tensor(name, data)
         else:
             raise NotImplementedError('unsupported data type')
+        if name not in self.initials:
+            self.initials.append(name)
         return self.tensormap[name]
 
     def add_dynamic(self, name, data):
         from .tensor import create_dynamic_Tensor
-        self.dynamics.append(name)
         if isinstance(data, numpy.ndarray):
             self.tensormap[name] = create_dynamic_Tensor(name, data)
         else:
             raise NotImplementedError('unsupported data type')
+        if name not in self.dynamics:
+            self.dynamics.append(name)
         return self.tensormap[name]
 
     def get_subgraph(self, inputs: [], outputs: []):
-- 
2.43.0


From 92b3be7dad8d50f443c22a787b358d45cf807d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:51 +0000
Subject: [PATCH 08/93] fix: recursive removal keeps the node that computes a
 graph output

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index b162e20..a4fd3df 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -655,7 +655,7 @@ class Graph():
         # update consumer
         for i in node.input:
             if i in self.consumedby.keys():
-                if len(self.consumedby[i]) == 1 and i in self.producedby:
+                if len(self.consumedby[i]) == 1 and i in self.producedby and i not in self.output:
                     pnode = self.producedby[i][0]
                     assert (len(self.producedby[i]) == 1)
                     dangle_node = True
-- 
2.43.0


From e6491e95447accd7033acb55aa2cc66691658ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 09/93] fix: subtree and dangling-node removal follow the
 consumer index, not stale node links

---
 onnx_tool/graph.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index a4fd3df..7b86303 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -681,9 +681,11 @@ class Graph():
             if nodename in self.nodemap:  # may be already removed?
                 node = self.nodemap[nodename]
 
-                for n in node.nextnodes:
-                    nodeset.add(n.name)
-                    nodeset.union(self.remove_subtree(n.name, nodeset))
+                for o in node.output:
+                    for n in self.consumedby.get(o, []):
+                        if n not in nodeset:
+                            nodeset.add(n)
+                            self.remove_subtree(n, nodeset)
                 return nodeset
             return nodeset
 
@@ -707,8 +709,8 @@ class Graph():
                     if o in self.output:
                         node_used = True
 
-                for nnode in node.nextnodes:
-                    if nnode.name in self.nodemap:
+                for o in node.output:
+                    if len(self.consumedby.get(o, [])) > 0:
                         node_used = True
                         break
 
-- 
2.43.0


From 3b89c6b5ab9b6e4a69d0c0f6643ed01af9f53468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 10/93] fix: fusing nodes keeps graph outputs, consumer index
 and node names intact

---
 onnx_tool/graph.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 7b86303..acfd539 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -745,6 +745,9 @@ class Graph():
         self.nodemap.pop(nodename)
 
     def fuse_subgraph_node_names(self, nodes: [str], nodeop: str, nodename: str, keep_attr=True):
+        if nodename in self.nodemap and nodename not in nodes:
+            raise ValueError(f'The graph already has a node named {nodename}')
+        graph_outputs = list(self.output)
         _inputs, _outputs = self.get_iotensors(nodes, remove_initials=False)
         newnode_prot = onnx.helper.make_node(nodeop, _inputs, _outputs, name=nodename)
         count = 0
@@ -768,14 +771,16 @@ class Graph():
             else:
                 self.consumedby[i] = [nodename]
             if i in self.producedby.keys():
-                newnode.prevnodes.append(self.producedby[i])
+                newnode.prevnodes.extend([self.nodemap[p] for p in self.producedby[i]])
         for o in _outputs:
             self.producedby[o] = [nodename]
             if o in self.consumedby.keys():
-                newnode.nextnodes.append(self.consumedby[o])
+                newnode.nextnodes.extend([self.nodemap[c] for c in self.consumedby[o]])
         self.nodemap[nodename] = newnode
+        self.output = graph_outputs
 
     def fuse_postop_node_names(self, nodes: [str], append_attr: bool, **extrakeys):
+        graph_outputs = list(self.output)
         _inputs, _outputs = self.get_iotensors(nodes, remove_initials=False)
         mainnode = self.nodemap[nodes[0]]
         newnode = onnx.helper.make_node(mainnode.op_type, _inputs, _outputs, name=mainnode.name)
@@ -816,13 +821,16 @@ class Graph():
         for i in _inputs:
             if i in self.consumedby.keys():
                 self.consumedby[i].append(mainnode.name)
+            else:
+                self.consumedby[i] = [mainnode.name]
             if i in self.producedby.keys():
-                newnode.prevnodes.append(self.producedby[i])
+                newnode.prevnodes.extend([self.nodemap[p] for p in self.producedby[i]])
         for o in _outputs:
             self.producedby[o] = [mainnode.name]
             if o in self.consumedby.keys():
-                newnode.nextnodes.append(self.consumedby[o])
+                newnode.nextnodes.extend([self.nodemap[c] for c in self.consumedby[o]])
         self.nodemap[mainnode.name] = newnode
+        self.output = graph_outputs
 
     def fuse_subgraph_iotensors(self, inputs: [], outputs: [], nodeop: str, name_prefix: str = None, keep_attr=True):
         _, nodes, _ = self.__get_subnodes_byio__(inputs, outputs)
-- 
2.43.0


From ed5bd2314a3ea3b882bbfe9958851ef1109bc204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 11/93] fix: skip_node rewires every consumer and keeps the
 indexes and graph outputs intact

---
 onnx_tool/graph.py | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index acfd539..b68d215 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -722,27 +722,29 @@ class Graph():
 
     def skip_node(self, nodename):
         node = self.nodemap[nodename]
-        count = 0
-        for input in node.input:
-            if input in self.dynamics:
-                count += 1
-                indtensor = input
-        if count == 1 and len(node.output) == 1:
-            self.consumedby[indtensor].remove(nodename)
-            if node.output[0] in self.consumedby:
-                for con in self.consumedby[node.output[0]]:
-                    con_node = self.nodemap[con]
-                    for i in range(len(con_node.input)):
-                        if con_node.input[i] == node.output[0]:
-                            con_node.input[i] = indtensor
-                            self.consumedby[indtensor].append(con)
-                            break
-            else:
-                for pro in self.producedby[indtensor]:
-                    pro_node = self.nodemap[pro]
-                    assert (len(pro_node.output) == 1)
-                    pro_node.output[0] = node.output[0]
+        dyn_inputs = [input for input in node.input if input in self.dynamics]
+        if len(dyn_inputs) != 1 or len(node.output) != 1:
+            warnings.warn(f'Node {nodename} has more than one dynamic input or output, it can not be skipped')
+            return
+        src = dyn_inputs[0]
+        dst = node.output[0]
+        if dst not in self.output:
+            for con in self.consumedby.get(dst, []):
+                con_node = self.nodemap[con]
+                con_node.input = [src if name == dst else name for name in con_node.input]
+        elif src in self.producedby and src not in self.output:
+            # the graph output keeps its name
+            for pro in self.producedby[src]:
+                pro_node = self.nodemap[pro]
+                pro_node.output = [dst if name == src else name for name in pro_node.output]
+            for con in self.consumedby[src]:
+                con_node = self.nodemap[con]
+                con_node.input = [dst if name == src else name for name in con_node.input]
+        else:
+            warnings.warn(f'Node {nodename} connects graph input and output, it can not be skipped')
+            return
         self.nodemap.pop(nodename)
+        self.__update_consumer_producer__()
 
     def fuse_subgraph_node_names(self, nodes: [str], nodeop: str, nodename: str, keep_attr=True):
         if nodename in self.nodemap and nodename not in nodes:
-- 
2.43.0


From e4fae3e28d41b006921db706861891464bef8542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 12/93] fix: extracting the compute graph leaves the source
 graph alone and keeps its outputs

---
 onnx_tool/graph.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index b68d215..a5ac100 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1396,6 +1396,21 @@ class Graph():
 
     def get_compute_graph(self):
         cg = copy.copy(self)
+        cg.input = list(self.input)
+        cg.output = list(self.output)
+        cg.initials = list(self.initials)
+        cg.tensormap = {name: copy.copy(tensor) for name, tensor in self.tensormap.items()}
+        cg.producedby = {name: list(nodes) for name, nodes in self.producedby.items()}
+        cg.consumedby = {name: list(nodes) for name, nodes in self.consumedby.items()}
+        cg.nodemap = {}
+        for name, node in self.nodemap.items():
+            cg.nodemap[name] = copy.copy(node)
+            cg.nodemap[name].input = list(node.input)
+            cg.nodemap[name].output = list(node.output)
+            cg.nodemap[name].attr = dict(node.attr)
+        for node in cg.nodemap.values():
+            node.prevnodes = [cg.nodemap[n.name] for n in node.prevnodes if n.name in cg.nodemap]
+            node.nextnodes = [cg.nodemap[n.name] for n in node.nextnodes if n.name in cg.nodemap]
         nodes = []
         rmnodes = []
         for key in cg.nodemap.keys():
@@ -1406,7 +1421,7 @@ class Graph():
             dummy_node = True
             for output in node.output:
                 dummy = True
-                if output in cg.consumedby.keys():
+                if output in cg.consumedby.keys() and output not in cg.output:
                     for consumer in cg.consumedby[output]:
                         if not cg.nodemap[consumer].shape_calc:
                             dummy = False
@@ -1422,7 +1437,7 @@ class Graph():
                     searchnodes.pop(0)
                     for input in this_node.input:
                         if input in self.producedby:
-                            if len(self.consumedby[input]) == 1:
+                            if len(self.consumedby[input]) == 1 and input not in self.output:
                                 pnodename = self.producedby[input][0]
                                 if pnodename not in rmnodes:
                                     rmnodes.append(pnodename)
@@ -1439,7 +1454,7 @@ class Graph():
         cg.dynamics.extend(cg.output)
         for name in cg.nodemap.keys():
             for output in cg.nodemap[name].output:
-                if name not in cg.dynamics:
+                if output not in cg.dynamics:
                     cg.dynamics.append(output)
 
         return cg
-- 
2.43.0


From 3484366b3e81d338cea04b298801a9550cef4094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 13/93] fix: the compute graph keeps producers whose other
 outputs are still used

---
 onnx_tool/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index a5ac100..59b0200 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1439,6 +1439,9 @@ class Graph():
                         if input in self.producedby:
                             if len(self.consumedby[input]) == 1 and input not in self.output:
                                 pnodename = self.producedby[input][0]
+                                if any(o != input and (o in self.output or self.consumedby.get(o))
+                                       for o in self.nodemap[pnodename].output):
+                                    continue
                                 if pnodename not in rmnodes:
                                     rmnodes.append(pnodename)
                                 searchnodes.append(pnodename)
-- 
2.43.0


From edfdeb820a1ec6605abc360307516e9d0d6cb2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 14/93] fix: shape inference starts without values and profiles
 of earlier inferences

---
 onnx_tool/graph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 59b0200..e3b6091 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1038,6 +1038,11 @@ class Graph():
 
     def shape_infer(self, inputs: {} = None):
         self.valid_shape = False
+        self.valid_profile = False
+        # values computed by an earlier inference must not leak into this one
+        for name in self.producedby:
+            if name in self.tensormap and name not in self.initials:
+                self.tensormap[name].numpy = None
         if inputs is not None:
             self.update_input_by_map(inputs)
         in_valid, tname = self.check_inputs()
-- 
2.43.0


From 79d616ee788101a0f6e2cd955262c147742d600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 15/93] fix: the memory plan keeps graph outputs alive to the
 end

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index e3b6091..74b138f 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1228,7 +1228,7 @@ class Graph():
                         tensor_consumed[name] = [node]
                     consumers = self.consumedby[name]
                     if len(tensor_consumed[name]) == len(consumers):
-                        if name in tensor_in_mem:
+                        if name in tensor_in_mem and name not in self.output:
                             tensor_in_mem.remove(name)
         for output in self.output:
             if output not in tensor_in_mem:
-- 
2.43.0


From 88b56b88cc0b5fc5384e5d56fcfb7a8911890b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 16/93] fix: planning memory for a graph without intermediate
 tensors

---
 onnx_tool/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 74b138f..9d2523c 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1396,7 +1396,8 @@ class Graph():
 
         self.log(f"Raw memory size (without parameter memory): {raw_memsize:,} bytes")
         self.log(f"Compressed memory size: {compress_size:,} bytes")
-        self.log(f'Comression ratio: {compress_size / raw_memsize * 100:.3f}%')
+        if raw_memsize > 0:
+            self.log(f'Comression ratio: {compress_size / raw_memsize * 100:.3f}%')
         return compress_mem, compress_size
 
     def get_compute_graph(self):
-- 
2.43.0


From e6b88d51daad2639b909288daf2a118c08e80ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 17/93] fix: serializers encode completely before they touch
 the target file

---
 onnx_tool/serialization.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/onnx_tool/serialization.py b/onnx_tool/serialization.py
index 15edf42..f266ade 100644
--- a/onnx_tool/serialization.py
+++ b/onnx_tool/serialization.py
@@ -91,7 +91,6 @@ def __write_ndarray(buf, array: numpy.ndarray):
 
 
 def serialize_shape_engine(engine: ShapeEngine, filepath):
-    binfile = open(filepath, 'wb')
     writebuf = bytearray(0)
     writebuf = __write_len2buf(writebuf, engine.variables.keys())
     for name in engine.variables.keys():
@@ -120,12 +119,11 @@ def serialize_shape_engine(engine: ShapeEngine, filepath):
         writebuf = __write_str2buf(writebuf, srcname)
         writebuf = serialize_expr(writebuf, expr[1])
 
-    binfile.write(writebuf)
-    binfile.close()
+    with open(filepath, 'wb') as binfile:
+        binfile.write(writebuf)
 
 
 def serialize_graph(graph: onnx_tool.Graph, filepath):
-    binfile = open(filepath, 'wb')
     writebuf = bytearray(0)
     writebuf = __write_len2buf(writebuf, graph.nodemap.keys())
     for name in graph.nodemap.keys():
@@ -169,12 +167,11 @@ def serialize_graph(graph: onnx_tool.Graph, filepath):
         writebuf = __write_str2buf(writebuf, name)
         tensor = graph.tensormap[name]
         writebuf = __write_ndarray(writebuf, tensor.numpy)
-    binfile.write(writebuf)
-    binfile.close()
+    with open(filepath, 'wb') as binfile:
+        binfile.write(writebuf)
 
 
 def serialize_memory_compression(compressed_mem: {}, max_shape: {}, filepath):
-    binfile = open(filepath, 'wb')
     writebuf = bytearray(0)
     writebuf = __write_int2buf(writebuf, compressed_mem[1], 8)
     compress_map = compressed_mem[0]
@@ -188,5 +185,5 @@ def serialize_memory_compression(compressed_mem: {}, max_shape: {}, filepath):
     for key in max_shape.keys():
         writebuf = __write_str2buf(writebuf, key)
         writebuf = __write_int2buf(writebuf, max_shape[key], 8)
-    binfile.write(writebuf)
-    binfile.close()
+    with open(filepath, 'wb') as binfile:
+        binfile.write(writebuf)
-- 
2.43.0


From 42aed285785ae92ccf8c6421fbadfd162985b8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 18/93] fix: serializers refuse attribute and shape values the
 format cannot hold

---
 onnx_tool/serialization.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/serialization.py b/onnx_tool/serialization.py
index f266ade..fcd0cd3 100644
--- a/onnx_tool/serialization.py
+++ b/onnx_tool/serialization.py
@@ -24,8 +24,9 @@ def __write_len2buf(buf, src, bytes=4):
 
 
 def __write_str2buf(buf, string):
-    if not '\0' in string:
-        string += '\0'
+    if '\0' in string:
+        raise ValueError(f'String {string!r} can not be stored: it contains a NUL character')
+    string += '\0'
     barr = bytes(string, 'utf-8')
     buf += barr
     return buf
@@ -46,14 +47,18 @@ DTYPE_INT64 = 9
 def __write_data_type(buf, data):
     if isinstance(data, str) or isinstance(data, bytes):
         buf = __write_int2buf(buf, DTYPE_STR)
-    if isinstance(data, int):
+    elif isinstance(data, int):
         buf = __write_int2buf(buf, DTYPE_INT)
-    if isinstance(data, float):
+    elif isinstance(data, float):
         buf = __write_int2buf(buf, DTYPE_FLOAT)
+    else:
+        raise ValueError(f'Unsupported data type {type(data)}')
     return buf
 
 
 def __write_data(buf, data):
+    if isinstance(data, numpy.integer):
+        data = int(data)
     buf = __write_data_type(buf, data)
     if isinstance(data, str):
         buf = __write_str2buf(buf, data)
@@ -144,6 +149,8 @@ def serialize_graph(graph: onnx_tool.Graph, filepath):
                 if isinstance(val, str):
                     buf = __write_str2buf(buf, val)
                 if isinstance(val, bytes):
+                    if b'\0' in val:
+                        raise ValueError(f'String {val!r} can not be stored: it contains a NUL character')
                     buf += val + b'\0'
                 if isinstance(val, int):
                     buf = __write_int2buf(buf, val)
@@ -151,8 +158,10 @@ def serialize_graph(graph: onnx_tool.Graph, filepath):
                     buf = __write_float2buf(buf, val)
                 return buf
 
-            if not isinstance(attrval, list):
+            if not isinstance(attrval, (list, tuple)):
                 attrval = [attrval]
+            if any(type(val) is not type(attrval[0]) for val in attrval):
+                raise ValueError(f'Values of different types can not be stored: {attrval}')
             buf = __write_len2buf(buf, attrval)
             buf = __write_data_type(buf, attrval[0])
             for val in attrval:
-- 
2.43.0


From fb05c8c8d34dd8376f795e1245f9f7a5440b42d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 19/93] fix: the profile table is built before its file is
 opened

---
 onnx_tool/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/utils.py b/onnx_tool/utils.py
index 2e6311b..a984962 100644
--- a/onnx_tool/utils.py
+++ b/onnx_tool/utils.py
@@ -52,7 +52,7 @@ def print_table(ptable, header, f):
     if f is None:
         print(tabulate(ptable, headers=header))
     else:
-        fp = open(f, 'w')
+        text = ''
         if saveformat == 'csv':
             headerstr = ''
             for i, item in enumerate(header):
@@ -60,7 +60,7 @@ def print_table(ptable, header, f):
                 if i < len(header) - 1:
                     headerstr += ','
             headerstr += '\n'
-            fp.write(headerstr)
+            text += headerstr
             for row in ptable:
                 str = ''
                 for i, ele in enumerate(row):
@@ -68,10 +68,11 @@ def print_table(ptable, header, f):
                     if i != len(row) - 1:
                         str += ','
                 str += '\n'
-                fp.write(str)
+                text += str
         else:
-            fp.write(tabulate(ptable, headers=header))
-        fp.close()
+            text = tabulate(ptable, headers=header)
+        with open(f, 'w') as fp:
+            fp.write(text)
 
 # modify from https://github.com/XPixelGroup/BasicSR/blob/master/basicsr/utils/registry.py # noqa: E501
 class Registry():
-- 
2.43.0


From 493f804cdc2c92deaf3e6a7ad1c8f374818ed6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 20/93] fix: typed small-integer and boolean weights are read,
 not zeroed

---
 onnx_tool/tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index f773fde..d2420c2 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -112,6 +112,8 @@ def tensorproto2ndarray(initial):
 
         elif ndtype == numpy.float64:
             arr = numpy.fromiter(initial.double_data, dtype=ndtype)
+        elif ndtype in (numpy.int8, numpy.uint8, numpy.int16, numpy.uint16, numpy.bool_):
+            arr = numpy.fromiter(initial.int32_data, dtype=numpy.int32).astype(ndtype)
         elif ndtype == numpy.bytes_:
             arr = numpy.array(initial.string_data, dtype=ndtype)
     else:
-- 
2.43.0


From 698574ae2a80ad881978923ba94775907de0120b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 21/93] fix: saving keeps the domain of each node

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 1a7b996..8605bc8 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -178,6 +178,7 @@ class Node():
         self.output = []
         self.input = []
         self.proto = n
+        self.domain = getattr(n, 'domain', '')
         self.shape_calc = False
         self.attr = {}
         # Annotated by graph.profile(): which input indices are static (weights) vs dynamic (activations)
@@ -204,7 +205,7 @@ class Node():
             setattr(self, attname, defaultvalue)
 
     def make_nodeproto(self):
-        return onnx.helper.make_node(self.op_type, self.input, self.output, self.name, **self.attr)
+        return onnx.helper.make_node(self.op_type, self.input, self.output, self.name, domain=self.domain, **self.attr)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         self.value_infer(intensors, outtensors)
-- 
2.43.0


From 1f8d114a4bbb531fed4c1f82e7a8c16953480371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 22/93] fix: tensor export gives every weight a file of its own

---
 onnx_tool/__init__.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index 209e0fb..0f53581 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -35,32 +35,29 @@ def model_export_tensors_numpy(m, tensornames: [str] = None, savefolder: str = N
         numpy.save(filename, arr)
 
     g = model.graph
+    # one file per weight, also when names differ only in characters that a file name can not hold
+    filenames = {}
+    for key in g.initials:
+        fname = key.replace('/', '_').replace('\\', '_')
+        while fname in filenames.values():
+            fname += '_'
+        filenames[key] = fname
     if savefolder is not None:
         os.makedirs(savefolder, exist_ok=True)
     else:
         savefolder = './'
     if tensornames is None:
         for key in g.initials:
-            name = key
-            if '/' in key:
-                name = key.replace('/', '_')
-            if '\\' in key:
-                name = key.replace('\\', '_')
             narr = g.tensormap[key].numpy
-            save_numpy(narr, fp16, os.path.join(savefolder, name + '.npy'))
+            save_numpy(narr, fp16, os.path.join(savefolder, filenames[key] + '.npy'))
 
     else:
         for name in tensornames:
             if name not in g.initials:
                 warnings.warn(f'tensor {name} not found ')
                 continue
-            fname = name
-            if '/' in name:
-                fname = name.replace('/', '_')
-            if '\\' in name:
-                fname = name.replace('\\', '_')
             narr = g.tensormap[name].numpy
-            save_numpy(narr, fp16, os.path.join(savefolder, fname + '.npy'))
+            save_numpy(narr, fp16, os.path.join(savefolder, filenames[name] + '.npy'))
 
 
 # These ops are created by onnx exporter, they are out of programmer's sense
-- 
2.43.0


From 86c5c8af90d979b6057342d6fc2d90e5ef499b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 23/93] fix: model_io_modify edits a copy, not the caller's
 model

---
 onnx_tool/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index 0f53581..d7759a9 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -1,3 +1,4 @@
+import copy
 import os
 import warnings
 
@@ -124,7 +125,8 @@ def model_io_modify(m, save_model: str, custom_io):
 
     '''
     model = loadmodel(m)
-    graph = model.mproto.graph
+    mproto = copy.deepcopy(model.mproto)
+    graph = mproto.graph
     if custom_io is not None:
         keylist = list(custom_io.keys())
         for i, input in enumerate(graph.input):
-- 
2.43.0


From 81fee00a99070dbf0f3c396a49e2b87382b4c26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 24/93] fix: folding batch normalisation handles biased, shared
 and read-only convolution weights

---
 onnx_tool/fusion.py | 53 +++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index bdf20e5..a728a1b 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -460,39 +460,40 @@ class FusionPattern():
 
 
 def ConvBNFusion(graph: Graph):
-    import math
     pattern = FusionPattern(ConvBN)
     node_sets = pattern.search_pattern(graph)
     for nodes in node_sets:
         conv_node = graph.nodemap[nodes[0]]
         bn_node = graph.nodemap[nodes[1]]
-        weight = graph.tensormap[conv_node.input[1]]
-        gamma = graph.tensormap[bn_node.input[1]]
-        beta = graph.tensormap[bn_node.input[2]]
-        mean = graph.tensormap[bn_node.input[3]]
-        var = graph.tensormap[bn_node.input[4]]
-        wshape = weight.shape
+        convout = conv_node.output[0]
+        bnout = bn_node.output[0]
+        static_names = conv_node.input[1:] + bn_node.input[1:]
+        if convout in graph.output or len(graph.consumedby[convout]) != 1 or len(bn_node.output) != 1:
+            continue
+        if any(name not in graph.initials or graph.tensormap[name].numpy is None for name in static_names):
+            continue
+        weight = graph.tensormap[conv_node.input[1]].numpy
+        gamma = graph.tensormap[bn_node.input[1]].numpy
+        beta = graph.tensormap[bn_node.input[2]].numpy
+        mean = graph.tensormap[bn_node.input[3]].numpy
+        var = graph.tensormap[bn_node.input[4]].numpy
         if len(conv_node.input) == 3:
-            hasbias = True
-            newbias = graph.nodemap[conv_node.input[2]].numpy
+            bias = graph.tensormap[conv_node.input[2]].numpy
         else:
-            hasbias = False
-            newbias = numpy.zeros((wshape[0],), dtype=numpy.float32)
-        for i in range(wshape[0]):
-            sm = gamma.numpy[i] / math.sqrt(var.numpy[i] + bn_node.epsilon)
-            sv = beta.numpy[i]
-            for j in range(wshape[1]):
-                for k in range(wshape[2]):
-                    for l in range(wshape[3]):
-                        weight.numpy[i, j, k, l] = sm * weight.numpy[i, j, k, l]
-            newbias[i] = sm * (newbias[i] - mean.numpy[i]) + sv
-        weight.update_proto(weight.numpy)
+            bias = numpy.zeros((weight.shape[0],), dtype=weight.dtype)
+        scale = gamma / numpy.sqrt(var + bn_node.epsilon)
+        newweight = (weight * scale.reshape((-1,) + (1,) * (weight.ndim - 1))).astype(weight.dtype)
+        newbias = (scale * (bias - mean) + beta).astype(weight.dtype)
+        weightname = conv_node.input[1]
+        if len(graph.consumedby[weightname]) > 1:
+            # other nodes still need the original weight
+            weightname = conv_node.name + "_weight_"
         newbiasname = conv_node.name + "_bias_"
+        graph.add_initial(weightname, newweight)
         graph.add_initial(newbiasname, newbias)
+        graph_outputs = list(graph.output)
         graph.remove_node(nodes[1])
-        if hasbias:
-            conv_node.input[2] = newbiasname
-        else:
-            conv_node.input.append(newbiasname)
-        graph.producedby[bn_node.output[0]] = [conv_node.name]
-        conv_node.output[0] = bn_node.output[0]
+        graph.output = graph_outputs
+        conv_node.input = [conv_node.input[0], weightname, newbiasname]
+        conv_node.output[0] = bnout
+        graph.__update_consumer_producer__()
-- 
2.43.0


From 883d08853423d05b0779443d5bc44a61c2dd9ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 25/93] fix: quantising a weight rewires all of its consumers
 or none, and packs unsigned 4-bit values whole

---
 onnx_tool/quantization.py | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 6b2781f..b8a0013 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -106,10 +106,7 @@ def pack_4bits(Q_int:numpy.ndarray):
     s4arr=numpy.ones(s4shape,dtype=numpy.uint8)
     import ctypes
     def cvt_s8bits_to_s4bits(v8):
-        sigbit=v8&0x80
-        sigbit=sigbit>>4
-        v8=v8&0x7
-        return v8|sigbit
+        return v8&0xf
     for i in numpy.ndindex(*s4shape):
         rawi=list(i)
         rawi[-1]*=2
@@ -136,14 +133,11 @@ def graph_quantize(g: onnx_tool.Graph, tname: str, block: int = -1, type: str =
         return
     if f32arr.dtype is not numpy.float32:
         f32arr = f32arr.astype(numpy.float32)
-    name=g.consumedby[tname][0]
-    node=g.nodemap[name]
+    consumers = list(dict.fromkeys(g.consumedby[tname]))
+    node = g.nodemap[consumers[0]]
     if isinstance(node,onnx_tool.node.GemmNode):
         if node.transB==0:
             f32arr=f32arr.transpose()
-    node.set_attr('OTQ_Block',block)
-    node.set_attr('OTQ_Type',type)
-    node.set_attr('OTQ_Bits',bits)
     Q, scale, zp = quantize(f32arr, block, type, bits)
     tname_q = tname + '_ot_q'
     tname_s = tname + '_ot_s'
@@ -166,22 +160,18 @@ def graph_quantize(g: onnx_tool.Graph, tname: str, block: int = -1, type: str =
     g.add_initial(tname_s, scale)
     if type == 'asym':
         g.add_initial(tname_z, zp)
-    for nname in g.consumedby[tname]:
+    qnames = [tname_q, tname_s, tname_z] if type == 'asym' else [tname_q, tname_s]
+    for nname in consumers:
         node = g.nodemap[nname]
-        idx = node.input.index(tname)
-        node.input.remove(tname)
-        if type == 'asym':
-            node.input.insert(idx, tname_z)
-        node.input.insert(idx, tname_s)
-        node.input.insert(idx, tname_q)
-        if tname_q not in g.consumedby.keys():
-            g.consumedby[tname_q] = nname
-            g.consumedby[tname_s] = nname
-            g.consumedby[tname_z] = nname
-        else:
-            g.consumedby[tname_q].append(nname)
-            g.consumedby[tname_s].append(nname)
-            g.consumedby[tname_z].append(nname)
+        node.set_attr('OTQ_Block', block)
+        node.set_attr('OTQ_Type', type)
+        node.set_attr('OTQ_Bits', bits)
+        newinput = []
+        for name in node.input:
+            newinput.extend(qnames if name == tname else [name])
+        node.input = newinput
+    for name in qnames:
+        g.consumedby[name] = list(consumers)
     g.consumedby.pop(tname)
     g.initials.remove(tname)
     g.tensormap.pop(tname)
-- 
2.43.0


From f38aa03cbc4cbc99e61f47baefaa98e85dbb7dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 26/93] fix: quantising all-zero blocks, odd column counts and
 the top of the 4-bit range

---
 onnx_tool/quantization.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index b8a0013..68d5f38 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -36,6 +36,8 @@ def find_min_max(f32: numpy.ndarray, block):
 
 def get_symmetric_parameter(fmin, fmax, bits):
     alpha = max(abs(fmin), abs(fmax))
+    if alpha == 0:
+        return 1, 0
     scale = alpha / (2 ** (bits - 1) - 1)
     return scale, 0
 
@@ -44,6 +46,8 @@ def get_asymmetric_u8_parameter(fmin, fmax, bits):
     fmin = min(fmin, 0)
     fmax = max(fmax, 0)
     delta = fmax - fmin
+    if delta == 0:
+        return 1, 0
     scale = delta / (2 ** bits - 1)
     zp = round(-fmin / scale)
     return scale, zp
@@ -100,6 +104,8 @@ def quantize(f32: numpy.ndarray, block: int = -1, type: str = 'sym', bits: int =
         return Q, scale, zp
 
 def pack_4bits(Q_int:numpy.ndarray):
+    if Q_int.shape[-1] % 2:
+        Q_int = numpy.pad(Q_int, [(0, 0)] * (Q_int.ndim - 1) + [(0, 1)])
     shape=Q_int.shape
     s4shape=list(shape)
     s4shape[-1]=shape[-1]//2
@@ -139,6 +145,8 @@ def graph_quantize(g: onnx_tool.Graph, tname: str, block: int = -1, type: str =
         if node.transB==0:
             f32arr=f32arr.transpose()
     Q, scale, zp = quantize(f32arr, block, type, bits)
+    if type == 'asym':
+        Q = numpy.minimum(Q, 2 ** bits - 1)
     tname_q = tname + '_ot_q'
     tname_s = tname + '_ot_s'
     tname_z = tname + '_ot_z'
-- 
2.43.0


From dff823783f8261e023cc6f62027ee31370eb178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 27/93] fix: value inference of Min, hard activations,
 LeakyRelu, pooling, Conv and Pad computes the operator's result

---
 onnx_tool/node.py | 55 +++++++++++++++++++++--------------------------
 1 file changed, 24 insertions(+), 31 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 8605bc8..0a7cf4e 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -309,7 +309,7 @@ class MinNode(NpMathBase):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         result = intensors[0].get_numpy()
         for i in range(1, len(intensors)):
-            result = not numpy.minimum(result, intensors[i].get_numpy())
+            result = numpy.minimum(result, intensors[i].get_numpy())
         outtensors[0].update_tensor(result)
 
 
@@ -410,7 +410,7 @@ class SoftmaxNode(ExpNode):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xexp = numpy.exp(intensors[0].get_numpy())
-        result = xexp / numpy.sum(xexp, axis=self.axis, keepdims=True)
+        result = xexp / numpy.sum(xexp, axis=getattr(self, 'axis', -1), keepdims=True)
         outtensors[0].update_tensor(result)
 
 @NODE_REGISTRY.register()
@@ -588,7 +588,8 @@ class HardSigmoidNode(PWNode):
         self.add_default_value('beta', 0.5)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = max(0, min(1, self.alpha * intensors[0].get_numpy() + self.beta))
+        x = intensors[0].get_numpy()
+        result = numpy.clip(self.alpha * x + self.beta, 0, 1)
         outtensors[0].update_tensor(result)
 
 
@@ -601,7 +602,8 @@ class HardSwishNode(PWNode):
         self.add_default_value('beta', 0.5)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = intensors[0].get_numpy() * max(0, min(1, self.alpha * intensors[0].get_numpy() + self.beta))
+        x = intensors[0].get_numpy()
+        result = x * numpy.clip(self.alpha * x + self.beta, 0, 1)
         outtensors[0].update_tensor(result)
 
 
@@ -709,11 +711,7 @@ class LeakyReluNode(PWNode):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
-        outtensor = numpy.zeros_like(x)
-        for i in numpy.ndindex(x.shape):
-            x = x[i]
-            outtensor[i] = x if x >= 0 else x * self.alpha
-        outtensors[0].update_tensor(outtensor)
+        outtensors[0].update_tensor(numpy.where(x >= 0, x, x * self.alpha))
 
 
 @NODE_REGISTRY.register()
@@ -1469,25 +1467,27 @@ class MaxPoolNode(PoolBase):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         self.shape_infer(intensors, outtensors)
-        ot = outtensors[0].get_numpy()
+        x = intensors[0].get_numpy()
+        ot = numpy.zeros(outtensors[0].get_shape(), dtype=x.dtype)
         for i in numpy.ndindex(ot.shape):
             batch = i[0]
             ocn = i[1]
             oh = i[2]
             ow = i[3]
-            t = ot[i]
+            t = None
             ks = tuple(self.kernel_shape)
             for j in numpy.ndindex(ks):
                 kh = j[0]
                 kw = j[1]
-                srch = oh * self.strides[0] + kh - self.pads[0]
-                srcw = ow * self.strides[1] + kw - self.pads[1]
+                srch = oh * self.strides[0] + kh * self.dilations[0] - self.pads[0]
+                srcw = ow * self.strides[1] + kw * self.dilations[1] - self.pads[1]
                 if srch < 0 or srch >= xshape[2] or srcw < 0 or srcw >= xshape[3]:
                     continue
-                else:
-                    srcv = intensors[0].get_numpy()[batch, ocn, srch, srcw]
-                t = max(srcv, t)
-            ot[i] = t
+                srcv = x[batch, ocn, srch, srcw]
+                t = srcv if t is None else max(srcv, t)
+            if t is not None:
+                ot[i] = t
+        outtensors[0].update_tensor(ot)
 
 
 @NODE_REGISTRY.register()
@@ -1512,17 +1512,8 @@ class GlobalAveragePoolNode(Node):
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
-        h = x.shape[2]
-        w = x.shape[3]
-        y = numpy.zeros(x.shape[:2], dtype=numpy.float32)
-        for i in numpy.ndindex(y.shape):
-            t = 0
-            for j in numpy.ndindex((h, w)):
-                xi = i + j
-                t += x[xi]
-            t /= (h * w)
-            y[i] = t
-        outtensors[0].update_tensor(y)
+        y = numpy.mean(x, axis=tuple(range(2, x.ndim)), keepdims=True)
+        outtensors[0].update_tensor(y.astype(x.dtype))
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
@@ -1593,6 +1584,7 @@ class PadNode(Node):
             pads = self.pads
         elif len(intensors) > 1:
             pads = intensors[1].get_numpy()
+        pads = numpy.asarray(pads)
         nrank = len(pads) // 2
         start = pads[:nrank].reshape(nrank, 1)
         end = pads[nrank:].reshape(nrank, 1)
@@ -1600,8 +1592,9 @@ class PadNode(Node):
         value = self.value
         if len(intensors) > 2:
             value = intensors[2].get_numpy()
-        outtensor = numpy.pad(intensors[0].get_numpy(), pad_width=pad_width, mode=self.mode.decode("utf-8"),
-                              constant_values=value)
+        mode = self.mode if isinstance(self.mode, str) else self.mode.decode("utf-8")
+        kwargs = {'constant_values': value} if mode == 'constant' else {}
+        outtensor = numpy.pad(intensors[0].get_numpy(), pad_width=pad_width, mode=mode, **kwargs)
         outtensors[0].update_tensor(outtensor)
 
 
@@ -2186,7 +2179,7 @@ class ConvNode(Node):
             raise NotImplementedError()
         self.shape_infer(intensors, outtensors)
         outshape = outtensors[0].get_shape()
-        outtensor = outtensors[0].get_numpy()
+        outtensor = numpy.zeros(outshape, dtype=intensors[0].get_numpy().dtype)
         has_bias = len(intensors) > 2
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
-- 
2.43.0


From aab904196b2fab42915f1be8e65be412c7136222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 28/93] fix: GraphInfer derives sizes from every input,
 recovers from failed requests and keeps embedded MatMul weights as stored

---
 inference/infer.py | 55 ++++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/inference/infer.py b/inference/infer.py
index 3667ca0..a9205f0 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -246,23 +246,24 @@ class GraphInfer:
             当 profile=True 时，outputs 额外包含 '__profile__' key
         """
         # 根据输入 tensor 的实际形状更新 shape_engine 变量
-        first_input = next(iter(inputs.values()))
-        shape_changed = self._update_shape_from_input(first_input)
+        shape_changed = self._update_shape_from_input(inputs)
 
         # 批量刷新所有 tensor 的 shape 缓存（仅当 shape 实际变化时）
         if shape_changed or not self._tensor_shape_cache:
-            self._tensor_shape_cache.clear()
+            shape_cache: Dict[str, List[int]] = {}
             for tname in self._tensor_blocks:
                 try:
                     shape = self.shape_engine.get_tensorshape(tname)
                     if shape is not None and all(isinstance(s, int) and s > 0 for s in shape):
-                        self._tensor_shape_cache[tname] = shape
+                        shape_cache[tname] = shape
                 except Exception:
                     pass
             # fallback: 不在 shape_engine 中的 tensor 从 tensormap 取
             for tname in self._tensor_blocks:
-                if tname not in self._tensor_shape_cache and tname in self._cg.tensormap:
-                    self._tensor_shape_cache[tname] = self._cg.tensormap[tname].get_shape()
+                if tname not in shape_cache and tname in self._cg.tensormap:
+                    shape_cache[tname] = self._cg.tensormap[tname].get_shape()
+            # 完整构建后才生效，中途失败时下次 forward 会重建
+            self._tensor_shape_cache = shape_cache
 
         # 将输入 tensor 拷贝到 memory pool 中对应的位置
         for input_name, input_tensor in inputs.items():
@@ -301,7 +302,9 @@ class GraphInfer:
                          or not hasattr(self, '_last_node_tensors')
                          or self._last_node_tensors is None)
         if rebuild_cache:
-            self._last_node_tensors = []
+            # 所有节点都执行成功后才保存，避免中途失败留下不完整的缓存
+            self._last_node_tensors = None
+            node_tensors = []
 
         for idx, node_name in enumerate(self._node_names):
             node = self._cg.nodemap[node_name]
@@ -407,12 +410,15 @@ class GraphInfer:
 
             # 缓存本次构建的 tensor 视图
             if rebuild_cache:
-                self._last_node_tensors.append((input_tensors, output_tensors))
+                node_tensors.append((input_tensors, output_tensors))
 
             # --- 检查输入输出重叠 ---
             if debug:
                 self._check_overlap(node)
 
+        if rebuild_cache:
+            self._last_node_tensors = node_tensors
+
         # XPU 同步，确保所有 kernel 执行完毕
         if self.device == 'xpu' and not profile:
             torch.xpu.synchronize()
@@ -630,6 +636,7 @@ class GraphInfer:
 
             tensor_obj = self._cg.tensormap[tname]
             t = None
+            from_safetensors = False
 
             # 1. 尝试从 safetensors 加载
             if self.safetensors_path:
@@ -640,6 +647,7 @@ class GraphInfer:
                 elif tname in self.weight_map and self.weight_map[tname] in safetensors_data:
                     st_name = self.weight_map[tname]
                     t = safetensors_data[st_name].to(device=self.device, dtype=self.dtype)
+                from_safetensors = t is not None
 
             # 2. fallback: 从 ONNX 内嵌数据加载
             if t is None and tensor_obj.numpy is not None:
@@ -650,7 +658,9 @@ class GraphInfer:
             if t is not None:
                 # safetensors 的 2D weight 为 [N, K]，MatMul 的 weight 转置为 [K, N]
                 op_type = const_consumer.get(tname, ('', {}))[0] if tname in const_consumer else ''
-                t = self._transpose_safetensors_tensor(t, op_type)
+                # （ONNX 内嵌的 weight 已经是 [K, N]，不做转置）
+                if from_safetensors:
+                    t = self._transpose_safetensors_tensor(t, op_type)
 
                 # 如果该 constant 有消费者 kernel 且实现了 preprocess_weight，则调用
                 if tname in const_consumer:
@@ -705,27 +715,34 @@ class GraphInfer:
         """将 self.dtype (torch.dtype) 转为对应的 numpy dtype"""
         return np.dtype(self._get_torch_dtype_name(self.dtype))
 
-    def _update_shape_from_input(self, input_tensor: torch.Tensor) -> bool:
-        """根据实际输入 tensor 的形状，更新 shape_engine 中的变量。
+    def _update_shape_from_input(self, inputs: Dict[str, torch.Tensor]) -> bool:
+        """根据每个实际输入 tensor 的形状，更新 shape_engine 中的变量。
 
         Returns:
             True 如果 shape 变量发生了实际变化，False 如果与上次相同。
         """
         if not hasattr(self, '_last_var_values'):
             self._last_var_values = {}
-        changed = False
+        values = {}
         for input_name, desc in self.input_desc.items():
-            if len(desc) == len(input_tensor.shape):
+            if input_name not in inputs:
+                continue
+            shape = inputs[input_name].shape
+            if len(desc) == len(shape):
                 for i, dim_var in enumerate(desc):
                     if isinstance(dim_var, str) and dim_var in self.input_range:
-                        actual_val = int(input_tensor.shape[i])
-                        old_val = self._last_var_values.get(dim_var)
-                        if old_val != actual_val:
-                            self.shape_engine.update_variable(dim_var, actual_val)
-                            self._last_var_values[dim_var] = actual_val
-                            changed = True
+                        values[dim_var] = int(shape[i])
+        changed = any(self._last_var_values.get(k) != v for k, v in values.items())
         if changed:
+            # 更新期间旧的缓存全部失效，更新中途失败时下次 forward 会重新计算
+            known = {**self._last_var_values, **values}
+            self._last_var_values = {}
+            self._tensor_shape_cache = {}
+            self._last_node_tensors = None
+            for dim_var, val in known.items():
+                self.shape_engine.update_variable(dim_var, val)
             self.shape_engine.update_variables()
+            self._last_var_values = known
         return changed
 
     def _print_tensor_info(self, tname: str, prefix: str = ""):
-- 
2.43.0


From eb96d86668ef7d66d8df8c304634c03b5c6d4681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 29/93] fix: building an LLM graph does not alter the shared
 architecture table

---
 onnx_tool/llm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index 72520c5..2703815 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -248,9 +248,9 @@ class Builder():
         if not hasattr(self, 'model_type'):
             setattr(self, 'model_type', '')
         if ArchMap.__contains__(self.architectures[0]):
-            self.arch_config = ArchMap[self.architectures[0]]
+            self.arch_config = dict(ArchMap[self.architectures[0]])
         else:
-            self.arch_config = ArchMap['LlamaForCausalLM']
+            self.arch_config = dict(ArchMap['LlamaForCausalLM'])
         if hasattr(self, 'mlp_bias'):
             self.arch_config['mlp_bias'] = self.mlp_bias
         if hasattr(self, 'attention_bias'):
-- 
2.43.0


From 44f6879b015e35ef1cb1e468f4fbfb8f6218cc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 30/93] fix: a failed value inference does not leave mixed
 shapes marked as valid

---
 onnx_tool/graph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 9d2523c..87e1d25 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1077,6 +1077,10 @@ class Graph():
         self.valid_shape = True
 
     def value_infer(self, inputs: {}):
+        # until all nodes are evaluated, the shapes are those of neither the old nor the new inputs
+        valid_shape = self.valid_shape
+        self.valid_shape = False
+        self.valid_profile = False
         self.update_input_by_map(inputs)
         for key in self.nodemap.keys():
             node = self.nodemap[key]
@@ -1087,6 +1091,7 @@ class Graph():
             for output in node.output:
                 otensors.append(self.tensormap[output])
             node.value_infer(itensors, otensors)
+        self.valid_shape = valid_shape
         outputs = []
         for output in self.output:
             outputs.append(self.tensormap[output].numpy)
-- 
2.43.0


From d75fdf2eda4c2a7114a089702e3ce09c6ca1869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 31/93] fix: Softmax and Softplus value inference do not
 overflow for large inputs

---
 onnx_tool/node.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 0a7cf4e..ac0e7ef 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -409,8 +409,11 @@ class SoftmaxNode(ExpNode):
         self.ratio = 1
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        xexp = numpy.exp(intensors[0].get_numpy())
-        result = xexp / numpy.sum(xexp, axis=getattr(self, 'axis', -1), keepdims=True)
+        x = intensors[0].get_numpy()
+        axis = getattr(self, 'axis', -1)
+        # subtract the maximum: exp() of large inputs overflows and inf / inf is nan
+        xexp = numpy.exp(x - numpy.max(x, axis=axis, keepdims=True))
+        result = xexp / numpy.sum(xexp, axis=axis, keepdims=True)
         outtensors[0].update_tensor(result)
 
 @NODE_REGISTRY.register()
@@ -423,9 +426,9 @@ class SoftplusNode(ExpNode):
         self.ratio = 1
 
     def value_infer(self, intensors: list[Tensor], outtensors: list[Tensor]):
-        # Can overflow to inf if intensor is too large,
-        # but we don't need precise inference anyway so maybe its good enough.
-        result = numpy.log1p(numpy.exp(intensors[0].get_numpy()))
+        # log1p(exp(x)) without the overflow for large x
+        x = intensors[0].get_numpy()
+        result = numpy.maximum(x, 0) + numpy.log1p(numpy.exp(-numpy.abs(x)))
         outtensors[0].update_tensor(result)
 
 @NODE_REGISTRY.register()
-- 
2.43.0


From aed857fe4aa83c70c058338c5642e2856e2868ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 32/93] fix: csv profile tables quote node names that contain
 the delimiter

---
 onnx_tool/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/onnx_tool/utils.py b/onnx_tool/utils.py
index a984962..8df1243 100644
--- a/onnx_tool/utils.py
+++ b/onnx_tool/utils.py
@@ -64,6 +64,9 @@ def print_table(ptable, header, f):
             for row in ptable:
                 str = ''
                 for i, ele in enumerate(row):
+                    if any(c in ele for c in ',"\r\n'):
+                        # node names may hold the delimiter
+                        ele = '"' + ele.replace('"', '""') + '"'
                     str += ele
                     if i != len(row) - 1:
                         str += ','
-- 
2.43.0


From 01c492d7c5e0f34005438323bcd72a889cd7620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 33/93] fix: nodes that share a name are all kept when a model
 is loaded

---
 onnx_tool/graph.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 87e1d25..002eaa8 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -358,8 +358,7 @@ class Graph():
                     # add branch node
                     names = []
                     for node_proto in node.attr[selected_branch].node:
-                        self.__add_node_from_proto__(node_proto)
-                        names.append(node_proto.name)
+                        names.append(self.__add_node_from_proto__(node_proto))
 
                     # revise output name
                     preoutput = node.attr[selected_branch].output[0].name
@@ -417,6 +416,7 @@ class Graph():
         newnode = create_node(node_proto)
         if len(newnode.name) == 0:
             newnode.name = newnode.op_type + '_' + str(self.node_count)
+        newnode.name = self.__unique_node_name__(newnode.name)
         self.node_count += 1
         for tensor in node_proto.input:
             if tensor in self.producedby:
@@ -432,6 +432,15 @@ class Graph():
             self.producedby[tensor].append(newnode.name)
             newnode.output.append(tensor)
         self.nodemap[newnode.name] = newnode
+        return newnode.name
+
+    def __unique_node_name__(self, name):
+        # ONNX allows nodes to share a name, nodemap does not
+        unique, i = name, 1
+        while unique in self.nodemap:
+            unique = name + '_' + str(i)
+            i += 1
+        return unique
 
     def __init_graph_from_onnxproto__(self, g, noderename):
         if g is None:
@@ -445,6 +454,7 @@ class Graph():
             newnode = create_node(node)
             if noderename or len(newnode.name) == 0:
                 newnode.name = newnode.op_type + '_' + str(self.node_count)
+            newnode.name = self.__unique_node_name__(newnode.name)
             self.node_count += 1
             for tensor in node.input:
                 if tensor in self.producedby:
-- 
2.43.0


From 10038cc70f8c8eb8fb417e4bbed781142149dfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:23 +0000
Subject: [PATCH 34/93] fix: fused nodes keep the type and current value of
 their attributes, empty list attributes can be saved

---
 onnx_tool/graph.py | 24 +++++++++++-------------
 onnx_tool/node.py  | 14 +++++++++++++-
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 002eaa8..0512e03 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -7,7 +7,7 @@ import onnx
 
 from .node import create_node
 from .tensor import STATIC_TENSOR, DYNAMIC_TENSOR
-from .tensor import get_attribute_data, Tensor, volume
+from .tensor import Tensor, volume
 from .utils import VERSION, tuple2str, ModelConfig, print_table, num2str
 
 
@@ -765,11 +765,10 @@ class Graph():
         count = 0
         if keep_attr:
             for node in nodes:
-                for attribute in self.nodemap[node].proto.attribute:
-                    attr = onnx.helper.make_attribute(
-                        self.nodemap[node].proto.op_type + str(count) + '_' + attribute.name,
-                        get_attribute_data(attribute))
-                    newnode_prot.attribute.append(attr)
+                for attribute in self.nodemap[node].make_nodeproto().attribute:
+                    attr = newnode_prot.attribute.add()
+                    attr.CopyFrom(attribute)
+                    attr.name = self.nodemap[node].op_type + str(count) + '_' + attribute.name
                 count += 1
         from .node import create_node
         for name in nodes:
@@ -795,9 +794,9 @@ class Graph():
         graph_outputs = list(self.output)
         _inputs, _outputs = self.get_iotensors(nodes, remove_initials=False)
         mainnode = self.nodemap[nodes[0]]
-        newnode = onnx.helper.make_node(mainnode.op_type, _inputs, _outputs, name=mainnode.name)
+        newnode = onnx.helper.make_node(mainnode.op_type, _inputs, _outputs, name=mainnode.name, domain=mainnode.domain)
         count = 0
-        for attr in mainnode.proto.attribute:
+        for attr in mainnode.make_nodeproto().attribute:
             if attr.name == 'postop_count':
                 count = onnx.helper.get_attribute_value(attr)
             else:
@@ -815,11 +814,10 @@ class Graph():
                 attr = onnx.helper.make_attribute(
                     'postop_' + str(count), pnode.op_type)
                 newnode.attribute.append(attr)
-                for attribute in pnode.proto.attribute:
-                    attr = onnx.helper.make_attribute(
-                        'postop_' + str(count) + '_' + attribute.name,
-                        get_attribute_data(attribute))
-                    newnode.attribute.append(attr)
+                for attribute in pnode.make_nodeproto().attribute:
+                    attr = newnode.attribute.add()
+                    attr.CopyFrom(attribute)
+                    attr.name = 'postop_' + str(count) + '_' + attribute.name
                 count += 1
 
         attr = onnx.helper.make_attribute('postop_count', count)
diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index ac0e7ef..0169dd1 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -205,7 +205,19 @@ class Node():
             setattr(self, attname, defaultvalue)
 
     def make_nodeproto(self):
-        return onnx.helper.make_node(self.op_type, self.input, self.output, self.name, domain=self.domain, **self.attr)
+        node = onnx.helper.make_node(self.op_type, self.input, self.output, self.name, domain=self.domain)
+        raw = {} if isinstance(self.proto.attribute, dict) else {att.name: att for att in self.proto.attribute}
+        for key in sorted(self.attr):
+            val = self.attr[key]
+            if val is None:
+                continue
+            if not isinstance(val, (str, bytes)) and hasattr(val, '__len__') and len(val) == 0:
+                # the type of an empty list can not be inferred from its value
+                attr_type = raw[key].type if key in raw else onnx.AttributeProto.INTS
+                node.attribute.append(onnx.helper.make_attribute(key, [], attr_type=attr_type))
+            else:
+                node.attribute.append(onnx.helper.make_attribute(key, val))
+        return node
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         self.value_infer(intensors, outtensors)
-- 
2.43.0


From 9ef26923d07ed82f38da3fec4db01c39a8bc9927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 35/93] fix: pattern search tolerates short attributes and
 inputs without producer, drops incomplete matches

---
 onnx_tool/fusion.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index a728a1b..837edaa 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -233,7 +233,10 @@ class AttrExpr():
             if self.idx == -1:
                 return self.logical(x.__getattribute__(self.attrname))
             else:
-                return self.logical(x.__getattribute__(self.attrname)[self.idx])
+                attr = x.__getattribute__(self.attrname)
+                if self.idx >= len(attr):
+                    return False
+                return self.logical(attr[self.idx])
         return False
 
     def logical(self, attr):
@@ -349,7 +352,9 @@ class FusionPattern():
                             invalid = False
             elif inidx < len(node.input):
                 tname = node.input[inidx]
-                producer_node = graph.producedby[tname]
+                producer_node = graph.producedby.get(tname, [])
+                if len(producer_node) == 0:
+                    invalid = False
                 for nodename in producer_node:
                     nodeobject = graph.nodemap[nodename]
                     if prev_outidx == -1 or nodeobject.output.index(tname) == prev_outidx:
@@ -455,6 +460,9 @@ class FusionPattern():
                     for val in path:
                         idx = desckeys.index(val[0])
                         nodes[idx] = val[1]
+                    if len({val[0] for val in path}) < len(desckeys):
+                        # only a part of the pattern was found
+                        continue
                     ls_nodes.append(nodes)
         return ls_nodes
 
-- 
2.43.0


From aded5d2142e0e945f92be24a65d89f8b54640c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:30 +0000
Subject: [PATCH 36/93] fix: fusing nodes never makes the graph cyclic or fuses
 a node twice; dangling removal skips removed nodes

---
 onnx_tool/graph.py | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 0512e03..497d25d 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -713,6 +713,8 @@ class Graph():
         while try_to_remove:
             try_to_remove = False
             for nodename in list(self.nodemap.keys()):
+                if nodename not in self.nodemap:  # removed together with its only consumer
+                    continue
                 node = self.nodemap[nodename]
                 node_used = False
                 for o in node.output:
@@ -756,9 +758,27 @@ class Graph():
         self.nodemap.pop(nodename)
         self.__update_consumer_producer__()
 
+    def __fusion_makes_cycle__(self, nodes):
+        # is there a path that leaves the nodes and comes back to them?
+        searched = set()
+        searchlist = list(nodes)
+        while len(searchlist):
+            name = searchlist.pop()
+            for o in self.nodemap[name].output:
+                for consumer in self.consumedby.get(o, []):
+                    if consumer in nodes:
+                        if name in searched:
+                            return True
+                    elif consumer not in searched:
+                        searched.add(consumer)
+                        searchlist.append(consumer)
+        return False
+
     def fuse_subgraph_node_names(self, nodes: [str], nodeop: str, nodename: str, keep_attr=True):
         if nodename in self.nodemap and nodename not in nodes:
             raise ValueError(f'The graph already has a node named {nodename}')
+        if self.__fusion_makes_cycle__(nodes):
+            raise ValueError(f'Fusing {nodes} makes the graph cyclic')
         graph_outputs = list(self.output)
         _inputs, _outputs = self.get_iotensors(nodes, remove_initials=False)
         newnode_prot = onnx.helper.make_node(nodeop, _inputs, _outputs, name=nodename)
@@ -791,6 +811,8 @@ class Graph():
         self.output = graph_outputs
 
     def fuse_postop_node_names(self, nodes: [str], append_attr: bool, **extrakeys):
+        if self.__fusion_makes_cycle__(nodes):
+            raise ValueError(f'Fusing {nodes} makes the graph cyclic')
         graph_outputs = list(self.output)
         _inputs, _outputs = self.get_iotensors(nodes, remove_initials=False)
         mainnode = self.nodemap[nodes[0]]
@@ -844,11 +866,23 @@ class Graph():
 
     def fuse_subgraph_iotensors(self, inputs: [], outputs: [], nodeop: str, name_prefix: str = None, keep_attr=True):
         _, nodes, _ = self.__get_subnodes_byio__(inputs, outputs)
+        if len(nodes) == 0:
+            raise ValueError(f'There are no nodes between {inputs} and {outputs}')
         from .fusion import create_descs_from_nodenames, FusionPattern
         descs = create_descs_from_nodenames(self, nodes)
         pattern = FusionPattern(descs)
         nodesls = pattern.search_pattern(self)
-        for i, nodes in enumerate(nodesls):
+        if not any(set(found) == set(nodes) for found in nodesls):
+            # the search follows one connected pattern only
+            nodesls.insert(0, nodes)
+        # a node can be fused only once
+        fused = set()
+        disjoint = []
+        for nodes in nodesls:
+            if fused.isdisjoint(nodes) and not self.__fusion_makes_cycle__(nodes):
+                fused.update(nodes)
+                disjoint.append(nodes)
+        for i, nodes in enumerate(disjoint):
             name = name_prefix + '_' + str(i) if name_prefix is not None else nodes[0]
             self.fuse_subgraph_node_names(nodes, nodeop, name, keep_attr)
 
-- 
2.43.0


From 0cc279420d91909d158d108de2516c4ad6eb950c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:39 +0000
Subject: [PATCH 37/93] fix: graph inputs keep the order in which the model
 declares them

---
 onnx_tool/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 497d25d..59f15bd 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -260,6 +260,10 @@ class Graph():
                     if tensor not in self.consumedby or len(self.consumedby[tensor]) == 0:
                         if tensor not in self.output:
                             self.output.append(tensor)
+        if self.rawgraph is not None:
+            # in the order the model declares them, not the order they are consumed in
+            declared = [i.name for i in self.rawgraph.input]
+            self.input.sort(key=lambda x: declared.index(x) if x in declared else len(declared))
         self.__update_consumer_producer__()
         self.log(f'Update Nodes Tensors  Time Elapsed {tm.stop()}')
 
-- 
2.43.0


From 80fbbdfb006df51c58e47e0bff59439fb9710da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 38/93] fix: saved graphs and subgraphs do not gain inputs for
 weights and optional operands they do not use

---
 onnx_tool/graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 59f15bd..10cccd7 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -252,7 +252,7 @@ class Graph():
         for name in self.nodemap.keys():
             node = self.nodemap[name]
             for tensor in node.input:
-                if tensor not in self.producedby and tensor in self.dynamics:
+                if tensor not in self.producedby and tensor in self.dynamics and tensor != '':
                     if tensor not in self.input:
                         self.input.append(tensor)
             if not self.cfg.remove_dangling:
@@ -940,9 +940,12 @@ class Graph():
             else:
                 inputs.append(onnx.helper.make_tensor_value_info(name, 1, None))
         # 把没有 numpy 数据的 initializer 也作为 graph input（保留 shape 信息）
+        used = {tname for nodename in nodenames for tname in self.nodemap[nodename].input}
         for name in self.initials:
             if name in initializer_names:
                 continue  # 已有 numpy 数据，作为 initializer 导出
+            if name not in used:
+                continue  # not needed by these nodes
             if name in self.tensormap:
                 proto = self.tensormap[name].make_value_proto(make_dummy=True)
                 if proto is not None:
-- 
2.43.0


From 9e8a7e96dadb45eb97d821859eae9dee828a0bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 39/93] fix: shape regression keeps the element type of the
 graph inputs

---
 onnx_tool/graph.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 10cccd7..b0651f0 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1154,16 +1154,22 @@ class Graph():
 
     def shape_regress(self, input_desc: {}, input_range: {}):
         shapeengine = ShapeEngine(input_desc)
+
+        def infer_current_sizes():
+            tmp_input = shapeengine.generate_input()
+            for name in tmp_input:
+                if name in self.tensormap:  # only the sizes vary, not the element type
+                    tmp_input[name] = tmp_input[name].astype(self.tensormap[name].dtype)
+            self.shape_infer(tmp_input)
+
         for key in input_range.keys():
             shapeengine.update_variable(key, input_range[key][1])
-        tmp_input = shapeengine.generate_input()
-        self.shape_infer(tmp_input)
+        infer_current_sizes()
         maxtensormap = self.get_dynamic_tensors()
 
         for key in input_range.keys():
             shapeengine.update_variable(key, input_range[key][0])
-        tmp_input = shapeengine.generate_input()
-        self.shape_infer(tmp_input)
+        infer_current_sizes()
         mintensormap = self.get_dynamic_tensors()
 
         for key in mintensormap.keys():
@@ -1188,8 +1194,7 @@ class Graph():
 
             for val in vranges:
                 shapeengine.update_variable(key, val)
-                tmpinputs = shapeengine.generate_input()
-                self.shape_infer(tmpinputs)
+                infer_current_sizes()
                 shapes_range.append(self.get_dynamic_tensors())
 
             shapeengine.update_variable(key, input_range[key][0])
-- 
2.43.0


From 91753343a10d53bfaf970e612ab98138cf458542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 40/93] fix: an omitted optional operand is neither a weight
 nor an activation of the graph

---
 onnx_tool/graph.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index b0651f0..ade001f 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -215,6 +215,8 @@ class Graph():
         if constant_folding:
             for name in self.nodemap.keys():
                 for tname in self.nodemap[name].input:
+                    if tname == '':  # omitted optional operand
+                        continue
                     if self.tensormap[tname].type == STATIC_TENSOR:
                         if tname not in self.initials:
                             self.initials.append(tname)
@@ -222,7 +224,7 @@ class Graph():
                         if tname not in self.dynamics:
                             self.dynamics.append(tname)
                 for tname in self.nodemap[name].output:
-                    if tname not in self.dynamics:
+                    if tname != '' and tname not in self.dynamics:
                         self.dynamics.append(tname)
         else:
             for initial in self.rawgraph.initializer:
@@ -230,13 +232,13 @@ class Graph():
             self.dynamics.extend(self.input)
             for name in self.nodemap.keys():
                 for tname in self.nodemap[name].input:
-                    if tname not in self.initials and tname not in self.dynamics:
+                    if tname != '' and tname not in self.initials and tname not in self.dynamics:
                         self.dynamics.append(tname)
                 for tname in self.nodemap[name].output:
-                    if tname not in self.dynamics:
+                    if tname != '' and tname not in self.dynamics:
                         self.dynamics.append(tname)
 
-        valid_tensors = []
+        valid_tensors = ['']
         valid_tensors.extend(self.initials)
         valid_tensors.extend(self.dynamics)
         rm_list = []
-- 
2.43.0


From aafe0ecfebbc8913b93e0d0a770d14d487f8972c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 41/93] fix: an interrupted update of the producer and consumer
 indexes leaves the old ones whole

---
 onnx_tool/graph.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index ade001f..89c2ae4 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -319,18 +319,19 @@ class Graph():
         self.log(f'Constant Search Time Elapsed {tm.stop()}')
 
     def __update_consumer_producer__(self):
-        self.producedby = {}
-        self.consumedby = {}
+        producedby = {}
+        consumedby = {}
         for name in self.nodemap:
             node = self.nodemap[name]
             for tensor in node.input:
-                if tensor not in self.consumedby:
-                    self.consumedby[tensor] = []
-                self.consumedby[tensor].append(node.name)
+                if tensor not in consumedby:
+                    consumedby[tensor] = []
+                consumedby[tensor].append(node.name)
             for tensor in node.output:
-                if tensor not in self.producedby:
-                    self.producedby[tensor] = []
-                self.producedby[tensor].append(node.name)
+                if tensor not in producedby:
+                    producedby[tensor] = []
+                producedby[tensor].append(node.name)
+        self.producedby, self.consumedby = producedby, consumedby
 
     def update_tensor_relations(self):
         self.__update_consumer_producer__()
-- 
2.43.0


From 66545b77fec3fe9762ddb0f264254c6a952b2728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:29 +0000
Subject: [PATCH 42/93] fix: shape regression accepts numpy integers as
 dimensions

---
 onnx_tool/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 89c2ae4..becc469 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1183,7 +1183,7 @@ class Graph():
             maxshape = maxtensormap[key].shape
             for i, a in zip(minshape, maxshape):
                 if i == a:
-                    shape_desc.append(i)
+                    shape_desc.append(int(i))
                 else:
                     shape_desc.append('')
             shapeengine.add_tensor_desc(key, shape_desc)
-- 
2.43.0


From c8b291ad3397e0ff9ffbaa1fd16508a9f29ad8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:54 +0000
Subject: [PATCH 43/93] fix: weights of every ONNX element type keep their
 values and can be saved

---
 onnx_tool/tensor.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index d2420c2..b88f32c 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -57,6 +57,8 @@ def onnxdtype2npdtype(data_type):
         return numpy.bool_
     if data_type == onnx.TensorProto.STRING:
         return numpy.bytes_
+    if data_type in onnx.helper.get_all_tensor_dtypes():  # unsigned, complex and types numpy does not know
+        return onnx.helper.tensor_dtype_to_np_dtype(data_type).type
 
 
 def type_of_tensor(tensor):
@@ -86,8 +88,8 @@ def npdtype2onnxdtype(npdtype):
         return onnx.TensorProto.BOOL
     if npdtype == numpy.bytes_:
         return onnx.TensorProto.STRING
-    if npdtype == numpy.bytes_:
-        return onnx.TensorProto.STRING
+    if npdtype is not None:
+        return onnx.helper.np_dtype_to_tensor_dtype(numpy.dtype(npdtype))
 
 
 def tensorproto2ndarray(initial):
@@ -116,6 +118,11 @@ def tensorproto2ndarray(initial):
             arr = numpy.fromiter(initial.int32_data, dtype=numpy.int32).astype(ndtype)
         elif ndtype == numpy.bytes_:
             arr = numpy.array(initial.string_data, dtype=ndtype)
+        else:
+            arr = onnx.numpy_helper.to_array(initial)
+    elif ndtype not in (numpy.float32, numpy.float64, numpy.float16, numpy.int64, numpy.int32, numpy.int16, numpy.int8,
+                        numpy.uint16, numpy.uint8, numpy.bool_):
+        arr = onnx.numpy_helper.to_array(initial)
     else:
         arr = numpy.frombuffer(initial.raw_data, dtype=ndtype)
     # if len(shape):
@@ -491,6 +498,13 @@ class Tensor():
     def make_tensor_proto(self):
         if self.numpy is None:
             return None
+        if self.numpy.dtype.kind == 'S':  # strings have no raw form
+            return onnx.helper.make_tensor(self.name, onnx.TensorProto.STRING, self.numpy.shape,
+                                           self.numpy.flatten().tolist())
+        if onnxdtype2npdtype(npdtype2onnxdtype(self.numpy.dtype)) not in (
+                numpy.float32, numpy.float64, numpy.float16, numpy.int64, numpy.int32, numpy.int16, numpy.int8,
+                numpy.uint16, numpy.uint8, numpy.bool_):
+            return onnx.numpy_helper.from_array(self.numpy, self.name)
         if len(self.numpy.shape) == 0:
             tproto = onnx.helper.make_tensor(self.name, npdtype2onnxdtype(self.numpy.dtype)
                                              , [], [self.numpy.item()])
-- 
2.43.0


From d275e92a93c0344b9ee6c667d669f2e342003805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:08 +0000
Subject: [PATCH 44/93] fix: constant folding and kept dangling nodes do not
 drop the graph outputs the model declares

---
 onnx_tool/graph.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index becc469..a9fd14c 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -205,7 +205,9 @@ class Graph():
         if constant_folding:
             rmlist = []
             for key in self.nodemap:
-                if self.nodemap[key].constant:
+                node = self.nodemap[key]
+                # a graph output must be the output of a node
+                if node.constant and not any(tname in self.output for tname in node.output):
                     rmlist.append(key)
             self.log(f'GraphProto Nodes Count:{len(self.rawgraph.node)}')
             self.log(f'Contant folding {rmlist[:3]}... {len(rmlist)} Nodes')
@@ -213,14 +215,15 @@ class Graph():
                 self.nodemap.pop(key)
 
         if constant_folding:
+            produced = set(tname for node in self.nodemap.values() for tname in node.output)
             for name in self.nodemap.keys():
                 for tname in self.nodemap[name].input:
                     if tname == '':  # omitted optional operand
                         continue
-                    if self.tensormap[tname].type == STATIC_TENSOR:
+                    if self.tensormap[tname].type == STATIC_TENSOR and tname not in produced:
                         if tname not in self.initials:
                             self.initials.append(tname)
-                    if self.tensormap[tname].type == DYNAMIC_TENSOR:
+                    else:
                         if tname not in self.dynamics:
                             self.dynamics.append(tname)
                 for tname in self.nodemap[name].output:
@@ -249,8 +252,6 @@ class Graph():
             self.tensormap.pop(tname)
 
         self.input = []
-        if not self.cfg.remove_dangling:
-            self.output = []
         for name in self.nodemap.keys():
             node = self.nodemap[name]
             for tensor in node.input:
@@ -494,10 +495,9 @@ class Graph():
         for output in g.output:
             if output.name not in self.tensormap.keys():
                 self.tensormap[output.name] = Tensor(output)
-        if self.cfg.remove_dangling:
-            self.output = []
-            for o in g.output:
-                self.output.append(o.name)
+        self.output = []
+        for o in g.output:
+            self.output.append(o.name)
         # init dynamic tensor info
         for valinfo in g.value_info:
             if valinfo.name not in self.tensormap.keys():
-- 
2.43.0


From 7b002b61b261da912a2d9f3a3962c89c93b3c87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:46 +0000
Subject: [PATCH 45/93] fix: the io_modify command without shapes writes the
 output file it was asked for

---
 onnx_tool/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/__main__.py b/onnx_tool/__main__.py
index a7a8a54..282d4d9 100644
--- a/onnx_tool/__main__.py
+++ b/onnx_tool/__main__.py
@@ -105,4 +105,6 @@ elif args.mode == 'constant_folding':
 elif args.mode == 'io_modify':
     if args.dynamic_shapes is not None:
         shapedic = __args2strshapes__(args.dynamic_shapes)
-        onnx_tool.model_io_modify(args.in_, args.out, shapedic)
+    else:
+        shapedic = None
+    onnx_tool.model_io_modify(args.in_, args.out, shapedic)
-- 
2.43.0


From 719b49528d0ef9bc00a67720ba13ba1109561fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:47 +0000
Subject: [PATCH 46/93] fix: a model file without a graph is reported as
 invalid

---
 onnx_tool/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/model.py b/onnx_tool/model.py
index e186082..4b0a2b3 100644
--- a/onnx_tool/model.py
+++ b/onnx_tool/model.py
@@ -18,7 +18,7 @@ class Model:
             self.modelname = os.path.basename(m)
             self.modelname = os.path.splitext(self.modelname)[0]
             m = onnx.load_model(m)
-        if not isinstance(m, onnx.ModelProto):
+        if not isinstance(m, onnx.ModelProto) or not m.HasField('graph'):
             self.valid = False
             return
         self.valid = True
-- 
2.43.0


From d596d10f43105285b3258dca5ef645e090ec916a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:23 +0000
Subject: [PATCH 47/93] fix: Clip with omitted optional bounds failed in value
 inference

---
 onnx_tool/node.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 0169dd1..d8f017c 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1002,13 +1002,12 @@ class ClipNode(PWNode):
         self.ratio = 1
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if intensors[1].name == '':
-            minval = None
-        else:
+        # min and max are optional inputs, or attributes before opset 11
+        minval = getattr(self, 'min', None)
+        if len(intensors) > 1 and intensors[1].name != '':
             minval = intensors[1].get_numpy()
-        if intensors[2].name == '':
-            maxval = None
-        else:
+        maxval = getattr(self, 'max', None)
+        if len(intensors) > 2 and intensors[2].name != '':
             maxval = intensors[2].get_numpy()
         y = numpy.clip(intensors[0].get_numpy(), minval, maxval)
         outtensors[0].update_tensor(y)
-- 
2.43.0


From 954573e4316065d62e83daf3ba2b6f50e7323880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:38 +0000
Subject: [PATCH 48/93] fix: the reported key/value cache size stayed at the
 prefill sizes after set_past_kv_length and shape inference

---
 onnx_tool/llm.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index 2703815..29d987d 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -1113,6 +1113,8 @@ class Builder():
     def profile(self, Config: {} = None, Device: {} = None):
         self.graph.valid_shape = True
         self.graph.profile()
+        if 'ids' in self.graph.tensormap:
+            self._update_kv_params()
         cfg = Config if Config is not None else self.DefaultCfg
         if Device is not None:
             link_bw = Device.get('LinkBandwidth', 0) * 1e9
@@ -1235,15 +1237,10 @@ class Builder():
     def build_graph(self, ids_shape: List, weight_map: {} = None):
         self.batch, self.seq_len = ids_shape
         self.w_map = weight_map if weight_map is not None else WeightMap
-        # MLA: KV 是联合投影 head_dim（非 num_kv_heads × head_dim）
-        if self.arch_config.get('is_mla', False):
-            kv_size = self.head_size  # MLA: single head_dim for joint KV
-        else:
-            kv_size = self.hidden_kv_size
-        self.kv_params = self.batch * self.seq_len * kv_size * 2 * self.num_hidden_layers
         ids = create_tensor('ids', DYNAMIC_TENSOR, [self.batch, self.seq_len], numpy.int64)
         self.graph.input.append('ids')
         self.graph.tensormap[ids.name] = ids
+        self._update_kv_params()
 
         cur = self.add_embedding(ids, self.vocab_size, self.w_map['embedding']['embed'])
         if self.arch_config.get('pos_embedding', False):
@@ -1261,18 +1258,28 @@ class Builder():
 
     def set_past_kv_length(self, n_past):
         self.graph.tensormap['n_past'].update_tensor(numpy.array(n_past, dtype=numpy.int64))
+        self._update_kv_params()
+
+    def _kv_size(self):
+        # MLA: KV 是联合投影 head_dim（非 num_kv_heads × head_dim）
+        if self.arch_config.get('is_mla', False):
+            return self.head_size  # MLA: single head_dim for joint KV
+        return self.hidden_kv_size
+
+    def _update_kv_params(self):
+        # the cache holds the past tokens and the tokens of the current ids
+        tmap = self.graph.tensormap
+        batch, seq_len = tmap['ids'].get_shape()
+        n_past = int(tmap['n_past'].numpy.max()) if 'n_past' in tmap else 0
+        self.kv_params = batch * (seq_len + n_past) * self._kv_size() * 2 * self.num_hidden_layers
 
     def add_kv_cache(self, n_context, n_past):
         t_n_past = create_tensor('n_past', DYNAMIC_TENSOR, [self.batch], numpy.int64)
         t_n_past.update_tensor(numpy.array(n_past, dtype=numpy.int64))
         self.graph.input.append('n_past')
         self.graph.tensormap[t_n_past.name] = t_n_past
-        # MLA: KV 是联合投影 head_dim
-        if self.arch_config.get('is_mla', False):
-            kv_size = self.head_size
-        else:
-            kv_size = self.hidden_kv_size
-        self.kv_params = self.batch * (self.seq_len + n_past) * kv_size * 2 * self.num_hidden_layers
+        kv_size = self._kv_size()
+        self._update_kv_params()
         kv_cache = create_tensor('kv_cache', DYNAMIC_TENSOR,
                                  [self.batch, self.num_hidden_layers * 2, n_context, kv_size],
                                  numpy.float32)
-- 
2.43.0


From 10fa85dc42e125fdcc418b1c36ffe4851113e952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:42 +0000
Subject: [PATCH 49/93] fix: GraphInfer plans memory with the element size its
 tensors really have

---
 inference/infer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/inference/infer.py b/inference/infer.py
index a9205f0..84daa57 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -75,6 +75,12 @@ class GraphInfer:
 
         # 5. 提取 compute graph（此时 tensormap 中的 shape 已是最大值）
         self._cg = self._graph.get_compute_graph()
+        # forward 中所有 activation 都以 self.dtype 存放，内存规划必须使用同样的元素大小
+        # （例如 Greater 的 bool 输出、Cast 的 float16 输出）
+        for tname in self._cg.dynamics:
+            if tname in self._cg.tensormap:
+                self._cg.tensormap[tname].numpy = None
+                self._cg.tensormap[tname].update_dtype(np_dtype.type)
 
         # 6. 内存压缩 + MemoryPool（compress_memory 基于最大 shape 分配）
         # 使用 graph.py 的 compress_memory（Best-Fit 策略，按大小降序重排以减少碎片）
-- 
2.43.0


From ca31667362c4377fa9db36fa2c1cfb49a8db8d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:10 +0000
Subject: [PATCH 50/93] fix: GraphInfer refuses requests whose inputs do not
 match their description

---
 inference/infer.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/inference/infer.py b/inference/infer.py
index 84daa57..4e711f3 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -251,6 +251,9 @@ class GraphInfer:
             outputs: 输出 dict {name: tensor}，key 对应 ONNX 模型的 output name
             当 profile=True 时，outputs 额外包含 '__profile__' key
         """
+        # 不符合 input_desc 的请求在改动任何状态之前就被拒绝
+        self._check_inputs(inputs)
+
         # 根据输入 tensor 的实际形状更新 shape_engine 变量
         shape_changed = self._update_shape_from_input(inputs)
 
@@ -721,6 +724,30 @@ class GraphInfer:
         """将 self.dtype (torch.dtype) 转为对应的 numpy dtype"""
         return np.dtype(self._get_torch_dtype_name(self.dtype))
 
+    def _check_inputs(self, inputs: Dict[str, torch.Tensor]):
+        """检查输入是否齐全、形状是否与 input_desc 一致。
+
+        只检查存放在 memory pool 中的输入；kv_cache 在 decode 时沿用 pool 中的内容，可以不传。
+        """
+        values = {}
+        for input_name, desc in self.input_desc.items():
+            if input_name not in self._tensor_views or input_name not in self._cg.input:
+                continue
+            if input_name not in inputs:
+                if input_name == 'kv_cache':
+                    continue
+                raise ValueError(f"Missing input '{input_name}'")
+            shape = tuple(inputs[input_name].shape)
+            valid = len(shape) == len(desc)
+            for dim, size in zip(desc, shape):
+                expected = values.setdefault(dim, size) if isinstance(dim, str) else dim
+                valid = valid and size == expected
+            if not valid:
+                raise ValueError(
+                    f"Input '{input_name}' has shape {shape}, expected {tuple(desc)}"
+                    f"{' with ' + str(values) if values else ''}"
+                )
+
     def _update_shape_from_input(self, inputs: Dict[str, torch.Tensor]) -> bool:
         """根据每个实际输入 tensor 的形状，更新 shape_engine 中的变量。
 
-- 
2.43.0


From 7bc9e7d89a8a17a5770564d74ac7f5ea84bd4f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:34 +0000
Subject: [PATCH 51/93] fix: the inference runtime takes sizes from the output
 instead of a dropped shape subgraph, and returns constant outputs

---
 inference/infer.py   | 24 +++++++++++++++++++++++-
 inference/kernels.py | 38 ++++++++++++++++++--------------------
 2 files changed, 41 insertions(+), 21 deletions(-)

diff --git a/inference/infer.py b/inference/infer.py
index 4e711f3..27306de 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -28,6 +28,12 @@ class GraphInfer:
     中的 buf 是否重叠（debug 模式）。
     """
 
+    # 这些算子需要操作数的值，不能像 Reshape/Expand/Resize 那样由输出形状代替
+    _NEEDS_OPERAND_VALUES = frozenset((
+        'Slice', 'Split', 'Squeeze', 'Unsqueeze', 'Pad', 'Tile', 'Clip', 'TopK', 'Gather', 'GatherElements',
+        'ReduceMean', 'ReduceSum', 'ReduceMax',
+    ))
+
     def __init__(
         self,
         onnx_path: str,
@@ -136,6 +142,12 @@ class GraphInfer:
         # 获取节点执行顺序（按 nodemap 的插入顺序，即拓扑序）
         self._node_names = list(self._cg.nodemap.keys())
 
+        # compute graph 不包含 shape 计算节点，它们的输出在 forward 中没有值
+        self._shape_calc_tensors = {
+            name for name in self._graph.producedby
+            if name not in self._cg.producedby
+        }
+
         # 缓存常量 tensor（weight/bias 等），避免每次 forward 从 numpy 转换
         self._constant_tensors: Dict[str, torch.Tensor] = {}
         self._preload_constants()
@@ -351,7 +363,14 @@ class GraphInfer:
                     elif t is not None:
                         input_tensors.append(t)  # constant
                     else:
-                        input_tensors.append(self._resolve_tensor(tname))
+                        t = self._resolve_tensor(tname)
+                        if t is None and tname in self._shape_calc_tensors \
+                                and node.op_type in self._NEEDS_OPERAND_VALUES:
+                            raise RuntimeError(
+                                f"Operand '{tname}' of node '{node_name}' ({node.op_type}) is computed "
+                                f"from tensor shapes at run time, which is not supported"
+                            )
+                        input_tensors.append(t)
             else:
                 input_tensors = self._last_node_tensors[idx][0]
                 # 刷新动态输入（如 n_past），它们每步都可能变化
@@ -440,6 +459,9 @@ class GraphInfer:
                 if shape is None:
                     shape = self.get_tensor_shape(output_name)
                 outputs[output_name] = self._reshape_view(output_name, shape)
+            elif output_name in self._constant_tensors:
+                # 被 constant folding 折叠成常量的输出
+                outputs[output_name] = self._constant_tensors[output_name].clone()
 
         # 附加 profile 结果
         if profile:
diff --git a/inference/kernels.py b/inference/kernels.py
index 7a56599..adb61e2 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -91,6 +91,12 @@ class Kernel:
 # 常用辅助函数
 # ===========================================================================
 
+def _attr_str(attrs: Dict, name: str, default: str) -> str:
+    """字符串属性（模型文件中为 bytes）"""
+    value = attrs.get(name, default)
+    return value.decode() if isinstance(value, bytes) else value
+
+
 def _to_2d_padding(pads: tuple, auto_pad=None) -> int:
     """将 ONNX pad 格式转为 F.pad 需要的格式"""
     if auto_pad is not None and auto_pad != b'NOTSET' and auto_pad != b'':
@@ -238,11 +244,11 @@ class ReshapeKernel(Kernel):
     @staticmethod
     def run(inputs, outputs, attrs):
         # inputs[1] 是 shape tensor，但 memory pool 里可能没有它
-        # 直接用 attrs 或 inputs[1] 的值
+        # 直接用 attrs 或 inputs[1] 的值，都没有时用输出 tensor 的形状
         if len(inputs) > 1 and inputs[1] is not None:
             shape = inputs[1].cpu().tolist()
         else:
-            shape = attrs.get('shape', [])
+            shape = attrs.get('shape', list(outputs[0].shape))
         # 处理 0 维度: 保持原形状
         x = inputs[0]
         new_shape = []
@@ -538,8 +544,8 @@ class ExpandKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        shape = inputs[1].cpu().tolist()
-        outputs[0].copy_(inputs[0].expand(shape))
+        # ONNX Expand 是双向广播，输出形状已由 shape inference 得到
+        outputs[0].copy_(inputs[0].expand(outputs[0].shape))
 
 
 @KernelRegistry.register("Tile")
@@ -730,22 +736,14 @@ class ResizeKernel(Kernel):
     @staticmethod
     def run(inputs, outputs, attrs):
         x = inputs[0]
-        # inputs[1] = roi (optional), inputs[2] = scales (optional), inputs[3] = sizes
-        if len(inputs) > 3 and inputs[3] is not None:
-            sizes = inputs[3].cpu().tolist()
-            # sizes 是 [N, C, H, W] 格式
-            mode = attrs.get('mode', 'nearest').decode() if isinstance(attrs.get('mode', ''), bytes) else attrs.get('mode', 'nearest')
-            align_corners = attrs.get('coordinate_transformation_mode', 'half_pixel') == 'align_corners'
-            torch_mode = {'nearest': 'nearest', 'linear': 'bilinear', 'cubic': 'bicubic'}.get(mode, 'nearest')
-            result = F.interpolate(x, size=sizes[2:], mode=torch_mode, align_corners=align_corners if torch_mode != 'nearest' else None)
-            outputs[0].copy_(result)
-        elif len(inputs) > 2 and inputs[2] is not None:
-            scales = inputs[2].cpu().tolist()
-            sizes = [int(x.shape[i] * scales[i]) for i in range(len(scales))]
-            mode = attrs.get('mode', 'nearest').decode() if isinstance(attrs.get('mode', ''), bytes) else attrs.get('mode', 'nearest')
-            torch_mode = {'nearest': 'nearest', 'linear': 'bilinear', 'cubic': 'bicubic'}.get(mode, 'nearest')
-            result = F.interpolate(x, size=sizes[2:], mode=torch_mode)
-            outputs[0].copy_(result)
+        # inputs[1] = roi (optional), inputs[2] = scales (optional), inputs[3] = sizes (optional)
+        # 目标尺寸 [N, C, H, W] 已由 shape inference 得到，即输出 tensor 的形状
+        mode = _attr_str(attrs, 'mode', 'nearest')
+        align_corners = _attr_str(attrs, 'coordinate_transformation_mode', 'half_pixel') == 'align_corners'
+        torch_mode = {'nearest': 'nearest', 'linear': 'bilinear', 'cubic': 'bicubic'}.get(mode, 'nearest')
+        result = F.interpolate(x, size=list(outputs[0].shape[2:]), mode=torch_mode,
+                               align_corners=align_corners if torch_mode != 'nearest' else None)
+        outputs[0].copy_(result)
 
 
 # ===========================================================================
-- 
2.43.0


From 2e235f8491c2284aa9bb84112950d5cb9c6fe56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:45 +0000
Subject: [PATCH 52/93] fix: Gather with index tensors, scalar or negative
 indices, and Pad, compute the operator's result in the inference runtime

---
 inference/kernels.py | 54 +++++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index adb61e2..a3719db 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -500,18 +500,16 @@ class GatherKernel(Kernel):
         axis = attrs.get('axis', 0)
         data = inputs[0]
         indices = inputs[1].long()
-        # ONNX Gather: data[indices, ...] 沿 axis 维收集
+        # ONNX Gather: 输出形状 = data.shape[:axis] + indices.shape + data.shape[axis+1:]
+        if axis < 0:
+            axis += data.dim()
+        flat_idx = indices.reshape(-1)
+        # 负索引从末尾计数
+        flat_idx = torch.where(flat_idx < 0, flat_idx + data.shape[axis], flat_idx)
         # 使用 torch.index_select 更高效且语义正确
-        if indices.dim() > 1:
-            # 多维 indices: 需要先展平再 reshape
-            flat_idx = indices.reshape(-1)
-            result = torch.index_select(data, axis, flat_idx)
-            # 恢复 indices 的维度
-            out_shape = list(data.shape)
-            out_shape[axis] = indices.numel()
-            outputs[0].copy_(result.reshape(out_shape))
-        else:
-            outputs[0].copy_(torch.index_select(data, axis, indices))
+        result = torch.index_select(data, axis, flat_idx)
+        out_shape = list(data.shape[:axis]) + list(indices.shape) + list(data.shape[axis + 1:])
+        outputs[0].copy_(result.reshape(out_shape))
 
 
 @KernelRegistry.register("Cast")
@@ -711,22 +709,32 @@ class PadKernel(Kernel):
     @staticmethod
     def run(inputs, outputs, attrs):
         x = inputs[0]
-        pads = inputs[1].cpu().tolist() if len(inputs) > 1 else attrs.get('pads', [0, 0, 0, 0])
-        mode = attrs.get('mode', 'constant')
-        value = inputs[2].item() if len(inputs) > 2 else attrs.get('value', 0.0)
+        if len(inputs) > 1 and inputs[1] is not None:
+            pads = [int(v) for v in inputs[1].cpu().tolist()]
+        else:
+            pads = list(attrs.get('pads', [0, 0, 0, 0]))
+        mode = _attr_str(attrs, 'mode', 'constant')
+        value = inputs[2].item() if len(inputs) > 2 and inputs[2] is not None else attrs.get('value', 0.0)
 
         # ONNX pads: [x1_begin, x2_begin, ..., x1_end, x2_end, ...]
-        # F.pad: (x1_begin, x1_end, x2_begin, x2_end, ...)
         ndim = len(pads) // 2
+        if len(inputs) > 3 and inputs[3] is not None:
+            axes = [int(v) for v in inputs[3].cpu().tolist()]
+        else:
+            axes = range(ndim)
+        begin_end = [(0, 0)] * x.dim()
+        for i, ax in enumerate(axes):
+            begin_end[ax] = (pads[i], pads[i + ndim])
+        # F.pad 格式从最后一个维度开始: (xn_begin, xn_end, ..., x1_begin, x1_end)
         pad_tuple = []
-        for i in range(ndim):
-            pad_tuple.append(pads[i])           # begin
-            pad_tuple.append(pads[i + ndim])     # end
-        # F.pad 格式从最后一个维度开始
-        pad_tuple = tuple(pad_tuple[::-1])
-
-        torch_mode = {'constant': 'constant', 'reflect': 'reflect', 'edge': 'replicate'}.get(mode, 'constant')
-        outputs[0].copy_(F.pad(x, pad_tuple, mode=torch_mode, value=value))
+        for begin, end in reversed(begin_end):
+            pad_tuple += [begin, end]
+        # reflect/replicate 不支持填充全部维度，去掉前面不需要填充的维度
+        while len(pad_tuple) > 2 and pad_tuple[-2:] == [0, 0]:
+            del pad_tuple[-2:]
+
+        torch_mode = {'constant': 'constant', 'reflect': 'reflect', 'edge': 'replicate'}[mode]
+        outputs[0].copy_(F.pad(x, tuple(pad_tuple), mode=torch_mode, value=value if torch_mode == 'constant' else None))
 
 
 @KernelRegistry.register("Resize")
-- 
2.43.0


From b1eabb6bca6fa0f8b4efc9b0b8da16cc830f8b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:53 +0000
Subject: [PATCH 53/93] fix: convolution and pooling kernels apply each side's
 padding, auto_pad, ceil_mode and dilations

---
 inference/kernels.py | 112 +++++++++++++++++++++++++++----------------
 1 file changed, 71 insertions(+), 41 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index a3719db..c2e76f5 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -97,15 +97,52 @@ def _attr_str(attrs: Dict, name: str, default: str) -> str:
     return value.decode() if isinstance(value, bytes) else value
 
 
-def _to_2d_padding(pads: tuple, auto_pad=None) -> int:
-    """将 ONNX pad 格式转为 F.pad 需要的格式"""
-    if auto_pad is not None and auto_pad != b'NOTSET' and auto_pad != b'':
-        return None  # 由调用方处理 auto_pad
+def _to_2d_padding(x: torch.Tensor, kernel_shape, strides, dilations, attrs: Dict) -> tuple:
+    """2D 卷积/池化的 padding: (h_begin, w_begin, h_end, w_end)
+
+    ONNX pads 格式: [x1_begin, x2_begin, x1_end, x2_end]
+    """
+    auto_pad = _attr_str(attrs, 'auto_pad', 'NOTSET')
+    if auto_pad in ('SAME_UPPER', 'SAME_LOWER'):
+        begins, ends = [], []
+        for size, k, stride, dilation in zip(x.shape[2:], kernel_shape, strides, dilations):
+            out = (size + stride - 1) // stride
+            total = max((out - 1) * stride + (k - 1) * dilation + 1 - size, 0)
+            begin = total // 2 if auto_pad == 'SAME_UPPER' else total - total // 2
+            begins.append(begin)
+            ends.append(total - begin)
+        return tuple(begins + ends)
+    if auto_pad == 'VALID':
+        return (0, 0, 0, 0)
+    pads = attrs.get('pads', None) or (0, 0, 0, 0)
     if len(pads) == 2:
-        return (pads[0], pads[0], pads[1], pads[1])
-    elif len(pads) == 4:
-        return (pads[0], pads[1], pads[2], pads[3])
-    return 0
+        return (pads[0], pads[1], pads[0], pads[1])
+    return tuple(pads)
+
+
+def _pad_2d(x: torch.Tensor, pads: tuple, value: float = 0.0) -> torch.Tensor:
+    """按 (h_begin, w_begin, h_end, w_end) 填充，不需要填充时返回原 tensor"""
+    if not any(pads):
+        return x
+    return F.pad(x, (pads[1], pads[3], pads[0], pads[2]), value=value)
+
+
+def _pool_window(x: torch.Tensor, output: torch.Tensor, attrs: Dict):
+    """2D 池化的参数: kernel_shape, strides, dilations, pads, extra
+
+    extra 是 ceil_mode 下最后一个窗口超出填充区域的部分，由输出形状推出。
+    """
+    kernel_shape = attrs.get('kernel_shape', (1, 1))
+    if len(kernel_shape) != 2:
+        raise NotImplementedError(f"Only 2D pooling is supported, got kernel_shape {tuple(kernel_shape)}")
+    strides = attrs.get('strides', None) or (1, 1)
+    dilations = attrs.get('dilations', None) or (1, 1)
+    pads = _to_2d_padding(x, kernel_shape, strides, dilations, attrs)
+    extra = []
+    for i in range(2):
+        used = (output.shape[2 + i] - 1) * strides[i] + (kernel_shape[i] - 1) * dilations[i] + 1
+        extra.append(max(used - (x.shape[2 + i] + pads[i] + pads[i + 2]), 0))
+    return tuple(kernel_shape), tuple(strides), tuple(dilations), pads, (0, 0, extra[0], extra[1])
 
 
 # ===========================================================================
@@ -122,23 +159,22 @@ class ConvKernel(Kernel):
         w = inputs[1]  # [M, C, kH, kW]
         bias = inputs[2] if len(inputs) > 2 else None
 
-        strides = attrs.get('strides', (1, 1))
-        pads = attrs.get('pads', (0, 0, 0, 0))
-        dilations = attrs.get('dilations', (1, 1))
+        strides = attrs.get('strides', None) or (1, 1)
+        dilations = attrs.get('dilations', None) or (1, 1)
         group = attrs.get('group', 1)
 
-        # ONNX pads 格式: [x1_begin, x2_begin, x1_end, x2_end]
-        if len(pads) == 2:
-            pad_h, pad_w = pads[0], pads[1]
-        elif len(pads) == 4:
-            pad_h, pad_w = pads[0], pads[2]
+        pads = _to_2d_padding(x, w.shape[2:], strides, dilations, attrs)
+        if pads[:2] == pads[2:]:
+            padding = pads[:2]
         else:
-            pad_h, pad_w = 0, 0
+            # 不对称 padding 需要显式填充
+            x = _pad_2d(x, pads)
+            padding = (0, 0)
 
         result = F.conv2d(
             x, w, bias=bias,
             stride=strides,
-            padding=(pad_h, pad_w),
+            padding=padding,
             dilation=dilations,
             groups=group,
         )
@@ -354,18 +390,17 @@ class AveragePoolKernel(Kernel):
     @staticmethod
     def run(inputs, outputs, attrs):
         x = inputs[0]
-        kernel_shape = attrs.get('kernel_shape', (1, 1))
-        strides = attrs.get('strides', (1, 1))
-        pads = attrs.get('pads', (0, 0, 0, 0))
-
-        if len(pads) == 4:
-            pad_h, pad_w = pads[0], pads[2]
-        else:
-            pad_h, pad_w = 0, 0
-
-        outputs[0].copy_(
-            F.avg_pool2d(x, kernel_shape, stride=strides, padding=(pad_h, pad_w))
-        )
+        kernel_shape, strides, dilations, pads, extra = _pool_window(x, outputs[0], attrs)
+        if dilations != (1, 1):
+            raise NotImplementedError("AveragePool with dilations is not supported")
+        padded = _pad_2d(_pad_2d(x, pads), extra)
+        result = F.avg_pool2d(padded, kernel_shape, stride=strides)
+        if any(pads) or any(extra):
+            # 窗口中不计入平均的填充元素: ceil_mode 多出的部分，以及 count_include_pad=0 时的 pads
+            valid = torch.ones(1, 1, x.shape[2], x.shape[3], dtype=x.dtype, device=x.device)
+            valid = _pad_2d(_pad_2d(valid, pads, float(attrs.get('count_include_pad', 0))), extra)
+            result = result / F.avg_pool2d(valid, kernel_shape, stride=strides)
+        outputs[0].copy_(result)
 
 
 @KernelRegistry.register("MaxPool")
@@ -375,17 +410,12 @@ class MaxPoolKernel(Kernel):
     @staticmethod
     def run(inputs, outputs, attrs):
         x = inputs[0]
-        kernel_shape = attrs.get('kernel_shape', (1, 1))
-        strides = attrs.get('strides', (1, 1))
-        pads = attrs.get('pads', (0, 0, 0, 0))
-
-        if len(pads) == 4:
-            pad_h, pad_w = pads[0], pads[2]
-        else:
-            pad_h, pad_w = 0, 0
-
+        if len(outputs) > 1:
+            raise NotImplementedError("MaxPool indices are not supported")
+        kernel_shape, strides, dilations, pads, extra = _pool_window(x, outputs[0], attrs)
+        padded = _pad_2d(_pad_2d(x, pads, float('-inf')), extra, float('-inf'))
         outputs[0].copy_(
-            F.max_pool2d(x, kernel_shape, stride=strides, padding=(pad_h, pad_w))
+            F.max_pool2d(padded, kernel_shape, stride=strides, dilation=dilations)
         )
 
 
@@ -397,7 +427,7 @@ class GlobalAveragePoolKernel(Kernel):
     def run(inputs, outputs, attrs):
         x = inputs[0]
         # [N, C, H, W] -> [N, C, 1, 1]
-        outputs[0].copy_(F.adaptive_avg_pool2d(x, (1, 1)))
+        outputs[0].copy_(x.mean(dim=tuple(range(2, x.dim())), keepdim=True))
 
 
 @KernelRegistry.register("Flatten")
-- 
2.43.0


From b0e972b6b30add157f43e2bb229a28d790a3b3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 54/93] fix: Gemm, Flatten, Squeeze, Unsqueeze and Reduce
 kernels follow the operators' axis and transpose rules

---
 inference/infer.py   |   2 +-
 inference/kernels.py | 102 +++++++++++++++++++++----------------------
 2 files changed, 52 insertions(+), 52 deletions(-)

diff --git a/inference/infer.py b/inference/infer.py
index 27306de..b732e38 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -548,7 +548,7 @@ class GraphInfer:
         """判断该 op_type 是否需要将 safetensors 的 [N, K] 转置为 [K, N]。
 
         MatMul: 需要，ONNX MatMul 期望 weight 为 [K, N]
-        Gemm: 不需要，Gemm 有 transB 属性，由 preprocess_weight 处理
+        Gemm: 不需要，Gemm 有 transB 属性，由 kernel 处理
         Gather/其他: 不需要，embed_tokens 等保持原样
         """
         return op_type == 'MatMul'
diff --git a/inference/kernels.py b/inference/kernels.py
index c2e76f5..4dba015 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -145,6 +145,18 @@ def _pool_window(x: torch.Tensor, output: torch.Tensor, attrs: Dict):
     return tuple(kernel_shape), tuple(strides), tuple(dilations), pads, (0, 0, extra[0], extra[1])
 
 
+def _reduce_axes(inputs, attrs: Dict) -> tuple:
+    """Reduce 算子的轴。空 tuple 表示不做 reduce（noop_with_empty_axes）"""
+    # axes 来源: inputs[1] (ONNX 18+, ReduceSum 13+) 或 attrs['axes']
+    if len(inputs) > 1 and inputs[1] is not None:
+        axes = [int(x) for x in inputs[1].cpu().tolist()]
+    else:
+        axes = attrs.get('axes', None)
+    if not axes and not attrs.get('noop_with_empty_axes', 0):
+        axes = range(inputs[0].dim())
+    return tuple(axes or ())
+
+
 # ===========================================================================
 # 注册算子内核
 # ===========================================================================
@@ -329,9 +341,9 @@ class GemmKernel(Kernel):
 
         if transA:
             A = A.T
-        # B 已在 preprocess_weight 中预转置，无需再次转置
-        # if transB:
-        #     B = B.T
+        # B 可能是 activation，也可能是与其他节点共享的 weight，因此在此处转置（.T 只是视图，不拷贝）
+        if transB:
+            B = B.T
 
         torch.mm(A, B, out=outputs[0])
         if alpha != 1.0:
@@ -339,14 +351,6 @@ class GemmKernel(Kernel):
         if C is not None:
             outputs[0].add_(beta * C)
 
-    @staticmethod
-    def preprocess_weight(src_name: str, tensor: torch.Tensor, attrs: Dict) -> torch.Tensor:
-        """Gemm weight 前处理：如果 transB=1，预转置 weight 矩阵。"""
-        transB = attrs.get('transB', 0)
-        if transB:
-            tensor = tensor.T.contiguous()
-        return tensor
-
 
 @KernelRegistry.register("MatMul")
 class MatMulKernel(Kernel):
@@ -438,18 +442,16 @@ class FlattenKernel(Kernel):
     def run(inputs, outputs, attrs):
         axis = attrs.get('axis', 1)
         x = inputs[0]
-        # ONNX Flatten: output shape = (d0, d1, ..., d_{axis-1}, d_{axis} * ... * d_{k-1})
-        # 即保留前 axis 个维度，将剩余维度展平为一个维度
-        if axis == 0:
-            # 展平所有维度
-            result = x.reshape(-1)
-        else:
-            leading = x.shape[:axis]
-            rest_numel = 1
-            for s in x.shape[axis:]:
-                rest_numel *= s
-            new_shape = tuple(leading) + (rest_numel,)
-            result = x.reshape(new_shape)
+        # ONNX Flatten: output shape = (d0 * ... * d_{axis-1}, d_{axis} * ... * d_{k-1})
+        if axis < 0:
+            axis += x.dim()
+        leading = 1
+        for s in x.shape[:axis]:
+            leading *= s
+        rest_numel = 1
+        for s in x.shape[axis:]:
+            rest_numel *= s
+        result = x.reshape(leading, rest_numel)
         # 如果输出 tensor 的 shape 与计算结果不同（模型 shape inference 可能有误），
         # 尝试 reshape 到输出 tensor 的 shape
         if result.shape != outputs[0].shape:
@@ -483,7 +485,11 @@ class SqueezeKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        axes = attrs.get('axes', None)
+        # axes 来源: inputs[1] (ONNX 13+) 或 attrs['axes'] (ONNX 11-)
+        if len(inputs) > 1 and inputs[1] is not None:
+            axes = [int(x) for x in inputs[1].cpu().tolist()]
+        else:
+            axes = attrs.get('axes', None)
         if axes is not None:
             outputs[0].copy_(inputs[0].squeeze(dim=tuple(axes)))
         else:
@@ -504,7 +510,9 @@ class UnsqueezeKernel(Kernel):
 
         if axes is not None:
             t = inputs[0]
-            for ax in sorted(axes):
+            # 负的 axis 相对于输出的维度数
+            ndim = t.dim() + len(axes)
+            for ax in sorted(ax % ndim for ax in axes):
                 t = t.unsqueeze(ax)
             outputs[0].copy_(t)
         else:
@@ -669,16 +677,12 @@ class ReduceMeanKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        # axes 来源: inputs[1] (ONNX 18+) 或 attrs['axes']
-        if len(inputs) > 1 and inputs[1] is not None:
-            axes = [int(x) for x in inputs[1].cpu().tolist()]
-        else:
-            axes = attrs.get('axes', None)
+        axes = _reduce_axes(inputs, attrs)
         keepdims = attrs.get('keepdims', 1)
-        if axes is not None:
-            outputs[0].copy_(inputs[0].mean(dim=tuple(axes), keepdim=bool(keepdims)))
+        if axes:
+            outputs[0].copy_(inputs[0].mean(dim=axes, keepdim=bool(keepdims)))
         else:
-            outputs[0].copy_(inputs[0].mean(keepdim=bool(keepdims)))
+            outputs[0].copy_(inputs[0])
 
 
 @KernelRegistry.register("ReduceSum")
@@ -687,16 +691,12 @@ class ReduceSumKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        # axes 来源: inputs[1] (ONNX 18+) 或 attrs['axes']
-        if len(inputs) > 1 and inputs[1] is not None:
-            axes = [int(x) for x in inputs[1].cpu().tolist()]
-        else:
-            axes = attrs.get('axes', None)
+        axes = _reduce_axes(inputs, attrs)
         keepdims = attrs.get('keepdims', 1)
-        if axes is not None:
-            outputs[0].copy_(inputs[0].sum(dim=tuple(axes), keepdim=bool(keepdims)))
+        if axes:
+            outputs[0].copy_(inputs[0].sum(dim=axes, keepdim=bool(keepdims)))
         else:
-            outputs[0].copy_(inputs[0].sum(keepdim=bool(keepdims)))
+            outputs[0].copy_(inputs[0])
 
 
 @KernelRegistry.register("Identity")
@@ -886,9 +886,13 @@ class LayerNormKernel(Kernel):
         eps = attrs.get('epsilon', 1e-5)
         norm_type = attrs.get('type', 'layer')
 
+        axis = attrs.get('axis', -1)
+        if axis not in (-1, x.dim() - 1):
+            raise NotImplementedError(f"LayerNormalization is only supported on the last axis, got axis={axis}")
+
         # 检测 per-head norm：weight 维度小于 x 最后一维
         head_dim = weight.shape[-1]
-        if head_dim < x.shape[-1]:
+        if 1 < head_dim < x.shape[-1]:
             # Per-head norm: reshape [B, S, N*head_dim] -> [B, S, N, head_dim]
             N = x.shape[-1] // head_dim
             x = x.reshape(*x.shape[:-1], N, head_dim)
@@ -908,7 +912,7 @@ class LayerNormKernel(Kernel):
                 y = y + bias
 
         # 恢复原始 shape
-        if head_dim < inputs[0].shape[-1]:
+        if 1 < head_dim < inputs[0].shape[-1]:
             y = y.reshape(inputs[0].shape)
 
         outputs[0].copy_(y)
@@ -1143,16 +1147,12 @@ class ReduceMaxKernel(Kernel):
 
     @staticmethod
     def run(inputs, outputs, attrs):
-        # axes 来源: inputs[1] (ONNX 18+) 或 attrs['axes']
-        if len(inputs) > 1 and inputs[1] is not None:
-            axes = [int(x) for x in inputs[1].cpu().tolist()]
-        else:
-            axes = attrs.get('axes', None)
+        axes = _reduce_axes(inputs, attrs)
         keepdims = attrs.get('keepdims', 1)
-        if axes is not None:
-            outputs[0].copy_(inputs[0].amax(dim=tuple(axes), keepdim=bool(keepdims)))
+        if axes:
+            outputs[0].copy_(inputs[0].amax(dim=axes, keepdim=bool(keepdims)))
         else:
-            outputs[0].copy_(inputs[0].amax(keepdim=bool(keepdims)))
+            outputs[0].copy_(inputs[0])
 
 
 @KernelRegistry.register("Split")
-- 
2.43.0


From 32eb0f7e6e28945ceb467ba137661e30e22bf775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:33 +0000
Subject: [PATCH 55/93] fix: reductions without axes, or with axes as an input
 tensor, got no shape or failed in value inference

---
 onnx_tool/node.py | 70 +++++++++++++++++++----------------------------
 1 file changed, 28 insertions(+), 42 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index d8f017c..5c2c481 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1918,19 +1918,23 @@ class ReduceMeanNode(Node):
         super().__init__(nodeproto)
         self.add_default_value('axes', None)
         self.add_default_value('keepdims', 1)
+        self.add_default_value('noop_with_empty_axes', 0)
 
-    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        xshape = intensors[0].get_shape()
-        yshape = []
+    def get_axes(self, intensors: List[Tensor]):
+        """The axes to reduce, non-negative: all of them when none are given."""
+        ndim = len(intensors[0].get_shape())
         if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
-        if axes is None:
-            return [[1]]
+            axes = numpy.ravel(intensors[1].get_numpy()).tolist()
         else:
-            axes = _axes_neg2pos(len(xshape), axes)
+            axes = [] if self.axes is None else self.axes
+        if len(axes) == 0 and not self.noop_with_empty_axes:
+            axes = range(ndim)
+        return tuple(_axes_neg2pos(ndim, axes))
 
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        xshape = intensors[0].get_shape()
+        yshape = []
+        axes = self.get_axes(intensors)
         for i in range(len(xshape)):
             if i in axes:
                 if self.keepdims:
@@ -1941,11 +1945,9 @@ class ReduceMeanNode(Node):
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
-        reduced = numpy.mean(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
+        axes = self.get_axes(intensors)
+        data = intensors[0].get_numpy()
+        reduced = numpy.mean(data, axis=axes, keepdims=self.keepdims == 1).astype(data.dtype)
         outtensors[0].update_tensor(reduced)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -1956,11 +1958,9 @@ class ReduceMeanNode(Node):
 @NODE_REGISTRY.register()
 class ReduceProdNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
-        reduced = numpy.prod(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
+        axes = self.get_axes(intensors)
+        data = intensors[0].get_numpy()
+        reduced = numpy.prod(data, axis=axes, keepdims=self.keepdims == 1, dtype=data.dtype)
         outtensors[0].update_tensor(reduced)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -1972,11 +1972,9 @@ class ReduceProdNode(ReduceMeanNode):
 @NODE_REGISTRY.register()
 class ReduceSumNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if len(intensors) == 2:
-            axes = tuple(intensors[1].get_numpy().tolist())
-        else:
-            axes = self.axes
-        reduced = numpy.sum(intensors[0].get_numpy(), axis=axes, keepdims=self.keepdims == 1)
+        axes = self.get_axes(intensors)
+        data = intensors[0].get_numpy()
+        reduced = numpy.sum(data, axis=axes, keepdims=self.keepdims == 1, dtype=data.dtype)
         outtensors[0].update_tensor(reduced)
 
 
@@ -1984,10 +1982,7 @@ class ReduceSumNode(ReduceMeanNode):
 class ReduceMinNode(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
+        axes = self.get_axes(intensors)
         reduced = numpy.minimum.reduce(data, axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -2001,10 +1996,7 @@ class ReduceMinNode(ReduceMeanNode):
 class ReduceMaxNode(ReduceMinNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        if len(intensors) == 2:
-            axes = intensors[1].get_numpy()
-        else:
-            axes = self.axes
+        axes = self.get_axes(intensors)
         reduced = numpy.maximum.reduce(data, axis=axes, keepdims=self.keepdims == 1)
         outtensors[0].update_tensor(reduced)
 
@@ -2239,17 +2231,11 @@ class ConvNode(Node):
 
 
 @NODE_REGISTRY.register()
-class ReduceL2Node(Node):
-    def __init__(self, nodeproto):
-        super().__init__(nodeproto)
-        self.add_default_value('axes', None)
-        self.add_default_value('keepdims', 1)
-        self.axes = tuple(self.axes) if self.axes is not None else None
-
+class ReduceL2Node(ReduceMeanNode):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        reduced = numpy.sqrt(
-            numpy.sum(intensors[0].get_numpy() * intensors[0].get_numpy(), axis=self.axes, keepdims=self.keepdims == 1))
-        outtensors[0].update_tensor(reduced)
+        data = intensors[0].get_numpy()
+        reduced = numpy.sqrt(numpy.sum(data * data, axis=self.get_axes(intensors), keepdims=self.keepdims == 1))
+        outtensors[0].update_tensor(reduced.astype(data.dtype))
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         vol = volume(intensors[0].get_shape())
-- 
2.43.0


From 161e135b4ab22bf9bcc097cb483d47b4785cbac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 56/93] fix: a failure while the tensor shapes of a request
 were looked up left the maximum shapes in use for later requests

---
 inference/infer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inference/infer.py b/inference/infer.py
index b732e38..fbf27f5 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -216,7 +216,7 @@ class GraphInfer:
             if shape is not None and all(isinstance(s, int) and s > 0 for s in shape):
                 self._tensor_shape_cache[tensor_name] = shape
                 return shape
-        except Exception:
+        except KeyError:
             pass
         if tensor_name in self._cg.tensormap:
             shape = self._cg.tensormap[tensor_name].get_shape()
@@ -277,7 +277,7 @@ class GraphInfer:
                     shape = self.shape_engine.get_tensorshape(tname)
                     if shape is not None and all(isinstance(s, int) and s > 0 for s in shape):
                         shape_cache[tname] = shape
-                except Exception:
+                except KeyError:
                     pass
             # fallback: 不在 shape_engine 中的 tensor 从 tensormap 取
             for tname in self._tensor_blocks:
-- 
2.43.0


From 4504b4267355938ddc7fafc11fbb131935bc1c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:55 +0000
Subject: [PATCH 57/93] fix: Mod, Div, Pow, Round, CumSum, ArgMax and
 GatherElements infer the values and types the operators define

---
 onnx_tool/node.py | 52 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 5c2c481..63b2cee 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -351,13 +351,14 @@ class DivNode(NpMathBase):
         self.op_mac = DIV_MACS
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if intensors[0].dtype == intensors[1].dtype:
-            if intensors[0].dtype in [numpy.int64]:
-                result = intensors[0].get_numpy() // intensors[1].get_numpy()
-            else:
-                result = intensors[0].get_numpy() / intensors[1].get_numpy()
+        a = intensors[0].get_numpy()
+        b = intensors[1].get_numpy()
+        if numpy.issubdtype(a.dtype, numpy.integer) and numpy.issubdtype(b.dtype, numpy.integer):
+            # integer division truncates towards zero
+            result = a // b
+            result = result + ((result < 0) & (result * b != a)).astype(result.dtype)
         else:
-            result = intensors[0].get_numpy() / intensors[1].get_numpy()
+            result = a / b
         outtensors[0].update_tensor(result)
 
 
@@ -366,9 +367,11 @@ class ModNode(NpMathBase):
     def __init__(self, n):
         super().__init__(n)
         self.op_mac = ADD_MACS
+        self.add_default_value('fmod', 0)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = numpy.mod(intensors[0].get_numpy(), intensors[1].get_numpy())
+        func = numpy.fmod if self.fmod else numpy.mod
+        result = func(intensors[0].get_numpy(), intensors[1].get_numpy())
         outtensors[0].update_tensor(result)
 
 
@@ -501,8 +504,9 @@ class PowNode(Node):
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(sel, intensors: List[Tensor], outtensors: List[Tensor]):
-        result = numpy.power(intensors[0].get_numpy(), intensors[1].get_numpy())
-        outtensors[0].update_tensor(result)
+        base = intensors[0].get_numpy()
+        result = numpy.power(base, intensors[1].get_numpy())
+        outtensors[0].update_tensor(result.astype(base.dtype))
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outshape = outtensors[0].get_shape()
@@ -798,6 +802,10 @@ class LessOrEqualNode(LessNode):
 
 @NODE_REGISTRY.register()
 class RoundNode(LessNode):
+    def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        super().shape_infer(intensors, outtensors)
+        outtensors[0].update_dtype(intensors[0].dtype)
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         result = numpy.round(intensors[0].get_numpy())
         outtensors[0].update_tensor(result)
@@ -1689,10 +1697,15 @@ class ArgMaxNode(Node):
         super().__init__(n)
         self.add_default_value('axis', 0)
         self.add_default_value('keepdims', 1)
+        self.add_default_value('select_last_index', 0)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
-        out = argmax_use_numpy(data, self.axis, self.keepdims)
+        if self.select_last_index:
+            out = argmax_use_numpy(numpy.flip(data, self.axis), self.axis, self.keepdims)
+            out = data.shape[self.axis] - 1 - out
+        else:
+            out = argmax_use_numpy(data, self.axis, self.keepdims)
         outtensors[0].update_tensor(out)
 
 
@@ -2252,11 +2265,18 @@ class CumSumNode(PWNode):
         self.add_default_value('reverse', 0)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if self.exclusive == 0 and self.reverse == 0:
-            y = numpy.cumsum(intensors[0].get_numpy(), intensors[1].get_numpy())
-            outtensors[0].update_tensor(y)
-            return
-        raise NotImplementedError(f"CumSum doesnt support {self.exclusive} {self.reverse}")
+        x = intensors[0].get_numpy()
+        axis = int(numpy.ravel(intensors[1].get_numpy())[0])
+        if self.reverse:
+            x = numpy.flip(x, axis)
+        y = numpy.cumsum(x, axis, dtype=x.dtype)
+        if self.exclusive:
+            # every element is left out of its own sum
+            zeros = numpy.zeros_like(numpy.take(x, [0], axis))
+            y = numpy.concatenate([zeros, numpy.take(y, range(x.shape[axis] - 1), axis)], axis)
+        if self.reverse:
+            y = numpy.flip(y, axis)
+        outtensors[0].update_tensor(y)
 
 
 @NODE_REGISTRY.register()
@@ -2782,7 +2802,7 @@ class GatherElementsNode(Node):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         x = intensors[0].get_numpy()
         indice = intensors[1].get_numpy()
-        outtensor = numpy.zeros_like(indice)
+        outtensor = numpy.zeros(indice.shape, dtype=x.dtype)
         for i in numpy.ndindex(outtensor.shape):
             idx = list(i)
             idx[self.axis] = indice[i]
-- 
2.43.0


From fc8599552e2c91e68790bbcb862c770c0cb4c2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 58/93] fix: Gemm, MatMul, Flatten, Shape, Slice, Split,
 Unsqueeze, OneHot, ScatterND and GatherND follow the operators' attributes
 and defaults

---
 onnx_tool/node.py | 185 ++++++++++++++++++++++------------------------
 1 file changed, 88 insertions(+), 97 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 63b2cee..5ef6716 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -881,37 +881,46 @@ class GemmNode(Node):
         super().__init__(nodeproto)
         self.add_default_value('transA', 0)
         self.add_default_value('transB', 0)
+        self.add_default_value('alpha', 1.0)
+        self.add_default_value('beta', 1.0)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         a_shape = intensors[0].get_shape()
         b_shape = intensors[1].get_shape()
+        if self.__class__ != GemmNode:
+            # a 1-D operand is a row or a column, and the size added for it is removed from the result
+            a2 = [1] + list(a_shape) if len(a_shape) == 1 else list(a_shape)
+            b2 = list(b_shape) + [1] if len(b_shape) == 1 else list(b_shape)
+            yshape = _broadcast_shape([a2[:-2], b2[:-2]])
+            if len(a_shape) > 1:
+                yshape = yshape + [a2[-2]]
+            if len(b_shape) > 1:
+                yshape = yshape + [b2[-1]]
+            outtensors[0].update_shape(yshape)
+            outtensors[0].update_dtype(intensors[0].dtype)
+            return
         if len(a_shape) < 2 or len(b_shape) < 2:
             raise RuntimeError('Gemm inputs must have rank >= 2')
-        if self.__class__ == GemmNode:
-            # determine M,K from A depending on transA
-            if self.transA > 0:
-                a_m = a_shape[-1]
-                a_k = a_shape[-2]
-            else:
-                a_m = a_shape[-2]
-                a_k = a_shape[-1]
-            # determine K,N from B depending on transB
-            if self.transB > 0:
-                b_k = b_shape[-1]
-                b_n = b_shape[-2]
-            else:
-                b_k = b_shape[-2]
-                b_n = b_shape[-1]
-            if a_k != b_k:
-                raise RuntimeError(f'Incompatible GEMM shapes: A K={a_k} != B K={b_k}')
-            a_batch = a_shape[:-2]
-            b_batch = b_shape[:-2]
-            batchshape = a_batch if volume(a_batch) >= volume(b_batch) else b_batch
-            yshape = batchshape + [a_m, b_n]
+        # determine M,K from A depending on transA
+        if self.transA > 0:
+            a_m = a_shape[-1]
+            a_k = a_shape[-2]
+        else:
+            a_m = a_shape[-2]
+            a_k = a_shape[-1]
+        # determine K,N from B depending on transB
+        if self.transB > 0:
+            b_k = b_shape[-1]
+            b_n = b_shape[-2]
         else:
-            # broadcast support for MatMul-like nodes
-            batchshape = a_shape[:-2] if volume(a_shape[:-2]) >= volume(b_shape[:-2]) else b_shape[:-2]
-            yshape = batchshape + [a_shape[-2], b_shape[-1]]
+            b_k = b_shape[-2]
+            b_n = b_shape[-1]
+        if a_k != b_k:
+            raise RuntimeError(f'Incompatible GEMM shapes: A K={a_k} != B K={b_k}')
+        a_batch = a_shape[:-2]
+        b_batch = b_shape[:-2]
+        batchshape = a_batch if volume(a_batch) >= volume(b_batch) else b_batch
+        yshape = batchshape + [a_m, b_n]
         outtensors[0].update_shape(yshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
@@ -919,7 +928,7 @@ class GemmNode(Node):
         if self.__class__ == MatMulNode:
             ashape = intensors[0].get_shape()
             bshape = intensors[1].get_shape()
-            assert (ashape[-1] == bshape[-2])
+            assert (ashape[-1] == bshape[-2 if len(bshape) > 1 else 0])
             result = numpy.matmul(intensors[0].get_numpy(), intensors[1].get_numpy())
             outtensors[0].update_tensor(result)
             return
@@ -930,8 +939,13 @@ class GemmNode(Node):
         if self.transB > 0:
             B = numpy.swapaxes(B, -1, -2)
         C = numpy.matmul(A, B)
+        if self.alpha != 1:
+            C = C * C.dtype.type(self.alpha)
         if len(intensors) > 2:
-            C = numpy.add(C, intensors[2].get_numpy())
+            bias = intensors[2].get_numpy()
+            if self.beta != 1:
+                bias = bias * bias.dtype.type(self.beta)
+            C = numpy.add(C, bias)
         outtensors[0].update_tensor(C)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -945,8 +959,7 @@ class GemmNode(Node):
                 else:
                     macs *= weight_shape[-2]
             else:
-                if len(weight_shape) > 1:
-                    macs *= weight_shape[-2]
+                macs *= weight_shape[-2 if len(weight_shape) > 1 else 0]
             if len(intensors) == 3:
                 macs += volume(yshape) * ADD_MACS
         else:
@@ -1135,8 +1148,12 @@ class OneHotNode(Node):
         indices = intensors[0].get_numpy()
         depth = intensors[1].get_numpy()
         values = intensors[2].get_numpy()
-        y = one_hot(indices, depth, self.axis)
-        outtensors[0].update_tensor(y)
+        depth = int(numpy.ravel(depth)[0])
+        valid = one_hot((indices >= -depth) & (indices < depth), 2, self.axis)
+        valid = numpy.take(valid, [1], self.axis) > 0
+        # every place the index does not point at, also those of indices outside the depth, holds the off value
+        y = one_hot(indices, depth, self.axis) > 0
+        outtensors[0].update_tensor(numpy.where(y & valid, values[1], values[0]))
 
 
 @NODE_REGISTRY.register()
@@ -1312,7 +1329,8 @@ class UnsqueezeNode(Node):
             axes = intensors[1].get_numpy()
         else:
             axes = self.axes
-        for axis in axes:
+        axes = _axes_neg2pos(outtensor.ndim + len(axes), axes)
+        for axis in sorted(axes):
             outtensor = numpy.expand_dims(outtensor, axis=axis)
         outtensors[0].update_tensor(outtensor)
 
@@ -1350,8 +1368,13 @@ class SqueezeNode(Node):
 
 @NODE_REGISTRY.register()
 class ShapeNode(Node):
+    def __init__(self, n):
+        super().__init__(n)
+        self.add_default_value('start', 0)
+        self.add_default_value('end', None)
+
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        ret = numpy.array(intensors[0].get_shape(), dtype=numpy.int64)
+        ret = numpy.array(intensors[0].get_shape()[self.start:self.end], dtype=numpy.int64)
         outtensors[0].update_tensor(ret)
 
 
@@ -1677,7 +1700,7 @@ class FlattenNode(Node):
             y = x.reshape((x.shape[0], -1))
         else:
             vol = 1
-            for i in range(self.axis):
+            for i in range(self.axis if self.axis >= 0 else len(x.shape) + self.axis):
                 vol *= x.shape[i]
             y = x.reshape((vol, -1))
         outtensors[0].update_tensor(y)
@@ -1735,7 +1758,7 @@ class SliceNode(Node):
         if len(intensors) == 1:
             starts = list(self.starts)
             ends = list(self.ends)
-            axes = None if self.axes is None else list(self.axes)
+            axes = None if getattr(self, 'axes', None) is None else list(self.axes)
             steps = None if self.steps is None else list(self.steps)
         else:
             starts = list(intensors[1].get_numpy())
@@ -1752,9 +1775,9 @@ class SliceNode(Node):
                     steps = list(intensors[4].get_numpy())
 
         r = len(inshape)
-        # If axes omitted, set to [0..r-1]
+        # If axes omitted, the first axes are meant
         if axes is None:
-            axes = list(range(r))
+            axes = list(range(len(starts)))
         # Normalize negative axes
         axes = _axes_neg2pos(r, list(axes))
 
@@ -1864,65 +1887,27 @@ class SliceNode(Node):
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        data = intensors[0].get_numpy()
-        datashape = intensors[0].get_shape()
-        if len(intensors) == 3:
-            starts = intensors[1].get_numpy()
-            ends = intensors[2].get_numpy()
-            x = data[starts[0]:ends[0]]
-        if len(intensors) == 4:
-            starts = intensors[1].get_numpy()
-            ends = intensors[2].get_numpy()
-            axes = intensors[3].get_numpy()
-            index = 0
-            x = data.copy()
-            for i in axes:
-                if i == 0:
-                    x = x[starts[index]:ends[index], ...]
-                if i == 1:
-                    x = x[:, starts[index]:ends[index], ...]
-                if i == 2:
-                    x = x[:, :, starts[index]:ends[index], ...]
-                if i == 3:
-                    x = x[:, :, :, starts[index]:ends[index], ...]
-                if i == 4:
-                    x = x[:, :, :, :, starts[index]:ends[index], ...]
-                index += 1
-        if len(intensors) == 5:
+        x = intensors[0].get_numpy()
+        axes = None
+        steps = None
+        if len(intensors) == 1:
+            starts = self.starts
+            ends = self.ends
+            axes = getattr(self, 'axes', None)
+            steps = self.steps
+        else:
             starts = intensors[1].get_numpy()
             ends = intensors[2].get_numpy()
-            axes = intensors[3].get_numpy()
-            steps = intensors[4].get_numpy()
-            index = 0
-            x = data.copy()
-            for i in axes:
-                if i == 0:
-                    x = x[starts[index]:ends[index]:steps[index], ...]
-                if i == 1:
-                    x = x[:, starts[index]:ends[index]:steps[index], ...]
-                if i == 2:
-                    x = x[:, :, starts[index]:ends[index]:steps[index], ...]
-                if i == 3:
-                    x = x[:, :, :, starts[index]:ends[index]:steps[index], ...]
-                if i == 4:
-                    x = x[:, :, :, :, starts[index]:ends[index]:steps[index], ...]
-                index += 1
-        if len(intensors) == 1:
-            index = 0
-            x = data.copy()
-            for i in self.axes:
-                if i == 0:
-                    x = x[self.starts[index]:self.ends[index], ...]
-                if i == 1:
-                    x = x[:, self.starts[index]:self.ends[index], ...]
-                if i == 2:
-                    x = x[:, :, self.starts[index]:self.ends[index], ...]
-                if i == 3:
-                    x = x[:, :, :, self.starts[index]:self.ends[index], ...]
-                if i == 4:
-                    x = x[:, :, :, :, self.starts[index]:self.ends[index], ...]
-                index += 1
-        outtensors[0].update_tensor(x)
+            if len(intensors) >= 4:
+                axes = intensors[3].get_numpy()
+            if len(intensors) >= 5:
+                steps = intensors[4].get_numpy()
+        if axes is None:
+            axes = range(len(starts))
+        index = [slice(None)] * x.ndim
+        for i, axis in enumerate(axes):
+            index[int(axis)] = slice(int(starts[i]), int(ends[i]), 1 if steps is None else int(steps[i]))
+        outtensors[0].update_tensor(x[tuple(index)].copy())
 
 
 @NODE_REGISTRY.register()
@@ -2428,15 +2413,21 @@ class ScatterNDNode(Node):
         data = intensors[0].get_numpy()
         indices = intensors[1].get_numpy()
         updates = intensors[2].get_numpy()
-        outtensors[0].update_tensor(scatter_nd_impl(data, indices, updates))
+        reduction = getattr(self, 'reduction', 'none')
+        reduction = reduction if isinstance(reduction, str) else reduction.decode('utf-8')
+        outtensors[0].update_tensor(scatter_nd_impl(data, indices, updates, reduction))
 
 
 @NODE_REGISTRY.register()
 class GatherNDNode(Node):
+    def __init__(self, nodeproto):
+        super().__init__(nodeproto)
+        self.add_default_value('batch_dims', 0)
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data_shape = intensors[0].get_shape()
         indice_shape = intensors[1].get_shape()
-        batch_dims = 0
+        batch_dims = self.batch_dims
         # Note the data rank - will be reused multiple times later
         data_rank = len(data_shape)
 
@@ -2470,7 +2461,7 @@ class GatherNDNode(Node):
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         data = intensors[0].get_numpy()
         indices = intensors[1].get_numpy()
-        ret = gather_nd_impl(data, indices, 0)
+        ret = gather_nd_impl(data, indices, self.batch_dims)
         outtensors[0].update_tensor(ret)
 
 
@@ -2932,7 +2923,7 @@ class MQANode(SDPANode):
 class SplitNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
-        self.add_default_value('axis', None)
+        self.add_default_value('axis', 0)
         self.add_default_value('split', None)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-- 
2.43.0


From ed241730e937f52927e3e2fc0e6913fe6c4c48fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:17 +0000
Subject: [PATCH 59/93] fix: pools and convolutions of any rank, automatic
 padding and argmax outputs

---
 onnx_tool/node.py | 130 +++++++++++++++++++++++-----------------------
 1 file changed, 66 insertions(+), 64 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 5ef6716..80d3d95 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -67,6 +67,11 @@ def _pooling_shape_calc(inshape, pad, kshape, dilation, stride, ceilmode):
     return math.floor(outshape)
 
 
+def _auto_pad_same_begin(auto_pad, x, ksize, stride, dilation):
+    total = max((_auto_pad_same_shape_calc(x, stride) - 1) * stride + (ksize - 1) * dilation + 1 - x, 0)
+    return total // 2 if auto_pad == b'SAME_UPPER' else total - total // 2
+
+
 def _axes_neg2pos(len, axes):
     newaxes = []
     for axis in axes:
@@ -1434,58 +1439,34 @@ class PoolBase(Node):
         super().__init__(nodeproto)
         self.op_mac = CMP_MACS
         self.add_default_value('kernel_shape', (3, 3))
+        rank = len(self.kernel_shape)
         self.add_default_value('ceil_mode', 0)
-        self.add_default_value('pads', (0, 0, 0, 0))
-        self.add_default_value('strides', (1, 1))
-        self.add_default_value('dilations', (1, 1))
+        self.add_default_value('pads', (0,) * (2 * rank))
+        self.add_default_value('strides', (1,) * rank)
+        self.add_default_value('dilations', (1,) * rank)
         self.add_default_value('auto_pad', None)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
-        if self.auto_pad is not None and self.auto_pad != b'NOTSET':
-            outshape = inshape[:2]
+        rank = len(self.kernel_shape)
+        outshape = inshape[:2]
+        for i in range(rank):
+            x, ksize, stride, dilation = inshape[2 + i], self.kernel_shape[i], self.strides[i], self.dilations[i]
             if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
-                outshape += (_auto_pad_same_shape_calc(inshape[2], self.strides[0]),)
-                if len(self.strides) == 2:
-                    outshape += [_auto_pad_same_shape_calc(inshape[3], self.strides[1]), ]
+                outshape += [_auto_pad_same_shape_calc(x, stride), ]
             elif self.auto_pad == b'VALID':
-                outshape += [_auto_pad_valid_shape_calc(inshape[2], self.kernel_shape[0], self.strides[0]), ]
-                if len(self.strides) == 2:
-                    outshape += [_auto_pad_valid_shape_calc(inshape[3], self.kernel_shape[1], self.strides[1]), ]
-        else:
-            if len(self.kernel_shape) == 1:
-                outshape = inshape[:2] + [
-                    _pooling_shape_calc(inshape[2], self.pads[0] + self.pads[1], self.kernel_shape[0],
-                                        self.dilations[0],
-                                        self.strides[0], self.ceil_mode), ]
-            if len(self.kernel_shape) == 2:
-                outshape = inshape[:2] + [
-                    _pooling_shape_calc(inshape[2], self.pads[0] + self.pads[2], self.kernel_shape[0],
-                                        self.dilations[0],
-                                        self.strides[0],
-                                        self.ceil_mode),
-                    _pooling_shape_calc(inshape[3], self.pads[1] + self.pads[3], self.kernel_shape[1],
-                                        self.dilations[1],
-                                        self.strides[1],
-                                        self.ceil_mode),
-                ]
-            if len(self.kernel_shape) == 3:
-                outshape = inshape[:2] + [
-                    _pooling_shape_calc(inshape[2], self.pads[0] + self.pads[0], self.kernel_shape[0],
-                                        self.dilations[0],
-                                        self.strides[0],
-                                        self.ceil_mode),
-                    _pooling_shape_calc(inshape[3], self.pads[1] + self.pads[1], self.kernel_shape[1],
-                                        self.dilations[1],
-                                        self.strides[1],
-                                        self.ceil_mode),
-                    _pooling_shape_calc(inshape[4], self.pads[2] + self.pads[2], self.kernel_shape[2],
-                                        self.dilations[1],
-                                        self.strides[2],
-                                        self.ceil_mode),
-                ]
+                outshape += [_auto_pad_valid_shape_calc(x, (ksize - 1) * dilation + 1, stride), ]
+            else:
+                size = _pooling_shape_calc(x, self.pads[i] + self.pads[i + rank], ksize, dilation, stride,
+                                           self.ceil_mode)
+                if self.ceil_mode and (size - 1) * stride >= x + self.pads[i]:
+                    size -= 1  # a window that would start in the padding after the data does not count
+                outshape += [size, ]
         outtensors[0].update_shape(outshape)
         outtensors[0].update_dtype(intensors[0].dtype)
+        if len(outtensors) > 1:
+            outtensors[1].update_shape(outshape)
+            outtensors[1].update_dtype(numpy.int64)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outshape = outtensors[0].get_shape()
@@ -1508,31 +1489,37 @@ class MaxPoolNode(PoolBase):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
         self.op_mac = CMP_MACS
+        self.add_default_value('storage_order', 0)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         self.shape_infer(intensors, outtensors)
         x = intensors[0].get_numpy()
         ot = numpy.zeros(outtensors[0].get_shape(), dtype=x.dtype)
+        indices = numpy.zeros(ot.shape, dtype=numpy.int64)
+        order = 'F' if self.storage_order else 'C'
+        rank = len(self.kernel_shape)
+        pads = self.pads[:rank]
+        if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
+            pads = [_auto_pad_same_begin(self.auto_pad, xshape[2 + k], self.kernel_shape[k], self.strides[k],
+                                         self.dilations[k]) for k in range(rank)]
         for i in numpy.ndindex(ot.shape):
-            batch = i[0]
-            ocn = i[1]
-            oh = i[2]
-            ow = i[3]
             t = None
             ks = tuple(self.kernel_shape)
             for j in numpy.ndindex(ks):
-                kh = j[0]
-                kw = j[1]
-                srch = oh * self.strides[0] + kh * self.dilations[0] - self.pads[0]
-                srcw = ow * self.strides[1] + kw * self.dilations[1] - self.pads[1]
-                if srch < 0 or srch >= xshape[2] or srcw < 0 or srcw >= xshape[3]:
+                src = tuple(i[2 + k] * self.strides[k] + j[k] * self.dilations[k] - pads[k] for k in range(rank))
+                if any(p < 0 or p >= xshape[2 + k] for k, p in enumerate(src)):
                     continue
-                srcv = x[batch, ocn, srch, srcw]
-                t = srcv if t is None else max(srcv, t)
+                srcv = x[i[:2] + src]
+                if t is None or srcv > t:
+                    t, at = srcv, src
             if t is not None:
                 ot[i] = t
+                channel = i[0] * xshape[1] + i[1]
+                indices[i] = channel * volume(xshape[2:]) + numpy.ravel_multi_index(at, tuple(xshape[2:]), order=order)
         outtensors[0].update_tensor(ot)
+        if len(outtensors) > 1:
+            outtensors[1].update_tensor(indices)
 
 
 @NODE_REGISTRY.register()
@@ -2144,15 +2131,14 @@ class ConvNode(Node):
         shape = []
         if self.auto_pad is not None and self.auto_pad != b'NOTSET':
             if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
-                shape = (xshape[0], wshape[0], math.ceil(xshape[2] / self.strides[0]))
-                if len(xshape) == 4:
-                    shape += (math.ceil(xshape[3] / self.strides[1]),)
+                shape = (xshape[0], wshape[0])
+                for i in range(len(xshape) - 2):
+                    shape += (_auto_pad_same_shape_calc(xshape[2 + i], self.strides[i]),)
             elif self.auto_pad == b'VALID':
-                oh = math.ceil((xshape[2] - wshape[2] + 1) / self.strides[0])
-                shape = (xshape[0], wshape[0], oh)
-                if len(xshape) == 4:
-                    ow = math.ceil((xshape[3] - wshape[3] + 1) / self.strides[1])
-                    shape += (ow,)
+                shape = (xshape[0], wshape[0])
+                for i in range(len(xshape) - 2):
+                    shape += (_auto_pad_valid_shape_calc(xshape[2 + i], (wshape[2 + i] - 1) * self.dilations[i] + 1,
+                                                         self.strides[i]),)
             else:
                 assert 0
 
@@ -2191,6 +2177,12 @@ class ConvNode(Node):
             raise NotImplementedError()
 
         reduce_shape = tuple(wshape[1:])
+        pads = self.pads[:2]
+        if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
+            pads = [_auto_pad_same_begin(self.auto_pad, xshape[2 + k], wshape[2 + k], self.strides[k],
+                                         self.dilations[k]) for k in range(2)]
+        elif self.auto_pad == b'VALID':
+            pads = (0, 0)
         for i in numpy.ndindex(tuple(outshape)):
             batch = i[0]
             ocn = i[1]
@@ -2203,8 +2195,8 @@ class ConvNode(Node):
                 icn = j[0]
                 kh = j[1]
                 kw = j[2]
-                srch = oh * self.strides[0] + kh * self.dilations[0] - self.pads[0]
-                srcw = ow * self.strides[1] + kw * self.dilations[1] - self.pads[1]
+                srch = oh * self.strides[0] + kh * self.dilations[0] - pads[0]
+                srcw = ow * self.strides[1] + kw * self.dilations[1] - pads[1]
                 if srch < 0 or srch >= xshape[2] or srcw < 0 or srcw >= xshape[3]:
                     srcv = 0
                 else:
@@ -2602,6 +2594,11 @@ class QLinearConvNode(ConvNode):
                 shape = [xshape[0], wshape[0], math.ceil(xshape[2] / self.strides[0])]
                 if len(xshape) == 4:
                     shape += [math.ceil(xshape[3] / self.strides[1]), ]
+            elif self.auto_pad == b'VALID':
+                shape = [xshape[0], wshape[0]]
+                for i in range(len(xshape) - 2):
+                    shape += [_auto_pad_valid_shape_calc(xshape[2 + i], (wshape[2 + i] - 1) * self.dilations[i] + 1,
+                                                         self.strides[i]), ]
         else:
             if len(xshape) == 4:
                 oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[2], wshape[2], self.strides[0],
@@ -2646,6 +2643,11 @@ class ConvIntegerNode(ConvNode):
                 shape = [xshape[0], wshape[0], math.ceil(xshape[2] / self.strides[0])]
                 if len(xshape) == 4:
                     shape += [math.ceil(xshape[3] / self.strides[1]), ]
+            elif self.auto_pad == b'VALID':
+                shape = [xshape[0], wshape[0]]
+                for i in range(len(xshape) - 2):
+                    shape += [_auto_pad_valid_shape_calc(xshape[2 + i], (wshape[2 + i] - 1) * self.dilations[i] + 1,
+                                                         self.strides[i]), ]
         else:
             if len(xshape) == 4:
                 oh = _conv_output_shape(xshape[2], self.pads[0] + self.pads[2], wshape[2], self.strides[0],
-- 
2.43.0


From 6ed8ecfc0be2c276284bafd5d0f2c6ddcc024c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:16 +0000
Subject: [PATCH 60/93] fix: transposed, integer and quantised convolutions,
 pad axes and optional outputs

---
 onnx_tool/node.py | 126 +++++++++++++++++++++++++---------------------
 1 file changed, 69 insertions(+), 57 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 80d3d95..2d1abb3 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1531,6 +1531,11 @@ class DropoutNode(FusedBase):
             outtensors[1].update_shape(intensors[0].get_shape())
             outtensors[1].update_dtype(numpy.bool_)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        super().value_infer(intensors, outtensors)
+        if len(outtensors) == 2:
+            outtensors[1].update_tensor(numpy.ones(intensors[0].get_shape(), dtype=numpy.bool_))
+
 
 @NODE_REGISTRY.register()
 class GlobalAveragePoolNode(Node):
@@ -1596,31 +1601,25 @@ class PadNode(Node):
         self.add_default_value('value', 0)
         self.add_default_value('mode', 'constant')
 
+    def _pad_width(self, intensors: List[Tensor]):
+        rank = len(intensors[0].get_shape())
+        pads = self.pads if self.pads is not None else intensors[1].get_numpy()
+        axes = range(rank)
+        if self.pads is None and len(intensors) > 3:
+            axes = _axes_neg2pos(rank, intensors[3].get_numpy().tolist())
+        pad_width = [(0, 0)] * rank
+        for i, axis in enumerate(axes):
+            pad_width[axis] = (int(pads[i]), int(pads[i + len(pads) // 2]))
+        return pad_width
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
-        newshape = []
-        if self.pads is None:
-            if len(intensors) > 1:
-                pads = intensors[1].get_numpy()
-                for i, v in enumerate(inshape):
-                    newshape.append(v + pads[i] + pads[i + len(inshape)])
-        else:
-            for i, v in enumerate(inshape):
-                newshape.append(v + self.pads[i] + self.pads[i + len(inshape)])
-        newshape = [int(val) for val in newshape]
+        newshape = [int(v + start + end) for v, (start, end) in zip(inshape, self._pad_width(intensors))]
         outtensors[0].update_shape(newshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        if self.pads is not None:
-            pads = self.pads
-        elif len(intensors) > 1:
-            pads = intensors[1].get_numpy()
-        pads = numpy.asarray(pads)
-        nrank = len(pads) // 2
-        start = pads[:nrank].reshape(nrank, 1)
-        end = pads[nrank:].reshape(nrank, 1)
-        pad_width = numpy.concatenate([start, end], axis=-1)
+        pad_width = self._pad_width(intensors)
         value = self.value
         if len(intensors) > 2:
             value = intensors[2].get_numpy()
@@ -2518,6 +2517,12 @@ class LayerNormalizationNode(Node):
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(intensors[0].get_shape())
         outtensors[0].update_dtype(intensors[0].dtype)
+        if len(outtensors) > 1:
+            shape = intensors[0].get_shape()
+            axis = _axes_neg2pos(len(shape), [self.axis])[0]
+            for tensor in outtensors[1:]:  # mean and inverse of the standard deviation
+                tensor.update_shape(list(shape[:axis]) + [1] * (len(shape) - axis))
+                tensor.update_dtype(numpy.float32 if self.stash_type == 1 else intensors[0].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         tshape = intensors[0].get_shape()
@@ -2534,10 +2539,14 @@ class QuantizeLinearNode(PWNode):
         super().__init__(node_proto)
         self.op_mac = MUL_MACS + ADD_MACS
         self.ratio = 1
+        self.add_default_value('output_dtype', 0)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_shape(intensors[0].get_shape())
-        outtensors[0].update_dtype(intensors[2].dtype)
+        if len(intensors) > 2:
+            outtensors[0].update_dtype(intensors[2].dtype)
+        else:
+            outtensors[0].update_dtype(onnxdtype2npdtype(self.output_dtype) if self.output_dtype else numpy.uint8)
 
 
 @NODE_REGISTRY.register()
@@ -2546,6 +2555,15 @@ class MatMulIntegerNode(GemmNode):
         super().shape_infer(intensors, outtensors)
         outtensors[0].update_dtype(numpy.int32)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        a, b = [t.get_numpy().astype(numpy.int32) for t in intensors[:2]]
+        if len(intensors) > 2:
+            zero_point = intensors[2].get_numpy().astype(numpy.int32)
+            a = a - (zero_point.reshape(-1, 1) if zero_point.ndim == 1 else zero_point)
+        if len(intensors) > 3:
+            b = b - intensors[3].get_numpy().astype(numpy.int32)
+        outtensors[0].update_tensor(numpy.matmul(a, b))
+
 
 @NODE_REGISTRY.register()
 class QLinearMatMulNode(GemmNode):
@@ -2572,6 +2590,9 @@ class QLinearMatMulNode(GemmNode):
         outtensors[0].update_shape(yshape)
         outtensors[0].update_dtype(intensors[-1].dtype)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        raise NotImplementedError(f'this Node {self.op_type}-{self.name} has no value_infer')
+
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         weight_shape = intensors[3].get_shape()
@@ -2611,7 +2632,10 @@ class QLinearConvNode(ConvNode):
                                         self.dilations[0])
                 shape = [xshape[0], wshape[0], oh]
         outtensors[0].update_shape(shape)
-        outtensors[0].update_dtype(intensors[-2].dtype)
+        outtensors[0].update_dtype(intensors[7].dtype)  # as y_zero_point
+
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        raise NotImplementedError(f'this Node {self.op_type}-{self.name} has no value_infer')
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         macs = 0
@@ -2662,6 +2686,9 @@ class ConvIntegerNode(ConvNode):
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(numpy.int32)
 
+    def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
+        raise NotImplementedError(f'this Node {self.op_type}-{self.name} has no value_infer')
+
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         macs = 0
         outshape = outtensors[0].get_shape()
@@ -2683,48 +2710,29 @@ class ConvIntegerNode(ConvNode):
 class ConvTransposeNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
-        self.add_default_value('pads', (0, 0, 0, 0))
+        self.add_default_value('auto_pad', None)
+        self.add_default_value('pads', (0, 0, 0, 0, 0, 0))
         self.add_default_value('output_padding', (0, 0, 0, 0))
-        self.add_default_value('strides', (1, 1))
-        self.add_default_value('dilations', (1, 1))
+        self.add_default_value('strides', (1, 1, 1))
+        self.add_default_value('dilations', (1, 1, 1))
         self.add_default_value('output_shape', (0, 0))
         self.add_default_value('group', 1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
-        shape = []
+        rank = len(xshape) - 2
         outc = self.group * wshape[1]
-        if len(xshape) == 5:
-            od = _convtranspose_output_shape(xshape[2], self.output_padding[0], self.pads[0] + self.pads[3], wshape[2],
-                                             self.strides[0],
-                                             self.dilations[0])
-            ow = _convtranspose_output_shape(xshape[3], self.output_padding[1], self.pads[1] + self.pads[4], wshape[3],
-                                             self.strides[1],
-                                             self.dilations[1])
-            oh = _convtranspose_output_shape(xshape[4], self.output_padding[2], self.pads[2] + self.pads[5], wshape[4],
-                                             self.strides[2],
-                                             self.dilations[2])
-            shape = [xshape[0], outc, od, ow, oh]
-            if volume(self.output_shape) != 0:
-                shape[2:] = self.output_shape
-        if len(xshape) == 4:
-            ow = _convtranspose_output_shape(xshape[2], self.output_padding[0], self.pads[0] + self.pads[2], wshape[2],
-                                             self.strides[0],
-                                             self.dilations[0])
-            oh = _convtranspose_output_shape(xshape[3], self.output_padding[1], self.pads[1] + self.pads[3], wshape[3],
-                                             self.strides[1],
-                                             self.dilations[1])
-            shape = [xshape[0], outc, ow, oh]
-            if volume(self.output_shape) != 0:
-                shape[2:] = self.output_shape
-        elif len(xshape) == 3:
-            ow = _convtranspose_output_shape(xshape[2], self.output_padding[0], self.pads[0] + self.pads[1], wshape[2],
-                                             self.strides[0],
-                                             self.dilations[0])
-            shape = [xshape[0], outc, ow]
-            if volume(self.output_shape) != 0:
-                shape[2] = self.output_shape[0]
+        shape = [xshape[0], outc]
+        for i in range(rank):
+            if self.auto_pad in [b'SAME_LOWER', b'SAME_UPPER']:
+                shape += [xshape[2 + i] * self.strides[i], ]
+                continue
+            pad = 0 if self.auto_pad == b'VALID' else self.pads[i] + self.pads[i + rank]
+            shape += [_convtranspose_output_shape(xshape[2 + i], self.output_padding[i], pad, wshape[2 + i],
+                                                  self.strides[i], self.dilations[i]), ]
+        if volume(self.output_shape) != 0:
+            shape[2:] = self.output_shape[-rank:]
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
@@ -2744,6 +2752,10 @@ class ConvTransposeNode(Node):
 
 @NODE_REGISTRY.register()
 class ReshapeNode(Node):
+    def __init__(self, nodeproto):
+        super().__init__(nodeproto)
+        self.add_default_value('allowzero', 0)
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         srcshape = intensors[0].get_shape()
         if not is_valid_ndarray(intensors[1].get_numpy()):
@@ -2753,7 +2765,7 @@ class ReshapeNode(Node):
         shape = intensors[1].get_numpy()
         newshape = []
         for i in range(len(shape)):
-            if shape[i] == 0:
+            if shape[i] == 0 and not self.allowzero:
                 newshape.append(int(srcshape[i]))
             else:
                 newshape.append(int(shape[i]))
@@ -2774,7 +2786,7 @@ class ReshapeNode(Node):
         xtensor = intensors[0].get_numpy()
         stensor = intensors[1].get_numpy()
         for i, v in enumerate(stensor):
-            if v == 0:
+            if v == 0 and not self.allowzero:
                 shape.append(xtensor.shape[i])
             else:
                 shape.append(v)
-- 
2.43.0


From d0c8cc308a2c744db330e1e0e75a9c922c17a26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:23 +0000
Subject: [PATCH 61/93] fix: resize axes and policies, zero-size split parts,
 batch-first recurrent layers

---
 onnx_tool/node.py | 96 +++++++++++++++++++++++++----------------------
 1 file changed, 52 insertions(+), 44 deletions(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 2d1abb3..31438d2 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -72,6 +72,18 @@ def _auto_pad_same_begin(auto_pad, x, ksize, stride, dilation):
     return total // 2 if auto_pad == b'SAME_UPPER' else total - total // 2
 
 
+def _recurrent_output_shapes(xshape, num_dir, h_len, layout, dtype, outtensors):
+    if layout:  # batch first
+        batch, seq_len = xshape[:2]
+        shapes = [[batch, seq_len, num_dir, h_len]] + [[batch, num_dir, h_len]] * 2
+    else:
+        seq_len, batch = xshape[:2]
+        shapes = [[seq_len, num_dir, batch, h_len]] + [[num_dir, batch, h_len]] * 2
+    for tensor, shape in zip(outtensors, shapes):
+        tensor.update_shape(shape)
+        tensor.update_dtype(dtype)
+
+
 def _axes_neg2pos(len, axes):
     newaxes = []
     for axis in axes:
@@ -739,7 +751,7 @@ class LeakyReluNode(PWNode):
 
 
 @NODE_REGISTRY.register()
-class SumNode(PWNode):
+class SumNode(NpMathBase):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
         self.op_mac = ADD_MACS
@@ -1385,34 +1397,41 @@ class ShapeNode(Node):
 
 @NODE_REGISTRY.register()
 class ResizeNode(Node):
+    def __init__(self, nodeproto):
+        super().__init__(nodeproto)
+        self.add_default_value('mode', b'nearest')
+        self.add_default_value('axes', None)
+        self.add_default_value('keep_aspect_ratio_policy', b'stretch')
+
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
-        roi = []
         sizes = []
         if len(intensors) == 2:
             scales = intensors[1].get_numpy()
         elif len(intensors) >= 3:
-            roi = intensors[1].get_numpy()
             scales = intensors[2].get_numpy()
             if len(intensors) >= 4:
                 sizes = intensors[3].get_numpy()
 
         newshape = []
+        axes = range(len(xshape)) if self.axes is None else _axes_neg2pos(len(xshape), self.axes)
         if is_valid_ndarray(sizes):
-            if len(sizes) == len(xshape):
-                newshape = sizes
-            if len(sizes) == 2:
-                newshape = xshape[:2] + sizes
-        else:
-            if is_valid_ndarray(scales):
-                newshape = []
-                for src, scale in zip(xshape, scales):
-                    newshape.append(math.floor(src * scale))
-
-        if is_valid_ndarray(newshape):
-            if newshape.dtype != numpy.int64:
-                newshape = newshape.astype(dtype=numpy.int64)
-        outtensors[0].update_shape(list(newshape))
+            newshape = list(xshape)
+            if len(sizes) == 2 and self.axes is None:
+                axes = (2, 3)
+            sizes = [int(size) for size in sizes]
+            if self.keep_aspect_ratio_policy != b'stretch':
+                ratios = [size / xshape[axis] for size, axis in zip(sizes, axes)]
+                scale = min(ratios) if self.keep_aspect_ratio_policy == b'not_larger' else max(ratios)
+                sizes = [math.floor(scale * xshape[axis] + 0.5) for axis in axes]
+            for size, axis in zip(sizes, axes):
+                newshape[axis] = size
+        elif is_valid_ndarray(scales):
+            newshape = list(xshape)
+            for scale, axis in zip(scales, axes):
+                newshape[axis] = math.floor(xshape[axis] * scale)
+
+        outtensors[0].update_shape(newshape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
@@ -2066,33 +2085,25 @@ class LSTMNode(Node):
         super().__init__(nodeproto)
         self.add_default_value('direction', None)
         self.add_default_value('hidden_size', None)
+        self.add_default_value('layout', 0)
         # TODO(Shinji) add activation types support in attributes
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
-        seq_len = xshape[0]
-        batch = xshape[1]
         num_dir = wshape[0]
         h_len = wshape[1] // 4
         if self.hidden_size is not None:
             assert (h_len == self.hidden_size)
-        outtensors[0].update_shape([seq_len, num_dir, batch, h_len])
-        outtensors[0].update_dtype(intensors[0].dtype)
-        if len(outtensors) > 1:
-            outtensors[1].update_shape([num_dir, batch, h_len])
-            outtensors[1].update_dtype(intensors[0].dtype)
-            if len(outtensors) > 2:
-                outtensors[2].update_shape([num_dir, batch, h_len])
-                outtensors[2].update_dtype(intensors[0].dtype)
+        _recurrent_output_shapes(xshape, num_dir, h_len, self.layout, intensors[0].dtype, outtensors)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
         rshape = intensors[2].get_shape()
-        bshape = intensors[3].get_shape()
-        seq = xshape[0]
-        batch = xshape[1]
+        bshape = intensors[3].get_shape() if len(intensors) > 3 else [0]
+        seq = xshape[1 if self.layout else 0]
+        batch = xshape[0 if self.layout else 1]
         num_dir = wshape[0]
         h_len = wshape[1] // 4
         if self.hidden_size is not None:
@@ -2817,26 +2828,25 @@ class GatherElementsNode(Node):
 
 @NODE_REGISTRY.register()
 class GRUNode(Node):
+    def __init__(self, nodeproto):
+        super().__init__(nodeproto)
+        self.add_default_value('layout', 0)
+
     # TODO(Shinji) add activation types support in attributes
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
-        seq_len = xshape[0]
-        batch = xshape[1]
         num_dir = wshape[0]
         h_len = wshape[1] // 3
-        outtensors[0].update_shape([seq_len, num_dir, batch, h_len])
-        outtensors[0].update_dtype(intensors[0].dtype)
-        outtensors[1].update_shape([num_dir, batch, h_len])
-        outtensors[1].update_dtype(intensors[0].dtype)
+        _recurrent_output_shapes(xshape, num_dir, h_len, self.layout, intensors[0].dtype, outtensors)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
         wshape = intensors[1].get_shape()
         rshape = intensors[2].get_shape()
-        bshape = intensors[3].get_shape()
-        batch = xshape[1]
-        seq = xshape[0]
+        bshape = intensors[3].get_shape() if len(intensors) > 3 else [0]
+        seq = xshape[1 if self.layout else 0]
+        batch = xshape[0 if self.layout else 1]
         h_len = wshape[1] // 3
         ht_size = volume([batch, seq, h_len])
         # r = sigmoid(Wr*X+Wr*Ht-1+br)
@@ -2993,11 +3003,9 @@ class SplitNode(Node):
             split = self.split
 
         axis = _axes_neg2pos(len(inshape), [self.axis])[0]
-        for v in split:
-            if end + v >= inshape[axis]:
-                break
-            splitpos.append(end + v)
-            end += v
+        for v in split[:-1]:
+            end = min(end + int(v), inshape[axis])
+            splitpos.append(end)
         ret = numpy.split(intensors[0].get_numpy(), splitpos, axis)
         for i, t in enumerate(ret):
             outtensors[i].update_tensor(t)
-- 
2.43.0


From 62c6975d7668e3a55c0e8f66947964d760edd37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:27 +0000
Subject: [PATCH 62/93] fix: Constant attributes, einsum ellipses, squeeze and
 top-k defaults, shape operands of reductions

---
 onnx_tool/graph.py |   8 ++-
 onnx_tool/node.py  | 166 ++++++++++++++++-----------------------------
 2 files changed, 63 insertions(+), 111 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index a9fd14c..31cfaf6 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -30,13 +30,17 @@ _SHAPE_TENSORS = {
     'Range': ('0,1,2of3',),
     'OneHot': ('1of3',),
     'TopK': ('1of2',),
-    'Pad': ('1of2', '1of3',),
+    'Pad': ('1of2', '1of3', '1,3of4'),
     'NonMaxSuppression': ('2of5', '2of4'),
     'Split': ('1of2',),
     'Unsqueeze': ('1of2',),
     'Squeeze': ('1of2',),
     'ReduceSum': ('1of2',),
-    'ReduceMean': ('1of2',)
+    'ReduceMean': ('1of2',),
+    'ReduceProd': ('1of2',),
+    'ReduceMin': ('1of2',),
+    'ReduceMax': ('1of2',),
+    'ReduceL2': ('1of2',)
 }
 
 
diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 31438d2..3dc8d83 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1078,10 +1078,15 @@ class Relu6Node(PWNode):
 class ConstantNode(Node):
     def __init__(self, n):
         super().__init__(n)
+        for att, dtype in (('value_int', numpy.int64), ('value_ints', numpy.int64),
+                           ('value_float', numpy.float32), ('value_floats', numpy.float32),
+                           ('value_string', object), ('value_strings', object)):
+            if not hasattr(self, 'value') and hasattr(self, att):
+                self.value = numpy.array(getattr(self, att), dtype=dtype)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        outtensors[0].update_shape(self.value.shape)
-        outtensors[0].update_dtype(self.value.dtype.type)
+        # consumers may need the value for their own shapes
+        outtensors[0].update_tensor(self.value)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         outtensors[0].update_tensor(self.value)
@@ -1111,8 +1116,8 @@ class GridSampleNode(Node):
         super().__init__(n)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        r = intensors[1].shape[-1]
-        out_shape = intensors[0].shape[:2] + intensors[1].shape[1:1 + r]
+        grid_shape = intensors[1].get_shape()
+        out_shape = intensors[0].get_shape()[:2] + grid_shape[1:-1]
         outtensors[0].update_shape(out_shape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
@@ -1227,92 +1232,42 @@ class EinsumNode(Node):
                 if ch != '.' and all_labels.count(ch) == 1:
                     if ch not in unique_labels:
                         unique_labels.append(ch)
-            self.output_label_str = ''.join(sorted(unique_labels))
-
-    def _has_ellipsis(self, label_str):
-        return '...' in label_str
-
-    def _get_non_ellipsis_labels(self, label_str):
-        """Get the labels after the ellipsis part."""
-        if '...' in label_str:
-            idx = label_str.index('...')
-            return label_str[idx + 3:]
-        return label_str
-
-    def _get_ellipsis_ndim(self, label_str, total_ndim):
-        """Compute how many dimensions the ellipsis covers."""
-        non_ellipsis = self._get_non_ellipsis_labels(label_str)
-        return total_ndim - len(non_ellipsis)
+            # the dimensions of an ellipsis come first
+            dots = '...' if '...' in all_labels else ''
+            self.output_label_str = dots + ''.join(sorted(unique_labels))
+
+    def _label_dims(self, intensors: List[Tensor]):
+        """Map every label to its size, '...' to the broadcast dimensions of the ellipsis."""
+        dims = {}
+        ellipsis = None
+        for labels, tensor in zip(self.input_labels, intensors):
+            shape = list(tensor.get_shape())
+            head, dots, tail = labels.partition('...')
+            covered = len(shape) - len(head) - len(tail)
+            pairs = list(zip(head, shape))
+            if dots:
+                part = shape[len(head):len(head) + covered]
+                ellipsis = numpy.broadcast_shapes(ellipsis or (), part)
+                pairs += list(zip(tail, shape[len(head) + covered:]))
+            for label, dim in pairs:
+                # a dimension of 1 broadcasts
+                if dims.get(label, 1) == 1:
+                    dims[label] = dim
+        return dims, ellipsis or []
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        shape = []
-        # Map from label character -> list of dimension values across inputs
-        label_to_dims = {}
-        ellipsis_dims_list = []  # list of (ndim, shape_slice) for each input with ellipsis
-
-        for idx, tensor in enumerate(intensors):
-            label_str = self.input_labels[idx]
-            tshape = tensor.get_shape()
-            if self._has_ellipsis(label_str):
-                non_ellipsis = self._get_non_ellipsis_labels(label_str)
-                ellipsis_ndim = len(tshape) - len(non_ellipsis)
-                # Record ellipsis dimensions for broadcasting
-                ellipsis_dims_list.append(tshape[:ellipsis_ndim])
-                offset = ellipsis_ndim
-            else:
-                non_ellipsis = label_str
-                offset = 0
-
-            for i, ch in enumerate(non_ellipsis):
-                if ch == '.':
-                    continue
-                dim_val = tshape[offset + i]
-                if ch not in label_to_dims:
-                    label_to_dims[ch] = []
-                label_to_dims[ch].append(dim_val)
-
-        # Compute broadcast shape for ellipsis dimensions
-        ellipsis_shape = []
-        if ellipsis_dims_list:
-            max_ndim = max(len(d) for d in ellipsis_dims_list)
-            # Pad shorter ellipsis shapes with 1s on the left (broadcast semantics)
-            padded_shapes = []
-            for d in ellipsis_dims_list:
-                if len(d) < max_ndim:
-                    padded_shapes.append([1] * (max_ndim - len(d)) + list(d))
-                else:
-                    padded_shapes.append(list(d))
-            for dims in zip(*padded_shapes):
-                ellipsis_shape.append(max(dims))
-
-        # Build output shape: first ellipsis dims, then output labels
-        shape.extend(ellipsis_shape)
-
-        # For each output label, take the max across all inputs (broadcast)
-        for ch in self.output_label_str:
-            if ch == '.':
-                continue
-            if ch in label_to_dims:
-                shape.append(max(label_to_dims[ch]))
-            else:
-                # Label not found in any input (shouldn't happen in valid equations)
-                shape.append(1)
-
+        dims, ellipsis = self._label_dims(intensors)
+        head, dots, tail = self.output_label_str.partition('...')
+        shape = [dims[label] for label in head]
+        if dots:
+            shape += list(ellipsis)
+        shape += [dims[label] for label in tail]
         outtensors[0].update_shape(shape)
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def _profile_core(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        macs = 1
-        map = {}
-        shape0 = intensors[0].get_shape()
-        shape1 = intensors[1].get_shape()
-        for i, v in enumerate(shape0):
-            map[self.input_labels[0].replace('.', '')[i]] = v
-        for i, v in enumerate(shape1):
-            map[self.input_labels[1].replace('.', '')[i]] = v
-        for key in map.keys():
-            macs *= map[key]
-        return macs
+        dims, ellipsis = self._label_dims(intensors)
+        return volume(list(dims.values()) + list(ellipsis))
 
 
 @NODE_REGISTRY.register()
@@ -1356,31 +1311,24 @@ class UnsqueezeNode(Node):
 class SqueezeNode(Node):
     def __init__(self, nodeproto):
         super().__init__(nodeproto)
-        self.add_default_value('axes', [0])
+        self.add_default_value('axes', None)
+
+    def get_axes(self, intensors: List[Tensor]):
+        inshape = intensors[0].get_shape()
+        axes = intensors[1].get_numpy() if len(intensors) == 2 else self.axes
+        if axes is None:
+            return [i for i, dim in enumerate(inshape) if dim == 1]
+        return _axes_neg2pos(len(inshape), axes)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         inshape = intensors[0].get_shape()
-        outshape = []
-        if len(intensors) == 2:
-            self.axes = intensors[1].get_numpy()
-        axes = _axes_neg2pos(len(inshape), self.axes)
-        for i in range(len(inshape)):
-            if i in axes:
-                continue
-            else:
-                outshape.append(inshape[i])
-        outtensors[0].update_shape(outshape)
+        axes = self.get_axes(intensors)
+        outtensors[0].update_shape([dim for i, dim in enumerate(inshape) if i not in axes])
         outtensors[0].update_dtype(intensors[0].dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        outtensor = intensors[0].get_numpy().copy()
-        idx = 0
-        if len(intensors) == 2:
-            self.axes = intensors[1].get_numpy()
-        for axis in self.axes:
-            outtensor = numpy.squeeze(outtensor, axis=axis - idx)
-            idx += 1
-        outtensors[0].update_tensor(outtensor)
+        axes = tuple(int(axis) for axis in self.get_axes(intensors))
+        outtensors[0].update_tensor(numpy.squeeze(intensors[0].get_numpy(), axis=axes).copy())
 
 
 @NODE_REGISTRY.register()
@@ -2008,14 +1956,11 @@ class ReduceMaxNode(ReduceMinNode):
 class TopKNode(Node):
     def __init__(self, node):
         super().__init__(node)
-        self.add_default_value('axis', None)
+        self.add_default_value('axis', -1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
-        k = intensors[1].get_numpy()[0]
-        # when the input tensor only contain 1 dimension, the axis attribute (default: 0) may not appear in the node
-        if len(xshape) == 1 and self.axis is None:
-            self.axis = 0
+        k = numpy.ravel(intensors[1].get_numpy())[0]
         axis = _axes_neg2pos(len(xshape), [self.axis])[0]
         newshape = []
         for i in range(len(xshape)):
@@ -2304,6 +2249,8 @@ class FloorNode(FusedBase):
 class RoiAlignNode(Node):
     def __init__(self, node):
         super().__init__(node)
+        self.add_default_value('output_height', 1)
+        self.add_default_value('output_width', 1)
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
@@ -2877,7 +2824,8 @@ class ConstantOfShapeNode(Node):
             outtensors[0].update_dtype(self.value.dtype)
 
     def value_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
-        arr = numpy.zeros(intensors[0].get_numpy(), dtype=self.value.dtype)
+        dtype = numpy.float32 if self.value is None else self.value.dtype
+        arr = numpy.zeros(intensors[0].get_numpy(), dtype=dtype)
         if self.value is not None and len(self.value) == 1:
             arr.fill(self.value[0])
         outtensors[0].update_tensor(arr)
-- 
2.43.0


From e02bc6c90bd235ddde6459f894b5e92f0b4017e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:41 +0000
Subject: [PATCH 63/93] fix: runtime kernels honour the norm type, the logit
 cap and the GELU form of the model

---
 inference/kernels.py | 10 +++++++---
 onnx_tool/llm.py     |  3 ++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/inference/kernels.py b/inference/kernels.py
index 4dba015..4a611e2 100644
--- a/inference/kernels.py
+++ b/inference/kernels.py
@@ -825,13 +825,14 @@ class MadKernel(Kernel):
 
 @KernelRegistry.register("Gelu")
 class GeluKernel(Kernel):
-    """Fused GELU activation: y = 0.5 * x * (1 + tanh(sqrt(2/pi) * (x + 0.044715 * x^3)))"""
+    """GELU activation: 0.5 * x * (1 + erf(x / sqrt(2))), or with approximate='tanh'
+    0.5 * x * (1 + tanh(sqrt(2/pi) * (x + 0.044715 * x^3)))"""
     op_type = "Gelu"
 
     @staticmethod
     def run(inputs, outputs, attrs):
         x = inputs[0]
-        outputs[0].copy_(F.gelu(x))
+        outputs[0].copy_(F.gelu(x, approximate=_attr_str(attrs, 'approximate', 'none')))
 
 
 @KernelRegistry.register("RangeGather")
@@ -884,7 +885,7 @@ class LayerNormKernel(Kernel):
         weight = inputs[1]
         bias = inputs[2] if len(inputs) > 2 else None
         eps = attrs.get('epsilon', 1e-5)
-        norm_type = attrs.get('type', 'layer')
+        norm_type = _attr_str(attrs, 'type', 'layer')
 
         axis = attrs.get('axis', -1)
         if axis not in (-1, x.dim() - 1):
@@ -1007,6 +1008,9 @@ class SDPAKernel(Kernel):
         # Scaled dot-product attention
         scale = head_dim ** 0.5
         attn = torch.matmul(q, k.transpose(-2, -1)) / scale
+        softcap = attrs.get('attn_logit_softcapping')
+        if softcap:
+            attn = torch.tanh(attn / softcap) * softcap
 
         # Causal mask: Q 的每个 token 只能看到 K 中 <= 自己位置的 token
         # 对于 KV-cache: Q 位置 [n_past, n_past+S), K 位置 [0, n_past+S)
diff --git a/onnx_tool/llm.py b/onnx_tool/llm.py
index 29d987d..f601746 100644
--- a/onnx_tool/llm.py
+++ b/onnx_tool/llm.py
@@ -316,7 +316,8 @@ class Builder():
         return o
 
     def add_act(self, inp, act, name):
-        nod = create_node(TmpNodeProto(name, ActMap[act], {}))
+        attrs = {'approximate': 'tanh'} if act == 'gelu_new' else {}
+        nod = create_node(TmpNodeProto(name, ActMap[act], attrs))
         nod.input = [inp.name]
         o = create_tensor(name + '.output', DYNAMIC_TENSOR, inp.get_shape(),
                           numpy.float32)
-- 
2.43.0


From 9ef0838b7e0095f2f213f61b350459e8454d86c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:42 +0000
Subject: [PATCH 64/93] fix: runtime refuses requests without n_past and never
 reads weights without data from the pool

---
 inference/infer.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/inference/infer.py b/inference/infer.py
index fbf27f5..594ae71 100644
--- a/inference/infer.py
+++ b/inference/infer.py
@@ -151,6 +151,11 @@ class GraphInfer:
         # 缓存常量 tensor（weight/bias 等），避免每次 forward 从 numpy 转换
         self._constant_tensors: Dict[str, torch.Tensor] = {}
         self._preload_constants()
+        # Builder 导出的 weight 在 graph input 中，但不是请求的输入：没有数据的 weight 不能读取 pool 中的内存，
+        # 缺少的 bias 视为不存在，缺少的其他 weight 由 kernel 报错
+        for tname in self._cg.input:
+            if tname not in input_desc:
+                self._tensor_views.pop(tname, None)
 
         # 动态输入缓存：不在 memory pool 中的输入（如 n_past scalar），
         # forward 时由用户传入并暂存于此，供 _resolve_tensor 查找
@@ -749,11 +754,16 @@ class GraphInfer:
     def _check_inputs(self, inputs: Dict[str, torch.Tensor]):
         """检查输入是否齐全、形状是否与 input_desc 一致。
 
-        只检查存放在 memory pool 中的输入；kv_cache 在 decode 时沿用 pool 中的内容，可以不传。
+        形状只检查存放在 memory pool 中的输入；kv_cache 在 decode 时沿用 pool 中的内容，可以不传。
+        不在 pool 中但被节点使用的输入（如 n_past）每次都必须传入，不能沿用上一次的值。
         """
         values = {}
         for input_name, desc in self.input_desc.items():
-            if input_name not in self._tensor_views or input_name not in self._cg.input:
+            if input_name not in self._cg.input:
+                continue
+            if input_name not in self._tensor_views:
+                if input_name not in inputs and self._cg.consumedby.get(input_name):
+                    raise ValueError(f"Missing input '{input_name}'")
                 continue
             if input_name not in inputs:
                 if input_name == 'kv_cache':
-- 
2.43.0


From 9319a0209b956b62f63bd94f4cd50d7a1e2be6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:43 +0000
Subject: [PATCH 65/93] fix: generation feeds only the model's inputs and stops
 at max_length

---
 inference/llm_infer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/inference/llm_infer.py b/inference/llm_infer.py
index 13f71cf..f9f23c7 100644
--- a/inference/llm_infer.py
+++ b/inference/llm_infer.py
@@ -201,6 +201,8 @@ class LLMInfer:
                     input_desc[name] = tuple(desc)
                     # 不 break，继续处理其他 input（如 position）
 
+        # weight 也可能出现在 ONNX 的 input 中，只有 input_desc 中的输入由 feed 提供
+        self.input_names = list(input_desc)
         print(f"Input desc: {input_desc}")
         print(f"Input range: {input_range}")
 
@@ -297,7 +299,7 @@ class LLMInfer:
         if verbose:
             print("Warmup done.\n")
 
-        for step in range(max_length - prompt_len + 1):
+        for step in range(max_length - prompt_len):
             if step == 0:
                 # Prefill: 输入所有 prompt tokens
                 step_input = torch.tensor([input_ids], device=device, dtype=torch.int64)
@@ -392,7 +394,7 @@ class LLMInfer:
         total_time = (time.perf_counter() - t_start) * 1000
         generated_text = self.tokenizer.decode(generated, skip_special_tokens=True)
 
-        if verbose:
+        if verbose and total_tokens:
             print(f"\n{total_tokens} tokens in {total_time:.1f}ms "
                   f"({total_time/total_tokens:.1f}ms/token)")
 
-- 
2.43.0


From 9dd06f788926ba89665dae84c374a2651fcbf79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:45 +0000
Subject: [PATCH 66/93] fix: SR window's background tasks take turns on the
 shared inference engine

---
 inference/sr_gui.py | 56 +++++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/inference/sr_gui.py b/inference/sr_gui.py
index 580415d..8b18863 100644
--- a/inference/sr_gui.py
+++ b/inference/sr_gui.py
@@ -131,6 +131,8 @@ class SREngine:
         self.dtype = dtype
         self.scale = self._detect_scale(onnx_path)
         self.engine = None
+        # 打开、批量、profile 在各自的线程里共用同一个 GraphInfer，其输出是 memory pool 的视图
+        self._lock = threading.Lock()
 
     @staticmethod
     def _detect_scale(onnx_path: str) -> int:
@@ -195,18 +197,42 @@ class SREngine:
 
         tensor = image_to_tensor(img, device=self.device, dtype=self.dtype)
 
-        t0 = time.perf_counter()
-        outputs = self.engine.forward({self.input_name: tensor}, debug=False)
-        if self.device == "xpu":
-            torch.xpu.synchronize()
-        elapsed = (time.perf_counter() - t0) * 1000
+        with self._lock:
+            t0 = time.perf_counter()
+            outputs = self.engine.forward({self.input_name: tensor}, debug=False)
+            if self.device == "xpu":
+                torch.xpu.synchronize()
+            elapsed = (time.perf_counter() - t0) * 1000
 
-        sr_tensor = outputs[self.output_name]
-        sr_img = tensor_to_image(sr_tensor)
+            sr_tensor = outputs[self.output_name]
+            sr_img = tensor_to_image(sr_tensor)
         sr_img = sr_img[:h * self.scale, :w * self.scale, :]
 
         return sr_img, elapsed
 
+    def profile(self, img: np.ndarray) -> str:
+        """对单张图像做 profile，返回文本"""
+        if self.engine is None:
+            raise RuntimeError("Engine not initialized.")
+
+        tensor = image_to_tensor(img, device=self.device, dtype=self.dtype)
+
+        with self._lock:
+            result = self.engine.forward({self.input_name: tensor}, debug=False, profile=True)
+            if self.device == "xpu":
+                torch.xpu.synchronize()
+
+            # 收集 profile 输出到字符串
+            import io
+            buf = io.StringIO()
+            old_stdout = sys.stdout
+            sys.stdout = buf
+            try:
+                self.engine.print_profile(result["__profile__"])
+            finally:
+                sys.stdout = old_stdout
+        return buf.getvalue()
+
     def process_bicubic(self, img: np.ndarray) -> np.ndarray:
         """用 bicubic 插值做对比 baseline"""
         h, w = img.shape[:2]
@@ -493,21 +519,7 @@ class SRApp:
 
         def task():
             try:
-                tensor = image_to_tensor(self.current_img, device=self.engine.device, dtype=self.engine.dtype)
-                result = self.engine.engine.forward({self.engine.input_name: tensor}, debug=False, profile=True)
-                if self.engine.device == "xpu":
-                    torch.xpu.synchronize()
-
-                # 收集 profile 输出到字符串
-                import io
-                buf = io.StringIO()
-                old_stdout = sys.stdout
-                sys.stdout = buf
-                try:
-                    self.engine.engine.print_profile(result["__profile__"])
-                finally:
-                    sys.stdout = old_stdout
-                profile_text = buf.getvalue()
+                profile_text = self.engine.profile(self.current_img)
 
                 # 弹出窗口显示
                 self.root.after(0, lambda: self._show_profile_window(profile_text))
-- 
2.43.0


From 6f0842ead8f43471556b4cee9eed285649ad59a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:22 +0000
Subject: [PATCH 67/93] fix: SR window reports failed actions instead of losing
 the error

---
 inference/sr_gui.py | 54 +++++++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/inference/sr_gui.py b/inference/sr_gui.py
index 8b18863..0cb0d27 100644
--- a/inference/sr_gui.py
+++ b/inference/sr_gui.py
@@ -346,6 +346,11 @@ class SRApp:
         self._status_var.set(text)
         self.root.update_idletasks()
 
+    def _report_error(self, what: str, e: Exception):
+        """在窗口中报告失败的操作"""
+        self._update_status(f"{what}: {e}")
+        messagebox.showerror("Error", f"{what}: {e}")
+
     def _update_info(self):
         if self.current_img is None:
             self._info_var.set("No image loaded.")
@@ -373,8 +378,14 @@ class SRApp:
         if not path:
             return
 
+        try:
+            img = imread(path)
+        except Exception as e:
+            self._report_error("Open error", e)
+            return
+
         self.current_path = path
-        self.current_img = imread(path)
+        self.current_img = img
         self._update_info()
         self._update_display()
         self._update_status(f"Loaded: {os.path.basename(path)} ({self.current_img.shape[1]}x{self.current_img.shape[0]})")
@@ -402,7 +413,7 @@ class SRApp:
                 self.root.after(0, lambda: self._update_status(
                     f"Done: {w}x{h} -> {w * self.engine.scale}x{h * self.engine.scale}  ({elapsed:.1f} ms)"))
             except Exception as e:
-                self.root.after(0, lambda: self._update_status(f"Error: {e}"))
+                self.root.after(0, lambda msg=f"Error: {e}": self._update_status(msg))
                 import traceback
                 traceback.print_exc()
 
@@ -415,7 +426,11 @@ class SRApp:
             return
 
         out_dir = os.path.join(folder, "sr_output")
-        os.makedirs(out_dir, exist_ok=True)
+        try:
+            os.makedirs(out_dir, exist_ok=True)
+        except OSError as e:
+            self._report_error("Batch error", e)
+            return
 
         extensions = ("*.png", "*.jpg", "*.jpeg", "*.bmp", "*.tiff", "*.webp")
         files = []
@@ -455,7 +470,7 @@ class SRApp:
                 self.root.after(0, lambda: self._update_status(msg))
                 self.root.after(0, lambda: messagebox.showinfo("Batch Complete", msg))
             except Exception as e:
-                self.root.after(0, lambda: self._update_status(f"Batch error: {e}"))
+                self.root.after(0, lambda msg=f"Batch error: {e}": self._update_status(msg))
                 import traceback
                 traceback.print_exc()
 
@@ -481,15 +496,18 @@ class SRApp:
         if not path:
             return
 
-        imwrite(path, self.current_sr)
-        self._update_status(f"Saved: {path}")
-
-        # 同时保存对比图
-        if self.current_bicubic is not None:
-            base = os.path.splitext(path)[0]
-            grid = make_comparison_grid(self.current_img, self.current_sr, self.current_bicubic)
-            grid_path = f"{base}_compare.png"
-            imwrite(grid_path, grid)
+        try:
+            imwrite(path, self.current_sr)
+            self._update_status(f"Saved: {path}")
+
+            # 同时保存对比图
+            if self.current_bicubic is not None:
+                base = os.path.splitext(path)[0]
+                grid = make_comparison_grid(self.current_img, self.current_sr, self.current_bicubic)
+                grid_path = f"{base}_compare.png"
+                imwrite(grid_path, grid)
+        except Exception as e:
+            self._report_error("Save error", e)
 
     def _on_compare(self):
         """显示对比图（用系统图片查看器打开）"""
@@ -500,9 +518,13 @@ class SRApp:
             messagebox.showinfo("Info", "Bicubic result not available.")
             return
 
-        grid = make_comparison_grid(self.current_img, self.current_sr, self.current_bicubic)
         tmp_path = "_compare_temp.png"
-        imwrite(tmp_path, grid)
+        try:
+            grid = make_comparison_grid(self.current_img, self.current_sr, self.current_bicubic)
+            imwrite(tmp_path, grid)
+        except Exception as e:
+            self._report_error("Comparison error", e)
+            return
         self._update_status(f"Comparison saved: {os.path.abspath(tmp_path)}")
         try:
             os.startfile(tmp_path)
@@ -525,7 +547,7 @@ class SRApp:
                 self.root.after(0, lambda: self._show_profile_window(profile_text))
                 self.root.after(0, lambda: self._update_status("Profile done."))
             except Exception as e:
-                self.root.after(0, lambda: self._update_status(f"Profile error: {e}"))
+                self.root.after(0, lambda msg=f"Profile error: {e}": self._update_status(msg))
 
         threading.Thread(target=task, daemon=True).start()
 
-- 
2.43.0


From e09718a5dbab782db02bdc32923ff476bdc5619c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:23 +0000
Subject: [PATCH 68/93] fix: SR window pairs every result with the image it was
 computed from

---
 inference/sr_gui.py | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/inference/sr_gui.py b/inference/sr_gui.py
index 0cb0d27..7f9dcfd 100644
--- a/inference/sr_gui.py
+++ b/inference/sr_gui.py
@@ -330,7 +330,9 @@ class SRApp:
                 self._orig_canvas.create_image(x, y, anchor=tk.NW, image=self._orig_photo)
 
         # 超分结果画布
-        if self.current_sr is not None:
+        if self.current_sr is None:
+            self._sr_canvas.delete("all")
+        else:
             cw = self._sr_canvas.winfo_width()
             ch = self._sr_canvas.winfo_height()
             if cw > 10 and ch > 10:
@@ -386,6 +388,8 @@ class SRApp:
 
         self.current_path = path
         self.current_img = img
+        self.current_sr = None
+        self.current_bicubic = None
         self._update_info()
         self._update_display()
         self._update_status(f"Loaded: {os.path.basename(path)} ({self.current_img.shape[1]}x{self.current_img.shape[0]})")
@@ -395,23 +399,30 @@ class SRApp:
 
     def _process_in_thread(self):
         """在后台线程中执行超分推理"""
-        if self.current_img is None:
+        img = self.current_img
+        if img is None:
             return
 
+        def show(sr_img, bicubic, elapsed):
+            if self.current_img is not img:
+                return  # 期间已打开另一张图像
+            self.current_sr = sr_img
+            self.current_bicubic = bicubic
+            self._update_info()
+            self._update_display()
+            h, w = img.shape[:2]
+            self._update_status(
+                f"Done: {w}x{h} -> {w * self.engine.scale}x{h * self.engine.scale}  ({elapsed:.1f} ms)")
+
         def task():
             try:
                 self._update_status("Processing (bicubic)...")
-                self.current_bicubic = self.engine.process_bicubic(self.current_img)
+                bicubic = self.engine.process_bicubic(img)
 
                 self._update_status("Processing (GraphInfer SR)...")
-                sr_img, elapsed = self.engine.process(self.current_img)
-                self.current_sr = sr_img
-
-                h, w = self.current_img.shape[:2]
-                self.root.after(0, self._update_info)
-                self.root.after(0, self._update_display)
-                self.root.after(0, lambda: self._update_status(
-                    f"Done: {w}x{h} -> {w * self.engine.scale}x{h * self.engine.scale}  ({elapsed:.1f} ms)"))
+                sr_img, elapsed = self.engine.process(img)
+
+                self.root.after(0, lambda: show(sr_img, bicubic, elapsed))
             except Exception as e:
                 self.root.after(0, lambda msg=f"Error: {e}": self._update_status(msg))
                 import traceback
@@ -482,6 +493,8 @@ class SRApp:
             messagebox.showinfo("Info", "No result to save. Open an image first.")
             return
 
+        # 对话框打开期间当前图像可能改变
+        img, sr_img, bicubic = self.current_img, self.current_sr, self.current_bicubic
         default_name = "sr_result.png"
         if self.current_path:
             base = os.path.splitext(os.path.basename(self.current_path))[0]
@@ -497,13 +510,13 @@ class SRApp:
             return
 
         try:
-            imwrite(path, self.current_sr)
+            imwrite(path, sr_img)
             self._update_status(f"Saved: {path}")
 
             # 同时保存对比图
-            if self.current_bicubic is not None:
+            if bicubic is not None:
                 base = os.path.splitext(path)[0]
-                grid = make_comparison_grid(self.current_img, self.current_sr, self.current_bicubic)
+                grid = make_comparison_grid(img, sr_img, bicubic)
                 grid_path = f"{base}_compare.png"
                 imwrite(grid_path, grid)
         except Exception as e:
@@ -538,10 +551,11 @@ class SRApp:
             return
 
         self._update_status("Profiling...")
+        img = self.current_img
 
         def task():
             try:
-                profile_text = self.engine.profile(self.current_img)
+                profile_text = self.engine.profile(img)
 
                 # 弹出窗口显示
                 self.root.after(0, lambda: self._show_profile_window(profile_text))
-- 
2.43.0


From 8c1ef08efd844bbc7f5f5ad613a03c7e967e20fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:24 +0000
Subject: [PATCH 69/93] fix: SR batch finds the images of folders whose name
 contains brackets

---
 inference/sr_gui.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inference/sr_gui.py b/inference/sr_gui.py
index 7f9dcfd..d3dc40e 100644
--- a/inference/sr_gui.py
+++ b/inference/sr_gui.py
@@ -446,8 +446,8 @@ class SRApp:
         extensions = ("*.png", "*.jpg", "*.jpeg", "*.bmp", "*.tiff", "*.webp")
         files = []
         for ext in extensions:
-            files.extend(glob.glob(os.path.join(folder, ext)))
-            files.extend(glob.glob(os.path.join(folder, ext.upper())))
+            files.extend(glob.glob(os.path.join(glob.escape(folder), ext)))
+            files.extend(glob.glob(os.path.join(glob.escape(folder), ext.upper())))
         files.sort()
 
         if not files:
-- 
2.43.0


From 4edb6112bb9a86dd6b8df32214af6bbce11c22a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:25 +0000
Subject: [PATCH 70/93] fix: SR batch writes one result per image when images
 differ only in extension

---
 inference/sr_gui.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/inference/sr_gui.py b/inference/sr_gui.py
index d3dc40e..8ea191a 100644
--- a/inference/sr_gui.py
+++ b/inference/sr_gui.py
@@ -454,6 +454,16 @@ class SRApp:
             messagebox.showinfo("Info", f"No image files found in {folder}")
             return
 
+        # 主文件名相同的图像（a.png 与 a.jpg）不能写到同一个输出文件
+        names = []
+        for fpath in files:
+            name, ext = os.path.splitext(os.path.basename(fpath))
+            if sum(os.path.splitext(os.path.basename(f))[0] == name for f in files) > 1:
+                name = f"{name}_{ext[1:]}"
+            while name in names:
+                name += "_"
+            names.append(name)
+
         self._update_status(f"Batch processing {len(files)} images...")
 
         def task():
@@ -461,7 +471,7 @@ class SRApp:
                 total_time = 0.0
                 for i, fpath in enumerate(files):
                     fname = os.path.basename(fpath)
-                    name_no_ext = os.path.splitext(fname)[0]
+                    name_no_ext = names[i]
                     self.root.after(0, lambda msg=f"  [{i+1}/{len(files)}] {fname}": self._update_status(msg))
 
                     img = imread(fpath)
-- 
2.43.0


From e6a5cb60f06f506a286326c50376ddc8dd132038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:26 +0000
Subject: [PATCH 71/93] fix: SR window warms up and pads within the size it was
 started with

---
 inference/sr_gui.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/inference/sr_gui.py b/inference/sr_gui.py
index 8ea191a..de5b6da 100644
--- a/inference/sr_gui.py
+++ b/inference/sr_gui.py
@@ -158,6 +158,9 @@ class SREngine:
         self.output_name = output_name
 
         input_desc = {input_name: (1, 3, "height", "width")}
+        # process() 会把图像补齐到 4 的倍数
+        max_height += (4 - max_height % 4) % 4
+        max_width += (4 - max_width % 4) % 4
         input_range = {
             "height": (1, max_height),
             "width": (1, max_width),
@@ -628,15 +631,16 @@ def main():
         sys.exit(1)
 
     # ---- 初始化引擎 ----
+    max_width = int(args.max_size * 16 / 9)
     engine = SREngine(args.onnx_path, device=device, dtype=dtype)
     print(f"Initializing GraphInfer (max {args.max_size}, scale={engine.scale}x)...")
-    init_time = engine.initialize(max_height=args.max_size, max_width=int(args.max_size * 16 / 9))
+    init_time = engine.initialize(max_height=args.max_size, max_width=max_width)
     engine.engine.print_summary()
     print(f"Init time: {init_time:.2f}s")
 
     if not args.no_warmup:
         print("Warming up...")
-        engine.warmup(height=360, width=640, iters=2)
+        engine.warmup(height=min(360, args.max_size), width=min(640, max_width), iters=2)
         print("Warmup done.")
 
     # ---- 启动 GUI ----
-- 
2.43.0


From 626825966e7b0c1e0d4d5ac7120646508fea4d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:01 +0000
Subject: [PATCH 72/93] fix: if_fixed_branch and fixed_topk inline branches in
 place, keep their weights and outputs, and keep nodes that are still needed

---
 onnx_tool/graph.py | 177 +++++++++++++++++++++++++++------------------
 1 file changed, 106 insertions(+), 71 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 31cfaf6..a9b8b1b 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -343,86 +343,121 @@ class Graph():
         self.dynamics = [name for name in self.input if name not in self.producedby] + list(self.producedby.keys())
 
     def __remove_if__(self):
+        selected_branch = 'else_branch' if self.cfg.if_fixed_branch == 'else' else 'then_branch'
         while True:
-            prekeys = list(self.nodemap.keys())
-            remove_list = []
-            selected_branch = 'else_branch' if self.cfg.if_fixed_branch == 'else' else 'then_branch'
-            for n in prekeys:
-                node = self.nodemap[n]
-                if node.op_type == 'If':
-                    # remove condition node chain
-                    sub_input = []
-                    for node_proto in node.attr[selected_branch].node:
-                        for ipn in node_proto.input:
-                            sub_input.append(ipn)
-                    node_list = [node.name]
-                    while len(node_list):
-                        remove = True
-                        sname = node_list.pop(0)
-                        snode = self.nodemap[sname]
-                        for ipn in snode.input:
-                            if len(self.consumedby[ipn]) == 1 and ipn not in sub_input:  # consumed by this node
-                                if ipn in self.producedby.keys():
-                                    node_list.append(self.producedby[ipn][0])
-                            self.consumedby[ipn].remove(sname)
-                        if remove:
-                            remove_list.append(sname)
-                    # add branch node
-                    names = []
-                    for node_proto in node.attr[selected_branch].node:
-                        names.append(self.__add_node_from_proto__(node_proto))
-
-                    # revise output name
-                    preoutput = node.attr[selected_branch].output[0].name
-                    newoutput = node.output[0]
-                    for newname in names:
-                        newnode = self.nodemap[newname]
-                        for tensor in newnode.input:
-                            if tensor not in self.tensormap.keys():
-                                self.tensormap[tensor] = Tensor(tensor)
-                        for tensor in newnode.output:
-                            if tensor not in self.tensormap.keys():
-                                self.tensormap[tensor] = Tensor(tensor)
-                            if tensor in self.consumedby:
-                                for consumer in self.consumedby[tensor]:
-                                    self.nodemap[newnode.name].nextnodes.append(self.nodemap[consumer])
-                        for i, v in enumerate(newnode.output):
-                            if v == preoutput:
-                                newnode.output[i] = newoutput
-                                self.producedby[newoutput].append(newname)
-            if len(remove_list)==0:
+            ifnodes = [name for name in self.nodemap if self.nodemap[name].op_type == 'If']
+            if len(ifnodes) == 0:
                 break
-            for n in remove_list:
-                self.remove_node(n)
+            for name in ifnodes:
+                if name in self.nodemap:  # may be already removed with a condition
+                    self.__inline_branch__(name, self.nodemap[name].attr[selected_branch])
+
+    def __inline_branch__(self, ifname, branch):
+        ifnode = self.nodemap[ifname]
+        inputs = [i.name for i in self.rawgraph.input]
+        initials = [i.name for i in self.rawgraph.initializer] + self.initials
+        inner = [i.name for i in branch.initializer]
+        for proto in branch.node:
+            inner.extend(proto.output)
+        # branches of different nodes may use the same tensor names
+        rename = {}
+        for name in inner:
+            if name in self.producedby or name in initials or name in inputs:
+                rename[name] = ifname + '/' + name
+        protos = [copy.deepcopy(proto) for proto in branch.node]
+        identities = []
+        for boutput, output in zip(branch.output, ifnode.output):
+            if boutput.name in inner and boutput.name not in [i.name for i in branch.initializer] \
+                    and rename.get(boutput.name) not in ifnode.output:
+                rename[boutput.name] = output
+            else:  # a weight, a tensor of the graph or the same tensor again
+                identities.append((boutput.name, output))
+
+        def rename_tensors(proto):
+            proto.input[:] = [rename.get(name, name) for name in proto.input]
+            proto.output[:] = [rename.get(name, name) for name in proto.output]
+            for attribute in proto.attribute:
+                for graph in [attribute.g] + list(attribute.graphs):
+                    for node in graph.node:
+                        rename_tensors(node)
+                    for output in graph.output:
+                        output.name = rename.get(output.name, output.name)
+
+        for initial in branch.initializer:
+            name = rename.get(initial.name, initial.name)
+            tensor = Tensor(initial)
+            tensor.name = name
+            self.tensormap[name] = tensor
+            self.initials.append(name)
+        names = []
+        for tensor in ifnode.output:
+            self.producedby[tensor].remove(ifname)
+        for proto in protos:
+            rename_tensors(proto)
+        protos.extend(onnx.helper.make_node('Identity', [rename.get(src, src)], [dst]) for src, dst in identities)
+        for proto in protos:
+            names.append(self.__add_node_from_proto__(proto))
+        for name in names:
+            for tensor in list(self.nodemap[name].input) + list(self.nodemap[name].output):
+                if tensor not in self.tensormap.keys():
+                    self.tensormap[tensor] = Tensor(tensor)
+            for tensor in self.nodemap[name].output:
+                for consumer in self.consumedby.get(tensor, []):
+                    self.nodemap[name].nextnodes.append(self.nodemap[consumer])
+        # the branch takes the place of the node
+        order = []
+        for name in self.nodemap:
+            if name == ifname:
+                order.extend(names)
+            elif name not in names:
+                order.append(name)
+        ifnode.output = []
+        condition = list(ifnode.input)
+        self.remove_node(ifname)
+        self.nodemap = {name: self.nodemap[name] for name in order}
+
+        # remove condition node chain
+        self.__remove_unused_producers__(condition)
+
+    def __remove_unused_producers__(self, tensors):
+        # remove the nodes that computed the tensors, as far as nothing else needs them
+        def subgraph_inputs(graph):
+            used = [output.name for output in graph.output]
+            for node in graph.node:
+                used.extend(node.input)
+                for attribute in node.attribute:
+                    for subgraph in [attribute.g] + list(attribute.graphs):
+                        used.extend(subgraph_inputs(subgraph))
+            return used
+
+        captured = set()
+        for node in self.nodemap.values():
+            for val in node.attr.values():
+                for graph in val if isinstance(val, (list, tuple)) else [val]:
+                    if isinstance(graph, onnx.GraphProto):
+                        captured.update(subgraph_inputs(graph))
+        tensors = list(tensors)
+        while len(tensors):
+            for producer in list(self.producedby.get(tensors.pop(0), [])):
+                node = self.nodemap[producer]
+                if not any(o in self.output or o in captured or len(self.consumedby.get(o, [])) > 0 for o in node.output):
+                    tensors.extend(node.input)
+                    self.remove_node(producer)
 
     def __set_fixed_topk(self, fixed_k):
-        prekeys = list(self.nodemap.keys())
         fixed_k_tensor_name = 'constant_fixed_topk_k'
-        remove_list = []
-        topk_node = 0
-        for n in prekeys:
+        ktensors = []
+        for n in self.nodemap.keys():
             node = self.nodemap[n]
-            if node.op_type == 'TopK':
-                # remove condition node chain
-                node_list = []
+            if node.op_type == 'TopK' and len(node.input) > 1:
                 ktensor = node.input[1]
-                if len(self.consumedby[ktensor]) == 1:
-                    node_list = [self.producedby[ktensor][0]]
-                while len(node_list):
-                    remove = True
-                    sname = node_list.pop(0)
-                    snode = self.nodemap[sname]
-                    for ipn in snode.input:
-                        if len(self.consumedby[ipn]) == 1:  # consumed by this node
-                            node_list.append(self.producedby[ipn][0])
-                    if remove:
-                        remove_list.append(sname)
-                topk_node += 1
                 node.input[1] = fixed_k_tensor_name
-        if topk_node > 0:
+                self.consumedby[ktensor].remove(n)
+                self.consumedby.setdefault(fixed_k_tensor_name, []).append(n)
+                ktensors.append(ktensor)
+        if len(ktensors) > 0:
             self.add_initial(fixed_k_tensor_name, numpy.array([fixed_k]))
-        for n in remove_list:
-            self.remove_node(n)
+        self.__remove_unused_producers__(ktensors)
 
     def __add_node_from_proto__(self, node_proto):
         newnode = create_node(node_proto)
-- 
2.43.0


From 4468df2960d947003632d8dd4e973ebc8a774009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:26 +0000
Subject: [PATCH 73/93] fix: saving a model leaves an unknown dim unknown
 instead of writing -1

---
 onnx_tool/tensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index b88f32c..34911d1 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -491,6 +491,8 @@ class Tensor():
             dtype = npdtype2onnxdtype(self.numpy.dtype.type)
         if self.name == '':
             return None
+        if shape is not None:  # the placeholder of an unknown dim
+            shape = [None if not isinstance(s, str) and s < 0 else s for s in shape]
         # shape = [int(i) for i in shape]
         vinf = onnx.helper.make_tensor_value_info(self.name, dtype, shape)
         return vinf
-- 
2.43.0


From d89e9f39717c3f5a2be72163457c4556bc53720e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:07 +0000
Subject: [PATCH 74/93] fix: average precision includes the recall that is
 reached exactly

---
 inference/yolo_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inference/yolo_eval.py b/inference/yolo_eval.py
index 6010959..b88bb28 100644
--- a/inference/yolo_eval.py
+++ b/inference/yolo_eval.py
@@ -323,7 +323,7 @@ def _compute_ap(recalls: np.ndarray, precisions: np.ndarray) -> float:
     # 在 101 个 recall 点采样
     ap = 0.0
     for t in np.linspace(0, 1, 101):
-        idx = np.searchsorted(recalls, t, side='right')
+        idx = np.searchsorted(recalls, t, side='left')
         if idx < len(precisions):
             ap += precisions[idx]
     return ap / 101.0
-- 
2.43.0


From 3656acbc9dae95489b2566270a480bd857236920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:29 +0000
Subject: [PATCH 75/93] fix: detections are compared with annotations in the
 coordinates of the picture

---
 inference/yolo_eval.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/inference/yolo_eval.py b/inference/yolo_eval.py
index b88bb28..6357787 100644
--- a/inference/yolo_eval.py
+++ b/inference/yolo_eval.py
@@ -573,6 +573,13 @@ def load_image(image_path: str, target_size: Tuple[int, int] = (640, 640)) -> Tu
         return img[np.newaxis, ...], letterbox_info
 
 
+def unletterbox(boxes: np.ndarray, lb_info: Tuple[float, float, float]) -> np.ndarray:
+    """将 letterbox 坐标的 xyxy 框逆映射回原始分辨率"""
+    pad_left, pad_top, scale = lb_info
+    offset = np.array([pad_left, pad_top, pad_left, pad_top], dtype=np.float64)
+    return (boxes - offset) / scale
+
+
 # ===========================================================================
 # 主评估流程
 # ===========================================================================
@@ -698,7 +705,8 @@ class YOLOEvaluator:
 
             all_dets.append({
                 'image_id': image_id,
-                'boxes': dets[:, 1:5] if len(dets) > 0 else np.zeros((0, 4)),
+                # GT 标注使用原始分辨率坐标
+                'boxes': unletterbox(dets[:, 1:5], lb_info),
                 'scores': dets[:, 6] if len(dets) > 0 else np.zeros(0),
                 'labels': dets[:, 5] if len(dets) > 0 else np.zeros(0),
             })
@@ -782,7 +790,8 @@ class YOLOEvaluator:
             all_dets.append({
                 'image_id': idx,
                 'file_name': file_name,
-                'boxes': dets[:, 1:5] if len(dets) > 0 else np.zeros((0, 4)),
+                # GT 标注使用原始分辨率坐标
+                'boxes': unletterbox(dets[:, 1:5], lb_info),
                 'scores': dets[:, 6] if len(dets) > 0 else np.zeros(0),
                 'labels': dets[:, 5] if len(dets) > 0 else np.zeros(0),
             })
@@ -851,12 +860,8 @@ class YOLOEvaluator:
         scaled_dets = dets.copy()
         if len(scaled_dets) > 0:
             if lb_info is not None:
-                pad_left, pad_top, scale = lb_info
                 # 逆 letterbox: (coord - pad) / scale
-                scaled_dets[:, 1] = (scaled_dets[:, 1] - pad_left) / scale
-                scaled_dets[:, 2] = (scaled_dets[:, 2] - pad_top) / scale
-                scaled_dets[:, 3] = (scaled_dets[:, 3] - pad_left) / scale
-                scaled_dets[:, 4] = (scaled_dets[:, 4] - pad_top) / scale
+                scaled_dets[:, 1:5] = unletterbox(scaled_dets[:, 1:5], lb_info)
             else:
                 # Fallback: 简单 resize 缩放
                 H_input, W_input = self.input_size
@@ -911,7 +916,7 @@ def export_pr_curve(
         image_path = os.path.join(image_dir, file_name)
         if not os.path.isfile(image_path):
             continue
-        img, _ = load_image(image_path, evaluator.input_size)
+        img, lb_info = load_image(image_path, evaluator.input_size)
         output = evaluator.infer_single(img)
 
         if output.ndim == 3:
@@ -920,7 +925,7 @@ def export_pr_curve(
         for det in output:
             all_preds.append({
                 'image_id': img_info['id'],
-                'box': det[:4].tolist(),
+                'box': unletterbox(det[:4], lb_info).tolist(),
                 'score': float(det[4]),
                 'cls': int(det[5]),
             })
-- 
2.43.0


From 1218fd7e8f958c2438996fd95bfc36493c56e4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:07 +0000
Subject: [PATCH 76/93] fix: category numbers of an annotation file need not be
 the class indices of the model

---
 inference/yolo_eval.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/inference/yolo_eval.py b/inference/yolo_eval.py
index 6357787..ed04c4b 100644
--- a/inference/yolo_eval.py
+++ b/inference/yolo_eval.py
@@ -187,6 +187,14 @@ def _box_iou(boxes1: np.ndarray, boxes2: np.ndarray) -> np.ndarray:
 # COCO 评估指标
 # ===========================================================================
 
+def _class_indices(categories: Optional[List[Dict]]):
+    """返回 category_id -> 模型类别下标 的映射函数"""
+    if not categories:
+        return lambda category_id: category_id
+    index = {cid: i for i, cid in enumerate(sorted(cat['id'] for cat in categories))}
+    return lambda category_id: index.get(category_id, -1)
+
+
 def compute_coco_metrics(
     all_dets: List[Dict],
     gt_annotations: Dict,
@@ -214,6 +222,9 @@ def compute_coco_metrics(
     for ann in gt_annotations['annotations']:
         gt_by_image[ann['image_id']].append(ann)
 
+    # 模型的类别下标 i 对应 id 第 i 小的类别（COCO 的类别 id 不连续）
+    class_of = _class_indices(gt_annotations.get('categories'))
+
     # 按类别组织预测
     preds_by_class = defaultdict(list)  # class_id -> [(image_id, score, box, matched)]
     for det in all_dets:
@@ -239,7 +250,7 @@ def compute_coco_metrics(
         for cls_id in range(num_classes):
             preds = preds_by_class.get(cls_id, [])
             if not preds and not any(
-                ann['category_id'] == cls_id
+                class_of(ann['category_id']) == cls_id
                 for anns in gt_by_image.values()
                 for ann in anns
             ):
@@ -256,7 +267,7 @@ def compute_coco_metrics(
                 gt_boxes = []
                 gt_indices = []
                 for j, ann in enumerate(gt_anns):
-                    if ann['category_id'] == cls_id and j not in gt_matched[image_id]:
+                    if class_of(ann['category_id']) == cls_id and j not in gt_matched[image_id]:
                         gt_boxes.append(ann['bbox'])  # COCO bbox: [x, y, w, h]
                         gt_indices.append(j)
 
@@ -287,7 +298,7 @@ def compute_coco_metrics(
             # 总 GT 数
             total_gt = sum(
                 1 for anns in gt_by_image.values()
-                for ann in anns if ann['category_id'] == cls_id
+                for ann in anns if class_of(ann['category_id']) == cls_id
             )
 
             if total_gt == 0:
@@ -419,7 +430,10 @@ def draw_detections(
         cv2.rectangle(img, (x1, y1), (x2, y2), color, line_width)
 
         # 标签文字
-        cls_name = get_class_name(cls_id, categories)
+        if categories and cls_id < len(categories):
+            cls_name = sorted(categories, key=lambda cat: cat['id'])[cls_id]['name']
+        else:
+            cls_name = get_class_name(cls_id)
         label = f'{cls_name} {conf:.2f}'
         (tw, th), baseline = cv2.getTextSize(label, cv2.FONT_HERSHEY_SIMPLEX, font_scale, 1)
 
@@ -674,7 +688,7 @@ class YOLOEvaluator:
 
         all_dets = []
         total_time = 0.0
-        num_classes = len(gt.get('categories', []))
+        num_classes = len(gt.get('categories', [])) or len(COCO_CLASSES)
 
         print(f"\nEvaluating {len(images)} images...")
         print(f"Image dir: {image_dir}")
@@ -824,7 +838,7 @@ class YOLOEvaluator:
         # 如果有标注文件，计算 mAP
         if anno_file and os.path.isfile(anno_file):
             gt = load_coco_annotations(anno_file)
-            num_classes = len(gt.get('categories', []))
+            num_classes = len(gt.get('categories', [])) or len(COCO_CLASSES)
             coco_metrics = compute_coco_metrics(all_dets, gt, num_classes=num_classes)
             metrics.update(coco_metrics)
 
-- 
2.43.0


From 67a9d6681d4a6395efedf22874b403779ed408a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:08 +0000
Subject: [PATCH 77/93] fix: pictures of a folder are matched with their
 annotations by file name

---
 inference/yolo_eval.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/inference/yolo_eval.py b/inference/yolo_eval.py
index ed04c4b..35190e8 100644
--- a/inference/yolo_eval.py
+++ b/inference/yolo_eval.py
@@ -784,6 +784,11 @@ class YOLOEvaluator:
 
         all_dets = []
         total_time = 0.0
+        gt = None
+        image_ids = {}
+        if anno_file and os.path.isfile(anno_file):
+            gt = load_coco_annotations(anno_file)
+            image_ids = {info['file_name']: info['id'] for info in gt['images']}
 
         print(f"\nEvaluating {len(image_files)} images from {image_dir}")
 
@@ -801,8 +806,10 @@ class YOLOEvaluator:
                 iou_thres=self.iou_thres,
             )[0]
 
+            # 有标注文件时使用标注中的图片 id（未标注的图片为 None）
+            image_id = image_ids.get(file_name) if gt is not None else idx
             all_dets.append({
-                'image_id': idx,
+                'image_id': image_id,
                 'file_name': file_name,
                 # GT 标注使用原始分辨率坐标
                 'boxes': unletterbox(dets[:, 1:5], lb_info),
@@ -812,14 +819,11 @@ class YOLOEvaluator:
 
             # 保存标注图片
             if save_dir:
-                gt = None
-                if draw_gt and anno_file and os.path.isfile(anno_file):
-                    gt = load_coco_annotations(anno_file)
                 self._save_annotated_image(
                     image_path, dets, save_dir, file_name,
                     lb_info=lb_info,
-                    gt_annotations=gt,
-                    image_id=idx,
+                    gt_annotations=gt if draw_gt else None,
+                    image_id=image_id,
                 )
 
             if (idx + 1) % 10 == 0 or idx == len(image_files) - 1:
@@ -836,10 +840,10 @@ class YOLOEvaluator:
         }
 
         # 如果有标注文件，计算 mAP
-        if anno_file and os.path.isfile(anno_file):
-            gt = load_coco_annotations(anno_file)
+        if gt is not None:
             num_classes = len(gt.get('categories', [])) or len(COCO_CLASSES)
-            coco_metrics = compute_coco_metrics(all_dets, gt, num_classes=num_classes)
+            coco_metrics = compute_coco_metrics(
+                [det for det in all_dets if det['image_id'] is not None], gt, num_classes=num_classes)
             metrics.update(coco_metrics)
 
         return metrics
-- 
2.43.0


From d1b7ac6ea5b640a8363a282dda8a0a1083ec0933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:09 +0000
Subject: [PATCH 78/93] fix: detection metrics cover the pictures that were
 evaluated

---
 inference/yolo_eval.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/inference/yolo_eval.py b/inference/yolo_eval.py
index 35190e8..7c72de8 100644
--- a/inference/yolo_eval.py
+++ b/inference/yolo_eval.py
@@ -217,10 +217,12 @@ def compute_coco_metrics(
     if iou_thresholds is None:
         iou_thresholds = np.linspace(0.5, 0.95, 10).tolist()
 
-    # 构建 GT 索引: image_id -> [annotations]
+    # 构建 GT 索引: image_id -> [annotations]，只统计评估过的图片
+    evaluated = {det['image_id'] for det in all_dets}
     gt_by_image = defaultdict(list)
     for ann in gt_annotations['annotations']:
-        gt_by_image[ann['image_id']].append(ann)
+        if ann['image_id'] in evaluated:
+            gt_by_image[ann['image_id']].append(ann)
 
     # 模型的类别下标 i 对应 id 第 i 小的类别（COCO 的类别 id 不连续）
     class_of = _class_indices(gt_annotations.get('categories'))
@@ -735,7 +737,7 @@ class YOLOEvaluator:
                 )
 
             if (idx + 1) % 10 == 0 or idx == len(images) - 1:
-                avg_time = total_time / (idx + 1)
+                avg_time = total_time / len(all_dets)
                 print(f"  [{idx+1}/{len(images)}] avg {avg_time*1000:.1f}ms/img, "
                       f"dets: {len(dets)}")
 
@@ -743,10 +745,11 @@ class YOLOEvaluator:
         print(f"\nComputing COCO metrics...")
         metrics = compute_coco_metrics(all_dets, gt, num_classes=num_classes)
 
-        metrics['num_images'] = len(images)
+        num_images = len(all_dets)
+        metrics['num_images'] = num_images
         metrics['total_time'] = total_time
-        metrics['avg_time_ms'] = total_time / max(len(images), 1) * 1000
-        metrics['fps'] = len(images) / total_time if total_time > 0 else 0
+        metrics['avg_time_ms'] = total_time / max(num_images, 1) * 1000
+        metrics['fps'] = num_images / total_time if total_time > 0 else 0
 
         return metrics
 
@@ -929,6 +932,7 @@ def export_pr_curve(
 
     # 收集所有预测（不设置信度阈值）
     all_preds = []
+    evaluated = []
     for idx, img_info in enumerate(images):
         file_name = img_info['file_name']
         image_path = os.path.join(image_dir, file_name)
@@ -936,6 +940,7 @@ def export_pr_curve(
             continue
         img, lb_info = load_image(image_path, evaluator.input_size)
         output = evaluator.infer_single(img)
+        evaluated.append(img_info)
 
         if output.ndim == 3:
             output = output[0]
@@ -963,7 +968,7 @@ def export_pr_curve(
             dets_by_image[p['image_id']].append(p)
 
         all_dets = []
-        for img_info in images:
+        for img_info in evaluated:
             preds = dets_by_image.get(img_info['id'], [])
             if preds:
                 boxes = np.array([p['box'] for p in preds])
-- 
2.43.0


From 010bd5cc993510a487fea9649289c189679026c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:10 +0000
Subject: [PATCH 79/93] fix: an annotated picture that can not be stored is an
 error

---
 inference/yolo_eval.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/inference/yolo_eval.py b/inference/yolo_eval.py
index 7c72de8..a4449ca 100644
--- a/inference/yolo_eval.py
+++ b/inference/yolo_eval.py
@@ -868,12 +868,13 @@ class YOLOEvaluator:
                      用于将 640x640 上的坐标逆映射回原始分辨率
         """
         import cv2
-        os.makedirs(save_dir, exist_ok=True)
+        out_path = os.path.join(save_dir, file_name)
+        os.makedirs(os.path.dirname(out_path), exist_ok=True)
 
         # 读取原始图片（BGR 格式，保持原始分辨率）
         img = cv2.imread(image_path)
         if img is None:
-            return
+            raise ValueError(f"Cannot read image: {image_path}")
 
         H_orig, W_orig = img.shape[:2]
 
@@ -905,8 +906,8 @@ class YOLOEvaluator:
         categories = gt_annotations.get('categories') if gt_annotations else None
         img = draw_detections(img, scaled_dets, categories, conf_thres=self.conf_thres)
 
-        out_path = os.path.join(save_dir, file_name)
-        cv2.imwrite(out_path, img)
+        if not cv2.imwrite(out_path, img):
+            raise OSError(f"Cannot write image: {out_path}")
 
 
 # ===========================================================================
-- 
2.43.0


From d36d0eacf6fc3bb835761de58af3659d1d84e1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:11 +0000
Subject: [PATCH 80/93] fix: very thin pictures can be evaluated

---
 inference/yolo_eval.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inference/yolo_eval.py b/inference/yolo_eval.py
index a4449ca..f7df22a 100644
--- a/inference/yolo_eval.py
+++ b/inference/yolo_eval.py
@@ -538,8 +538,8 @@ def load_image(image_path: str, target_size: Tuple[int, int] = (640, 640)) -> Tu
 
         # Letterbox: 保持宽高比，缩放后填充到目标尺寸
         scale = min(H_dst / H_orig, W_dst / W_orig)
-        new_h = int(H_orig * scale)
-        new_w = int(W_orig * scale)
+        new_h = max(1, int(H_orig * scale))
+        new_w = max(1, int(W_orig * scale))
 
         img = cv2.resize(img, (new_w, new_h))
 
@@ -567,8 +567,8 @@ def load_image(image_path: str, target_size: Tuple[int, int] = (640, 640)) -> Tu
 
         H_dst, W_dst = target_size
         scale = min(H_dst / H_orig, W_dst / W_orig)
-        new_h = int(H_orig * scale)
-        new_w = int(W_orig * scale)
+        new_h = max(1, int(H_orig * scale))
+        new_w = max(1, int(W_orig * scale))
 
         img = img.resize((new_w, new_h))
 
-- 
2.43.0


From 9a62a3e4fcc250666d493e6b9581506055621177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:12 +0000
Subject: [PATCH 81/93] fix: the output of infer_single stays what it is

---
 inference/yolo_eval.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inference/yolo_eval.py b/inference/yolo_eval.py
index f7df22a..7f3ebbb 100644
--- a/inference/yolo_eval.py
+++ b/inference/yolo_eval.py
@@ -648,7 +648,8 @@ class YOLOEvaluator:
         outputs = self.infer.forward({'images': input_tensor})
         # 取第一个输出
         output_name = self.infer.compute_graph.output[0]
-        return outputs[output_name].cpu().numpy()
+        # 输出是内存池的视图，下一次推理会覆盖
+        return outputs[output_name].cpu().numpy().copy()
 
     def evaluate_coco(
         self,
-- 
2.43.0


From 830d407f5ed48da878a3bceb3ee8fe9a37a47c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:13 +0000
Subject: [PATCH 82/93] fix: the precision curve looks for pictures where the
 evaluation does

---
 inference/yolo_eval.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/inference/yolo_eval.py b/inference/yolo_eval.py
index 7f3ebbb..e61b689 100644
--- a/inference/yolo_eval.py
+++ b/inference/yolo_eval.py
@@ -511,6 +511,17 @@ def load_coco_annotations(coco_path: str) -> Dict:
         return json.load(f)
 
 
+def find_image_dir(coco_path: str) -> str:
+    """确定标注文件对应的图片目录"""
+    coco_dir = os.path.dirname(coco_path)
+    # 尝试常见路径
+    for candidate in ['val2017', 'images/val2017', '../val2017']:
+        image_dir = os.path.join(coco_dir, candidate)
+        if os.path.isdir(image_dir):
+            return image_dir
+    return os.path.join(coco_dir, 'val2017')
+
+
 def load_image(image_path: str, target_size: Tuple[int, int] = (640, 640)) -> Tuple[np.ndarray, Tuple[float, float, float, float]]:
     """
     加载并预处理图像（letterbox resize 保持宽高比 + /255.0 归一化）。
@@ -679,15 +690,7 @@ class YOLOEvaluator:
             images = images[:max_images]
 
         # 确定图片目录
-        coco_dir = os.path.dirname(coco_path)
-        image_dir = os.path.join(coco_dir, 'val2017')
-        if not os.path.isdir(image_dir):
-            # 尝试其他常见路径
-            for candidate in ['images/val2017', 'val2017', '../val2017']:
-                cand_path = os.path.join(coco_dir, candidate)
-                if os.path.isdir(cand_path):
-                    image_dir = cand_path
-                    break
+        image_dir = find_image_dir(coco_path)
 
         all_dets = []
         total_time = 0.0
@@ -929,8 +932,7 @@ def export_pr_curve(
     """
     gt = load_coco_annotations(coco_path)
     images = gt['images'][:max_images]
-    coco_dir = os.path.dirname(coco_path)
-    image_dir = os.path.join(coco_dir, 'val2017')
+    image_dir = find_image_dir(coco_path)
 
     # 收集所有预测（不设置信度阈值）
     all_preds = []
-- 
2.43.0


From af02792bbe280fd88d7f1d5a2059599abdf5ae2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:14 +0000
Subject: [PATCH 83/93] fix: a precision curve that can not be exported is an
 error

---
 inference/yolo_eval.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/inference/yolo_eval.py b/inference/yolo_eval.py
index e61b689..827d857 100644
--- a/inference/yolo_eval.py
+++ b/inference/yolo_eval.py
@@ -1067,6 +1067,10 @@ def main():
 
     input_size = tuple(args.input_size)  # (H, W)
 
+    if args.export_pr and not args.coco_path:
+        print("Error: --export-pr needs --coco-path")
+        sys.exit(1)
+
     print(f"{'='*60}")
     print(f"YOLO Detection Evaluation")
     print(f"{'='*60}")
@@ -1147,7 +1151,7 @@ def main():
         print(f"\nResults exported to {args.output}")
 
     # 导出 PR 曲线
-    if args.export_pr and args.coco_path:
+    if args.export_pr:
         export_pr_curve(
             evaluator,
             coco_path=args.coco_path,
-- 
2.43.0


From 29371946bacddd373decdba259928808e4ad76e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:30 +0000
Subject: [PATCH 84/93] fix: detection evaluation works with Pillow when OpenCV
 is missing

---
 inference/yolo_eval.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/inference/yolo_eval.py b/inference/yolo_eval.py
index 827d857..8d455f6 100644
--- a/inference/yolo_eval.py
+++ b/inference/yolo_eval.py
@@ -588,13 +588,14 @@ def load_image(image_path: str, target_size: Tuple[int, int] = (640, 640)) -> Tu
         pad_top = pad_h // 2
         pad_left = pad_w // 2
 
-        # PIL padding
-        from PIL import ImageOps
-        img = ImageOps.pad(img, (W_dst, H_dst), color=(114, 114, 114))
+        # 填充到目标尺寸，位置与 letterbox_info 一致
+        canvas = Image.new('RGB', (W_dst, H_dst), (114, 114, 114))
+        canvas.paste(img, (pad_left, pad_top))
 
-        img = np.array(img, dtype=np.float32) / 255.0
+        img = np.array(canvas, dtype=np.float32) / 255.0
         img = img[:, :, ::-1]  # RGB -> BGR
-        img = np.transpose(img, (2, 0, 1))
+        # torch 不支持负步长的数组
+        img = np.ascontiguousarray(np.transpose(img, (2, 0, 1)))
 
         letterbox_info = (pad_left, pad_top, scale)
         return img[np.newaxis, ...], letterbox_info
-- 
2.43.0


From a8124baca460c01c53ad9bd561259603ec82b6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:59 +0000
Subject: [PATCH 85/93] fix: saved models state no type nobody declared or
 inferred, and scalars as scalars

---
 onnx_tool/graph.py  |  2 ++
 onnx_tool/tensor.py | 13 ++++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index a9b8b1b..17f6055 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1003,6 +1003,8 @@ class Graph():
                 if key in self.input or key in self.output:
                     continue
                 tensor = self.tensormap[key]
+                if not tensor.typed:
+                    continue  # neither declared nor inferred
                 vinfo = tensor.make_value_proto()
                 if vinfo is None:
                     continue
diff --git a/onnx_tool/tensor.py b/onnx_tool/tensor.py
index 34911d1..25c7677 100644
--- a/onnx_tool/tensor.py
+++ b/onnx_tool/tensor.py
@@ -384,6 +384,8 @@ class Tensor():
             self.numpy = None
             self.type = DYNAMIC_TENSOR if t != '' else STATIC_TENSOR
             self.dtype = numpy.float32
+            self.typed = False  # nobody stated the type or the shape so far
+            self.ranked = False  # shape [] is an unknown shape, not a scalar
         elif isinstance(t, onnx.ValueInfoProto):
             self.name = t.name
             self.proto = t
@@ -391,6 +393,8 @@ class Tensor():
             self.numpy = None
             self.type = DYNAMIC_TENSOR
             self.dtype = type_of_tensor(t)
+            self.typed = True
+            self.ranked = t.type.tensor_type.HasField('shape')
         elif isinstance(t, onnx.TensorProto):
             self.name = t.name
             self.proto = t
@@ -399,6 +403,8 @@ class Tensor():
             self.shape = list(self.numpy.shape)
             self.type = STATIC_TENSOR
             self.dtype = self.numpy.dtype.type
+            self.typed = True
+            self.ranked = True
         else:
             assert 0
         self.sparsity_search()
@@ -418,9 +424,11 @@ class Tensor():
         if isinstance(shape, numpy.ndarray):
             assert 0
         self.shape = shape
+        self.typed = True
 
     def update_dtype(self, dtype):
         self.dtype = dtype
+        self.typed = True
 
     def shape2str(self):
         st = '['
@@ -483,7 +491,7 @@ class Tensor():
 
     def make_value_proto(self, make_dummy=False):
         shape = self.get_shape()
-        if len(self.shape) == 0:
+        if len(self.shape) == 0 and not self.ranked and self.numpy is None:
             shape = None
         if self.numpy is None:
             dtype = npdtype2onnxdtype(self.dtype)
@@ -529,6 +537,7 @@ def create_initial_Tensor(name: str, ndarray: numpy.ndarray):
     t.shape = t.numpy.shape
     t.proto = t.make_tensor_proto()
     t.dtype = t.numpy.dtype.type
+    t.typed = t.ranked = True
     return t
 
 def create_dynamic_Tensor(name: str, ndarray: numpy.ndarray):
@@ -537,6 +546,7 @@ def create_dynamic_Tensor(name: str, ndarray: numpy.ndarray):
     t.numpy = ndarray
     t.shape = t.numpy.shape
     t.dtype = t.numpy.dtype.type
+    t.typed = t.ranked = True
     t.proto = t.make_value_proto()
     return t
 
@@ -545,6 +555,7 @@ def create_tensor(name: str, type, shape, dtype):
     t.type = type
     t.numpy = None
     t.shape = shape
+    t.typed = t.ranked = True
     t.proto = t.make_value_proto()
     t.dtype = dtype
     return t
-- 
2.43.0


From 314e144f8629500601d7816599da1cdd3c1190ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:00 +0000
Subject: [PATCH 86/93] fix: what the bodies of If, Loop and Scan take from the
 graph counts as used

---
 onnx_tool/graph.py        | 47 +++++++++++++++++----------------------
 onnx_tool/node.py         | 24 ++++++++++++++++++++
 onnx_tool/quantization.py |  2 ++
 3 files changed, 46 insertions(+), 27 deletions(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index 17f6055..fd7b18b 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -221,7 +221,7 @@ class Graph():
         if constant_folding:
             produced = set(tname for node in self.nodemap.values() for tname in node.output)
             for name in self.nodemap.keys():
-                for tname in self.nodemap[name].input:
+                for tname in self.nodemap[name].uses():
                     if tname == '':  # omitted optional operand
                         continue
                     if self.tensormap[tname].type == STATIC_TENSOR and tname not in produced:
@@ -238,7 +238,7 @@ class Graph():
                 self.initials.append(initial.name)
             self.dynamics.extend(self.input)
             for name in self.nodemap.keys():
-                for tname in self.nodemap[name].input:
+                for tname in self.nodemap[name].uses():
                     if tname != '' and tname not in self.initials and tname not in self.dynamics:
                         self.dynamics.append(tname)
                 for tname in self.nodemap[name].output:
@@ -258,7 +258,7 @@ class Graph():
         self.input = []
         for name in self.nodemap.keys():
             node = self.nodemap[name]
-            for tensor in node.input:
+            for tensor in node.uses():
                 if tensor not in self.producedby and tensor in self.dynamics and tensor != '':
                     if tensor not in self.input:
                         self.input.append(tensor)
@@ -278,7 +278,7 @@ class Graph():
         constant_node = True
         if node.op_type in ['DequantizeLinear']:
             return False
-        for tname in node.input:
+        for tname in node.uses():
             if self.tensormap[tname].type == DYNAMIC_TENSOR:
                 constant_node = False
                 break
@@ -328,7 +328,7 @@ class Graph():
         consumedby = {}
         for name in self.nodemap:
             node = self.nodemap[name]
-            for tensor in node.input:
+            for tensor in node.uses():
                 if tensor not in consumedby:
                     consumedby[tensor] = []
                 consumedby[tensor].append(node.name)
@@ -421,27 +421,12 @@ class Graph():
 
     def __remove_unused_producers__(self, tensors):
         # remove the nodes that computed the tensors, as far as nothing else needs them
-        def subgraph_inputs(graph):
-            used = [output.name for output in graph.output]
-            for node in graph.node:
-                used.extend(node.input)
-                for attribute in node.attribute:
-                    for subgraph in [attribute.g] + list(attribute.graphs):
-                        used.extend(subgraph_inputs(subgraph))
-            return used
-
-        captured = set()
-        for node in self.nodemap.values():
-            for val in node.attr.values():
-                for graph in val if isinstance(val, (list, tuple)) else [val]:
-                    if isinstance(graph, onnx.GraphProto):
-                        captured.update(subgraph_inputs(graph))
         tensors = list(tensors)
         while len(tensors):
             for producer in list(self.producedby.get(tensors.pop(0), [])):
                 node = self.nodemap[producer]
-                if not any(o in self.output or o in captured or len(self.consumedby.get(o, [])) > 0 for o in node.output):
-                    tensors.extend(node.input)
+                if not any(o in self.output or len(self.consumedby.get(o, [])) > 0 for o in node.output):
+                    tensors.extend(node.uses())
                     self.remove_node(producer)
 
     def __set_fixed_topk(self, fixed_k):
@@ -473,6 +458,8 @@ class Graph():
                 self.consumedby[tensor] = []
             self.consumedby[tensor].append(newnode.name)
             newnode.input.append(tensor)
+        for tensor in newnode.uses()[len(newnode.input):]:
+            self.consumedby.setdefault(tensor, []).append(newnode.name)
         for tensor in node_proto.output:
             if tensor not in self.producedby:
                 self.producedby[tensor] = []
@@ -511,6 +498,8 @@ class Graph():
                     self.consumedby[tensor] = []
                 self.consumedby[tensor].append(newnode.name)
                 newnode.input.append(tensor)
+            for tensor in newnode.uses()[len(newnode.input):]:
+                self.consumedby.setdefault(tensor, []).append(newnode.name)
             for tensor in node.output:
                 if tensor not in self.producedby:
                     self.producedby[tensor] = []
@@ -685,7 +674,7 @@ class Graph():
         initializer = []
         enqueued = []
         for name in nodenames:
-            for input in self.nodemap[name].input:
+            for input in self.nodemap[name].uses():
                 if input in self.initials and input not in enqueued:
                     proto = self.tensormap[input].make_tensor_proto()
                     if proto is not None:
@@ -709,7 +698,7 @@ class Graph():
 
         newnodes = []
         # update consumer
-        for i in node.input:
+        for i in node.uses():
             if i in self.consumedby.keys():
                 if len(self.consumedby[i]) == 1 and i in self.producedby and i not in self.output:
                     pnode = self.producedby[i][0]
@@ -786,6 +775,10 @@ class Graph():
             return
         src = dyn_inputs[0]
         dst = node.output[0]
+        renamed = src if dst in self.output else dst
+        if any(renamed not in self.nodemap[con].input for con in self.consumedby.get(renamed, [])):
+            warnings.warn(f'Node {nodename} is needed by the body of another node, it can not be skipped')
+            return
         if dst not in self.output:
             for con in self.consumedby.get(dst, []):
                 con_node = self.nodemap[con]
@@ -982,7 +975,7 @@ class Graph():
             else:
                 inputs.append(onnx.helper.make_tensor_value_info(name, 1, None))
         # 把没有 numpy 数据的 initializer 也作为 graph input（保留 shape 信息）
-        used = {tname for nodename in nodenames for tname in self.nodemap[nodename].input}
+        used = {tname for nodename in nodenames for tname in self.nodemap[nodename].uses()}
         for name in self.initials:
             if name in initializer_names:
                 continue  # 已有 numpy 数据，作为 initializer 导出
@@ -1033,7 +1026,7 @@ class Graph():
         for name in node_names:
             node = self.nodemap[name]
             count = 0
-            for tname in node.input:
+            for tname in node.uses():
                 if tname in produced_by.keys():
                     count += 1
                     if tname in consumed_by.keys():
@@ -1073,7 +1066,7 @@ class Graph():
         intensors = []
         outtensors = []
         for name in nodenames:
-            for input in self.nodemap[name].input:
+            for input in self.nodemap[name].uses():
                 if len(input) == 0:
                     continue
                 if remove_initials and input in self.initials:
diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 3dc8d83..3f54908 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -186,6 +186,21 @@ class TmpNodeProto:
         self.attribute = attributes
 
 
+def _captured_names(body: onnx.GraphProto):
+    # the tensors a body takes from the graphs around it
+    own = {i.name for i in body.input} | {i.name for i in body.initializer} | {i.values.name for i in
+                                                                               body.sparse_initializer}
+    names = []
+    for node in body.node:
+        names.extend(node.input)
+        for att in node.attribute:
+            for graph in [att.g] if att.HasField('g') else att.graphs:
+                names.extend(_captured_names(graph))
+        own.update(node.output)
+    names.extend(o.name for o in body.output)
+    return [name for name in dict.fromkeys(names) if name != '' and name not in own]
+
+
 class Node():
     def __init__(self, n: onnx.NodeProto | TmpNodeProto):
         self.name = n.name
@@ -221,6 +236,15 @@ class Node():
         if not hasattr(self, attname):
             setattr(self, attname, defaultvalue)
 
+    def uses(self):
+        '''The tensors this node needs: its operands, and what its bodies (If, Loop, Scan) take from the graph.'''
+        names = list(self.input)
+        for val in self.attr.values():
+            for body in val if isinstance(val, (list, tuple)) else (val,):
+                if isinstance(body, onnx.GraphProto):
+                    names.extend(name for name in _captured_names(body) if name not in names)
+        return names
+
     def make_nodeproto(self):
         node = onnx.helper.make_node(self.op_type, self.input, self.output, self.name, domain=self.domain)
         raw = {} if isinstance(self.proto.attribute, dict) else {att.name: att for att in self.proto.attribute}
diff --git a/onnx_tool/quantization.py b/onnx_tool/quantization.py
index 68d5f38..d569066 100644
--- a/onnx_tool/quantization.py
+++ b/onnx_tool/quantization.py
@@ -140,6 +140,8 @@ def graph_quantize(g: onnx_tool.Graph, tname: str, block: int = -1, type: str =
     if f32arr.dtype is not numpy.float32:
         f32arr = f32arr.astype(numpy.float32)
     consumers = list(dict.fromkeys(g.consumedby[tname]))
+    if any(tname not in g.nodemap[nname].input for nname in consumers):  # needed by the body of a node
+        return
     node = g.nodemap[consumers[0]]
     if isinstance(node,onnx_tool.node.GemmNode):
         if node.transB==0:
-- 
2.43.0


From 49f4c5afd71cb242d5c9dd95eb14dd0d72885818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:00 +0000
Subject: [PATCH 87/93] fix: new input sizes do not leave the old sizes inside
 the model

---
 onnx_tool/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/onnx_tool/__init__.py b/onnx_tool/__init__.py
index d7759a9..93dffa5 100644
--- a/onnx_tool/__init__.py
+++ b/onnx_tool/__init__.py
@@ -129,6 +129,9 @@ def model_io_modify(m, save_model: str, custom_io):
     graph = mproto.graph
     if custom_io is not None:
         keylist = list(custom_io.keys())
+        if any(input.name in keylist for input in graph.input):
+            for valinfo in graph.value_info:  # the sizes inside the model follow the new ones
+                valinfo.type.tensor_type.ClearField('shape')
         for i, input in enumerate(graph.input):
             if input.name in keylist:
                 shapes = custom_io[input.name].split('x')
-- 
2.43.0


From f83f177365f6276a050473d7aa57afab3790e76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:14 +0000
Subject: [PATCH 88/93] fix: input values are taken in the type the model
 declares

---
 onnx_tool/graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/graph.py b/onnx_tool/graph.py
index fd7b18b..7ad1ab7 100644
--- a/onnx_tool/graph.py
+++ b/onnx_tool/graph.py
@@ -1103,7 +1103,11 @@ class Graph():
     def update_input_by_map(self, inputs: {}):
         for key in inputs.keys():
             if key in self.tensormap.keys():
-                self.tensormap[key].update_tensor(inputs[key])
+                tensor = self.tensormap[key]
+                data = numpy.asarray(inputs[key])
+                if isinstance(tensor.proto, onnx.ValueInfoProto) and data.dtype == numpy.float64:
+                    data = data.astype(tensor.dtype)  # numpy's default, e.g. numpy.zeros(shape)
+                tensor.update_tensor(data)
 
     def get_dynamic_tensors(self):
         dtensors = {}
-- 
2.43.0


From 96aef3e2531e999bb358b6e85607f8532a1c10d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:12 +0000
Subject: [PATCH 89/93] fix: TopK of operator sets before 10 takes k from the
 attribute

---
 onnx_tool/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/onnx_tool/node.py b/onnx_tool/node.py
index 3f54908..de090a5 100644
--- a/onnx_tool/node.py
+++ b/onnx_tool/node.py
@@ -1984,7 +1984,8 @@ class TopKNode(Node):
 
     def shape_infer(self, intensors: List[Tensor], outtensors: List[Tensor]):
         xshape = intensors[0].get_shape()
-        k = numpy.ravel(intensors[1].get_numpy())[0]
+        # k is an attribute in operator sets before 10
+        k = numpy.ravel(intensors[1].get_numpy())[0] if len(intensors) > 1 else self.k
         axis = _axes_neg2pos(len(xshape), [self.axis])[0]
         newshape = []
         for i in range(len(xshape)):
-- 
2.43.0


From 10b06fa69891194e22da18d7d9eca681e53e036e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:19 +0000
Subject: [PATCH 90/93] fix: pattern conditions on attributes without a value
 are not met instead of raising

---
 onnx_tool/fusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index 837edaa..3abeab3 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -229,7 +229,7 @@ class AttrExpr():
             self.idx = -1
 
     def __call__(self, x):
-        if hasattr(x, self.attrname):
+        if getattr(x, self.attrname, None) is not None:
             if self.idx == -1:
                 return self.logical(x.__getattribute__(self.attrname))
             else:
-- 
2.43.0


From a77d5066d88b4be1fdaf4c788505c7122934e94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:20 +0000
Subject: [PATCH 91/93] fix: pattern search reports every place that fits the
 whole pattern and no other

---
 onnx_tool/fusion.py | 235 +++++++++++++++++---------------------------
 1 file changed, 92 insertions(+), 143 deletions(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index 3abeab3..2b22f25 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -314,156 +314,105 @@ class FusionPattern():
         for desc in nodedescs:
             self.nodedesc[desc['name']] = NodeCondition(desc)
 
-    def search_node(self, nodepair, graph, searched):
-        curdescname = nodepair[0]
-        curnodename = nodepair[1]
-
-        desc = self.nodedesc[curdescname]
-        node = graph.nodemap[curnodename]
-        searched.append(curnodename)
-
-        # expand in nodes
-        invalid = False if len(desc.inport) > 0 else True
-        uppaths = []
-        for inset in desc.inport:
-            inidx = inset[0]
-            indesckey = inset[1]
-            prev_outidx = inset[2]
-            nextdesc = self.nodedesc[indesckey]
-            if inidx == -1:
-                for tname in node.input:
-                    if tname not in graph.producedby:
-                        continue
-                    producer_node = graph.producedby[tname]
-                    for nodename in producer_node:
-                        nodeobject = graph.nodemap[nodename]
-                        if prev_outidx == -1 or nodeobject.output.index(tname) == prev_outidx:
-                            if nextdesc.is_node(nodeobject):
-                                if nodename not in searched:
-                                    invalid, uppath = self.search_node((indesckey, nodename), graph, searched)
-                                    if invalid:
-                                        uppaths.append(uppath)
-                                        break
-                                else:
-                                    invalid = True
-                            else:
-                                invalid = False
-                        else:
-                            invalid = False
-            elif inidx < len(node.input):
-                tname = node.input[inidx]
-                producer_node = graph.producedby.get(tname, [])
-                if len(producer_node) == 0:
-                    invalid = False
-                for nodename in producer_node:
-                    nodeobject = graph.nodemap[nodename]
-                    if prev_outidx == -1 or nodeobject.output.index(tname) == prev_outidx:
-                        if nextdesc.is_node(nodeobject):
-                            if nodename not in searched:
-                                invalid, uppath = self.search_node((indesckey, nodename), graph, searched)
-                                if invalid:
-                                    uppaths.append(uppath)
-                                    break
-                            else:
-                                invalid = True
-                        else:
-                            invalid = False
-                    else:
-                        invalid = False
-
-        if not invalid:
-            searched.remove(curnodename)
-            return False, None
-        outpath = []
-        for uppath in uppaths:
-            if uppath is not None:
-                for v in uppath:
-                    outpath.append(v)
-        outpath.append(nodepair)
-
-        outvalid = False if len(desc.outport) > 0 else True
-        downpaths = []
-        for outset in desc.outport:
-            outidx = outset[0]
-            outdescky = outset[1]
-            next_inidx = outset[2]
-            nextdesc = self.nodedesc[outdescky]
-            if outidx == -1:
-                for output in node.output:
-                    if outvalid:
+    def __collect_links__(self):
+        """All links [out_key, outidx, in_key, inidx, stated_by_outport], each one next to those before it."""
+        links = []
+        for key, desc in self.nodedesc.items():
+            for outidx, inkey, inidx in desc.outport:
+                links.append([key, outidx, inkey, inidx, True])
+        for key, desc in self.nodedesc.items():
+            for inidx, outkey, outidx in desc.inport:
+                if [outkey, outidx, key, inidx, True] not in links:
+                    links.append([outkey, outidx, key, inidx, False])
+        reached = [self.first_key]
+        ordered = []
+        while True:
+            # the links between known nodes first, then on from the latest node
+            link = next((l for l in links if l[0] in reached and l[2] in reached), None)
+            if link is None:
+                for key in reversed(reached):
+                    link = next((l for l in links if key in (l[0], l[2])), None)
+                    if link is not None:
+                        reached.append(link[2] if link[0] in reached else link[0])
                         break
-                    if output in graph.consumedby:
-                        consumed_nodes = graph.consumedby[output]
-                        if self.append_fusion and len(consumed_nodes) > 1:
-                            # inpalce_fusion the consumer op will be appended to this op as postop
-                            # it requires that the output of this op is consumed by next op only
-                            continue
-                        for nodename in consumed_nodes:
-                            nodeobject = graph.nodemap[nodename]
-                            if next_inidx == -1 or nodeobject.input.index(output) == next_inidx:
-                                if nextdesc.is_node(nodeobject):
-                                    if nodename not in searched:
-                                        outvalid, downpath = self.search_node((outdescky, nodename), graph, searched)
-                                        if outvalid:
-                                            downpaths.append(downpath)
-                                            break
-                                    else:
-                                        outvalid = True
-
-
-            elif outidx < len(node.output):
-                tname = node.output[outidx]
-                if tname in graph.consumedby:
-                    consumed_nodes = graph.consumedby[tname]
-                    if self.append_fusion and len(consumed_nodes) > 1:
-                        # inpalce_fusion the consumer op will be appended to this op as postop
-                        # it requires that the output of this op is consumed by next op only
-                        continue
-                    for nodename in consumed_nodes:
-                        nodeobject = graph.nodemap[nodename]
-                        if next_inidx == -1 or nodeobject.input.index(tname) == next_inidx:
-                            if nextdesc.is_node(nodeobject):
-                                if nodename not in searched:
-                                    outvalid, downpath = self.search_node((outdescky, nodename), graph, searched)
-                                    if outvalid:
-                                        downpaths.append(downpath)
-                                        break
-                                else:
-                                    outvalid = True
-                                    break
-
-        if outvalid:
-            for downpath in downpaths:
-                if downpath is not None:
-                    for v in downpath:
-                        outpath.append(v)
-            return True, outpath
+            if link is None:
+                return ordered
+            links.remove(link)
+            ordered.append(link)
+
+    def __is_linked__(self, graph, outname, inname, link):
+        _, outidx, _, inidx, outport = link
+        innames = graph.nodemap[inname].input
+        for i, tname in enumerate(graph.nodemap[outname].output):
+            if tname == '' or outidx not in (-1, i):
+                continue
+            if outport and self.append_fusion and len(set(graph.consumedby.get(tname, []))) > 1:
+                # inpalce_fusion the consumer op will be appended to this op as postop
+                # it requires that the output of this op is consumed by next op only
+                continue
+            if any(name == tname and inidx in (-1, j) for j, name in enumerate(innames)):
+                return True
+        return False
+
+    def __candidates__(self, graph, found, link):
+        """The ways to complete one link: pairs of description key and node name, or [None] if it holds already."""
+        outkey, inkey = link[0], link[2]
+        if outkey in found and inkey in found:
+            return [None] if self.__is_linked__(graph, found[outkey], found[inkey], link) else []
+        candidates = []
+        if outkey in found:
+            key = inkey
+            for tname in graph.nodemap[found[outkey]].output:
+                candidates.extend(graph.consumedby.get(tname, []))
         else:
-            searched.remove(curnodename)
-            return False, None
+            key = outkey
+            for tname in graph.nodemap[found[inkey]].input:
+                candidates.extend(graph.producedby.get(tname, []))
+        desc = self.nodedesc[key]
+        valid = []
+        for name in dict.fromkeys(candidates):
+            if name in found.values() or not desc.is_node(graph.nodemap[name]):
+                continue
+            outname, inname = (found[outkey], name) if key == inkey else (name, found[inkey])
+            if self.__is_linked__(graph, outname, inname, link):
+                valid.append((key, name))
+        return valid
+
+    def search_node(self, nodename, graph, links):
+        """The nodes of the pattern whose first node is nodename, by description key. None if there are none."""
+        found = {self.first_key: nodename}
+        if len(links) == 0:
+            return found
+        tries = [iter(self.__candidates__(graph, found, links[0]))]
+        added = [None]
+        while len(tries):
+            if added[-1] is not None:
+                found.pop(added[-1])
+                added[-1] = None
+            choice = next(tries[-1], False)
+            if choice is False:
+                tries.pop()
+                added.pop()
+                continue
+            if choice is not None:
+                found[choice[0]] = choice[1]
+                added[-1] = choice[0]
+            if len(tries) == len(links):
+                return found
+            tries.append(iter(self.__candidates__(graph, found, links[len(tries)])))
+            added.append(None)
+        return None
 
     def search_pattern(self, graph: Graph):
         ls_nodes = []
         first_desc = self.nodedesc[self.first_key]
-        self.found_node_names = []
-        self.tmp_names = []
+        links = self.__collect_links__()
         for name in graph.nodemap.keys():
-            if name in self.found_node_names:
-                continue
-            node = graph.nodemap[name]
-            if first_desc.is_node(node):
-                searched = []
-                valid, path = self.search_node((self.first_key, name), graph, searched)
-                if valid:
-                    desckeys = list(self.nodedesc.keys())
-                    nodes = ['a'] * len(desckeys)
-                    for val in path:
-                        idx = desckeys.index(val[0])
-                        nodes[idx] = val[1]
-                    if len({val[0] for val in path}) < len(desckeys):
-                        # only a part of the pattern was found
-                        continue
-                    ls_nodes.append(nodes)
+            if first_desc.is_node(graph.nodemap[name]):
+                found = self.search_node(name, graph, links)
+                # a pattern in several parts can not be followed from its first node
+                if found is not None and len(found) == len(self.nodedesc):
+                    ls_nodes.append([found[key] for key in self.nodedesc])
         return ls_nodes
 
 
-- 
2.43.0


From 287e242646b4fd04d1779833eface9613de1899c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:21 +0000
Subject: [PATCH 92/93] fix: the int8 attention pattern links the quantisation
 to the softmax before it

---
 onnx_tool/fusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/onnx_tool/fusion.py b/onnx_tool/fusion.py
index 2b22f25..4932347 100644
--- a/onnx_tool/fusion.py
+++ b/onnx_tool/fusion.py
@@ -116,7 +116,7 @@ MHAint8_Pattern = [
         'op': 'QuantizeLinear',
         'attrs': [
         ],
-        'inport': [[0, 'Add_0', 0]],
+        'inport': [[0, 'Softmax_0', 0]],
         'outport': [[0, 'MatMul_1', 0]],
     },
     {
-- 
2.43.0


From 26fd645350951e3e4b5c76741b86f67566848032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:06 +0000
Subject: [PATCH 93/93] fix: command line: input names with colons

---
 onnx_tool/__main__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/onnx_tool/__main__.py b/onnx_tool/__main__.py
index 282d4d9..2dccad4 100644
--- a/onnx_tool/__main__.py
+++ b/onnx_tool/__main__.py
@@ -72,7 +72,9 @@ def __str2list__(strshape, type):
 def __args2dynamicshapes__(args: [str]):
     dic = {}
     for arg in args:
-        strs = arg.split(':')
+        strs = arg.rsplit(':', 3)
+        if len(strs) > 3 and __str2numpytype__(strs[2]) is not None:  # no values: the name has a colon, e.g. input:0
+            strs = arg.rsplit(':', 2)
         dtype = __str2numpytype__(strs[1])
         shape = __str2list__(strs[2], int)
         if len(strs) > 3:
@@ -86,7 +88,7 @@ def __args2dynamicshapes__(args: [str]):
 def __args2strshapes__(args: [str]):
     dic = {}
     for arg in args:
-        strs = arg.split(':')
+        strs = arg.rsplit(':', 1)  # the name may have colons too, e.g. input:0
         dic[strs[0]] = strs[1]
     return dic
 
-- 
2.43.0


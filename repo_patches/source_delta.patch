From e29372fdaa970e924be7cd9345602e7f04223909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:51 +0000
Subject: [PATCH 1/5] fix: saturate weight sums so large weights cannot wrap
 around

Candidate path weights were summed with a wrapping (release) or panicking
(debug) addition. A single large-weight edge that is not even part of the
shortest path could therefore wrap to a small number and be reported as (part
of) the shortest path. Sums now saturate at WEIGHT_MAX, which already means
'unreachable'.
---
 src/node_contractor.rs |  4 +++-
 src/path_calculator.rs | 30 ++++++++++++++++++++----------
 src/witness_search.rs  |  2 +-
 3 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/node_contractor.rs b/src/node_contractor.rs
index 1d7292d..f304ee1 100644
--- a/src/node_contractor.rs
+++ b/src/node_contractor.rs
@@ -72,7 +72,9 @@ pub fn handle_shortcuts<F>(
         let in_node = graph.in_edges[node][i].adj_node;
         witness_search.init(in_node, node);
         for j in 0..graph.out_edges[node].len() {
-            let weight = graph.in_edges[node][i].weight + graph.out_edges[node][j].weight;
+            let weight = graph.in_edges[node][i]
+                .weight
+                .saturating_add(graph.out_edges[node][j].weight);
             let out_node = graph.out_edges[node][j].adj_node;
             // no need to find the actual weight of a witness path as long as we can be sure
             // that there is some witness with weight smaller or equal to the removed direct
diff --git a/src/path_calculator.rs b/src/path_calculator.rs
index 98e0115..f5cc1bd 100644
--- a/src/path_calculator.rs
+++ b/src/path_calculator.rs
@@ -93,9 +93,9 @@ impl PathCalculator {
                 if *start_node == *end_node
                     && *start_weight < WEIGHT_MAX
                     && *end_weight < WEIGHT_MAX
-                    && *start_weight + *end_weight < best_weight
+                    && start_weight.saturating_add(*end_weight) < best_weight
                 {
-                    best_weight = *start_weight + *end_weight;
+                    best_weight = start_weight.saturating_add(*end_weight);
                     meeting_node = *end_node;
                 }
             }
@@ -142,7 +142,7 @@ impl PathCalculator {
                 for edge_id in begin..end {
                     let adj = graph.edges_fwd[edge_id].adj_node;
                     let edge_weight = graph.edges_fwd[edge_id].weight;
-                    let weight = curr.weight + edge_weight;
+                    let weight = curr.weight.saturating_add(edge_weight);
                     if weight < self.get_weight_fwd(adj) {
                         self.update_node_fwd(adj, weight, curr.node_id, edge_id);
                         self.heap_fwd.push(HeapItem::new(weight, adj));
@@ -150,9 +150,14 @@ impl PathCalculator {
                 }
                 self.data_fwd[curr.node_id].settled = true;
                 if self.valid_flags_bwd.is_valid(curr.node_id)
-                    && curr.weight + self.get_weight_bwd(curr.node_id) < best_weight
+                    && curr
+                        .weight
+                        .saturating_add(self.get_weight_bwd(curr.node_id))
+                        < best_weight
                 {
-                    best_weight = curr.weight + self.get_weight_bwd(curr.node_id);
+                    best_weight = curr
+                        .weight
+                        .saturating_add(self.get_weight_bwd(curr.node_id));
                     meeting_node = curr.node_id;
                 }
                 break;
@@ -178,7 +183,7 @@ impl PathCalculator {
                 for edge_id in begin..end {
                     let adj = graph.edges_bwd[edge_id].adj_node;
                     let edge_weight = graph.edges_bwd[edge_id].weight;
-                    let weight = curr.weight + edge_weight;
+                    let weight = curr.weight.saturating_add(edge_weight);
                     if weight < self.get_weight_bwd(adj) {
                         self.update_node_bwd(adj, weight, curr.node_id, edge_id);
                         self.heap_bwd.push(HeapItem::new(weight, adj));
@@ -186,9 +191,14 @@ impl PathCalculator {
                 }
                 self.data_bwd[curr.node_id].settled = true;
                 if self.valid_flags_fwd.is_valid(curr.node_id)
-                    && curr.weight + self.get_weight_fwd(curr.node_id) < best_weight
+                    && curr
+                        .weight
+                        .saturating_add(self.get_weight_fwd(curr.node_id))
+                        < best_weight
                 {
-                    best_weight = curr.weight + self.get_weight_fwd(curr.node_id);
+                    best_weight = curr
+                        .weight
+                        .saturating_add(self.get_weight_fwd(curr.node_id));
                     meeting_node = curr.node_id;
                 }
                 break;
@@ -220,7 +230,7 @@ impl PathCalculator {
                 continue;
             }
             let edge_weight = graph.edges_bwd[edge_id].weight;
-            if adj_weight + edge_weight < curr.weight {
+            if adj_weight.saturating_add(edge_weight) < curr.weight {
                 return true;
             }
         }
@@ -237,7 +247,7 @@ impl PathCalculator {
                 continue;
             }
             let edge_weight = graph.edges_fwd[edge_id].weight;
-            if adj_weight + edge_weight < curr.weight {
+            if adj_weight.saturating_add(edge_weight) < curr.weight {
                 return true;
             }
         }
diff --git a/src/witness_search.rs b/src/witness_search.rs
index c64ffdd..dab91a1 100644
--- a/src/witness_search.rs
+++ b/src/witness_search.rs
@@ -131,7 +131,7 @@ impl WitnessSearch {
                     continue;
                 }
                 let edge_weight = graph.out_edges[curr.node_id][i].weight;
-                let weight = curr.weight + edge_weight;
+                let weight = curr.weight.saturating_add(edge_weight);
                 if weight < self.get_current_weight(adj) {
                     self.update_node(adj, weight);
                     self.heap.push(HeapItem::new(weight, adj));
-- 
2.43.0


From f555957a8ff95f0d4f3d9a419946a0e3f499d55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 2/5] fix: unpack shortcuts with an explicit stack

Shortcuts can be nested as deeply as the path is long (for example a chain of nodes
prepared with a node order that contracts it from one end), so the recursive unpacking
overflowed the stack and aborted the process for valid queries.
---
 src/path_calculator.rs | 91 ++++++++++++++----------------------------
 1 file changed, 30 insertions(+), 61 deletions(-)

diff --git a/src/path_calculator.rs b/src/path_calculator.rs
index f5cc1bd..8bda044 100644
--- a/src/path_calculator.rs
+++ b/src/path_calculator.rs
@@ -277,70 +277,39 @@ impl PathCalculator {
     }
 
     fn unpack_fwd(graph: &FastGraph, nodes: &mut Vec<NodeId>, edge_id: EdgeId, reverse: bool) {
-        if !graph.edges_fwd[edge_id].is_shortcut() {
-            nodes.push(graph.edges_fwd[edge_id].base_node);
-            return;
-        }
-        if reverse {
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_out_edge,
-                reverse,
-            );
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-        } else {
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_out_edge,
-                reverse,
-            );
-        }
+        PathCalculator::unpack(graph, nodes, edge_id, true, reverse);
     }
 
     fn unpack_bwd(graph: &FastGraph, nodes: &mut Vec<NodeId>, edge_id: EdgeId, reverse: bool) {
-        if !graph.edges_bwd[edge_id].is_shortcut() {
-            nodes.push(graph.edges_bwd[edge_id].adj_node);
-            return;
-        }
-        if reverse {
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_out_edge,
-                reverse,
-            );
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-        } else {
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_out_edge,
-                reverse,
-            );
+        PathCalculator::unpack(graph, nodes, edge_id, false, reverse);
+    }
+
+    /// Unpacks a forward or backward edge. Shortcuts can be nested as deeply as the path is long,
+    /// so we use an explicit stack instead of recursion.
+    fn unpack(
+        graph: &FastGraph,
+        nodes: &mut Vec<NodeId>,
+        edge_id: EdgeId,
+        is_fwd: bool,
+        reverse: bool,
+    ) {
+        let mut stack = vec![(edge_id, is_fwd)];
+        while let Some((id, fwd)) = stack.pop() {
+            let edge = if fwd {
+                &graph.edges_fwd[id]
+            } else {
+                &graph.edges_bwd[id]
+            };
+            if !edge.is_shortcut() {
+                nodes.push(if fwd { edge.base_node } else { edge.adj_node });
+            } else if reverse {
+                // the edge pushed last is unpacked first
+                stack.push((edge.replaced_in_edge, false));
+                stack.push((edge.replaced_out_edge, true));
+            } else {
+                stack.push((edge.replaced_out_edge, true));
+                stack.push((edge.replaced_in_edge, false));
+            }
         }
     }
 
-- 
2.43.0


From 171206f1669cce34d0db63cf049cad0ad0d1c27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:45 +0000
Subject: [PATCH 3/5] fix: report write errors when saving an input graph to a
 file

to_file and to_dimacs_file returned Ok(()) while the data still sat in the BufWriter; errors of
the final write (disk full, ...) were swallowed when the writer was dropped.
---
 src/input_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input_graph.rs b/src/input_graph.rs
index cae2687..ef0c1a8 100644
--- a/src/input_graph.rs
+++ b/src/input_graph.rs
@@ -73,7 +73,7 @@ impl InputGraph {
         for edge in self.get_edges() {
             writeln!(f, "a {} {} {}", edge.from, edge.to, edge.weight)?;
         }
-        Ok(())
+        f.flush()
     }
 
     /// Reads an input graph from a text file, using the DIMACS format:
@@ -107,7 +107,7 @@ impl InputGraph {
         for edge in self.get_edges() {
             writeln!(f, "a {} {} {}", edge.from + 1, edge.to + 1, edge.weight)?;
         }
-        Ok(())
+        f.flush()
     }
 
     pub fn add_edge(&mut self, from: NodeId, to: NodeId, weight: Weight) -> usize {
-- 
2.43.0


From 61df89d9994b4da79eee02d0292341af0a8b6313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:24 +0000
Subject: [PATCH 4/5] fix: reject the reserved node id in InputGraph

Adding an edge with node id usize::MAX (for example from a text file) wrapped the node count
around in release builds and left a graph with an edge outside of its node range.
---
 src/input_graph.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/input_graph.rs b/src/input_graph.rs
index ef0c1a8..0075e8d 100644
--- a/src/input_graph.rs
+++ b/src/input_graph.rs
@@ -31,6 +31,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::constants::NodeId;
 use crate::constants::Weight;
+use crate::constants::INVALID_NODE;
 
 #[derive(Serialize, Deserialize, Clone)]
 pub struct InputGraph {
@@ -201,6 +202,9 @@ impl InputGraph {
             );
             return 0;
         }
+        if from == INVALID_NODE || to == INVALID_NODE {
+            panic!("Invalid node id: {}", INVALID_NODE);
+        }
         self.num_nodes = cmp::max(self.num_nodes, cmp::max(from, to) + 1);
         self.edges.push(Edge::new(from, to, weight));
         if bidir {
-- 
2.43.0


From b5d1adeadf3d0fdfba11ad88e6f88267ad8e0548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 5/5] fix: count shortcuts in a usize so that large hubs do not
 overflow the priority

The counter was an i32: a node with more than 2^31 pairs of incoming and
outgoing edges made the preparation panic where overflow checks are on, and
wrapped to a negative priority elsewhere.
---
 src/node_contractor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node_contractor.rs b/src/node_contractor.rs
index f304ee1..fe45241 100644
--- a/src/node_contractor.rs
+++ b/src/node_contractor.rs
@@ -43,13 +43,13 @@ pub fn calc_relevance(
     level: NodeId,
     max_settled_nodes: usize,
 ) -> f32 {
-    let mut num_shortcuts = 0;
+    let mut num_shortcuts: usize = 0;
     handle_shortcuts(
         graph,
         witness_search,
         node,
         |_graph, _shortcut| {
-            num_shortcuts += 1;
+            num_shortcuts = num_shortcuts.saturating_add(1);
         },
         max_settled_nodes,
     );
-- 
2.43.0


From f2f0e6e152e8af91df26ce5c97ce3db3aebd7bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 1/4] fix: refuse u32::MAX in FastGraph32 instead of silently
 turning it into usize::MAX

---
 src/fast_graph32.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/fast_graph32.rs b/src/fast_graph32.rs
index fcb12a5..e695a0c 100644
--- a/src/fast_graph32.rs
+++ b/src/fast_graph32.rs
@@ -42,7 +42,8 @@ pub struct FastGraph32 {
 impl FastGraph32 {
     /// Creates a 32bit Graph from a given `FastGraph`. All (potentially 64bit) `usize` integers are
     /// simply converted to u32 and if a value exceeds the 32bit limit an error is thrown. The only
-    /// exception is `std::u32::MAX`, which is converted to `std::usize::MAX`.
+    /// exception is `std::usize::MAX`, which is converted to `std::u32::MAX`. As this makes
+    /// `std::u32::MAX` a reserved value it exceeds the 32bit limit as well.
     pub fn new(fast_graph: &FastGraph) -> Self {
         FastGraph32 {
             num_nodes: usize_to_u32(fast_graph.get_num_nodes()),
@@ -79,11 +80,11 @@ pub struct FastGraphEdge32 {
 
 fn usize_to_u32(int: usize) -> u32 {
     if int == std::usize::MAX {
-        usize_to_u32(std::u32::MAX as usize)
-    } else if let Ok(x) = u32::try_from(int) {
-        x
-    } else {
-        panic!("Could not convert {} to a 32-bit integer", int);
+        return std::u32::MAX;
+    }
+    match u32::try_from(int) {
+        Ok(x) if x != std::u32::MAX => x,
+        _ => panic!("Could not convert {} to a 32-bit integer", int),
     }
 }
 
-- 
2.43.0


From 98d0dd0d45ee18d02d4244bd3f4acfd0b56d9ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 2/4] fix: report write errors when saving an input graph

---
 src/input_graph.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/input_graph.rs b/src/input_graph.rs
index cae2687..8e62264 100644
--- a/src/input_graph.rs
+++ b/src/input_graph.rs
@@ -73,7 +73,8 @@ impl InputGraph {
         for edge in self.get_edges() {
             writeln!(f, "a {} {} {}", edge.from, edge.to, edge.weight)?;
         }
-        Ok(())
+        // dropping the writer would ignore errors
+        f.flush()
     }
 
     /// Reads an input graph from a text file, using the DIMACS format:
@@ -107,7 +108,8 @@ impl InputGraph {
         for edge in self.get_edges() {
             writeln!(f, "a {} {} {}", edge.from + 1, edge.to + 1, edge.weight)?;
         }
-        Ok(())
+        // dropping the writer would ignore errors
+        f.flush()
     }
 
     pub fn add_edge(&mut self, from: NodeId, to: NodeId, weight: Weight) -> usize {
-- 
2.43.0


From 16c22ed2c8c38f391a57b0caa2ded74dd21142bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:54 +0000
Subject: [PATCH 3/4] Expose internals to external verification tools under
 cfg(fpv)

---
 src/lib.rs             | 12 ++++++++++++
 src/path_calculator.rs |  8 ++++++++
 src/valid_flags.rs     | 11 +++++++++++
 src/witness_search.rs  |  7 +++++++
 4 files changed, 38 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 13ba59c..b3a7e26 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,6 +17,9 @@
  * under the License.
  */
 
+// for cfg(fpv)
+#![allow(unexpected_cfgs)]
+
 #[macro_use]
 extern crate log;
 
@@ -50,6 +53,15 @@ mod shortest_path;
 mod valid_flags;
 mod witness_search;
 
+/// Internals for external verification tools, only available when compiling with `--cfg fpv`
+#[cfg(fpv)]
+pub mod fpv {
+    pub use crate::node_contractor::contract_node;
+    pub use crate::preparation_graph::PreparationGraph;
+    pub use crate::valid_flags::ValidFlags;
+    pub use crate::witness_search::WitnessSearch;
+}
+
 /// Prepares the given `InputGraph` for fast shortest path calculations.
 pub fn prepare(input_graph: &InputGraph) -> FastGraph {
     FastGraphBuilder::build(input_graph)
diff --git a/src/path_calculator.rs b/src/path_calculator.rs
index 98e0115..880ff6a 100644
--- a/src/path_calculator.rs
+++ b/src/path_calculator.rs
@@ -375,6 +375,14 @@ impl PathCalculator {
     }
 }
 
+#[cfg(fpv)]
+impl PathCalculator {
+    pub fn fpv_age(&mut self, left: usize) {
+        self.valid_flags_fwd.fpv_age(left);
+        self.valid_flags_bwd.fpv_age(left);
+    }
+}
+
 struct Data {
     settled: bool,
     weight: Weight,
diff --git a/src/valid_flags.rs b/src/valid_flags.rs
index 1bb9fc6..ac86c3f 100644
--- a/src/valid_flags.rs
+++ b/src/valid_flags.rs
@@ -54,6 +54,17 @@ impl ValidFlags {
     }
 }
 
+#[cfg(fpv)]
+impl ValidFlags {
+    /// Skips ahead to the point where all but `left` of the possible flag values are used up
+    pub fn fpv_age(&mut self, left: usize) {
+        self.valid_flag = MAX;
+        for _ in 0..left {
+            self.valid_flag -= 1;
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::valid_flags::ValidFlags;
diff --git a/src/witness_search.rs b/src/witness_search.rs
index c64ffdd..49da79b 100644
--- a/src/witness_search.rs
+++ b/src/witness_search.rs
@@ -168,6 +168,13 @@ impl WitnessSearch {
     }
 }
 
+#[cfg(fpv)]
+impl WitnessSearch {
+    pub fn fpv_age(&mut self, left: usize) {
+        self.valid_flags.fpv_age(left);
+    }
+}
+
 struct Data {
     settled: bool,
     weight: Weight,
-- 
2.43.0


From 493a4c7bdf32162bd9898ecaf5d2338bd56c855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 4/4] fix: unpack shortcuts without recursion

Shortcuts can be nested as deeply as the graph is large (for example when preparing a long chain with a fixed node
ordering), so that unpacking a path recursively overflowed the stack.
---
 src/path_calculator.rs | 94 +++++++++++++++---------------------------
 1 file changed, 33 insertions(+), 61 deletions(-)

diff --git a/src/path_calculator.rs b/src/path_calculator.rs
index 880ff6a..cd1a6dd 100644
--- a/src/path_calculator.rs
+++ b/src/path_calculator.rs
@@ -267,70 +267,42 @@ impl PathCalculator {
     }
 
     fn unpack_fwd(graph: &FastGraph, nodes: &mut Vec<NodeId>, edge_id: EdgeId, reverse: bool) {
-        if !graph.edges_fwd[edge_id].is_shortcut() {
-            nodes.push(graph.edges_fwd[edge_id].base_node);
-            return;
-        }
-        if reverse {
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_out_edge,
-                reverse,
-            );
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-        } else {
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_fwd[edge_id].replaced_out_edge,
-                reverse,
-            );
-        }
+        PathCalculator::unpack(graph, nodes, edge_id, true, reverse);
     }
 
     fn unpack_bwd(graph: &FastGraph, nodes: &mut Vec<NodeId>, edge_id: EdgeId, reverse: bool) {
-        if !graph.edges_bwd[edge_id].is_shortcut() {
-            nodes.push(graph.edges_bwd[edge_id].adj_node);
-            return;
-        }
-        if reverse {
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_out_edge,
-                reverse,
-            );
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-        } else {
-            PathCalculator::unpack_bwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_in_edge,
-                reverse,
-            );
-            PathCalculator::unpack_fwd(
-                graph,
-                nodes,
-                graph.edges_bwd[edge_id].replaced_out_edge,
-                reverse,
-            );
+        PathCalculator::unpack(graph, nodes, edge_id, false, reverse);
+    }
+
+    fn unpack(
+        graph: &FastGraph,
+        nodes: &mut Vec<NodeId>,
+        edge_id: EdgeId,
+        fwd: bool,
+        reverse: bool,
+    ) {
+        // shortcuts can be nested very deeply, so there must not be any recursion here
+        let mut stack = vec![(edge_id, fwd)];
+        while let Some((edge_id, fwd)) = stack.pop() {
+            let edge = if fwd {
+                &graph.edges_fwd[edge_id]
+            } else {
+                &graph.edges_bwd[edge_id]
+            };
+            if !edge.is_shortcut() {
+                nodes.push(if fwd { edge.base_node } else { edge.adj_node });
+                continue;
+            }
+            let in_edge = (edge.replaced_in_edge, false);
+            let out_edge = (edge.replaced_out_edge, true);
+            // the edge that comes first has to be on top of the stack
+            if reverse {
+                stack.push(in_edge);
+                stack.push(out_edge);
+            } else {
+                stack.push(out_edge);
+                stack.push(in_edge);
+            }
         }
     }
 
-- 
2.43.0


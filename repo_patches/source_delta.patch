From 6affe58737e7ec6bf12eaec35b0e83611431e44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 01/25] fix: keep earlier aliases when joining subgraphs in
 find_disjoint_subgraphs

---
 trellis/src/disjoint.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/trellis/src/disjoint.rs b/trellis/src/disjoint.rs
index 043dc4d..134282d 100644
--- a/trellis/src/disjoint.rs
+++ b/trellis/src/disjoint.rs
@@ -6,6 +6,13 @@ use log::debug;
 
 const NO_GRAPH: u32 = !0u32;
 
+fn find_leader(graph_alias: &[u32], mut g: u32) -> u32 {
+    while graph_alias[g as usize] != g {
+        g = graph_alias[g as usize];
+    }
+    g
+}
+
 pub fn find_disjoint_subgraphs(graph: &Graph) -> DisjointSubgraphs {
     // First we traverse all edges of the graph and create the graph_alias and v_graph tables.
     // This creates a set of "possible subgraphs". After this step, v_graph will contain one
@@ -61,6 +68,10 @@ pub fn find_disjoint_subgraphs(graph: &Graph) -> DisjointSubgraphs {
                     // It might not be the only connection, of course. Remember the connection
                     // by editing graph_alias[] so that both g_low and g_high "point" to one
                     // of the graphs. By convention, we make the higher one point to the lower.
+                    // Follow existing aliases first; either graph may already have been joined to
+                    // another graph, and that connection must not be lost.
+                    let g_from = find_leader(&graph_alias, g_from);
+                    let g_to = find_leader(&graph_alias, g_to);
                     let g_low = g_from.min(g_to);
                     let g_high = g_from.max(g_to);
                     graph_alias[g_high as usize] = g_low;
-- 
2.43.0


From 938cb81bccfaa5be9033c064c483c826249836fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 02/25] fix: PQ::remove must sift down through the greater
 child

---
 trellis/src/priority_queue.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/trellis/src/priority_queue.rs b/trellis/src/priority_queue.rs
index 1f4813c..6bf617f 100644
--- a/trellis/src/priority_queue.rs
+++ b/trellis/src/priority_queue.rs
@@ -62,19 +62,22 @@ impl<T: Ord> PQ<T> {
         let result = self.pq.pop();
         let mut i: usize = 0;
         loop {
+            // Swap with the greater of the two children, so that the child that moves up is also
+            // ordered with respect to its sibling.
             let left = left(i);
-            if left < self.pq.len() && self.pq[i] < self.pq[left] {
-                self.pq.swap(i, left);
-                i = left;
-                continue;
-            }
             let right = right(i);
-            if right < self.pq.len() && self.pq[i] < self.pq[right] {
-                self.pq.swap(i, right);
-                i = right;
-                continue;
+            let mut greatest = i;
+            if left < self.pq.len() && self.pq[greatest] < self.pq[left] {
+                greatest = left;
+            }
+            if right < self.pq.len() && self.pq[greatest] < self.pq[right] {
+                greatest = right;
+            }
+            if greatest == i {
+                break;
             }
-            break;
+            self.pq.swap(i, greatest);
+            i = greatest;
         }
 
         self.check();
-- 
2.43.0


From dd2cc4c631dc75aba2b265bc0f20e166bbc5d808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 03/25] fix: shortest path queue must sift down through the
 lesser child

---
 trellis/src/ortho/shortest_path.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/trellis/src/ortho/shortest_path.rs b/trellis/src/ortho/shortest_path.rs
index a634510..5bc8bf9 100644
--- a/trellis/src/ortho/shortest_path.rs
+++ b/trellis/src/ortho/shortest_path.rs
@@ -51,20 +51,22 @@ impl FindPathState {
     fn pq_reorder_down(&mut self, index: usize) {
         let mut i: usize = index;
         while i < self.pq.len() {
-            let i_key = &self.pq[i];
+            // Swap with the lesser of the two children, so that the child that moves up is also
+            // ordered with respect to its sibling.
             let left = left(i);
-            if left < self.pq.len() && !Self::pq_is_ordered(i_key, &self.pq[left]) {
-                self.pq.swap(i, left);
-                i = left;
-                continue;
-            }
             let right = right(i);
-            if right < self.pq.len() && !Self::pq_is_ordered(i_key, &self.pq[right]) {
-                self.pq.swap(i, right);
-                i = right;
-                continue;
+            let mut least = i;
+            if left < self.pq.len() && !Self::pq_is_ordered(&self.pq[least], &self.pq[left]) {
+                least = left;
             }
-            break;
+            if right < self.pq.len() && !Self::pq_is_ordered(&self.pq[least], &self.pq[right]) {
+                least = right;
+            }
+            if least == i {
+                break;
+            }
+            self.pq.swap(i, least);
+            i = least;
         }
     }
 
-- 
2.43.0


From 27bf1bfc47dc886824384c1ef9963f763cf41121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 04/25] fix: find_shortest_path compared a path index with a
 vertex

---
 trellis/src/ortho/shortest_path.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trellis/src/ortho/shortest_path.rs b/trellis/src/ortho/shortest_path.rs
index 5bc8bf9..c1354f8 100644
--- a/trellis/src/ortho/shortest_path.rs
+++ b/trellis/src/ortho/shortest_path.rs
@@ -155,10 +155,11 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
         let mut pi = best.path;
         loop {
             path_verts.push(state.paths[pi as usize].vert);
-            if pi == from_vert as i32 {
+            pi = state.paths[pi as usize].prev_path;
+            if pi < 0 {
+                // That was the initial path, which starts at from_vert.
                 break;
             }
-            pi = state.paths[pi as usize].prev_path;
         }
         Some(path_verts)
     } else {
-- 
2.43.0


From c0a356b6937d6c0e6b664da4621761b91fec0d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 05/25] fix: find_shortest_path never returned on a graph with
 a cycle

---
 trellis/src/ortho/shortest_path.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/trellis/src/ortho/shortest_path.rs b/trellis/src/ortho/shortest_path.rs
index c1354f8..dc9e758 100644
--- a/trellis/src/ortho/shortest_path.rs
+++ b/trellis/src/ortho/shortest_path.rs
@@ -1,3 +1,4 @@
+use std::collections::HashMap;
 
 type Weight = i32;
 
@@ -117,6 +118,10 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
 
     let mut best_path: Option<BestPath> = None;
 
+    // For each vertex reached, the weight of the best path to it.
+    let mut best_weight: HashMap<V, Weight> = HashMap::new();
+    best_weight.insert(from_vert, 0);
+
     loop {
         // iterate on search
         // the entry at pq[0] is the shortest path
@@ -140,6 +145,13 @@ pub fn find_shortest_path<Edges, EdgeIterator>(
             for (next_vert_index, edge_weight) in edges(current_vert) {
                 let next_path_index = state.paths.len();
                 let next_path_weight = current_path.weight + edge_weight;
+                // Only follow this edge if it improves on the best path to its head. Without
+                // this, the search would go around the cycles of the graph forever.
+                match best_weight.get(&next_vert_index) {
+                    Some(&best) if best <= next_path_weight => continue,
+                    _ => {}
+                }
+                best_weight.insert(next_vert_index, next_path_weight);
                 state.paths.push(Path {
                     vert: next_vert_index as i32,
                     // weight: next_path_weight,
-- 
2.43.0


From 4b5f1df9bcd8abd8a2b51bd7b643cfa11ef04fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 06/25] fix: a cloned VecOption reported a length of zero

---
 trellis/src/vec_option.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trellis/src/vec_option.rs b/trellis/src/vec_option.rs
index 24dccf7..50ed993 100644
--- a/trellis/src/vec_option.rs
+++ b/trellis/src/vec_option.rs
@@ -49,6 +49,9 @@ impl<T: Clone> Clone for VecOption<T> {
                 }
             }
         }
+        unsafe {
+            clone_vec.set_len(clone_capacity);
+        }
         Self {
             vec: clone_vec,
             present: self.present.clone(),
-- 
2.43.0


From 785430384adbb56b1b022c29c4b64f8665849e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 07/25] fix: VecOption dropped items twice when dropping an
 item panicked

---
 trellis/src/vec_option.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trellis/src/vec_option.rs b/trellis/src/vec_option.rs
index 50ed993..f7e6820 100644
--- a/trellis/src/vec_option.rs
+++ b/trellis/src/vec_option.rs
@@ -754,6 +754,10 @@ impl<'a, T> Iterator for IterRunsMut<'a, T> {
 
 impl<T> Drop for VecOption<T> {
     fn drop(&mut self) {
+        // Set the length first. If dropping an item panics, then the Vec must not drop any items.
+        unsafe {
+            self.vec.set_len(0);
+        }
         if core::mem::needs_drop::<T>() {
             for (i, value) in self.present.iter().enumerate() {
                 if value {
@@ -763,9 +767,6 @@ impl<T> Drop for VecOption<T> {
                 }
             }
         }
-        unsafe {
-            self.vec.set_len(0);
-        }
     }
 }
 
-- 
2.43.0


From 12b933a75b7ed4689a817e3a5f78c9bb46c57bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 08/25] fix: iter_pairs_manual reported the wrong keys

---
 trellis/src/ramp_table.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/trellis/src/ramp_table.rs b/trellis/src/ramp_table.rs
index 9d0f3a5..0d870b3 100644
--- a/trellis/src/ramp_table.rs
+++ b/trellis/src/ramp_table.rs
@@ -201,14 +201,15 @@ impl<T> RampTable<T> {
                 if let Some(value) = self.value_iter.next() {
                     // What key is this value for?
                     while self.num_values == 0 {
-                        let next_index = *self.index_iter.next().unwrap() as usize;
+                        // If there are no more keys, then the remaining values are unowned.
+                        let next_index = *self.index_iter.next()? as usize;
                         self.num_values = next_index - self.current_index;
                         self.current_index = next_index;
                         self.current_key += 1;
                     }
-                    // TODO: current_key is not correct yet
+                    // current_key has already been advanced past the key for this value.
                     self.num_values -= 1;
-                    Some((self.current_key, value))
+                    Some((self.current_key - 1, value))
                 } else {
                     None
                 }
@@ -217,7 +218,7 @@ impl<T> RampTable<T> {
 
         Pairs {
             value_iter: self.values.iter(),
-            index_iter: self.index.iter(),
+            index_iter: self.index[1..].iter(),
             current_key: 0,
             current_index: 0,
             num_values: 0,
-- 
2.43.0


From 9d72043ba8a6882bdce52b76986cfc5e0ed64642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 09/25] fix: Pshortestpath panicked copying its points into an
 empty Vec

---
 trellis/src/pathplan/shortest.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trellis/src/pathplan/shortest.rs b/trellis/src/pathplan/shortest.rs
index 57c4f1c..d96ec53 100644
--- a/trellis/src/pathplan/shortest.rs
+++ b/trellis/src/pathplan/shortest.rs
@@ -61,7 +61,7 @@ pub enum ShortestPathError {
  */
 pub fn Pshortestpath(polyp: &Ppoly_t, eps: &[Ppoint_t]) -> Result<Ppolyline_t, ShortestPathError> {
     let mut ps_vec: Vec<Ppoint_t> = Vec::with_capacity(polyp.ps.len() + 2);
-    ps_vec.copy_from_slice(&polyp.ps);
+    ps_vec.extend_from_slice(&polyp.ps);
 
     let mut pnls: Vec<pointnlink_t> = Vec::new();
     // pnlps contains indices into pnls
-- 
2.43.0


From 71655c2d24b980d66155e42036af7628bf425bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 10/25] fix: Pshortestpath panicked because its deque was never
 given a length

---
 trellis/src/pathplan/shortest.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trellis/src/pathplan/shortest.rs b/trellis/src/pathplan/shortest.rs
index d96ec53..4301f7c 100644
--- a/trellis/src/pathplan/shortest.rs
+++ b/trellis/src/pathplan/shortest.rs
@@ -70,7 +70,7 @@ pub fn Pshortestpath(polyp: &Ppoly_t, eps: &[Ppoint_t]) -> Result<Ppolyline_t, S
     pnlps.reserve(polyp.ps.len());
 
     let mut dq = deque_t::default();
-    dq.pnlps.reserve(polyp.ps.len() * 2);
+    dq.pnlps.resize(polyp.ps.len() * 2, NULL_PNLS);
     dq.fpnlpi = dq.pnlps.len() / 2;
     dq.lpnlpi = dq.fpnlpi - 1;
 
-- 
2.43.0


From 2bea455e56fd6acef2aacedbb3deeeda21137240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 11/25] fix: compVis underflowed on the first vertices of every
 configuration

---
 trellis/src/pathplan/visibility.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/trellis/src/pathplan/visibility.rs b/trellis/src/pathplan/visibility.rs
index 23a20e7..e397b91 100644
--- a/trellis/src/pathplan/visibility.rs
+++ b/trellis/src/pathplan/visibility.rs
@@ -257,13 +257,8 @@ fn compVis(conf: &mut vconfig_t, start: usize) {
         wadj[(previ as usize, i)] = d;
 
         /* Check remaining, earlier vertices */
-        let mut j;
-        if previ == i as i32 - 1 {
-            j = i - 2;
-        } else {
-            j = i - 1;
-        }
-        loop {
+        let num_earlier = if previ == i as i32 - 1 { i - 1 } else { i };
+        for j in (0..num_earlier).rev() {
             if inCone(i, j, pts, nextPt, prevPt)
                 && inCone(j, i, pts, nextPt, prevPt)
                 && clear(pts[i], pts[j], V, V, V, pts, nextPt, prevPt)
@@ -273,11 +268,6 @@ fn compVis(conf: &mut vconfig_t, start: usize) {
                 wadj[(i, j)] = d;
                 wadj[(j, i)] = d;
             }
-
-            if j == 0 {
-                break;
-            }
-            j -= 1;
         }
     }
 }
-- 
2.43.0


From d586b1ed03498ff84c56480bcb6ae41febf57beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 12/25] fix: create_proper_graph never returned the graph that
 it built

---
 trellis/src/layering.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/trellis/src/layering.rs b/trellis/src/layering.rs
index 0032ae4..e4f454b 100644
--- a/trellis/src/layering.rs
+++ b/trellis/src/layering.rs
@@ -1,5 +1,6 @@
 use crate::error::Error;
 use crate::graph::Graph;
+use crate::ramp_table::RampTable;
 
 #[derive(Clone, Debug, Eq, PartialEq)]
 pub struct LayerMap {
@@ -121,12 +122,10 @@ pub fn create_proper_graph(graph: &Graph, layers: &LayerMap) -> Graph {
     let expected_num_vert_proper = graph.num_verts() + proper_num_virt_v;
     let expected_num_edge_proper = graph.num_edges() + proper_num_virt_v;
 
-    let mut proper_from: Vec<u32> = Vec::with_capacity(expected_num_edge_proper);
-    let mut proper_to: Vec<u32> = Vec::with_capacity(expected_num_edge_proper);
+    let mut proper_edges: Vec<(u32, u32)> = Vec::with_capacity(expected_num_edge_proper);
 
     let mut add_edge = |f, t| {
-        proper_from.push(f);
-        proper_to.push(t);
+        proper_edges.push((f, t));
     };
 
     for (from, to) in graph.iter_edges_flattened() {
@@ -145,15 +144,20 @@ pub fn create_proper_graph(graph: &Graph, layers: &LayerMap) -> Graph {
         add_edge(prev_v, to);
     }
 
-    // Because of the iteration order, we know that values in 'proper_form'
-    // are in non-decreasing order. Next, we transform that into an index
-    // table for a RampTable.
+    // The edges of the virtual vertices are interleaved with the edges of the
+    // original vertices. Put them in order of the 'from' vertex (keeping the order
+    // of the edges of each vertex), and then transform that into an index table
+    // for a RampTable.
+    proper_edges.sort_by_key(|&(f, _)| f);
 
     let nv_proper = next_virt_v;
 
-    let index = convert_runs_to_index(proper_from.iter().copied(), nv_proper as usize);
+    let index = convert_runs_to_index(proper_edges.iter().map(|&(f, _)| f), nv_proper as usize);
+    let values = proper_edges.iter().map(|&(_, t)| t).collect();
 
-    unimplemented!();
+    Graph {
+        edges: RampTable { index, values },
+    }
 }
 
 /*
@@ -185,7 +189,7 @@ fn convert_runs_to_index(iter: impl Iterator<Item = u32>, len: usize) -> Vec<u32
         }
         base += 1;
     }
-    while index.len() < len {
+    while index.len() <= len {
         index.push(base);
     }
     index
-- 
2.43.0


From d8c0e74e34183ac046a60fd2c8825867c3a69101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:54 +0000
Subject: [PATCH 13/25] hook: expose Ptriangulate to the verification harness
 (cfg trellis_verif)

---
 trellis/src/pathplan/triang.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/trellis/src/pathplan/triang.rs b/trellis/src/pathplan/triang.rs
index f094f3b..ec7d14d 100644
--- a/trellis/src/pathplan/triang.rs
+++ b/trellis/src/pathplan/triang.rs
@@ -137,3 +137,12 @@ fn dpd_between(pa: Ppoint_t, pb: Ppoint_t, pc: Ppoint_t) -> bool {
             && (pca.x * pca.x + pca.y * pca.y <= pba.x * pba.x + pba.y * pba.y)
     }
 }
+
+/// Exposes the private entry point of this module to the verification harness.
+#[cfg(trellis_verif)]
+pub fn verif_triangulate<F: FnMut(Ppoint_t, Ppoint_t, Ppoint_t)>(
+    polygon: &Ppoly_t,
+    output: &mut F,
+) -> Result<(), ()> {
+    Ptriangulate(polygon, output)
+}
-- 
2.43.0


From c03987caa9b9af3c4ff0d27a87f34369f40c62c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:54 +0000
Subject: [PATCH 14/25] hook: expose the color conversions to the verification
 harness (cfg trellis_verif)

---
 trellis/src/common/colxlate.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/trellis/src/common/colxlate.rs b/trellis/src/common/colxlate.rs
index 6cf0ee3..9aff3f7 100644
--- a/trellis/src/common/colxlate.rs
+++ b/trellis/src/common/colxlate.rs
@@ -530,3 +530,22 @@ void setColorScheme (char* s)
 
 
 */
+
+/// Exposes the private color conversions to the verification harness.
+#[cfg(trellis_verif)]
+pub mod verif {
+    pub fn hsv2rgb(h: f64, s: f64, v: f64) -> [f64; 3] {
+        let c = super::hsv2rgb(h, s, v);
+        [c.r, c.g, c.b]
+    }
+
+    pub fn rgb2hsv(r: f64, g: f64, b: f64) -> [f64; 3] {
+        let c = super::rgb2hsv(r, g, b);
+        [c.h, c.s, c.v]
+    }
+
+    pub fn rgb2cmyk(r: f64, g: f64, b: f64) -> [f64; 4] {
+        let c = super::rgb2cmyk(r, g, b);
+        [c.c, c.m, c.y, c.k]
+    }
+}
-- 
2.43.0


From 15967e1b19bd9aa205fe47eff3bc1f419d5b5c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 15/25] fix: a half-turn elliptic wedge could come out as one
 and a half turns

---
 trellis/src/common/ellipse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trellis/src/common/ellipse.rs b/trellis/src/common/ellipse.rs
index c4847a1..1592a98 100644
--- a/trellis/src/common/ellipse.rs
+++ b/trellis/src/common/ellipse.rs
@@ -235,7 +235,8 @@ fn initEllipse(
 
     // the preceding correction fails if we have exactly eta2 - eta1 = 2*PI
     // it reduces the interval to zero length
-    if (lambda2 - lambda1 > PI) && (ep.eta2 - ep.eta1 < PI) {
+    // (a half turn may come out slightly less than PI, so test well below it)
+    if (lambda2 - lambda1 > PI) && (ep.eta2 - ep.eta1 < 0.5 * PI) {
         ep.eta2 += TWOPI;
     }
 
-- 
2.43.0


From 35e35c9d85f22c48884df7604c2834b8f916f354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 16/25] fix: ROUND took 0.49999999999999994 up to 1

---
 trellis/src/common/arith.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/trellis/src/common/arith.rs b/trellis/src/common/arith.rs
index c72dffd..c098237 100644
--- a/trellis/src/common/arith.rs
+++ b/trellis/src/common/arith.rs
@@ -42,11 +42,7 @@ pub const M_PI: f64 = core::f64::consts::PI;
 pub const SQRT2: f64 = core::f64::consts::SQRT_2;
 
 pub fn ROUND(f: f64) -> i32 {
-    if f >= 0.0 {
-        (f + 0.5) as i32
-    } else {
-        (f - 0.5) as i32
-    }
+    f.round() as i32
 }
 pub fn RADIANS(deg: f64) -> f64 {
     deg / 180.0 * M_PI
-- 
2.43.0


From cefb08de30b06441048105cad04f624a5df74858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:53 +0000
Subject: [PATCH 17/25] fix: a spline tangent that vanishes only by rounding
 loses the end direction

---
 trellis/src/pathplan/route.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trellis/src/pathplan/route.rs b/trellis/src/pathplan/route.rs
index c124ad4..e62e07e 100644
--- a/trellis/src/pathplan/route.rs
+++ b/trellis/src/pathplan/route.rs
@@ -237,8 +237,10 @@ fn mkspline(
         scale0 = detX1 / det01;
         scale3 = det0X / det01;
     }
-    if det01.abs() < 1.0e-6 || scale0 <= 0.0 || scale3 <= 0.0 {
-        let d01 = dist(inps[0], inps[inps.len() - 1]) / 3.0;
+    let d01 = dist(inps[0], inps[inps.len() - 1]) / 3.0;
+    // A scale that differs from zero only by rounding would lose the end direction.
+    let least = EPSILON2 * d01;
+    if det01.abs() < 1.0e-6 || scale0 <= least || scale3 <= least {
         scale0 = d01;
         scale3 = d01;
     }
-- 
2.43.0


From db44859de0bfddf8bfd537dad3f42a5ab12f9892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:56 +0000
Subject: [PATCH 18/25] fix: a hue that rounds up to a full turn is zero

---
 trellis/src/common/colxlate.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trellis/src/common/colxlate.rs b/trellis/src/common/colxlate.rs
index 9aff3f7..2cd1b20 100644
--- a/trellis/src/common/colxlate.rs
+++ b/trellis/src/common/colxlate.rs
@@ -75,6 +75,10 @@ fn rgb2hsv(r: f64, g: f64, b: f64) -> Hsv<f64> {
         ht = ht * 60.0;
         if ht < 0.0 {
             ht += 360.0;
+            // a hue that is only just negative rounds up to a full turn
+            if ht >= 360.0 {
+                ht = 0.0;
+            }
         }
     }
 
-- 
2.43.0


From c5c559eba9e2bb592082a74f937b1d6284ed905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:37 +0000
Subject: [PATCH 19/25] fix: find shortest paths longer than 2^31 - 1

Vertices not seen yet were marked with a distance of i32::MAX, so that no
path at least that long was ever recorded, and routes between far apart
points came back without predecessors. Mark them with the largest number
instead, with the sentinel below it.
---
 trellis/src/pathplan/shortestpth.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trellis/src/pathplan/shortestpth.rs b/trellis/src/pathplan/shortestpth.rs
index cf004b8..91af525 100644
--- a/trellis/src/pathplan/shortestpth.rs
+++ b/trellis/src/pathplan/shortestpth.rs
@@ -4,7 +4,7 @@ use super::visibility::directVis;
 use super::*;
 use crate::vec2::Ppoint_t;
 
-const UNSEEN: COORD = core::i32::MAX as f64;
+const UNSEEN: COORD = COORD::MAX; /* farther than any path is long */
 
 /* shortestPath:
  * Given a VxV weighted adjacency matrix, compute the shortest
@@ -30,7 +30,7 @@ pub fn shortestPathGeneric<Wadj: Fn(usize, usize) -> f64>(
     /* initialize arrays */
     let mut dad: Vec<i32> = vec![-1; V];
     let mut vl: Vec<COORD> = vec![-UNSEEN; V + 1]; /* One extra for sentinel, which is at index 0 */
-    vl[0] = -(UNSEEN + 1.0); /* Set sentinel */
+    vl[0] = COORD::NEG_INFINITY; /* Set sentinel */
     const val: usize = 1; // an offset into vl; rewrite val[x] as vl[val + x]
 
     let mut min = root;
-- 
2.43.0


From 770ff0ceba87a8aba21cd4cb37bef34787a6a445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:27 +0000
Subject: [PATCH 20/25] fix: polygons with repeated points and points on edges
 keep their direction

---
 trellis/src/pathplan/shortest.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/trellis/src/pathplan/shortest.rs b/trellis/src/pathplan/shortest.rs
index 4301f7c..5ec5d1f 100644
--- a/trellis/src/pathplan/shortest.rs
+++ b/trellis/src/pathplan/shortest.rs
@@ -76,29 +76,25 @@ pub fn Pshortestpath(polyp: &Ppoly_t, eps: &[Ppoint_t]) -> Result<Ppolyline_t, S
 
     {
         /* make sure polygon is CCW and load pnls array */
-        let mut minx: f64 = polyp.ps[0].x;
+        // The lowest of the leftmost points is a corner, never in the middle of a straight edge.
+        let pn = polyp.ps.len();
         let mut minpi: usize = 0;
         for (pi, pip) in polyp.ps.iter().enumerate() {
-            if minx > pip.x {
-                minx = pip.x;
+            let minp = polyp.ps[minpi];
+            if minp.x > pip.x || (minp.x == pip.x && minp.y > pip.y) {
                 minpi = pi;
             }
         }
 
+        // Its neighbors, past any repetitions of the point itself.
         let p2 = polyp.ps[minpi];
-        let p1 = polyp.ps[if minpi == 0 {
-            polyp.ps.len() - 1
-        } else {
-            minpi - 1
-        }];
-        let p3 = polyp.ps[if minpi == polyp.ps.len() - 1 {
-            0
-        } else {
-            minpi + 1
-        }];
-        if (p1.x == p2.x && p2.x == p3.x) && (p3.y > p2.y) || ccw(p1, p2, p3) != ISCCW {
+        let mut before = (1..pn).map(|k| polyp.ps[(minpi + pn - k) % pn]);
+        let mut after = (1..pn).map(|k| polyp.ps[(minpi + k) % pn]);
+        let p1 = before.find(|&p| p != p2).unwrap_or(p2);
+        let p3 = after.find(|&p| p != p2).unwrap_or(p2);
+        if ccw(p1, p2, p3) != ISCCW {
             for pi in (0..polyp.ps.len()).rev() {
-                if pi < polyp.ps.len() - 1 && polyp.ps[pi] == polyp.ps[pi + 1] {
+                if polyp.ps[pi] == polyp.ps[(pi + 1) % pn] {
                     continue;
                 }
                 let pnll = pnls.len();
@@ -110,7 +106,7 @@ pub fn Pshortestpath(polyp: &Ppoly_t, eps: &[Ppoint_t]) -> Result<Ppolyline_t, S
             }
         } else {
             for pi in 0..polyp.ps.len() {
-                if pi > 0 && polyp.ps[pi] == polyp.ps[pi - 1] {
+                if polyp.ps[pi] == polyp.ps[(pi + pn - 1) % pn] {
                     continue;
                 }
                 let pnll = pnls.len();
-- 
2.43.0


From 90729009892c9e40c778b70501e7fd07fbf460fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:05 +0000
Subject: [PATCH 21/25] fix: keep the accuracy of a lone cubic root

The second cube root of Cardano's formula was taken from a difference that
cancels when the slope is small against the constant: the root of
x^3 + 2^-12 x - 1 came out 4e-6 off. Derive it from the product of the two.
---
 trellis/src/pathplan/solvers.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/trellis/src/pathplan/solvers.rs b/trellis/src/pathplan/solvers.rs
index 08c33a7..9009c3a 100644
--- a/trellis/src/pathplan/solvers.rs
+++ b/trellis/src/pathplan/solvers.rs
@@ -43,9 +43,11 @@ pub fn solve3(coeff: &[f64; 4]) -> (usize, [f64; 4]) {
         roots[2] = temp * ((theta - PI - PI) / 3.0).cos();
         rootn = 3;
     } else {
-        let alpha = 0.5 * (disc.sqrt() - q);
-        let beta = -q - alpha;
-        roots[0] = cbrt(alpha) + cbrt(beta);
+        // Take the cube root that has nothing to cancel; the product of the two is -p.
+        let half = 0.5 * disc.sqrt();
+        let u = cbrt(-0.5 * q + if q < 0.0 { half } else { -half });
+        let v = if u == 0.0 { 0.0 } else { -p / u };
+        roots[0] = u + v;
         if disc > 0.0 {
             rootn = 1;
         } else {
-- 
2.43.0


From b96c8ba8b3af3eb75a60d1f17bc4594d7c94ca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:34 +0000
Subject: [PATCH 22/25] fix: pathplan: decide turns exactly where rounding
 could mislead the shortest path

With coordinates that are not exact in binary, such as multiples of 0.1,
the computed turn of three almost co-linear points is decided by rounding.
The tests of a triangulation then contradict one another, and the path
found is not the shortest. Compute such turns with an exact sign.
---
 trellis/src/pathplan/shortest.rs | 72 +++++++++++++++++++++++++++++++-
 1 file changed, 71 insertions(+), 1 deletion(-)

diff --git a/trellis/src/pathplan/shortest.rs b/trellis/src/pathplan/shortest.rs
index 5ec5d1f..c7f01ff 100644
--- a/trellis/src/pathplan/shortest.rs
+++ b/trellis/src/pathplan/shortest.rs
@@ -506,7 +506,13 @@ fn finddqsplit(dq: &deque_t, ps: &[Ppoint_t], pnls: &[pointnlink_t], pnlp: usize
 
 /* ccw test: CCW, CW, or co-linear */
 fn ccw(p1p: Ppoint_t, p2p: Ppoint_t, p3p: Ppoint_t) -> i32 {
-    let d = (p1p.y - p2p.y) * (p3p.x - p2p.x) - (p3p.y - p2p.y) * (p1p.x - p2p.x);
+    let left = (p1p.y - p2p.y) * (p3p.x - p2p.x);
+    let right = (p3p.y - p2p.y) * (p1p.x - p2p.x);
+    let mut d = left - right;
+    // If the points are so nearly co-linear that rounding could decide, then compute exactly.
+    if d.abs() < 2.0 * COORD::EPSILON * (left.abs() + right.abs()) {
+        d = exact_area2(p1p, p2p, p3p);
+    }
     if d > 0.0 {
         ISCCW
     } else {
@@ -518,6 +524,70 @@ fn ccw(p1p: Ppoint_t, p2p: Ppoint_t, p3p: Ppoint_t) -> i32 {
     }
 }
 
+/* The sum as rounded, and what rounding took from it. */
+fn exact_sum(a: COORD, b: COORD) -> (COORD, COORD) {
+    let sum = a + b;
+    let from_b = sum - a;
+    (sum, (a - (sum - from_b)) + (b - from_b))
+}
+
+/* Twice the signed area of the triangle as in ccw, with an exact sign. */
+#[inline(never)]
+fn exact_area2(p1p: Ppoint_t, p2p: Ppoint_t, p3p: Ppoint_t) -> COORD {
+    let (x1, x1_rest) = exact_sum(p1p.x, -p2p.x);
+    let (y1, y1_rest) = exact_sum(p1p.y, -p2p.y);
+    let (x3, x3_rest) = exact_sum(p3p.x, -p2p.x);
+    let (y3, y3_rest) = exact_sum(p3p.y, -p2p.y);
+    if x1_rest == 0.0 && y1_rest == 0.0 && x3_rest == 0.0 && y3_rest == 0.0 {
+        let left = y1 * x3;
+        let right = y3 * x1;
+        if left == right {
+            return y1.mul_add(x3, -left) - y3.mul_add(x1, -right);
+        }
+    }
+    let products = [
+        (y1_rest, x3_rest),
+        (-y3_rest, x1_rest),
+        (y1_rest, x3),
+        (y1, x3_rest),
+        (-y3_rest, x1),
+        (-y3, x1_rest),
+        (y1, x3),
+        (-y3, x1),
+    ];
+    // The sum so far, in parts that do not overlap, the greatest last. None of them is zero.
+    let mut parts = [0.0; 16];
+    let mut num_parts = 0;
+    for &(a, b) in products.iter() {
+        let product = a * b;
+        if product == 0.0 {
+            continue;
+        }
+        for &term in [a.mul_add(b, -product), product].iter() {
+            let mut sum = term;
+            let mut num_kept = 0;
+            for i in 0..num_parts {
+                let (total, lost) = exact_sum(sum, parts[i]);
+                if lost != 0.0 {
+                    parts[num_kept] = lost;
+                    num_kept += 1;
+                }
+                sum = total;
+            }
+            if sum != 0.0 {
+                parts[num_kept] = sum;
+                num_kept += 1;
+            }
+            num_parts = num_kept;
+        }
+    }
+    if num_parts == 0 {
+        0.0
+    } else {
+        parts[num_parts - 1]
+    }
+}
+
 /* line to line intersection */
 fn intersects(pap: Ppoint_t, pbp: Ppoint_t, pcp: Ppoint_t, pdp: Ppoint_t) -> bool {
     if ccw(pap, pbp, pcp) == ISON
-- 
2.43.0


From bdaad6a03087f1703581851fd979c633c44b4dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:44 +0000
Subject: [PATCH 23/25] fix: inBetween: tell points apart on the axis on which
 the segment is longer

With coordinates that are not exact in binary, the ends of an upright segment
may differ by rounding in x, and no point on it was found to be between them:
the visibility graph then looked through obstacles.
---
 trellis/src/pathplan/visibility.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trellis/src/pathplan/visibility.rs b/trellis/src/pathplan/visibility.rs
index e397b91..04aaca0 100644
--- a/trellis/src/pathplan/visibility.rs
+++ b/trellis/src/pathplan/visibility.rs
@@ -62,8 +62,8 @@ static int open_intersect(Ppoint_t a, Ppoint_t b, Ppoint_t c, Ppoint_t d)
  * Return true if c is in (a,b), assuming a,b,c are collinear.
  */
 pub fn inBetween(a: Ppoint_t, b: Ppoint_t, c: Ppoint_t) -> bool {
-    if a.x != b.x {
-        /* not vertical */
+    if (a.x - b.x).abs() > (a.y - b.y).abs() {
+        /* more level than upright, so that rounding of x cannot matter */
         ((a.x < c.x) && (c.x < b.x)) || ((b.x < c.x) && (c.x < a.x))
     } else {
         ((a.y < c.y) && (c.y < b.y)) || ((b.y < c.y) && (c.y < a.y))
-- 
2.43.0


From 692f3fad40957eb9011cafbc8a6cf5377e129d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:44 +0000
Subject: [PATCH 24/25] fix: splineintersectsline: cut with an upright line by
 y

With a barrier that is upright but for rounding, the slope is so large that
the coefficients of the cubic cancel, and crossings were not found.
---
 trellis/src/pathplan/route.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/trellis/src/pathplan/route.rs b/trellis/src/pathplan/route.rs
index e62e07e..c0aba35 100644
--- a/trellis/src/pathplan/route.rs
+++ b/trellis/src/pathplan/route.rs
@@ -357,7 +357,8 @@ fn splineintersectsline(sps: &[Ppoint_t], lps: &[Ppoint_t], roots: &mut [f64]) -
     let xcoeff = [lps[0].x, lps[1].x - lps[0].x];
     let ycoeff = [lps[0].y, lps[1].y - lps[0].y];
     let mut rootn: usize = 0;
-    if xcoeff[1] == 0.0 {
+    // A line that is more upright than level has its points told apart by y.
+    if xcoeff[1].abs() < ycoeff[1].abs() || xcoeff[1] == 0.0 {
         if ycoeff[1] == 0.0 {
             let mut scoeff = points2coeff(sps[0].x, sps[1].x, sps[2].x, sps[3].x);
             scoeff[0] -= xcoeff[0];
@@ -390,8 +391,14 @@ fn splineintersectsline(sps: &[Ppoint_t], lps: &[Ppoint_t], roots: &mut [f64]) -
             }
             return rootn;
         } else {
-            let mut scoeff = points2coeff(sps[0].x, sps[1].x, sps[2].x, sps[3].x);
-            scoeff[0] -= xcoeff[0];
+            let rat = xcoeff[1] / ycoeff[1];
+            let mut scoeff = points2coeff(
+                sps[0].x - rat * sps[0].y,
+                sps[1].x - rat * sps[1].y,
+                sps[2].x - rat * sps[2].y,
+                sps[3].x - rat * sps[3].y,
+            );
+            scoeff[0] += rat * ycoeff[0] - xcoeff[0];
             let (xrootn, xroots) = solve3(&scoeff);
             if xrootn == 4 {
                 return 4;
-- 
2.43.0


From c8bde1c71b21802a60db3b6b70fba222f87c979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:00 +0000
Subject: [PATCH 25/25] fix: triangulation: decide turns exactly where rounding
 could mislead it

---
 trellis/src/pathplan/shortest.rs | 23 +++++++++++++++--------
 trellis/src/pathplan/triang.rs   |  3 ++-
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/trellis/src/pathplan/shortest.rs b/trellis/src/pathplan/shortest.rs
index c7f01ff..c6429a4 100644
--- a/trellis/src/pathplan/shortest.rs
+++ b/trellis/src/pathplan/shortest.rs
@@ -506,13 +506,7 @@ fn finddqsplit(dq: &deque_t, ps: &[Ppoint_t], pnls: &[pointnlink_t], pnlp: usize
 
 /* ccw test: CCW, CW, or co-linear */
 fn ccw(p1p: Ppoint_t, p2p: Ppoint_t, p3p: Ppoint_t) -> i32 {
-    let left = (p1p.y - p2p.y) * (p3p.x - p2p.x);
-    let right = (p3p.y - p2p.y) * (p1p.x - p2p.x);
-    let mut d = left - right;
-    // If the points are so nearly co-linear that rounding could decide, then compute exactly.
-    if d.abs() < 2.0 * COORD::EPSILON * (left.abs() + right.abs()) {
-        d = exact_area2(p1p, p2p, p3p);
-    }
+    let d = exact_turn(p1p, p2p, p3p);
     if d > 0.0 {
         ISCCW
     } else {
@@ -524,6 +518,19 @@ fn ccw(p1p: Ppoint_t, p2p: Ppoint_t, p3p: Ppoint_t) -> i32 {
     }
 }
 
+/* Twice the signed area of the triangle, with an exact sign. */
+pub(super) fn exact_turn(p1p: Ppoint_t, p2p: Ppoint_t, p3p: Ppoint_t) -> COORD {
+    let left = (p1p.y - p2p.y) * (p3p.x - p2p.x);
+    let right = (p3p.y - p2p.y) * (p1p.x - p2p.x);
+    let d = left - right;
+    // If the points are so nearly co-linear that rounding could decide, then compute exactly.
+    if d.abs() < 2.0 * COORD::EPSILON * (left.abs() + right.abs()) {
+        exact_area2(p1p, p2p, p3p)
+    } else {
+        d
+    }
+}
+
 /* The sum as rounded, and what rounding took from it. */
 fn exact_sum(a: COORD, b: COORD) -> (COORD, COORD) {
     let sum = a + b;
@@ -531,7 +538,7 @@ fn exact_sum(a: COORD, b: COORD) -> (COORD, COORD) {
     (sum, (a - (sum - from_b)) + (b - from_b))
 }
 
-/* Twice the signed area of the triangle as in ccw, with an exact sign. */
+/* The same without rounding, up to the last addition. */
 #[inline(never)]
 fn exact_area2(p1p: Ppoint_t, p2p: Ppoint_t, p3p: Ppoint_t) -> COORD {
     let (x1, x1_rest) = exact_sum(p1p.x, -p2p.x);
diff --git a/trellis/src/pathplan/triang.rs b/trellis/src/pathplan/triang.rs
index ec7d14d..fb66ef9 100644
--- a/trellis/src/pathplan/triang.rs
+++ b/trellis/src/pathplan/triang.rs
@@ -1,3 +1,4 @@
+use super::shortest::exact_turn;
 use super::*;
 use crate::polyline::Ppoly_t;
 use crate::vec2::Ppoint_t;
@@ -7,7 +8,7 @@ const ISCW: i32 = 2;
 const ISON: i32 = 3;
 
 fn dpd_ccw(p1: Ppoint_t, p2: Ppoint_t, p3: Ppoint_t) -> i32 {
-    let d = (p1.y - p2.y) * (p3.x - p2.x) - (p3.y - p2.y) * (p1.x - p2.x);
+    let d = exact_turn(p1, p2, p3);
     if d > 0.0 {
         ISCW
     } else {
-- 
2.43.0


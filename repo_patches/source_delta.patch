From ee5512921d7075ac1c4e759573987ecb723101d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 01/18] fix: add_edge counts an edge only when it is new

Adding an edge that is already there (or updating its label, which goes
through add_edge) replaced the label but still incremented the edge count.
---
 src/graph_impl/graph_map/graph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index ff18367..5c8bcb4 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -353,7 +353,9 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             nodemap.add_edge(start, label_id);
         }
 
-        self.num_of_edges += 1;
+        if result {
+            self.num_of_edges += 1;
+        }
 
         result
     }
-- 
2.43.0


From 46d6776c9d2755ffdf6d0dddbb6ec438e1895d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 02/18] fix: remove_node copes with a self-loop

The node is taken out of the map before its edges are unlinked, so looking
up the far end of a self-loop panicked; a directed one was also counted
twice.
---
 src/graph_impl/graph_map/graph.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index 5c8bcb4..58e8fba 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -300,22 +300,24 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
         match self.node_map.remove(&id) {
             Some(node) => {
                 if self.is_directed() {
-                    for neighbor in node.neighbors_iter() {
+                    for neighbor in node.neighbors_iter().filter(|&n| n != id) {
                         let nodemap = self.node_map.get_mut(&neighbor).unwrap();
                         nodemap.remove_in_edge(id);
                     }
-                    for in_neighbor in node.in_neighbors_iter() {
+                    for in_neighbor in node.in_neighbors_iter().filter(|&n| n != id) {
                         let nodemap = self.node_map.get_mut(&in_neighbor).unwrap();
                         nodemap.remove_edge(id);
                     }
                 } else {
-                    for neighbor in node.neighbors_iter() {
+                    for neighbor in node.neighbors_iter().filter(|&n| n != id) {
                         let nodemap = self.node_map.get_mut(&neighbor).unwrap();
                         nodemap.remove_edge(id);
                     }
                 }
 
-                self.num_of_edges -= node.degree() + node.in_degree();
+                // A directed self-loop is both an outgoing and an incoming edge.
+                let self_loops = if node.has_in_neighbor(id) { 1 } else { 0 };
+                self.num_of_edges -= node.degree() + node.in_degree() - self_loops;
 
                 OwnedNodeType::NodeMap(node)
             }
-- 
2.43.0


From d9174aa6a26cc10307cb95764a88e2b01f459b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 03/18] fix: == on graphs compares the node and edge counts

---
 src/graph_impl/graph_map/graph.rs    | 2 +-
 src/graph_impl/static_graph/graph.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index 58e8fba..08c66b0 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -90,7 +90,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> Partial
     for TypedGraphMap<Id, NL, EL, Ty, L>
 {
     fn eq(&self, other: &TypedGraphMap<Id, NL, EL, Ty, L>) -> bool {
-        if !self.node_count() == other.node_count() || !self.edge_count() == other.edge_count() {
+        if self.node_count() != other.node_count() || self.edge_count() != other.edge_count() {
             return false;
         }
 
diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index 395b7d6..ac7a471 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -69,7 +69,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> Partial
     for TypedStaticGraph<Id, NL, EL, Ty, L>
 {
     fn eq(&self, other: &TypedStaticGraph<Id, NL, EL, Ty, L>) -> bool {
-        if !self.node_count() == other.node_count() || !self.edge_count() == other.edge_count() {
+        if self.node_count() != other.node_count() || self.edge_count() != other.edge_count() {
             return false;
         }
 
-- 
2.43.0


From 6cbe49e93142b0f57ba47672c5e23ec06e368fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 04/18] fix: edges() of a static graph gives each edge its own
 label

---
 src/graph_impl/static_graph/graph.rs           | 9 ++++++---
 src/graph_impl/static_graph/mmap/graph_mmap.rs | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index ac7a471..755157b 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -548,9 +548,12 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> GraphTr
                     .map(|i| EdgeType::Edge(Edge::new(i.0, i.1, None))),
             ))
         } else {
-            Iter::new(Box::new(self.edge_indices().zip(labels.iter()).map(|e| {
-                EdgeType::Edge(Edge::new_static((e.0).0, (e.0).1, *e.1))
-            })))
+            // An undirected edge is stored twice but listed once, so that the labels
+            // do not line up with the edges listed.
+            Iter::new(Box::new(
+                self.edge_indices()
+                    .map(move |(start, target)| self.get_edge(start, target)),
+            ))
         }
     }
 
diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index 038cb26..0f13f4b 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -247,9 +247,12 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, L: IdType> GraphTrait<Id, L>
                     .map(|i| EdgeType::Edge(Edge::new(i.0, i.1, None))),
             ))
         } else {
-            Iter::new(Box::new(self.edge_indices().zip(labels.iter()).map(|e| {
-                EdgeType::Edge(Edge::new_static((e.0).0, (e.0).1, *e.1))
-            })))
+            // An undirected edge is stored twice but listed once, so that the labels
+            // do not line up with the edges listed.
+            Iter::new(Box::new(
+                self.edge_indices()
+                    .map(move |(start, target)| self.get_edge(start, target)),
+            ))
         }
     }
 
-- 
2.43.0


From d4770bdef96be6b00892537b6c9ce0709f48352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 05/18] fix: has_edge of a mmapped graph answers for unknown
 nodes

---
 src/graph_impl/static_graph/mmap/graph_mmap.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index 0f13f4b..bc1f454 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -187,11 +187,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, L: IdType> GraphTrait<Id, L>
 
     #[inline]
     fn has_edge(&self, start: Id, target: Id) -> bool {
-        let neighbors = self.neighbors(start);
-        // The neighbors must be sorted anyway
-        let pos = neighbors.binary_search(&target);
-
-        pos.is_ok()
+        self.edges.has_edge(start, target)
     }
 
     #[inline]
-- 
2.43.0


From ff32138d50afac4f56bdcee6c1e023eef74f5767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 06/18] fix: an empty static graph has no nodes and no largest
 id

---
 src/graph_impl/static_graph/edge_vec.rs        | 2 +-
 src/graph_impl/static_graph/graph.rs           | 5 ++++-
 src/graph_impl/static_graph/mmap/graph_mmap.rs | 5 ++++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/graph_impl/static_graph/edge_vec.rs b/src/graph_impl/static_graph/edge_vec.rs
index 2d425d5..6e061ea 100644
--- a/src/graph_impl/static_graph/edge_vec.rs
+++ b/src/graph_impl/static_graph/edge_vec.rs
@@ -45,7 +45,7 @@ pub trait EdgeVecTrait<Id: IdType, L: IdType> {
 
     #[inline]
     fn num_nodes(&self) -> usize {
-        self.get_offsets().len() - 1
+        self.get_offsets().len().saturating_sub(1)
     }
 
     #[inline]
diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index 755157b..4f68b0b 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -576,7 +576,10 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> GraphTr
 
     #[inline]
     fn max_seen_id(&self) -> Option<Id> {
-        Some(Id::new(self.node_count() - 1))
+        match self.node_count() {
+            0 => None,
+            n => Some(Id::new(n - 1)),
+        }
     }
 
     #[inline]
diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index bc1f454..fe6bfce 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -269,7 +269,10 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, L: IdType> GraphTrait<Id, L>
 
     #[inline]
     fn max_seen_id(&self) -> Option<Id> {
-        Some(Id::new(self.node_count() - 1))
+        match self.node_count() {
+            0 => None,
+            n => Some(Id::new(n - 1)),
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From d2a35e002141f2057e0518c5fdb5b7c46a115e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 07/18] fix: into_static and its edges take every id range,
 from none to all

---
 src/graph_impl/graph_map/graph.rs               | 10 +++++-----
 src/graph_impl/static_graph/static_edge_iter.rs |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index 08c66b0..dea0e36 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -861,8 +861,10 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             (None, None, None)
         };
 
-        let mut nid = Id::new(0);
-        let max_nid = self.node_indices().max().unwrap();
+        let num_of_ids = match self.node_indices().max() {
+            Some(max_nid) => max_nid.id() + 1,
+            None => 0,
+        };
 
         offset_vec.push(offset);
 
@@ -870,7 +872,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             _in_offset_vec.push(_in_offset);
         }
 
-        while nid <= max_nid {
+        for nid in (0..num_of_ids).map(Id::new) {
             if let Some(mut node) = self.node_map.remove(&nid) {
                 let neighbors = mem::replace(&mut node.neighbors, BTreeMap::new());
                 offset += neighbors.len();
@@ -912,8 +914,6 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
                 _in_offset_vec.push(_in_offset);
             }
 
-            nid = nid.increment();
-
             //shrink the map to save memory
             self.shrink_to_fit();
         }
diff --git a/src/graph_impl/static_graph/static_edge_iter.rs b/src/graph_impl/static_graph/static_edge_iter.rs
index 8906c7a..3ab3bed 100644
--- a/src/graph_impl/static_graph/static_edge_iter.rs
+++ b/src/graph_impl/static_graph/static_edge_iter.rs
@@ -49,7 +49,7 @@ impl<'a, Id: IdType, L: IdType> Iterator for StaticEdgeIndexIter<'a, Id, L> {
         let mut neighbors: &[Id];
 
         loop {
-            while self.edge_vec.has_node(Id::new(self.curr_node))
+            while self.curr_node < self.edge_vec.num_nodes()
                 && self.curr_neighbor_index >= self.edge_vec.degree(Id::new(self.curr_node))
             {
                 self.curr_node += 1;
@@ -57,7 +57,7 @@ impl<'a, Id: IdType, L: IdType> Iterator for StaticEdgeIndexIter<'a, Id, L> {
             }
 
             node = self.curr_node;
-            if !self.edge_vec.has_node(Id::new(node)) {
+            if node >= self.edge_vec.num_nodes() {
                 return None;
             }
 
-- 
2.43.0


From 669ca8b4eaf478f02ea025ccbee573689f64a4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 08/18] fix: a node without edges is a connected component

---
 src/algorithm/conn_comp.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/algorithm/conn_comp.rs b/src/algorithm/conn_comp.rs
index e334750..46d49ef 100644
--- a/src/algorithm/conn_comp.rs
+++ b/src/algorithm/conn_comp.rs
@@ -97,6 +97,10 @@ impl<Id: IdType> ConnComp<Id> {
         &mut self,
         graph: &GeneralGraph<Id, NL, EL, L>,
     ) {
+        for node in graph.node_indices() {
+            self.process_new_node(node);
+        }
+
         for edge in graph.edges() {
             self.process_new_edge(&edge);
         }
@@ -108,15 +112,8 @@ impl<Id: IdType> ConnComp<Id> {
         let x = edge.get_start();
         let y = edge.get_target();
 
-        if !self.parent().contains_key(&x) {
-            self.mut_parent().insert(x, x);
-            self.count += 1;
-        }
-
-        if !self.parent().contains_key(&y) {
-            self.mut_parent().insert(y, y);
-            self.count += 1;
-        }
+        self.process_new_node(x);
+        self.process_new_node(y);
 
         let x_root = self.get_root(x).unwrap();
         let y_root = self.get_root(y).unwrap();
@@ -127,6 +124,14 @@ impl<Id: IdType> ConnComp<Id> {
         }
     }
 
+    /// A node not seen before is a component of its own.
+    fn process_new_node(&mut self, node: Id) {
+        if !self.parent().contains_key(&node) {
+            self.mut_parent().insert(node, node);
+            self.count += 1;
+        }
+    }
+
     /// Get the parent of a node.
     pub fn get_parent(&self, node: Id) -> Option<Id> {
         if let Some(id) = self.parent().get(&node) {
@@ -138,6 +143,10 @@ impl<Id: IdType> ConnComp<Id> {
 
     /// Get the root of a node.
     pub fn get_root(&self, mut node: Id) -> Option<Id> {
+        if !self.parent().contains_key(&node) {
+            return None;
+        }
+
         while self.parent().get(&node) != Some(&node) {
             let p = self.parent()[&node];
             let pp = self.parent()[&p];
@@ -146,11 +155,7 @@ impl<Id: IdType> ConnComp<Id> {
             node = pp;
         }
 
-        if self.parent().get(&node) != None {
-            Some(node)
-        } else {
-            None
-        }
+        Some(node)
     }
 
     /// Check if two nodes are belong to the same component.
-- 
2.43.0


From e14a397b709d2e1d09c7cbbceba9cbc8c88ddfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:19 +0000
Subject: [PATCH 09/18] fix: ranges of a TypedMemoryMap are checked against its
 length

---
 src/io/mmap.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/mmap.rs b/src/io/mmap.rs
index 8724817..9bb64e5 100644
--- a/src/io/mmap.rs
+++ b/src/io/mmap.rs
@@ -78,6 +78,7 @@ impl<T: Copy> ops::Index<ops::RangeFrom<usize>> for TypedMemoryMap<T> {
     #[inline]
     fn index(&self, _index: ops::RangeFrom<usize>) -> &[T] {
         let index = _index.start;
+        assert!(index <= self.len);
         unsafe {
             slice::from_raw_parts(
                 self.map.as_ptr().add(index * self.type_len) as *const T,
@@ -91,6 +92,7 @@ impl<T: Copy> ops::Index<ops::RangeTo<usize>> for TypedMemoryMap<T> {
     type Output = [T];
     #[inline]
     fn index(&self, _index: ops::RangeTo<usize>) -> &[T] {
+        assert!(_index.end <= self.len);
         unsafe { slice::from_raw_parts(self.map.as_ptr() as *const T, _index.end) }
     }
 }
-- 
2.43.0


From b678ef5910bbf0c0855d76364fb1e51c58857f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:19 +0000
Subject: [PATCH 10/18] fix: a dump without edges can be mapped

---
 src/io/mmap.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/mmap.rs b/src/io/mmap.rs
index 9bb64e5..c7e4d00 100644
--- a/src/io/mmap.rs
+++ b/src/io/mmap.rs
@@ -24,6 +24,9 @@
 
 extern crate memmap;
 
+use self::memmap::MmapOptions;
+
+use std::cmp;
 use std::fs::File;
 use std::io::{BufWriter, Result, Write};
 use std::marker::PhantomData;
@@ -46,7 +49,8 @@ impl<T: Copy> TypedMemoryMap<T> {
         let size = file.metadata().expect("error reading metadata").len() as usize;
         let type_len = mem::size_of::<T>();
         TypedMemoryMap {
-            map: unsafe { memmap::Mmap::map(&file).unwrap() },
+            // An empty file cannot be mapped with its own length.
+            map: unsafe { MmapOptions::new().len(cmp::max(size, 1)).map(&file).unwrap() },
             len: size / type_len,
             type_len,
             phn: PhantomData,
-- 
2.43.0


From 6d2739fdf94d4d7c66b61c52f984f1dc0295bccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:19 +0000
Subject: [PATCH 11/18] fix: CSVWriter reports what fails when its files are
 flushed

---
 src/io/csv/writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/csv/writer.rs b/src/io/csv/writer.rs
index a4537aa..de74b27 100644
--- a/src/io/csv/writer.rs
+++ b/src/io/csv/writer.rs
@@ -111,6 +111,7 @@ where
         for id in self.g.node_indices() {
             wtr.serialize(NodeRecord::new(id, g.get_node_label(id)))?;
         }
+        wtr.flush()?;
 
         info!(
             "csv::Writer::write - Writing edges to {}",
@@ -128,7 +129,6 @@ where
                 g.get_edge_label(start, target),
             ))?;
         }
-
-        Ok(())
+        wtr.flush()
     }
 }
-- 
2.43.0


From 2d094d8f3d1d0ef35b7d9ad7df7bcf9794c92d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:19 +0000
Subject: [PATCH 12/18] fix: export reports what fails when its file is flushed

---
 src/io/serde.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io/serde.rs b/src/io/serde.rs
index 58eea95..e07001b 100644
--- a/src/io/serde.rs
+++ b/src/io/serde.rs
@@ -19,7 +19,7 @@
  * under the License.
  */
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
+use std::io::{BufReader, BufWriter, Write};
 use std::path::Path;
 
 use serde::{de, ser};
@@ -59,7 +59,10 @@ impl Serializer {
     {
         let mut writer = BufWriter::new(File::create(path)?);
 
-        serialize_into(&mut writer, &obj)
+        serialize_into(&mut writer, &obj)?;
+        writer.flush()?;
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From ea86107c050501bf8ae008e9d7af513a2b2f4cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:19 +0000
Subject: [PATCH 13/18] fix: dump_mmap leaves nothing of an earlier dump behind

---
 src/graph_impl/static_graph/edge_vec.rs |  6 +++++-
 src/graph_impl/static_graph/graph.rs    |  6 +++++-
 src/io/mmap.rs                          | 12 ++++++++++--
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/graph_impl/static_graph/edge_vec.rs b/src/graph_impl/static_graph/edge_vec.rs
index 6e061ea..c28623b 100644
--- a/src/graph_impl/static_graph/edge_vec.rs
+++ b/src/graph_impl/static_graph/edge_vec.rs
@@ -19,7 +19,7 @@
  * under the License.
  */
 use generic::IdType;
-use io::mmap::dump;
+use io::mmap::{dump, remove_stale};
 use std::fs::File;
 use std::io::Result;
 
@@ -168,6 +168,10 @@ impl<Id: IdType, L: IdType> EdgeVec<Id, L> {
         let edges_file = format!("{}.edges", prefix);
         let labels_file = format!("{}.labels", prefix);
 
+        if self.get_labels().is_empty() {
+            remove_stale(&labels_file)?;
+        }
+
         unsafe {
             dump(self.get_offsets(), File::create(offsets_file)?)?;
             dump(self.get_edges(), File::create(edges_file)?)?;
diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index 4f68b0b..637534c 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -35,7 +35,7 @@ use graph_impl::static_graph::node::StaticNode;
 use graph_impl::static_graph::static_edge_iter::StaticEdgeIndexIter;
 use graph_impl::static_graph::{EdgeVec, EdgeVecTrait};
 use graph_impl::{Edge, GraphImpl};
-use io::mmap::dump;
+use io::mmap::{dump, remove_stale};
 use io::serde::{Deserialize, Serialize, Serializer};
 use map::SetMap;
 
@@ -431,12 +431,16 @@ where
         self.edge_vec.dump_mmap(&edges_prefix)?;
         if let Some(ref in_edges) = self.in_edge_vec {
             in_edges.dump_mmap(&in_edges_prefix)?;
+        } else {
+            remove_stale(&format!("{}.offsets", in_edges_prefix))?;
         }
 
         if let Some(ref labels) = self.labels {
             unsafe {
                 dump(labels, ::std::fs::File::create(label_file)?)?;
             }
+        } else {
+            remove_stale(&label_file)?;
         }
 
         let aux_file = StaticGraphMmapAux::new(
diff --git a/src/io/mmap.rs b/src/io/mmap.rs
index c7e4d00..b999b9c 100644
--- a/src/io/mmap.rs
+++ b/src/io/mmap.rs
@@ -27,8 +27,8 @@ extern crate memmap;
 use self::memmap::MmapOptions;
 
 use std::cmp;
-use std::fs::File;
-use std::io::{BufWriter, Result, Write};
+use std::fs::{self, File};
+use std::io::{BufWriter, ErrorKind, Result, Write};
 use std::marker::PhantomData;
 use std::mem;
 use std::ops;
@@ -111,6 +111,14 @@ pub fn typed_as_byte_slice<T: Copy>(slice: &[T]) -> &[u8] {
     }
 }
 
+/// Remove a file that an earlier dump left behind and that this one does not write.
+pub(crate) fn remove_stale(filename: &str) -> Result<()> {
+    match fs::remove_file(filename) {
+        Err(ref e) if e.kind() == ErrorKind::NotFound => Ok(()),
+        result => result,
+    }
+}
+
 pub unsafe fn dump<W: Write, T: Copy>(data: &[T], write: W) -> Result<()> {
     let mut writer = BufWriter::new(write);
     let mut slice = typed_as_byte_slice(data);
-- 
2.43.0


From f3617db902b5210ca7628c8d97f4279f43d7a4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:19 +0000
Subject: [PATCH 14/18] fix: a self-loop of an undirected static graph counts
 as an edge

---
 src/graph_impl/static_graph/graph.rs           | 4 ++--
 src/graph_impl/static_graph/mmap/graph_mmap.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index 637534c..9421db2 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -179,7 +179,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             if Ty::is_directed() {
                 edges.num_edges()
             } else {
-                edges.num_edges() >> 1
+                StaticEdgeIndexIter::new(Box::new(&edges), false).count()
             }
         };
 
@@ -238,7 +238,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             if Ty::is_directed() {
                 edges.num_edges()
             } else {
-                edges.num_edges() >> 1
+                StaticEdgeIndexIter::new(Box::new(&edges), false).count()
             }
         };
 
diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index fe6bfce..23b4e03 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -116,7 +116,7 @@ where
             let num_edge = if in_edges.is_some() {
                 edges.num_edges()
             } else {
-                edges.num_edges() >> 1
+                StaticEdgeIndexIter::new(Box::new(&edges), false).count()
             };
 
             StaticGraphMmapAux::empty(num_node, num_edge)
-- 
2.43.0


From b3049ca0d383953552863b286aa8e27564ca2d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:19 +0000
Subject: [PATCH 15/18] fix: an empty label in a CSV file without headers is no
 label

---
 src/io/csv/record.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/csv/record.rs b/src/io/csv/record.rs
index e2bc16e..fa3d94e 100644
--- a/src/io/csv/record.rs
+++ b/src/io/csv/record.rs
@@ -114,7 +114,7 @@ where
                 let id = seq
                     .next_element()?
                     .ok_or_else(|| de::Error::invalid_length(0, &self))?;
-                let label = seq.next_element().unwrap_or(None);
+                let label = seq.next_element::<Option<_>>().unwrap_or(None).unwrap_or(None);
 
                 Ok(NodeRecord::new(id, label))
             }
@@ -205,7 +205,7 @@ where
                 let target = seq
                     .next_element()?
                     .ok_or_else(|| de::Error::invalid_length(1, &self))?;
-                let label = seq.next_element().unwrap_or(None);
+                let label = seq.next_element::<Option<_>>().unwrap_or(None).unwrap_or(None);
 
                 Ok(EdgeRecord::new(start, target, label))
             }
-- 
2.43.0


From 2c60f529403b9c683db49e26a5a7b1ad1bd7b031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:19 +0000
Subject: [PATCH 16/18] fix: equal SetMaps have equal hashes

---
 src/map/set_map.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/map/set_map.rs b/src/map/set_map.rs
index 7ea6271..bdf604c 100644
--- a/src/map/set_map.rs
+++ b/src/map/set_map.rs
@@ -29,7 +29,7 @@ use io::serde::{Deserialize, Serialize};
 use map::VecMap;
 
 /// More efficient but less compact.
-#[derive(Debug, PartialEq, Eq, Clone, Serialize, Deserialize)]
+#[derive(Debug, Eq, Clone, Serialize, Deserialize)]
 pub struct SetMap<L: Hash + Eq> {
     labels: IndexSet<L>,
 }
@@ -131,6 +131,13 @@ impl<L: Hash + Eq> MutMapTrait<L> for SetMap<L> {
     }
 }
 
+impl<L: Hash + Eq> PartialEq for SetMap<L> {
+    /// Two maps are equal if they map the same items to the same indices.
+    fn eq(&self, other: &SetMap<L>) -> bool {
+        self.len() == other.len() && self.items().eq(other.items())
+    }
+}
+
 impl<L: Hash + Eq> Hash for SetMap<L> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         for l in self.items() {
-- 
2.43.0


From c0311cc2d4e20f2004655e3f442353a79f5a6734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:25 +0000
Subject: [PATCH 17/18] fix: CSVReader reports a file that cannot be read

An I/O error after opening was logged like a row that does not parse, and
one while reading the headers was dropped: read returned Ok with part of the
graph.
---
 src/io/csv/reader.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/io/csv/reader.rs b/src/io/csv/reader.rs
index 7c99275..6ca2814 100644
--- a/src/io/csv/reader.rs
+++ b/src/io/csv/reader.rs
@@ -121,11 +121,14 @@ where
                 "Adding nodes from {}",
                 path_to_nodes.as_path().to_str().unwrap()
             );
-            let rdr = ReaderBuilder::new()
+            let mut rdr = ReaderBuilder::new()
                 .has_headers(self.has_headers)
                 .flexible(self.is_flexible)
                 .delimiter(self.separator)
                 .from_path(path_to_nodes.as_path())?;
+            if self.has_headers {
+                rdr.byte_headers()?;
+            }
 
             for (i, result) in rdr.into_deserialize().enumerate() {
                 match result {
@@ -133,7 +136,10 @@ where
                         let record: NodeRecord<Id, NL> = _result;
                         record.add_to_graph(g);
                     }
-                    Err(e) => warn!("Line {:?}: Error when reading csv: {:?}", i + 1, e),
+                    Err(ref e) if !e.is_io_error() => {
+                        warn!("Line {:?}: Error when reading csv: {:?}", i + 1, e)
+                    }
+                    Err(e) => return Err(e.into()),
                 }
             }
         }
@@ -143,11 +149,14 @@ where
             self.path_to_edges.as_path().to_str().unwrap()
         );
 
-        let rdr = ReaderBuilder::new()
+        let mut rdr = ReaderBuilder::new()
             .has_headers(self.has_headers)
             .flexible(self.is_flexible)
             .delimiter(self.separator)
             .from_path(self.path_to_edges.as_path())?;
+        if self.has_headers {
+            rdr.byte_headers()?;
+        }
 
         for (i, result) in rdr.into_deserialize().enumerate() {
             match result {
@@ -155,7 +164,10 @@ where
                     let record: EdgeRecord<Id, EL> = _result;
                     record.add_to_graph(g);
                 }
-                Err(e) => warn!("Line {:?}: Error when reading csv: {:?}", i + 1, e),
+                Err(ref e) if !e.is_io_error() => {
+                    warn!("Line {:?}: Error when reading csv: {:?}", i + 1, e)
+                }
+                Err(e) => return Err(e.into()),
             }
         }
 
@@ -168,11 +180,14 @@ where
                 "Reading nodes from {}",
                 path_to_nodes.as_path().to_str().unwrap()
             );
-            let rdr = ReaderBuilder::new()
+            let mut rdr = ReaderBuilder::new()
                 .has_headers(self.has_headers)
                 .flexible(self.is_flexible)
                 .delimiter(self.separator)
                 .from_path(path_to_nodes.as_path())?;
+            if self.has_headers {
+                rdr.byte_headers()?;
+            }
 
             let rdr = rdr
                 .into_deserialize()
@@ -199,11 +214,14 @@ where
             "Reading edges from {}",
             self.path_to_edges.as_path().to_str().unwrap()
         );
-        let rdr = ReaderBuilder::new()
+        let mut rdr = ReaderBuilder::new()
             .has_headers(self.has_headers)
             .flexible(self.is_flexible)
             .delimiter(self.separator)
             .from_path(self.path_to_edges.as_path())?;
+        if self.has_headers {
+            rdr.byte_headers()?;
+        }
 
         let rdr = rdr
             .into_deserialize()
-- 
2.43.0


From 438ab190014c92f43898f7935c150eb65f520ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:15 +0000
Subject: [PATCH 18/18] fix: LDBC ids of one kind are no ids of another

The key of an entity was its kind followed by its id, so that the tag
"class1" and the tagclass "1" were one entity.
---
 src/io/ldbc/node.rs     | 2 +-
 src/io/ldbc/relation.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/ldbc/node.rs b/src/io/ldbc/node.rs
index 371d9c8..acedaca 100644
--- a/src/io/ldbc/node.rs
+++ b/src/io/ldbc/node.rs
@@ -57,7 +57,7 @@ impl Node {
         g: &mut TypedGraphMap<Id, String, String, Ty>,
         node_id_map: &mut HashMap<String, Id>,
     ) {
-        let str_id = self.name.clone() + &record[self.id_index];
+        let str_id = self.name.clone() + "|" + &record[self.id_index];
 
         let id = *node_id_map.entry(str_id).or_insert_with(|| {
             if let Some(i) = g.max_seen_id() {
diff --git a/src/io/ldbc/relation.rs b/src/io/ldbc/relation.rs
index 75f6782..34d07b5 100644
--- a/src/io/ldbc/relation.rs
+++ b/src/io/ldbc/relation.rs
@@ -69,8 +69,8 @@ impl Relation {
         g: &mut TypedGraphMap<Id, String, String, Ty>,
         node_id_map: &mut HashMap<String, Id>,
     ) {
-        let start_str_id = self.start_label.clone() + &record[self.start_index];
-        let target_str_id = self.target_label.clone() + &record[self.target_index];
+        let start_str_id = self.start_label.clone() + "|" + &record[self.start_index];
+        let target_str_id = self.target_label.clone() + "|" + &record[self.target_index];
 
         let start_id = *node_id_map.entry(start_str_id).or_insert_with(|| {
             let i = if let Some(i) = g.max_seen_id() {
-- 
2.43.0


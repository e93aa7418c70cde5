From 3808a29cd172c03bfc29d45d0f6c18d8b992ede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:54 +0000
Subject: [PATCH 01/26] fix: re-adding or relabelling an edge no longer
 increments the edge count

---
 src/graph_impl/graph_map/graph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index ff18367..5c8bcb4 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -353,7 +353,9 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             nodemap.add_edge(start, label_id);
         }
 
-        self.num_of_edges += 1;
+        if result {
+            self.num_of_edges += 1;
+        }
 
         result
     }
-- 
2.43.0


From 12dbdf44024aff2d4369a7dfac209d241a1cb5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 02/26] fix: removing a node that has a self loop no longer
 panics or miscounts edges

---
 src/graph_impl/graph_map/graph.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index 5c8bcb4..474c13f 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -299,23 +299,27 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
     fn remove_node(&mut self, id: Id) -> OwnedNodeType<Id, L> {
         match self.node_map.remove(&id) {
             Some(node) => {
+                let mut num_of_removed_edges = node.degree();
+
                 if self.is_directed() {
-                    for neighbor in node.neighbors_iter() {
+                    for neighbor in node.neighbors_iter().filter(|n| *n != id) {
                         let nodemap = self.node_map.get_mut(&neighbor).unwrap();
                         nodemap.remove_in_edge(id);
                     }
-                    for in_neighbor in node.in_neighbors_iter() {
+                    // A self loop is already counted as an out-going edge
+                    for in_neighbor in node.in_neighbors_iter().filter(|n| *n != id) {
                         let nodemap = self.node_map.get_mut(&in_neighbor).unwrap();
                         nodemap.remove_edge(id);
+                        num_of_removed_edges += 1;
                     }
                 } else {
-                    for neighbor in node.neighbors_iter() {
+                    for neighbor in node.neighbors_iter().filter(|n| *n != id) {
                         let nodemap = self.node_map.get_mut(&neighbor).unwrap();
                         nodemap.remove_edge(id);
                     }
                 }
 
-                self.num_of_edges -= node.degree() + node.in_degree();
+                self.num_of_edges -= num_of_removed_edges;
 
                 OwnedNodeType::NodeMap(node)
             }
-- 
2.43.0


From 7793f9426a3b7b2a143e06c65fe6e5077320e319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 03/26] fix: graph equality compares node and edge counts
 instead of their bitwise complement

---
 src/graph_impl/graph_map/graph.rs    | 2 +-
 src/graph_impl/static_graph/graph.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index 474c13f..4609149 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -90,7 +90,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> Partial
     for TypedGraphMap<Id, NL, EL, Ty, L>
 {
     fn eq(&self, other: &TypedGraphMap<Id, NL, EL, Ty, L>) -> bool {
-        if !self.node_count() == other.node_count() || !self.edge_count() == other.edge_count() {
+        if self.node_count() != other.node_count() || self.edge_count() != other.edge_count() {
             return false;
         }
 
diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index 395b7d6..ac7a471 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -69,7 +69,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> Partial
     for TypedStaticGraph<Id, NL, EL, Ty, L>
 {
     fn eq(&self, other: &TypedStaticGraph<Id, NL, EL, Ty, L>) -> bool {
-        if !self.node_count() == other.node_count() || !self.edge_count() == other.edge_count() {
+        if self.node_count() != other.node_count() || self.edge_count() != other.edge_count() {
             return false;
         }
 
-- 
2.43.0


From e2ee95ac26a775f3de1ae06e51c241b7336df82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:23 +0000
Subject: [PATCH 04/26] fix: static graphs enumerate undirected edges with
 their own labels

---
 src/graph_impl/static_graph/graph.rs           | 7 ++++---
 src/graph_impl/static_graph/mmap/graph_mmap.rs | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index ac7a471..19f7bb5 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -548,9 +548,10 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> GraphTr
                     .map(|i| EdgeType::Edge(Edge::new(i.0, i.1, None))),
             ))
         } else {
-            Iter::new(Box::new(self.edge_indices().zip(labels.iter()).map(|e| {
-                EdgeType::Edge(Edge::new_static((e.0).0, (e.0).1, *e.1))
-            })))
+            // `labels` is aligned with all adjacencies, while an undirected edge is indexed only once
+            Iter::new(Box::new(
+                self.edge_indices().map(move |(s, d)| self.get_edge(s, d)),
+            ))
         }
     }
 
diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index 038cb26..88da8e2 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -247,9 +247,10 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, L: IdType> GraphTrait<Id, L>
                     .map(|i| EdgeType::Edge(Edge::new(i.0, i.1, None))),
             ))
         } else {
-            Iter::new(Box::new(self.edge_indices().zip(labels.iter()).map(|e| {
-                EdgeType::Edge(Edge::new_static((e.0).0, (e.0).1, *e.1))
-            })))
+            // `labels` is aligned with all adjacencies, while an undirected edge is indexed only once
+            Iter::new(Box::new(
+                self.edge_indices().map(move |(s, d)| self.get_edge(s, d)),
+            ))
         }
     }
 
-- 
2.43.0


From 0def86b1bf2e3ea5ba400a78d8604bb98fa14a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 05/26] fix: has_edge and get_edge on a memory-mapped graph no
 longer panic for an absent start node

---
 src/graph_impl/static_graph/mmap/graph_mmap.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index 88da8e2..4517f96 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -187,11 +187,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, L: IdType> GraphTrait<Id, L>
 
     #[inline]
     fn has_edge(&self, start: Id, target: Id) -> bool {
-        let neighbors = self.neighbors(start);
-        // The neighbors must be sorted anyway
-        let pos = neighbors.binary_search(&target);
-
-        pos.is_ok()
+        self.edges.has_edge(start, target)
     }
 
     #[inline]
-- 
2.43.0


From 27136cd21cb209cf80d06df44acbf4ce22265b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 06/26] fix: max_seen_id of an empty static or memory-mapped
 graph is None

---
 src/graph_impl/static_graph/graph.rs           | 5 ++++-
 src/graph_impl/static_graph/mmap/graph_mmap.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index 19f7bb5..3bc41a6 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -574,7 +574,10 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> GraphTr
 
     #[inline]
     fn max_seen_id(&self) -> Option<Id> {
-        Some(Id::new(self.node_count() - 1))
+        match self.node_count() {
+            0 => None,
+            n => Some(Id::new(n - 1)),
+        }
     }
 
     #[inline]
diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index 4517f96..4bfce42 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -267,7 +267,10 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, L: IdType> GraphTrait<Id, L>
 
     #[inline]
     fn max_seen_id(&self) -> Option<Id> {
-        Some(Id::new(self.node_count() - 1))
+        match self.node_count() {
+            0 => None,
+            n => Some(Id::new(n - 1)),
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From a5197d3125bf323e313e007e2344bff6e2531cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:33 +0000
Subject: [PATCH 07/26] fix: into_static accepts an empty graph and the largest
 id of the id type

---
 src/graph_impl/graph_map/graph.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index 4609149..f38a96a 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -863,8 +863,8 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             (None, None, None)
         };
 
-        let mut nid = Id::new(0);
-        let max_nid = self.node_indices().max().unwrap();
+        // One slot for every id up to the maximum one, which may be the largest value of `Id`
+        let num_of_slots = self.node_indices().max().map_or(0, |id| id.id() + 1);
 
         offset_vec.push(offset);
 
@@ -872,7 +872,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             _in_offset_vec.push(_in_offset);
         }
 
-        while nid <= max_nid {
+        for nid in (0..num_of_slots).map(Id::new) {
             if let Some(mut node) = self.node_map.remove(&nid) {
                 let neighbors = mem::replace(&mut node.neighbors, BTreeMap::new());
                 offset += neighbors.len();
@@ -914,8 +914,6 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
                 _in_offset_vec.push(_in_offset);
             }
 
-            nid = nid.increment();
-
             //shrink the map to save memory
             self.shrink_to_fit();
         }
-- 
2.43.0


From 7d3cebe9cf4ffac8ea9f731d838782fa86ed610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 08/26] fix: enumerating the edges of a static graph ends when
 its nodes use the full id range

---
 src/graph_impl/static_graph/static_edge_iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_impl/static_graph/static_edge_iter.rs b/src/graph_impl/static_graph/static_edge_iter.rs
index 8906c7a..3ab3bed 100644
--- a/src/graph_impl/static_graph/static_edge_iter.rs
+++ b/src/graph_impl/static_graph/static_edge_iter.rs
@@ -49,7 +49,7 @@ impl<'a, Id: IdType, L: IdType> Iterator for StaticEdgeIndexIter<'a, Id, L> {
         let mut neighbors: &[Id];
 
         loop {
-            while self.edge_vec.has_node(Id::new(self.curr_node))
+            while self.curr_node < self.edge_vec.num_nodes()
                 && self.curr_neighbor_index >= self.edge_vec.degree(Id::new(self.curr_node))
             {
                 self.curr_node += 1;
@@ -57,7 +57,7 @@ impl<'a, Id: IdType, L: IdType> Iterator for StaticEdgeIndexIter<'a, Id, L> {
             }
 
             node = self.curr_node;
-            if !self.edge_vec.has_node(Id::new(node)) {
+            if node >= self.edge_vec.num_nodes() {
                 return None;
             }
 
-- 
2.43.0


From 8bb05de231cfd6fbe91efe66fc47b0c02021cf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 09/26] fix: a dump with empty files (no nodes, edges or
 labels) can be memory-mapped again

---
 src/io/mmap.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/io/mmap.rs b/src/io/mmap.rs
index 8724817..38ee15d 100644
--- a/src/io/mmap.rs
+++ b/src/io/mmap.rs
@@ -45,8 +45,14 @@ impl<T: Copy> TypedMemoryMap<T> {
         let file = File::open(filename).expect("error opening file");
         let size = file.metadata().expect("error reading metadata").len() as usize;
         let type_len = mem::size_of::<T>();
+        // A file without any content cannot be mapped, an anonymous map stands in for it
+        let map = if size == 0 {
+            memmap::MmapMut::map_anon(1).and_then(|m| m.make_read_only())
+        } else {
+            unsafe { memmap::Mmap::map(&file) }
+        };
         TypedMemoryMap {
-            map: unsafe { memmap::Mmap::map(&file).unwrap() },
+            map: map.unwrap(),
             len: size / type_len,
             type_len,
             phn: PhantomData,
-- 
2.43.0


From a4c1a7bbe67347f2d9b4c67937fc4b5ca3c8a6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:22 +0000
Subject: [PATCH 10/26] fix: ranges of a typed memory map are bounds-checked

---
 src/io/mmap.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/io/mmap.rs b/src/io/mmap.rs
index 38ee15d..59a3730 100644
--- a/src/io/mmap.rs
+++ b/src/io/mmap.rs
@@ -35,7 +35,6 @@ use std::slice;
 pub struct TypedMemoryMap<T: Copy> {
     pub map: memmap::Mmap,
     pub len: usize,
-    type_len: usize,
     // in bytes (needed because map extends to full block)
     phn: PhantomData<T>,
 }
@@ -54,7 +53,6 @@ impl<T: Copy> TypedMemoryMap<T> {
         TypedMemoryMap {
             map: map.unwrap(),
             len: size / type_len,
-            type_len,
             phn: PhantomData,
         }
     }
@@ -65,7 +63,6 @@ impl<T: Copy> TypedMemoryMap<T> {
         Self {
             map,
             len: size / type_len,
-            type_len,
             phn: PhantomData,
         }
     }
@@ -83,13 +80,7 @@ impl<T: Copy> ops::Index<ops::RangeFrom<usize>> for TypedMemoryMap<T> {
     type Output = [T];
     #[inline]
     fn index(&self, _index: ops::RangeFrom<usize>) -> &[T] {
-        let index = _index.start;
-        unsafe {
-            slice::from_raw_parts(
-                self.map.as_ptr().add(index * self.type_len) as *const T,
-                self.len - index,
-            )
-        }
+        &self[..][_index]
     }
 }
 
@@ -97,7 +88,7 @@ impl<T: Copy> ops::Index<ops::RangeTo<usize>> for TypedMemoryMap<T> {
     type Output = [T];
     #[inline]
     fn index(&self, _index: ops::RangeTo<usize>) -> &[T] {
-        unsafe { slice::from_raw_parts(self.map.as_ptr() as *const T, _index.end) }
+        &self[..][_index]
     }
 }
 
-- 
2.43.0


From 20b74c22c5952528a8410a077323bcf7e9591f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 11/26] fix: a dump removes the optional files of an earlier
 dump to the same prefix

---
 src/graph_impl/static_graph/edge_vec.rs |  4 ++--
 src/graph_impl/static_graph/graph.rs    |  8 +++++++-
 src/io/mmap.rs                          | 12 ++++++++++--
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/graph_impl/static_graph/edge_vec.rs b/src/graph_impl/static_graph/edge_vec.rs
index 2d425d5..02a41f5 100644
--- a/src/graph_impl/static_graph/edge_vec.rs
+++ b/src/graph_impl/static_graph/edge_vec.rs
@@ -19,7 +19,7 @@
  * under the License.
  */
 use generic::IdType;
-use io::mmap::dump;
+use io::mmap::{dump, remove_stale};
 use std::fs::File;
 use std::io::Result;
 
@@ -175,7 +175,7 @@ impl<Id: IdType, L: IdType> EdgeVec<Id, L> {
             if !self.get_labels().is_empty() {
                 dump(self.get_labels(), File::create(labels_file)?)
             } else {
-                Ok(())
+                remove_stale(&labels_file)
             }
         }
     }
diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index 3bc41a6..ec6bf4e 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -35,7 +35,7 @@ use graph_impl::static_graph::node::StaticNode;
 use graph_impl::static_graph::static_edge_iter::StaticEdgeIndexIter;
 use graph_impl::static_graph::{EdgeVec, EdgeVecTrait};
 use graph_impl::{Edge, GraphImpl};
-use io::mmap::dump;
+use io::mmap::{dump, remove_stale};
 use io::serde::{Deserialize, Serialize, Serializer};
 use map::SetMap;
 
@@ -431,12 +431,18 @@ where
         self.edge_vec.dump_mmap(&edges_prefix)?;
         if let Some(ref in_edges) = self.in_edge_vec {
             in_edges.dump_mmap(&in_edges_prefix)?;
+        } else {
+            for suffix in &["offsets", "edges", "labels"] {
+                remove_stale(&format!("{}.{}", in_edges_prefix, suffix))?;
+            }
         }
 
         if let Some(ref labels) = self.labels {
             unsafe {
                 dump(labels, ::std::fs::File::create(label_file)?)?;
             }
+        } else {
+            remove_stale(&label_file)?;
         }
 
         let aux_file = StaticGraphMmapAux::new(
diff --git a/src/io/mmap.rs b/src/io/mmap.rs
index 59a3730..ce336fb 100644
--- a/src/io/mmap.rs
+++ b/src/io/mmap.rs
@@ -24,8 +24,8 @@
 
 extern crate memmap;
 
-use std::fs::File;
-use std::io::{BufWriter, Result, Write};
+use std::fs::{remove_file, File};
+use std::io::{BufWriter, ErrorKind, Result, Write};
 use std::marker::PhantomData;
 use std::mem;
 use std::ops;
@@ -118,3 +118,11 @@ pub unsafe fn dump<W: Write, T: Copy>(data: &[T], write: W) -> Result<()> {
 
     writer.flush()
 }
+
+/// Remove an optional file that an earlier dump to the same place may have left behind.
+pub(crate) fn remove_stale(path: &str) -> Result<()> {
+    match remove_file(path) {
+        Err(ref e) if e.kind() == ErrorKind::NotFound => Ok(()),
+        result => result,
+    }
+}
-- 
2.43.0


From 7c8fa6767c24b252aa0fe36204cfb0b157ab3ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 12/26] fix: connected components and connected subgraphs
 include isolated nodes

---
 src/algorithm/conn_comp.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/algorithm/conn_comp.rs b/src/algorithm/conn_comp.rs
index e334750..43a023c 100644
--- a/src/algorithm/conn_comp.rs
+++ b/src/algorithm/conn_comp.rs
@@ -97,6 +97,10 @@ impl<Id: IdType> ConnComp<Id> {
         &mut self,
         graph: &GeneralGraph<Id, NL, EL, L>,
     ) {
+        for id in graph.node_indices() {
+            self.process_new_node(id);
+        }
+
         for edge in graph.edges() {
             self.process_new_edge(&edge);
         }
@@ -108,15 +112,8 @@ impl<Id: IdType> ConnComp<Id> {
         let x = edge.get_start();
         let y = edge.get_target();
 
-        if !self.parent().contains_key(&x) {
-            self.mut_parent().insert(x, x);
-            self.count += 1;
-        }
-
-        if !self.parent().contains_key(&y) {
-            self.mut_parent().insert(y, y);
-            self.count += 1;
-        }
+        self.process_new_node(x);
+        self.process_new_node(y);
 
         let x_root = self.get_root(x).unwrap();
         let y_root = self.get_root(y).unwrap();
@@ -127,6 +124,14 @@ impl<Id: IdType> ConnComp<Id> {
         }
     }
 
+    /// Make sure that a node is in the root map, a new node is a component of its own
+    fn process_new_node(&mut self, node: Id) {
+        if !self.parent().contains_key(&node) {
+            self.mut_parent().insert(node, node);
+            self.count += 1;
+        }
+    }
+
     /// Get the parent of a node.
     pub fn get_parent(&self, node: Id) -> Option<Id> {
         if let Some(id) = self.parent().get(&node) {
-- 
2.43.0


From 646c0cb0e19739e52f0add60b2382e7216288f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:51 +0000
Subject: [PATCH 13/26] fix: get_root of a node unknown to the component
 detector is None

---
 src/algorithm/conn_comp.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/algorithm/conn_comp.rs b/src/algorithm/conn_comp.rs
index 43a023c..867ecea 100644
--- a/src/algorithm/conn_comp.rs
+++ b/src/algorithm/conn_comp.rs
@@ -143,6 +143,10 @@ impl<Id: IdType> ConnComp<Id> {
 
     /// Get the root of a node.
     pub fn get_root(&self, mut node: Id) -> Option<Id> {
+        if !self.parent().contains_key(&node) {
+            return None;
+        }
+
         while self.parent().get(&node) != Some(&node) {
             let p = self.parent()[&node];
             let pp = self.parent()[&p];
@@ -151,11 +155,7 @@ impl<Id: IdType> ConnComp<Id> {
             node = pp;
         }
 
-        if self.parent().get(&node) != None {
-            Some(node)
-        } else {
-            None
-        }
+        Some(node)
     }
 
     /// Check if two nodes are belong to the same component.
-- 
2.43.0


From 64ef624c4b26b9cae7296f8ca406dccd0e45f9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 14/26] fix: Dfs visits nodes in depth-first order

---
 src/algorithm/dfs.rs | 45 ++++++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/algorithm/dfs.rs b/src/algorithm/dfs.rs
index ef3e342..0e58740 100644
--- a/src/algorithm/dfs.rs
+++ b/src/algorithm/dfs.rs
@@ -76,9 +76,17 @@ impl<'a, Id: IdType, NL: Eq + Hash + 'a, EL: Eq + Hash + 'a, L: IdType> Dfs<'a,
     /// Create a `Dfs` from a vector and a map
     pub fn from_parts<G: GeneralGraph<Id, NL, EL, L>>(
         stack: Vec<Id>,
-        discovered: FixedBitSet,
+        mut discovered: FixedBitSet,
         graph: &'a G,
     ) -> Self {
+        // Nodes on the stack are yet to be visited
+        for node in stack.iter() {
+            if node.id() >= discovered.len() {
+                discovered.grow(node.id() + 1);
+            }
+            discovered.set(node.id(), true);
+        }
+
         Dfs {
             stack,
             discovered,
@@ -108,23 +116,30 @@ impl<'a, Id: IdType, NL: Eq + Hash + 'a, EL: Eq + Hash + 'a, L: IdType> Dfs<'a,
 
     /// Return the next node in the Dfs, or **None** if the traversal is done.
     pub fn next(&mut self) -> Option<Id> {
-        if self.stack.len() == 0 {
-            if let Some(id) = self.next_unvisited_node() {
-                self.stack.push(id);
-                self.discovered.set(id.id(), false);
+        loop {
+            if self.stack.len() == 0 {
+                if let Some(id) = self.next_unvisited_node() {
+                    self.stack.push(id);
+                }
             }
-        }
 
-        if let Some(current_node) = self.stack.pop() {
-            for neighbour in self.graph.neighbors_iter(current_node) {
-                if self.discovered.contains(neighbour.id()) {
-                    self.discovered.set(neighbour.id(), false);
-                    self.stack.push(neighbour);
+            if let Some(current_node) = self.stack.pop() {
+                // A node may be on the stack several times, only the first visit counts
+                if !self.discovered.contains(current_node.id()) {
+                    continue;
                 }
+
+                self.discovered.set(current_node.id(), false);
+                for neighbour in self.graph.neighbors_iter(current_node) {
+                    if self.discovered.contains(neighbour.id()) {
+                        self.stack.push(neighbour);
+                    }
+                }
+
+                return Some(current_node);
+            } else {
+                return None;
             }
-            Some(current_node)
-        } else {
-            None
         }
     }
 
@@ -144,7 +159,6 @@ impl<'a, Id: IdType, NL: Eq + Hash + 'a, EL: Eq + Hash + 'a, L: IdType> Dfs<'a,
             if !self.graph.has_node(start) {
                 panic!("Node {:?} is not in the graph.", start);
             } else {
-                self.discovered.set(start.id(), false);
                 self.stack.clear();
                 self.stack.push(start);
             }
@@ -153,7 +167,6 @@ impl<'a, Id: IdType, NL: Eq + Hash + 'a, EL: Eq + Hash + 'a, L: IdType> Dfs<'a,
                 panic!("Graph is empty")
             } else {
                 let id = self.graph.node_indices().next().unwrap();
-                self.discovered.set(id.id(), false);
                 self.stack.clear();
                 self.stack.push(id);
             }
-- 
2.43.0


From 8ce3f791187c4497863c5e88e42c98782c2dc6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 15/26] fix: export and CSV writing report an error if the last
 buffered bytes cannot be stored

---
 src/io/csv/writer.rs | 2 ++
 src/io/serde.rs      | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/io/csv/writer.rs b/src/io/csv/writer.rs
index a4537aa..8bf575a 100644
--- a/src/io/csv/writer.rs
+++ b/src/io/csv/writer.rs
@@ -111,6 +111,7 @@ where
         for id in self.g.node_indices() {
             wtr.serialize(NodeRecord::new(id, g.get_node_label(id)))?;
         }
+        wtr.flush()?;
 
         info!(
             "csv::Writer::write - Writing edges to {}",
@@ -128,6 +129,7 @@ where
                 g.get_edge_label(start, target),
             ))?;
         }
+        wtr.flush()?;
 
         Ok(())
     }
diff --git a/src/io/serde.rs b/src/io/serde.rs
index 58eea95..e07001b 100644
--- a/src/io/serde.rs
+++ b/src/io/serde.rs
@@ -19,7 +19,7 @@
  * under the License.
  */
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
+use std::io::{BufReader, BufWriter, Write};
 use std::path::Path;
 
 use serde::{de, ser};
@@ -59,7 +59,10 @@ impl Serializer {
     {
         let mut writer = BufWriter::new(File::create(path)?);
 
-        serialize_into(&mut writer, &obj)
+        serialize_into(&mut writer, &obj)?;
+        writer.flush()?;
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From 6431fc448082e803cce7b77c80e7afab41d7f542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 16/26] fix: label tables with different indices no longer
 compare equal

---
 src/map/set_map.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/map/set_map.rs b/src/map/set_map.rs
index 7ea6271..e6b0ff3 100644
--- a/src/map/set_map.rs
+++ b/src/map/set_map.rs
@@ -29,11 +29,18 @@ use io::serde::{Deserialize, Serialize};
 use map::VecMap;
 
 /// More efficient but less compact.
-#[derive(Debug, PartialEq, Eq, Clone, Serialize, Deserialize)]
+#[derive(Debug, Eq, Clone, Serialize, Deserialize)]
 pub struct SetMap<L: Hash + Eq> {
     labels: IndexSet<L>,
 }
 
+/// Equal tables give the same indices to the same items.
+impl<L: Hash + Eq> PartialEq for SetMap<L> {
+    fn eq(&self, other: &SetMap<L>) -> bool {
+        self.len() == other.len() && self.items().eq(other.items())
+    }
+}
+
 impl<L: Hash + Eq> Serialize for SetMap<L> where L: serde::Serialize {}
 
 impl<L: Hash + Eq> Deserialize for SetMap<L> where L: for<'de> serde::Deserialize<'de> {}
-- 
2.43.0


From e893081cbfb0f0a571edeb253c4ef598914f6d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:54 +0000
Subject: [PATCH 17/26] fix: labelling an undirected edge through a mutable
 view is seen from both end points

---
 src/graph_impl/graph_map/edge.rs  | 31 ++++++++++++++++++-
 src/graph_impl/graph_map/graph.rs | 51 ++++++++++++++++++++++++++-----
 2 files changed, 73 insertions(+), 9 deletions(-)

diff --git a/src/graph_impl/graph_map/edge.rs b/src/graph_impl/graph_map/edge.rs
index 41d10bf..54d8b2c 100644
--- a/src/graph_impl/graph_map/edge.rs
+++ b/src/graph_impl/graph_map/edge.rs
@@ -20,13 +20,23 @@
  */
 use generic::{EdgeTrait, IdType, MutEdgeTrait};
 
-#[derive(Debug, PartialEq, Eq)]
+#[derive(Debug)]
 pub struct MutEdge<'a, Id: IdType, L: IdType = Id> {
     src: Id,
     dst: Id,
     label: &'a mut Option<L>,
+    /// The label of the same edge stored at the other end point of an undirected graph
+    mirror: Option<&'a mut Option<L>>,
 }
 
+impl<'a, 'b, Id: IdType, L: IdType> PartialEq<MutEdge<'b, Id, L>> for MutEdge<'a, Id, L> {
+    fn eq(&self, other: &MutEdge<'b, Id, L>) -> bool {
+        self.src == other.src && self.dst == other.dst && *self.label == *other.label
+    }
+}
+
+impl<'a, Id: IdType, L: IdType> Eq for MutEdge<'a, Id, L> {}
+
 impl<'a, Id: IdType, L: IdType> MutEdge<'a, Id, L> {
     #[inline(always)]
     pub fn new(start: Id, target: Id, label: &'a mut Option<L>) -> Self {
@@ -34,6 +44,22 @@ impl<'a, Id: IdType, L: IdType> MutEdge<'a, Id, L> {
             src: start,
             dst: target,
             label,
+            mirror: None,
+        }
+    }
+
+    #[inline(always)]
+    pub(crate) fn with_mirror(
+        start: Id,
+        target: Id,
+        label: &'a mut Option<L>,
+        mirror: Option<&'a mut Option<L>>,
+    ) -> Self {
+        MutEdge {
+            src: start,
+            dst: target,
+            label,
+            mirror,
         }
     }
 }
@@ -59,6 +85,9 @@ impl<'a, Id: IdType, L: IdType> MutEdgeTrait<Id, L> for MutEdge<'a, Id, L> {
     #[inline(always)]
     fn set_label_id(&mut self, label: Option<L>) {
         *self.label = label;
+        if let Some(ref mut mirror) = self.mirror {
+            **mirror = label;
+        }
     }
 }
 
diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index f38a96a..8f94f2d 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -34,7 +34,7 @@ use generic::{
     MutMapTrait, MutNodeTrait, MutNodeType, NodeTrait, NodeType, OwnedEdgeType, OwnedNodeType,
     UnGraphTrait, Undirected,
 };
-use graph_impl::graph_map::{Edge, MutNodeMapTrait, NodeMap, NodeMapTrait};
+use graph_impl::graph_map::{Edge, MutEdge, MutNodeMapTrait, NodeMap, NodeMapTrait};
 use graph_impl::{EdgeVec, GraphImpl, TypedStaticGraph};
 use io::serde::{Deserialize, Serialize};
 use map::SetMap;
@@ -370,8 +370,27 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             return MutEdgeType::None;
         }
 
-        let nodemap = self.node_map.get_mut(&start).unwrap();
-        nodemap.get_neighbor_mut(target)
+        if self.is_directed() || start == target {
+            let nodemap = self.node_map.get_mut(&start).unwrap();
+            return nodemap.get_neighbor_mut(target);
+        }
+
+        // The label of an undirected edge is stored at both end points
+        let mut label = None;
+        let mut mirror = None;
+        if let [Some(start_node), Some(target_node)] =
+            self.node_map.get_disjoint_mut([&start, &target])
+        {
+            label = start_node.neighbors.get_mut(&target);
+            mirror = target_node.neighbors.get_mut(&start);
+        }
+
+        match label {
+            Some(label) => {
+                MutEdgeType::EdgeRef(MutEdge::with_mirror(start, target, label, mirror))
+            }
+            None => MutEdgeType::None,
+        }
     }
 
     #[inline]
@@ -416,11 +435,27 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
                     .flat_map(|n| n.neighbors_iter_mut()),
             ))
         } else {
-            Iter::new(Box::new(
-                self.node_map
-                    .values_mut()
-                    .flat_map(|n| n.non_less_neighbors_iter_mut()),
-            ))
+            // The label of an undirected edge is stored at both end points
+            let mut edges = Vec::with_capacity(self.num_of_edges);
+            let mut mirrors = FnvHashMap::default();
+
+            for node in self.node_map.values_mut() {
+                let id = node.id;
+                for (&neighbor, label) in node.neighbors.iter_mut() {
+                    if id <= neighbor {
+                        edges.push((id, neighbor, label));
+                    } else {
+                        mirrors.insert((neighbor, id), label);
+                    }
+                }
+            }
+
+            Iter::new(Box::new(edges.into_iter().map(
+                move |(start, target, label)| {
+                    let mirror = mirrors.remove(&(start, target));
+                    MutEdgeType::EdgeRef(MutEdge::with_mirror(start, target, label, mirror))
+                },
+            )))
         }
     }
 }
-- 
2.43.0


From fd006209d13a2966ee53eaf5e8d5567769aeae7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 18/26] fix: the derived edge count of an undirected static
 graph counts self loops

---
 src/graph_impl/static_graph/graph.rs           | 4 ++--
 src/graph_impl/static_graph/mmap/graph_mmap.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index ec6bf4e..a1a9301 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -179,7 +179,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             if Ty::is_directed() {
                 edges.num_edges()
             } else {
-                edges.num_edges() >> 1
+                StaticEdgeIndexIter::new(Box::new(&edges), false).count()
             }
         };
 
@@ -238,7 +238,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             if Ty::is_directed() {
                 edges.num_edges()
             } else {
-                edges.num_edges() >> 1
+                StaticEdgeIndexIter::new(Box::new(&edges), false).count()
             }
         };
 
diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index 4bfce42..f32726b 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -116,7 +116,7 @@ where
             let num_edge = if in_edges.is_some() {
                 edges.num_edges()
             } else {
-                edges.num_edges() >> 1
+                StaticEdgeIndexIter::new(Box::new(&edges), false).count()
             };
 
             StaticGraphMmapAux::empty(num_node, num_edge)
-- 
2.43.0


From caacf6680b2c4e86a15d09f9c6df2f0535dd0836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 19/26] fix: a default or cleared EdgeVec has no nodes

---
 src/graph_impl/static_graph/edge_vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_impl/static_graph/edge_vec.rs b/src/graph_impl/static_graph/edge_vec.rs
index 02a41f5..8f9d7b3 100644
--- a/src/graph_impl/static_graph/edge_vec.rs
+++ b/src/graph_impl/static_graph/edge_vec.rs
@@ -45,7 +45,7 @@ pub trait EdgeVecTrait<Id: IdType, L: IdType> {
 
     #[inline]
     fn num_nodes(&self) -> usize {
-        self.get_offsets().len() - 1
+        self.get_offsets().len().saturating_sub(1)
     }
 
     #[inline]
-- 
2.43.0


From 85afdb12258c4b7563939c979e7d987ae412b07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 20/26] fix: an empty label field of a headerless CSV row means
 no label

---
 src/io/csv/record.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/csv/record.rs b/src/io/csv/record.rs
index e2bc16e..11a3b80 100644
--- a/src/io/csv/record.rs
+++ b/src/io/csv/record.rs
@@ -114,7 +114,7 @@ where
                 let id = seq
                     .next_element()?
                     .ok_or_else(|| de::Error::invalid_length(0, &self))?;
-                let label = seq.next_element().unwrap_or(None);
+                let label = seq.next_element::<Option<N>>().unwrap_or(None).and_then(|l| l);
 
                 Ok(NodeRecord::new(id, label))
             }
@@ -205,7 +205,7 @@ where
                 let target = seq
                     .next_element()?
                     .ok_or_else(|| de::Error::invalid_length(1, &self))?;
-                let label = seq.next_element().unwrap_or(None);
+                let label = seq.next_element::<Option<E>>().unwrap_or(None).and_then(|l| l);
 
                 Ok(EdgeRecord::new(start, target, label))
             }
-- 
2.43.0


From 53cd80216b51f54bbd55ad6168c18f731477e612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:56 +0000
Subject: [PATCH 21/26] fix: unrelated files with a non-UTF-8 name no longer
 break loading an LDBC directory

---
 src/io/ldbc/node.rs     | 8 +++++---
 src/io/ldbc/relation.rs | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/io/ldbc/node.rs b/src/io/ldbc/node.rs
index 371d9c8..13521b8 100644
--- a/src/io/ldbc/node.rs
+++ b/src/io/ldbc/node.rs
@@ -46,9 +46,11 @@ impl Node {
     }
 
     pub fn is_match(&self, path: &PathBuf) -> bool {
-        let filename = path.as_path().file_name().unwrap().to_str().unwrap();
-
-        self.file_name_start.is_match(filename)
+        // The names of all recognised files are plain text
+        match path.as_path().file_name().and_then(|name| name.to_str()) {
+            Some(filename) => self.file_name_start.is_match(filename),
+            None => false,
+        }
     }
 
     pub fn add_node<Id: IdType, Ty: GraphType>(
diff --git a/src/io/ldbc/relation.rs b/src/io/ldbc/relation.rs
index 75f6782..c60878c 100644
--- a/src/io/ldbc/relation.rs
+++ b/src/io/ldbc/relation.rs
@@ -58,9 +58,11 @@ impl Relation {
     }
 
     pub fn is_match(&self, path: &PathBuf) -> bool {
-        let filename = path.as_path().file_name().unwrap().to_str().unwrap();
-
-        self.file_name_start.is_match(filename)
+        // The names of all recognised files are plain text
+        match path.as_path().file_name().and_then(|name| name.to_str()) {
+            Some(filename) => self.file_name_start.is_match(filename),
+            None => false,
+        }
     }
 
     pub fn add_edge<Id: IdType, Ty: GraphType>(
-- 
2.43.0


From 72b150c78e545b6f0d3c2c8fe01b175c194eb1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 22/26] fix: random_gnp_graph rejects a probability that is not
 a number

---
 src/graph_gen/random.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen/random.rs b/src/graph_gen/random.rs
index 8142286..30991c6 100644
--- a/src/graph_gen/random.rs
+++ b/src/graph_gen/random.rs
@@ -43,7 +43,7 @@ where
     EL: Hash + Eq + Clone,
     Ty: GraphType,
 {
-    if p < 0f32 || p > 1f32 {
+    if !(p >= 0f32 && p <= 1f32) {
         panic!("p must be in the range of [0,1]");
     }
 
-- 
2.43.0


From 5d2511b894f138c476613e20359bf4d4952a4fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 23/26] fix: only files named exactly like an LDBC relation are
 read as one

Relation files were recognised by any file name containing the pattern, so that
checksum, backup or otherwise named files next to the data were parsed as rows.
---
 src/io/ldbc/node.rs     | 2 +-
 src/io/ldbc/relation.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/ldbc/node.rs b/src/io/ldbc/node.rs
index 13521b8..6b1202f 100644
--- a/src/io/ldbc/node.rs
+++ b/src/io/ldbc/node.rs
@@ -41,7 +41,7 @@ impl Node {
             name: name.to_owned(),
             id_index,
             label_index,
-            file_name_start: Regex::new(&format!(r"^{}[_\d]*.csv", file_name_start)[..]).unwrap(),
+            file_name_start: Regex::new(&format!(r"^{}[_\d]*\.csv$", file_name_start)[..]).unwrap(),
         }
     }
 
diff --git a/src/io/ldbc/relation.rs b/src/io/ldbc/relation.rs
index c60878c..5368adb 100644
--- a/src/io/ldbc/relation.rs
+++ b/src/io/ldbc/relation.rs
@@ -52,7 +52,7 @@ impl Relation {
             edge_label: edge_label.to_owned(),
             start_index,
             target_index,
-            file_name_start: Regex::new(&format!("{}{}", file_name_start, r"[_\d]*.csv")[..])
+            file_name_start: Regex::new(&format!(r"^{}[_\d]*\.csv$", file_name_start)[..])
                 .unwrap(),
         }
     }
-- 
2.43.0


From 85206f865dfa8808cbbca7c2da8790596df64963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:13 +0000
Subject: [PATCH 24/26] fix: enumerating edges of unsorted (corrupted)
 adjacency lists always ends

---
 src/graph_impl/static_graph/static_edge_iter.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/graph_impl/static_graph/static_edge_iter.rs b/src/graph_impl/static_graph/static_edge_iter.rs
index 3ab3bed..e0b09c6 100644
--- a/src/graph_impl/static_graph/static_edge_iter.rs
+++ b/src/graph_impl/static_graph/static_edge_iter.rs
@@ -64,14 +64,16 @@ impl<'a, Id: IdType, L: IdType> Iterator for StaticEdgeIndexIter<'a, Id, L> {
             neighbors = self.edge_vec.neighbors(Id::new(node));
 
             if !self.is_directed && neighbors[self.curr_neighbor_index] < Id::new(node) {
-                match neighbors.binary_search(&Id::new(node)) {
+                // Only what has not been passed yet is searched: going back would never end
+                // on adjacency lists that are not sorted (e.g. read from a corrupted file).
+                match neighbors[self.curr_neighbor_index..].binary_search(&Id::new(node)) {
                     Ok(index) => {
-                        self.curr_neighbor_index = index;
+                        self.curr_neighbor_index += index;
                         break;
                     }
                     Err(index) => {
-                        if index < neighbors.len() {
-                            self.curr_neighbor_index = index;
+                        if self.curr_neighbor_index + index < neighbors.len() {
+                            self.curr_neighbor_index += index;
                             break;
                         } else {
                             self.curr_node += 1;
-- 
2.43.0


From 376c8241300303fdea20f2f2d323beb95d52f67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:16 +0000
Subject: [PATCH 25/26] fix: keep LDBC entities of different types apart
 whatever their ids look like

---
 src/io/ldbc/node.rs     | 3 ++-
 src/io/ldbc/relation.rs | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/io/ldbc/node.rs b/src/io/ldbc/node.rs
index 6b1202f..44870a0 100644
--- a/src/io/ldbc/node.rs
+++ b/src/io/ldbc/node.rs
@@ -59,7 +59,8 @@ impl Node {
         g: &mut TypedGraphMap<Id, String, String, Ty>,
         node_id_map: &mut HashMap<String, Id>,
     ) {
-        let str_id = self.name.clone() + &record[self.id_index];
+        // Type names contain no '|', so that ids of different types never meet
+        let str_id = format!("{}|{}", self.name, &record[self.id_index]);
 
         let id = *node_id_map.entry(str_id).or_insert_with(|| {
             if let Some(i) = g.max_seen_id() {
diff --git a/src/io/ldbc/relation.rs b/src/io/ldbc/relation.rs
index 5368adb..a1e5b5b 100644
--- a/src/io/ldbc/relation.rs
+++ b/src/io/ldbc/relation.rs
@@ -71,8 +71,9 @@ impl Relation {
         g: &mut TypedGraphMap<Id, String, String, Ty>,
         node_id_map: &mut HashMap<String, Id>,
     ) {
-        let start_str_id = self.start_label.clone() + &record[self.start_index];
-        let target_str_id = self.target_label.clone() + &record[self.target_index];
+        // Type names contain no '|', so that ids of different types never meet
+        let start_str_id = format!("{}|{}", self.start_label, &record[self.start_index]);
+        let target_str_id = format!("{}|{}", self.target_label, &record[self.target_index]);
 
         let start_id = *node_id_map.entry(start_str_id).or_insert_with(|| {
             let i = if let Some(i) = g.max_seen_id() {
-- 
2.43.0


From 5990fcfd29afa92c7c868665f9273f7a3cac5c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:56 +0000
Subject: [PATCH 26/26] fix: reading CSV reports a file that cannot be read
 instead of loading it as empty

---
 src/io/csv/reader.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/io/csv/reader.rs b/src/io/csv/reader.rs
index 7c99275..deb701b 100644
--- a/src/io/csv/reader.rs
+++ b/src/io/csv/reader.rs
@@ -121,11 +121,14 @@ where
                 "Adding nodes from {}",
                 path_to_nodes.as_path().to_str().unwrap()
             );
-            let rdr = ReaderBuilder::new()
+            let mut rdr = ReaderBuilder::new()
                 .has_headers(self.has_headers)
                 .flexible(self.is_flexible)
                 .delimiter(self.separator)
                 .from_path(path_to_nodes.as_path())?;
+            if self.has_headers {
+                rdr.byte_headers()?;
+            }
 
             for (i, result) in rdr.into_deserialize().enumerate() {
                 match result {
@@ -133,6 +136,8 @@ where
                         let record: NodeRecord<Id, NL> = _result;
                         record.add_to_graph(g);
                     }
+                    // Nothing more can be read, which is not the fault of a single row
+                    Err(e) if e.is_io_error() => return Err(e.into()),
                     Err(e) => warn!("Line {:?}: Error when reading csv: {:?}", i + 1, e),
                 }
             }
@@ -143,11 +148,14 @@ where
             self.path_to_edges.as_path().to_str().unwrap()
         );
 
-        let rdr = ReaderBuilder::new()
+        let mut rdr = ReaderBuilder::new()
             .has_headers(self.has_headers)
             .flexible(self.is_flexible)
             .delimiter(self.separator)
             .from_path(self.path_to_edges.as_path())?;
+        if self.has_headers {
+            rdr.byte_headers()?;
+        }
 
         for (i, result) in rdr.into_deserialize().enumerate() {
             match result {
@@ -155,6 +163,7 @@ where
                     let record: EdgeRecord<Id, EL> = _result;
                     record.add_to_graph(g);
                 }
+                Err(e) if e.is_io_error() => return Err(e.into()),
                 Err(e) => warn!("Line {:?}: Error when reading csv: {:?}", i + 1, e),
             }
         }
-- 
2.43.0


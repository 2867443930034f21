From 9e3d75f502a9b474d5d3e0c483434bd0b5c436ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:18 +0000
Subject: [PATCH 1/2] fix: bulk_load must put all leaves at the same depth

Clusters of one level differ in size, and every cluster decided on its own
whether it is a leaf node. Trees of e.g. 25 elements got leaves at different
depths, which makes a later insert (reinsertion assumes uniform depth) put
leaves next to inner nodes and panic with "This is a bug in rstar.".
---
 .../bulk_load/bulk_load_sequential.rs         | 37 ++++++++++++++-----
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs b/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs
index 3ea6789..1e47167 100644
--- a/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs
+++ b/rstar/src/algorithm/bulk_load/bulk_load_sequential.rs
@@ -12,26 +12,30 @@ use num_traits::Float;
 
 use super::cluster_group_iterator::{calculate_number_of_clusters_on_axis, ClusterGroupIterator};
 
-fn bulk_load_recursive<T, Params>(mut elements: Vec<T>) -> ParentNode<T>
+/// Bulk loads a subtree with exactly one level of inner nodes per entry of `clusters_per_level`,
+/// each entry being the number of clusters on an axis to use on that level.
+fn bulk_load_recursive<T, Params>(
+    mut elements: Vec<T>,
+    clusters_per_level: &[usize],
+) -> ParentNode<T>
 where
     T: RTreeObject,
     <T::Envelope as Envelope>::Point: Point,
     Params: RTreeParams,
 {
-    let m = Params::MAX_SIZE;
-    if elements.len() <= m {
+    let Some((&number_of_clusters_on_axis, clusters_per_level)) = clusters_per_level.split_first()
+    else {
         // Reached leaf level. Shrink excess capacity so the in-place collect
         // (which reuses the allocation when size_of::<T> == size_of::<RTreeNode<T>>)
         // doesn't preserve a massively over-sized buffer in the final tree node.
         elements.shrink_to_fit();
         let elements: Vec<_> = elements.into_iter().map(RTreeNode::Leaf).collect();
         return ParentNode::new_parent(elements);
-    }
-    let number_of_clusters_on_axis =
-        calculate_number_of_clusters_on_axis::<T, Params>(elements.len()).max(2);
+    };
 
     let iterator = PartitioningTask::<_, Params> {
         number_of_clusters_on_axis,
+        clusters_per_level,
         work_queue: vec![PartitioningState {
             current_axis: <T::Envelope as Envelope>::Point::DIMENSIONS,
             elements,
@@ -51,13 +55,14 @@ struct PartitioningState<T: RTreeObject> {
 }
 
 /// Successively partitions the given elements into  cluster groups and finally into clusters.
-struct PartitioningTask<T: RTreeObject, Params: RTreeParams> {
+struct PartitioningTask<'a, T: RTreeObject, Params: RTreeParams> {
     work_queue: Vec<PartitioningState<T>>,
     number_of_clusters_on_axis: usize,
+    clusters_per_level: &'a [usize],
     _params: core::marker::PhantomData<Params>,
 }
 
-impl<T: RTreeObject, Params: RTreeParams> Iterator for PartitioningTask<T, Params> {
+impl<T: RTreeObject, Params: RTreeParams> Iterator for PartitioningTask<'_, T, Params> {
     type Item = RTreeNode<T>;
 
     fn next(&mut self) -> Option<Self::Item> {
@@ -68,7 +73,7 @@ impl<T: RTreeObject, Params: RTreeParams> Iterator for PartitioningTask<T, Param
             } = next;
             if current_axis == 0 {
                 // Partitioning finished successfully on all axis. The remaining cluster forms a new node
-                let data = bulk_load_recursive::<_, Params>(elements);
+                let data = bulk_load_recursive::<_, Params>(elements, self.clusters_per_level);
                 return RTreeNode::Parent(data).into();
             } else {
                 // The cluster group needs to be partitioned further along the next axis
@@ -97,7 +102,19 @@ where
     <T::Envelope as Envelope>::Point: Point,
     Params: RTreeParams,
 {
-    bulk_load_recursive::<_, Params>(elements)
+    // The clusters of a level differ in size. Derive the number of levels from the largest cluster
+    // only, so that all leaves end up at the same depth.
+    let mut clusters_per_level = Vec::new();
+    let mut largest_cluster = elements.len();
+    while largest_cluster > Params::MAX_SIZE {
+        let number_of_clusters_on_axis =
+            calculate_number_of_clusters_on_axis::<T, Params>(largest_cluster).max(2);
+        clusters_per_level.push(number_of_clusters_on_axis);
+        for _ in 0..<T::Envelope as Envelope>::Point::DIMENSIONS {
+            largest_cluster = largest_cluster.div_ceil(number_of_clusters_on_axis);
+        }
+    }
+    bulk_load_recursive::<_, Params>(elements, &clusters_per_level)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 73cb94c18415904360aafb40e26f83acfdd63d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:51 +0000
Subject: [PATCH 2/2] fix: draining an empty tree must not measure its empty
 envelope

---
 rstar/src/algorithm/removal.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rstar/src/algorithm/removal.rs b/rstar/src/algorithm/removal.rs
index bcbd058..0a420a5 100644
--- a/rstar/src/algorithm/removal.rs
+++ b/rstar/src/algorithm/removal.rs
@@ -174,7 +174,11 @@ where
             let (node, idx, remove_count) = self.node_stack.last_mut()?;
 
             // Try to find a selected item to return.
-            if *idx > 0 || self.removal_function.should_unpack_parent(&node.envelope) {
+            // The envelope of an empty tree is no input for the removal function.
+            if *idx > 0
+                || (!node.children.is_empty()
+                    && self.removal_function.should_unpack_parent(&node.envelope))
+            {
                 while *idx < node.children.len() {
                     match &mut node.children[*idx] {
                         RTreeNode::Parent(_) => {
-- 
2.43.0


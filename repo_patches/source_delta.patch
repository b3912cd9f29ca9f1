From b67aee6e6d59addc67b52b36c794dd3d684d938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:19 +0000
Subject: [PATCH 01/19] fix: compute areas and winding orders in i128, so large
 u32 coordinates do not overflow

2*area of a ring of u32 coordinates needs up to 66 bits. In i64, rings that
cover more than a quarter of the coordinate square panicked in debug builds
and got the wrong winding order in release builds.
---
 src/clip/topology.rs |  2 +-
 src/geo/mod.rs       | 26 ++++++++++++++------------
 src/normalize.rs     |  4 ++--
 3 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/clip/topology.rs b/src/clip/topology.rs
index 14bd58f..a7c23a4 100644
--- a/src/clip/topology.rs
+++ b/src/clip/topology.rs
@@ -170,7 +170,7 @@ impl<Data: Clone> Builder<Data> {
     fn clip_ring(&mut self, ring: &TopoRing<Data>) -> Option<BuildRing> {
         let mut ret: Vec<BuildDirectedEdge> = Vec::with_capacity(2 * ring.directed_edges.len());
 
-        let mut area2: i64 = 0;
+        let mut area2: i128 = 0;
         let mut start_point: Option<Point> = None;
         let mut previous_point: Option<Point> = None;
 
diff --git a/src/geo/mod.rs b/src/geo/mod.rs
index f1d6118..63a55b4 100644
--- a/src/geo/mod.rs
+++ b/src/geo/mod.rs
@@ -88,12 +88,14 @@ pub enum WindingOrder {
 ///
 /// You can call this method on each edge in turn and sum the results to arrive
 /// at the total area (and implicit winding order).
-pub fn signed_area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> i64 {
+pub fn signed_area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> i128 {
     // https://en.wikipedia.org/wiki/Shoelace_formula
-    let mut a: i64 = 0;
+    //
+    // Each product may need 64 bits and 2*area may need 65, so i64 is too small.
+    let mut a: i128 = 0;
 
     for (p1, p2) in points.into_iter().tuple_windows() {
-        a += (p1.0 as i64) * (p2.1 as i64) - (p2.0 as i64) * (p1.1 as i64)
+        a += (p1.0 as i128) * (p2.1 as i128) - (p2.0 as i128) * (p1.1 as i128)
     }
 
     a
@@ -108,20 +110,20 @@ pub fn signed_area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> i64 {
 /// A zero-area Ring is considered to be Clockwise.
 ///
 /// Assumes the first and last Points are identical.
-pub fn area2_and_winding_order<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> (u64, WindingOrder) {
+pub fn area2_and_winding_order<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> (u128, WindingOrder) {
     let a = signed_area2(points);
 
     if a >= 0 {
-        (a as u64, WindingOrder::Clockwise)
+        (a as u128, WindingOrder::Clockwise)
     } else {
-        (-a as u64, WindingOrder::CounterClockwise)
+        (-a as u128, WindingOrder::CounterClockwise)
     }
 }
 
 /// Returns 2*area
 ///
 /// Assumes the first and last Points are identical.
-pub fn area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> u64 {
+pub fn area2<'a, T: IntoIterator<Item=&'a Point>>(points: T) -> u128 {
     area2_and_winding_order(points).0
 }
 
@@ -168,7 +170,7 @@ impl Ring {
     }
 
     /// Returns 2*area
-    pub fn area2(&self) -> u64 {
+    pub fn area2(&self) -> u128 {
         self.area2_and_winding_order().0
     }
 
@@ -179,18 +181,18 @@ impl Ring {
     /// coordinates.
     ///
     /// A zero-area Ring is considered to be Clockwise.
-    pub fn area2_and_winding_order(&self) -> (u64, WindingOrder) {
+    pub fn area2_and_winding_order(&self) -> (u128, WindingOrder) {
         match self {
             &Ring::Edges(ref edges) => {
-                let mut a: i64 = 0;
+                let mut a: i128 = 0;
                 for edge in edges.iter() {
                     a += signed_area2(edge.0.iter());
                 }
 
                 if a >= 0 {
-                    (a as u64, WindingOrder::Clockwise)
+                    (a as u128, WindingOrder::Clockwise)
                 } else {
-                    (-a as u64, WindingOrder::CounterClockwise)
+                    (-a as u128, WindingOrder::CounterClockwise)
                 }
             }
             &Ring::Points(ref points) => area2_and_winding_order(points.iter()),
diff --git a/src/normalize.rs b/src/normalize.rs
index 4b9932b..6effa96 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -190,11 +190,11 @@ fn join_related_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
 
 fn calculate_winding_order_from_edges<T>(edges: &Vec<NormEdge<T>>) -> WindingOrder {
     // https://en.wikipedia.org/wiki/Shoelace_formula
-    let mut a: i64 = 0;
+    let mut a: i128 = 0;
 
     for ref edge in edges {
         for (p1, p2) in edge.points.iter().tuple_windows() {
-            a += (p1.0 as i64) * (p2.1 as i64) - (p2.0 as i64) * (p1.1 as i64)
+            a += (p1.0 as i128) * (p2.1 as i128) - (p2.0 as i128) * (p1.1 as i128)
         }
     }
 
-- 
2.43.0


From 8d3a09934da3a60538a174478737d202557ec5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:38 +0000
Subject: [PATCH 02/19] fix: box regions and edges before taking pointers to
 them

Vec::into_boxed_slice() reallocates when capacity exceeds length, so every
TopoRing.region could dangle.
---
 src/clip/topology.rs  | 10 +++++++---
 src/topology/build.rs | 11 ++++++++---
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/clip/topology.rs b/src/clip/topology.rs
index a7c23a4..076bb70 100644
--- a/src/clip/topology.rs
+++ b/src/clip/topology.rs
@@ -250,8 +250,11 @@ impl<Data: Clone> Builder<Data> {
             }
         }));
 
+        // into_boxed_slice() may move everything: do it before we take pointers
+        let edges = edges.into_boxed_slice();
+
         // Build regions and their rings. Make all region pointers null.
-        let mut regions: Vec<TopoRegion<Data>> = self.regions.into_iter().map(|build_region| {
+        let regions: Vec<TopoRegion<Data>> = self.regions.into_iter().map(|build_region| {
             let BuildRegion { data, outer_rings, inner_rings } = build_region;
             let topo_outer_rings: Vec<TopoRing<Data>> = outer_rings.into_iter()
                 .map(|r| build_ring_to_topo_ring_with_null_ptrs(&edges[..], &r)).collect();
@@ -264,6 +267,7 @@ impl<Data: Clone> Builder<Data> {
                 inner_rings: topo_inner_rings.into_boxed_slice(),
             }
         }).collect();
+        let mut regions = regions.into_boxed_slice();
 
         // Now that regions and edges have their final spots in memory, we can
         // set pointers to them.
@@ -289,8 +293,8 @@ impl<Data: Clone> Builder<Data> {
         }
 
         Topology {
-            regions: regions.into_boxed_slice(),
-            edges: edges.into_boxed_slice(),
+            regions: regions,
+            edges: edges,
         }
     }
 }
diff --git a/src/topology/build.rs b/src/topology/build.rs
index 66c943a..34e01c8 100644
--- a/src/topology/build.rs
+++ b/src/topology/build.rs
@@ -149,7 +149,10 @@ impl<Data> TopologyBuilder<Data>
             .map(|o| o.expect("programming error: an Edge is missing from self.edges"))
             .collect();
 
-        let mut regions: Vec<TopoRegion<Data>> = self.regions.into_iter().map(|build_region| {
+        // into_boxed_slice() may move everything: do it before we take pointers
+        let edges = edges.into_boxed_slice();
+
+        let regions: Vec<TopoRegion<Data>> = self.regions.into_iter().map(|build_region| {
             let BuildRegion { data, outer_rings, inner_rings } = build_region;
 
             let topo_outer_rings: Vec<TopoRing<Data>> = outer_rings.into_iter()
@@ -164,6 +167,8 @@ impl<Data> TopologyBuilder<Data>
             }
         }).collect();
 
+        let mut regions = regions.into_boxed_slice();
+
         for mut region in regions.iter_mut() {
             let region_p = region as *const TopoRegion<Data>;
 
@@ -186,8 +191,8 @@ impl<Data> TopologyBuilder<Data>
         }
 
         Topology {
-            regions: regions.into_boxed_slice(),
-            edges: edges.into_boxed_slice(),
+            regions: regions,
+            edges: edges,
         }
     }
 }
-- 
2.43.0


From 5394b08c608bae0663e66a57a40e3271a9e0a70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:38 +0000
Subject: [PATCH 03/19] fix: compute clip intersections in i128, so large u32
 coordinates do not overflow

---
 src/clip/types.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/clip/types.rs b/src/clip/types.rs
index 9b0ea6d..78e4295 100644
--- a/src/clip/types.rs
+++ b/src/clip/types.rs
@@ -49,7 +49,8 @@ impl ClipMask {
     ///
     /// Assumes either `p1` or `p2` is outside the clip mask.
     pub fn intersect(&self, p1: &Point, p2: &Point) -> Point {
-        fn i(u: u32) -> i64 { u as i64 }
+        // i64 would overflow: the product below may need 65 bits
+        fn i(u: u32) -> i128 { u as i128 }
 
         match self {
             &ClipMask::MinX(x) | &ClipMask::MaxX(x) => {
-- 
2.43.0


From 3b737553a3c20acfe03d17a6229c16c5a42fd262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:40 +0000
Subject: [PATCH 04/19] fix: weigh points by the area of their triangle when
 simplifying

area2() multiplied two x coordinates where it should subtract them, so weights
depended on where the map lies (and overflowed). With true areas, the
documented behaviour (err by at most smallest_area2) means a point that weighs
exactly smallest_area2 is removed, as the existing tests expect. The first and
last points are kept at every threshold.
---
 src/simplify/simplify_edge.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/simplify/simplify_edge.rs b/src/simplify/simplify_edge.rs
index 38c01b8..fda3eea 100644
--- a/src/simplify/simplify_edge.rs
+++ b/src/simplify/simplify_edge.rs
@@ -3,9 +3,9 @@ use std::ptr;
 use geo;
 
 fn area2(a: &geo::Point, b: &geo::Point, c: &geo::Point) -> u64 {
-    fn i(u: u32) -> i64 { u as i64 }
-    let a2: i64 = (i(b.0) * i(a.0)) * (i(c.1) - i(a.1)) - (i(c.0) - i(a.0)) * (i(b.1) - i(a.1));
-    a2.abs() as u64
+    fn i(u: u32) -> i128 { u as i128 } // i64 would overflow
+    let a2: i128 = (i(b.0) - i(a.0)) * (i(c.1) - i(a.1)) - (i(c.0) - i(a.0)) * (i(b.1) - i(a.1));
+    a2.abs() as u64 // at most u32::max_value() ^ 2
 }
 
 #[derive(Debug)]
@@ -250,6 +250,10 @@ impl PointHeap {
     ///
     /// Other side-effects: fiddles with self.heap and self.points[*].heap_index
     fn visvalingam_whyatt(&mut self, smallest_weight: u64) -> Box<[geo::Point]> {
+        // No triangle weighs u64::max_value(): only the first and last points do,
+        // and we always keep those.
+        let largest_removed = cmp::min(smallest_weight, u64::max_value() - 1);
+
         let mut last_weight = 0; // weight of previously-eliminated point
 
         while self.heap.len() > 0 {
@@ -262,7 +266,7 @@ impl PointHeap {
             if small_point.weight < last_weight {
                 small_point.weight = last_weight;
             } else {
-                if small_point.weight >= smallest_weight {
+                if small_point.weight > largest_removed {
                     // We don't need to figure out the exact weight of
                     // any more points, because we know we aren't going to
                     // remove them when we simplify. (Their weights are
@@ -282,7 +286,7 @@ impl PointHeap {
         }
 
         let mut ret: Vec<geo::Point> = self.points.iter()
-            .filter(|ref p| p.weight >= smallest_weight)
+            .filter(|ref p| p.weight > largest_removed)
             .map(|ref p| p.geo_point)
             .collect();
 
-- 
2.43.0


From fb36de8efd4bc668fca07f315d561e3b77df64e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:40 +0000
Subject: [PATCH 05/19] fix: keep the simplification heap in order

sift_down() compared children with the element it started from instead of the
current root, and heap_index was 0 for every point heapify() did not swap.
---
 src/simplify/simplify_edge.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simplify/simplify_edge.rs b/src/simplify/simplify_edge.rs
index fda3eea..8147171 100644
--- a/src/simplify/simplify_edge.rs
+++ b/src/simplify/simplify_edge.rs
@@ -83,6 +83,7 @@ impl From<Vec<geo::Point>> for PointHeap {
             let area2 = area2(&points[i - 1].geo_point, &points[i].geo_point, &points[i + 1].geo_point);
 
             points[i].weight = area2;
+            points[i].heap_index = i - 1; // the heap omits points[0]
             points[i].next = &points[i + 1];
             points[i].previous = &points[i - 1];
         }
@@ -134,7 +135,7 @@ impl PointHeap {
             let child = left_child(root);
             let mut swap = root;
 
-            if unsafe { *self.heap[start] > *self.heap[child] } {
+            if unsafe { *self.heap[root] > *self.heap[child] } {
                 swap = child;
             }
 
-- 
2.43.0


From 6d55e64a0f1f8ff29adb6229f1f0042a9a70071b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:40 +0000
Subject: [PATCH 06/19] fix: leave closed edges of fewer than four points alone
 when simplifying

clip_topology() produces such edges where a border barely enters the mask;
simplify() panicked on them.
---
 src/simplify/simplify_edge.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simplify/simplify_edge.rs b/src/simplify/simplify_edge.rs
index 8147171..7c1a610 100644
--- a/src/simplify/simplify_edge.rs
+++ b/src/simplify/simplify_edge.rs
@@ -343,6 +343,12 @@ impl PointHeap {
 /// because it's in terms of rectangles. For instance, if you want to err by
 /// "at most one pixel" and coordinates are pixels, set `smallest_area2` to `1`.
 pub fn simplify_edge(points: &[geo::Point], smallest_area2: u64) -> Box<[geo::Point]> {
+    if points.len() < 4 && points.first() == points.last() {
+        // Too short to be a ring, and we never open a closed edge. (Clipping can
+        // produce these.)
+        return points.to_vec().into_boxed_slice()
+    }
+
     let mut point_heap = PointHeap::from(points.to_vec());
     point_heap.visvalingam_whyatt(smallest_area2)
 }
-- 
2.43.0


From e2ec76a34d1790ff062736b855160b3f13926545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:49 +0000
Subject: [PATCH 07/19] fix: leave no unused edges and no over-used edges when
 clipping

Edges whose rings were clipped away entirely stayed in the topology with two
null rings, which normalize() then dereferenced. When more than two rings left
and re-entered the mask at the same (rounded) points, into_topology() panicked.
---
 src/clip/topology.rs | 63 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 13 deletions(-)

diff --git a/src/clip/topology.rs b/src/clip/topology.rs
index 076bb70..70114e6 100644
--- a/src/clip/topology.rs
+++ b/src/clip/topology.rs
@@ -234,21 +234,58 @@ impl<Data: Clone> Builder<Data> {
         self.old_edge_id_finder[offset]
     }
 
-    fn into_topology(self) -> Topology<Data> {
-        // Build edges. Make all their ring pointers null.
-        let mut edges: Vec<TopoEdge<Data>> = Vec::with_capacity(self.old_edges.len() + self.new_edges.len());
-        edges.extend(self.old_edges.into_iter().map(|points| {
-            TopoEdge {
-                points: points,
-                rings: [ ptr::null(), ptr::null() ],
+    /// Renumbers edge IDs so each edge is walked by one or two rings. Returns, for
+    /// each original ID, the number of edges it turned into.
+    ///
+    /// An edge nobody walks (because its rings have area 0 now) turns into zero
+    /// edges. A new edge that more than two rings walk (which happens when several
+    /// rings leave and re-enter the mask at the same points) turns into copies of
+    /// itself, because a TopoEdge can only have two rings.
+    fn renumber_edges(&mut self) -> Vec<usize> {
+        let mut n_uses: Vec<usize> = vec![ 0; self.old_edges.len() + self.new_edges.len() ];
+        for region in self.regions.iter() {
+            for ring in region.outer_rings.iter().chain(region.inner_rings.iter()) {
+                for de in ring.0.iter() {
+                    n_uses[de.edge_id] += 1;
+                }
             }
-        }));
-        edges.extend(self.new_edges.into_iter().map(|build_edge| {
-            TopoEdge {
-                points: Box::new([ build_edge.0, build_edge.1 ]),
-                rings: [ ptr::null(), ptr::null() ],
+        }
+
+        let n_copies: Vec<usize> = n_uses.iter().map(|n| (n + 1) / 2).collect();
+
+        let mut next_id: EdgeId = 0;
+        let first_ids: Vec<EdgeId> = n_copies.iter().map(|n| { next_id += *n; next_id - *n }).collect();
+
+        let mut n_renumbered: Vec<usize> = vec![ 0; n_uses.len() ];
+        for region in self.regions.iter_mut() {
+            for ring in region.outer_rings.iter_mut().chain(region.inner_rings.iter_mut()) {
+                for de in ring.0.iter_mut() {
+                    let old_id = de.edge_id;
+                    de.edge_id = first_ids[old_id] + n_renumbered[old_id] / 2;
+                    n_renumbered[old_id] += 1;
+                }
             }
-        }));
+        }
+
+        n_copies
+    }
+
+    fn into_topology(mut self) -> Topology<Data> {
+        let n_copies = self.renumber_edges();
+
+        // Build edges. Make all their ring pointers null.
+        let new_points = self.new_edges.into_iter().map(|build_edge| -> Box<[Point]> { Box::new([ build_edge.0, build_edge.1 ]) });
+        let all_points = self.old_edges.into_iter().chain(new_points);
+
+        let mut edges: Vec<TopoEdge<Data>> = Vec::with_capacity(n_copies.len());
+        for (points, n) in all_points.zip(n_copies) {
+            for _ in 0 .. n {
+                edges.push(TopoEdge {
+                    points: points.clone(),
+                    rings: [ ptr::null(), ptr::null() ],
+                });
+            }
+        }
 
         // into_boxed_slice() may move everything: do it before we take pointers
         let edges = edges.into_boxed_slice();
-- 
2.43.0


From 0e1672a54e91486121e73cc23682ce6fdfd76b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:24 +0000
Subject: [PATCH 08/19] fix: normalize regions whose rings touch, surround a
 hole or fill one

* Rings of one region that touch at a point made join_adjacent_rings() panic.
* Outer rings that together surround a hole produced a counter-clockwise outer
  ring instead of an inner ring; outer rings that fill part of a hole of their
  own region made it panic. Treat outer and inner rings together.
* Edges were joined across points where other borders end, so neighbours joined
  the same border differently and no longer shared an edge. Decide where edges
  end once, for the whole topology.
* The start of a ring and the order of rings were arbitrary when rings touch.
---
 src/normalize.rs | 263 +++++++++++++++++++++++++++--------------------
 1 file changed, 149 insertions(+), 114 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index 6effa96..0118e0d 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -1,5 +1,5 @@
 use std::cmp::Ordering;
-use std::collections::btree_map::{BTreeMap,Entry};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::ptr;
 use itertools::Itertools;
 
@@ -14,13 +14,15 @@ struct NormRing<T> {
 
 impl<T> PartialOrd for NormRing<T> {
     fn partial_cmp(&self, other: &NormRing<T>) -> Option<Ordering> {
-        Some(self.edges[0].points[0].cmp(&other.edges[0].points[0]))
+        Some(self.cmp(other))
     }
 }
 
 impl<T> Ord for NormRing<T> {
     fn cmp(&self, other: &NormRing<T>) -> Ordering {
-        self.edges[0].points[0].cmp(&other.edges[0].points[0])
+        // Two Rings that touch may start at the same Point, but in one Region
+        // they can't also have the same second Point.
+        self.edges[0].points[..2].cmp(&other.edges[0].points[..2])
     }
 }
 
@@ -39,6 +41,35 @@ impl<T> NormRing<T> {
     }
 }
 
+fn edge_regions<T>(edge: &TopoEdge<T>) -> [ *const TopoRegion<T>; 2 ] {
+    unsafe { [
+        (*edge.rings[0]).region,
+        if edge.rings[1].is_null() { ptr::null() } else { (*edge.rings[1]).region }
+    ] }
+}
+
+/// Finds the Points where borders meet: the ones where the number of border
+/// segments is anything but two.
+///
+/// A line with the same Region on both sides isn't a border.
+fn find_nodes<T>(topo: &Topology<T>) -> HashSet<Point> {
+    let mut n_segments: HashMap<Point, usize> = HashMap::new();
+
+    for edge in topo.edges.iter() {
+        let regions = edge_regions(edge);
+        if regions[0] != regions[1] {
+            for (p1, p2) in edge.points.iter().tuple_windows() {
+                if p1 != p2 {
+                    *n_segments.entry(*p1).or_insert(0) += 1;
+                    *n_segments.entry(*p2).or_insert(0) += 1;
+                }
+            }
+        }
+    }
+
+    n_segments.into_iter().filter(|&(_, n)| n != 2).map(|(p, _)| p).collect()
+}
+
 /// Edge data structure used when normalizing.
 #[derive(Debug,Eq)]
 struct NormEdge<T> {
@@ -53,7 +84,9 @@ impl<T> PartialEq for NormEdge<T> {
 }
 
 impl<T> NormEdge<T> {
-    fn with_directed_edge(directed_edge: &DirectedEdge<T>) -> NormEdge<T> {
+    /// Returns the NormEdges the given DirectedEdge consists of: usually one, more
+    /// if there are Nodes between its first and last points.
+    fn with_directed_edge(directed_edge: &DirectedEdge<T>, nodes: &HashSet<Point>) -> Vec<NormEdge<T>> {
         let ref edge: &TopoEdge<_> = unsafe { &(*directed_edge.edge) };
 
         let mut points = edge.points.to_vec();
@@ -61,12 +94,17 @@ impl<T> NormEdge<T> {
             points.reverse();
         }
 
-        let regions = unsafe { [
-            (*edge.rings[0]).region,
-            if edge.rings[1].is_null() { ptr::null() } else { (*edge.rings[1]).region }
-        ] };
+        let regions = edge_regions(edge);
 
-        NormEdge { points: points, regions: regions }
+        let mut ret = Vec::<NormEdge<T>>::new();
+        let mut start = 0;
+        for i in 1 .. points.len() {
+            if i == points.len() - 1 || nodes.contains(&points[i]) {
+                ret.push(NormEdge { points: points[start .. i + 1].to_vec(), regions: regions });
+                start = i;
+            }
+        }
+        ret
     }
 
     /// `true` iff this NormEdge is between two Rings in the same Region.
@@ -110,13 +148,16 @@ fn rotate_island_edge<T>(edge: &NormEdge<T>) -> NormEdge<T> {
     }
 }
 
-/// Returns an equivalend set of Edges, rotated so that the first Edge starts
+/// Returns an equivalent set of Edges, rotated so that the first Edge starts
 /// at the leftmost/topmost Node.
-fn rotate_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
-    if edges.len() == 1 {
+///
+/// An island has no Node: it will start at its leftmost/topmost Point.
+fn rotate_edges<T>(edges: &Vec<NormEdge<T>>, nodes: &HashSet<Point>) -> Vec<NormEdge<T>> {
+    if edges.len() == 1 && !nodes.contains(&edges[0].points[0]) {
         vec![ rotate_island_edge(&edges[0]) ]
     } else {
-        match edges.iter().enumerate().min_by_key(|&(_, e)| e.points[0]) {
+        // A Ring may visit a Node twice; then its second Point decides.
+        match edges.iter().enumerate().min_by_key(|&(_, e)| (e.points[0], e.points[1])) {
             None | Some((0, _)) => { edges.clone() }
             Some((index, _)) => {
                 let mut ret = Vec::<NormEdge<T>>::with_capacity(edges.len());
@@ -131,9 +172,9 @@ fn rotate_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
 /// Returns an equivalent Vec of `NormEdge`s that has the smallest number of
 /// elements possible.
 ///
-/// Logic: when two consecutive `NormEdge`s share the same Rings, they are
-/// merged into a single `NormEdge` with all the constituent points. ASCII
-/// art:
+/// Logic: when two consecutive `NormEdge`s meet at a Point that isn't a Node,
+/// they are merged into a single `NormEdge` with all the constituent points.
+/// ASCII art:
 ///
 /// ```ascii
 /// *-------*
@@ -156,15 +197,14 @@ fn rotate_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
 ///
 /// Implementation note: we often call this function twice with the same Edge:
 /// once for `a`'s `Ring` and once for `b`'s. Both calls will join `ABC` in the
-/// same way (except at a Node joining two rings from the same Region to
-/// a second Region ... which we fix in join_adjacent_rings()).
-fn join_related_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
+/// same way, because both use the same Nodes.
+fn join_related_edges<T>(edges: &Vec<NormEdge<T>>, nodes: &HashSet<Point>) -> Vec<NormEdge<T>> {
     let mut ret = Vec::<NormEdge<T>>::new();
 
     for ref edge in edges {
         // Either extend the existing edge or add a new one
         let extended = match ret.last_mut() {
-            Some(ref mut last) if last.regions == edge.regions => {
+            Some(ref mut last) if !nodes.contains(&edge.points[0]) => {
                 last.points.extend_from_slice(&edge.points[1..]);
                 true
             },
@@ -176,7 +216,7 @@ fn join_related_edges<T>(edges: &Vec<NormEdge<T>>) -> Vec<NormEdge<T>> {
         }
     }
 
-    if ret.len() > 1 && ret[0].regions == ret.last().unwrap().regions {
+    if ret.len() > 1 && !nodes.contains(&ret[0].points[0]) {
         // edges[0].points[0] isn't an important point. Join edges[0]
         // and edges[last] into a single edge, edges[0].
         let mut points = ret.last().unwrap().points.clone();
@@ -239,9 +279,9 @@ fn wind_edges<T>(edges: &Vec<NormEdge<T>>, order: WindingOrder) -> Vec<NormEdge<
 ///
 /// Here, `FC` is a redundant edge.
 ///
-/// Logic: glob all edges (from all rings) into a single BTreeSet, omitting
-/// redundant edges. Remove the first edge from the set and "follow" it to form
-/// the first Ring. Repeat until the set is empty.
+/// Logic: glob all edges (from all rings) into a single BTreeMap, omitting
+/// redundant edges. Remove the first edge from the map and "follow" it to form
+/// the first Ring. Repeat until the map is empty.
 ///
 /// This is O(N lg N); to speed things up, we pass through rings that aren't
 /// redundant and we nix rings that are entirely redundant. (Exercise for the
@@ -263,91 +303,103 @@ fn wind_edges<T>(edges: &Vec<NormEdge<T>>, order: WindingOrder) -> Vec<NormEdge<
 /// ring representing the same region. Since `EFGH` (the area) is entirely
 /// redundant, we'll nix it. Be sure to nix `EHGF` (the hole) as well!
 ///
-/// Each input ring must be normalized; all output rings will be normalized as
-/// well.
+/// Outer rings must be clockwise and inner rings must be counter-clockwise. We
+/// need both: outer rings that surround a hole join to form an inner ring, and
+/// an outer ring that fills part of a hole joins an inner ring.
 ///
 /// Input Rings may be in any order; output Rings will be in undefined order.
-fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>) -> Vec<NormRing<T>> {
-    let mut ret = Vec::<NormRing<T>>::with_capacity(rings.len()); // upper-bound capacity
-
-    // NormRings are directed. We'll index them by their first Point. There's
-    // no way for two non-redundant edges to leave the same Point.
-    let mut to_merge: BTreeMap<Point, NormEdge<T>> = BTreeMap::new();
-
-    for ref ring in rings {
-        let (redundant, useful): (Vec<_>, Vec<_>) = ring.edges.clone().into_iter().partition(|ref e| e.is_redundant());
-
-        match (redundant.len(), useful.len()) {
-            (0, _) => {
-                // entire ring has no redundant edges: pass it through
-                ret.push(NormRing { edges: useful });
-            }
-            (_, 0) => {
-                // ignore: the entire ring is redundant
-            }
-            _ => {
-                // index the useful edges and ignore the redundant ones
-                for ref edge in useful {
-                    match to_merge.entry(edge.points[0]) {
-                        Entry::Vacant(e) => {
-                            e.insert(edge.clone());
-                        }
-                        Entry::Occupied(e) => {
-                            panic!("Bug/edge case: two distinct edges in the same region are both trying to leave {:?}", e.key());
-                        }
-                    }
+fn join_adjacent_rings<T>(outer_rings: Vec<NormRing<T>>, inner_rings: Vec<NormRing<T>>) -> (Vec<NormRing<T>>, Vec<NormRing<T>>) {
+    // NormRings are directed. We'll index edges by their Points, so we can find
+    // all edges that leave a Point. (Several edges can leave a Point, if rings
+    // touch there.)
+    let mut to_merge: BTreeMap<Vec<Point>, NormEdge<T>> = BTreeMap::new();
+
+    let mut pass_through = |rings: Vec<NormRing<T>>| -> Vec<NormRing<T>> {
+        let mut ret = Vec::<NormRing<T>>::with_capacity(rings.len()); // upper-bound capacity
+
+        for ring in rings {
+            if ring.edges.iter().any(|e| e.is_redundant()) {
+                // index the useful edges (if any) and ignore the redundant ones
+                for edge in ring.edges.into_iter().filter(|e| !e.is_redundant()) {
+                    to_merge.insert(edge.points.clone(), edge);
                 }
+            } else {
+                // entire ring has no redundant edges: pass it through
+                ret.push(ring);
             }
         }
-    }
 
-    if to_merge.len() == 0 {
-        // No merging necessary! All rings are normalized and in order.
-        return ret
-    }
+        ret
+    };
+
+    let mut ret_outer = pass_through(outer_rings);
+    let mut ret_inner = pass_through(inner_rings);
 
     // Now to reconstruct the rings we need to merge....
     while to_merge.len() > 0 {
-        let start = *to_merge.keys().next().unwrap();
-        let mut end = start;
-
-        let mut edges: Vec<NormEdge<T>> = Vec::new();
+        let mut end: Point = to_merge.keys().next().unwrap()[0];
+        let mut path: Vec<NormEdge<T>> = Vec::new();
+        let mut path_index: HashMap<Point, usize> = HashMap::new(); // where in path we left each Point
 
         loop {
-            match to_merge.remove(&end) {
-                None => {
-                    panic!("Expected Edge to continue past {:?} when building Ring", end);
+            if let Some(index) = path_index.get(&end).cloned() {
+                // We've been here before: we've reconstructed a ring.
+                let edges = path.split_off(index);
+                for ref edge in &edges {
+                    path_index.remove(&edge.points[0]);
+                }
+
+                match calculate_winding_order_from_edges(&edges) {
+                    WindingOrder::Clockwise => { ret_outer.push(NormRing { edges: edges }); }
+                    WindingOrder::CounterClockwise => { ret_inner.push(NormRing { edges: edges }); }
                 }
-                Some(edge) => {
-                    end = *edge.points.last().unwrap();
-                    edges.push(edge);
+
+                if path.len() == 0 {
+                    // to_merge may or may not be empty.
+                    break;
                 }
             }
 
-            if end == start {
-                // we've reconstructed a ring. to_merge may or may not be empty.
-                break;
-            }
+            let key = match to_merge.range(vec![ end ] ..).next() {
+                Some((ref points, _)) if points[0] == end => { (*points).clone() }
+                _ => { panic!("Expected Edge to continue past {:?} when building Ring", end); }
+            };
+            let edge = to_merge.remove(&key).unwrap();
+
+            path_index.insert(end, path.len());
+            end = *edge.points.last().unwrap();
+            path.push(edge);
         }
+    }
 
-        edges = join_related_edges(&edges);
-        edges = rotate_edges(&edges);
+    (ret_outer, ret_inner)
+}
 
-        ret.push(NormRing { edges: edges });
-    }
+fn build_norm_rings<T>(in_rings: &[TopoRing<T>], winding_order: WindingOrder, nodes: &HashSet<Point>) -> Vec<NormRing<T>> {
+    in_rings.iter().map(|in_ring| {
+        let edges = in_ring.directed_edges.iter()
+            .flat_map(|directed_edge| NormEdge::<T>::with_directed_edge(directed_edge, nodes))
+            .collect();
 
-    ret.sort();
-    ret
+        NormRing { edges: wind_edges(&edges, winding_order) }
+    }).collect()
 }
 
-/// Returns a normalized copy of the given set of outer/inner rings.
-///
-/// Call with WindingOrder::Clockwise on outer rings and CounterClockwise on
-/// inner rings.
+fn finish_rings<T>(rings: Vec<NormRing<T>>, nodes: &HashSet<Point>) -> Box<[Ring]> {
+    let mut rings: Vec<NormRing<T>> = rings.into_iter().map(|ring| {
+        let edges = join_related_edges(&ring.edges, nodes);
+        NormRing { edges: rotate_edges(&edges, nodes) }
+    }).collect();
+
+    rings.sort();
+
+    let ret: Vec<Ring> = rings.into_iter().map(|r| r.into_ring()).collect();
+    ret.into_boxed_slice()
+}
+
+/// Returns normalized copies of the given region's outer and inner rings.
 ///
-/// Note the tidy cleanup of donuts, even though this function isn't called
-/// with both outer rings and inner rings at the same time (it either gets
-/// all outer rings or all inner rings). For instance:
+/// Note the tidy cleanup of donuts. For instance:
 ///
 /// ```ascii
 /// A------B
@@ -361,33 +413,15 @@ fn join_adjacent_rings<T>(rings: &Vec<NormRing<T>>) -> Vec<NormRing<T>> {
 ///
 /// If a region has two outer rings `ABCD` and `EHGF`, and one inner ring
 /// ("hole"), `EFGH`, then this function's call to join_adjacent_rings() will
-/// nix `EHGF` when called on outer rings, and it will nix `EFGH` when called
-/// on inner rings (since the edges have two rings and thus two Regions, and
-/// both Regions are identical). Ta-da! The donut is gone.
-fn normalize_region_rings<T>(in_rings: &[TopoRing<T>], winding_order: WindingOrder) -> Box<[Ring]> {
-    let mut rings = Vec::<NormRing<T>>::with_capacity(in_rings.len());
+/// nix both `EHGF` and `EFGH` (since the edges have two rings and thus two
+/// Regions, and both Regions are identical). Ta-da! The donut is gone.
+fn normalize_region_rings<T>(region: &TopoRegion<T>, nodes: &HashSet<Point>) -> (Box<[Ring]>, Box<[Ring]>) {
+    let outer_rings = build_norm_rings(&region.outer_rings, WindingOrder::Clockwise, nodes);
+    let inner_rings = build_norm_rings(&region.inner_rings, WindingOrder::CounterClockwise, nodes);
 
-    for ref boxed_ring in in_rings {
-        let ref in_ring = *boxed_ring;
+    let (outer_rings, inner_rings) = join_adjacent_rings(outer_rings, inner_rings);
 
-        let mut edges = Vec::<NormEdge<T>>::with_capacity(in_ring.directed_edges.len());
-
-        for ref directed_edge in in_ring.directed_edges.iter() {
-            edges.push(NormEdge::<T>::with_directed_edge(directed_edge));
-        }
-
-        edges = join_related_edges(&edges);
-        edges = wind_edges(&edges, winding_order);
-        edges = rotate_edges(&edges);
-
-        rings.push(NormRing::<T> { edges: edges });
-    }
-
-    rings = join_adjacent_rings(&rings);
-    rings.sort();
-
-    let ret: Vec<Ring> = rings.into_iter().map(|r| r.into_ring()).collect();
-    ret.into_boxed_slice()
+    (finish_rings(outer_rings, nodes), finish_rings(inner_rings, nodes))
 }
 
 /// Returns a "normalized" copy of the given Topology.
@@ -409,9 +443,10 @@ fn normalize_region_rings<T>(in_rings: &[TopoRing<T>], winding_order: WindingOrd
 pub fn normalize<Data: Clone>(topo: &Topology<Data>) -> Topology<Data> {
     let mut builder = TopologyBuilder::<Data>::new();
 
+    let nodes = find_nodes(topo);
+
     for ref region in topo.regions.iter() {
-        let outer_rings = normalize_region_rings(&region.outer_rings, WindingOrder::Clockwise);
-        let inner_rings = normalize_region_rings(&region.inner_rings, WindingOrder::CounterClockwise);
+        let (outer_rings, inner_rings) = normalize_region_rings(region, &nodes);
         builder.add_region(Region {
             data: region.data.clone(),
             outer_rings: outer_rings,
-- 
2.43.0


From 9d63744b5d835a44bfd4b987bdf394a740a618e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:25 +0000
Subject: [PATCH 09/19] fix: do not panic when normalizing a ring of area zero

simplify() can flatten a ring; normalize() panicked on it although the builder
drops such rings.
---
 src/normalize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index 0118e0d..00cffe9 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -238,8 +238,8 @@ fn calculate_winding_order_from_edges<T>(edges: &Vec<NormEdge<T>>) -> WindingOrd
         }
     }
 
-    assert!(a != 0);
-    if a > 0 {
+    // As in geo: a zero-area ring is considered to be Clockwise.
+    if a >= 0 {
         WindingOrder::Clockwise
     } else {
         WindingOrder::CounterClockwise
-- 
2.43.0


From e4ccdb7ce0b8d0d7978454f97ae67c4af6e0f098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:50 +0000
Subject: [PATCH 10/19] fix: do not repeat the points where edges meet in
 Ring::points()

---
 src/geo/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geo/mod.rs b/src/geo/mod.rs
index 63a55b4..33944be 100644
--- a/src/geo/mod.rs
+++ b/src/geo/mod.rs
@@ -149,7 +149,9 @@ impl Ring {
                 let len = edges.iter().map(|e| e.0.len()).sum();
                 let mut ret = Vec::<Point>::with_capacity(len);
                 for ref edge in edges.iter() {
-                    ret.extend_from_slice(&*edge.0);
+                    // Each Edge starts where the previous one ended
+                    let n_repeated = if ret.len() > 0 && ret.last() == edge.0.first() { 1 } else { 0 };
+                    ret.extend_from_slice(&edge.0[n_repeated ..]);
                 }
                 ret.into_boxed_slice()
             }
-- 
2.43.0


From 5935599984db6740413c0c4a89e0d9da7d087410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:51 +0000
Subject: [PATCH 11/19] fix: do not overflow on a .shp header that states a
 length of 4GB or more

---
 src/read/shapefile/shp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index 868d50e..7eab4c7 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -161,7 +161,7 @@ fn read_shp_header(file: &mut io::Read) -> Result<ShpHeader, ShpError> {
             match ShpShapeType::with_u32(shape_type_u32) {
                 Some(ShpShapeType::Polygon) => {
                     Ok(ShpHeader {
-                        file_n_bytes: (file_len * 2) as usize,
+                        file_n_bytes: file_len as usize * 2,
                         shape_type: ShpShapeType::Polygon,
                         bounding_box: bounding_box,
                     })
-- 
2.43.0


From bc323dfbe9e9271a46725bc2b65010bb503b47a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:52 +0000
Subject: [PATCH 12/19] fix: return an error instead of panicking on .shp
 records that are too short

---
 src/read/shapefile/shp.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index 7eab4c7..f6f04fb 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -185,11 +185,19 @@ fn parse_point(buf: &[u8]) -> Result<ShpPoint, ShpError> {
 }
 
 fn parse_polygon_record(buf: &[u8], record_number: u32) -> Result<ShpPolygonRecord, ShpError> {
+    if buf.len() < 4 {
+        return Err(ShpError::ParseError(format!("Record number {} is too short: it has {} bytes", record_number, buf.len())));
+    }
+
     let shape_type_u32 = LittleEndian::read_u32(&buf[0..4]);
     if shape_type_u32 != 5 {
         return Err(ShpError::ParseError(format!("Record number {} has unsupported shape type: found {}, expected {}", record_number, shape_type_u32, 5)));
     }
 
+    if buf.len() < 44 {
+        return Err(ShpError::ParseError(format!("Record number {} is too short: it has {} bytes", record_number, buf.len())));
+    }
+
     let num_parts = LittleEndian::read_u32(&buf[36..40]) as usize;
     if num_parts == 0 {
         return Err(ShpError::ParseError(format!("Record number {} has no parts", record_number)));
-- 
2.43.0


From 8af4e61dd42a93b925d71e65005e99e44d3002ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:52 +0000
Subject: [PATCH 13/19] fix: require four points in every ring of a .shp record

We only required it of the last ring; the other ones could have three points,
and so not be a closed ring with an area.
---
 src/read/shapefile/shp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index f6f04fb..96a2c6e 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -228,7 +228,7 @@ fn parse_polygon_record(buf: &[u8], record_number: u32) -> Result<ShpPolygonReco
             return Err(ShpError::ParseError(format!("Record number {} has a ring with points {}-{}, but there are only {} points in the record", record_number, part_start, part_end, num_points)));
         }
 
-        if part_start + 3 > part_end {
+        if part_start + 3 >= part_end {
             return Err(ShpError::ParseError(format!("Record number {} has a ring with points {}-{}, but that's an invalid range", record_number, part_start, part_end)));
         }
 
-- 
2.43.0


From 478de65328811ce0da39a10d45eec5528c0a695a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:53 +0000
Subject: [PATCH 14/19] fix: do not allocate memory for .shp records that are
 not there

A damaged record header made us allocate (and zero) up to 8GB.
---
 src/read/shapefile/shp.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index 96a2c6e..9f1d846 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -4,6 +4,7 @@ use std::error;
 use std::fmt;
 use std::fs;
 use std::io;
+use std::io::Read;
 use std::path::Path;
 use byteorder::{BigEndian, ByteOrder, LittleEndian};
 use itertools::Itertools;
@@ -264,9 +265,11 @@ fn read_polygon_record(file: &mut io::Read) -> Result<(ShpPolygonRecord, usize),
             let record_number = BigEndian::read_u32(&header_buf[0..4]);
             let content_length = BigEndian::read_u32(&header_buf[4..8]) as usize;
 
-            let mut buf = vec![ 0u8; content_length * 2 ];
-            match file.read_exact(&mut buf) {
+            // Don't trust content_length enough to allocate that much memory
+            let mut buf = Vec::<u8>::new();
+            match io::Read::take(file, content_length as u64 * 2).read_to_end(&mut buf) {
                 Err(err) => Err(ShpError::IOError(err)),
+                Ok(n) if n != content_length * 2 => Err(ShpError::IOError(io::Error::new(io::ErrorKind::UnexpectedEof, "failed to fill whole buffer"))),
                 Ok(_) => parse_polygon_record(&buf[..], record_number).map(|record| (record, header_buf.len() + buf.len()))
             }
         }
-- 
2.43.0


From 2e48d716d463377f9ac3f9c43637188844bfac3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:54 +0000
Subject: [PATCH 15/19] fix: end iteration over .shp and .dbf files

ShpReader did not count the bytes of invalid records, so it read past the end
of a file that contains one; and after an I/O error, such as the end of a
truncated file, it returned errors forever. DbfReader returned an error for
every record the header promised, up to four billion of them.
---
 src/read/shapefile/dbf.rs |  4 ++++
 src/read/shapefile/shp.rs | 15 +++++++++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/read/shapefile/dbf.rs b/src/read/shapefile/dbf.rs
index dda61c1..01cf8bc 100644
--- a/src/read/shapefile/dbf.rs
+++ b/src/read/shapefile/dbf.rs
@@ -430,6 +430,10 @@ impl<R: io::Read> Iterator for DbfReader<R> {
         } else {
             let ret = read_dbf_record(&mut self.file, self.meta.clone());
             self.n_records_already_iterated += 1;
+            if ret.is_err() {
+                // We don't know where the next record is: stop here.
+                self.n_records_already_iterated = self.meta.n_records;
+            }
             Some(ret)
         }
     }
diff --git a/src/read/shapefile/shp.rs b/src/read/shapefile/shp.rs
index 9f1d846..254c203 100644
--- a/src/read/shapefile/shp.rs
+++ b/src/read/shapefile/shp.rs
@@ -255,8 +255,11 @@ fn parse_polygon_record(buf: &[u8], record_number: u32) -> Result<ShpPolygonReco
 /// Reads the next Polygon record from the file, and returns the number of bytes
 /// that polygon consumed (including its record header).
 ///
+/// Returns Err if we can't read the file any further. If the record is invalid,
+/// returns Ok with the error: the next record may be fine.
+///
 /// Side effect: advances the file cursor to the next Polygon.
-fn read_polygon_record(file: &mut io::Read) -> Result<(ShpPolygonRecord, usize), ShpError> {
+fn read_polygon_record(file: &mut io::Read) -> Result<(Result<ShpPolygonRecord, ShpError>, usize), ShpError> {
     let mut header_buf = [ 0u8; SHP_RECORD_HEADER_LENGTH ];
 
     match file.read_exact(&mut header_buf) {
@@ -270,7 +273,7 @@ fn read_polygon_record(file: &mut io::Read) -> Result<(ShpPolygonRecord, usize),
             match io::Read::take(file, content_length as u64 * 2).read_to_end(&mut buf) {
                 Err(err) => Err(ShpError::IOError(err)),
                 Ok(n) if n != content_length * 2 => Err(ShpError::IOError(io::Error::new(io::ErrorKind::UnexpectedEof, "failed to fill whole buffer"))),
-                Ok(_) => parse_polygon_record(&buf[..], record_number).map(|record| (record, header_buf.len() + buf.len()))
+                Ok(_) => Ok((parse_polygon_record(&buf[..], record_number), header_buf.len() + buf.len()))
             }
         }
     }
@@ -332,13 +335,17 @@ impl<R: io::Read> Iterator for ShpReader<R> {
             None
         } else {
             match read_polygon_record(&mut self.file) {
-                Err(err) => Some(Err(err)),
+                Err(err) => {
+                    // We don't know where the next record is: stop here.
+                    self.n_bytes_already_read = self.header.file_n_bytes;
+                    Some(Err(err))
+                }
                 Ok((record, n_bytes)) => {
                     self.n_bytes_already_read += n_bytes;
                     if self.n_bytes_already_read > self.header.file_n_bytes {
                         Some(Err(ShpError::ParseError(format!("The Shapefile header suggests the file is {} bytes long, but it's longer than that.", self.header.file_n_bytes))))
                     } else {
-                        Some(Ok(record))
+                        Some(record)
                     }
                 }
             }
-- 
2.43.0


From 5ce5298dab35a862a4021e4df8799076ca09e8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:56 +0000
Subject: [PATCH 16/19] fix: return an error instead of panicking on a .dbf
 header length below 32

---
 src/read/shapefile/dbf.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/read/shapefile/dbf.rs b/src/read/shapefile/dbf.rs
index 01cf8bc..7d39279 100644
--- a/src/read/shapefile/dbf.rs
+++ b/src/read/shapefile/dbf.rs
@@ -234,6 +234,10 @@ fn parse_dbf_field(bytes: &[u8], encoding: encoding::EncodingRef, offset: usize)
 ///
 /// Side-effect: advances the file cursor to the first data record.
 fn read_dbf_fields(file: &mut io::Read, encoding: encoding::EncodingRef, dbf_header: &DbfHeader) -> Result<Box<[DbfField]>, DbfError> {
+    if dbf_header.n_header_bytes < DBF_HEADER_LENGTH {
+        return Err(DbfError::ParseError(format!("The header length {} is too small. This is not a valid .dbf file.", dbf_header.n_header_bytes)))
+    }
+
     let mut buf = vec![ 0u8; dbf_header.n_header_bytes - DBF_HEADER_LENGTH ];
 
     match file.read_exact(&mut buf) {
-- 
2.43.0


From 8feec83c94a2aee53205b3364f9522b3b363c01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:57 +0000
Subject: [PATCH 17/19] fix: return an error instead of panicking on .dbf
 fields we cannot read

That is: fields of an unsupported type, fields that do not fit in their record
and Long fields that are too short.
---
 src/read/shapefile/dbf.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/read/shapefile/dbf.rs b/src/read/shapefile/dbf.rs
index 7d39279..2bc11eb 100644
--- a/src/read/shapefile/dbf.rs
+++ b/src/read/shapefile/dbf.rs
@@ -89,18 +89,26 @@ fn dbf_numeric_to_valid_string(bytes: &[u8]) -> Result<String, DbfError> {
 
 impl DbfField {
     pub fn read_string(&self, record: &DbfRecord) -> Result<String, DbfError> {
-        let bytes = &record.bytes[self.offset .. self.offset + self.len];
+        let bytes = match record.bytes.get(self.offset .. self.offset + self.len) {
+            Some(bytes) => bytes,
+            None => { return Err(DbfError::ParseError(format!("Field {} is past the end of the record", self.name))) }
+        };
 
         match &self.data_type {
             &DbfType::Character(encoding) => {
                 encoding.decode(trim_end_spaces(bytes), encoding::DecoderTrap::Strict)
                     .map_err(|s| DbfError::ParseError(s.to_string()))
             }
+            &DbfType::Long if bytes.len() < 4 => {
+                Err(DbfError::ParseError(format!("Field {} is too short to hold a number", self.name)))
+            }
             &DbfType::Long => Ok(LittleEndian::read_u32(bytes).to_string()),
             &DbfType::Numeric => {
                 dbf_numeric_to_valid_string(bytes)
             }
-            _ => { unimplemented!() }
+            unsupported => {
+                Err(DbfError::ParseError(format!("Field {} has unsupported type {:?}", self.name, unsupported)))
+            }
         }
     }
 }
-- 
2.43.0


From c7a1943000642474fea37a1aa379c8736e464c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:58 +0000
Subject: [PATCH 18/19] fix: stop reading .dbf fields at the field terminator

Some programs store more data in the header after it (FoxPro stores 263 bytes).
We read that as field definitions.
---
 src/read/shapefile/dbf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/read/shapefile/dbf.rs b/src/read/shapefile/dbf.rs
index 2bc11eb..9cabeb6 100644
--- a/src/read/shapefile/dbf.rs
+++ b/src/read/shapefile/dbf.rs
@@ -115,6 +115,7 @@ impl DbfField {
 
 const DBF_HEADER_LENGTH: usize = 32;
 const DBF_FIELD_DESCRIPTOR_LENGTH: usize = 32;
+const DBF_FIELD_TERMINATOR: u8 = 0x0d;
 
 #[derive(Debug,Copy,Clone)]
 struct DbfHeader {
@@ -255,7 +256,7 @@ fn read_dbf_fields(file: &mut io::Read, encoding: encoding::EncodingRef, dbf_hea
             let mut offset = 1; // 0 is "deleted" flag
 
             for chunk in buf.chunks(DBF_FIELD_DESCRIPTOR_LENGTH) {
-                if chunk.len() != DBF_FIELD_DESCRIPTOR_LENGTH {
+                if chunk.len() != DBF_FIELD_DESCRIPTOR_LENGTH || chunk[0] == DBF_FIELD_TERMINATOR {
                     break;
                 }
 
-- 
2.43.0


From ad2efcd6e73fcd2ac2cdb10af3feeb1ae8d7e3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:42 +0000
Subject: [PATCH 19/19] fix: store a closed edge without area once, whichever
 way it is walked

---
 src/topology/build.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/topology/build.rs b/src/topology/build.rs
index 34e01c8..3199b4b 100644
--- a/src/topology/build.rs
+++ b/src/topology/build.rs
@@ -116,6 +116,15 @@ impl<Data> TopologyBuilder<Data>
             Direction::Backward
         };
 
+        // A closed edge that encloses no area is Clockwise in both directions.
+        // Both directions are the same path, so choose one.
+        let direction = if p1 == p2 && points.iter().rev().lt(points.iter()) && Ring::Points(points.clone().into_boxed_slice()).area2() == 0 {
+            points.reverse();
+            Direction::Backward
+        } else {
+            direction
+        };
+
         let next_id = self.edges.len();
 
         let maybe_new_edge = BuildEdge(points);
-- 
2.43.0


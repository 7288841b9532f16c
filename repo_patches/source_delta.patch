From 4643abb8a771b307a94f6a8501e0ecb685f41a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 01/22] fix: keep the first corner of a contour that repeats
 its first point at the end

---
 iOverlay/src/segm/build.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/iOverlay/src/segm/build.rs b/iOverlay/src/segm/build.rs
index 5dbd007..2ec958e 100644
--- a/iOverlay/src/segm/build.rs
+++ b/iOverlay/src/segm/build.rs
@@ -46,6 +46,17 @@ fn private_append_iter<I: Iterator<Item=IntPoint>, C: WindingCount>(segments: &m
         p1 = p;
     }
 
+    if p1 == q0 {
+        // the last point repeats the first one, it's not a corner
+        if Triangle::is_not_line_point(p0, q0, q1) {
+            segments.push(Segment::with_ab(p0, q0, direct, invert));
+            segments.push(Segment::with_ab(q0, q1, direct, invert));
+        } else if p0 != q1 {
+            segments.push(Segment::with_ab(p0, q1, direct, invert));
+        }
+        return;
+    }
+
     let is_q0 = Triangle::is_line_point(p0, p1, q0);
     let is_p1 = Triangle::is_line_point(q0, q1, p1);
 
-- 
2.43.0


From 5c5b9b33e0fcb5d95b263d56135885f38908d169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 02/22] fix: empty segment list in the tree split solver

---
 iOverlay/src/split/solver_tree.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iOverlay/src/split/solver_tree.rs b/iOverlay/src/split/solver_tree.rs
index bb26ebb..25070b4 100644
--- a/iOverlay/src/split/solver_tree.rs
+++ b/iOverlay/src/split/solver_tree.rs
@@ -27,6 +27,10 @@ impl SplitSolver {
         snap_radius: SnapRadius,
         mut segments: Vec<Segment<C>>,
     ) -> Vec<Segment<C>> {
+        if segments.is_empty() {
+            return segments;
+        }
+
         let range: SegRange<i32> = segments.ver_range().into();
         let mut tree: SegExpTree<i32, i32, IdSegment> = if let Some(tree) = SegExpTree::new(range) {
             tree
-- 
2.43.0


From 0d4cc56315ebf1fd64a959917e0d318c2b576ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:06 +0000
Subject: [PATCH 03/22] fix: collinear overlap that spans several bins in the
 fragment split solver

---
 iOverlay/src/split/solver_fragment.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iOverlay/src/split/solver_fragment.rs b/iOverlay/src/split/solver_fragment.rs
index 4ec8b09..0992059 100644
--- a/iOverlay/src/split/solver_fragment.rs
+++ b/iOverlay/src/split/solver_fragment.rs
@@ -203,7 +203,8 @@ impl SplitSolver {
                 let mask = CrossSolver::collinear(&fi.x_segment, &fj.x_segment);
                 if mask == 0 { return false; }
 
-                if !(fi.rect.contains_with_radius(fi.x_segment.a, r) || fj.rect.contains_with_radius(fi.x_segment.a, r)) {
+                // fi is not greater than fj, so the common part starts at fj.a
+                if !(fi.rect.contains_with_radius(fj.x_segment.a, r) || fj.rect.contains_with_radius(fj.x_segment.a, r)) {
                     return false;
                 }
 
-- 
2.43.0


From ab0f4c0a097c7c2e6b5635a449a24f095ba56a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:36 +0000
Subject: [PATCH 04/22] fix: touching point on a bin border in the fragment
 split solver

---
 iOverlay/src/split/solver_fragment.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/iOverlay/src/split/solver_fragment.rs b/iOverlay/src/split/solver_fragment.rs
index 0992059..6564191 100644
--- a/iOverlay/src/split/solver_fragment.rs
+++ b/iOverlay/src/split/solver_fragment.rs
@@ -33,7 +33,8 @@ impl SplitSolver {
 
             if !buffer.on_border.is_empty() {
                 for (&index, segments) in buffer.on_border.iter_mut() {
-                    if let Some(fragments) = buffer.groups.get(index) {
+                    // segments ending at the border belong to the previous group
+                    if let Some(fragments) = buffer.groups.get(index - 1) {
                         let border_x = buffer.layout.pos(index);
                         Self::on_border_split(border_x, fragments, segments, &mut marks);
                     }
-- 
2.43.0


From 38febde8e019d7f4119425539760f434b6f6a56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 05/22] fix: split with a constant snap radius may not converge

---
 iOverlay/src/split/snap_radius.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/iOverlay/src/split/snap_radius.rs b/iOverlay/src/split/snap_radius.rs
index 59c2dad..087be9f 100644
--- a/iOverlay/src/split/snap_radius.rs
+++ b/iOverlay/src/split/snap_radius.rs
@@ -1,13 +1,20 @@
 use crate::split::solver::SplitSolver;
 
+const MAX_POWER: usize = 60;
+const MAX_CONSTANT_STEPS: usize = 32;
+
 pub(super) struct SnapRadius {
     current: usize,
     step: usize,
+    count: usize,
 }
 
 impl SnapRadius {
     pub(super) fn increment(&mut self) {
-        self.current = 60.min(self.current + self.step);
+        self.count += 1;
+        // with a constant radius nearly collinear edges may converge too slow or not converge at all
+        let step = if self.count < MAX_CONSTANT_STEPS { self.step } else { self.step.max(1) };
+        self.current = MAX_POWER.min(self.current.saturating_add(step));
     }
 
     pub(super) fn radius(&self) -> i64 {
@@ -20,6 +27,7 @@ impl SplitSolver {
         SnapRadius {
             current: self.solver.precision.start,
             step: self.solver.precision.progression,
+            count: 0,
         }
     }
 }
\ No newline at end of file
-- 
2.43.0


From cde41f0940be492519a4219e49a11f02fea617f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 06/22] fix: large snap radius in the fragment split solver

---
 iOverlay/src/split/snap_radius.rs     | 2 +-
 iOverlay/src/split/solver_fragment.rs | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/split/snap_radius.rs b/iOverlay/src/split/snap_radius.rs
index 087be9f..37c2bbe 100644
--- a/iOverlay/src/split/snap_radius.rs
+++ b/iOverlay/src/split/snap_radius.rs
@@ -25,7 +25,7 @@ impl SnapRadius {
 impl SplitSolver {
     pub(super) fn snap_radius(&self) -> SnapRadius {
         SnapRadius {
-            current: self.solver.precision.start,
+            current: MAX_POWER.min(self.solver.precision.start),
             step: self.solver.precision.progression,
             count: 0,
         }
diff --git a/iOverlay/src/split/solver_fragment.rs b/iOverlay/src/split/solver_fragment.rs
index 6564191..4a910f0 100644
--- a/iOverlay/src/split/solver_fragment.rs
+++ b/iOverlay/src/split/solver_fragment.rs
@@ -7,6 +7,8 @@ use crate::split::line_mark::LineMark;
 use crate::split::snap_radius::SnapRadius;
 use crate::split::solver::SplitSolver;
 
+const MAX_RADIUS: i64 = 1 << 30;
+
 impl SplitSolver {
     pub(super) fn fragment_split<C: WindingCount>(&self, snap_radius: SnapRadius, mut segments: Vec<Segment<C>>) -> Vec<Segment<C>> {
         let layout = if let Some(layout) = GridLayout::new(segments.iter().map(|it| it.x_segment), segments.len()) {
@@ -197,7 +199,8 @@ impl SplitSolver {
             return false;
         };
 
-        let r = radius as i32;
+        // radius is a squared distance and can be greater than any coordinate
+        let r = radius.min(MAX_RADIUS) as i32;
 
         match cross.cross_type {
             CrossType::Overlay => {
-- 
2.43.0


From d67a86040a29c405d163256b444d7b9d8a2e0987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 07/22] fix: vector extraction skips a contour when several
 start at one point

---
 iOverlay/src/vector/extract_vectors.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/iOverlay/src/vector/extract_vectors.rs b/iOverlay/src/vector/extract_vectors.rs
index 8e1bb76..223a7f3 100644
--- a/iOverlay/src/vector/extract_vectors.rs
+++ b/iOverlay/src/vector/extract_vectors.rs
@@ -65,8 +65,6 @@ impl OverlayGraph {
                 let path = self.get_vector_path(start_data, false, visited);
                 shapes.push(vec![path]);
             };
-
-            link_index += 1;
         }
 
         shapes.join(&self.solver, holes, true);
-- 
2.43.0


From d4a147146a28edd3b676fbf368d5f8083186a778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 08/22] fix: parent search for holes in vector extraction

---
 iOverlay/src/bind/segment.rs           | 24 ++++++------------------
 iOverlay/src/vector/extract_vectors.rs | 20 ++++++++------------
 2 files changed, 14 insertions(+), 30 deletions(-)

diff --git a/iOverlay/src/bind/segment.rs b/iOverlay/src/bind/segment.rs
index fdeeec2..34c6a09 100644
--- a/iOverlay/src/bind/segment.rs
+++ b/iOverlay/src/bind/segment.rs
@@ -1,5 +1,5 @@
 use crate::geom::v_segment::VSegment;
-use crate::vector::edge::{VectorEdge, VectorPath};
+use crate::vector::edge::VectorPath;
 use i_float::int::point::IntPoint;
 use i_key_sort::index::{BinKey, BinLayout};
 use i_shape::int::path::IntPath;
@@ -119,25 +119,13 @@ impl IdSegments for VectorPath {
         x_max: i32,
         clockwise: bool,
     ) {
-        fn inner<I: Iterator<Item = VectorEdge>>(
-            iter: I,
-            buffer: &mut Vec<IdSegment>,
-            id_data: ContourIndex,
-            x_min: i32,
-            x_max: i32,
-        ) {
-            for vec in iter {
-                if vec.a.x < vec.b.x && x_min < vec.b.x && vec.a.x <= x_max {
-                    buffer.push(IdSegment::new(id_data, vec.a, vec.b));
-                }
+        // only the edges with the filled side above
+        for vec in self.iter() {
+            let (a, b) = if clockwise { (vec.b, vec.a) } else { (vec.a, vec.b) };
+            if a.x < b.x && x_min < b.x && a.x <= x_max {
+                buffer.push(IdSegment::new(id_data, a, b));
             }
         }
-
-        if clockwise {
-            inner(self.iter().copied(), buffer, id_data, x_min, x_max);
-        } else {
-            inner(self.iter().rev().copied(), buffer, id_data, x_min, x_max);
-        }
     }
 }
 
diff --git a/iOverlay/src/vector/extract_vectors.rs b/iOverlay/src/vector/extract_vectors.rs
index 223a7f3..f7d3dcd 100644
--- a/iOverlay/src/vector/extract_vectors.rs
+++ b/iOverlay/src/vector/extract_vectors.rs
@@ -1,7 +1,7 @@
 use i_float::int::point::IntPoint;
 
 use crate::bind::segment::{ContourIndex, IdSegment, IdSegments};
-use crate::bind::solver::ShapeBinder;
+use crate::bind::solver::{ShapeBinder, SortByAngle};
 use crate::core::filter::MaskFilter;
 use crate::core::graph::OverlayGraph;
 use crate::core::node::OverlayNode;
@@ -9,7 +9,6 @@ use crate::core::overlay_rule::OverlayRule;
 use crate::core::solver::Solver;
 use crate::geom::v_segment::VSegment;
 use crate::segm::segment::SegmentFill;
-use crate::util::sort::SmartBinSort;
 use crate::vector::edge::{VectorEdge, VectorPath, VectorShape};
 
 impl OverlayGraph {
@@ -153,7 +152,7 @@ impl JoinHoles for Vec<VectorShape> {
     }
 
     fn scan_join(&mut self, solver: &Solver, holes: Vec<VectorPath>, clockwise: bool) {
-        let hole_segments: Vec<_> = holes
+        let mut hole_segments: Vec<_> = holes
             .iter()
             .enumerate()
             .map(|(id, path)| {
@@ -169,7 +168,7 @@ impl JoinHoles for Vec<VectorShape> {
             })
             .collect();
 
-        debug_assert!(is_sorted(&hole_segments));
+        hole_segments.sort_by_a_then_by_angle(solver);
 
         let x_min = hole_segments[0].v_segment.a.x;
         let x_max = hole_segments[hole_segments.len() - 1].v_segment.a.x;
@@ -179,7 +178,11 @@ impl JoinHoles for Vec<VectorShape> {
             shape[0].append_id_segments(&mut segments, ContourIndex::new_shape(i), x_min, x_max, clockwise);
         }
 
-        segments.smart_bin_sort_by(solver, |a, b| a.v_segment.a.x.cmp(&b.v_segment.a.x));
+        for (i, hole) in holes.iter().enumerate() {
+            hole.append_id_segments(&mut segments, ContourIndex::new_hole(i), x_min, x_max, clockwise);
+        }
+
+        segments.sort_by_a_then_by_angle(solver);
 
         let solution = ShapeBinder::bind(self.len(), hole_segments, segments);
 
@@ -213,10 +216,3 @@ fn most_left_bottom(path: &VectorPath) -> VSegment {
 
     if s0.is_under_segment(&s1) { s0 } else { s1 }
 }
-
-#[inline]
-fn is_sorted(segments: &[IdSegment]) -> bool {
-    segments
-        .windows(2)
-        .all(|slice| slice[0].v_segment.a <= slice[1].v_segment.a)
-}
-- 
2.43.0


From 29e8c50b519631be4ded9d2372b25d638d244c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:41 +0000
Subject: [PATCH 09/22] fix: edges of overlapping contours inside the filled
 area are not slice lines

---
 iOverlay/src/string/filter.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/string/filter.rs b/iOverlay/src/string/filter.rs
index 2ec39b3..31b1c5d 100644
--- a/iOverlay/src/string/filter.rs
+++ b/iOverlay/src/string/filter.rs
@@ -1,5 +1,5 @@
 use crate::core::link::OverlayLink;
-use crate::segm::segment::{SUBJ_BOTH, SUBJ_BOTTOM, SUBJ_TOP};
+use crate::segm::segment::{CLIP_BOTH, SUBJ_BOTH, SUBJ_BOTTOM, SUBJ_TOP};
 use crate::string::graph::StringGraph;
 use crate::string::rule::StringRule;
 
@@ -53,7 +53,15 @@ impl StringGraph {
     fn filter_slice(&self) -> Vec<u8> {
         self.links
             .iter()
-            .map(|link| link.fill & SUBJ_BOTH)
+            .map(|link| {
+                let fill = link.fill & SUBJ_BOTH;
+                if fill == SUBJ_BOTH && link.fill & CLIP_BOTH == 0 {
+                    // an edge of overlapping contours inside the filled area, it is not a string line
+                    0
+                } else {
+                    fill
+                }
+            })
             .collect()
     }
 }
-- 
2.43.0


From c0c1caae8fc42b40f65098b5dbb30d1e9d0e4bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:25 +0000
Subject: [PATCH 10/22] fix: minimum area of a slice keeps the large contours
 and drops the small ones

---
 iOverlay/src/string/split.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/string/split.rs b/iOverlay/src/string/split.rs
index bf37303..f960e13 100644
--- a/iOverlay/src/string/split.rs
+++ b/iOverlay/src/string/split.rs
@@ -34,7 +34,7 @@ impl Split for IntPath {
             }
         }
 
-        if path.len() > 2 {
+        if path.len() > 2 && path.validate_area(min_area) {
             result.push(path);
         }
 
@@ -53,7 +53,7 @@ impl ValidateArea for IntPath {
             return true;
         }
         let abs_area = self.unsafe_area().unsigned_abs() as usize >> 1;
-        abs_area < min_area
+        abs_area >= min_area
     }
 }
 
-- 
2.43.0


From 2fb25dce526604c3eaad317b11167eaf7a7bfe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 11/22] fix: tree and fragment solvers skip the split of two
 segments

---
 iOverlay/src/split/solver_fragment.rs | 2 +-
 iOverlay/src/split/solver_tree.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/split/solver_fragment.rs b/iOverlay/src/split/solver_fragment.rs
index 4a910f0..3c2f925 100644
--- a/iOverlay/src/split/solver_fragment.rs
+++ b/iOverlay/src/split/solver_fragment.rs
@@ -24,7 +24,7 @@ impl SplitSolver {
 
         let mut snap_radius = snap_radius;
 
-        while need_to_fix && segments.len() > 2 {
+        while need_to_fix && segments.len() > 1 {
 
             buffer.init_fragment_buffer(segments.iter().map(|it| it.x_segment));
             for (i, segment) in segments.iter().enumerate() {
diff --git a/iOverlay/src/split/solver_tree.rs b/iOverlay/src/split/solver_tree.rs
index 25070b4..6e16f8b 100644
--- a/iOverlay/src/split/solver_tree.rs
+++ b/iOverlay/src/split/solver_tree.rs
@@ -43,7 +43,7 @@ impl SplitSolver {
 
         let mut snap_radius = snap_radius;
 
-        while need_to_fix && segments.len() > 2 {
+        while need_to_fix && segments.len() > 1 {
             need_to_fix = false;
 
             let radius = snap_radius.radius();
-- 
2.43.0


From 5541cd99676ee60e3ff3f38e253817225534a4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:15 +0000
Subject: [PATCH 12/22] fix: parallel sort changes the order of links at a node

---
 iOverlay/src/core/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iOverlay/src/core/graph.rs b/iOverlay/src/core/graph.rs
index fa15321..d994f60 100644
--- a/iOverlay/src/core/graph.rs
+++ b/iOverlay/src/core/graph.rs
@@ -40,7 +40,7 @@ impl OverlayGraph {
             .map(|(i, link)| End { index: i, point: link.b.point })
             .collect();
 
-        end_bs.smart_bin_sort_by(solver, |a, b| a.point.cmp(&b.point));
+        end_bs.smart_bin_sort_by(solver, |a, b| a.point.cmp(&b.point).then(a.index.cmp(&b.index)));
 
         let mut nodes: Vec<OverlayNode> = Vec::with_capacity(n);
 
-- 
2.43.0


From fc705ae09eec5184ee69e4424e965abeaa70cdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 13/22] fix: stroke of an empty path or a path with a single
 point

---
 iOverlay/src/mesh/stroke/builder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/mesh/stroke/builder.rs b/iOverlay/src/mesh/stroke/builder.rs
index a4f2d15..8690bdf 100644
--- a/iOverlay/src/mesh/stroke/builder.rs
+++ b/iOverlay/src/mesh/stroke/builder.rs
@@ -112,9 +112,9 @@ impl<J: JoinBuilder<P, T>, P: FloatPointCompatible<T>, T: FloatNumber> StrokeBui
     #[inline]
     fn capacity(&self, paths_count: usize, points_count: usize, is_closed_path: bool) -> usize {
         if is_closed_path {
-            self.join_builder.capacity() * points_count - 2
+            self.join_builder.capacity() * points_count
         } else {
-            self.join_builder.capacity() * (points_count - 1)
+            self.join_builder.capacity() * points_count
                 + paths_count
                     * (self.end_cap_builder.capacity() + self.start_cap_builder.capacity())
         }
@@ -136,6 +136,8 @@ impl<J: JoinBuilder<P, T>, P: FloatPointCompatible<T>, T: FloatNumber> Builder<J
         adapter: &FloatPointAdapter<P, T>,
         segments: &mut Vec<Segment<OffsetCountBoolean>>,
     ) {
+        if path.len() < 2 { return; }
+
         // build segments only from points which are not equal in int space
 
         let n = path.len();
-- 
2.43.0


From f0f4a24bef898a80e6a588974088cc9bcb388b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 14/22] fix: minimum area is ignored by a stroke

---
 iOverlay/src/mesh/stroke/offset.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iOverlay/src/mesh/stroke/offset.rs b/iOverlay/src/mesh/stroke/offset.rs
index c277654..2cbd851 100644
--- a/iOverlay/src/mesh/stroke/offset.rs
+++ b/iOverlay/src/mesh/stroke/offset.rs
@@ -94,6 +94,8 @@ where
             return vec![];
         }
 
+        let int_min_area = adapter.sqr_float_to_int(filter.min_area);
+
         let capacity = builder.capacity(paths_count, points_count, is_closed_path);
         let mut segments = Vec::with_capacity(capacity);
 
@@ -102,7 +104,7 @@ where
         }
 
         let shapes = OverlayGraph::offset_graph_with_solver(segments, Default::default())
-            .extract_offset(main_direction, 0);
+            .extract_offset(main_direction, int_min_area);
 
         let mut float = shapes.to_float(&adapter);
 
-- 
2.43.0


From ef64da35b9ee46310cfb542b9672c565b77ed93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 15/22] fix: stroke with a negative width

---
 iOverlay/src/mesh/stroke/offset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iOverlay/src/mesh/stroke/offset.rs b/iOverlay/src/mesh/stroke/offset.rs
index 2cbd851..f18cc8b 100644
--- a/iOverlay/src/mesh/stroke/offset.rs
+++ b/iOverlay/src/mesh/stroke/offset.rs
@@ -79,7 +79,7 @@ where
             return vec![];
         }
 
-        let r = T::from_float(0.5 * style.width.to_f64());
+        let r = T::from_float(0.5 * style.width.to_f64().max(0.0));
         let builder = StrokeBuilder::new(style);
         let a = builder.additional_offset(r);
 
-- 
2.43.0


From 401100a79465f0deb33e5480e4c0cfc44cd7870c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 16/22] fix: custom cap which is far from the end of the path

---
 iOverlay/src/mesh/stroke/builder_cap.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/iOverlay/src/mesh/stroke/builder_cap.rs b/iOverlay/src/mesh/stroke/builder_cap.rs
index b4bfe67..fb23e93 100644
--- a/iOverlay/src/mesh/stroke/builder_cap.rs
+++ b/iOverlay/src/mesh/stroke/builder_cap.rs
@@ -111,7 +111,9 @@ impl<T: FloatNumber, P: FloatPointCompatible<T>> CapBuilder<P, T> {
     #[inline]
     pub(super) fn additional_offset(&self) -> T {
         if let Some(points) = &self.points {
-            if let Some(rect) = FloatRect::with_iter(points.iter()) {
+            if let Some(mut rect) = FloatRect::with_iter(points.iter()) {
+                // points are relative to the end of the path
+                rect.add_point(&P::from_xy(T::from_float(0.0), T::from_float(0.0)));
                 rect.width() + rect.height()
             } else {
                 T::from_float(0.0)
-- 
2.43.0


From 36acc7125d7ff5544bdece03f9fc43c9384aa300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:44 +0000
Subject: [PATCH 17/22] fix: order of segments when one starts inside the other
 in the hole search

---
 iOverlay/src/geom/v_segment.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/iOverlay/src/geom/v_segment.rs b/iOverlay/src/geom/v_segment.rs
index ca3f49d..8c7e151 100644
--- a/iOverlay/src/geom/v_segment.rs
+++ b/iOverlay/src/geom/v_segment.rs
@@ -15,9 +15,12 @@ impl VSegment {
     #[inline(always)]
     fn is_under_segment_order(&self, other: &VSegment) -> Ordering {
         match self.a.cmp(&other.a) {
-            Ordering::Less => Triangle::clock_order_point(self.a, other.a, self.b),
+            // a segment can start inside the other one, in this case its other end is decisive
+            Ordering::Less => Triangle::clock_order_point(self.a, other.a, self.b)
+                .then_with(|| Triangle::clock_order_point(self.a, other.b, self.b)),
             Ordering::Equal => Triangle::clock_order_point(self.a, other.b, self.b),
-            Ordering::Greater => Triangle::clock_order_point(other.a, other.b, self.a),
+            Ordering::Greater => Triangle::clock_order_point(other.a, other.b, self.a)
+                .then_with(|| Triangle::clock_order_point(other.a, other.b, self.b)),
         }
     }
 
-- 
2.43.0


From 14c7964ed8cdb0010ceb8651238cc350f2bc95c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:28 +0000
Subject: [PATCH 18/22] fix: a contour sharing its left point with contours
 below min_area was lost or taken for a hole

---
 iOverlay/src/core/extract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iOverlay/src/core/extract.rs b/iOverlay/src/core/extract.rs
index b5a76b0..a8ad2ac 100644
--- a/iOverlay/src/core/extract.rs
+++ b/iOverlay/src/core/extract.rs
@@ -84,7 +84,7 @@ impl OverlayGraph {
             let (is_valid, is_modified) = contour.validate(min_area, simplify_contour);
 
             if !is_valid {
-                link_index += 1;
+                // the link may belong to another contour with the same left point
                 continue;
             }
 
-- 
2.43.0


From 09a34a8a5a3aebac450bc6bed70ba163d142f6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:16 +0000
Subject: [PATCH 19/22] fix: caps, joins and sections with equal points in int
 space break the stroke

---
 iOverlay/src/mesh/boolean.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iOverlay/src/mesh/boolean.rs b/iOverlay/src/mesh/boolean.rs
index edbacd9..a937d73 100644
--- a/iOverlay/src/mesh/boolean.rs
+++ b/iOverlay/src/mesh/boolean.rs
@@ -93,6 +93,9 @@ impl WindingCount for OffsetCountBoolean {
 impl OverlayGraph {
     #[inline]
     pub(crate) fn offset_graph_with_solver(segments: Vec<Segment<OffsetCountBoolean>>, solver: Solver) -> OverlayGraph {
+        // ends of a cap point, a section or a join can be equal in int space
+        let mut segments = segments;
+        segments.retain(|s| s.x_segment.a != s.x_segment.b);
         if segments.is_empty() { return OverlayGraph::new(solver, vec![]); }
         let segments = segments.split_segments(solver);
         if segments.is_empty() { return OverlayGraph::new(solver, vec![]); }
-- 
2.43.0


From 886c60f350bcca47a49fdb151e67b96e1429942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:14 +0000
Subject: [PATCH 20/22] fix: holes that pass their left point several times
 were bound to a wrong shape

---
 iOverlay/src/bind/solver.rs            | 26 +++++++++----------
 iOverlay/src/core/extract.rs           | 15 +++++------
 iOverlay/src/mesh/boolean.rs           | 15 +++++------
 iOverlay/src/vector/extract_vectors.rs | 35 ++++++++++----------------
 4 files changed, 37 insertions(+), 54 deletions(-)

diff --git a/iOverlay/src/bind/solver.rs b/iOverlay/src/bind/solver.rs
index 022166e..2ec11e4 100644
--- a/iOverlay/src/bind/solver.rs
+++ b/iOverlay/src/bind/solver.rs
@@ -204,22 +204,20 @@ pub(crate) trait LeftBottomSegment {
 
 impl LeftBottomSegment for IntContour {
     fn left_bottom_segment(&self) -> VSegment {
-        let mut index = 0;
-        let mut a = *self.first().unwrap();
-        for (i, &p) in self.iter().enumerate().skip(1) {
-            if p < a {
-                a = p;
-                index = i;
+        let a = *self.iter().min().unwrap();
+        let n = self.len();
+        let mut bottom: Option<VSegment> = None;
+        // a contour can pass its left point several times
+        for (i, _) in self.iter().enumerate().filter(|(_, p)| **p == a) {
+            for b in [self[(i + 1) % n], self[(i + n - 1) % n]] {
+                let s = VSegment { a, b };
+                bottom = match bottom {
+                    Some(other) if !s.is_under_segment(&other) => Some(other),
+                    _ => Some(s)
+                };
             }
         }
-        let n = self.len();
-        let b0 = self[(index + 1) % n];
-        let b1 = self[(index + n - 1) % n];
-
-        let s0 = VSegment { a, b: b0 };
-        let s1 = VSegment { a, b: b1 };
-
-        if s0.is_under_segment(&s1) { s0 } else { s1 }
+        bottom.unwrap()
     }
 }
 
diff --git a/iOverlay/src/core/extract.rs b/iOverlay/src/core/extract.rs
index a8ad2ac..bb7dfab 100644
--- a/iOverlay/src/core/extract.rs
+++ b/iOverlay/src/core/extract.rs
@@ -81,7 +81,7 @@ impl OverlayGraph {
             let start_data = StartPathData::new(direction, link, left_top_link);
 
             let mut contour = self.get_contour(&start_data, direction, visited);
-            let (is_valid, is_modified) = contour.validate(min_area, simplify_contour);
+            let (is_valid, _) = contour.validate(min_area, simplify_contour);
 
             if !is_valid {
                 // the link may belong to another contour with the same left point
@@ -100,15 +100,12 @@ impl OverlayGraph {
                         b: contour[contour.len() - 1],
                     }
                 };
-                if is_modified {
-                    let most_left = contour.left_bottom_segment();
-                    if most_left != v_segment {
-                        v_segment = most_left;
-                        is_all_anchors_sorted = false;
-                    }
-                };
+                let most_left = contour.left_bottom_segment();
+                if most_left != v_segment {
+                    v_segment = most_left;
+                    is_all_anchors_sorted = false;
+                }
 
-                debug_assert_eq!(v_segment, contour.left_bottom_segment());
                 let id_data = ContourIndex::new_hole(holes.len());
                 anchors.push(IdSegment::with_segment( id_data, v_segment));
                 holes.push(contour);
diff --git a/iOverlay/src/mesh/boolean.rs b/iOverlay/src/mesh/boolean.rs
index a937d73..35f36fd 100644
--- a/iOverlay/src/mesh/boolean.rs
+++ b/iOverlay/src/mesh/boolean.rs
@@ -145,7 +145,7 @@ impl OverlayGraph {
                 continue;
             }
 
-            let (is_valid, is_modified) = path.validate(min_area, true);
+            let (is_valid, _) = path.validate(min_area, true);
 
             if !is_valid {
                 link_index += 1;
@@ -164,15 +164,12 @@ impl OverlayGraph {
                         b: path[path.len() - 1],
                     }
                 };
-                if is_modified {
-                    let most_left = path.left_bottom_segment();
-                    if most_left != v_segment {
-                        v_segment = most_left;
-                        is_all_anchors_sorted = false;
-                    }
-                };
+                let most_left = path.left_bottom_segment();
+                if most_left != v_segment {
+                    v_segment = most_left;
+                    is_all_anchors_sorted = false;
+                }
 
-                debug_assert_eq!(v_segment, path.left_bottom_segment());
                 let id = ContourIndex::new_hole(holes.len());
                 anchors.push(IdSegment::with_segment(id, v_segment));
                 holes.push(path);
diff --git a/iOverlay/src/vector/extract_vectors.rs b/iOverlay/src/vector/extract_vectors.rs
index f7d3dcd..a106a3c 100644
--- a/iOverlay/src/vector/extract_vectors.rs
+++ b/iOverlay/src/vector/extract_vectors.rs
@@ -156,15 +156,8 @@ impl JoinHoles for Vec<VectorShape> {
             .iter()
             .enumerate()
             .map(|(id, path)| {
-                let v = path[1];
-                let v_segment = if v.a < v.b {
-                    VSegment { a: v.a, b: v.b }
-                } else {
-                    VSegment { a: v.b, b: v.a }
-                };
-                debug_assert_eq!(v_segment, most_left_bottom(path));
                 let id_data = ContourIndex::new_hole(id);
-                IdSegment::with_segment(id_data, v_segment)
+                IdSegment::with_segment(id_data, most_left_bottom(path))
             })
             .collect();
 
@@ -199,20 +192,18 @@ impl JoinHoles for Vec<VectorShape> {
 
 #[inline]
 fn most_left_bottom(path: &VectorPath) -> VSegment {
-    let mut index = 0;
-    let mut a = path[0].a;
-    for (i, &e) in path.iter().enumerate().skip(1) {
-        if e.a < a {
-            a = e.a;
-            index = i;
+    let a = path.iter().map(|e| e.a).min().unwrap();
+    let n = path.len();
+    let mut bottom: Option<VSegment> = None;
+    // a contour can pass its left point several times
+    for (i, e) in path.iter().enumerate().filter(|(_, e)| e.a == a) {
+        for b in [e.b, path[(i + n - 1) % n].a] {
+            let s = VSegment { a, b };
+            bottom = match bottom {
+                Some(other) if !s.is_under_segment(&other) => Some(other),
+                _ => Some(s)
+            };
         }
     }
-    let n = path.len();
-    let b0 = path[index].b;
-    let b1 = path[(index + n - 1) % n].a;
-
-    let s0 = VSegment { a, b: b0 };
-    let s1 = VSegment { a, b: b1 };
-
-    if s0.is_under_segment(&s1) { s0 } else { s1 }
+    bottom.unwrap()
 }
-- 
2.43.0


From 11ec56ab9d2a17318a347507ad666180d6ce96f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:14 +0000
Subject: [PATCH 21/22] fix: contours were not split at a repeated right point

---
 iOverlay/src/core/divide.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/iOverlay/src/core/divide.rs b/iOverlay/src/core/divide.rs
index e744e18..f294cc1 100644
--- a/iOverlay/src/core/divide.rs
+++ b/iOverlay/src/core/divide.rs
@@ -61,6 +61,11 @@ impl ContourDecomposition for IntContour {
             p0 = idp.point;
         }
 
+        if n > 0 {
+            // the last group
+            anchors.extend_from_slice(&id_points[id_points.len() - n - 1..]);
+        }
+
         if anchors.is_empty() {
             return None;
         }
-- 
2.43.0


From fbdf73da3ba57aca0eb9a17a7f6df558ff95d20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:30 +0000
Subject: [PATCH 22/22] fix: decomposition lost the parts of a contour whose
 repeated points interleave

---
 iOverlay/src/core/divide.rs | 50 +++++++++++++------------------------
 1 file changed, 17 insertions(+), 33 deletions(-)

diff --git a/iOverlay/src/core/divide.rs b/iOverlay/src/core/divide.rs
index f294cc1..e56e47f 100644
--- a/iOverlay/src/core/divide.rs
+++ b/iOverlay/src/core/divide.rs
@@ -22,10 +22,6 @@ impl SubPath {
         self.path.extend_from_slice(&source[self.last..point.id]);
         self.last = point.id;
     }
-
-    fn shift(&mut self, point: IdPoint) {
-        self.last = point.id;
-    }
 }
 
 pub trait ContourDecomposition {
@@ -75,47 +71,35 @@ impl ContourDecomposition for IntContour {
 
         let mut contours = Vec::with_capacity((anchors.len() >> 1) + 1);
 
-        let mut queue = vec![];
-
-        let mut i = 0;
-        while i < anchors.len() {
-            let a = anchors[i];
-            let mut sub_path: SubPath = if let Some(sub_path) = queue.pop() {
-                sub_path
-            } else {
-                queue.push(SubPath::start(a));
-                i += 1;
-                continue;
-            };
+        let mut queue: Vec<SubPath> = vec![];
 
-            if sub_path.node == a.point {
+        for &a in anchors.iter() {
+            if let Some(sub_path) = queue.last_mut() {
                 sub_path.join(a, self);
-                contours.push(sub_path.path);
-                if let Some(prev) = queue.last_mut() {
-                    prev.shift(a);
-                } else {
-                    queue.push(SubPath::start(a));
-                }
-            } else {
-                sub_path.join(a, self);
-                queue.push(sub_path);
-                queue.push(SubPath::start(a));
             }
-            i += 1;
+
+            // a loop is closed, it can contain parts which were started at other points
+            if let Some(pos) = queue.iter().rposition(|s| s.node == a.point) {
+                let path = queue.drain(pos..).flat_map(|s| s.path).collect();
+                contours.push(path);
+            }
+
+            queue.push(SubPath::start(a));
         }
 
-        let mut sub_path: SubPath = queue.pop().unwrap();
+        let last = queue.last().unwrap().last;
+        let mut path: IntPath = queue.into_iter().flat_map(|s| s.path).collect();
 
-        if sub_path.last < self.len() {
-            sub_path.path.extend_from_slice(&self[sub_path.last..]);
+        if last < self.len() {
+            path.extend_from_slice(&self[last..]);
         }
 
         let i0 = anchors.first().unwrap().id;
         if i0 > 0 {
-            sub_path.path.extend_from_slice(&self[..i0]);
+            path.extend_from_slice(&self[..i0]);
         }
 
-        contours.push(sub_path.path);
+        contours.push(path);
 
         Some(contours)
     }
-- 
2.43.0


From 8e44b07d8f8bd0bf9588c8a36974f09e5b925ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:58 +0000
Subject: [PATCH 01/13] fix: report the bin exterior as colliding with a shape
 that encloses the bin

---
 jagua-rs/src/collision_detection/cd_engine.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jagua-rs/src/collision_detection/cd_engine.rs b/jagua-rs/src/collision_detection/cd_engine.rs
index 0387665..6462187 100644
--- a/jagua-rs/src/collision_detection/cd_engine.rs
+++ b/jagua-rs/src/collision_detection/cd_engine.rs
@@ -424,7 +424,11 @@ impl CDEngine {
 
         let (s_mu, s_omega) = match bbox_relation {
             GeoRelation::Surrounding => (shape, haz_shape), //inclusion possible
-            GeoRelation::Enclosed => (haz_shape, shape),    //inclusion possible
+            GeoRelation::Enclosed => match haz.entity.position() {
+                GeoPosition::Interior => (haz_shape, shape), //inclusion possible
+                //the shape extends beyond the hazard's shape, so it always reaches its exterior
+                GeoPosition::Exterior => return true,
+            },
             GeoRelation::Disjoint | GeoRelation::Intersecting => {
                 //no inclusion is possible
                 return match haz.entity.position() {
-- 
2.43.0


From 40ee496a632c2f1f02cbc9183dc61eecb5457cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:58 +0000
Subject: [PATCH 02/13] fix: collect every colliding hazard in quadtree nodes
 fully covered by one of them

---
 .../collision_detection/quadtree/qt_node.rs   | 68 +++++++++++--------
 1 file changed, 41 insertions(+), 27 deletions(-)

diff --git a/jagua-rs/src/collision_detection/quadtree/qt_node.rs b/jagua-rs/src/collision_detection/quadtree/qt_node.rs
index 5a15332..f4d7895 100644
--- a/jagua-rs/src/collision_detection/quadtree/qt_node.rs
+++ b/jagua-rs/src/collision_detection/quadtree/qt_node.rs
@@ -182,38 +182,52 @@ impl QTNode {
     {
         match self.hazards.strongest(detected) {
             None => (),
-            Some(strongest_hazard) => match entity.collides_with(&self.bbox) {
+            Some(_) => match entity.collides_with(&self.bbox) {
                 false => (),
-                true => match strongest_hazard.presence {
-                    QTHazPresence::None => (),
-                    QTHazPresence::Entire => detected.push(strongest_hazard.entity),
-                    QTHazPresence::Partial(_) => match &self.children {
-                        Some(children) => {
-                            //Check if any of the children intersect with the entity
-                            children
-                                .iter()
-                                .for_each(|child| child.collect_collisions(entity, detected))
+                true => {
+                    //All hazards that are entirely present in this node collide with the entity
+                    self.hazards.active_hazards().iter().for_each(|hz| {
+                        if matches!(hz.presence, QTHazPresence::Entire)
+                            && !detected.contains(&hz.entity)
+                        {
+                            detected.push(hz.entity);
                         }
-                        None => {
-                            //Check if any of the partially present (and active) hazards collide with the entity
-                            self.hazards.active_hazards().iter().for_each(|hz| {
-                                if !detected.contains(&hz.entity) {
-                                    match &hz.presence {
-                                        QTHazPresence::None => (),
-                                        QTHazPresence::Entire => {
-                                            unreachable!("should have been handled above")
-                                        }
-                                        QTHazPresence::Partial(p_haz) => {
-                                            if p_haz.collides_with(entity) {
-                                                detected.push(hz.entity);
+                    });
+
+                    //Of the remaining hazards, only the partially present ones can still collide
+                    match self.hazards.strongest(detected).map(|hz| &hz.presence) {
+                        None | Some(QTHazPresence::None) => (),
+                        Some(QTHazPresence::Entire) => {
+                            unreachable!("should have been handled above")
+                        }
+                        Some(QTHazPresence::Partial(_)) => match &self.children {
+                            Some(children) => {
+                                //Check if any of the children intersect with the entity
+                                children
+                                    .iter()
+                                    .for_each(|child| child.collect_collisions(entity, detected))
+                            }
+                            None => {
+                                //Check if any of the partially present (and active) hazards collide with the entity
+                                self.hazards.active_hazards().iter().for_each(|hz| {
+                                    if !detected.contains(&hz.entity) {
+                                        match &hz.presence {
+                                            QTHazPresence::None => (),
+                                            QTHazPresence::Entire => {
+                                                unreachable!("should have been handled above")
+                                            }
+                                            QTHazPresence::Partial(p_haz) => {
+                                                if p_haz.collides_with(entity) {
+                                                    detected.push(hz.entity);
+                                                }
                                             }
                                         }
                                     }
-                                }
-                            })
-                        }
-                    },
-                },
+                                })
+                            }
+                        },
+                    }
+                }
             },
         }
     }
-- 
2.43.0


From ee85bf53ac7b4f2301b3a576bf0ee0b1535495c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:02 +0000
Subject: [PATCH 03/13] fix: hazard proximity grid update no longer stops at
 absent cells inside the seedbox

---
 .../collision_detection/hpg/boundary_fill.rs  | 41 +++++++++++--------
 .../hpg/hazard_proximity_grid.rs              |  4 +-
 2 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/jagua-rs/src/collision_detection/hpg/boundary_fill.rs b/jagua-rs/src/collision_detection/hpg/boundary_fill.rs
index 1baf0fb..5ed090c 100644
--- a/jagua-rs/src/collision_detection/hpg/boundary_fill.rs
+++ b/jagua-rs/src/collision_detection/hpg/boundary_fill.rs
@@ -77,15 +77,13 @@ impl BoundaryFillHPG {
     pub fn report_position<T>(&mut self, index: usize, position: GeoPosition, grid: &Grid<T>) {
         let queue_neighbors = match (self.seeded, position) {
             (false, GeoPosition::Interior) => {
-                //seed has been found, unqueue all cells and mark as seeded
+                //seed has been found, mark as seeded
                 self.seeded = true;
-                self.queue.drain(..).for_each(|i| self.state[i].dequeue());
                 true
             }
             (false, GeoPosition::Exterior) => {
                 //no seed found, continue queuing if the cell is within the seedbox
-                let (row, col) = grid.to_row_col(index).expect("cell should exist");
-                self.seedbox_rows.contains(&row) && self.seedbox_cols.contains(&col)
+                self.in_seedbox(index, grid)
             }
             //seeded, only queue if the cell is within the boundary
             (true, GeoPosition::Interior) => true,
@@ -93,11 +91,28 @@ impl BoundaryFillHPG {
         };
 
         if queue_neighbors {
-            for neighbor in grid.get_neighbors(index) {
-                if self.state[neighbor] == CellState::NotQueued {
-                    self.state[neighbor].queue();
-                    self.queue.push_back(neighbor);
-                }
+            self.queue_neighbors(index, grid);
+        }
+    }
+
+    /// Reports that there is no cell at this index.
+    /// Absent cells can split the seedbox into disconnected parts, so the search has to continue past them.
+    pub fn report_absent<T>(&mut self, index: usize, grid: &Grid<T>) {
+        if self.in_seedbox(index, grid) {
+            self.queue_neighbors(index, grid);
+        }
+    }
+
+    fn in_seedbox<T>(&self, index: usize, grid: &Grid<T>) -> bool {
+        let (row, col) = grid.to_row_col(index).expect("cell should exist");
+        self.seedbox_rows.contains(&row) && self.seedbox_cols.contains(&col)
+    }
+
+    fn queue_neighbors<T>(&mut self, index: usize, grid: &Grid<T>) {
+        for neighbor in grid.get_neighbors(index) {
+            if self.state[neighbor] == CellState::NotQueued {
+                self.state[neighbor].queue();
+                self.queue.push_back(neighbor);
             }
         }
     }
@@ -148,12 +163,4 @@ impl CellState {
             CellState::Queued => unreachable!("invalid state: cell already queued"),
         }
     }
-
-    fn dequeue(&mut self) {
-        *self = match self {
-            CellState::Queued => CellState::NotQueued,
-            CellState::Visited => unreachable!("invalid state: cell already visited"),
-            CellState::NotQueued => unreachable!("invalid state: cell already not queued"),
-        }
-    }
 }
diff --git a/jagua-rs/src/collision_detection/hpg/hazard_proximity_grid.rs b/jagua-rs/src/collision_detection/hpg/hazard_proximity_grid.rs
index 7786c29..206d0eb 100644
--- a/jagua-rs/src/collision_detection/hpg/hazard_proximity_grid.rs
+++ b/jagua-rs/src/collision_detection/hpg/hazard_proximity_grid.rs
@@ -98,8 +98,8 @@ impl HazardProximityGrid {
                     };
                     b_fill.report_position(next_cell, position_in_bf, &self.grid);
                 } else {
-                    //cell does not exist, mark as exterior
-                    b_fill.report_position(next_cell, GeoPosition::Exterior, &self.grid);
+                    //cell does not exist, but the ones around it might be affected
+                    b_fill.report_absent(next_cell, &self.grid);
                 }
             }
         }
-- 
2.43.0


From 9d01f923ac124939c37cdddde4a92ce4a4f939e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:33 +0000
Subject: [PATCH 04/13] fix: convex hull keeps every hull vertex among points
 sharing an x coordinate

---
 jagua-rs/src/geometry/convex_hull.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jagua-rs/src/geometry/convex_hull.rs b/jagua-rs/src/geometry/convex_hull.rs
index 86f8bab..2778899 100644
--- a/jagua-rs/src/geometry/convex_hull.rs
+++ b/jagua-rs/src/geometry/convex_hull.rs
@@ -31,10 +31,10 @@ pub fn convex_hull_from_shapes<'a>(
 pub fn convex_hull_from_points(mut points: Vec<Point>) -> Vec<Point> {
     //https://en.wikibooks.org/wiki/Algorithm_Implementation/Geometry/Convex_hull/Monotone_chain
 
-    //sort the points by x coordinate
+    //sort the points by x coordinate (and by y coordinate in case of a tie)
     points.sort_by(|a, b| {
-        let (a_x, b_x) = (a.0, b.0);
-        a_x.partial_cmp(&b_x).unwrap()
+        let (a, b) = ((a.0, a.1), (b.0, b.1));
+        a.partial_cmp(&b).unwrap()
     });
 
     let mut lower_hull = points
-- 
2.43.0


From 0855187dac110b194a3d429c000a88368867df96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:33 +0000
Subject: [PATCH 05/13] fix: squared border distance of a point inside a
 rectangle is squared

---
 jagua-rs/src/geometry/primitives/aa_rectangle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jagua-rs/src/geometry/primitives/aa_rectangle.rs b/jagua-rs/src/geometry/primitives/aa_rectangle.rs
index f0da1ee..105e423 100644
--- a/jagua-rs/src/geometry/primitives/aa_rectangle.rs
+++ b/jagua-rs/src/geometry/primitives/aa_rectangle.rs
@@ -323,7 +323,7 @@ impl DistanceFrom<Point> for AARectangle {
                 .into_iter()
                 .min_by_key(|&d| OrderedFloat(d))
                 .unwrap();
-                (GeoPosition::Interior, min_distance)
+                (GeoPosition::Interior, min_distance.powi(2))
             }
         }
     }
-- 
2.43.0


From a72d60bcf114cfad053f6f4f4f980dfaabbb9138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:06 +0000
Subject: [PATCH 06/13] fix: bounding circle of circles that contain one
 another

---
 jagua-rs/src/geometry/primitives/circle.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jagua-rs/src/geometry/primitives/circle.rs b/jagua-rs/src/geometry/primitives/circle.rs
index 3c79578..de815e3 100644
--- a/jagua-rs/src/geometry/primitives/circle.rs
+++ b/jagua-rs/src/geometry/primitives/circle.rs
@@ -40,7 +40,10 @@ impl Circle {
 
         for circle in circles {
             let distance_between_centers = bounding_circle.center.distance(circle.center);
-            if bounding_circle.radius < distance_between_centers + circle.radius {
+            if circle.radius > distance_between_centers + bounding_circle.radius {
+                // bounding circle contained in circle, replace
+                bounding_circle = circle.clone();
+            } else if bounding_circle.radius < distance_between_centers + circle.radius {
                 // circle not contained in bounding circle, expand
                 let diameter = Edge::new(bounding_circle.center, circle.center)
                     .extend_at_front(bounding_circle.radius)
-- 
2.43.0


From 35ad76a87de083c62ce5a46ce58f6b636006f144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:02 +0000
Subject: [PATCH 07/13] fix: restoring a layout to a snapshot also restores the
 bin it was taken with

---
 jagua-rs/src/entities/layout.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jagua-rs/src/entities/layout.rs b/jagua-rs/src/entities/layout.rs
index 22dbfd3..2293936 100644
--- a/jagua-rs/src/entities/layout.rs
+++ b/jagua-rs/src/entities/layout.rs
@@ -8,6 +8,7 @@ use crate::geometry::d_transformation::DTransformation;
 use crate::geometry::geo_traits::Shape;
 use crate::util::assertions;
 use slotmap::SlotMap;
+use std::sync::Arc;
 
 ///A Layout is made out of a [Bin] with a set of [Item]s positioned inside of it in a specific way.
 ///It is a mutable representation, and can be modified by placing or removing items.
@@ -67,6 +68,12 @@ impl Layout {
     pub fn restore(&mut self, layout_snapshot: &LayoutSnapshot) {
         assert_eq!(self.id, layout_snapshot.id);
 
+        if !Arc::ptr_eq(&self.bin.base_cde, &layout_snapshot.bin.base_cde) {
+            // the bin was changed since the snapshot was taken, revert to the one in the snapshot
+            self.bin = layout_snapshot.bin.clone();
+            self.cde = self.bin.base_cde.as_ref().clone();
+        }
+
         self.placed_items = layout_snapshot.placed_items.clone();
         self.cde.restore(&layout_snapshot.cde_snapshot);
 
-- 
2.43.0


From 4e738a0a8a80bb44f77e18b8fce92536e1505146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:44 +0000
Subject: [PATCH 08/13] fix: generate piers relative to the position of the
 shape

The candidate rays assumed a shape centred around the origin: for any other
shape they were generated off target, which panicked or left no candidate.
---
 jagua-rs/src/geometry/fail_fast/piers.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/jagua-rs/src/geometry/fail_fast/piers.rs b/jagua-rs/src/geometry/fail_fast/piers.rs
index d2669ad..1532878 100644
--- a/jagua-rs/src/geometry/fail_fast/piers.rs
+++ b/jagua-rs/src/geometry/fail_fast/piers.rs
@@ -27,13 +27,14 @@ pub fn generate(shape: &SimplePolygon, n: usize, poles: &[Circle]) -> Vec<Edge>
     let bbox = shape.bbox();
     let expanded_bbox = bbox.clone().inflate_to_square();
     let centroid = shape.centroid();
-    //vertical ray from the centroid
+    //vertical ray through the origin, which the transformations position relative to the centroid
     let base_ray = Edge::new(
-        Point(centroid.0, centroid.1 - 2.0 * expanded_bbox.height()),
-        Point(centroid.0, centroid.1 + 2.0 * expanded_bbox.height()),
+        Point(0.0, -2.0 * expanded_bbox.height()),
+        Point(0.0, 2.0 * expanded_bbox.height()),
     );
 
-    let transformations = generate_ray_transformations(&expanded_bbox, RAYS_PER_ANGLE, N_ANGLES);
+    let transformations =
+        generate_ray_transformations(&expanded_bbox, centroid, RAYS_PER_ANGLE, N_ANGLES);
 
     //transform the base edge by each transformation
     let rays = transformations
@@ -90,27 +91,28 @@ pub fn generate(shape: &SimplePolygon, n: usize, poles: &[Circle]) -> Vec<Edge>
 
 fn generate_ray_transformations(
     bbox: &AARectangle,
+    centroid: Point,
     rays_per_angle: usize,
     n_angles: usize,
 ) -> Vec<Transformation> {
-    //translations
+    //translations, relative to the centroid
     let dx = bbox.width() / rays_per_angle as fsize;
     let translations = (0..rays_per_angle)
-        .map(|i| bbox.x_min + dx * i as fsize)
+        .map(|i| bbox.x_min - centroid.0 + dx * i as fsize)
         .map(|x| Transformation::from_translation((x, 0.0)))
         .collect_vec();
 
     let angles = Array::linspace(0.0, fsize::PI(), n_angles + 1).to_vec();
     let angles_slice = &angles[0..n_angles]; //skip the last angle, which is the same as the first
 
-    //rotate the translations by each angle
+    //rotate the translations by each angle around the centroid
     angles_slice
         .iter()
         .flat_map(|angle| {
             translations
                 .iter()
                 .cloned()
-                .map(move |translation| translation.rotate(*angle))
+                .map(move |translation| translation.rotate(*angle).translate(centroid.into()))
         })
         .collect_vec()
 }
-- 
2.43.0


From 788f98936450af66d10269aa460ab9b6c645606b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:19 +0000
Subject: [PATCH 09/13] fix: use the cost of a bin stated in the instance

The cost in the input file was ignored and the bin's area used instead, so
that the total cost of a solution did not relate to the stated costs.
---
 jagua-rs/src/io/parser.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/jagua-rs/src/io/parser.rs b/jagua-rs/src/io/parser.rs
index 71b15c1..3c99782 100644
--- a/jagua-rs/src/io/parser.rs
+++ b/jagua-rs/src/io/parser.rs
@@ -14,7 +14,6 @@ use crate::entities::problems::strip_packing::SPProblem;
 use crate::entities::quality_zone::InferiorQualityZone;
 use crate::entities::quality_zone::N_QUALITIES;
 use crate::entities::solution::Solution;
-use crate::fsize;
 use crate::geometry::d_transformation::DTransformation;
 use crate::geometry::geo_enums::AllowedRotation;
 use crate::geometry::geo_traits::{Shape, Transformable};
@@ -201,9 +200,6 @@ impl Parser {
             }
         };
 
-        let material_value =
-            (bin_outer.area() - bin_holes.iter().map(|hole| hole.area()).sum::<fsize>()) as u64;
-
         assert!(
             json_bin.zones.iter().all(|zone| zone.quality < N_QUALITIES),
             "Quality must be less than N_QUALITIES"
@@ -239,7 +235,7 @@ impl Parser {
         let base_bin = Bin::new(
             bin_id,
             bin_outer,
-            material_value,
+            json_bin.cost,
             Transformation::empty(),
             bin_holes,
             quality_zones,
-- 
2.43.0


From a5838c5656e53cc0e014e446967534bb0567380e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:27 +0000
Subject: [PATCH 10/13] fix: usage of a problem without layouts is zero instead
 of NaN

A bin packing solution in which nothing could be placed was written with a
null usage and could not be read back.
---
 jagua-rs/src/entities/problems/problem_generic.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jagua-rs/src/entities/problems/problem_generic.rs b/jagua-rs/src/entities/problems/problem_generic.rs
index 68f7d92..4d442fe 100644
--- a/jagua-rs/src/entities/problems/problem_generic.rs
+++ b/jagua-rs/src/entities/problems/problem_generic.rs
@@ -57,7 +57,10 @@ pub trait ProblemGeneric: ProblemGenericPrivate {
                 let used_area = bin_area * l.usage();
                 (acc.0 + bin_area, acc.1 + used_area)
             });
-        total_used_area / total_bin_area
+        match self.layouts().is_empty() {
+            true => 0.0, //nothing is used, avoids 0/0
+            false => total_used_area / total_bin_area,
+        }
     }
 
     fn used_bin_cost(&self) -> u64 {
-- 
2.43.0


From 4f35fb6cea9f556c03107f1f696fbe01baaf2d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:09 +0000
Subject: [PATCH 11/13] fix: polygon simplification rejects replacing vertices
 whose area change is lost to rounding

Extending two almost parallel edges places the replacing vertex so far away
that the area formulas cancel out, and a sliver many times the size of the
shape was accepted as within the area budget.
---
 jagua-rs/src/util/polygon_simplification.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jagua-rs/src/util/polygon_simplification.rs b/jagua-rs/src/util/polygon_simplification.rs
index 9ce308a..97c3461 100644
--- a/jagua-rs/src/util/polygon_simplification.rs
+++ b/jagua-rs/src/util/polygon_simplification.rs
@@ -155,7 +155,11 @@ pub fn simplify_shape(
             let new_shape = execute_candidate(&ref_points, best_candidate);
             let new_shape_area = SimplePolygon::calculate_area(&new_shape);
             let area_delta = (new_shape_area - original_area).abs() / original_area;
-            if area_delta <= max_area_delta {
+            //the area of the new shape is unreliable if it contains a vertex that is very far away
+            let within_budget = area_delta <= max_area_delta
+                && calculate_area_delta(&ref_points, best_candidate)
+                    .is_ok_and(|delta| *delta / original_area <= max_area_delta);
+            if within_budget {
                 debug!(
                     "Simplified {:?} causing {:.2}% area change",
                     best_candidate,
@@ -212,7 +216,8 @@ fn calculate_area_delta(
             let Point(x1, y1) = replacing_vertex;
             let Point(x2, y2) = shape[c2.1];
 
-            let area = (x0 * y1 + x1 * y2 + x2 * y0 - x0 * y2 - x1 * y0 - x2 * y1) / 2.0;
+            //relative to the first point, the replacing vertex can be very far away if the edges are almost parallel
+            let area = ((x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0)) / 2.0;
 
             area.abs()
         }
-- 
2.43.0


From d2e69633dd3d76b43628d172a06d092265018661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:29 +0000
Subject: [PATCH 12/13] fix: restoring a solution with more items than demanded
 does not overflow

---
 jagua-rs/src/entities/problems/bin_packing.rs   | 2 +-
 jagua-rs/src/entities/problems/strip_packing.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jagua-rs/src/entities/problems/bin_packing.rs b/jagua-rs/src/entities/problems/bin_packing.rs
index 2b26a5c..50abb5d 100644
--- a/jagua-rs/src/entities/problems/bin_packing.rs
+++ b/jagua-rs/src/entities/problems/bin_packing.rs
@@ -287,7 +287,7 @@ impl ProblemGeneric for BPProblem {
             .iter_mut()
             .enumerate()
             .for_each(|(i, missing_qty)| {
-                *missing_qty = (self.instance.item_qty(i) - solution.placed_item_qtys[i]) as isize
+                *missing_qty = self.instance.item_qty(i) as isize - solution.placed_item_qtys[i] as isize
             });
 
         self.bin_qtys.clone_from_slice(&solution.bin_qtys);
diff --git a/jagua-rs/src/entities/problems/strip_packing.rs b/jagua-rs/src/entities/problems/strip_packing.rs
index f941a91..44dd0ef 100644
--- a/jagua-rs/src/entities/problems/strip_packing.rs
+++ b/jagua-rs/src/entities/problems/strip_packing.rs
@@ -247,7 +247,7 @@ impl ProblemGeneric for SPProblem {
             .iter_mut()
             .enumerate()
             .for_each(|(i, qty)| {
-                *qty = (self.instance.item_qty(i) - solution.placed_item_qtys[i]) as isize
+                *qty = self.instance.item_qty(i) as isize - solution.placed_item_qtys[i] as isize
             });
 
         debug_assert!(assertions::problem_matches_solution(self, solution));
-- 
2.43.0


From b78e9a9f7caf2ebc0216fde5d62748009648ec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:24 +0000
Subject: [PATCH 13/13] fix: piers are not clipped from rays that graze a
 vertex

---
 jagua-rs/src/geometry/fail_fast/piers.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jagua-rs/src/geometry/fail_fast/piers.rs b/jagua-rs/src/geometry/fail_fast/piers.rs
index 1532878..8c3d59d 100644
--- a/jagua-rs/src/geometry/fail_fast/piers.rs
+++ b/jagua-rs/src/geometry/fail_fast/piers.rs
@@ -17,6 +17,7 @@ static N_ANGLES: usize = if cfg!(debug_assertions) { 4 } else { 90 };
 static N_POINTS_PER_DIMENSION: usize = if cfg!(debug_assertions) { 10 } else { 100 };
 static CLIPPING_TRIM: fsize = 0.999;
 static ACTION_RADIUS_RATIO: fsize = 0.10;
+static VERTEX_CLEARANCE_RATIO: fsize = 1e-5;
 
 pub fn generate(shape: &SimplePolygon, n: usize, poles: &[Circle]) -> Vec<Edge> {
     if n == 0 {
@@ -122,6 +123,16 @@ fn clip(shape: &SimplePolygon, ray: &Edge) -> Vec<Edge> {
     //both ends of the ray should be outside the shape
     assert!(!shape.collides_with(&ray.start) && !shape.collides_with(&ray.end));
 
+    //when a ray grazes a vertex, rounding decides how many of its edges are hit and the intersections cannot be paired
+    let min_vertex_distance = ray.diameter() * VERTEX_CLEARANCE_RATIO;
+    if shape
+        .points
+        .iter()
+        .any(|p| ray.distance(p) < min_vertex_distance)
+    {
+        return vec![];
+    }
+
     //collect all intersections of the ray with the shape, sorted by distance to the ray's start
     let intersections = shape
         .edge_iter()
-- 
2.43.0


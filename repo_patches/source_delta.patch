From 1df85d2997915dcdee395cad95c4e7aee72074d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:05 +0000
Subject: [PATCH 01/43] fix: in-circle test by the translated 3x3 determinant

The 4x4 LU determinant rounds off, so cocircular points were taken as inside or
outside of the circumcircle depending on the vertex order.
---
 src/properties/continence.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/properties/continence.rs b/src/properties/continence.rs
index 5d8767a..aa55797 100644
--- a/src/properties/continence.rs
+++ b/src/properties/continence.rs
@@ -2,7 +2,7 @@ extern crate nalgebra;
 
 use crate::elements::vertex::*;
 
-use nalgebra::Matrix4;
+use nalgebra::Matrix3;
 
 #[derive(PartialEq, Debug)]
 pub enum Continence {
@@ -22,13 +22,14 @@ pub enum BoundaryInclusion {
  * Vertices a, b and c must be in counterclockwise order.
  */
 pub fn continence(a: &Vertex, b: &Vertex, c: &Vertex, d: &Vertex) -> Continence {
-    let matrix = Matrix4::new(
-        a.x, a.y, a.x.powi(2) + a.y.powi(2), 1.0,
-        b.x, b.y, b.x.powi(2) + b.y.powi(2), 1.0,
-        c.x, c.y, c.x.powi(2) + c.y.powi(2), 1.0,
-        d.x, d.y, d.x.powi(2) + d.y.powi(2), 1.0,
-    );
-    let det = matrix.determinant();
+    let (adx, ady) = (a.x - d.x, a.y - d.y);
+    let (bdx, bdy) = (b.x - d.x, b.y - d.y);
+    let (cdx, cdy) = (c.x - d.x, c.y - d.y);
+    let det = Matrix3::new(
+        adx, ady, adx.powi(2) + ady.powi(2),
+        bdx, bdy, bdx.powi(2) + bdy.powi(2),
+        cdx, cdy, cdx.powi(2) + cdy.powi(2),
+    ).determinant();
 
     if float_cmp::approx_eq!(f64, det, 0.0, epsilon = 1.0E-14f64) {
         return Continence::Boundary;
-- 
2.43.0


From 8494234f99fcf5371796276723d1ad3bdb8d30cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:06 +0000
Subject: [PATCH 02/43] fix: redistribute every vertex left by a removed
 triangle

Vertices which conflict with none of the included triangles were lost.
---
 src/planar/triangulation_procedures/vertices.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index ea0780a..0db13f9 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -182,6 +182,20 @@ pub fn solve_conflicts(
                 );
             }
         } /* end - while pending edges */
+
+        /* vertices of removed triangles may conflict with any triangle */
+        for triangle in triangulation.triangles.iter() {
+            if remaining_vertices.is_empty() {
+                break;
+            }
+            distribute_conflicts(
+                triangle,
+                conflict_map,
+                remaining_vertices,
+                boundary,
+                holes,
+            );
+        }
     } /* end - distributing vertices */
 
     return (included_triangles, removed_triangles);
-- 
2.43.0


From abd1abd56eb9d36de06b0b4dc3c2649b964932fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 03/43] fix: ghost triangles must stay outside of every hole

Only the last hole was considered, and a hole surrounded by the ghost triangle
was taken as outside.
---
 src/planar/triangulation_procedures/vertices.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index 0db13f9..3731262 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -310,10 +310,15 @@ fn may_insert_triangle(
 
     for hole in holes.iter() {
         if let Some((continence, _)) = Polyline::continence(&hole, &p2) {
-            is_outside_holes = continence != Continence::Inside;
+            is_outside_holes = is_outside_holes && continence != Continence::Inside;
         } else {
             is_outside_holes = false;
         }
+
+        /* the ghost triangle may also surround the hole */
+        if let Some((Continence::Inside, _)) = Polyline::continence(&p2, &hole) {
+            is_outside_holes = false;
+        }
     }
 
     return is_inside_boundary && is_outside_holes;
-- 
2.43.0


From 09562e337f271429de6a621c84b254df02b53ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:08 +0000
Subject: [PATCH 04/43] fix: including an already present segment keeps the
 triangulation

---
 src/planar/triangulation_procedures/segment.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/planar/triangulation_procedures/segment.rs b/src/planar/triangulation_procedures/segment.rs
index c6efc8d..5ac1eca 100644
--- a/src/planar/triangulation_procedures/segment.rs
+++ b/src/planar/triangulation_procedures/segment.rs
@@ -19,6 +19,12 @@ pub fn include(
     segment: &Rc<Edge>,
     segment_constraints: &HashSet<Rc<Edge>>,
 ) {
+    if triangulation.adjacency.contains_key(segment)
+        && triangulation.adjacency.contains_key(&segment.opposite())
+    {
+        return;
+    }
+
     let conflicting_triangles: HashSet<Rc<Triangle>> = triangulation
         .triangles
         .iter()
-- 
2.43.0


From 751f7d78f0b74a8a198feb9369422763d710258f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 05/43] fix: hole and segment vertices are included under the
 domain constraints

---
 src/planar/triangulator.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index 8962f84..363da3c 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -329,7 +329,15 @@ impl Triangulator {
             self.boundary.into_edges().iter().cloned().collect();
 
         /* 2 Holes inclusion */
+        let mut included_holes: HashSet<Rc<Polyline>> = HashSet::new();
         for hole in self.holes.iter() {
+            triangulation_procedures::vertices::include(
+                &mut triangulation,
+                hole.vertices.iter().cloned().collect(),
+                &segment_constraints,
+                &Some(Rc::clone(&self.boundary)),
+                &included_holes,
+            );
             triangulation_procedures::hole::include(&mut triangulation, hole, &segment_constraints);
 
             segment_constraints = segment_constraints
@@ -337,10 +345,18 @@ impl Triangulator {
                 .chain(hole.into_edges().iter())
                 .cloned()
                 .collect();
+            included_holes.insert(Rc::clone(hole));
         }
 
         /* 3 Include Segment Constraints */
         for segment in self.segments.iter() {
+            triangulation_procedures::vertices::include(
+                &mut triangulation,
+                vec![Rc::clone(&segment.v1), Rc::clone(&segment.v2)],
+                &segment_constraints,
+                &Some(Rc::clone(&self.boundary)),
+                &self.holes,
+            );
             triangulation_procedures::segment::include(
                 &mut triangulation,
                 segment,
-- 
2.43.0


From 4499ddb44560a1662feebcc305978989a327dcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 06/43] fix: a segment isn't split at its own end vertex

---
 src/planar/triangulator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index 363da3c..ae7c99c 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -155,6 +155,7 @@ impl Triangulator {
                 if &segment.v1 == vertex || &segment.v2 == vertex {
                     /* Ignore vertices if they are an end vertex */
                     self.vertices.remove(vertex);
+                    continue;
                 }
                 if segment.contains(vertex) {
                     /* splits segment if contained */
-- 
2.43.0


From 106f410eacde91132240ff3a0a73c346fd51e898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:12 +0000
Subject: [PATCH 07/43] fix: polyline continence evaluates the tail of opened
 polylines

---
 src/elements/polyline.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 4592e97..4049fc7 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -710,6 +710,7 @@ impl Polyline {
             .iter()
             .map(|e| vec![Rc::new(e.midpoint()), Rc::clone(&e.v1)])
             .flatten()
+            .chain(p2.tail())
         {
             let continence = p1.contains(&critial_vertex).unwrap();
             if continence == Continence::Boundary {
-- 
2.43.0


From 043d36ca9901543a95d42e8d4f03bc26d96066d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 08/43] fix: holes may not surround existing holes

---
 src/planar/triangulator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index ae7c99c..85ee99c 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -216,7 +216,9 @@ impl Triangulator {
 
         for existing_hole in self.holes.iter() {
             let is_hole_outside_existing_hole = Polyline::continence(existing_hole, hole)
-                == Some((Continence::Outside, BoundaryInclusion::Open));
+                == Some((Continence::Outside, BoundaryInclusion::Open))
+                && Polyline::continence(hole, existing_hole)
+                    == Some((Continence::Outside, BoundaryInclusion::Open));
 
             if !is_hole_outside_existing_hole {
                 conflicting_vertices = conflicting_vertices
-- 
2.43.0


From a73b3fcb61c37bde45758fa1fb6c3965fa553444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:14 +0000
Subject: [PATCH 09/43] fix: insert_hole removes the vertices it contains, as
 documented

---
 src/planar/triangulator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/planar/triangulator.rs b/src/planar/triangulator.rs
index 85ee99c..1d69268 100644
--- a/src/planar/triangulator.rs
+++ b/src/planar/triangulator.rs
@@ -248,6 +248,9 @@ impl Triangulator {
             return Err(conflicting_vertices);
         }
 
+        self.vertices
+            .retain(|vertex| hole.contains(vertex) == Some(Continence::Outside));
+
         self.holes.insert(Rc::clone(hole));
         return Ok(self);
     }
-- 
2.43.0


From 121bba2a77027ca93c04935c32e8c5fe1391fb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 10/43] fix: output coordinates follow the indices used by the
 triangles

---
 src/json_serializar/models/output.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/json_serializar/models/output.rs b/src/json_serializar/models/output.rs
index 17e1a76..5acd2c6 100644
--- a/src/json_serializar/models/output.rs
+++ b/src/json_serializar/models/output.rs
@@ -71,8 +71,8 @@ impl TriangulationOutput {
             id: input.id,
             name: input.name.clone(),
             date: input.date.clone(),
-            coordinates: vertices_map
-                .keys()
+            coordinates: vertices_vec
+                .iter()
                 .map(|v| point::Point::from_vertex(v))
                 .collect(),
             triangles: triangulator
-- 
2.43.0


From cccd17fafda4c30edb883c26bf311c7a055b9ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:16 +0000
Subject: [PATCH 11/43] fix: Vertex::sort compares abscissas

---
 src/elements/vertex.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elements/vertex.rs b/src/elements/vertex.rs
index a95cf75..4883dcd 100644
--- a/src/elements/vertex.rs
+++ b/src/elements/vertex.rs
@@ -122,7 +122,7 @@ impl Vertex {
     pub fn sort(vertex_list: &mut Vec<Rc<Vertex>>) {
         vertex_list.sort_by(|v1, v2| match v1.x.partial_cmp(&v2.x) {
             Some(Ordering::Equal) => v1.y.partial_cmp(&v2.y).unwrap(),
-            _ => v1.x.partial_cmp(&v2.y).unwrap(),
+            _ => v1.x.partial_cmp(&v2.x).unwrap(),
         });
     }
 }
-- 
2.43.0


From 45288dfebd8b6019e11497cd1330c7253f415cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 12/43] fix: equal vertices have equal hashes for -0.0 and 0.0

---
 src/elements/vertex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elements/vertex.rs b/src/elements/vertex.rs
index 4883dcd..956f238 100644
--- a/src/elements/vertex.rs
+++ b/src/elements/vertex.rs
@@ -17,12 +17,12 @@ pub struct Vertex {
 
 impl Hash for Vertex {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        let (m, e, s) = Float::integer_decode(self.x);
+        let (m, e, s) = Float::integer_decode(self.x + 0.0);
         m.hash(state);
         e.hash(state);
         s.hash(state);
 
-        let (m, e, s) = Float::integer_decode(self.y);
+        let (m, e, s) = Float::integer_decode(self.y + 0.0);
         m.hash(state);
         e.hash(state);
         s.hash(state);
-- 
2.43.0


From d4413b35940f51f79e834ffc8f06fe5cc8bf169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:18 +0000
Subject: [PATCH 13/43] fix: equal triangles have equal hashes

---
 src/elements/triangle.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/elements/triangle.rs b/src/elements/triangle.rs
index d30539d..354cbc2 100644
--- a/src/elements/triangle.rs
+++ b/src/elements/triangle.rs
@@ -4,10 +4,11 @@ use crate::properties::{area::*, circumcenter::*, continence::*, distance::*, or
 use std::cmp::Eq;
 use std::fmt;
 use std::fmt::Debug;
-use std::hash::Hash;
+use std::collections::hash_map::DefaultHasher;
+use std::hash::{Hash, Hasher};
 use std::rc::Rc;
 
-#[derive(Hash, Debug)]
+#[derive(Debug)]
 pub struct Triangle {
     pub v1: Rc<Vertex>,
     pub v2: Rc<Vertex>,
@@ -24,6 +25,21 @@ impl PartialEq for Triangle {
 
 impl Eq for Triangle {}
 
+impl Hash for Triangle {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        /* equal triangles may start at different vertices */
+        let combined_hash = vec![&self.v1, &self.v2, &self.v3]
+            .iter()
+            .map(|vertex| {
+                let mut hasher = DefaultHasher::new();
+                vertex.hash(&mut hasher);
+                return hasher.finish();
+            })
+            .fold(0, |acc: u64, vertex_hash| acc.wrapping_add(vertex_hash));
+        combined_hash.hash(state);
+    }
+}
+
 impl fmt::Display for Triangle {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         return write!(f, "({} - {} - {})", self.v1, self.v2, self.v3);
-- 
2.43.0


From c70b3c214c98fd54d6e87cd13f48f264693f3ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 14/43] fix: removals merged to an existing hole aren't holes
 on their own

---
 src/triangulator_interface/domain_evaluator.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/triangulator_interface/domain_evaluator.rs b/src/triangulator_interface/domain_evaluator.rs
index 28edcad..bfd71e3 100644
--- a/src/triangulator_interface/domain_evaluator.rs
+++ b/src/triangulator_interface/domain_evaluator.rs
@@ -80,15 +80,19 @@ pub fn holes(boundary: &Rc<Polyline>, removes: &Vec<Rc<Polyline>>) -> HashSet<Rc
             continue;
         }
 
+        let mut was_united = false;
         for existing_hole in holes.iter().cloned() {
             if let Some((union, _)) = Polyline::union(&existing_hole, &possible_removal) {
                 holes.remove(&existing_hole);
                 removes.push(Rc::new(union));
+                was_united = true;
                 break;
             }
         }
 
-        holes.insert(possible_removal);
+        if !was_united {
+            holes.insert(possible_removal);
+        }
     }
 
     return holes;
-- 
2.43.0


From 9ba05f4ef559595c8c1a364b047cbb2a9ff8379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 15/43] fix: segments split where one ends at the other keep
 the end vertex

---
 src/elements/polyline.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 4049fc7..10f1720 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -874,8 +874,18 @@ pub fn split_intersections(
             return false;
         }) {
             let (v3, v4) = splited_segments.remove(index);
-            let intersection_vertex = intersection(&v1, &v2, &v3, &v4).unwrap();
-            let intersection_vertex = Rc::new(intersection_vertex);
+            /* avoids roundoff, if one segment ends at the other */
+            let intersection_vertex = if Edge::new(&v3, &v4).contains(&v1) {
+                Rc::clone(&v1)
+            } else if Edge::new(&v3, &v4).contains(&v2) {
+                Rc::clone(&v2)
+            } else if Edge::new(&v1, &v2).contains(&v3) {
+                Rc::clone(&v3)
+            } else if Edge::new(&v1, &v2).contains(&v4) {
+                Rc::clone(&v4)
+            } else {
+                Rc::new(intersection(&v1, &v2, &v3, &v4).unwrap())
+            };
             if v3 != intersection_vertex {
                 aux_set.push((Rc::clone(&v3), Rc::clone(&intersection_vertex)));
             }
-- 
2.43.0


From f7fd45e0631aae00e18973ead3d6523d5c541428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 16/43] fix: unencroach keeps track of the subsegments

Split segments were still taken as constraints, included triangles were
filtered by the opposite condition, and encroachments of the inserted
midpoints were left unsolved.
---
 src/planar/refine_procedures/encroachment.rs | 61 ++++++++++++++++++--
 1 file changed, 56 insertions(+), 5 deletions(-)

diff --git a/src/planar/refine_procedures/encroachment.rs b/src/planar/refine_procedures/encroachment.rs
index 469c39d..abf772e 100644
--- a/src/planar/refine_procedures/encroachment.rs
+++ b/src/planar/refine_procedures/encroachment.rs
@@ -1,6 +1,6 @@
 use crate::elements::{edge::*, polyline::*, triangle::*, vertex::*};
 use crate::planar::{triangulation::*, triangulation_procedures};
-use crate::properties::continence::*;
+use crate::properties::{continence::*, distance::*, dot::*};
 
 use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
@@ -30,6 +30,9 @@ pub fn unencroach(
         &mut encroach_map,
     );
 
+    let has_sharp_angle = has_sharp_angle(segment_contraints);
+    let mut segment_contraints: HashSet<Rc<Edge>> = segment_contraints.iter().cloned().collect();
+
     while !encroach_map.is_empty() {
         let encroached_edge = Rc::clone(encroach_map.keys().next().unwrap());
         let mut encroaching_vertices = encroach_map.remove(&encroached_edge).unwrap();
@@ -38,19 +41,25 @@ pub fn unencroach(
             triangulation,
             &encroached_edge,
             &mut encroaching_vertices,
-            segment_contraints,
+            &segment_contraints,
             boundary,
             holes,
         );
 
+        let input_edge = split_map
+            .remove(&encroached_edge)
+            .unwrap_or(Rc::clone(&encroached_edge));
+
+        segment_contraints.remove(&encroached_edge);
         for e in new_edges.iter() {
-            split_map.insert(Rc::clone(e), Rc::clone(&encroached_edge));
+            split_map.insert(Rc::clone(e), Rc::clone(&input_edge));
+            segment_contraints.insert(Rc::clone(e));
         }
 
         included_triangles = included_triangles
             .iter()
             .chain(new_triangles.iter())
-            .filter(|&t| old_triangles.contains(t))
+            .filter(|&t| !old_triangles.contains(t))
             .cloned()
             .collect();
 
@@ -59,6 +68,15 @@ pub fn unencroach(
             .chain(old_triangles.iter())
             .cloned()
             .collect();
+
+        /* inserted midpoints may encroach other segments */
+        if encroach_map.is_empty() && !has_sharp_angle {
+            distribute_encroachments(
+                &segment_contraints,
+                &triangulation.vertices(),
+                &mut encroach_map,
+            );
+        }
     }
 
     return (split_map, included_triangles, removed_triangles);
@@ -88,17 +106,24 @@ pub fn unencroach_segment(
 
     pending_edges.push(Rc::clone(&encroached_edge));
 
+    let mut segment_contraints: HashSet<Rc<Edge>> = segment_contraints.iter().cloned().collect();
+
     while !pending_edges.is_empty() {
         let pending_edge = pending_edges.pop().unwrap();
 
         let (h1, h2, new_triangles, old_triangles) = split_segment(
             triangulation,
             &pending_edge,
-            segment_contraints,
+            &segment_contraints,
             boundary,
             holes,
         );
 
+        /* subsegments replace the split segment as constraint */
+        segment_contraints.remove(&pending_edge);
+        segment_contraints.insert(Rc::clone(&h1));
+        segment_contraints.insert(Rc::clone(&h2));
+
         included_triangles = included_triangles
             .iter()
             .chain(new_triangles.iter())
@@ -173,6 +198,32 @@ pub fn distribute_encroachments(
     }
 }
 
+/**
+ * Evaluates if any pair of segments meet at an angle smaller than 60 degrees.
+ * Splitting segments as their midpoints encroach each other only terminates
+ * if it doesn't happen.
+ */
+pub fn has_sharp_angle(segments: &HashSet<Rc<Edge>>) -> bool {
+    let mut neighbors: HashMap<Rc<Vertex>, Vec<Rc<Vertex>>> = HashMap::new();
+    for edge in segments.iter() {
+        for (v1, v2) in vec![(&edge.v1, &edge.v2), (&edge.v2, &edge.v1)] {
+            neighbors
+                .entry(Rc::clone(v1))
+                .or_insert(Vec::new())
+                .push(Rc::clone(v2));
+        }
+    }
+
+    return neighbors.iter().any(|(v, ends)| {
+        ends.iter().enumerate().any(|(index, v1)| {
+            ends.iter().skip(index + 1).any(|v2| {
+                let cos = dot(v, v1, v, v2) / (distance(v, v1) * distance(v, v2));
+                return v1 != v2 && cos > 0.5 + 1.0E-14f64;
+            })
+        })
+    });
+}
+
 /**
  * Handles segment split,
  * solving possible conflicts to nearby triangles
-- 
2.43.0


From 284193bb3cf2331c5333e70070aba67827538cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 17/43] fix: segments are split at the triangles which share
 them

---
 src/planar/refine_procedures/encroachment.rs | 31 +++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/planar/refine_procedures/encroachment.rs b/src/planar/refine_procedures/encroachment.rs
index abf772e..1718fc0 100644
--- a/src/planar/refine_procedures/encroachment.rs
+++ b/src/planar/refine_procedures/encroachment.rs
@@ -251,13 +251,30 @@ fn split_segment(
     let half_1 = Rc::new(Edge::new(&segment.v1, &segment_midpoint));
     let half_2 = Rc::new(Edge::new(&segment_midpoint, &segment.v2));
 
-    let (included_triangles, removed_triangles) = triangulation_procedures::vertices::include(
-        triangulation,
-        vec![segment_midpoint],
-        &segment_constraints,
-        boundary,
-        holes,
-    );
+    /* Triangles which share the segment are the ones to be split */
+    let adjacent_triangle = vec![Rc::clone(segment), Rc::new(segment.opposite())]
+        .iter()
+        .filter_map(|e| triangulation.adjacency.get(e))
+        .find(|t| !t.is_ghost())
+        .cloned();
+
+    let (included_triangles, removed_triangles) = match adjacent_triangle {
+        Some(triangle) => triangulation_procedures::vertices::solve_conflicts(
+            triangulation,
+            &mut vec![(triangle, vec![segment_midpoint])].into_iter().collect(),
+            &mut Vec::new(),
+            &segment_constraints,
+            boundary,
+            holes,
+        ),
+        None => triangulation_procedures::vertices::include(
+            triangulation,
+            vec![segment_midpoint],
+            &segment_constraints,
+            boundary,
+            holes,
+        ),
+    };
     return (half_1, half_2, included_triangles, removed_triangles);
 } /* end - split_segment */
 
-- 
2.43.0


From 1a6e7ffedbf883b4c1dc88795a5edb934ec9f319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 18/43] fix: a circumcenter isn't inserted if it encroaches a
 segment

The triangle is evaluated again after the segments are split.
---
 .../refine_procedures/triangle_split.rs       | 60 ++++++++++++++++---
 1 file changed, 51 insertions(+), 9 deletions(-)

diff --git a/src/planar/refine_procedures/triangle_split.rs b/src/planar/refine_procedures/triangle_split.rs
index ab2a047..54c6977 100644
--- a/src/planar/refine_procedures/triangle_split.rs
+++ b/src/planar/refine_procedures/triangle_split.rs
@@ -77,6 +77,10 @@ pub fn split_irregular(
 
     let mut split_map: HashMap<Rc<Edge>, Rc<Edge>> = HashMap::new();
 
+    /* Conditions for Rupperts refinement to be known to terminate */
+    let is_terminating = params.quality_ratio >= std::f64::consts::SQRT_2
+        && !encroachment::has_sharp_angle(&segment_contraints);
+
     loop {
         let triangle;
         if let Some(irregular_triangle) = irregular_triangles.iter().next() {
@@ -126,26 +130,37 @@ pub fn split_irregular(
                 }
             }
             Err(encroachments) => {
-                let mut vertices = vec![Rc::new(triangle.circumcenter().unwrap())]
-                    .iter()
-                    .cloned()
-                    .collect();
+                let mut vertices: HashSet<Rc<Vertex>> =
+                    vec![Rc::new(triangle.circumcenter().unwrap())]
+                        .iter()
+                        .cloned()
+                        .collect();
+
+                /* the triangle is evaluated again, if it remains after the splits */
+                if is_terminating {
+                    if is_irregular_triangle(&triangle, params) {
+                        irregular_triangles.insert(Rc::clone(&triangle));
+                    } else {
+                        large_triangles.insert(Rc::clone(&triangle));
+                    }
+                }
 
-                for encroached_edge in encroachments.iter() {
+                let mut pending_edges: Vec<Rc<Edge>> = encroachments.iter().cloned().collect();
+                while let Some(encroached_edge) = pending_edges.pop() {
                     let (new_edges, included_triangles, removed_triangles) =
                         encroachment::unencroach_segment(
                             triangulation,
                             &encroached_edge,
-                            &mut vertices,
+                            &mut vertices.iter().cloned().collect(),
                             &segment_contraints,
                             boundary,
                             holes,
                         );
 
-                    segment_contraints.remove(encroached_edge);
-                    split_map.remove(encroached_edge);
+                    segment_contraints.remove(&encroached_edge);
+                    split_map.remove(&encroached_edge);
                     for subsegment in new_edges.iter() {
-                        split_map.insert(Rc::clone(subsegment), Rc::clone(encroached_edge));
+                        split_map.insert(Rc::clone(subsegment), Rc::clone(&encroached_edge));
                         segment_contraints.insert(Rc::clone(subsegment));
                     }
 
@@ -163,6 +178,21 @@ pub fn split_irregular(
                         irregular_triangles.remove(old_triangle);
                         large_triangles.remove(old_triangle);
                     }
+
+                    /* inserted midpoints may encroach other segments */
+                    if is_terminating {
+                        let new_vertices = new_edges.iter().map(|e| Rc::clone(&e.v1)).collect();
+                        let mut encroach_map: HashMap<Rc<Edge>, HashSet<Rc<Vertex>>> =
+                            HashMap::new();
+                        encroachment::distribute_encroachments(
+                            &segment_contraints,
+                            &new_vertices,
+                            &mut encroach_map,
+                        );
+                        vertices.extend(new_vertices);
+                        pending_edges.retain(|e| !encroach_map.contains_key(e));
+                        pending_edges.extend(encroach_map.keys().cloned());
+                    }
                 }
             }
         }
@@ -186,6 +216,18 @@ fn try_circumcenter_insertion(
     holes: &HashSet<Rc<Polyline>>,
 ) -> Result<(HashSet<Rc<Triangle>>, HashSet<Rc<Triangle>>), HashSet<Rc<Edge>>> {
     let circumcenter = Rc::new(triangle.circumcenter().unwrap());
+
+    /* Also finds the segments which separate the triangle from its circumcenter */
+    let encroachments: HashSet<Rc<Edge>> = segment_constraints
+        .iter()
+        .filter(|e| e.encroach(&circumcenter) == Continence::Inside)
+        .cloned()
+        .collect();
+
+    if !encroachments.is_empty() {
+        return Err(encroachments);
+    }
+
     let mut conflict_map: HashMap<Rc<Triangle>, Vec<Rc<Vertex>>> = HashMap::new();
 
     triangulation_procedures::vertices::distribute_conflicts_over_triangulation(
-- 
2.43.0


From 91e8f54e4614fb054a021e989d08fe5486d6c526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:51 +0000
Subject: [PATCH 19/43] fix: orientation is evaluated relative to a vertex

Far from the origin, the determinant of absolute coordinates rounds to more
than the tolerance, so vertices on a segment were not recognized as colinear.
---
 src/properties/orientation.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/properties/orientation.rs b/src/properties/orientation.rs
index 37fa199..a1ebccc 100644
--- a/src/properties/orientation.rs
+++ b/src/properties/orientation.rs
@@ -3,7 +3,7 @@ extern crate float_cmp;
 extern crate nalgebra;
 
 use crate::elements::vertex::*;
-use nalgebra::Matrix3;
+use nalgebra::Matrix2;
 
 #[derive(PartialEq, Debug)]
 pub enum Orientation {
@@ -17,8 +17,10 @@ pub enum Orientation {
  * in the circumcircle they define.
  */
 pub fn orientation(a: &Vertex, b: &Vertex, c: &Vertex) -> Orientation {
-    let matrix = Matrix3::new(a.x, a.y, 1.0, b.x, b.y, 1.0, c.x, c.y, 1.0);
-    let det: f64 = matrix.determinant();
+    /* coordinates relative to c avoid roundoff far from the origin */
+    let (acx, acy) = (a.x - c.x, a.y - c.y);
+    let (bcx, bcy) = (b.x - c.x, b.y - c.y);
+    let det: f64 = Matrix2::new(acx, acy, bcx, bcy).determinant();
 
     if float_cmp::approx_eq!(f64, det, 0.0, epsilon = 1.0E-14f64) {
         return Orientation::Colinear;
-- 
2.43.0


From dd8570503e08bb6aa7cdd251d2a5cb08887bf7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:41 +0000
Subject: [PATCH 20/43] fix: intersections are evaluated relative to a vertex

Far from the origin, the rounded intersection fell out of the bounding box of
axis aligned segments, so crossing segments weren't split.
---
 src/properties/intersection.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/properties/intersection.rs b/src/properties/intersection.rs
index 6e1244a..2c7f18b 100644
--- a/src/properties/intersection.rs
+++ b/src/properties/intersection.rs
@@ -67,17 +67,18 @@ fn intersection_vertex(
     v4: &Rc<Vertex>,
     bbox: &BoundingBox,
 ) -> Option<Vertex> {
-    let x1 = v1.x;
-    let y1 = v1.y;
+    /* coordinates relative to v1 avoid roundoff far from the origin */
+    let x1 = 0.0;
+    let y1 = 0.0;
 
-    let x2 = v2.x;
-    let y2 = v2.y;
+    let x2 = v2.x - v1.x;
+    let y2 = v2.y - v1.y;
 
-    let x3 = v3.x;
-    let y3 = v3.y;
+    let x3 = v3.x - v1.x;
+    let y3 = v3.y - v1.y;
 
-    let x4 = v4.x;
-    let y4 = v4.y;
+    let x4 = v4.x - v1.x;
+    let y4 = v4.y - v1.y;
 
     let matrix_a = Matrix2::new(-(y2 - y1), x2 - x1, -(y4 - y3), x4 - x3);
 
@@ -89,8 +90,8 @@ fn intersection_vertex(
     if !matrix_a.is_invertible() {
         /* Lines are coincident */
         let possible_middle_point = Matrix2x1::new(
-            (bbox.origin.x + bbox.destin.x) / 2.0,
-            (bbox.origin.y + bbox.destin.y) / 2.0,
+            (bbox.origin.x + bbox.destin.x) / 2.0 - v1.x,
+            (bbox.origin.y + bbox.destin.y) / 2.0 - v1.y,
         );
 
         let eval = matrix_a * possible_middle_point - matrix_b;
@@ -100,8 +101,8 @@ fn intersection_vertex(
         {
             /* Return mid-point as intersection representation */
             return Some(Vertex::new(
-                possible_middle_point[0],
-                possible_middle_point[1],
+                possible_middle_point[0] + v1.x,
+                possible_middle_point[1] + v1.y,
             ));
         }
 
@@ -113,8 +114,8 @@ fn intersection_vertex(
 
     let intersection_matrix = matrix_a_inv * matrix_b;
 
-    let intersection_x = intersection_matrix[0];
-    let intersection_y = intersection_matrix[1];
+    let intersection_x = intersection_matrix[0] + v1.x;
+    let intersection_y = intersection_matrix[1] + v1.y;
 
     return Some(Vertex::new(intersection_x, intersection_y));
 }
-- 
2.43.0


From cf2e0370622b93eb82bd87973865fe4286b230d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:01 +0000
Subject: [PATCH 21/43] fix: continence notices boundary vertices in the middle
 of an edge

A segment which touched only a corner of a hole or of the boundary was
accepted, although the corner isn't one of its ends nor its midpoint.
---
 src/elements/polyline.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 10f1720..6012369 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -728,6 +728,15 @@ impl Polyline {
             }
         }
 
+        /* p2 may also meet the boundary at the vertices of p1 */
+        if p2
+            .into_edges()
+            .iter()
+            .any(|e| p1.vertices.iter().any(|vertex| e.contains(vertex)))
+        {
+            possible_boundary = BoundaryInclusion::Closed;
+        }
+
         let p1_pairs = vertex_pairs(&p1.vertices, p1.opened);
         let p2_pairs = vertex_pairs(&p2.vertices, p2.opened);
 
-- 
2.43.0


From 69dd0b083c87de23a3dbdba2c03f8a7a60b82a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:31 +0000
Subject: [PATCH 22/43] fix: segments are included by flipping the edges they
 cross

---
 .../triangulation_procedures/segment.rs       | 214 +++++++++---------
 1 file changed, 109 insertions(+), 105 deletions(-)

diff --git a/src/planar/triangulation_procedures/segment.rs b/src/planar/triangulation_procedures/segment.rs
index 5ac1eca..3d843f1 100644
--- a/src/planar/triangulation_procedures/segment.rs
+++ b/src/planar/triangulation_procedures/segment.rs
@@ -1,135 +1,139 @@
-use crate::elements::{edge::*, polyline::*, triangle::*, vertex::*};
+use crate::elements::{edge::*, triangle::*, vertex::*};
 use crate::planar::triangulation::*;
 use crate::properties::{continence::*, orientation::*};
 
 use crate::planar::triangulation_procedures;
 
-use std::collections::HashSet;
+use std::collections::{HashSet, VecDeque};
 use std::rc::Rc;
 
 /**
  * Includes Segment.
- * Takes all triangles that intercept the segment or whose circumcircle encircles
- * one of its end vertices, retriangulates the vertices of the triangle around the
- * segment having the segment as constraint. Reinserts the taken triangulation into
- * the main triangulation.
+ * Inserts its end vertices, unless they already exist. The edges which cross the
+ * segment are flipped until the segment becomes an edge of the triangulation, then
+ * the modified edges are flipped until the triangulation is constrained Delaunay again.
  */
 pub fn include(
     triangulation: &mut Triangulation,
     segment: &Rc<Edge>,
     segment_constraints: &HashSet<Rc<Edge>>,
 ) {
-    if triangulation.adjacency.contains_key(segment)
-        && triangulation.adjacency.contains_key(&segment.opposite())
-    {
-        return;
-    }
+    triangulation_procedures::vertices::include(
+        triangulation,
+        vec![Rc::clone(&segment.v1), Rc::clone(&segment.v2)],
+        segment_constraints,
+        &None,
+        &HashSet::new(),
+    );
 
-    let conflicting_triangles: HashSet<Rc<Triangle>> = triangulation
-        .triangles
-        .iter()
-        .filter(|t| !t.is_ghost())
-        .filter(|triangle| {
-            let polyline = triangle.as_polyline().unwrap();
-            let segment_polyline = segment.as_polyline().unwrap();
-
-            let contains_segment = Polyline::continence(&polyline, &segment_polyline)
-                != Some((Continence::Outside, BoundaryInclusion::Open));
-
-            let conflicts_v1 = triangle.encircles(&segment.v1) != Continence::Outside;
-            let conflicts_v2 = triangle.encircles(&segment.v2) != Continence::Outside;
-
-            return conflicts_v1 || conflicts_v2 || contains_segment;
-        })
-        .filter(|triangle| {
-            let (e1, e2, e3) = triangle.outer_edges();
-            let is_constrained = vec![e1, e2, e3]
-                .iter()
-                .filter(|&edge| {
-                    segment_constraints.contains(edge)
-                        || segment_constraints.contains(&edge.opposite())
-                })
-                .fold(false, |acc, edge| {
-                    if acc == true {
-                        return true;
-                    }
-                    let faces_v1 = orientation(&edge.v1, &edge.v2, &segment.v1)
-                        == Orientation::Counterclockwise;
-                    let faces_v2 = orientation(&edge.v1, &edge.v2, &segment.v2)
-                        == Orientation::Counterclockwise;
-
-                    return faces_v1 || faces_v2;
-                });
-            return !is_constrained;
-        })
+    let is_constrained = |edge: &Rc<Edge>| {
+        let opposite = Rc::new(edge.opposite());
+        return edge == segment
+            || &opposite == segment
+            || segment_constraints.contains(edge)
+            || segment_constraints.contains(&opposite);
+    };
+
+    /* Flips the edges which cross the segment */
+    let mut crossing_edges: VecDeque<Rc<Edge>> = triangulation
+        .adjacency
+        .keys()
+        .filter(|&edge| crosses(edge, segment) && !is_constrained(edge))
+        .filter(|&edge| orientation(&segment.v1, &segment.v2, &edge.v1) == Orientation::Clockwise)
         .cloned()
         .collect();
 
-    // Uncomment to debug
-    // println!("\n\nSolid Triangles");
-    // for t in triangulation.triangles.iter().filter(|t| !t.is_ghost()) {
-    //     println!("{}", t);
-    // }
-    // println!("\nConflicting Triangles against {}", segment);
-    // for t in conflicting_triangles.iter() {
-    //     println!("{}", t);
-    // }
-
-    for conflicting_triangle in conflicting_triangles.iter() {
-        triangulation.remove_triangle(conflicting_triangle);
+    let mut modified_edges: Vec<Rc<Edge>> = Vec::new();
+    let mut failures = 0;
+    while failures < crossing_edges.len() {
+        let crossing_edge = crossing_edges.pop_front().unwrap();
+        if let Some(new_edge) = flip(triangulation, &crossing_edge) {
+            failures = 0;
+            if crosses(&new_edge, segment) {
+                crossing_edges.push_back(new_edge);
+            } else {
+                modified_edges.push(new_edge);
+            }
+        } else {
+            failures += 1;
+            crossing_edges.push_back(crossing_edge);
+        }
     }
 
-    let triangles_boundary: Rc<Polyline> =
-        Rc::new(Polyline::triangles_hull(&conflicting_triangles).unwrap());
-
-    let conflicting_vertices: HashSet<Rc<Vertex>> = conflicting_triangles
-        .iter()
-        .map(|triangle| {
-            vec![
-                Rc::clone(&triangle.v1),
-                Rc::clone(&triangle.v2),
-                Rc::clone(&triangle.v3),
-            ]
-        })
-        .flatten()
-        .collect();
-
-    let mut segment_triangulation = Triangulation::from_initial_segment((&segment.v1, &segment.v2));
-
-    let new_segment_constraint: HashSet<Rc<Edge>> =
-        vec![Rc::clone(&segment)].iter().cloned().collect();
+    /* Recovers the Delaunay condition */
+    while let Some(edge) = modified_edges.pop() {
+        let opposite = Rc::new(edge.opposite());
+        let (triangle, outer_triangle) = match (
+            triangulation.adjacency.get(&edge),
+            triangulation.adjacency.get(&opposite),
+        ) {
+            (Some(t1), Some(t2)) => (Rc::clone(t1), Rc::clone(t2)),
+            _ => continue,
+        };
+        if is_constrained(&edge) || triangle.is_ghost() || outer_triangle.is_ghost() {
+            continue;
+        }
 
-    triangulation_procedures::boundary::include(
-        &mut segment_triangulation,
-        &triangles_boundary,
-        &new_segment_constraint,
-    );
+        let outer_vertex = outer_triangle.opposite_vertex(&opposite).unwrap();
+        if triangle.encircles(&outer_vertex) == Continence::Inside
+            && flip(triangulation, &edge).is_some()
+        {
+            for t in vec![triangle, outer_triangle].iter() {
+                let (e1, e2, e3) = t.inner_edges();
+                modified_edges.extend(
+                    vec![e1, e2, e3]
+                        .into_iter()
+                        .filter(|e| e != &edge && e != &opposite),
+                );
+            }
+        }
+    }
+} /* end - include segment */
 
-    triangulation_procedures::vertices::include(
-        &mut segment_triangulation,
-        conflicting_vertices.iter().cloned().collect(),
-        &new_segment_constraint,
-        &Some(Rc::clone(&triangles_boundary)),
-        &HashSet::new(),
+/**
+ * Evaluates if edge and segment cross in a vertex which is interior to both
+ */
+fn crosses(edge: &Edge, segment: &Edge) -> bool {
+    if edge.v1.is_ghost || edge.v2.is_ghost {
+        return false;
+    }
+    let is_opposite = |o1: Orientation, o2: Orientation| {
+        return o1 != Orientation::Colinear && o2 != Orientation::Colinear && o1 != o2;
+    };
+    return is_opposite(
+        orientation(&segment.v1, &segment.v2, &edge.v1),
+        orientation(&segment.v1, &segment.v2, &edge.v2),
+    ) && is_opposite(
+        orientation(&edge.v1, &edge.v2, &segment.v1),
+        orientation(&edge.v1, &edge.v2, &segment.v2),
     );
+}
 
-    let new_solid_triangles: HashSet<Rc<Triangle>> = segment_triangulation
-        .triangles
-        .iter()
-        .filter(|t| !t.is_ghost())
-        .cloned()
-        .collect();
-
-    // Uncomment to debug
-    // println!("\nNew Solid Triangles");
-    // for t in new_solid_triangles.iter() {
-    //     println!("{}", t);
-    // }
+/**
+ * Replaces the triangles which share the edge by the ones which share the other
+ * diagonal. Returns this diagonal, or none if the edge can't be flipped.
+ */
+fn flip(triangulation: &mut Triangulation, edge: &Rc<Edge>) -> Option<Rc<Edge>> {
+    let opposite = Rc::new(edge.opposite());
+    let t1 = Rc::clone(triangulation.adjacency.get(edge)?);
+    let t2 = Rc::clone(triangulation.adjacency.get(&opposite)?);
+    if t1.is_ghost() || t2.is_ghost() {
+        return None;
+    }
 
-    for new_triangle in new_solid_triangles.iter() {
-        triangulation.include_triangle(new_triangle);
+    let v1 = t1.opposite_vertex(edge)?;
+    let v2 = t2.opposite_vertex(&opposite)?;
+    let diagonal = Rc::new(Edge::new(&v2, &v1));
+    if !crosses(&diagonal, edge) {
+        return None;
     }
-} /* end - include segment */
+
+    triangulation.remove_triangle(&t1);
+    triangulation.remove_triangle(&t2);
+    triangulation.include_triangle(&Rc::new(Triangle::new(&v2, &v1, &edge.v1)));
+    triangulation.include_triangle(&Rc::new(Triangle::new(&v1, &v2, &edge.v2)));
+    return Some(diagonal);
+}
 
 #[cfg(test)]
 mod include_segment {
-- 
2.43.0


From be8fdcf7bd999831d6438ea6519642cf7bbe8845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:31 +0000
Subject: [PATCH 23/43] fix: boundary edges missing after the vertices
 inclusion are included

---
 .../triangulation_procedures/boundary.rs      | 25 +++++++------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/planar/triangulation_procedures/boundary.rs b/src/planar/triangulation_procedures/boundary.rs
index d7b9639..318afd3 100644
--- a/src/planar/triangulation_procedures/boundary.rs
+++ b/src/planar/triangulation_procedures/boundary.rs
@@ -31,22 +31,15 @@ pub fn include(
     );
 
     /* Inserts missing segments */
-    // let existing_segments: HashSet<Rc<Edge>> = triangulation.edges();
-    // let missing_segments: HashSet<Rc<Edge>> = boundary_segments
-    //     .iter()
-    //     .filter(|&e| !existing_segments.contains(e))
-    //     .cloned()
-    //     .collect();
-
-    // let segment_contraints = segment_constraints
-    //     .iter()
-    //     .chain(boundary_segments.iter())
-    //     .cloned()
-    //     .collect();
-
-    // for segment in missing_segments.iter() {
-    //     Self::include_segment(triangulation, segment, &segment_contraints);
-    // }
+    let segment_constraints: HashSet<Rc<Edge>> = segment_constraints
+        .iter()
+        .chain(boundary_segments.iter())
+        .cloned()
+        .collect();
+
+    for segment in boundary_segments.iter() {
+        triangulation_procedures::segment::include(triangulation, segment, &segment_constraints);
+    }
 
     /* Inserting outer hole */
     let mut pending_edges: Vec<Rc<Edge>> = Vec::new();
-- 
2.43.0


From 93fe3ac2aec2d2f791895507d2385f18645ae182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:31 +0000
Subject: [PATCH 24/43] fix: vertices are inserted at their own side of the
 constraints

---
 .../triangulation_procedures/vertices.rs      | 48 ++++++++++++++++++-
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index 3731262..45df739 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -1,6 +1,6 @@
 use crate::elements::{edge::*, polyline::*, triangle::*, vertex::*};
 use crate::planar::{triangulation::*, triangulation_procedures};
-use crate::properties::continence::*;
+use crate::properties::{continence::*, intersection::*, orientation::*};
 
 use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
@@ -78,7 +78,7 @@ pub fn solve_conflicts(
         //     println!();
         // }
 
-        let next_conflicting_triangle: Rc<Triangle> =
+        let mut next_conflicting_triangle: Rc<Triangle> =
             Rc::clone(conflict_map.keys().next().unwrap());
 
         let mut conflicting_vertices: Vec<Rc<Vertex>> =
@@ -86,6 +86,19 @@ pub fn solve_conflicts(
 
         let conflict_vertex: Rc<Vertex> = conflicting_vertices.pop().unwrap();
 
+        /* the conflict may be at the other side of a constraint */
+        if is_separated(
+            &next_conflicting_triangle,
+            &conflict_vertex,
+            segment_constraints,
+        ) {
+            if let Some(triangle) = find_container(triangulation, &conflict_vertex) {
+                remaining_vertices.append(&mut conflicting_vertices);
+                conflicting_vertices = conflict_map.remove(&triangle).unwrap_or(Vec::new());
+                next_conflicting_triangle = triangle;
+            }
+        }
+
         triangulation.remove_triangle(&next_conflicting_triangle);
         removed_triangles.insert(Rc::clone(&next_conflicting_triangle));
 
@@ -275,6 +288,37 @@ pub fn distribute_conflicts_over_triangulation(
     }
 }
 
+/**
+ * Evaluates if any constraint is in between of the triangle's center and the vertex
+ */
+fn is_separated(
+    triangle: &Rc<Triangle>,
+    vertex: &Rc<Vertex>,
+    segment_constraints: &HashSet<Rc<Edge>>,
+) -> bool {
+    let center = Rc::new(triangle.center());
+    return !triangle.is_ghost()
+        && segment_constraints
+            .iter()
+            .any(|s| intersection(&center, vertex, &s.v1, &s.v2).is_some());
+} /* end - is_separated */
+
+/**
+ * Finds the solid triangle which contains the vertex
+ */
+fn find_container(triangulation: &Triangulation, vertex: &Rc<Vertex>) -> Option<Rc<Triangle>> {
+    return triangulation
+        .triangles
+        .iter()
+        .filter(|t| !t.is_ghost())
+        .find(|t| {
+            orientation(&t.v1, &t.v2, vertex) != Orientation::Clockwise
+                && orientation(&t.v2, &t.v3, vertex) != Orientation::Clockwise
+                && orientation(&t.v3, &t.v1, vertex) != Orientation::Clockwise
+        })
+        .cloned();
+} /* end - find_container */
+
 /**
  * Evaluates if triangle is inside boudanry and outside holes
  */
-- 
2.43.0


From 183bc177812d7c20a4e30b73eef89ac028ed4384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:50 +0000
Subject: [PATCH 25/43] fix: boolean operations split polylines mutually and
 evaluate each against the other

Segments were split repeatedly at rounded vertices and evaluated against their own polyline:
intersections hung, panicked or lost segments.
---
 src/elements/polyline.rs | 302 +++++++++++++++------------------------
 1 file changed, 119 insertions(+), 183 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 6012369..e9bf959 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -211,20 +211,15 @@ impl Polyline {
         let mut polyline_intersection_list: Vec<Self> = Vec::new();
         let mut unused_segments: HashSet<(Rc<Vertex>, Rc<Vertex>)> = HashSet::new();
 
-        let p1_segments = vertex_pairs(&p1.vertices, p1.opened);
-        let p2_segments = vertex_pairs(&p2.vertices, p2.opened);
         /* splits segments at the beginning makes it easy to avoid outer boundary  */
-        let mut possible_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = split_intersections(
-            &p1_segments
-                .iter()
-                .chain(p2_segments.iter())
-                .cloned()
-                .collect(),
+        let (p1_segments, p2_segments) = split_mutually(
+            &vertex_pairs(&p1.vertices, p1.opened),
+            &vertex_pairs(&p2.vertices, p2.opened),
         );
 
         if p1.opened || p2.opened {
             let unused_segments: HashSet<(Rc<Vertex>, Rc<Vertex>)> =
-                possible_segments.iter().cloned().collect();
+                p1_segments.into_iter().chain(p2_segments).collect();
             return (polyline_intersection_list, unused_segments);
         }
 
@@ -232,82 +227,30 @@ impl Polyline {
         let p2_bbox = p2.bounding_box().unwrap();
 
         if !BoundingBox::intersection(&p1_bbox, &p2_bbox).is_none() {
-            /*
-                Removes pairs of colinear segments in opposed direction
-            */
-            let mut read_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = Vec::new();
-            read_segments.push(possible_segments.pop().unwrap());
-            while !possible_segments.is_empty() {
-                let (v1, v2) = possible_segments.pop().unwrap();
-                match read_segments.iter().position(|(v3, v4)| {
-                    if !intersection(&v1, &v2, v3, v4).is_none() {
-                        let is_parallel = parallel(&v1, &v2, v3, v4);
-                        let have_opposite_directions = dot(&v1, &v2, v3, v4) < 0.0;
-
-                        let is_polyline_continuation = &v1 == v4 || &v2 == v3;
-                        let is_outside = p1.contains(&v1).unwrap() == Continence::Outside
-                            || p2.contains(&v1).unwrap() == Continence::Outside
-                            || p1.contains(&v2).unwrap() == Continence::Outside
-                            || p2.contains(&v2).unwrap() == Continence::Outside
-                            || p1.contains(&v3).unwrap() == Continence::Outside
-                            || p2.contains(&v3).unwrap() == Continence::Outside
-                            || p1.contains(&v4).unwrap() == Continence::Outside
-                            || p2.contains(&v4).unwrap() == Continence::Outside;
-
-                        return is_parallel
-                            && have_opposite_directions
-                            && (is_polyline_continuation || is_outside);
-                    }
-                    return false;
-                }) {
-                    Some(index) => {
-                        let (v3, v4) = read_segments.remove(index);
-
-                        unused_segments.insert((Rc::clone(&v1), Rc::clone(&v2)));
-                        unused_segments.insert((Rc::clone(&v3), Rc::clone(&v4)));
-                        if v2 != v3
-                            && (v1 == v4
-                                || p1.contains(&v1).unwrap() == Continence::Outside
-                                || p2.contains(&v1).unwrap() == Continence::Outside
-                                || p1.contains(&v4).unwrap() == Continence::Outside
-                                || p2.contains(&v4).unwrap() == Continence::Outside)
-                        {
-                            possible_segments.push((Rc::clone(&v3), Rc::clone(&v2)));
-                        }
-                        if v1 != v4
-                            && (v2 == v3
-                                || p1.contains(&v2).unwrap() == Continence::Outside
-                                || p2.contains(&v2).unwrap() == Continence::Outside
-                                || p1.contains(&v3).unwrap() == Continence::Outside
-                                || p2.contains(&v3).unwrap() == Continence::Outside)
-                        {
-                            possible_segments.push((Rc::clone(&v1), Rc::clone(&v4)));
-                        }
-                    }
-                    None => {
-                        read_segments.push((v1, v2));
+            let mut possible_segments: HashSet<(Rc<Vertex>, Rc<Vertex>)> = HashSet::new();
+
+            /* Filters by continence in the other polyline, common boundary is read once */
+            for (v1, v2) in p1_segments.iter().cloned() {
+                let is_used = match p2.contains(&midpoint(&v1, &v2)).unwrap() {
+                    Continence::Inside => true,
+                    Continence::Outside => false,
+                    Continence::Boundary => {
+                        p2_segments.contains(&(Rc::clone(&v1), Rc::clone(&v2)))
                     }
-                }
-            } /* end - removes pair of intersecting colinear segments in opposed direction */
-            possible_segments = read_segments.iter().cloned().collect();
-            read_segments = Vec::new();
-
-            /* Filters by continence */
-            while !possible_segments.is_empty() {
-                let (v1, v2) = possible_segments.pop().unwrap();
-                let midpoint = midpoint(&v1, &v2);
-
-                let contains_mid = p1.contains(&midpoint).unwrap() != Continence::Outside
-                    && p2.contains(&midpoint).unwrap() != Continence::Outside;
-
-                if contains_mid {
-                    read_segments.push((v1, v2));
+                };
+                if is_used {
+                    possible_segments.insert((v1, v2));
                 } else {
                     unused_segments.insert((v1, v2));
                 }
             }
-            let mut possible_segments: HashSet<(Rc<Vertex>, Rc<Vertex>)> =
-                read_segments.into_iter().collect();
+            for (v1, v2) in p2_segments {
+                if p1.contains(&midpoint(&v1, &v2)).unwrap() == Continence::Inside {
+                    possible_segments.insert((v1, v2));
+                } else if !possible_segments.contains(&(Rc::clone(&v1), Rc::clone(&v2))) {
+                    unused_segments.insert((v1, v2));
+                }
+            }
 
             /* Builds polylines */
             while !possible_segments.is_empty() {
@@ -403,34 +346,32 @@ impl Polyline {
         }
 
         /* splits segments at the beginning makes it easy to avoid outer boundary  */
-        let p1_segments = vertex_pairs(&p1.vertices, p1.opened);
-        let p2_segments = vertex_pairs(&p2.vertices, p2.opened);
-        let mut possible_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = split_intersections(
-            &p1_segments
-                .iter()
-                .chain(p2_segments.iter())
-                .cloned()
-                .collect(),
+        let (p1_segments, p2_segments) = split_mutually(
+            &vertex_pairs(&p1.vertices, p1.opened),
+            &vertex_pairs(&p2.vertices, p2.opened),
         );
-        let mut read_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = Vec::new();
-
-        /* Filters by continence */
-        while !possible_segments.is_empty() {
-            let (v1, v2) = possible_segments.pop().unwrap();
-            let midpoint = midpoint(&v1, &v2);
-
-            let dont_contains_mid = p1.contains(&midpoint).unwrap() == Continence::Outside
-                || p2.contains(&midpoint).unwrap() == Continence::Outside;
-
-            if dont_contains_mid {
-                read_segments.push((v1, v2));
+        let mut possible_segments: HashSet<(Rc<Vertex>, Rc<Vertex>)> = HashSet::new();
+
+        /* Filters by continence in the other polyline, common boundary is read once */
+        for (v1, v2) in p1_segments.iter().cloned() {
+            let is_used = match p2.contains(&midpoint(&v1, &v2)).unwrap() {
+                Continence::Inside => false,
+                Continence::Outside => true,
+                Continence::Boundary => p2_segments.contains(&(Rc::clone(&v1), Rc::clone(&v2))),
+            };
+            if is_used {
+                possible_segments.insert((v1, v2));
             } else {
                 unused_segments.insert((v1, v2));
             }
         }
-
-        let mut possible_segments: HashSet<(Rc<Vertex>, Rc<Vertex>)> =
-            read_segments.iter().cloned().collect();
+        for (v1, v2) in p2_segments {
+            if p1.contains(&midpoint(&v1, &v2)).unwrap() == Continence::Outside {
+                possible_segments.insert((v1, v2));
+            } else if !possible_segments.contains(&(Rc::clone(&v1), Rc::clone(&v2))) {
+                unused_segments.insert((v1, v2));
+            }
+        }
 
         while !possible_segments.is_empty() {
             /* Begins union polyline build */
@@ -519,15 +460,10 @@ impl Polyline {
         let mut polyline_intersection_list: Vec<Rc<Self>> = Vec::new();
         let mut unused_segments: HashSet<(Rc<Vertex>, Rc<Vertex>)> = HashSet::new();
 
-        let p1_segments = vertex_pairs(&p1.vertices, p1.opened);
-        let p2_segments = vertex_pairs(&p2.vertices.iter().cloned().rev().collect(), p2.opened);
         /* splits segments at the beginning makes it easy to avoid outer boundary  */
-        let mut possible_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = split_intersections(
-            &p1_segments
-                .iter()
-                .chain(p2_segments.iter())
-                .cloned()
-                .collect(),
+        let (p1_segments, p2_segments) = split_mutually(
+            &vertex_pairs(&p1.vertices, p1.opened),
+            &vertex_pairs(&p2.vertices.iter().cloned().rev().collect(), p2.opened),
         );
 
         let p1_bbox = p1.bounding_box().unwrap();
@@ -539,86 +475,32 @@ impl Polyline {
 
         if p1.opened || p2.opened || no_intersection_area || p2_contained_without_intersection {
             let unused_segments: HashSet<(Rc<Vertex>, Rc<Vertex>)> =
-                possible_segments.iter().cloned().collect();
+                p1_segments.into_iter().chain(p2_segments).collect();
             return (polyline_intersection_list, unused_segments);
         }
 
-        /*
-            Removes pairs of colinear segments in opposed direction
-        */
-        let mut read_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = Vec::new();
-        read_segments.push(possible_segments.pop().unwrap());
-        while !possible_segments.is_empty() {
-            let (v1, v2) = possible_segments.pop().unwrap();
-            match read_segments.iter().position(|(v3, v4)| {
-                if intersection(&v1, &v2, v3, v4).is_none() {
-                    return false;
-                }
-                let is_parallel = parallel(&v1, &v2, v3, v4);
-                let have_opposite_directions = dot(&v1, &v2, v3, v4) < 0.0;
-
-                let is_polyline_continuation = &v1 == v4 || &v2 == v3;
-                let is_outside = p1.contains(&v1).unwrap() == Continence::Outside
-                    || p2.contains(&v1).unwrap() == Continence::Outside
-                    || p1.contains(&v2).unwrap() == Continence::Outside
-                    || p2.contains(&v2).unwrap() == Continence::Outside
-                    || p1.contains(&v3).unwrap() == Continence::Outside
-                    || p2.contains(&v3).unwrap() == Continence::Outside
-                    || p1.contains(&v4).unwrap() == Continence::Outside
-                    || p2.contains(&v4).unwrap() == Continence::Outside;
-
-                return is_parallel
-                    && have_opposite_directions
-                    && (is_polyline_continuation || is_outside);
-            }) {
-                Some(index) => {
-                    let (v3, v4) = read_segments.remove(index);
-
-                    unused_segments.insert((Rc::clone(&v1), Rc::clone(&v2)));
-                    unused_segments.insert((Rc::clone(&v3), Rc::clone(&v4)));
-                    if v2 != v3
-                        && (v1 == v4
-                            || p1.contains(&v1).unwrap() == Continence::Outside
-                            || p2.contains(&v1).unwrap() == Continence::Outside
-                            || p1.contains(&v4).unwrap() == Continence::Outside
-                            || p2.contains(&v4).unwrap() == Continence::Outside)
-                    {
-                        possible_segments.push((Rc::clone(&v3), Rc::clone(&v2)));
-                    }
-                    if v1 != v4
-                        && (v2 == v3
-                            || p1.contains(&v2).unwrap() == Continence::Outside
-                            || p2.contains(&v2).unwrap() == Continence::Outside
-                            || p1.contains(&v3).unwrap() == Continence::Outside
-                            || p2.contains(&v3).unwrap() == Continence::Outside)
-                    {
-                        possible_segments.push((Rc::clone(&v1), Rc::clone(&v4)));
-                    }
-                }
-                None => {
-                    read_segments.push((v1, v2));
-                }
-            }
-        } /* end - removes pair of intersecting colinear segments in opposed direction */
-        possible_segments = read_segments.iter().cloned().collect();
-        read_segments = Vec::new();
-
-        /* Filters by continence */
-        while !possible_segments.is_empty() {
-            let (v1, v2) = possible_segments.pop().unwrap();
-            let midpoint = midpoint(&v1, &v2);
-
-            let inside_p1 = p1.contains(&midpoint).unwrap() != Continence::Outside;
-            let not_inside_p2 = p2.contains(&midpoint).unwrap() != Continence::Inside;
+        let mut possible_segments: HashSet<(Rc<Vertex>, Rc<Vertex>)> = HashSet::new();
 
-            if inside_p1 && not_inside_p2 {
-                read_segments.push((v1, v2));
+        /* Filters by continence in the other polyline, common boundary is read once */
+        for (v1, v2) in p1_segments.iter().cloned() {
+            let is_used = match p2.contains(&midpoint(&v1, &v2)).unwrap() {
+                Continence::Inside => false,
+                Continence::Outside => true,
+                Continence::Boundary => p2_segments.contains(&(Rc::clone(&v1), Rc::clone(&v2))),
+            };
+            if is_used {
+                possible_segments.insert((v1, v2));
             } else {
                 unused_segments.insert((v1, v2));
             }
         }
-        let mut possible_segments: HashSet<(Rc<Vertex>, Rc<Vertex>)> =
-            read_segments.into_iter().collect();
+        for (v1, v2) in p2_segments {
+            if p1.contains(&midpoint(&v1, &v2)).unwrap() == Continence::Inside {
+                possible_segments.insert((v1, v2));
+            } else if !possible_segments.contains(&(Rc::clone(&v1), Rc::clone(&v2))) {
+                unused_segments.insert((v1, v2));
+            }
+        }
 
         /* Builds polylines */
         while !possible_segments.is_empty() {
@@ -864,6 +746,60 @@ pub fn vertex_pairs(vertex_list: &Vec<Rc<Vertex>>, opened: bool) -> Vec<(Rc<Vert
     return pair_list;
 }
 
+/**
+ * Splits the segments of two polylines where they meet each other.
+ */
+fn split_mutually(
+    p1_segments: &Vec<(Rc<Vertex>, Rc<Vertex>)>,
+    p2_segments: &Vec<(Rc<Vertex>, Rc<Vertex>)>,
+) -> (
+    Vec<(Rc<Vertex>, Rc<Vertex>)>,
+    Vec<(Rc<Vertex>, Rc<Vertex>)>,
+) {
+    let mut p1_cuts: Vec<Vec<Rc<Vertex>>> = vec![Vec::new(); p1_segments.len()];
+    let mut p2_cuts: Vec<Vec<Rc<Vertex>>> = vec![Vec::new(); p2_segments.len()];
+
+    for (p1_index, (v1, v2)) in p1_segments.iter().enumerate() {
+        let e1 = Edge::new(v1, v2);
+        for (p2_index, (v3, v4)) in p2_segments.iter().enumerate() {
+            let e2 = Edge::new(v3, v4);
+
+            let e1_cuts: Vec<&Rc<Vertex>> =
+                vec![v3, v4].into_iter().filter(|v| e1.contains(v)).collect();
+            let e2_cuts: Vec<&Rc<Vertex>> =
+                vec![v1, v2].into_iter().filter(|v| e2.contains(v)).collect();
+
+            if e1_cuts.is_empty() && e2_cuts.is_empty() {
+                if let Some(vertex) = intersection(v1, v2, v3, v4) {
+                    let vertex = Rc::new(vertex);
+                    p1_cuts[p1_index].push(Rc::clone(&vertex));
+                    p2_cuts[p2_index].push(vertex);
+                }
+            }
+            p1_cuts[p1_index].extend(e1_cuts.into_iter().cloned());
+            p2_cuts[p2_index].extend(e2_cuts.into_iter().cloned());
+        }
+    }
+
+    let split = |segments: &Vec<(Rc<Vertex>, Rc<Vertex>)>, cuts: Vec<Vec<Rc<Vertex>>>| {
+        let mut splited_segments: Vec<(Rc<Vertex>, Rc<Vertex>)> = Vec::new();
+        for ((head, tail), mut vertices) in segments.iter().zip(cuts) {
+            vertices.sort_by(|va, vb| {
+                let first_position = dot(head, tail, head, va);
+                let second_position = dot(head, tail, head, vb);
+                return first_position.partial_cmp(&second_position).unwrap();
+            });
+            vertices.insert(0, Rc::clone(head));
+            vertices.push(Rc::clone(tail));
+            vertices.dedup();
+            splited_segments.append(&mut vertex_pairs(&vertices, true));
+        }
+        return splited_segments;
+    };
+
+    return (split(p1_segments, p1_cuts), split(p2_segments, p2_cuts));
+}
+
 pub fn split_intersections(
     segments: &Vec<(Rc<Vertex>, Rc<Vertex>)>,
 ) -> Vec<(Rc<Vertex>, Rc<Vertex>)> {
-- 
2.43.0


From df32247708ce8d7139994c111c66ca2fa5d2d858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:50 +0000
Subject: [PATCH 26/43] fix: angle of colinear vertices is not NaN

---
 src/properties/angle.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/properties/angle.rs b/src/properties/angle.rs
index 88a0ee8..5ddeead 100644
--- a/src/properties/angle.rs
+++ b/src/properties/angle.rs
@@ -14,7 +14,8 @@ pub fn angle(a: &Vertex, b: &Vertex, c: &Vertex) -> Option<f64> {
     let bc: Vector2<f64> = Vector2::new(c.x - b.x, c.y - b.y);
 
     let cos_theta = ba.dot(&bc) / (ba.norm() * bc.norm());
-    let theta = cos_theta.acos();
+    /* roundoff may exceed the domain of acos */
+    let theta = cos_theta.max(-1.0).min(1.0).acos();
 
     if orientation(a, b, c) == Orientation::Clockwise {
         return Some(2.0 * std::f64::consts::PI - theta);
-- 
2.43.0


From 216c02f23ea379639914ce49dde67af6b74f3b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:56 +0000
Subject: [PATCH 27/43] fix: edges which don't form a single cycle are not
 arranged

---
 src/elements/polyline.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index e9bf959..60983d3 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -91,11 +91,15 @@ impl Polyline {
             hash_edges.insert(Rc::clone(&edge.v1), Rc::clone(&edge.v2));
         }
 
-        let head: Rc<Vertex> = Rc::clone(hash_edges.keys().next().unwrap());
+        let head: Rc<Vertex> = match hash_edges.keys().next() {
+            Some(head) => Rc::clone(head),
+            None => return None,
+        };
         let mut tail: Rc<Vertex> = Rc::clone(&head);
         arranged_vertices.push(Rc::clone(&head));
 
-        loop {
+        /* stops even if the edges end in a cycle which doesn't include head */
+        while arranged_vertices.len() <= edges.len() {
             if let Some(next) = hash_edges.get(&tail) {
                 if next == &head {
                     break;
@@ -104,11 +108,12 @@ impl Polyline {
                 tail = Rc::clone(next);
                 continue;
             }
-            break;
+            /* edges aren't closed */
+            return None;
         }
 
         if arranged_vertices.len() == edges.len() {
-            return Some(Polyline::new_closed(arranged_vertices).unwrap());
+            return Polyline::new_closed(arranged_vertices);
         }
 
         return None;
-- 
2.43.0


From 0dcd1c41dd7248d5d314317f6447a2911b7d0bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 28/43] fix: union of separated polylines is None

---
 src/elements/polyline.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 60983d3..6ff58f5 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -378,6 +378,9 @@ impl Polyline {
             }
         }
 
+        let union_segments: HashSet<(Rc<Vertex>, Rc<Vertex>)> =
+            possible_segments.iter().cloned().collect();
+
         while !possible_segments.is_empty() {
             /* Begins union polyline build */
             let mut possible_polyline_union: Vec<(Rc<Vertex>, Rc<Vertex>)> = Vec::new();
@@ -425,7 +428,18 @@ impl Polyline {
                                 .chain(unused_segments.iter())
                                 .cloned()
                                 .collect();
-                            return Some((Polyline::new_closed(vertices).unwrap(), segments));
+                            let union = Polyline::new_closed(vertices).unwrap();
+                            /* the remaining segments bound holes, unless polylines are separated */
+                            let is_separated = union_segments.iter().any(|segment| {
+                                let (v1, v2) = segment;
+                                return !possible_polyline_union.contains(segment)
+                                    && union.contains(&midpoint(v1, v2))
+                                        == Some(Continence::Outside);
+                            });
+                            if is_separated {
+                                return None;
+                            }
+                            return Some((union, segments));
                         }
                     } /* end - if polyline closure */
                     unused_segments = unused_segments
-- 
2.43.0


From 72acb16d6a9eafc729e958b877e4b9b98fd91388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:25 +0000
Subject: [PATCH 29/43] fix: removals are subtracted whatever their order, and
 may not remove the whole boundary

---
 .../domain_evaluator.rs                       | 40 ++++++++++++++-----
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/triangulator_interface/domain_evaluator.rs b/src/triangulator_interface/domain_evaluator.rs
index bfd71e3..a9712b9 100644
--- a/src/triangulator_interface/domain_evaluator.rs
+++ b/src/triangulator_interface/domain_evaluator.rs
@@ -40,18 +40,38 @@ pub fn boundary(
         return Err(());
     }
 
-    for possible_removal in removes.iter() {
-        let (subtraction_list, _) = Polyline::subtraction(&boundary, possible_removal);
-        
-        if subtraction_list.len() > 1 {
-            /* divided union in more than 1 */
-            return Err(());
+    let mut possible_removals: Vec<Rc<Polyline>> = removes.iter().cloned().collect();
+
+    /* a removal, that was unused, may cross the boundary defined by the following ones */
+    while !possible_removals.is_empty() {
+        let mut was_subtracted = false;
+
+        for possible_removal in possible_removals.drain(..) {
+            match Polyline::continence(&possible_removal, &boundary) {
+                Some((Continence::Inside, _)) | Some((Continence::Boundary, _)) => {
+                    /* nothing remains */
+                    return Err(());
+                }
+                _ => {}
+            }
+
+            let (subtraction_list, _) = Polyline::subtraction(&boundary, &possible_removal);
+
+            if subtraction_list.len() > 1 {
+                /* divided union in more than 1 */
+                return Err(());
+            }
+            if subtraction_list.len() == 1 {
+                boundary = Rc::clone(subtraction_list.get(0).unwrap());
+                was_subtracted = true;
+                continue;
+            }
+            unused_removals.push(possible_removal);
         }
-        if subtraction_list.len() == 1 {
-            boundary = Rc::clone(subtraction_list.get(0).unwrap());
-            continue;
+
+        if was_subtracted {
+            possible_removals.append(&mut unused_removals);
         }
-        unused_removals.push(Rc::clone(possible_removal));
     }
 
     return Ok((boundary, unused_removals));
-- 
2.43.0


From 7af2103607386f95a63cd4bd3f3aa50f3b8a2542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:15 +0000
Subject: [PATCH 30/43] fix: opened polylines remain opened when minified

---
 src/elements/polyline.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 6ff58f5..58b553e 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -144,6 +144,7 @@ impl Polyline {
         if self.opened {
             minified.insert(0, Rc::clone(&head));
             minified.push(Rc::clone(&tail));
+            return Polyline::new_opened(minified).unwrap();
         }
 
         return Polyline::new_closed(minified).unwrap();
-- 
2.43.0


From 50a77a5f817049d70e8b3a491a5a36620f82a309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 31/43] fix: segments which touch at an end vertex intersect at
 it

---
 src/properties/intersection.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/properties/intersection.rs b/src/properties/intersection.rs
index 2c7f18b..121f082 100644
--- a/src/properties/intersection.rs
+++ b/src/properties/intersection.rs
@@ -5,6 +5,7 @@ extern crate nalgebra;
 
 use crate::elements::bounding_box::*;
 use crate::elements::vertex::*;
+use crate::properties::orientation::*;
 
 use nalgebra::{Matrix2, Matrix2x1};
 use std::rc::Rc;
@@ -110,6 +111,13 @@ fn intersection_vertex(
         return None;
     }
 
+    /* Segments which touch each other meet at an end vertex, without roundoff */
+    for (end, v5, v6) in [(v1, v3, v4), (v2, v3, v4), (v3, v1, v2), (v4, v1, v2)].iter() {
+        if bbox.contains(end) && orientation(v5, v6, end) == Orientation::Colinear {
+            return Some(Vertex::new(end.x, end.y));
+        }
+    }
+
     let matrix_a_inv = matrix_a.try_inverse().unwrap();
 
     let intersection_matrix = matrix_a_inv * matrix_b;
-- 
2.43.0


From 01a182ffdfdb9c409a9e62ea1f69933471ebec30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 32/43] fix: continence of polylines whose sampled vertices are
 all at the boundary

---
 src/elements/polyline.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 58b553e..393d42a 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -652,6 +652,10 @@ impl Polyline {
             if continence == Continence::Boundary {
                 continue;
             }
+            if possible_continence.is_none() {
+                possible_continence = Some(continence);
+                continue;
+            }
             if Some(continence) != possible_continence {
                 return None;
             }
-- 
2.43.0


From 9b9b4ca196b4618ff6c39cba4cc34b4ae94d76c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 33/43] fix: crossings of axis-parallel segments are not lost
 to roundoff

---
 src/properties/intersection.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/properties/intersection.rs b/src/properties/intersection.rs
index 121f082..88c1d09 100644
--- a/src/properties/intersection.rs
+++ b/src/properties/intersection.rs
@@ -118,12 +118,23 @@ fn intersection_vertex(
         }
     }
 
+    /* Each segment has its ends at different sides of the other, without roundoff */
+    if orientation(v1, v2, v3) == orientation(v1, v2, v4)
+        || orientation(v3, v4, v1) == orientation(v3, v4, v2)
+    {
+        return None;
+    }
+
     let matrix_a_inv = matrix_a.try_inverse().unwrap();
 
     let intersection_matrix = matrix_a_inv * matrix_b;
 
-    let intersection_x = intersection_matrix[0] + v1.x;
-    let intersection_y = intersection_matrix[1] + v1.y;
+    let intersection_x = (intersection_matrix[0] + v1.x)
+        .max(bbox.origin.x)
+        .min(bbox.destin.x);
+    let intersection_y = (intersection_matrix[1] + v1.y)
+        .max(bbox.origin.y)
+        .min(bbox.destin.y);
 
     return Some(Vertex::new(intersection_x, intersection_y));
 }
-- 
2.43.0


From 0ae934075e19ba786cfaaf270e936d066c583ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 34/43] fix: vertices that encroach a pending subsegment are
 not forgotten

---
 src/planar/refine_procedures/encroachment.rs | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/planar/refine_procedures/encroachment.rs b/src/planar/refine_procedures/encroachment.rs
index 1718fc0..c258c91 100644
--- a/src/planar/refine_procedures/encroachment.rs
+++ b/src/planar/refine_procedures/encroachment.rs
@@ -140,23 +140,12 @@ pub fn unencroach_segment(
         let mut is_h1_encroached = false;
         let mut is_h2_encroached = false;
 
-        for v in encroaching_vertices
-            .iter()
-            .cloned()
-            .collect::<HashSet<Rc<Vertex>>>()
-            .iter()
-        {
-            let mut v_encroaches_any = false;
+        for v in encroaching_vertices.iter() {
             if h1.encroach(&v) == Continence::Inside {
                 is_h1_encroached = true;
-                v_encroaches_any = true;
             }
             if h2.encroach(&v) == Continence::Inside {
                 is_h2_encroached = true;
-                v_encroaches_any = true;
-            }
-            if !v_encroaches_any {
-                encroaching_vertices.remove(v);
             }
         }
 
-- 
2.43.0


From e040649e0f0c77077727761f02456e8f9c19202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 35/43] fix: split_irregular maps subsegments to the input
 segment

---
 src/planar/refine_procedures/triangle_split.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/planar/refine_procedures/triangle_split.rs b/src/planar/refine_procedures/triangle_split.rs
index 54c6977..480394c 100644
--- a/src/planar/refine_procedures/triangle_split.rs
+++ b/src/planar/refine_procedures/triangle_split.rs
@@ -157,10 +157,13 @@ pub fn split_irregular(
                             holes,
                         );
 
+                    let input_edge = split_map
+                        .remove(&encroached_edge)
+                        .unwrap_or(Rc::clone(&encroached_edge));
+
                     segment_contraints.remove(&encroached_edge);
-                    split_map.remove(&encroached_edge);
                     for subsegment in new_edges.iter() {
-                        split_map.insert(Rc::clone(subsegment), Rc::clone(&encroached_edge));
+                        split_map.insert(Rc::clone(subsegment), Rc::clone(&input_edge));
                         segment_contraints.insert(Rc::clone(subsegment));
                     }
 
-- 
2.43.0


From 03b908764c93444e77ec80fd63e775cd7501b491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:56 +0000
Subject: [PATCH 36/43] fix: continence of polylines which share edges isn't
 lost to roundoff

---
 src/elements/polyline.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 393d42a..bdbc0df 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -607,14 +607,27 @@ impl Polyline {
         let mut possible_continence: Option<Continence> = None;
         let mut possible_boundary: BoundaryInclusion = BoundaryInclusion::Open;
 
-        for critial_vertex in p2
+        let p1_edges = p1.into_edges();
+
+        /* Segments upon an edge of p1 are at its boundary, despite the roundoff of midpoints */
+        let midpoint_continence = |edge: &Rc<Edge>| {
+            let is_at_boundary = p1_edges
+                .iter()
+                .any(|p1_edge| p1_edge.contains(&edge.v1) && p1_edge.contains(&edge.v2));
+
+            if is_at_boundary {
+                return Continence::Boundary;
+            }
+            return p1.contains(&edge.midpoint()).unwrap();
+        };
+
+        for continence in p2
             .into_edges()
             .iter()
-            .map(|e| vec![Rc::new(e.midpoint()), Rc::clone(&e.v1)])
+            .map(|e| vec![midpoint_continence(e), p1.contains(&e.v1).unwrap()])
             .flatten()
-            .chain(p2.tail())
+            .chain(p2.tail().map(|tail| p1.contains(&tail).unwrap()))
         {
-            let continence = p1.contains(&critial_vertex).unwrap();
             if continence == Continence::Boundary {
                 if possible_boundary == BoundaryInclusion::Open {
                     possible_boundary = BoundaryInclusion::Closed;
@@ -647,8 +660,7 @@ impl Polyline {
         ));
 
         for edge in splited_edges.iter() {
-            let critial_vertex = Rc::new(edge.midpoint());
-            let continence = p1.contains(&critial_vertex).unwrap();
+            let continence = midpoint_continence(edge);
             if continence == Continence::Boundary {
                 continue;
             }
-- 
2.43.0


From fdccd8ab66140423d13b1ba94cb4691b34e1c23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:56 +0000
Subject: [PATCH 37/43] fix: midpoints of subsegments split the outer boundary
 despite roundoff

---
 src/planar/refine_procedures/encroachment.rs  | 59 +++++++++++++++++++
 .../triangulation_procedures/vertices.rs      | 32 +++++++---
 2 files changed, 83 insertions(+), 8 deletions(-)

diff --git a/src/planar/refine_procedures/encroachment.rs b/src/planar/refine_procedures/encroachment.rs
index c258c91..b79dd6f 100644
--- a/src/planar/refine_procedures/encroachment.rs
+++ b/src/planar/refine_procedures/encroachment.rs
@@ -213,6 +213,57 @@ pub fn has_sharp_angle(segments: &HashSet<Rc<Edge>>) -> bool {
     });
 }
 
+/**
+ * Includes the midpoint of a subsegment, and its ends, into the polyline it is part of.
+ * They would otherwise be apart from the polyline due to roundoff.
+ */
+fn subdivide(
+    polyline: &Rc<Polyline>,
+    segment: &Rc<Edge>,
+    segment_midpoint: &Rc<Vertex>,
+) -> Rc<Polyline> {
+    let is_part_of = |edge: &Rc<Edge>| {
+        vec![&segment.v1, &segment.v2].into_iter().all(|v| {
+            let length = edge.length();
+            let magnitude = v.x.abs().max(v.y.abs()).max(length);
+            let roundoff = 8.0 * std::f64::EPSILON * magnitude;
+            let position = dot(&edge.v1, &edge.v2, &edge.v1, v) / length;
+            let area = (edge.v2.x - edge.v1.x) * (v.y - edge.v1.y)
+                - (edge.v2.y - edge.v1.y) * (v.x - edge.v1.x);
+            return (area / length).abs() <= roundoff
+                && position >= -roundoff
+                && position <= length + roundoff;
+        })
+    };
+
+    let vertices = polyline
+        .into_edges()
+        .iter()
+        .map(|edge| {
+            if !is_part_of(edge) {
+                return vec![Rc::clone(&edge.v1)];
+            }
+            let mut vertices = vec![
+                Rc::clone(&edge.v1),
+                Rc::clone(&segment.v1),
+                Rc::clone(segment_midpoint),
+                Rc::clone(&segment.v2),
+            ];
+            vertices.sort_by(|va, vb| {
+                let first_position = dot(&edge.v1, &edge.v2, &edge.v1, va);
+                let second_position = dot(&edge.v1, &edge.v2, &edge.v1, vb);
+                return first_position.partial_cmp(&second_position).unwrap();
+            });
+            vertices.dedup();
+            vertices.retain(|v| v != &edge.v2);
+            return vertices;
+        })
+        .flatten()
+        .collect();
+
+    return Rc::new(Polyline::new_closed(vertices).unwrap());
+} /* end - subdivide */
+
 /**
  * Handles segment split,
  * solving possible conflicts to nearby triangles
@@ -240,6 +291,14 @@ fn split_segment(
     let half_1 = Rc::new(Edge::new(&segment.v1, &segment_midpoint));
     let half_2 = Rc::new(Edge::new(&segment_midpoint, &segment.v2));
 
+    let boundary = &boundary
+        .as_ref()
+        .map(|boundary| subdivide(boundary, segment, &segment_midpoint));
+    let holes = &holes
+        .iter()
+        .map(|hole| subdivide(hole, segment, &segment_midpoint))
+        .collect::<HashSet<Rc<Polyline>>>();
+
     /* Triangles which share the segment are the ones to be split */
     let adjacent_triangle = vec![Rc::clone(segment), Rc::new(segment.opposite())]
         .iter()
diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index 45df739..e7b6be5 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -105,6 +105,7 @@ pub fn solve_conflicts(
         let (e1, e2, e3) = next_conflicting_triangle.inner_edges();
 
         let mut pending_cavities: Vec<Rc<Edge>> = vec![e1, e2, e3];
+        let mut is_at_outer_edge = splits_outer_edge(&next_conflicting_triangle, &conflict_vertex);
 
         if !conflicting_vertices.is_empty() {
             /* reinclude conflicts */
@@ -125,15 +126,18 @@ pub fn solve_conflicts(
             let mut is_conflicting =
                 outer_triangle.encircles(&conflict_vertex) == Continence::Inside;
 
-            if outer_triangle.is_ghost() && !is_conflicting {
-                let outer_edge = Edge::new(&outer_triangle.v1, &outer_triangle.v2);
-                is_conflicting = outer_edge.contains(&conflict_vertex);
-                // Uncomment to debug
-                // println!(
-                //     "{} {} conflicting: {}",
-                //     outer_triangle, conflict_vertex, is_conflicting
-                // );
+            if splits_outer_edge(&outer_triangle, &conflict_vertex) {
+                is_conflicting = true;
+                is_at_outer_edge = true;
+            } else if outer_triangle.is_ghost() && is_at_outer_edge {
+                /* neighbor outer edges are not visible from the vertex, despite roundoff */
+                is_conflicting = false;
             }
+            // Uncomment to debug
+            // println!(
+            //     "{} {} conflicting: {}",
+            //     outer_triangle, conflict_vertex, is_conflicting
+            // );
 
             let is_constrained = segment_constraints.contains(&edge_to_outer_triangle)
                 || segment_constraints.contains(&edge);
@@ -303,6 +307,18 @@ fn is_separated(
             .any(|s| intersection(&center, vertex, &s.v1, &s.v2).is_some());
 } /* end - is_separated */
 
+/**
+ * Evaluates if the vertex splits the outer edge of a ghost triangle. The midpoint
+ * of the edge does it, despite roundoff.
+ */
+fn splits_outer_edge(triangle: &Rc<Triangle>, vertex: &Rc<Vertex>) -> bool {
+    if !triangle.is_ghost() {
+        return false;
+    }
+    let outer_edge = Edge::new(&triangle.v1, &triangle.v2);
+    return outer_edge.contains(vertex) || outer_edge.midpoint() == **vertex;
+} /* end - splits_outer_edge */
+
 /**
  * Finds the solid triangle which contains the vertex
  */
-- 
2.43.0


From 39a9f4ce8356df99ca54957bf9f6e93d3ac66296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:50 +0000
Subject: [PATCH 38/43] fix: in-circle test of nearly cocircular vertices is
 exact

---
 src/properties/continence.rs | 127 ++++++++++++++++++++++++++++++++---
 1 file changed, 116 insertions(+), 11 deletions(-)

diff --git a/src/properties/continence.rs b/src/properties/continence.rs
index aa55797..ef50c33 100644
--- a/src/properties/continence.rs
+++ b/src/properties/continence.rs
@@ -1,9 +1,5 @@
-extern crate nalgebra;
-
 use crate::elements::vertex::*;
 
-use nalgebra::Matrix3;
-
 #[derive(PartialEq, Debug)]
 pub enum Continence {
     Inside,
@@ -19,19 +15,28 @@ pub enum BoundaryInclusion {
 
 /**
  * Checks whether Vertex d is contained by the circumcircle defined by triangle(a,b,c).
- * Vertices a, b and c must be in counterclockwise order.
+ * Vertices a, b and c must be in counterclockwise order. Nearly cocircular vertices
+ * are evaluated exactly, otherwise roundoff leads to inconsistent triangulations.
  */
 pub fn continence(a: &Vertex, b: &Vertex, c: &Vertex, d: &Vertex) -> Continence {
     let (adx, ady) = (a.x - d.x, a.y - d.y);
     let (bdx, bdy) = (b.x - d.x, b.y - d.y);
     let (cdx, cdy) = (c.x - d.x, c.y - d.y);
-    let det = Matrix3::new(
-        adx, ady, adx.powi(2) + ady.powi(2),
-        bdx, bdy, bdx.powi(2) + bdy.powi(2),
-        cdx, cdy, cdx.powi(2) + cdy.powi(2),
-    ).determinant();
+    let ad = adx.powi(2) + ady.powi(2);
+    let bd = bdx.powi(2) + bdy.powi(2);
+    let cd = cdx.powi(2) + cdy.powi(2);
+
+    let mut det =
+        ad * (bdx * cdy - bdy * cdx) + bd * (cdx * ady - cdy * adx) + cd * (adx * bdy - ady * bdx);
+    let magnitude = ad * ((bdx * cdy).abs() + (bdy * cdx).abs())
+        + bd * ((cdx * ady).abs() + (cdy * adx).abs())
+        + cd * ((adx * bdy).abs() + (ady * bdx).abs());
+
+    if det.abs() <= 8.0 * std::f64::EPSILON * magnitude {
+        det = exact_determinant(a, b, c, d);
+    }
 
-    if float_cmp::approx_eq!(f64, det, 0.0, epsilon = 1.0E-14f64) {
+    if det == 0.0 {
         return Continence::Boundary;
     }
 
@@ -42,6 +47,106 @@ pub fn continence(a: &Vertex, b: &Vertex, c: &Vertex, d: &Vertex) -> Continence
     }
 }
 
+/**
+ * Value with the sign of the determinant, as if there were no roundoff
+ */
+fn exact_determinant(a: &Vertex, b: &Vertex, c: &Vertex, d: &Vertex) -> f64 {
+    let (adx, ady) = (difference(a.x, d.x), difference(a.y, d.y));
+    let (bdx, bdy) = (difference(b.x, d.x), difference(b.y, d.y));
+    let (cdx, cdy) = (difference(c.x, d.x), difference(c.y, d.y));
+
+    let norm = |x: &Vec<f64>, y: &Vec<f64>| sum(&product(x, x), &product(y, y));
+    let cross = |x1: &Vec<f64>, y1: &Vec<f64>, x2: &Vec<f64>, y2: &Vec<f64>| {
+        let negative: Vec<f64> = y1.iter().map(|y| -y).collect();
+        return sum(&product(x1, y2), &product(&negative, x2));
+    };
+
+    let det = sum(
+        &sum(
+            &product(&norm(&adx, &ady), &cross(&bdx, &bdy, &cdx, &cdy)),
+            &product(&norm(&bdx, &bdy), &cross(&cdx, &cdy, &adx, &ady)),
+        ),
+        &product(&norm(&cdx, &cdy), &cross(&adx, &ady, &bdx, &bdy)),
+    );
+    return *det.last().unwrap_or(&0.0);
+}
+
+/*
+ * Exact values are expansions: non overlapping components in increasing order of
+ * magnitude (Shewchuk, Adaptive Precision Floating-Point Arithmetic, 1997). The
+ * last component holds the sign of the value.
+ */
+
+/** Sum and its roundoff */
+fn two_sum(x: f64, y: f64) -> (f64, f64) {
+    let sum = x + y;
+    let y_virtual = sum - x;
+    return (sum, (x - (sum - y_virtual)) + (y - y_virtual));
+}
+
+/** Product and its roundoff */
+fn two_product(x: f64, y: f64) -> (f64, f64) {
+    let split = |v: f64| {
+        let big = 134217729.0 * v;
+        let high = big - (big - v);
+        return (high, v - high);
+    };
+    let product = x * y;
+    let (x_high, x_low) = split(x);
+    let (y_high, y_low) = split(y);
+    let error = ((product - x_high * y_high) - x_low * y_high) - x_high * y_low;
+    return (product, x_low * y_low - error);
+}
+
+/** Exact difference of two coordinates */
+fn difference(x: f64, y: f64) -> Vec<f64> {
+    let (value, roundoff) = two_sum(x, -y);
+    return vec![roundoff, value]
+        .into_iter()
+        .filter(|&component| component != 0.0)
+        .collect();
+}
+
+/** Exact sum of an expansion and a component */
+fn grow(expansion: &mut Vec<f64>, component: f64) {
+    let mut carry = component;
+    let mut length = 0;
+    for i in 0..expansion.len() {
+        let (value, roundoff) = two_sum(carry, expansion[i]);
+        carry = value;
+        if roundoff != 0.0 {
+            expansion[length] = roundoff;
+            length += 1;
+        }
+    }
+    expansion.truncate(length);
+    if carry != 0.0 {
+        expansion.push(carry);
+    }
+}
+
+/** Exact sum of expansions */
+fn sum(e: &Vec<f64>, f: &Vec<f64>) -> Vec<f64> {
+    let mut result = e.clone();
+    for &component in f.iter() {
+        grow(&mut result, component);
+    }
+    return result;
+}
+
+/** Exact product of expansions */
+fn product(e: &Vec<f64>, f: &Vec<f64>) -> Vec<f64> {
+    let mut result: Vec<f64> = Vec::new();
+    for &x in e.iter() {
+        for &y in f.iter() {
+            let (value, roundoff) = two_product(x, y);
+            grow(&mut result, roundoff);
+            grow(&mut result, value);
+        }
+    }
+    return result;
+}
+
 
 #[cfg(test)]
 mod in_circle {
-- 
2.43.0


From 7bae39b5fab4cdf6fc83b2ca100b8e70db183f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:16 +0000
Subject: [PATCH 39/43] fix: vertices beyond a nearly vertical segment are not
 at the boundary

---
 src/elements/polyline.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index bdbc0df..402e3f8 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -181,24 +181,26 @@ impl Polyline {
                 continue;
             }
 
-            match orientation(&v1, &v2, vertex) {
+            let is_counterclockwise = match orientation(&v1, &v2, vertex) {
+                Orientation::Counterclockwise => true,
+                Orientation::Clockwise => false,
                 Orientation::Colinear => {
-                    return Some(Continence::Boundary);
-                }
-                Orientation::Counterclockwise => {
-                    if v1.x == vertex.x || v2.x == vertex.x {
-                        parity = parity + 1;
-                    } else {
-                        parity = parity + 2;
-                    }
-                }
-                Orientation::Clockwise => {
-                    if v1.x == vertex.x || v2.x == vertex.x {
-                        parity = parity - 1;
-                    } else {
-                        parity = parity - 2;
+                    let is_above = vertex.y > v1.y.max(v2.y) + 1.0E-14f64;
+                    let is_below = vertex.y < v1.y.min(v2.y) - 1.0E-14f64;
+                    if !is_above && !is_below {
+                        return Some(Continence::Boundary);
                     }
+                    /* the segment is nearly vertical and doesn't reach the vertex */
+                    is_above == (v1.x < v2.x)
                 }
+            };
+
+            let is_at_end = v1.x == vertex.x || v2.x == vertex.x;
+            let weight = if is_at_end { 1 } else { 2 };
+            if is_counterclockwise {
+                parity = parity + weight;
+            } else {
+                parity = parity - weight;
             }
         }
 
-- 
2.43.0


From 8d871ec23984764b30d27733df0139379854e5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:54 +0000
Subject: [PATCH 40/43] fix: the midpoint rule of outer edges is restricted to
 an included boundary

---
 src/planar/triangulation_procedures/vertices.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index e7b6be5..9f70c1c 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -105,7 +105,7 @@ pub fn solve_conflicts(
         let (e1, e2, e3) = next_conflicting_triangle.inner_edges();
 
         let mut pending_cavities: Vec<Rc<Edge>> = vec![e1, e2, e3];
-        let mut is_at_outer_edge = splits_outer_edge(&next_conflicting_triangle, &conflict_vertex);
+        let mut is_at_outer_edge = splits_outer_edge(&next_conflicting_triangle, &conflict_vertex, boundary);
 
         if !conflicting_vertices.is_empty() {
             /* reinclude conflicts */
@@ -126,10 +126,10 @@ pub fn solve_conflicts(
             let mut is_conflicting =
                 outer_triangle.encircles(&conflict_vertex) == Continence::Inside;
 
-            if splits_outer_edge(&outer_triangle, &conflict_vertex) {
+            if splits_outer_edge(&outer_triangle, &conflict_vertex, boundary) {
                 is_conflicting = true;
                 is_at_outer_edge = true;
-            } else if outer_triangle.is_ghost() && is_at_outer_edge {
+            } else if outer_triangle.is_ghost() && is_at_outer_edge && boundary.is_some() {
                 /* neighbor outer edges are not visible from the vertex, despite roundoff */
                 is_conflicting = false;
             }
@@ -309,14 +309,19 @@ fn is_separated(
 
 /**
  * Evaluates if the vertex splits the outer edge of a ghost triangle. The midpoint
- * of the edge does it, despite roundoff.
+ * of an edge of the boundary does it, despite roundoff.
  */
-fn splits_outer_edge(triangle: &Rc<Triangle>, vertex: &Rc<Vertex>) -> bool {
+fn splits_outer_edge(
+    triangle: &Rc<Triangle>,
+    vertex: &Rc<Vertex>,
+    boundary: &Option<Rc<Polyline>>,
+) -> bool {
     if !triangle.is_ghost() {
         return false;
     }
     let outer_edge = Edge::new(&triangle.v1, &triangle.v2);
-    return outer_edge.contains(vertex) || outer_edge.midpoint() == **vertex;
+    return outer_edge.contains(vertex)
+        || boundary.is_some() && outer_edge.midpoint() == **vertex;
 } /* end - splits_outer_edge */
 
 /**
-- 
2.43.0


From 140a39b609fb4144eafd097d395874c629966758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:21 +0000
Subject: [PATCH 41/43] fix: vertices aligned with an outer edge aren't visible
 from it despite roundoff

---
 .../triangulation_procedures/vertices.rs      | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/planar/triangulation_procedures/vertices.rs b/src/planar/triangulation_procedures/vertices.rs
index 9f70c1c..40a5ec4 100644
--- a/src/planar/triangulation_procedures/vertices.rs
+++ b/src/planar/triangulation_procedures/vertices.rs
@@ -1,6 +1,6 @@
 use crate::elements::{edge::*, polyline::*, triangle::*, vertex::*};
 use crate::planar::{triangulation::*, triangulation_procedures};
-use crate::properties::{continence::*, intersection::*, orientation::*};
+use crate::properties::{continence::*, distance::*, dot::*, intersection::*, orientation::*};
 
 use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
@@ -324,6 +324,17 @@ fn splits_outer_edge(
         || boundary.is_some() && outer_edge.midpoint() == **vertex;
 } /* end - splits_outer_edge */
 
+/**
+ * Evaluates if the vertex is at the line through an edge, despite roundoff
+ */
+fn is_aligned(v1: &Vertex, v2: &Vertex, vertex: &Vertex) -> bool {
+    let (dx, dy) = (v2.x - v1.x, v2.y - v1.y);
+    let area = dx * (vertex.y - v1.y) - dy * (vertex.x - v1.x);
+    let magnitude = vertex.x.abs().max(vertex.y.abs()).max(v1.x.abs().max(v1.y.abs()));
+    let length = distance(v1, v2).max(distance(v1, vertex));
+    return area.abs() <= 8.0 * std::f64::EPSILON * magnitude * length;
+} /* end - is_aligned */
+
 /**
  * Finds the solid triangle which contains the vertex
  */
@@ -351,6 +362,14 @@ fn may_insert_triangle(
 ) -> bool {
     let p2: Polyline;
     if triangle.is_ghost() {
+        /* vertices beyond the ends of an aligned edge may be visible from it due to roundoff */
+        if boundary.is_some()
+            && is_aligned(&triangle.v1, &triangle.v2, target_vertex)
+            && dot(target_vertex, &triangle.v1, target_vertex, &triangle.v2) > 0.0
+        {
+            return false;
+        }
+
         p2 = Polyline::new_closed(vec![
             Rc::clone(&triangle.v1),
             Rc::clone(&triangle.v2),
-- 
2.43.0


From 738ca5d4f85d5c14dedeb2e1e99e14f1ca69ac0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:03 +0000
Subject: [PATCH 42/43] fix: roundoff of subsegments doesn't make an angle of
 60 degrees sharp

---
 src/planar/refine_procedures/encroachment.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/planar/refine_procedures/encroachment.rs b/src/planar/refine_procedures/encroachment.rs
index b79dd6f..94baebd 100644
--- a/src/planar/refine_procedures/encroachment.rs
+++ b/src/planar/refine_procedures/encroachment.rs
@@ -207,7 +207,8 @@ pub fn has_sharp_angle(segments: &HashSet<Rc<Edge>>) -> bool {
         ends.iter().enumerate().any(|(index, v1)| {
             ends.iter().skip(index + 1).any(|v2| {
                 let cos = dot(v, v1, v, v2) / (distance(v, v1) * distance(v, v2));
-                return v1 != v2 && cos > 0.5 + 1.0E-14f64;
+                /* angles of subsegments vary due to roundoff */
+                return v1 != v2 && cos > 0.5 + 1.0E-9f64;
             })
         })
     });
-- 
2.43.0


From ab4bac0dcc8e36a575e1c3dca2b1eddcefe90203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 43/43] fix: boolean operations of polylines with rounded
 vertices

---
 src/elements/polyline.rs | 56 ++++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/src/elements/polyline.rs b/src/elements/polyline.rs
index 402e3f8..bf1c673 100644
--- a/src/elements/polyline.rs
+++ b/src/elements/polyline.rs
@@ -239,7 +239,7 @@ impl Polyline {
 
             /* Filters by continence in the other polyline, common boundary is read once */
             for (v1, v2) in p1_segments.iter().cloned() {
-                let is_used = match p2.contains(&midpoint(&v1, &v2)).unwrap() {
+                let is_used = match piece_continence(&v1, &v2, p2, &p2_segments) {
                     Continence::Inside => true,
                     Continence::Outside => false,
                     Continence::Boundary => {
@@ -252,8 +252,8 @@ impl Polyline {
                     unused_segments.insert((v1, v2));
                 }
             }
-            for (v1, v2) in p2_segments {
-                if p1.contains(&midpoint(&v1, &v2)).unwrap() == Continence::Inside {
+            for (v1, v2) in p2_segments.iter().cloned() {
+                if piece_continence(&v1, &v2, p1, &p1_segments) == Continence::Inside {
                     possible_segments.insert((v1, v2));
                 } else if !possible_segments.contains(&(Rc::clone(&v1), Rc::clone(&v2))) {
                     unused_segments.insert((v1, v2));
@@ -362,7 +362,7 @@ impl Polyline {
 
         /* Filters by continence in the other polyline, common boundary is read once */
         for (v1, v2) in p1_segments.iter().cloned() {
-            let is_used = match p2.contains(&midpoint(&v1, &v2)).unwrap() {
+            let is_used = match piece_continence(&v1, &v2, p2, &p2_segments) {
                 Continence::Inside => false,
                 Continence::Outside => true,
                 Continence::Boundary => p2_segments.contains(&(Rc::clone(&v1), Rc::clone(&v2))),
@@ -373,8 +373,8 @@ impl Polyline {
                 unused_segments.insert((v1, v2));
             }
         }
-        for (v1, v2) in p2_segments {
-            if p1.contains(&midpoint(&v1, &v2)).unwrap() == Continence::Outside {
+        for (v1, v2) in p2_segments.iter().cloned() {
+            if piece_continence(&v1, &v2, p1, &p1_segments) == Continence::Outside {
                 possible_segments.insert((v1, v2));
             } else if !possible_segments.contains(&(Rc::clone(&v1), Rc::clone(&v2))) {
                 unused_segments.insert((v1, v2));
@@ -505,7 +505,7 @@ impl Polyline {
 
         /* Filters by continence in the other polyline, common boundary is read once */
         for (v1, v2) in p1_segments.iter().cloned() {
-            let is_used = match p2.contains(&midpoint(&v1, &v2)).unwrap() {
+            let is_used = match piece_continence(&v1, &v2, p2, &p2_segments) {
                 Continence::Inside => false,
                 Continence::Outside => true,
                 Continence::Boundary => p2_segments.contains(&(Rc::clone(&v1), Rc::clone(&v2))),
@@ -516,8 +516,8 @@ impl Polyline {
                 unused_segments.insert((v1, v2));
             }
         }
-        for (v1, v2) in p2_segments {
-            if p1.contains(&midpoint(&v1, &v2)).unwrap() == Continence::Inside {
+        for (v1, v2) in p2_segments.iter().cloned() {
+            if piece_continence(&v1, &v2, p1, &p1_segments) == Continence::Inside {
                 possible_segments.insert((v1, v2));
             } else if !possible_segments.contains(&(Rc::clone(&v1), Rc::clone(&v2))) {
                 unused_segments.insert((v1, v2));
@@ -784,6 +784,40 @@ pub fn vertex_pairs(vertex_list: &Vec<Rc<Vertex>>, opened: bool) -> Vec<(Rc<Vert
     return pair_list;
 }
 
+/**
+ * Continence of a segment, which was split mutually. Common segments are at the
+ * boundary, despite the roundoff of midpoints.
+ */
+fn piece_continence(
+    v1: &Rc<Vertex>,
+    v2: &Rc<Vertex>,
+    polyline: &Polyline,
+    polyline_segments: &Vec<(Rc<Vertex>, Rc<Vertex>)>,
+) -> Continence {
+    if polyline_segments
+        .iter()
+        .any(|(v3, v4)| (v1 == v3 && v2 == v4) || (v1 == v4 && v2 == v3))
+    {
+        return Continence::Boundary;
+    }
+    return polyline.contains(&midpoint(v1, v2)).unwrap();
+}
+
+/**
+ * Evaluates if the vertex is upon the edge, despite the roundoff of prior intersections.
+ */
+fn is_upon(edge: &Edge, vertex: &Vertex) -> bool {
+    let length = edge.length();
+    let magnitude = vertex.x.abs().max(vertex.y.abs()).max(length);
+    let roundoff = 8.0 * std::f64::EPSILON * magnitude;
+
+    let area = (edge.v2.x - edge.v1.x) * (vertex.y - edge.v1.y)
+        - (edge.v2.y - edge.v1.y) * (vertex.x - edge.v1.x);
+    let position = dot(&edge.v1, &edge.v2, &edge.v1, vertex);
+    return edge.contains(vertex)
+        || (area.abs() <= roundoff * length && position > 0.0 && position < length * length);
+}
+
 /**
  * Splits the segments of two polylines where they meet each other.
  */
@@ -803,9 +837,9 @@ fn split_mutually(
             let e2 = Edge::new(v3, v4);
 
             let e1_cuts: Vec<&Rc<Vertex>> =
-                vec![v3, v4].into_iter().filter(|v| e1.contains(v)).collect();
+                vec![v3, v4].into_iter().filter(|v| is_upon(&e1, v)).collect();
             let e2_cuts: Vec<&Rc<Vertex>> =
-                vec![v1, v2].into_iter().filter(|v| e2.contains(v)).collect();
+                vec![v1, v2].into_iter().filter(|v| is_upon(&e2, v)).collect();
 
             if e1_cuts.is_empty() && e2_cuts.is_empty() {
                 if let Some(vertex) = intersection(v1, v2, v3, v4) {
-- 
2.43.0


From 5cc506993ff7ffc09dd5c6fe0211b43da3e2a0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:12 +0000
Subject: [PATCH 01/23] fix: a degenerate line segment contains only its own
 point

---
 src/algorithm/location/point_2_line_segment_2.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/algorithm/location/point_2_line_segment_2.rs b/src/algorithm/location/point_2_line_segment_2.rs
index a99ba20..8b6be1a 100644
--- a/src/algorithm/location/point_2_line_segment_2.rs
+++ b/src/algorithm/location/point_2_line_segment_2.rs
@@ -19,6 +19,13 @@ pub fn locate_point_2_line_segment_2<T: NumberType>(
 ) -> Point2Segment2Location {
     let source = segment_2.source();
     let target = segment_2.target();
+    if source.equals(&target) {
+        return if point_2.equals(&source) {
+            Point2Segment2Location::On
+        } else {
+            Point2Segment2Location::Collinear
+        };
+    }
     let vec_ab = target - source;
     let vec_ac = *point_2 - source;
     let area = vec_ab.cross(&vec_ac);
-- 
2.43.0


From 7f8b3452159410382de36662b7a3dc7381c8b1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:08 +0000
Subject: [PATCH 02/23] fix: locate points in non-convex polygons by crossing
 parity

---
 src/algorithm/location/point_2_polygon_2.rs | 53 ++++++++++-----------
 1 file changed, 24 insertions(+), 29 deletions(-)

diff --git a/src/algorithm/location/point_2_polygon_2.rs b/src/algorithm/location/point_2_polygon_2.rs
index 95568a6..8c7eb17 100644
--- a/src/algorithm/location/point_2_polygon_2.rs
+++ b/src/algorithm/location/point_2_polygon_2.rs
@@ -1,4 +1,6 @@
-use crate::kernel::{number_type::NumberType, point_2::Point2, polygon_2::Polygon2};
+use crate::kernel::{
+    number_type::NumberType, point_2::Point2, polygon_2::Polygon2, segment_2::Segment2,
+};
 
 use super::{
     location_enum::{Point2Polygon2Location, Point2Segment2Location},
@@ -39,37 +41,30 @@ pub fn locate_point_2_polygon_2<T: NumberType>(
     point: &Point2<T>,
     polygon: &Polygon2<T>,
 ) -> Point2Polygon2Location {
-    let edges = polygon.edges();
-    let mut location = None;
-    for edge in &edges {
-        let edge_location = locate_point_2_line_segment_2(point, edge);
-        match edge_location {
+    let mut inside = false;
+    for edge in &polygon.edges() {
+        let source = edge.source();
+        let target = edge.target();
+        match locate_point_2_line_segment_2(point, edge) {
             Point2Segment2Location::On => return Point2Polygon2Location::On,
-            Point2Segment2Location::Left => match location {
-                Some(Point2Segment2Location::Right) => {
-                    return Point2Polygon2Location::Outside;
-                }
-                None => {
-                    location = Some(Point2Segment2Location::Left);
-                }
-                _ => {}
-            },
-            Point2Segment2Location::Right => match location {
-                Some(Point2Segment2Location::Left) => {
-                    return Point2Polygon2Location::Outside;
-                }
-                None => {
-                    location = Some(Point2Segment2Location::Right);
-                }
-                _ => {}
-            },
+            // the edge goes upwards and crosses the horizontal ray starting at the point
+            Point2Segment2Location::Left
+                if source.y() <= point.y() && point.y() < target.y() =>
+            {
+                inside = !inside;
+            }
+            // the edge goes downwards and crosses the horizontal ray starting at the point
+            Point2Segment2Location::Right
+                if target.y() <= point.y() && point.y() < source.y() =>
+            {
+                inside = !inside;
+            }
             _ => {}
         }
     }
-    match location {
-        None => return Point2Polygon2Location::Outside,
-        _ => {
-            return Point2Polygon2Location::Inside;
-        }
+    if inside {
+        Point2Polygon2Location::Inside
+    } else {
+        Point2Polygon2Location::Outside
     }
 }
-- 
2.43.0


From 22569abe6a358aba1528e49537420522072a0bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:16 +0000
Subject: [PATCH 03/23] fix: collinear disjoint segments do not intersect

---
 .../intersection/line_segment_2_line_segment_2.rs    | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/line_segment_2_line_segment_2.rs b/src/algorithm/intersection/line_segment_2_line_segment_2.rs
index eeb5f51..d941418 100644
--- a/src/algorithm/intersection/line_segment_2_line_segment_2.rs
+++ b/src/algorithm/intersection/line_segment_2_line_segment_2.rs
@@ -14,7 +14,17 @@ pub fn is_line_segment_2_line_segment_2_intersected<T: NumberType>(
     let ca = line_segment_a.source() - line_segment_b.source();
     let cb = line_segment_a.target() - line_segment_b.source();
     let eps = T::default_eps();
-    ab.cross(&ac) * ab.cross(&ad) < eps && cd.cross(&ca) * cd.cross(&cb) < eps
+    if !(ab.cross(&ac) * ab.cross(&ad) < eps && cd.cross(&ca) * cd.cross(&cb) < eps) {
+        return false;
+    }
+    if ab.cross(&cd).equals(T::zero()) {
+        // collinear or degenerate segments meet only if one contains an end of the other
+        return is_point_2_on_line_segment_2(&line_segment_a.source(), line_segment_b)
+            || is_point_2_on_line_segment_2(&line_segment_a.target(), line_segment_b)
+            || is_point_2_on_line_segment_2(&line_segment_b.source(), line_segment_a)
+            || is_point_2_on_line_segment_2(&line_segment_b.target(), line_segment_a);
+    }
+    true
 }
 
 pub fn line_segment_2_line_segment_2_intersection<T: NumberType>(
-- 
2.43.0


From 1938b63f15ce67c19a849063403bd2ad677731d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:48 +0000
Subject: [PATCH 04/23] fix: report all intersections of a line segment with a
 ray

---
 .../intersection/line_segment_2_ray_2.rs      | 83 ++++++-------------
 1 file changed, 25 insertions(+), 58 deletions(-)

diff --git a/src/algorithm/intersection/line_segment_2_ray_2.rs b/src/algorithm/intersection/line_segment_2_ray_2.rs
index 124fb6a..979a91e 100644
--- a/src/algorithm/intersection/line_segment_2_ray_2.rs
+++ b/src/algorithm/intersection/line_segment_2_ray_2.rs
@@ -1,7 +1,7 @@
 use crate::{
     algorithm::location::{
-        location_enum::Point2Ray2Location,
-        point_2_ray_2::{is_point_2_on_ray_2, locate_point_2_ray_2},
+        location_enum::Point2Ray2Location, point_2_line_segment_2::is_point_2_on_line_segment_2,
+        point_2_ray_2::locate_point_2_ray_2,
     },
     kernel::{
         line_segment_2::LineSegment2, number_type::NumberType, point_2::Point2, ray_2::Ray2,
@@ -13,12 +13,7 @@ pub fn is_line_segment_2_ray_2_intersected<T: NumberType>(
     line_segment: &LineSegment2<T>,
     ray_segment: &Ray2<T>,
 ) -> bool {
-    let v1 = line_segment.target() - ray_segment.origin();
-    let v2 = line_segment.source() - ray_segment.origin();
-    let cross1 = ray_segment.direction().cross(&v1);
-    let cross2 = ray_segment.direction().cross(&v2);
-    let eps = T::default_eps();
-    cross1 * cross2 <= eps && cross1 >= -eps
+    !line_segment_2_ray_2_intersection(line_segment, ray_segment).is_empty()
 }
 
 pub fn line_segment_2_ray_2_intersection<T: NumberType>(
@@ -27,62 +22,34 @@ pub fn line_segment_2_ray_2_intersection<T: NumberType>(
 ) -> Vec<Point2<T>> {
     let mut result = Vec::new();
     let source = line_segment.source();
-
-    let source_relation = locate_point_2_ray_2(&source, ray_segment);
-    match source_relation {
-        Point2Ray2Location::On => {
-            result.push(source);
-        }
-        _ => {}
-    }
-
     let target = line_segment.target();
+    let origin = ray_segment.origin();
+    let source_relation = locate_point_2_ray_2(&source, ray_segment);
     let target_relation = locate_point_2_ray_2(&target, ray_segment);
-    match target_relation {
-        Point2Ray2Location::On => {
-            result.push(target);
-            return result;
-        }
-        Point2Ray2Location::Collinear => {
-            return result;
-        }
-        _ => {
-            if target_relation == source_relation {
-                return result;
-            } else {
-                match source_relation {
-                    Point2Ray2Location::On => {
-                        return result;
-                    }
-                    Point2Ray2Location::Collinear => {
-                        return result;
-                    }
-                    _ => {
-                        let v1 = target - source;
-                        let v2 = ray_segment.origin() - source;
-                        let v3 = ray_segment.origin() - target;
-                        let cross1 = v1.cross(&v2);
-                        let cross2 = v1.cross(&v3);
-                        if cross1.equals(cross2) {
-                            let point = source + target;
-                            let point = point / T::from_f64(2.0);
-                            let point = Point2::new(point.x(), point.y());
-                            if is_point_2_on_ray_2(&point, ray_segment) {
-                                result.push(point);
-                            }
-                            return result;
-                        } else {
-                            let t = cross1 / (cross1 - cross2);
-                            let point =
-                                ray_segment.origin().get_vector() + ray_segment.direction() * t;
-                            result.push(Point2::new(point.x(), point.y()));
-                        }
-                        return result;
-                    }
+    if source_relation == Point2Ray2Location::On {
+        result.push(source);
+    }
+    if target_relation == Point2Ray2Location::On && !result.contains(&target) {
+        result.push(target);
+    }
+    if is_point_2_on_line_segment_2(&origin, line_segment) && !result.contains(&origin) {
+        result.push(origin);
+    }
+    if result.is_empty() {
+        match (source_relation, target_relation) {
+            (Point2Ray2Location::Left, Point2Ray2Location::Right)
+            | (Point2Ray2Location::Right, Point2Ray2Location::Left) => {
+                let vector = target - source;
+                let t = (source - origin).cross(&vector) / ray_segment.direction().cross(&vector);
+                if t > T::zero() {
+                    let point = origin.get_vector() + ray_segment.direction() * t;
+                    result.push(Point2::new(point.x(), point.y()));
                 }
             }
+            _ => {}
         }
     }
+    result
 }
 
 #[cfg(test)]
-- 
2.43.0


From dfccb0d47bb297b8caba6472778c6be1623b60bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:21 +0000
Subject: [PATCH 05/23] fix: a segment leaving a circle intersects it

---
 src/algorithm/intersection/line_segment_2_circle_segment_2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/intersection/line_segment_2_circle_segment_2.rs b/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
index eb58e14..2fe9fcc 100644
--- a/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
+++ b/src/algorithm/intersection/line_segment_2_circle_segment_2.rs
@@ -22,8 +22,8 @@ pub fn is_line_segment_2_circle_segment_2_intersected<T: NumberType>(
         && target_relation == Point2Circle2Location::Inside
     {
         return false;
-    } else if source_relation == Point2Circle2Location::On
-        || target_relation == Point2Circle2Location::On
+    } else if source_relation != Point2Circle2Location::Outside
+        || target_relation != Point2Circle2Location::Outside
     {
         return true;
     } else {
-- 
2.43.0


From 1bc6c84d17a8e9114201f6cb6510b4e6270c3bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:17 +0000
Subject: [PATCH 06/23] fix: an arc and a circle can be tested for intersection

---
 src/algorithm/intersection/segment_2_segment_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/segment_2_segment_2.rs b/src/algorithm/intersection/segment_2_segment_2.rs
index 9218a53..4a4436a 100644
--- a/src/algorithm/intersection/segment_2_segment_2.rs
+++ b/src/algorithm/intersection/segment_2_segment_2.rs
@@ -61,7 +61,7 @@ pub fn is_segment_2_segment_2_intersected<T: NumberType>(
                 Segment2Type::LineSegment2 => {
                     is_line_segment_2_arc_segment_2_intersected(segment_b, segment_a)
                 }
-                _ => is_arc_segment_2_arc_segment_2_intersected(segment_b, segment_a),
+                _ => is_circle_segment_2_arc_segment_2_intersected(segment_b, segment_a),
             },
         }
     }
-- 
2.43.0


From db88085fb594030e90361b546e87349ca85b8a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 07/23] hook: data structures are visible under
 cfg(rcgal_verif)

---
 src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 05b86a5..9213237 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,5 +1,10 @@
 pub mod algorithm;
+#[allow(unexpected_cfgs)]
+#[cfg(not(rcgal_verif))]
 mod data_structure;
+#[allow(unexpected_cfgs)]
+#[cfg(rcgal_verif)]
+pub mod data_structure;
 pub mod kernel;
 #[cfg(target_arch = "wasm32")]
 mod wasm;
-- 
2.43.0


From 1e663e4bf0a0de6411efd401707cb331a58e7ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 08/23] fix: project a point onto a slanted line
 perpendicularly

---
 src/algorithm/projection/point_2_line_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/projection/point_2_line_2.rs b/src/algorithm/projection/point_2_line_2.rs
index 820efb3..6a52612 100644
--- a/src/algorithm/projection/point_2_line_2.rs
+++ b/src/algorithm/projection/point_2_line_2.rs
@@ -15,7 +15,7 @@ pub fn point_2_project_line_2<T: NumberType>(point: &Point2<T>, line: &Line2<T>)
         let y = -c / b;
         return Point2::new(point.x(), y);
     } else {
-        let t = a / b;
+        let t = b / a;
         let c = point.y() - t * point.x();
         let line_vertical = Line2::new(t, T::from_f64(-1.0), c);
         let intersection = line_2_line_2_intersection(line, &line_vertical);
-- 
2.43.0


From 42f4df12f010b858851f734bab8998351d25e405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 09/23] fix: the projection onto a degenerate segment is its
 point

---
 src/algorithm/projection/point_2_line_segment_2.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/algorithm/projection/point_2_line_segment_2.rs b/src/algorithm/projection/point_2_line_segment_2.rs
index 8e44e5a..d6d8223 100644
--- a/src/algorithm/projection/point_2_line_segment_2.rs
+++ b/src/algorithm/projection/point_2_line_segment_2.rs
@@ -4,6 +4,9 @@ pub fn point_2_project_line_segment_2<T: NumberType>(
     point: &Point2<T>,
     segment: &impl Segment2<T>,
 ) -> Option<Point2<T>> {
+    if segment.source().equals(&segment.target()) {
+        return Some(segment.source());
+    }
     let v = segment.target() - segment.source();
     let w = *point - segment.source();
     let c1 = w.dot(&v);
-- 
2.43.0


From 5ebebf9416c9bf4f3ab506a2a15b55d7e0390382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 10/23] fix: the convex hull of a single point is that point

---
 src/algorithm/convex_hull/convex_hull_2.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/algorithm/convex_hull/convex_hull_2.rs b/src/algorithm/convex_hull/convex_hull_2.rs
index 33418e2..981ce68 100644
--- a/src/algorithm/convex_hull/convex_hull_2.rs
+++ b/src/algorithm/convex_hull/convex_hull_2.rs
@@ -17,6 +17,11 @@ impl<T: NumberType> ConvexHull2<T> {
                 a.y().partial_cmp(&b.y()).unwrap()
             }
         });
+        let mut points = self.points.clone();
+        points.dedup();
+        if points.len() < 2 {
+            return points;
+        }
         let mut lower: Vec<Point2<T>> = vec![];
         let mut upper: Vec<Point2<T>> = vec![];
         for p in self.points.iter() {
-- 
2.43.0


From d968f54ece8e477b027262d2743adaf8bad3620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 11/23] fix: splitting an arc covers exactly the arc

---
 src/kernel/arc_segment_2.rs | 46 ++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/kernel/arc_segment_2.rs b/src/kernel/arc_segment_2.rs
index c251c36..ac04f7f 100644
--- a/src/kernel/arc_segment_2.rs
+++ b/src/kernel/arc_segment_2.rs
@@ -40,30 +40,40 @@ impl<T: NumberType> ArcSegment2<T> {
     pub fn monotone(&self) -> Vec<ArcSegment2<T>> {
         let mut arcs = Vec::new();
         let pi = T::pi();
-        let mut radians = Vec::new();
-        let mut end_pi = T::zero();
-        let mut min_flag = false;
-        while !end_pi.equals(self.target_radian) && end_pi < self.target_radian {
-            if !min_flag && end_pi > self.source_radian {
-                min_flag = true;
-                if end_pi > self.source_radian {
-                    radians.push(end_pi - pi);
-                    if !self.source_radian.equals(end_pi - pi) {
-                        radians.push(self.source_radian.clone());
-                    }
-                }
-            }
-            if end_pi.equals(self.source_radian) || end_pi > self.source_radian {
-                radians.push(end_pi.clone());
+        let two_pi = pi * T::from_f64(2.0);
+        // 0 <= source < 2 * pi and source < target <= source + 2 * pi
+        let mut source = self.source_radian;
+        while source < T::zero() && !source.equals(T::zero()) {
+            source = source + two_pi;
+        }
+        while source > two_pi || source.equals(two_pi) {
+            source = source - two_pi;
+        }
+        let mut target = self.target_radian;
+        while target < source || target.equals(source) {
+            target = target + two_pi;
+        }
+        while target > source + two_pi && !target.equals(source + two_pi) {
+            target = target - two_pi;
+        }
+        let mut radians = vec![source];
+        let mut end_pi = pi;
+        while end_pi < target && !end_pi.equals(target) {
+            if end_pi > source && !end_pi.equals(source) {
+                radians.push(end_pi);
             }
             end_pi = end_pi + pi;
         }
-        radians.push(self.target_radian.clone());
+        radians.push(target);
         for i in 0..radians.len() - 1 {
+            let mut turns = T::zero();
+            if radians[i] > two_pi || radians[i].equals(two_pi) {
+                turns = two_pi;
+            }
             arcs.push(ArcSegment2::new(
                 self.support,
-                radians[i].clone(),
-                radians[i + 1].clone(),
+                radians[i] - turns,
+                radians[i + 1] - turns,
             ));
         }
         arcs
-- 
2.43.0


From a2863fb1433521ea50b71376be73bbf791a569ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 12/23] fix: deleting the only element empties the circular
 list

---
 src/data_structure/circular_doubly_linked_list.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/data_structure/circular_doubly_linked_list.rs b/src/data_structure/circular_doubly_linked_list.rs
index 76b2d85..545e882 100644
--- a/src/data_structure/circular_doubly_linked_list.rs
+++ b/src/data_structure/circular_doubly_linked_list.rs
@@ -90,7 +90,10 @@ impl<T: Clone + Copy> CircularDoubleLinkedList<T> {
                         self.tail = None;
                     }
                 }
-                if Rc::ptr_eq(&node, &self.head().unwrap()) {
+                if self.length == 1 {
+                    self.head = None;
+                    self.tail = None;
+                } else if Rc::ptr_eq(&node, &self.head().unwrap()) {
                     self.head = node.borrow().next.clone();
                 } else if Rc::ptr_eq(&node, &self.tail().unwrap()) {
                     self.tail = node.borrow().prev.clone();
-- 
2.43.0


From 60556f1d3614095640af056f2e43ebce7086cd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:28 +0000
Subject: [PATCH 13/23] fix: deleting from the tree keeps equal elements apart

---
 src/data_structure/avl_tree.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/data_structure/avl_tree.rs b/src/data_structure/avl_tree.rs
index 6a21925..3b86a7e 100644
--- a/src/data_structure/avl_tree.rs
+++ b/src/data_structure/avl_tree.rs
@@ -80,17 +80,10 @@ where
                         }
                     }
                 } else {
-                    let mut temp = node.borrow().right.clone().unwrap();
-                    loop {
-                        let temp_left = temp.borrow().left.clone();
-                        if temp_left.is_none() {
-                            break;
-                        }
-                        temp = temp_left.unwrap();
-                    }
-                    let right = node.borrow().right.clone();
-                    node.borrow_mut().right = Self::delete(right, temp.borrow().value);
-                    node.borrow_mut().value = temp.borrow().value;
+                    let right = node.borrow().right.clone().unwrap();
+                    let (right, value) = Self::delete_min(right);
+                    node.borrow_mut().right = right;
+                    node.borrow_mut().value = value;
                 }
                 Self::update_height(Some(node.clone()));
                 node = Self::rotate(Some(node)).unwrap();
@@ -100,6 +93,22 @@ where
         }
     }
 
+    fn delete_min(node: Rc<RefCell<AVLTreeNode<T>>>) -> (OptionNodeRc<T>, T) {
+        let left = node.borrow().left.clone();
+        match left {
+            Some(left) => {
+                let (left, value) = Self::delete_min(left);
+                node.borrow_mut().left = left;
+                Self::update_height(Some(node.clone()));
+                (Self::rotate(Some(node)), value)
+            }
+            None => {
+                let node = node.borrow();
+                (node.right.clone(), node.value)
+            }
+        }
+    }
+
     fn update_height(node: OptionNodeRc<T>) {
         if let Some(node) = node {
             let left = node.borrow().left.clone();
-- 
2.43.0


From 309b6744441a1c1d2e2a0bdc95b87ea4a4be26f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:50 +0000
Subject: [PATCH 14/23] fix: the sweep finds the segment above a group with
 repeated segments

---
 src/algorithm/intersection/sweep_segment_2_intersection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 4f2c14f..c376bce 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -489,7 +489,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         segment: &StatusNodeSegment<T>,
         mid_order_traversal: &Vec<StatusNode<T>>,
     ) -> Option<StatusNodeSegment<T>> {
-        for (index, status_node) in mid_order_traversal.iter().enumerate() {
+        for (index, status_node) in mid_order_traversal.iter().enumerate().rev() {
             let mut status_node_segment = status_node.segment.clone();
             match status_node_segment {
                 StatusNodeSegment::LineSegment2(line_segment) => match segment {
-- 
2.43.0


From 2cc9df4fdd8e5e3830a5116708304d4d0c5252e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 15/23] fix: the far end of a line segment is on it within the
 tolerance

---
 src/algorithm/location/point_2_line_segment_2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/location/point_2_line_segment_2.rs b/src/algorithm/location/point_2_line_segment_2.rs
index 8b6be1a..b437927 100644
--- a/src/algorithm/location/point_2_line_segment_2.rs
+++ b/src/algorithm/location/point_2_line_segment_2.rs
@@ -36,7 +36,7 @@ pub fn locate_point_2_line_segment_2<T: NumberType>(
     } else {
         let dot_ab_ac = vec_ab.dot(&vec_ac);
         let dot_ab_ab = vec_ab.dot(&vec_ab);
-        if dot_ab_ac <= dot_ab_ab && dot_ab_ac >= -T::default_eps() {
+        if dot_ab_ac <= dot_ab_ab + T::default_eps() && dot_ab_ac >= -T::default_eps() {
             Point2Segment2Location::On
         } else {
             Point2Segment2Location::Collinear
-- 
2.43.0


From 2c37fa39b14fc6a4f2b60e9db912dc2e23e1faa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 16/23] fix: the sweep finds all points at which curved
 segments meet again

---
 .../sweep_segment_2_intersection.rs           | 26 +++++++++----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index c376bce..1a056be 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -280,9 +280,12 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
                 None => {}
             }
         } else {
-            let segment_left = self
-                .get_left_right_in_u_c(&source_is_p, &contain_p, event_point)
-                .0;
+            let u_c = self.get_sorted_u_c(&source_is_p, &contain_p, event_point);
+            // curved segments that meet here can meet again
+            for pair in u_c.windows(2) {
+                self.find_intersection_points(&pair[0], &pair[1], event_point);
+            }
+            let segment_left = u_c[0].clone();
             let segment_left_left = self.get_left_of_segment(&segment_left, &mid_order_traversal);
             match segment_left_left {
                 Some(segment) => {
@@ -290,9 +293,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
                 }
                 _ => {}
             }
-            let segment_right = self
-                .get_left_right_in_u_c(&source_is_p, &contain_p, event_point)
-                .1;
+            let segment_right = u_c[u_c.len() - 1].clone();
             let segment_right_right =
                 self.get_right_of_segment(&segment_right, &mid_order_traversal);
             match segment_right_right {
@@ -405,12 +406,12 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         }
     }
 
-    fn get_left_right_in_u_c(
+    fn get_sorted_u_c(
         &self,
         source_is_p: &Vec<StatusNodeSegment<T>>,
         contain_p: &Vec<StatusNodeSegment<T>>,
         event_point: &Point2<T>,
-    ) -> (StatusNodeSegment<T>, StatusNodeSegment<T>) {
+    ) -> Vec<StatusNodeSegment<T>> {
         let mut segments = Vec::new();
         for segment in source_is_p {
             segments.push(segment.clone());
@@ -436,9 +437,7 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
                 }
             },
         });
-        let left = segments[0].clone();
-        let right = segments[segments.len() - 1].clone();
-        (left, right)
+        segments
     }
 
     fn get_left_of_segment(
@@ -552,9 +551,8 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
             },
         };
         for point in points {
-            if point.x() > event_point.x()
-                || (point.x().equals(event_point.x()) && point.y() > event_point.y())
-            {
+            // later events are less than earlier ones, up to the tolerance
+            if point < *event_point {
                 self.event_queue.push(point);
             }
         }
-- 
2.43.0


From 826ad0038d80908161e734391529178253604476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 17/23] fix: the sweep orders segments that leave a point
 vertically or meet beside it

---
 .../sweep_segment_2_intersection.rs           | 61 +++++++++++--------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 1a056be..ef84794 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -577,6 +577,28 @@ fn calculate_tangent_slope<T: NumberType>(center: &Point2<T>, point: &Point2<T>)
     Some(-x / y)
 }
 
+/// Direction in which a segment leaves the point to the right, from downwards to upwards: a lower
+/// arc at its leftmost point, a slope, an upper arc at its leftmost point, a vertical line segment.
+fn leaving_direction<T: NumberType>(segment: &impl Segment2<T>, point: &Point2<T>) -> (i32, T) {
+    match segment.segment_type() {
+        Segment2Type::LineSegment2 => match calculate_slope(&segment.source(), &segment.target()) {
+            Some(slope) => (0, slope),
+            None => (2, T::zero()),
+        },
+        _ => match calculate_tangent_slope(&segment.center(), point) {
+            Some(slope) => (0, slope),
+            None => {
+                let arc_segment = ArcSegment2::new(
+                    CircleSegment2::new(segment.center(), segment.radius()),
+                    segment.source_radian(),
+                    segment.target_radian(),
+                );
+                (if arc_segment.is_top() { 1 } else { -1 }, T::zero())
+            }
+        },
+    }
+}
+
 fn calculate_segment_value<T: NumberType>(segment: &impl Segment2<T>, point: &Point2<T>) -> T {
     match segment.segment_type() {
         Segment2Type::LineSegment2 => {
@@ -634,7 +656,7 @@ fn calculate_mid_value<T: NumberType>(
 ) -> (T, T) {
     let target_a = get_target_of_segment(segment_a);
     let target_b = get_target_of_segment(segment_b);
-    let target = if target_a < target_b {
+    let target = if target_a > target_b {
         target_a
     } else {
         target_b
@@ -670,31 +692,18 @@ fn compare_segments<T: NumberType>(
     let segment_a_value = calculate_segment_value(segment_a, event_point);
     let segment_b_value = calculate_segment_value(segment_b, event_point);
     if segment_a_value.equals(segment_b_value) {
-        let segment_a_slope = match segment_a.segment_type() {
-            Segment2Type::LineSegment2 => calculate_slope(&segment_a.source(), &segment_a.target()),
-            _ => calculate_tangent_slope(&segment_a.center(), event_point),
-        };
-        let segment_b_slope = match segment_b.segment_type() {
-            Segment2Type::LineSegment2 => calculate_slope(&segment_b.source(), &segment_b.target()),
-            _ => calculate_tangent_slope(&segment_b.center(), event_point),
-        };
-        match segment_a_slope {
-            Some(a_slope) => match segment_b_slope {
-                Some(b_slope) => {
-                    if a_slope.equals(b_slope) {
-                        compare_segments_same_slope(segment_a, segment_b, event_point)
-                    } else if a_slope < b_slope {
-                        std::cmp::Ordering::Less
-                    } else {
-                        std::cmp::Ordering::Greater
-                    }
-                }
-                None => std::cmp::Ordering::Less,
-            },
-            None => match segment_b_slope {
-                Some(_) => std::cmp::Ordering::Greater,
-                None => compare_segments_same_slope(segment_a, segment_b, event_point),
-            },
+        // the segments meet below, at or above the event point
+        let meeting_point = Point2::new(event_point.x(), segment_a_value);
+        let (rank_a, slope_a) = leaving_direction(segment_a, &meeting_point);
+        let (rank_b, slope_b) = leaving_direction(segment_b, &meeting_point);
+        if rank_a != rank_b {
+            rank_a.cmp(&rank_b)
+        } else if slope_a.equals(slope_b) {
+            compare_segments_same_slope(segment_a, segment_b, event_point)
+        } else if slope_a < slope_b {
+            std::cmp::Ordering::Less
+        } else {
+            std::cmp::Ordering::Greater
         }
     } else if segment_a_value < segment_b_value {
         std::cmp::Ordering::Less
-- 
2.43.0


From bf25b9f10e85a898d6465dd2cf0847aa7e017311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 18/23] fix: the sweep keeps the height of an arc at its
 rounded ends

---
 src/algorithm/intersection/sweep_segment_2_intersection.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index ef84794..994461f 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -615,7 +615,8 @@ fn calculate_segment_value<T: NumberType>(segment: &impl Segment2<T>, point: &Po
             let radius = segment.radius();
             let center = segment.center();
             let y = radius * radius - (point.x() - center.x()) * (point.x() - center.x());
-            let y = y.sqrt();
+            // rounding can put an end of the arc outside its circle
+            let y = if y < T::zero() { T::zero() } else { y.sqrt() };
             let y_a = center.y() + y;
             let y_b = center.y() - y;
             let p_a = Point2::new(point.x(), y_a);
-- 
2.43.0


From b57f9ce0f0e7bf847de645c69ada102cd748b86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:17 +0000
Subject: [PATCH 19/23] fix: a polygon that touches itself at a vertex is not
 simple

---
 src/kernel/polygon_2.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/kernel/polygon_2.rs b/src/kernel/polygon_2.rs
index 68fcf2e..aec587b 100644
--- a/src/kernel/polygon_2.rs
+++ b/src/kernel/polygon_2.rs
@@ -1,4 +1,7 @@
-use crate::algorithm::intersection::sweep_segment_2_intersection::SweepSegment2Intersection;
+use crate::algorithm::{
+    intersection::sweep_segment_2_intersection::SweepSegment2Intersection,
+    location::point_2_line_segment_2::is_point_2_on_line_segment_2,
+};
 
 use super::{
     line_segment_2::LineSegment2, number_type::NumberType, point_2::Point2, triangle_2::Triangle2,
@@ -45,6 +48,17 @@ impl<T: NumberType> Polygon2<T> {
 
     pub fn is_simple(&self) -> bool {
         let edges = self.edges();
+        // a vertex on an edge it does not belong to adds no intersection point
+        for (i, vertex) in self.vertices.iter().enumerate() {
+            for (j, edge) in edges.iter().enumerate() {
+                if i != j
+                    && i != (j + 1) % edges.len()
+                    && is_point_2_on_line_segment_2(vertex, edge)
+                {
+                    return false;
+                }
+            }
+        }
         let mut sweep = SweepSegment2Intersection::new();
         for edge in edges.iter() {
             sweep.push_segment(edge);
-- 
2.43.0


From caefc5f2e79fe9270bc3d32bcf55c0870b81762b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:36 +0000
Subject: [PATCH 20/23] fix: the triangulation gives up ears that another
 vertex blocks

---
 src/algorithm/triangulation/earcut_2.rs | 58 +++++++++----------------
 1 file changed, 21 insertions(+), 37 deletions(-)

diff --git a/src/algorithm/triangulation/earcut_2.rs b/src/algorithm/triangulation/earcut_2.rs
index c9ffc08..44a2cca 100644
--- a/src/algorithm/triangulation/earcut_2.rs
+++ b/src/algorithm/triangulation/earcut_2.rs
@@ -197,46 +197,30 @@ fn get_vertex_type<T: NumberType>(
     points.sort_by(|a, b| a.index.cmp(&b.index));
     let triangle = Triangle2::new(points[0].point, points[1].point, points[2].point);
 
-    match triangle.orientation() {
-        Orientation::Clockwise => match vertex.borrow().data.vertex_type {
-            VertexType::Reflex => (VertexType::Reflex, None),
-            VertexType::Ear => {
-                let ear_index = ears
-                    .iter()
-                    .position(|x| x.borrow().data.point == cur.borrow().data.point);
-                (VertexType::Reflex, ear_index)
-            }
-            VertexType::Convex => (VertexType::Reflex, None),
-        },
+    let vertex_type = match triangle.orientation() {
+        Orientation::Clockwise => VertexType::Reflex,
         Orientation::CounterClockwise => {
-            for i in 0..reflexes.len() {
-                let reflex = reflexes[i].clone();
-                if reflex.borrow().data.point == cur.borrow().data.point {
+            let mut vertex_type = VertexType::Ear;
+            for reflex in reflexes {
+                let reflex = reflex.borrow().data;
+                if points.iter().any(|x| x.index == reflex.index) {
                     continue;
                 }
-                let point = reflex.borrow().data.point;
-                let location = locate_point_2_triangle_2(&point, &triangle);
-                match location {
-                    Point2Triangle2Location::Inside => {
-                        return (VertexType::Convex, None);
-                    }
-                    _ => {
-                        continue;
-                    }
+                match locate_point_2_triangle_2(&reflex.point, &triangle) {
+                    Point2Triangle2Location::Outside => {}
+                    _ => vertex_type = VertexType::Convex,
                 }
             }
-            match vertex.borrow().data.vertex_type {
-                VertexType::Reflex => {
-                    let reflex_index = reflexes
-                        .iter()
-                        .position(|x| x.borrow().data.point == cur.borrow().data.point);
-                    (VertexType::Ear, reflex_index)
-                }
-                VertexType::Ear => (VertexType::Ear, None),
-                VertexType::Convex => (VertexType::Ear, None),
-            }
+            vertex_type
         }
-    }
+    };
+    // where the vertex is listed so far
+    let index = match vertex.borrow().data.vertex_type {
+        VertexType::Reflex => reflexes.iter().position(|x| Rc::ptr_eq(x, &vertex)),
+        VertexType::Ear => ears.iter().position(|x| Rc::ptr_eq(x, &vertex)),
+        VertexType::Convex => None,
+    };
+    (vertex_type, index)
 }
 
 fn init_vertex_type<T: NumberType>(vertex: &Vec<Point2<T>>, index: usize) -> VertexType {
@@ -262,11 +246,11 @@ fn init_vertex_type<T: NumberType>(vertex: &Vec<Point2<T>>, index: usize) -> Ver
                 let point = &vertex[i];
                 let location = locate_point_2_triangle_2(point, &triangle);
                 match location {
-                    Point2Triangle2Location::Inside => {
-                        return VertexType::Convex;
+                    Point2Triangle2Location::Outside => {
+                        continue;
                     }
                     _ => {
-                        continue;
+                        return VertexType::Convex;
                     }
                 }
             }
-- 
2.43.0


From 7b4b60fdd18f5d9592f4da8efb8d3ce06c2a2f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:38 +0000
Subject: [PATCH 21/23] fix: triangulate clockwise polygons

---
 src/algorithm/triangulation/earcut_2.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/algorithm/triangulation/earcut_2.rs b/src/algorithm/triangulation/earcut_2.rs
index 44a2cca..0019775 100644
--- a/src/algorithm/triangulation/earcut_2.rs
+++ b/src/algorithm/triangulation/earcut_2.rs
@@ -33,14 +33,23 @@ pub fn earcut_2<T: NumberType>(polygon: Polygon2<T>) -> Vec<Vec<usize>> {
     let mut vertices = CircularDoubleLinkedList::new();
     let mut ears = Vec::new();
     let mut reflexes = Vec::new();
-    let polygon_vertices = polygon.vertices();
+    let mut polygon_vertices = polygon.vertices();
+    // the ears of a clockwise polygon are found on its reverse
+    let clockwise = polygon.area() < T::zero();
+    if clockwise {
+        polygon_vertices.reverse();
+    }
     let mut _vertex = vertices.tail();
     for i in 0..polygon_vertices.len() {
         let vertex_type = init_vertex_type(&polygon_vertices, i);
         _vertex = Some(vertices.insert(
             vertices.tail(),
             EarcutVertex {
-                index: i,
+                index: if clockwise {
+                    polygon_vertices.len() - 1 - i
+                } else {
+                    i
+                },
                 point: polygon_vertices[i],
                 vertex_type,
             },
@@ -193,8 +202,7 @@ fn get_vertex_type<T: NumberType>(
     let cur = vertex.clone();
     let prev = cur.borrow().prev.clone().unwrap();
     let next = cur.borrow().next.clone().unwrap();
-    let mut points = vec![prev.borrow().data, cur.borrow().data, next.borrow().data];
-    points.sort_by(|a, b| a.index.cmp(&b.index));
+    let points = vec![prev.borrow().data, cur.borrow().data, next.borrow().data];
     let triangle = Triangle2::new(points[0].point, points[1].point, points[2].point);
 
     let vertex_type = match triangle.orientation() {
-- 
2.43.0


From e3ec8d2308beb659e197bdf761dc56bba60d7232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:25 +0000
Subject: [PATCH 22/23] fix: a segment without length does not stay in the
 sweep

---
 .../intersection/sweep_segment_2_intersection.rs       | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 994461f..3c96fda 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -180,6 +180,16 @@ impl<T: NumberType> SweepSegment2Intersection<T> {
         if source_is_p.len() + target_is_p.len() + contain_p.len() > 1 {
             self.intersection_points.insert(event_point.clone());
         }
+        // a line segment without length ends where it starts, it never becomes active
+        let source_is_p: Vec<_> = source_is_p
+            .into_iter()
+            .filter(|segment| match segment {
+                StatusNodeSegment::LineSegment2(line_segment) => {
+                    !line_segment.source().equals(&line_segment.target())
+                }
+                StatusNodeSegment::ArcSegment2(_) => true,
+            })
+            .collect();
         for segment in &target_is_p {
             self.status_tree.delete(StatusNode {
                 value: match self.last_event_point {
-- 
2.43.0


From 54f90afd4fce563c185aa5250ffc31fee0ec3330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 23/23] fix: rounding near the vertical tangent of an arc must
 not reorder the sweep

The square root turned a rounding error of 1e-16 at the leftmost or rightmost
point of an arc into a height of 1e-8, and meeting points were lost.
---
 .../intersection/sweep_segment_2_intersection.rs       | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/intersection/sweep_segment_2_intersection.rs b/src/algorithm/intersection/sweep_segment_2_intersection.rs
index 3c96fda..7cdf412 100644
--- a/src/algorithm/intersection/sweep_segment_2_intersection.rs
+++ b/src/algorithm/intersection/sweep_segment_2_intersection.rs
@@ -624,9 +624,13 @@ fn calculate_segment_value<T: NumberType>(segment: &impl Segment2<T>, point: &Po
         _ => {
             let radius = segment.radius();
             let center = segment.center();
-            let y = radius * radius - (point.x() - center.x()) * (point.x() - center.x());
-            // rounding can put an end of the arc outside its circle
-            let y = if y < T::zero() { T::zero() } else { y.sqrt() };
+            let x = (point.x() - center.x()).abs();
+            // the square root would blow up the rounding of the leftmost and rightmost points
+            let y = if x > radius || x.equals(radius) {
+                T::zero()
+            } else {
+                (radius * radius - x * x).sqrt()
+            };
             let y_a = center.y() + y;
             let y_b = center.y() - y;
             let p_a = Point2::new(point.x(), y_a);
-- 
2.43.0


From c472f0cb4a8af5f89ec89980da667d9351686d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 1/8] fix: do not panic when building a sorted Flatbush over
 items without extent along an axis

---
 src/flatbush/hilbert.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/flatbush/hilbert.rs b/src/flatbush/hilbert.rs
index 9eea995..bd15a68 100644
--- a/src/flatbush/hilbert.rs
+++ b/src/flatbush/hilbert.rs
@@ -64,7 +64,12 @@ where
     pub fn hilbert(&self, position: Position<C>) -> u32 {
         let x = self.x_scale * (position.x - self.x_min);
         let y = self.y_scale * (position.y - self.y_min);
-        Self::hilbert_normalized(x.floor().to_u32().unwrap(), y.floor().to_u32().unwrap())
+        // If the rectangle has no (representable) extent along an axis, the
+        // scaled coordinate is not a number; use the first cell for that axis.
+        Self::hilbert_normalized(
+            x.floor().to_u32().unwrap_or(0),
+            y.floor().to_u32().unwrap_or(0),
+        )
     }
 
     /**
-- 
2.43.0


From bdc14ca54e03e19644748a4c1b3f822594b21169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 2/8] fix: intersect a zero-length segment only where it meets
 the other segment

---
 src/planar/primitives/segment.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/planar/primitives/segment.rs b/src/planar/primitives/segment.rs
index 7d565bf..9cf5466 100644
--- a/src/planar/primitives/segment.rs
+++ b/src/planar/primitives/segment.rs
@@ -89,6 +89,14 @@ impl<C: Coordinate> Segment<C> {
      * NB: This does not do an initial check with Envelopes; the caller should do that.
      */
     pub fn intersect_segment(&self, other: Segment<C>) -> SegmentIntersection<C> {
+        // A segment with no extent is a single position.
+        if self.start == self.end {
+            if other.contains(self.start) {
+                return SegmentIntersection::Position(self.start);
+            } else {
+                return SegmentIntersection::None;
+            }
+        }
         // check intersection
         if self == &other {
             return SegmentIntersection::Segment(*self);
-- 
2.43.0


From 6fcb0bc879ff2f135062dd9d056600bd722075a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 3/8] fix: return the exact ends of the overlap of collinear
 segments

---
 src/planar/primitives/segment.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/planar/primitives/segment.rs b/src/planar/primitives/segment.rs
index 9cf5466..793b22b 100644
--- a/src/planar/primitives/segment.rs
+++ b/src/planar/primitives/segment.rs
@@ -117,18 +117,26 @@ impl<C: Coordinate> Segment<C> {
             } else {
                 // If the offset is also parallel, check for overlap.
                 let da_2 = Position::dot(da, da);
-                // Offset, in units of da.
-                let t0 = Position::dot(offset, da) / da_2;
-                // self.start to other.end, in units of da.
-                let t1 = t0 + Position::dot(da, db) / da_2;
+                // The ends of other along da, measured from self.start (self.end is at da_2).
+                let t0 = Position::dot(offset, da);
+                let t1 = Position::dot(other.end - self.start, da);
                 let (t_min, t_max) = t0.min_max(t1);
-                if t_min > C::one() || t_max < C::zero() {
-                    // if min(t0, t1) > 1 or max(t0, t1) < 0, they don't intersect.
+                if t_min > da_2 || t_max < C::zero() {
+                    // if min(t0, t1) > da_2 or max(t0, t1) < 0, they don't intersect.
                     return SegmentIntersection::None;
                 } else {
-                    // Else, the intersect
-                    let start = self.start + da * t_min.max(C::zero());
-                    let end = self.start + da * t_max.min(C::one());
+                    // Else, they overlap between two of the four ends.
+                    let (other_min, other_max) = if t0 <= t1 {
+                        (other.start, other.end)
+                    } else {
+                        (other.end, other.start)
+                    };
+                    let start = if t_min < C::zero() {
+                        self.start
+                    } else {
+                        other_min
+                    };
+                    let end = if t_max > da_2 { self.end } else { other_max };
                     if start == end {
                         return SegmentIntersection::Position(start);
                     } else {
-- 
2.43.0


From fc76463d9a1702028e86e01e8e56f6727079236a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 4/8] fix: report intersections at a segment end as exactly
 that end

---
 src/planar/primitives/segment.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/planar/primitives/segment.rs b/src/planar/primitives/segment.rs
index 793b22b..4383eaa 100644
--- a/src/planar/primitives/segment.rs
+++ b/src/planar/primitives/segment.rs
@@ -145,13 +145,32 @@ impl<C: Coordinate> Segment<C> {
                 }
             }
         } else {
+            // The segments are not parallel, so if they share an end they meet exactly there.
+            if self.start == other.start || self.start == other.end {
+                return SegmentIntersection::Position(self.start);
+            }
+            if self.end == other.start || self.end == other.end {
+                return SegmentIntersection::Position(self.end);
+            }
             // The segments are not parallel, so they are disjoint or intersect at a point
             // Calculate where the infinite lines would intersect; if these are on the segments
             // then the segments intersect.
             let ta = Position::cross(offset, db) / da_x_db;
             let tb = offset_x_da / da_x_db;
             if C::zero() <= ta && ta <= C::one() && C::zero() <= tb && tb <= C::one() {
-                return SegmentIntersection::Position(self.start + da * ta);
+                // Do not compute an intersection at an end; that would round it.
+                let position = if ta == C::zero() {
+                    self.start
+                } else if ta == C::one() {
+                    self.end
+                } else if tb == C::zero() {
+                    other.start
+                } else if tb == C::one() {
+                    other.end
+                } else {
+                    self.start + da * ta
+                };
+                return SegmentIntersection::Position(position);
             }
         }
         SegmentIntersection::None
-- 
2.43.0


From b43257025a744c9716615fcb2af1426a056a1005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 5/8] fix: reject an open LineString whose last segment passes
 through its first position

---
 src/planar/validation/line_string.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/planar/validation/line_string.rs b/src/planar/validation/line_string.rs
index 1acfca7..5570e4e 100644
--- a/src/planar/validation/line_string.rs
+++ b/src/planar/validation/line_string.rs
@@ -58,8 +58,10 @@ impl<C: Coordinate> LineString<C> {
                 SegmentIntersection::Position(p) => {
                     // Point intersections are fine at the shared point between
                     // adjacent segments.  In loops this includes the wraparound.
-                    if ((high_id == low_id + 1) || (low_id == 0 && high_id == num_segments - 1))
-                        && (p == first_segment.end || p == first_segment.start)
+                    let is_wraparound =
+                        self.is_closed() && low_id == 0 && high_id == num_segments - 1;
+                    if (high_id == low_id + 1 && p == first_segment.end)
+                        || (is_wraparound && p == first_segment.start)
                     {
                         continue;
                     } else {
-- 
2.43.0


From da366f93c5c68400ea7ae51e01b6d21d0ecd822c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 6/8] fix: parse_wkt returns an error for unsupported geometry
 types instead of panicking

---
 src/serde/wkt.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/serde/wkt.rs b/src/serde/wkt.rs
index b26e4a1..15368da 100644
--- a/src/serde/wkt.rs
+++ b/src/serde/wkt.rs
@@ -6,12 +6,11 @@ use wkt;
 
 pub fn parse_wkt(wkt_str: &str) -> Result<Vec<Geometry<f64>>, &str> {
     let wkt_geoms = wkt::Wkt::from_str(wkt_str)?;
-    let geoms = wkt_geoms.items.into_iter().map(from_wkt_geometry).collect();
-    Ok(geoms)
+    wkt_geoms.items.into_iter().map(from_wkt_geometry).collect()
 }
 
-fn from_wkt_geometry(geom: wkt::Geometry) -> Geometry<f64> {
-    match geom {
+fn from_wkt_geometry(geom: wkt::Geometry) -> Result<Geometry<f64>, &'static str> {
+    let geometry = match geom {
         wkt::Geometry::Point(p) => match from_wkt_point(p) {
             None => Geometry::empty(),
             Some(point) => Geometry::from(point),
@@ -24,8 +23,9 @@ fn from_wkt_geometry(geom: wkt::Geometry) -> Geometry<f64> {
         wkt::Geometry::MultiPoint(mp) => Geometry::from(from_wkt_multi_point(mp)),
         wkt::Geometry::MultiLineString(mls) => Geometry::from(from_wkt_multi_linestring(mls)),
         wkt::Geometry::MultiPolygon(mpoly) => Geometry::from(from_wkt_multi_polygon(mpoly)),
-        _ => unimplemented!(),
-    }
+        _ => return Err("Unsupported geometry type."),
+    };
+    Ok(geometry)
 }
 
 fn from_wkt_point(pt: wkt::types::Point) -> Option<Point<f64>> {
-- 
2.43.0


From 7766f944a873669f73668775b38c03be7535b454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:27 +0000
Subject: [PATCH 7/8] fix: find the convex hull of a loop that starts with
 collinear positions

---
 src/planar/algorithms/convex_hull.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/planar/algorithms/convex_hull.rs b/src/planar/algorithms/convex_hull.rs
index 9ca1bb0..d554233 100644
--- a/src/planar/algorithms/convex_hull.rs
+++ b/src/planar/algorithms/convex_hull.rs
@@ -26,8 +26,18 @@ pub(crate) fn find_convex_hull_of_simple_loop<C: Coordinate>(
 
     positions.next(); // Drop first point; it's also the last so we'll get to it.
     let a = positions.next().unwrap();
-    let b = positions.next().unwrap();
-    let c = positions.next().unwrap();
+    let mut b = positions.next().unwrap();
+    let mut c = positions.next().unwrap();
+    // The algorithm needs a proper triangle to start; skip leading collinear positions.
+    while _triple_location(a, b, c) == PositionLocation::On {
+        match positions.next() {
+            Some(next) => {
+                b = c;
+                c = next;
+            }
+            None => break,
+        }
+    }
     deque.push_front(c);
     match _triple_location(a, b, c) {
         PositionLocation::Right => {
-- 
2.43.0


From 6e13c6593c8c1397c889b092220d03b7382eac3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:42 +0000
Subject: [PATCH 8/8] fix: reject a WKT collection unread instead of
 overflowing the stack

The WKT parser recurses into nested collections, so parse_wkt aborted the
process on deeply nested ones. Collections are not supported anyway.
---
 src/serde/wkt.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/serde/wkt.rs b/src/serde/wkt.rs
index 15368da..1a50c50 100644
--- a/src/serde/wkt.rs
+++ b/src/serde/wkt.rs
@@ -5,10 +5,26 @@ use crate::planar::types::{
 use wkt;
 
 pub fn parse_wkt(wkt_str: &str) -> Result<Vec<Geometry<f64>>, &str> {
+    // The parser recurses into nested collections, so one nested deeply enough
+    // would overflow the stack. They are not supported, so don't parse them.
+    if is_collection(wkt_str) {
+        return Err("Unsupported geometry type.");
+    }
     let wkt_geoms = wkt::Wkt::from_str(wkt_str)?;
     wkt_geoms.items.into_iter().map(from_wkt_geometry).collect()
 }
 
+/// Whether the text starts like a GEOMETRYCOLLECTION.
+fn is_collection(wkt_str: &str) -> bool {
+    let word = b"GEOMETRYCOLLECTION";
+    let text = wkt_str.as_bytes();
+    let mut start = 0;
+    while start < text.len() && matches!(text[start], b' ' | b'\t' | b'\n' | b'\r') {
+        start += 1;
+    }
+    text.len() - start >= word.len() && text[start..start + word.len()].eq_ignore_ascii_case(word)
+}
+
 fn from_wkt_geometry(geom: wkt::Geometry) -> Result<Geometry<f64>, &'static str> {
     let geometry = match geom {
         wkt::Geometry::Point(p) => match from_wkt_point(p) {
-- 
2.43.0


From ae54dacdbc4ab9ac360b630a0a462f7e525808b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 01/17] Add cfg(verif_hooks) accessors for verification
 harnesses

---
 .../cube_n/cube3/mus/cache/disk_storage.rs    |  6 ++++
 barbarosa/src/cube_n/cube3/mus/cache/mod.rs   | 10 ++++++
 barbarosa/src/cube_n/cube4/mod.rs             | 10 ++++++
 barbarosa/src/cube_n/cube5/mod.rs             | 22 +++++++++++++
 barbarosa/src/cube_n/cube6/mod.rs             | 26 +++++++++++++++
 barbarosa/src/cube_n/cube7/mod.rs             | 32 +++++++++++++++++++
 barbarosa/src/cube_n/pieces/center/corner.rs  |  8 +++++
 barbarosa/src/lib.rs                          |  1 +
 8 files changed, 115 insertions(+)

diff --git a/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs b/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs
index 7f21d6a..39e7f50 100644
--- a/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs
+++ b/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs
@@ -104,3 +104,9 @@ fn assert_correct_cache_size<T: DiskCacheable>(given: usize) {
         panic!("Cache file seems to be corrupted. It should be {} bytes long, but it's {} bytes long (help: might be wise to delete `mus-cache/`)", T::TOTAL_SET_SIZE, given);
     }
 }
+
+#[cfg(verif_hooks)]
+pub fn verif_load_or_build_partial<T: DiskCacheable + Deindexable + Movable<AxisMove> + Clone>(
+) -> io::Result<Vec<u8>> {
+    load_or_build_partial::<T>()
+}
diff --git a/barbarosa/src/cube_n/cube3/mus/cache/mod.rs b/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
index f9ae997..2faf57d 100644
--- a/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
+++ b/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
@@ -70,3 +70,13 @@ impl Cache {
         disk_storage::load()
     }
 }
+
+/// Re-exports of the cache building blocks, for verification harnesses.
+#[cfg(verif_hooks)]
+pub mod verif {
+    pub use super::disk_storage::{
+        load_partial, verif_load_or_build_partial as load_or_build_partial, write_partial,
+        DiskCacheable,
+    };
+    pub use super::generation::build_partial;
+}
diff --git a/barbarosa/src/cube_n/cube4/mod.rs b/barbarosa/src/cube_n/cube4/mod.rs
index 327c4b2..9024ae5 100644
--- a/barbarosa/src/cube_n/cube4/mod.rs
+++ b/barbarosa/src/cube_n/cube4/mod.rs
@@ -50,4 +50,14 @@ impl CubeN for Cube4 {
     const N: u32 = 4;
 }
 
+#[cfg(verif_hooks)]
+#[allow(missing_docs)]
+impl Cube4 {
+    /// Access to the piece sets for verification harnesses.
+    #[allow(clippy::type_complexity)]
+    pub fn verif_parts(&mut self) -> (&mut CornerSet, &mut WingSet<1>, &mut CenterCornerSet<1>) {
+        (&mut self.corners, &mut self.wings, &mut self.centers)
+    }
+}
+
 impl_movable_wide_move_inductively!(Cube4, 1, [0]);
diff --git a/barbarosa/src/cube_n/cube5/mod.rs b/barbarosa/src/cube_n/cube5/mod.rs
index e765cd0..ff387a8 100644
--- a/barbarosa/src/cube_n/cube5/mod.rs
+++ b/barbarosa/src/cube_n/cube5/mod.rs
@@ -49,4 +49,26 @@ impl CubeN for Cube5 {
     const N: u32 = 5;
 }
 
+#[cfg(verif_hooks)]
+#[allow(missing_docs)]
+impl Cube5 {
+    /// Access to the piece sets for verification harnesses.
+    #[allow(clippy::type_complexity)]
+    pub fn verif_parts(
+        &mut self,
+    ) -> (
+        &mut CornerSet,
+        &mut EdgeSet,
+        &mut CenterCornerSet<1>,
+        &mut CenterEdgeSet<1>,
+    ) {
+        (
+            &mut self.corners,
+            &mut self.edges,
+            &mut self.corner_centers,
+            &mut self.corner_edges,
+        )
+    }
+}
+
 impl_movable_wide_move_inductively!(Cube5, 1, [0]);
diff --git a/barbarosa/src/cube_n/cube6/mod.rs b/barbarosa/src/cube_n/cube6/mod.rs
index 38ddfd2..2959b78 100644
--- a/barbarosa/src/cube_n/cube6/mod.rs
+++ b/barbarosa/src/cube_n/cube6/mod.rs
@@ -68,4 +68,30 @@ impl CubeN for Cube6 {
     const N: u32 = 6;
 }
 
+#[cfg(verif_hooks)]
+#[allow(missing_docs)]
+impl Cube6 {
+    /// Access to the piece sets for verification harnesses.
+    #[allow(clippy::type_complexity)]
+    pub fn verif_parts(
+        &mut self,
+    ) -> (
+        &mut CornerSet,
+        &mut WingSet<1>,
+        &mut WingSet<2>,
+        &mut CenterCornerSet<1>,
+        &mut CenterCornerSet<2>,
+        &mut CenterWingSet<1, 2>,
+    ) {
+        (
+            &mut self.corners,
+            &mut self.wings_1,
+            &mut self.wings_2,
+            &mut self.center_corners_1,
+            &mut self.center_corners_2,
+            &mut self.center_wings,
+        )
+    }
+}
+
 impl_movable_wide_move_inductively!(Cube6, 2, [0, 1]);
diff --git a/barbarosa/src/cube_n/cube7/mod.rs b/barbarosa/src/cube_n/cube7/mod.rs
index c050793..00d0145 100644
--- a/barbarosa/src/cube_n/cube7/mod.rs
+++ b/barbarosa/src/cube_n/cube7/mod.rs
@@ -82,4 +82,36 @@ impl CubeN for Cube7 {
     const N: u32 = 7;
 }
 
+#[cfg(verif_hooks)]
+#[allow(missing_docs)]
+impl Cube7 {
+    /// Access to the piece sets for verification harnesses.
+    #[allow(clippy::type_complexity)]
+    pub fn verif_parts(
+        &mut self,
+    ) -> (
+        &mut CornerSet,
+        &mut EdgeSet,
+        &mut WingSet<1>,
+        &mut WingSet<2>,
+        &mut CenterCornerSet<1>,
+        &mut CenterCornerSet<2>,
+        &mut CenterWingSet<1, 2>,
+        &mut CenterEdgeSet<1>,
+        &mut CenterEdgeSet<2>,
+    ) {
+        (
+            &mut self.corners,
+            &mut self.edges,
+            &mut self.wings_1,
+            &mut self.wings_2,
+            &mut self.center_corners_1,
+            &mut self.center_corners_2,
+            &mut self.center_wings,
+            &mut self.center_edges_1,
+            &mut self.center_edges_2,
+        )
+    }
+}
+
 impl_movable_wide_move_inductively!(Cube7, 2, [0, 1]);
diff --git a/barbarosa/src/cube_n/pieces/center/corner.rs b/barbarosa/src/cube_n/pieces/center/corner.rs
index 836a345..df8c61a 100644
--- a/barbarosa/src/cube_n/pieces/center/corner.rs
+++ b/barbarosa/src/cube_n/pieces/center/corner.rs
@@ -99,5 +99,13 @@ impl CenterCorner {
     }
 }
 
+#[cfg(verif_hooks)]
+impl CenterCorner {
+    /// Position and axis of the piece, for verification harnesses.
+    pub fn verif_parts(&self) -> (Vec3, Axis) {
+        (self.position, self.axis)
+    }
+}
+
 /// A set of [`CenterCorner`]s with depth `ND`
 pub type CenterCornerSet<const ND: u32> = DepthPieceSet<CenterCorner, 24, ND>;
diff --git a/barbarosa/src/lib.rs b/barbarosa/src/lib.rs
index adf6d5b..b3b0ee0 100644
--- a/barbarosa/src/lib.rs
+++ b/barbarosa/src/lib.rs
@@ -1,5 +1,6 @@
 #![warn(missing_docs)]
 #![warn(clippy::doc_markdown)]
+#![allow(unexpected_cfgs)] // `cfg(verif_hooks)` guards accessors for verification harnesses
 #![doc = include_str!("../README.md")]
 
 pub mod cube_n;
-- 
2.43.0


From 25ac1098d778ce470afa4b1186806ee0d4bce893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 02/17] fix: a plain turn on the 4x4 to 7x7 turns only the face
 layer

`Movable<AxisMove>` for the big cubes widened the turn to the maximum depth, so a
plain R on a 4x4 carried two layers (three on a 6x6 or 7x7).
---
 barbarosa/src/cube_n/moves/wide.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/moves/wide.rs b/barbarosa/src/cube_n/moves/wide.rs
index 45ca0bf..aae577e 100644
--- a/barbarosa/src/cube_n/moves/wide.rs
+++ b/barbarosa/src/cube_n/moves/wide.rs
@@ -135,7 +135,7 @@ macro_rules! impl_movable_wide_move_inductively {
     ($cube:ty, $max_width:literal, 0) => {
         impl crate::generic::Movable<crate::cube_n::AxisMove> for $cube {
             fn apply(&mut self, m: &crate::cube_n::AxisMove) {
-                <$cube as crate::generic::Movable<WideAxisMove<$max_width>>>::apply(self, &m.clone().widen($max_width).unwrap());
+                <$cube as crate::generic::Movable<WideAxisMove<$max_width>>>::apply(self, &m.clone().widen(0).unwrap());
             }
         }
     };
-- 
2.43.0


From 9e149ae2593c779a109e87d132355de067513f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 03/17] fix: centre edges follow a wide turn only as deep as
 the turn goes

`CenterEdge::is_in_wide_move` compared its depth with the largest depth the move
type allows instead of the depth of the move, so plain turns dragged centre edges
of the neighbouring faces along.
---
 barbarosa/src/cube_n/pieces/center/edge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/pieces/center/edge.rs b/barbarosa/src/cube_n/pieces/center/edge.rs
index ea2e315..25985c9 100644
--- a/barbarosa/src/cube_n/pieces/center/edge.rs
+++ b/barbarosa/src/cube_n/pieces/center/edge.rs
@@ -133,7 +133,7 @@ impl DepthPiece for CenterEdge {
             return true;
         }
 
-        if m.face() == &self.side_face() && normal_depth <= M {
+        if m.face() == &self.side_face() && normal_depth <= m.depth() {
             return true;
         }
 
-- 
2.43.0


From ef3c39a4f03bb3c9670d7642a2c0f0fed31ce197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:18 +0000
Subject: [PATCH 04/17] fix: the 5x5 has wings

Cube5 had no wing pieces, so 24 of its 98 physical pieces were missing and
histories that differ only in the wings gave equal (even "solved") cubes.
---
 barbarosa/src/cube_n/cube5/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/barbarosa/src/cube_n/cube5/mod.rs b/barbarosa/src/cube_n/cube5/mod.rs
index ff387a8..7319b0a 100644
--- a/barbarosa/src/cube_n/cube5/mod.rs
+++ b/barbarosa/src/cube_n/cube5/mod.rs
@@ -8,6 +8,7 @@ use super::{
         center::{corner::CenterCornerSet, edge::CenterEdgeSet},
         corner::CornerSet,
         edge::EdgeSet,
+        wing::WingSet,
     },
     CubeN, WideAxisMove,
 };
@@ -19,6 +20,7 @@ use super::{
 pub struct Cube5 {
     corners: CornerSet,
     edges: EdgeSet,
+    wings: WingSet<1>,
     corner_centers: CenterCornerSet<1>,
     corner_edges: CenterEdgeSet<1>,
 }
@@ -31,6 +33,7 @@ impl generic::Cube for Cube5 {
     const SOLVED: Self = Self {
         corners: CornerSet::SOLVED,
         edges: EdgeSet::SOLVED,
+        wings: WingSet::SOLVED,
         corner_centers: CenterCornerSet::SOLVED,
         corner_edges: CenterEdgeSet::SOLVED,
     };
@@ -40,6 +43,7 @@ impl generic::Movable<WideAxisMove<1>> for Cube5 {
     fn apply(&mut self, m: &WideAxisMove<1>) {
         self.corners.apply(&m.axis_move);
         self.edges.apply(&m.axis_move);
+        self.wings.apply(m);
         self.corner_centers.apply(m);
         self.corner_edges.apply(m);
     }
-- 
2.43.0


From 74ff670c2a00f4ec8bce6426cc6266d54b8158c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:18 +0000
Subject: [PATCH 05/17] Cover the wings of the 5x5 in the cfg(verif_hooks)
 accessor

---
 barbarosa/src/cube_n/cube5/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/barbarosa/src/cube_n/cube5/mod.rs b/barbarosa/src/cube_n/cube5/mod.rs
index 7319b0a..3776191 100644
--- a/barbarosa/src/cube_n/cube5/mod.rs
+++ b/barbarosa/src/cube_n/cube5/mod.rs
@@ -63,12 +63,14 @@ impl Cube5 {
     ) -> (
         &mut CornerSet,
         &mut EdgeSet,
+        &mut WingSet<1>,
         &mut CenterCornerSet<1>,
         &mut CenterEdgeSet<1>,
     ) {
         (
             &mut self.corners,
             &mut self.edges,
+            &mut self.wings,
             &mut self.corner_centers,
             &mut self.corner_edges,
         )
-- 
2.43.0


From f3fdc7d52b490682eface1447c9f3d6600ef4f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:07 +0000
Subject: [PATCH 06/17] fix: a corner centre is solved only on its own face

The check compared the direction along the axis but not the axis itself, so a
4x4 to 7x7 with R, U and F centres exchanged called itself solved.
---
 barbarosa/src/cube_n/pieces/center/corner.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/barbarosa/src/cube_n/pieces/center/corner.rs b/barbarosa/src/cube_n/pieces/center/corner.rs
index df8c61a..a556432 100644
--- a/barbarosa/src/cube_n/pieces/center/corner.rs
+++ b/barbarosa/src/cube_n/pieces/center/corner.rs
@@ -30,7 +30,7 @@ impl generic::Piece for CenterCorner {
     }
 
     fn is_solved(&self, original_pos: &Self::Position) -> bool {
-        self.position[self.axis] == original_pos.position[original_pos.axis]
+        self.is_solved(original_pos)
     }
 }
 
@@ -93,9 +93,10 @@ impl CenterCorner {
         Self { position, axis }
     }
 
-    /// Determines whether the [`CenterCorner`] is solved.
+    /// Determines whether the [`CenterCorner`] is solved. That is, whether it is on its original face.
     pub fn is_solved(&self, original: &CenterCorner) -> bool {
-        self.position[self.axis] == original.position[original.axis]
+        self.axis == original.axis
+            && self.position[self.axis] == original.position[original.axis]
     }
 }
 
-- 
2.43.0


From b46dfa74f3c9b3caf32f351e04fc0ecf5a47d863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:31 +0000
Subject: [PATCH 07/17] fix: a 5x5 with same-coloured centres exchanged is
 solved

Cube5 compared piece by piece with the solved cube, unlike the other big cubes.
---
 barbarosa/src/cube_n/cube5/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/barbarosa/src/cube_n/cube5/mod.rs b/barbarosa/src/cube_n/cube5/mod.rs
index 3776191..be362b3 100644
--- a/barbarosa/src/cube_n/cube5/mod.rs
+++ b/barbarosa/src/cube_n/cube5/mod.rs
@@ -37,6 +37,17 @@ impl generic::Cube for Cube5 {
         corner_centers: CenterCornerSet::SOLVED,
         corner_edges: CenterEdgeSet::SOLVED,
     };
+
+    fn is_solved(&self) -> bool
+    where
+        Self: 'static,
+    {
+        self.corners.is_solved()
+            && self.edges.is_solved()
+            && self.wings.is_solved()
+            && self.corner_centers.is_solved()
+            && self.corner_edges.is_solved()
+    }
 }
 
 impl generic::Movable<WideAxisMove<1>> for Cube5 {
-- 
2.43.0


From 372f7486e4a29be42d94e2110d81153d801393ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 08/17] fix: turns on a held cube act on the faces as held

Moves were rotated from the default orientation to the current one; a move given
as seen by the holder has to go the other way. rotations() also mixed up the
second rotation for orientations with the R face in place or turned by 90 degrees.
---
 barbarosa/src/cube_n/orientable/mod.rs        |  8 +----
 .../src/cube_n/orientable/orientation.rs      | 35 +++++++++----------
 2 files changed, 17 insertions(+), 26 deletions(-)

diff --git a/barbarosa/src/cube_n/orientable/mod.rs b/barbarosa/src/cube_n/orientable/mod.rs
index 70fe38a..4988e0e 100644
--- a/barbarosa/src/cube_n/orientable/mod.rs
+++ b/barbarosa/src/cube_n/orientable/mod.rs
@@ -55,13 +55,7 @@ where
     Orientable<C>: Movable<ExtendedAxisMove>,
 {
     fn apply(&mut self, m: &M) {
-        let mut m = m.clone();
-
-        for rotation in self.orientation.rotations() {
-            m.rotate(&rotation);
-        }
-
-        self.base_cube.apply(&m);
+        self.base_cube.apply(&self.orientation.to_default(m.clone()));
     }
 }
 
diff --git a/barbarosa/src/cube_n/orientable/orientation.rs b/barbarosa/src/cube_n/orientable/orientation.rs
index a0d39e0..a765369 100644
--- a/barbarosa/src/cube_n/orientable/orientation.rs
+++ b/barbarosa/src/cube_n/orientable/orientation.rs
@@ -1,6 +1,7 @@
 use std::ops::Neg;
 
 use itertools::Either;
+use strum::IntoEnumIterator;
 
 use crate::cube_n::{
     moves::{
@@ -38,22 +39,14 @@ fn connecting_rotation(from: &Face, to: &Face) -> Option<AxisRotation> {
     Some(output)
 }
 
-/// Gives incorrect results if the faces cannot be reached by a rotation around the axis of `face`.
+/// Gives `None` if the faces are equal or if they cannot be reached by a rotation around the axis of `face`.
 fn connecting_rotation_with_face(from: &Face, to: &Face, face: &Face) -> Option<AxisRotation> {
     debug_assert_ne!(from.axis, face.axis);
     debug_assert_ne!(to.axis, face.axis);
 
-    if from == to {
-        return None;
-    }
-
-    let amount = match from.axis.get_handedness(&to.axis) {
-        Ok(Direction::Positive) => Amount::Single,
-        Ok(Direction::Negative) => Amount::Inverse,
-        Err(ParallelAxesError::SameAxis(_)) => Amount::Double,
-    };
-
-    Some(AxisRotation::new(face.axis, amount))
+    Amount::iter()
+        .map(|amount| AxisRotation::new(face.axis, amount))
+        .find(|rotation| from.clone().rotated(rotation) == *to)
 }
 
 impl Orientation {
@@ -69,19 +62,14 @@ impl Orientation {
     }
 
     /// Iterator of rotations that get you from the default orientation to the current one
-    pub fn rotations(&self) -> impl Iterator<Item = AxisRotation> {
+    pub fn rotations(&self) -> impl DoubleEndedIterator<Item = AxisRotation> {
         let r_rot = connecting_rotation(&Face::R, &self.r_face);
         let new_u = r_rot
             .as_ref()
             .map(|rot| Face::U.rotated(rot))
             .unwrap_or(Face::U);
 
-        let r_face = r_rot.as_ref().map(|rot| Face::R.rotated(rot));
-
-        let u_rot = match r_face {
-            Some(r_face) => connecting_rotation_with_face(&new_u, &self.u_face(), &r_face),
-            None => connecting_rotation(&new_u, &self.u_face()),
-        };
+        let u_rot = connecting_rotation_with_face(&new_u, &self.u_face(), &self.r_face);
 
         use std::iter::{empty, once};
         use Either::*;
@@ -93,6 +81,15 @@ impl Orientation {
         }
     }
 
+    /// Takes something given as seen in the current orientation to the default orientation.
+    ///
+    /// For example, if the original U face is now in front, the F move becomes the U move.
+    pub(crate) fn to_default<T: Rotatable>(&self, item: T) -> T {
+        self.rotations()
+            .rev()
+            .fold(item, |item, rotation| item.rotated(&rotation.inverse()))
+    }
+
     pub(super) const fn const_default() -> Self {
         Self {
             r_face: Face::R,
-- 
2.43.0


From 0158a85ac75abbfac5a77f116f1dbfeaf2e4b355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 09/17] fix: wide and slice moves on a held cube

They ignored the orientation, slices turned both outer faces in the same sense,
wide moves turned one layer too few from the other side, and wide moves of about
the size of the cube panicked.
---
 barbarosa/src/cube_n/moves/extended.rs | 61 ++++++++++++++++++--------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/barbarosa/src/cube_n/moves/extended.rs b/barbarosa/src/cube_n/moves/extended.rs
index c8e1758..c6dd4ea 100644
--- a/barbarosa/src/cube_n/moves/extended.rs
+++ b/barbarosa/src/cube_n/moves/extended.rs
@@ -51,10 +51,8 @@ impl Move for ExtendedAxisMove {
     }
 }
 
-fn opposite<const N: u32>(m: &WideAxisMove<N>, depth: u32) -> WideAxisMove<N> {
-    AxisMove::new(m.face().opposite(), m.amount())
-        .widen(depth)
-        .unwrap()
+fn opposite(m: &AxisMove) -> AxisMove {
+    AxisMove::new(m.face.opposite(), m.amount)
 }
 
 // This has to be a macro because the type system can't enforce that a `CubeN::N` is movable by `WideAxisMove<{N / 2 - 1}>`
@@ -72,31 +70,58 @@ macro_rules! impl_movable_extended {
                     ExtendedAxisMove::Regular(m) => self.apply(m),
                     ExtendedAxisMove::Rotation(rot) => self.orientation.rotate(rot),
                     ExtendedAxisMove::Wide(m) => {
-                        let Some(depth_oppossite) = <$cube>::N.checked_sub(m.depth()) else {
-                            // If depth is more than N, then it is equivalent to a rotation
+                        let Some(depth_oppossite) = (<$cube>::N - 1)
+                            .checked_sub(m.depth())
+                            .and_then(|layers_left| layers_left.checked_sub(1))
+                        else {
+                            // If no layers are left out, then it is equivalent to a rotation
                             self.orientation.rotate(&AxisRotation::from(&m.axis_move));
                             return;
                         };
 
-                        let m = if m.depth() < depth_oppossite {
-                            m.clone()
+                        let (face_move, depth, rotation) = if m.depth() <= <$cube>::N / 2 - 1 {
+                            (m.axis_move.clone(), m.depth(), None)
                         } else {
-                            self.orientation.rotate(&AxisRotation::from(&m.axis_move));
-                            opposite(&m, depth_oppossite)
+                            // Turning these layers is the same as turning the rest from the other
+                            // side, except for the rotation of the whole cube.
+                            let rotation = AxisRotation::from(&m.axis_move);
+                            (opposite(&m.axis_move), depth_oppossite, Some(rotation))
                         };
 
-                        let m = m.set_max_depth::<{ <$cube>::N / 2 - 1 }>()
-                            .expect("the depth from both sides can't be larger than N/2");
+                        let m = self
+                            .orientation
+                            .to_default(face_move)
+                            .widen::<{ <$cube>::N / 2 - 1 }>(depth)
+                            .expect("the depth from the nearest side can't be larger than N/2");
                         self.base_cube.apply(&m);
+
+                        if let Some(rotation) = rotation {
+                            self.orientation.rotate(&rotation);
+                        }
                     },
                     ExtendedAxisMove::Slice { rot, wide } => {
-                        for dir in [Direction::Positive, Direction::Negative] {
-                            let depth = match wide {
-                                false => 0,
-                                true => <$cube>::N / 2 - 1,
-                            };
+                        let depth = match wide {
+                            false => 0,
+                            true => <$cube>::N / 2 - 1,
+                        };
 
-                            let m = WideAxisMove::<{ <$cube>::N / 2 - 1 }>::new(Face::new(rot.axis, dir), rot.amount * Direction::Negative, depth).unwrap();
+                        if 2 * (depth + 1) >= <$cube>::N {
+                            // There are no layers inside, so nothing gets turned
+                            return;
+                        }
+
+                        for dir in [Direction::Positive, Direction::Negative] {
+                            // Turning the outer layers backwards and then rotating the cube leaves only the slice turned
+                            let face_move = AxisMove::new(
+                                Face::new(rot.axis, dir),
+                                rot.amount * Direction::Negative * dir,
+                            );
+
+                            let m = self
+                                .orientation
+                                .to_default(face_move)
+                                .widen::<{ <$cube>::N / 2 - 1 }>(depth)
+                                .unwrap();
 
                             self.base_cube.apply(&m);
                         }
-- 
2.43.0


From e70b76030f76bca932e97281465c4da46cdb9349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 10/17] fix: normalising goes back over all turns of the last
 axis

After two turns cancelled, only one of the turns before them was looked at
again, so that R F F' L R became L R R.
---
 barbarosa/src/cube_n/moves/non_redundant.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/barbarosa/src/cube_n/moves/non_redundant.rs b/barbarosa/src/cube_n/moves/non_redundant.rs
index 70036ff..a4dd037 100644
--- a/barbarosa/src/cube_n/moves/non_redundant.rs
+++ b/barbarosa/src/cube_n/moves/non_redundant.rs
@@ -322,11 +322,13 @@ impl Alg<AxisMove> {
                     absorve(&mut nr_move, mov);
                 }
 
-                // If we collapsed something, we need to go back one move to see if we can join it with something else
+                // If we collapsed something, we need to go back to the last axis to see if we can join its moves with something else
                 AbsorveResult::Collapsed => {
                     offload(&mut nr_move, &mut moves);
-                    if let Some(mov) = moves.pop() {
-                        self.moves.push(mov);
+                    if let Some(axis) = moves.last().map(|mov| mov.face.axis) {
+                        while moves.last().is_some_and(|mov| mov.face.axis == axis) {
+                            self.moves.extend(moves.pop());
+                        }
                     }
                 }
 
-- 
2.43.0


From 242697eb7a8c273450d2acc2309d969177f48738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 11/17] fix: search up to the depth limit with heuristics that
 are not whole numbers

---
 barbarosa/src/generic/search/ida.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/barbarosa/src/generic/search/ida.rs b/barbarosa/src/generic/search/ida.rs
index 7fb64da..963e585 100644
--- a/barbarosa/src/generic/search/ida.rs
+++ b/barbarosa/src/generic/search/ida.rs
@@ -97,8 +97,10 @@ where
 {
     fn search(&self, cube: &C, is_target: impl Fn(&C) -> bool) -> Option<(Alg<M>, C)> {
         let mut bound = (self.heuristic)(cube);
+        let max_bound = bound + self.max_depth as f32;
 
-        for _ in 0..=self.max_depth {
+        // The bound grows by less than 1 at a time if the heuristic is not a whole number
+        while bound <= max_bound {
             let mut min_exceeded = bound + 1.0;
             let mut path = Vec::with_capacity(20);
 
@@ -111,6 +113,8 @@ where
                     solution.moves.reverse();
                     return Some((solution, path.into_iter().last()?));
                 }
+                // Nothing is left to explore (it happens if the bound is infinite)
+                None if min_exceeded <= bound => break,
                 None => bound = min_exceeded,
             }
         }
-- 
2.43.0


From 8cf5ecbf10b62b6c46f8a2881a2082523bc36f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:12 +0000
Subject: [PATCH 12/17] fix: the playground ends normally at the end of the
 input

---
 barbarosa/src/main.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/barbarosa/src/main.rs b/barbarosa/src/main.rs
index 6fd8745..d21dd68 100644
--- a/barbarosa/src/main.rs
+++ b/barbarosa/src/main.rs
@@ -33,10 +33,13 @@ fn playground_3x3() {
 
     let mut cube = Orientable::new(Cube3::SOLVED);
 
-    fn playground_loop(cube: &mut Orientable<Cube3>) -> Result<(), Box<dyn std::error::Error>> {
+    /// Returns whether there might be more input.
+    fn playground_loop(cube: &mut Orientable<Cube3>) -> Result<bool, Box<dyn std::error::Error>> {
         print!("> ");
         std::io::stdout().flush()?;
-        let input = std::io::stdin().lock().lines().next().unwrap()?;
+        let Some(input) = std::io::stdin().lock().lines().next().transpose()? else {
+            return Ok(false);
+        };
 
         let mov = Alg::<ExtendedAxisMove>::parse(&input)?;
 
@@ -44,14 +47,16 @@ fn playground_3x3() {
 
         println!("{}", cube.base_cube);
 
-        Ok(())
+        Ok(true)
     }
 
     println!("{}", cube.base_cube);
 
     loop {
-        if let Err(err) = playground_loop(&mut cube) {
-            eprintln!("Error: {}", err);
+        match playground_loop(&mut cube) {
+            Ok(true) => (),
+            Ok(false) => break,
+            Err(err) => eprintln!("Error: {}", err),
         }
     }
 }
-- 
2.43.0


From ca35ad303f2337616c07e883f938e6069324db8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 13/17] fix: the mus cache gets its file name only when it is
 complete

Two programs (or threads) starting at the same time could see each other's half-written cache: one of them panicked ('Cache file seems to be corrupted'), and when the writes are cut short and the second writer is killed after truncating the file, a file of the right size with a hole was left behind, which later starts answered from.
---
 .../cube_n/cube3/mus/cache/disk_storage.rs    | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs b/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs
index 39e7f50..2f66d1e 100644
--- a/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs
+++ b/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs
@@ -1,4 +1,4 @@
-use std::{fs, io, path::Path};
+use std::{fs, io, path::Path, process, thread};
 
 use chrono::Local;
 
@@ -68,19 +68,31 @@ pub fn write_partial<T: DiskCacheable>(bytes: &[u8]) -> io::Result<()> {
     print_with_timestamp::<T>("Writing cache to disk");
     assert_correct_cache_size::<T>(bytes.len());
 
-    match fs::write(T::PATH, bytes) {
-        Ok(data) => data,
+    let path = Path::new(T::PATH);
+
+    // The cache only gets its actual name once it is complete, so that another program (or thread) that is
+    // starting at the same time never sees part of it.
+    let unfinished_path = path.with_extension(format!(
+        "{}-{:?}.unfinished",
+        process::id(),
+        thread::current().id()
+    ));
+
+    match fs::write(&unfinished_path, bytes) {
+        Ok(()) => (),
         Err(err) if err.kind() == io::ErrorKind::NotFound => {
-            let Some(parent) = Path::new(T::PATH).parent() else {
+            let Some(parent) = path.parent() else {
                 return Err(err);
             };
 
             fs::create_dir_all(parent)?;
-            fs::write(T::PATH, bytes)?
+            fs::write(&unfinished_path, bytes)?
         }
         Err(err) => return Err(err),
     };
 
+    fs::rename(&unfinished_path, path)?;
+
     print_with_timestamp::<T>("Cache has been written");
 
     Ok(())
-- 
2.43.0


From 118e62c08457ea95948bb25c1a9cd0ce3ae5b1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:09 +0000
Subject: [PATCH 14/17] fix: a held cube with same-colored centers exchanged
 counts as solved

---
 barbarosa/src/cube_n/orientable/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/barbarosa/src/cube_n/orientable/mod.rs b/barbarosa/src/cube_n/orientable/mod.rs
index 4988e0e..41ea1bd 100644
--- a/barbarosa/src/cube_n/orientable/mod.rs
+++ b/barbarosa/src/cube_n/orientable/mod.rs
@@ -64,6 +64,14 @@ where
     Orientable<C>: Movable<ExtendedAxisMove>,
 {
     const SOLVED: Self = Orientable::new(C::SOLVED);
+
+    fn is_solved(&self) -> bool
+    where
+        Self: 'static,
+    {
+        // The pieces of a solved cube aren't necessarily the ones of `SOLVED` (e.g.: centers of the same color)
+        self.orientation == Orientation::const_default() && self.base_cube.is_solved()
+    }
 }
 
 impl<C: CubeN> AsMove for Orientable<C>
-- 
2.43.0


From d38233b83452174050dfa463546d1a82debce939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:01 +0000
Subject: [PATCH 15/17] fix: random 2x2 cubes never had a twisted corner

---
 barbarosa/src/cube_n/cube2/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/barbarosa/src/cube_n/cube2/mod.rs b/barbarosa/src/cube_n/cube2/mod.rs
index 168a20a..aa56eb6 100644
--- a/barbarosa/src/cube_n/cube2/mod.rs
+++ b/barbarosa/src/cube_n/cube2/mod.rs
@@ -41,6 +41,10 @@ impl Distribution<Cube2> for Standard {
 
         cube.corners.shuffle(rng);
 
+        cube.corners
+            .iter_mut_unchecked()
+            .for_each(|corner| corner.orientation_axis = rng.gen());
+
         fix_corner_multiplicity(&mut cube.corners);
 
         cube
-- 
2.43.0


From b6372125060477166a494a365690fb4eff41e53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:37 +0000
Subject: [PATCH 16/17] fix: the search overflows the stack if the estimate of
 the start is infinite

---
 barbarosa/src/generic/search/ida.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/barbarosa/src/generic/search/ida.rs b/barbarosa/src/generic/search/ida.rs
index 963e585..c06b195 100644
--- a/barbarosa/src/generic/search/ida.rs
+++ b/barbarosa/src/generic/search/ida.rs
@@ -99,8 +99,9 @@ where
         let mut bound = (self.heuristic)(cube);
         let max_bound = bound + self.max_depth as f32;
 
-        // The bound grows by less than 1 at a time if the heuristic is not a whole number
-        while bound <= max_bound {
+        // The bound grows by less than 1 at a time if the heuristic is not a whole number, and an
+        // infinite one is no bound (the estimate says that there is no solution)
+        while bound <= max_bound && bound.is_finite() {
             let mut min_exceeded = bound + 1.0;
             let mut path = Vec::with_capacity(20);
 
@@ -113,7 +114,7 @@ where
                     solution.moves.reverse();
                     return Some((solution, path.into_iter().last()?));
                 }
-                // Nothing is left to explore (it happens if the bound is infinite)
+                // The bound is too large to grow
                 None if min_exceeded <= bound => break,
                 None => bound = min_exceeded,
             }
-- 
2.43.0


From 80cd87198416c7d7bb0f8b372b87deb90564af3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:04 +0000
Subject: [PATCH 17/17] verif_hooks: piece sets without their depth

---
 barbarosa/src/cube_n/cube4/mod.rs | 14 ++++++++++++--
 barbarosa/src/cube_n/cube5/mod.rs | 12 ++++++------
 barbarosa/src/cube_n/cube6/mod.rs | 20 ++++++++++----------
 barbarosa/src/cube_n/cube7/mod.rs | 28 ++++++++++++++--------------
 4 files changed, 42 insertions(+), 32 deletions(-)

diff --git a/barbarosa/src/cube_n/cube4/mod.rs b/barbarosa/src/cube_n/cube4/mod.rs
index 9024ae5..12c04c4 100644
--- a/barbarosa/src/cube_n/cube4/mod.rs
+++ b/barbarosa/src/cube_n/cube4/mod.rs
@@ -55,8 +55,18 @@ impl CubeN for Cube4 {
 impl Cube4 {
     /// Access to the piece sets for verification harnesses.
     #[allow(clippy::type_complexity)]
-    pub fn verif_parts(&mut self) -> (&mut CornerSet, &mut WingSet<1>, &mut CenterCornerSet<1>) {
-        (&mut self.corners, &mut self.wings, &mut self.centers)
+    pub fn verif_parts(
+        &mut self,
+    ) -> (
+        &mut CornerSet,
+        &mut crate::generic::PieceSet<crate::cube_n::pieces::wing::Wing, 24>,
+        &mut crate::generic::PieceSet<crate::cube_n::pieces::center::corner::CenterCorner, 24>,
+    ) {
+        (
+            &mut self.corners,
+            &mut self.wings.set,
+            &mut self.centers.set,
+        )
     }
 }
 
diff --git a/barbarosa/src/cube_n/cube5/mod.rs b/barbarosa/src/cube_n/cube5/mod.rs
index be362b3..cc5f751 100644
--- a/barbarosa/src/cube_n/cube5/mod.rs
+++ b/barbarosa/src/cube_n/cube5/mod.rs
@@ -74,16 +74,16 @@ impl Cube5 {
     ) -> (
         &mut CornerSet,
         &mut EdgeSet,
-        &mut WingSet<1>,
-        &mut CenterCornerSet<1>,
-        &mut CenterEdgeSet<1>,
+        &mut crate::generic::PieceSet<crate::cube_n::pieces::wing::Wing, 24>,
+        &mut crate::generic::PieceSet<crate::cube_n::pieces::center::corner::CenterCorner, 24>,
+        &mut crate::generic::PieceSet<crate::cube_n::pieces::center::edge::CenterEdge, 24>,
     ) {
         (
             &mut self.corners,
             &mut self.edges,
-            &mut self.wings,
-            &mut self.corner_centers,
-            &mut self.corner_edges,
+            &mut self.wings.set,
+            &mut self.corner_centers.set,
+            &mut self.corner_edges.set,
         )
     }
 }
diff --git a/barbarosa/src/cube_n/cube6/mod.rs b/barbarosa/src/cube_n/cube6/mod.rs
index 2959b78..9495b83 100644
--- a/barbarosa/src/cube_n/cube6/mod.rs
+++ b/barbarosa/src/cube_n/cube6/mod.rs
@@ -77,19 +77,19 @@ impl Cube6 {
         &mut self,
     ) -> (
         &mut CornerSet,
-        &mut WingSet<1>,
-        &mut WingSet<2>,
-        &mut CenterCornerSet<1>,
-        &mut CenterCornerSet<2>,
-        &mut CenterWingSet<1, 2>,
+        &mut crate::generic::PieceSet<crate::cube_n::pieces::wing::Wing, 24>,
+        &mut crate::generic::PieceSet<crate::cube_n::pieces::wing::Wing, 24>,
+        &mut crate::generic::PieceSet<crate::cube_n::pieces::center::corner::CenterCorner, 24>,
+        &mut crate::generic::PieceSet<crate::cube_n::pieces::center::corner::CenterCorner, 24>,
+        &mut crate::generic::PieceSet<crate::cube_n::pieces::center::wing::CenterWing, 48>,
     ) {
         (
             &mut self.corners,
-            &mut self.wings_1,
-            &mut self.wings_2,
-            &mut self.center_corners_1,
-            &mut self.center_corners_2,
-            &mut self.center_wings,
+            &mut self.wings_1.set,
+            &mut self.wings_2.set,
+            &mut self.center_corners_1.set,
+            &mut self.center_corners_2.set,
+            &mut self.center_wings.set,
         )
     }
 }
diff --git a/barbarosa/src/cube_n/cube7/mod.rs b/barbarosa/src/cube_n/cube7/mod.rs
index 00d0145..da8af95 100644
--- a/barbarosa/src/cube_n/cube7/mod.rs
+++ b/barbarosa/src/cube_n/cube7/mod.rs
@@ -92,24 +92,24 @@ impl Cube7 {
     ) -> (
         &mut CornerSet,
         &mut EdgeSet,
-        &mut WingSet<1>,
-        &mut WingSet<2>,
-        &mut CenterCornerSet<1>,
-        &mut CenterCornerSet<2>,
-        &mut CenterWingSet<1, 2>,
-        &mut CenterEdgeSet<1>,
-        &mut CenterEdgeSet<2>,
+        &mut crate::generic::PieceSet<crate::cube_n::pieces::wing::Wing, 24>,
+        &mut crate::generic::PieceSet<crate::cube_n::pieces::wing::Wing, 24>,
+        &mut crate::generic::PieceSet<crate::cube_n::pieces::center::corner::CenterCorner, 24>,
+        &mut crate::generic::PieceSet<crate::cube_n::pieces::center::corner::CenterCorner, 24>,
+        &mut crate::generic::PieceSet<crate::cube_n::pieces::center::wing::CenterWing, 48>,
+        &mut crate::generic::PieceSet<crate::cube_n::pieces::center::edge::CenterEdge, 24>,
+        &mut crate::generic::PieceSet<crate::cube_n::pieces::center::edge::CenterEdge, 24>,
     ) {
         (
             &mut self.corners,
             &mut self.edges,
-            &mut self.wings_1,
-            &mut self.wings_2,
-            &mut self.center_corners_1,
-            &mut self.center_corners_2,
-            &mut self.center_wings,
-            &mut self.center_edges_1,
-            &mut self.center_edges_2,
+            &mut self.wings_1.set,
+            &mut self.wings_2.set,
+            &mut self.center_corners_1.set,
+            &mut self.center_corners_2.set,
+            &mut self.center_wings.set,
+            &mut self.center_edges_1.set,
+            &mut self.center_edges_2.set,
         )
     }
 }
-- 
2.43.0


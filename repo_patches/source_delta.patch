From 6c553bccdb2241927776c35631987397ccad0f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 01/18] fix: reject (i32, i32) coordinates that do not fit in
 u16

The conversion truncated the coordinates to 16 bits before checking the
bounds, so (65536, 0) or (-65536, 0) became (0, 0).
---
 src/sqrid/pos.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sqrid/pos.rs b/src/sqrid/pos.rs
index edc548d..9e27cdc 100644
--- a/src/sqrid/pos.rs
+++ b/src/sqrid/pos.rs
@@ -233,7 +233,9 @@ impl<const XMAX: u16, const YMAX: u16> convert::TryFrom<&(i32, i32)> for Pos<XMA
     type Error = Error;
     #[inline]
     fn try_from(xy: &(i32, i32)) -> Result<Self, Self::Error> {
-        Pos::new(xy.0 as u16, xy.1 as u16)
+        let x = u16::try_from(xy.0).map_err(|_| Error::OutOfBounds)?;
+        let y = u16::try_from(xy.1).map_err(|_| Error::OutOfBounds)?;
+        Pos::new(x, y)
     }
 }
 
-- 
2.43.0


From 3fe7437fb182011073dbfa8abff73a20d3a5876d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:03 +0000
Subject: [PATCH 02/18] fix: yield the last position of a range that touches
 the bottom line

When the range ended in the last line of the grid but not in its last
column, the iterator returned None instead of the bottom-right corner.
---
 src/sqrid/postrait.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index 27d61a6..c2d223a 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -517,8 +517,7 @@ impl<P: PosT> Iterator for PosTIterRange<P> {
                 if p.x() < self.topleft.x() {
                     pos = P::new(self.topleft.x(), p.y()).ok();
                 } else if p.x() > self.botright.x() {
-                    let y = p.y().inc()?;
-                    pos = P::new(self.topleft.x(), y).ok();
+                    pos = p.y().inc().and_then(|y| P::new(self.topleft.x(), y).ok());
                 }
             }
             self.value = pos.filter(|p| p.y() <= self.botright.y());
-- 
2.43.0


From b3c6caddc4622c76c97053b719e2bd3619b6a606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 03/18] fix: bound path reconstruction by the number of
 positions

The loop detection used width * width, which reports long but valid paths
in tall grids as loops.
---
 src/sqrid/mappos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/mappos.rs b/src/sqrid/mappos.rs
index ee94def..e8e233b 100644
--- a/src/sqrid/mappos.rs
+++ b/src/sqrid/mappos.rs
@@ -112,7 +112,7 @@ where
         return Err(Error::DestinationUnreachable);
     }
     // Maximum iterations is the number of coordinates
-    let mut maxiter = P::width() * P::width() + 1;
+    let mut maxiter = P::width() * P::height() + 1;
     while &pos != orig {
         let dir = map.get(&pos).ok_or(Error::InvalidMovement)?;
         ret.push_front(-dir);
-- 
2.43.0


From 4977450a8210c28de4c036b898a24802c6ef9242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 04/18] fix: rotate all rings of a Gridbool

XYMAX is the maximum coordinate, not the width: grids with an even width
had their innermost ring left in place.
---
 src/sqrid/gridbool.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/gridbool.rs b/src/sqrid/gridbool.rs
index e5f1557..e9b0bf0 100644
--- a/src/sqrid/gridbool.rs
+++ b/src/sqrid/gridbool.rs
@@ -220,7 +220,7 @@ impl<P: PosT, const WORDS: usize> Gridbool<P, WORDS> {
 impl<const XYMAX: u16, const WORDS: usize> Gridbool<Pos<XYMAX, XYMAX>, WORDS> {
     /// Rotate all elements 90 degrees clockwise
     pub fn rotate_cw(&mut self) {
-        for y in 0..XYMAX / 2 {
+        for y in 0..=XYMAX / 2 {
             for x in y..XYMAX - y {
                 let pos0 = Pos::<XYMAX, XYMAX>::try_from((x, y)).unwrap();
                 let pos1 = pos0.rotate_cw();
@@ -241,7 +241,7 @@ impl<const XYMAX: u16, const WORDS: usize> Gridbool<Pos<XYMAX, XYMAX>, WORDS> {
     }
     /// Rotate all elements 90 degrees counterclockwise
     pub fn rotate_cc(&mut self) {
-        for y in 0..XYMAX / 2 {
+        for y in 0..=XYMAX / 2 {
             for x in y..XYMAX - y {
                 let pos0 = Pos::<XYMAX, XYMAX>::try_from((x, y)).unwrap();
                 let pos1 = pos0.rotate_cw();
-- 
2.43.0


From 6840ed6ce39e4c5dc736408333bf6e5858f8a484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 05/18] fix: leave the unused bits of a Gridbool cleared

Gridbool::repeat(true) also set the bits that correspond to no position,
which made it differ from an equal gridbool that was built by setting all
positions.
---
 src/sqrid/gridbool.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sqrid/gridbool.rs b/src/sqrid/gridbool.rs
index e9b0bf0..4f92976 100644
--- a/src/sqrid/gridbool.rs
+++ b/src/sqrid/gridbool.rs
@@ -87,7 +87,14 @@ impl<P: PosT, const WORDS: usize> Gridbool<P, WORDS> {
         } else {
             Self::WORD_FALSE
         };
-        Gridbool([v; WORDS], std::marker::PhantomData)
+        let mut words = [v; WORDS];
+        // Keep the bits beyond the last position cleared, as gridbools are
+        // compared and hashed by their words:
+        let nbits = P::WIDTH * P::HEIGHT;
+        if nbits / 32 < WORDS {
+            words[nbits / 32] &= !(Self::WORD_TRUE >> (nbits % 32));
+        }
+        Gridbool(words, std::marker::PhantomData)
     }
 
     #[inline]
-- 
2.43.0


From 6a46f71cff90b47cbb2640abb2807d0d02e02fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 06/18] fix: count all values in the dimensions of tuple
 positions

WIDTH and HEIGHT are the number of possible coordinates, one more than the
difference between the largest and the smallest.
---
 src/sqrid/postrait.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index c2d223a..1cb93b6 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -586,8 +586,10 @@ macro_rules! postrait_integer_impl {
         impl PosT for ($xtype, $ytype) {
             type Xtype = $xtype;
             type Ytype = $ytype;
-            const WIDTH: usize = { <$xtype>::MAX as isize - <$xtype>::MIN as isize } as usize;
-            const HEIGHT: usize = { <$ytype>::MAX as isize - <$ytype>::MIN as isize } as usize;
+            const WIDTH: usize =
+                ({ <$xtype>::MAX as isize - <$xtype>::MIN as isize } as usize).saturating_add(1);
+            const HEIGHT: usize =
+                ({ <$ytype>::MAX as isize - <$ytype>::MIN as isize } as usize).saturating_add(1);
             fn new_(xy: ($xtype, $ytype)) -> Self {
                 xy
             }
-- 
2.43.0


From fe92c066e724b5c300a246a655a2f0d1583f641d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 07/18] fix: check the SIZE of a Grid at compile time

The assertion was never instantiated, so a Grid with a SIZE smaller than
its number of positions compiled and was accessed out of bounds.
---
 src/sqrid/grid.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sqrid/grid.rs b/src/sqrid/grid.rs
index 6073151..d02e01e 100644
--- a/src/sqrid/grid.rs
+++ b/src/sqrid/grid.rs
@@ -79,6 +79,7 @@ impl<T, P: PosT, const SIZE: usize> Grid<T, P, SIZE> {
     where
         T: Copy,
     {
+        let _ = Self::_ASSERTS;
         Grid([item; SIZE], std::marker::PhantomData)
     }
 
@@ -239,6 +240,7 @@ impl<T, const W: u16, const SIZE: usize> Grid<T, Pos<W, W>, SIZE> {
 
 impl<T: Default, P: PosT, const SIZE: usize> Default for Grid<T, P, SIZE> {
     fn default() -> Self {
+        let _ = Self::_ASSERTS;
         Self(
             std::array::from_fn(|_| (T::default())),
             std::marker::PhantomData,
@@ -264,6 +266,7 @@ impl<T: Default, P: PosT, const SIZE: usize> TryFrom<Vec<Vec<T>>> for Grid<T, P,
     type Error = Error;
     #[inline]
     fn try_from(mut vec: Vec<Vec<T>>) -> Result<Self, Self::Error> {
+        let _ = Self::_ASSERTS;
         if vec.len() > P::height() || vec.iter().any(|v| v.len() > P::width()) {
             return Err(Error::OutOfBounds);
         }
-- 
2.43.0


From 60e8f01bc4d451e9a4df5e3e4f0749f9d3cbf21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 08/18] fix: do not truncate the coordinates of nested vectors

Grid::extend_from_vecvec wrapped line and column numbers above 65535
around to the start of the grid instead of returning an error.
---
 src/sqrid/grid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/grid.rs b/src/sqrid/grid.rs
index d02e01e..116e6a3 100644
--- a/src/sqrid/grid.rs
+++ b/src/sqrid/grid.rs
@@ -192,7 +192,7 @@ impl<T, P: PosT, const SIZE: usize> Grid<T, P, SIZE> {
     pub fn extend_from_vecvec(&mut self, v: Vec<Vec<T>>) -> Result<(), Error> {
         for (y, line) in v.into_iter().enumerate() {
             for (x, c) in line.into_iter().enumerate() {
-                let p = P::new(x as u16, y as u16)?;
+                let p = P::new(x, y)?;
                 self[p] = c;
             }
         }
-- 
2.43.0


From 0f2d1551dca5135f654af01a11532d481784c2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:36 +0000
Subject: [PATCH 09/18] fix: return None in Dir::NW.next::<false>()

It indexed beyond the end of the list of directions.
---
 src/sqrid/dir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/dir.rs b/src/sqrid/dir.rs
index a9ca60f..c8a589d 100644
--- a/src/sqrid/dir.rs
+++ b/src/sqrid/dir.rs
@@ -166,7 +166,7 @@ impl Dir {
     pub const fn next<const D: bool>(&self) -> Option<Self> {
         // PartialEq is no const, but this is:
         let index = *self as usize;
-        if (D && index == 7) || (!D && index == 6) {
+        if (D && index == 7) || (!D && index >= 6) {
             None
         } else if D {
             Some(Dir::ALL8[(*self as usize) + 1])
-- 
2.43.0


From 4d7b970ebee6c8e35c45eab11bb3e7b08eb7f07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 10/18] fix: do not visit the origin again in breadth-first
 iteration

The origin was only marked as visited after its neighbors were processed,
so a movement function that stays in place made it appear twice.
---
 src/sqrid/bf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/bf.rs b/src/sqrid/bf.rs
index a982bb4..ccf25c3 100644
--- a/src/sqrid/bf.rs
+++ b/src/sqrid/bf.rs
@@ -135,6 +135,7 @@ where
             return None;
         }
         for &(pos, _) in &front {
+            self.visited.insert(pos);
             for dir in Dir::iter::<D>() {
                 if let Some(next_pos) = (self.go)(pos, dir) {
                     if self.visited.contains(&next_pos) {
@@ -144,7 +145,6 @@ where
                     self.visited.insert(next_pos);
                 }
             }
-            self.visited.insert(pos);
         }
         Some(front)
     }
-- 
2.43.0


From 763fa9c2ddb7d3132fce397592d208f651ca2e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 11/18] fix: start line and column iteration at the smallest
 coordinate

iter_in_x and iter_in_y started at the default value, 0, and skipped the
negative coordinates of signed positions.
---
 src/sqrid/postrait.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index 1cb93b6..bb6a249 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -343,7 +343,7 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     where
         Self: std::marker::Sized,
     {
-        PosTIterInX::<Self>(Some(Self::new_((x, Default::default()))))
+        PosTIterInX::<Self>(Some(Self::new_((x, Self::Ytype::MIN))))
     }
 
     /// Return an iterator that returns all positions in a line.
@@ -351,7 +351,7 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     where
         Self: std::marker::Sized,
     {
-        PosTIterInY::<Self>(Some(Self::new_((Default::default(), y))))
+        PosTIterInY::<Self>(Some(Self::new_((Self::Xtype::MIN, y))))
     }
 
     /// Calculate a top-left and a bottom-right Pos's that contains all iterated points.
-- 
2.43.0


From 76e0958bbd06a5d12a9e1973b5fd3709ca27cc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 12/18] fix: ignore superseded entries in uniform-cost search

A position that had been improved while in the frontier was yielded again
with its older, more expensive movement, which then replaced the best one
in the resulting path.
---
 src/sqrid/ucs.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/sqrid/ucs.rs b/src/sqrid/ucs.rs
index 6fafec4..47df2b2 100644
--- a/src/sqrid/ucs.rs
+++ b/src/sqrid/ucs.rs
@@ -117,11 +117,15 @@ where
 {
     type Item = (P, Dir);
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some((_, mov)) = self.frontier.pop() {
+        while let Some((Reverse(cost), mov)) = self.frontier.pop() {
             let pos = mov.0;
+            if cost > *self.cost.get(&pos) {
+                // A cheaper way to this position was already yielded
+                continue;
+            }
             for dir in Dir::iter::<D>() {
                 if let Some((next_pos, costincr)) = (self.go)(pos, dir) {
-                    let newcost = self.cost.get(&pos) + costincr;
+                    let newcost = cost + costincr;
                     if newcost < *self.cost.get(&next_pos) {
                         self.cost.set(next_pos, newcost);
                         let priority = Reverse(newcost);
@@ -129,10 +133,9 @@ where
                     }
                 }
             }
-            Some(mov)
-        } else {
-            None
+            return Some(mov);
         }
+        None
     }
 }
 
-- 
2.43.0


From 6e47b68276050944ecc805c5935e7523da93a6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 13/18] fix: saturate the path cost in uniform-cost search

A cost that overflowed panicked in debug builds, and wrapped around to a
cheap path in release builds.
---
 src/sqrid/ucs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/ucs.rs b/src/sqrid/ucs.rs
index 47df2b2..549635e 100644
--- a/src/sqrid/ucs.rs
+++ b/src/sqrid/ucs.rs
@@ -125,7 +125,7 @@ where
             }
             for dir in Dir::iter::<D>() {
                 if let Some((next_pos, costincr)) = (self.go)(pos, dir) {
-                    let newcost = cost + costincr;
+                    let newcost = cost.saturating_add(costincr);
                     if newcost < *self.cost.get(&next_pos) {
                         self.cost.set(next_pos, newcost);
                         let priority = Reverse(newcost);
-- 
2.43.0


From 43658bad35e64f52fff7ba70160706774de5ade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 14/18] fix: ignore superseded entries in A* search

A position that had been improved while in the frontier was yielded again
with its older, longer movement, which then replaced the best one in the
resulting path.
---
 src/sqrid/astar.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/sqrid/astar.rs b/src/sqrid/astar.rs
index e0e1292..0d107e7 100644
--- a/src/sqrid/astar.rs
+++ b/src/sqrid/astar.rs
@@ -109,10 +109,15 @@ where
 {
     type Item = (P, Dir);
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some((_, mov)) = self.frontier.pop() {
+        while let Some((Reverse(priority), mov)) = self.frontier.pop() {
             let pos = mov.0;
+            let cost = *self.cost.get(&pos);
+            if priority > cost + pos.manhattan(&self.dest) {
+                // A shorter way to this position was already yielded
+                continue;
+            }
             for dir in Dir::iter::<D>() {
-                let newcost = self.cost.get(&pos) + 1;
+                let newcost = cost + 1;
                 if let Some(next_pos) = (self.go)(pos, dir) {
                     if newcost < *self.cost.get(&next_pos) {
                         self.cost.set(next_pos, newcost);
@@ -121,10 +126,9 @@ where
                     }
                 }
             }
-            Some(mov)
-        } else {
-            None
+            return Some(mov);
         }
+        None
     }
 }
 
-- 
2.43.0


From 33ba6b0fa359d07facfc2e2c5d82bca60ebbd00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 15/18] fix: use an admissible distance in A* with diagonals

The manhattan distance overestimates the number of movements when
diagonals are allowed, which led to paths that are not the shortest.
---
 src/sqrid/astar.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/astar.rs b/src/sqrid/astar.rs
index 0d107e7..64038b2 100644
--- a/src/sqrid/astar.rs
+++ b/src/sqrid/astar.rs
@@ -99,6 +99,17 @@ impl<F, MapPosUsize, P: PosT, const D: bool, const WORDS: usize, const SIZE: usi
     }
 }
 
+/// Lower bound of the number of movements between the two positions
+fn distance<P: PosT, const D: bool>(pos: &P, dest: &P) -> usize {
+    if D {
+        // A diagonal movement covers both axes at once
+        let corner = P::new_((pos.x(), dest.y()));
+        pos.manhattan(&corner).max(corner.manhattan(dest))
+    } else {
+        pos.manhattan(dest)
+    }
+}
+
 impl<F, MapPosUsize, P: PosT, const D: bool, const WORDS: usize, const SIZE: usize> Iterator
     for AstarIterator<F, MapPosUsize, P, D, WORDS, SIZE>
 where
@@ -112,7 +123,7 @@ where
         while let Some((Reverse(priority), mov)) = self.frontier.pop() {
             let pos = mov.0;
             let cost = *self.cost.get(&pos);
-            if priority > cost + pos.manhattan(&self.dest) {
+            if priority > cost + distance::<P, D>(&pos, &self.dest) {
                 // A shorter way to this position was already yielded
                 continue;
             }
@@ -121,7 +132,7 @@ where
                 if let Some(next_pos) = (self.go)(pos, dir) {
                     if newcost < *self.cost.get(&next_pos) {
                         self.cost.set(next_pos, newcost);
-                        let priority = Reverse(newcost + next_pos.manhattan(&self.dest));
+                        let priority = Reverse(newcost + distance::<P, D>(&next_pos, &self.dest));
                         self.frontier.push((priority, (next_pos, -dir)));
                     }
                 }
-- 
2.43.0


From 624b661964ec18e8ad9c6bb5ca0399468ad577cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 16/18] fix: do not promise more positions than an iterator has
 left

The size hints of the position iterators were constant, so a partly
consumed or a range iterator announced positions it would not return.
---
 src/sqrid/postrait.rs | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index bb6a249..2177c33 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -461,8 +461,14 @@ impl<const XFIRST: bool, P: PosT> Iterator for PosTIter<XFIRST, P> {
         old
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::dimensions();
-        (size, Some(size))
+        let size = P::WIDTH.checked_mul(P::HEIGHT);
+        match (self.cur, self.end) {
+            (None, _) | (_, None) => (0, Some(0)),
+            (Some(cur), Some(end)) if cur == P::first() && end == P::last() => {
+                (size.unwrap_or(usize::MAX), size)
+            }
+            _ => (1, size),
+        }
     }
 }
 
@@ -527,13 +533,24 @@ impl<P: PosT> Iterator for PosTIterRange<P> {
         }
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::width() * P::height();
-        (size, Some(size))
+        (
+            self.value.is_some() as usize,
+            P::WIDTH.checked_mul(P::HEIGHT),
+        )
     }
 }
 
 /* PosIterInX/Y*/
 
+/// Iterator `size_hint` for the values between `cur` and the last one
+fn size_hint_until_last<T: BoundedInt>(cur: T) -> (usize, Option<usize>) {
+    let size = T::MAX
+        .checked_sub(cur)
+        .and_then(|n| n.try_into().ok())
+        .and_then(|n: usize| n.checked_add(1));
+    (size.unwrap_or(1), size)
+}
+
 /// Iterator for a specific column
 ///
 /// Given a column `x`, return all position values in that column.
@@ -551,8 +568,10 @@ impl<P: PosT> Iterator for PosTIterInX<P> {
         }
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::height();
-        (size, Some(size))
+        match self.0 {
+            Some(pos) => size_hint_until_last(pos.y()),
+            None => (0, Some(0)),
+        }
     }
 }
 
@@ -574,8 +593,10 @@ impl<P: PosT> Iterator for PosTIterInY<P> {
         }
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::width();
-        (size, Some(size))
+        match self.0 {
+            Some(pos) => size_hint_until_last(pos.x()),
+            None => (0, Some(0)),
+        }
     }
 }
 
-- 
2.43.0


From 398e71d734cd110304130a80ae3eb59139e46fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:41 +0000
Subject: [PATCH 17/18] fix: camefrom_into_path with positions of wide integer
 types

The loop bound and the initial capacity overflowed or panicked with
tuple positions such as (u32, u32), and the bound was too low for signed
ones; use the saturating number of positions and let the deque grow.
---
 src/sqrid/mappos.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/sqrid/mappos.rs b/src/sqrid/mappos.rs
index e8e233b..7af9ac4 100644
--- a/src/sqrid/mappos.rs
+++ b/src/sqrid/mappos.rs
@@ -105,14 +105,13 @@ where
     P: std::ops::Add<Dir, Output = Result<P, Error>>,
     MapPosDir: MapPos<Option<Dir>, P, WORDS, SIZE>,
 {
-    let distance = orig.manhattan(dest);
-    let mut ret = collections::VecDeque::<Dir>::with_capacity(2 * distance);
+    let mut ret = collections::VecDeque::<Dir>::new();
     let mut pos = *dest;
     if map.get(&pos).is_none() {
         return Err(Error::DestinationUnreachable);
     }
     // Maximum iterations is the number of coordinates
-    let mut maxiter = P::width() * P::height() + 1;
+    let mut maxiter = P::WIDTH.saturating_mul(P::HEIGHT).saturating_add(1);
     while &pos != orig {
         let dir = map.get(&pos).ok_or(Error::InvalidMovement)?;
         ret.push_front(-dir);
-- 
2.43.0


From fdcd0ded1dc8f51fa27572693cc6cca23200ebe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 18/18] fix: breadth-first search accepts an origin that is a
 goal

As A* and uniform-cost search do: the path is empty.
---
 src/sqrid/bf.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sqrid/bf.rs b/src/sqrid/bf.rs
index ccf25c3..4fbb23d 100644
--- a/src/sqrid/bf.rs
+++ b/src/sqrid/bf.rs
@@ -194,6 +194,11 @@ where
     P: Copy,
 {
     let mut from = MapPosDir::default();
+    // The iterator doesn't yield the origin
+    if found(*orig) {
+        from.set(*orig, Some(Dir::default()));
+        return Ok((*orig, from));
+    }
     for (pos, dir) in bf_iter::<GoFn, MySetPos, P, D, WORDS, SIZE>(go, orig).flatten() {
         from.set(pos, Some(dir));
         if found(pos) {
-- 
2.43.0


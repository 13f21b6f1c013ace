From 69d258441245c4884d005e1cfb53101db49dec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 1/6] fix: FlatIter skips empty sub-sequences instead of ending
 the iteration early

---
 src/matrix/base/iter.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/matrix/base/iter.rs b/src/matrix/base/iter.rs
index dcf7eaa..b78b7d0 100644
--- a/src/matrix/base/iter.rs
+++ b/src/matrix/base/iter.rs
@@ -35,12 +35,12 @@ where
 {
     type Item = II::Item;
     fn next(&mut self) -> Option<Self::Item> {
-        self.subiter.next().or_else(|| {
-            self.iter.next().and_then(|a| {
-                self.subiter = a.into_iter();
-                self.subiter.next()
-            })
-        })
+        loop {
+            if let Some(x) = self.subiter.next() {
+                break Some(x);
+            }
+            self.subiter = self.iter.next()?.into_iter();
+        }
     }
 }
 
-- 
2.43.0


From 679d7c431e70bd3c5cb883cd32abd9b19c15fe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 2/6] fix: iterating a matrix with zero rows yields nothing
 instead of panicking

---
 src/matrix/base/iter.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/matrix/base/iter.rs b/src/matrix/base/iter.rs
index b78b7d0..6a8b69a 100644
--- a/src/matrix/base/iter.rs
+++ b/src/matrix/base/iter.rs
@@ -9,7 +9,7 @@ where
     II: Iterator,
 {
     iter: I,
-    subiter: II,
+    subiter: Option<II>,
 }
 
 impl<I, IT, II> FlatIter<I, IT, II>
@@ -22,9 +22,16 @@ where
     pub fn new(mut iter: I) -> Option<Self> {
         iter.next().map(|a| Self {
             iter,
-            subiter: a.into_iter(),
+            subiter: Some(a.into_iter()),
         })
     }
+    /// Create `FlatIter` from sequence that may be empty.
+    fn from_rows(iter: I) -> Self {
+        Self {
+            iter,
+            subiter: None,
+        }
+    }
 }
 
 impl<I, IT, II> Iterator for FlatIter<I, IT, II>
@@ -36,10 +43,10 @@ where
     type Item = II::Item;
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            if let Some(x) = self.subiter.next() {
+            if let Some(x) = self.subiter.as_mut().and_then(|s| s.next()) {
                 break Some(x);
             }
-            self.subiter = self.iter.next()?.into_iter();
+            self.subiter = Some(self.iter.next()?.into_iter());
         }
     }
 }
@@ -47,11 +54,11 @@ where
 impl<T, const M: usize, const N: usize> Matrix<T, M, N> {
     /// Returns iterator over matrix element refrences.
     pub fn iter(&self) -> impl Iterator<Item = &T> {
-        FlatIter::new(self.data.iter()).unwrap()
+        FlatIter::from_rows(self.data.iter())
     }
     /// Returns iterator over matrix element mutable refrences.
     pub fn iter_mut(&mut self) -> impl Iterator<Item = &mut T> {
-        FlatIter::new(self.data.iter_mut()).unwrap()
+        FlatIter::from_rows(self.data.iter_mut())
     }
 }
 
@@ -66,14 +73,14 @@ impl<T, const M: usize, const N: usize> IntoIterator for Matrix<T, M, N> {
     >;
 
     fn into_iter(self) -> Self::IntoIter {
-        Self::IntoIter::new(self.data.into_iter()).unwrap()
+        Self::IntoIter::from_rows(self.data.into_iter())
     }
 }
 impl<'a, T, const M: usize, const N: usize> IntoIterator for &'a Matrix<T, M, N> {
     type Item = &'a T;
     type IntoIter = FlatIter<slice::Iter<'a, Vector<T, N>>, &'a Vector<T, N>, slice::Iter<'a, T>>;
     fn into_iter(self) -> Self::IntoIter {
-        Self::IntoIter::new(self.data.iter()).unwrap()
+        Self::IntoIter::from_rows(self.data.iter())
     }
 }
 impl<'a, T, const M: usize, const N: usize> IntoIterator for &'a mut Matrix<T, M, N> {
@@ -81,7 +88,7 @@ impl<'a, T, const M: usize, const N: usize> IntoIterator for &'a mut Matrix<T, M
     type IntoIter =
         FlatIter<slice::IterMut<'a, Vector<T, N>>, &'a mut Vector<T, N>, slice::IterMut<'a, T>>;
     fn into_iter(self) -> Self::IntoIter {
-        Self::IntoIter::new(self.data.iter_mut()).unwrap()
+        Self::IntoIter::from_rows(self.data.iter_mut())
     }
 }
 
-- 
2.43.0


From b9399555a9fbb277fa8896412ab4a444006e6ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 3/6] fix: formatting an empty vector no longer underflows the
 element count

---
 src/vector/base/format.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/vector/base/format.rs b/src/vector/base/format.rs
index c76a13c..6264eda 100644
--- a/src/vector/base/format.rs
+++ b/src/vector/base/format.rs
@@ -7,11 +7,13 @@ where
 {
     fn fmt(&self, f: &mut Formatter) -> FmtResult {
         write!(f, "Vector{}(", N)?;
-        for i in 0..(N - 1) {
-            write!(f, "{:?}, ", self[i])?;
+        for (i, x) in self.iter().enumerate() {
+            if i != 0 {
+                write!(f, ", ")?;
+            }
+            write!(f, "{:?}", x)?;
         }
-        write!(f, "{:?})", self[N - 1])?;
-        Ok(())
+        write!(f, ")")
     }
 }
 
@@ -21,10 +23,12 @@ where
 {
     fn fmt(&self, f: &mut Formatter) -> FmtResult {
         write!(f, "Vector{}(", N)?;
-        for i in 0..(N - 1) {
-            write!(f, "{}, ", self[i])?;
+        for (i, x) in self.iter().enumerate() {
+            if i != 0 {
+                write!(f, ", ")?;
+            }
+            write!(f, "{}", x)?;
         }
-        write!(f, "{})", self[N - 1])?;
-        Ok(())
+        write!(f, ")")
     }
 }
-- 
2.43.0


From daf74fe42b0e0d0c68caebca3203acfaaf3f34cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 4/6] fix: Scale with a negative magnitude flips directions and
 normals

---
 src/transform/scale.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/transform/scale.rs b/src/transform/scale.rs
index 29295ae..85d555a 100644
--- a/src/transform/scale.rs
+++ b/src/transform/scale.rs
@@ -6,7 +6,7 @@ use crate::{
 };
 #[cfg(feature = "approx")]
 use approx::{abs_diff_eq, AbsDiffEq};
-use num_traits::{Num, Inv};
+use num_traits::{Num, Inv, Signed};
 #[cfg(feature = "rand")]
 use rand_::{distributions::Distribution, Rng};
 
@@ -62,12 +62,13 @@ where
 impl<T, const N: usize> Directional<Vector<T, N>> for Scale<T>
 where
     Self: Transform<Vector<T, N>>,
+    T: Signed + Copy,
 {
     fn apply_dir(&self, _: Vector<T, N>, dir: Vector<T, N>) -> Vector<T, N> {
-        dir
+        dir * self.mag.signum()
     }
-    fn apply_normal(&self, _: Vector<T, N>, normal: Vector<T, N>) -> Vector<T, N> {
-        normal
+    fn apply_normal(&self, pos: Vector<T, N>, normal: Vector<T, N>) -> Vector<T, N> {
+        self.apply_dir(pos, normal)
     }
 }
 
-- 
2.43.0


From 45baf6bef926c20b13e217cacbc4ddf99d482c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 5/6] fix: make approximate comparison of chains (and affine
 maps) usable

---
 src/transform/chain.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/transform/chain.rs b/src/transform/chain.rs
index 35b122f..488a897 100644
--- a/src/transform/chain.rs
+++ b/src/transform/chain.rs
@@ -108,13 +108,14 @@ where
 #[cfg(feature = "approx")]
 impl<A, B, T> AbsDiffEq for Chain<A, B, T>
 where
-    A: AbsDiffEq<Epsilon = T>,
-    B: AbsDiffEq<Epsilon = T>,
-    T: AbsDiffEq<Epsilon = T> + Copy,
+    A: AbsDiffEq,
+    B: AbsDiffEq<Epsilon = A::Epsilon>,
+    A::Epsilon: Copy,
+    T: PartialEq,
 {
-    type Epsilon = T;
+    type Epsilon = A::Epsilon;
     fn default_epsilon() -> Self::Epsilon {
-        T::default_epsilon()
+        A::default_epsilon()
     }
     fn abs_diff_eq(&self, other: &Self, epsilon: Self::Epsilon) -> bool {
         abs_diff_eq!(self.outer, other.outer, epsilon = epsilon)
-- 
2.43.0


From 8f5f74a990733e8cd6469ef01fc18ded54fc048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 6/6] fix: uniform 3D rotations are distributed by the Haar
 measure

---
 src/transform/rotation.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/transform/rotation.rs b/src/transform/rotation.rs
index 02871af..1a357b0 100644
--- a/src/transform/rotation.rs
+++ b/src/transform/rotation.rs
@@ -333,13 +333,17 @@ where
     T: SampleUniform + Float + FloatConst + NumCast,
 {
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Rotation3<T> {
-        Rotation3::new(
-            rng.sample(&Unit),
-            rng.sample(&RangedUniform::new(
-                T::zero(),
-                T::from(2.0).unwrap() * T::PI(),
-            )),
-        )
+        // The angle of a uniform (Haar) rotation isn't uniform itself,
+        // its density is proportional to `sin(angle / 2)^2`.
+        let two = T::from(2.0).unwrap();
+        let angle = loop {
+            let angle = rng.sample(&RangedUniform::new(T::zero(), two * T::PI()));
+            let level = rng.sample(&RangedUniform::new(T::zero(), T::one()));
+            if level < (angle / two).sin().powi(2) {
+                break angle;
+            }
+        };
+        Rotation3::new(rng.sample(&Unit), angle)
     }
 }
 #[cfg(feature = "approx")]
-- 
2.43.0


From 97808c122d40c4fa502f84625a4547b3e0938001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 01/53] fix: comparing two zero rationals divided by gcd(0,0)

---
 alg/src/commutative/rational_impl.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index 66fd8a7..eb961e1 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -66,6 +66,8 @@ impl Rational {
 
 impl Ord for Rational {
     fn cmp(&self, rhs: &Self) -> Ordering {
+        if self.numerator == 0 && rhs.numerator == 0 { return Ordering::Equal };
+
         let gcd_of_n = gcd(self.numerator, rhs.numerator);
         let gcd_of_d = gcd(self.denominator, rhs.denominator);
         let a = (self.numerator/gcd_of_n) * (rhs.denominator/gcd_of_d);
-- 
2.43.0


From 09ba07dc60326b14ab42850fdd343abb77c02a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 02/53] fix: the negative of the rational zero was not equal to
 zero

---
 alg/src/commutative/rational_impl.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index eb961e1..b2b8d4a 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -181,7 +181,8 @@ op_assign_impl!( Rational, DivAssign, div_assign, Div, div );
 impl Neg for Rational {
     type Output = Rational;
     fn neg(mut self) -> Self::Output {
-        self.sign = !self.sign;
+        // zero is always stored with the positive sign
+        if self.numerator != 0 { self.sign = !self.sign; }
         self
     }
 }
-- 
2.43.0


From 9ddc0468e3bf31dc7a5c94cc985f140857d7fbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 03/53] fix: the product of rationals started from zero

---
 alg/src/commutative/rational_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/commutative/rational_impl.rs b/alg/src/commutative/rational_impl.rs
index b2b8d4a..cb5ea3e 100644
--- a/alg/src/commutative/rational_impl.rs
+++ b/alg/src/commutative/rational_impl.rs
@@ -214,7 +214,7 @@ impl Sum for Rational {
 
 impl Product for Rational {
     fn product<I: Iterator<Item = Self>>(iter: I) -> Self {
-        iter.fold(Rational::zero(), |accum, a| accum * a)
+        iter.fold(Rational::one(), |accum, a| accum * a)
     }
 }
 
-- 
2.43.0


From 18b76434ab0ab44cefb637b4dca971abdf85552d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 04/53] fix: asking whether zero divides a number divided by
 zero

---
 alg/src/commutative.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/alg/src/commutative.rs b/alg/src/commutative.rs
index 213c972..bdfd9e2 100644
--- a/alg/src/commutative.rs
+++ b/alg/src/commutative.rs
@@ -118,6 +118,7 @@ pub trait PID:
     fn euclid_div(self, d: Self) -> (Self, Self);
     fn simplify(self) -> (Self, Self);
     fn divides(self, n: Self) -> bool {
+        if self == Self::zero() { return n == Self::zero(); }
         n.euclid_div(self).1 == Self::zero()
     }
 }
-- 
2.43.0


From 1d42c2366bb79fccee3518bfc56e6f3522ca85c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 05/53] fix: primality and prime factor counts tested the
 quotient instead of the remainder

---
 alg/src/commutative.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/alg/src/commutative.rs b/alg/src/commutative.rs
index bdfd9e2..92d8d5e 100644
--- a/alg/src/commutative.rs
+++ b/alg/src/commutative.rs
@@ -127,16 +127,17 @@ macro_rules! pid_impl {
     ($($t:ty)*) => ($(
         impl PID for $t {
             fn is_prime(self) -> bool {
-                if self == Self::zero() || self == Self::one() { return false; }
-                (2..self).all(|x| self/x != 0)
+                let n = self.simplify().1;
+                n > Self::one() && (2..n).all(|x| n%x != 0)
             }
 
             fn n_prime_factors(self) -> usize {
                 if self.is_prime() { return 1; }
                 let mut count = 0;
-                (0..self).filter(|&x| x.is_prime()).filter(|&x| self/x == 0).for_each(|x|{
-                    let mut num = self;
-                    while num/x==0 {
+                let n = self.simplify().1;
+                (2..n).filter(|&x| n%x == 0).filter(|&x| x.is_prime()).for_each(|x|{
+                    let mut num = n;
+                    while num%x==0 {
                         count += 1;
                         num /= x;
                     }
-- 
2.43.0


From 8b21f4d6195a331a5caca38345067e4e6ababd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 06/53] fix: negative powers of a permutation were the identity

---
 alg/src/non_commutative/permutation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index f45bf0b..567c25f 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -391,7 +391,7 @@ impl BitXor<i64> for Permutation {
             (1..=power).map(|_| self.clone()).product()
         } else { // if 'power < 0'
             let inv = self.inverse();
-            (1..=power).map(|_| inv.clone()).product()
+            (1..=-power).map(|_| inv.clone()).product()
         }
     }
 }
-- 
2.43.0


From 88a3fc7a6794ea54de06edb64ba840a813a0d732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 07/53] fix: swapping with an empty range did not return the
 identity

---
 alg/src/non_commutative/permutation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index 567c25f..ee55b60 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -196,7 +196,7 @@ impl Permutation {
 
     pub fn swap(r1: std::ops::Range<usize>, r2: std::ops::Range<usize>) -> Self {
         // trivial cases:
-        if r1.is_empty() || r2.is_empty() { Self::identity(); }
+        if r1.is_empty() || r2.is_empty() { return Self::identity(); }
 
         // Two input ranges must be disjoint
         if !(r1.end <= r2.start || r2.end <= r1.start) { panic!("Two input ranges must be disjoint, but r1={:?} and r2={:?}", r1, r2); }
-- 
2.43.0


From 9783399147e49475b9cf0329cf4dac4867c64637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 08/53] fix: swapping adjacent ranges given in decreasing order
 failed

---
 alg/src/non_commutative/permutation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index ee55b60..154a4f4 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -202,7 +202,7 @@ impl Permutation {
         if !(r1.end <= r2.start || r2.end <= r1.start) { panic!("Two input ranges must be disjoint, but r1={:?} and r2={:?}", r1, r2); }
 
         // Now r1.end <= r2.start || r2.end <= r1.start, i.e. two ranges are disjoint
-        if r2.end < r1.start { return Self::swap(r2, r1) };
+        if r2.end <= r1.start { return Self::swap(r2, r1) };
 
         // Now r1.end <= r2.start
         let r1_size = r1.end - r1.start;
-- 
2.43.0


From 4f25d63f7319d1e3f460114d52ed4c3484aa7cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 09/53] fix: building a cycle from no points panicked

---
 alg/src/non_commutative/permutation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index 154a4f4..8dc6e6c 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -42,7 +42,7 @@ impl Cycle {
     }
 
     pub fn from(data: Vec<usize>) -> Cycle {
-        if data.len() == 1 { return Cycle::identity(); }
+        if data.len() <= 1 { return Cycle::identity(); }
 
         let mut cycle = Cycle {
             data: data,
-- 
2.43.0


From 7d06a8700d0b23e331b7fcab757a2ee5f4e26141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 10/53] fix: inverses of array permutations were all zeros

---
 alg/src/non_commutative/permutation.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index 8dc6e6c..8d04d27 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -657,10 +657,8 @@ impl<const N: usize> Group for ConstPermutation<N> {
 
     fn inverse(self) -> Self {
         let mut out = [0; N];
-        let mut curr = 0;
-        while curr != 0 {
-            out[self.0[curr]] = curr;
-            curr = self.0[curr];
+        for i in 0..N {
+            out[self.0[i]] = i;
         }
         ConstPermutation(out)
     }
@@ -761,10 +759,8 @@ impl Group for VecPermutation {
 
     fn inverse(self) -> Self {
         let mut out = vec![0; self.0.len()];
-        let mut curr = 0;
-        while curr != 0 {
-            out[self.0[curr]] = curr;
-            curr = self.0[curr];
+        for i in 0..self.0.len() {
+            out[self.0[i]] = i;
         }
         Self(out)
     }
-- 
2.43.0


From 1febecd45b64dc8acb2a0c2186ec406475a81b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 11/53] fix: VecPermutation never equalled its identity, so
 order() did not end

---
 alg/src/non_commutative/permutation.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/alg/src/non_commutative/permutation.rs b/alg/src/non_commutative/permutation.rs
index 8d04d27..9dbdb12 100644
--- a/alg/src/non_commutative/permutation.rs
+++ b/alg/src/non_commutative/permutation.rs
@@ -684,9 +684,18 @@ impl<const N: usize> ConstPermutation<N> {
 }
 
 
-#[derive(Clone, PartialEq, Eq, Debug)]
+#[derive(Clone, Debug)]
 pub struct VecPermutation(Vec<usize>);
 
+// Two permutations are equal if they agree everywhere: points beyond the length are fixed.
+impl PartialEq for VecPermutation {
+    fn eq(&self, other: &Self) -> bool {
+        (0..std::cmp::max(self.0.len(), other.0.len())).all(|i| self.eval(i) == other.eval(i) )
+    }
+}
+
+impl Eq for VecPermutation {}
+
 impl std::ops::Mul for VecPermutation {
     type Output = Self;
     fn mul(mut self, mut rhs: Self) -> Self::Output {
-- 
2.43.0


From aeace704512b017d05e929ca149e9378ccaa5bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 12/53] fix: sums of three or more vectors could come out
 unsorted, with repeated basis elements

---
 alg/src/lin_alg.rs | 48 +++++++++++++---------------------------------
 1 file changed, 13 insertions(+), 35 deletions(-)

diff --git a/alg/src/lin_alg.rs b/alg/src/lin_alg.rs
index ed91b16..74d8c5e 100644
--- a/alg/src/lin_alg.rs
+++ b/alg/src/lin_alg.rs
@@ -291,9 +291,8 @@ struct Merge <T, I, J, F>
         J: Iterator<Item = T>,
         F: Fn(&T, &T)->Ordering
 {
-    curr: Option<T>,
-    i: I,
-    j: J,
+    i: std::iter::Peekable<I>,
+    j: std::iter::Peekable<J>,
     f: F
 }
 
@@ -305,41 +304,20 @@ impl<T, I, J, F> Iterator for Merge<T, I, J, F>
 {
     type Item = T;
     fn next(&mut self) -> Option<Self::Item> {
-        let mut self_curr = None;
-        std::mem::swap(&mut self_curr, &mut self.curr);
-        if let Some(mut curr) = self_curr {
-            if let Some(mut next) = self.i.next() {
-                if (self.f)(&curr, &next) == Ordering::Less {
-                    std::mem::swap( &mut next, &mut curr );
-                }
-                self.curr = Some(curr);
-                Some(next)
-            } else if let Some(next) = self.j.next() { 
-                self.curr = Some(next);
-                Some(curr)
-            } else {
-                self.curr = None;
-                Some(curr)
-            }
-        } else {
-            None
-        }
+        let take_from_j = match (self.i.peek(), self.j.peek()) {
+            (Some(x), Some(y)) => (self.f)(y, x) == Ordering::Less,
+            (None, _) => true,
+            (_, None) => false,
+        };
+        if take_from_j { self.j.next() } else { self.i.next() }
     }
 }
 
-fn merge_by<T, I: Iterator<Item=T>, J: Iterator<Item=T>, F: Fn(&T, &T)->Ordering>(mut i: I, mut j: J, f: F) -> impl Iterator<Item = T> {
-    if let Some(next) = j.next() {
-        Merge{
-            curr: Some(next), 
-            i, j, f
-        }
-    } else {
-        Merge{
-            curr: i.next(),
-            i,
-            j,
-            f,
-        }
+fn merge_by<T, I: Iterator<Item=T>, J: Iterator<Item=T>, F: Fn(&T, &T)->Ordering>(i: I, j: J, f: F) -> impl Iterator<Item = T> {
+    Merge {
+        i: i.peekable(),
+        j: j.peekable(),
+        f,
     }
 }
 
-- 
2.43.0


From 06f78d27b4d272c6683569611249ac75b4c749c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 13/53] fix: a vector built from a list with a repeated basis
 element kept both copies

---
 alg/src/lin_alg.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/alg/src/lin_alg.rs b/alg/src/lin_alg.rs
index 74d8c5e..5b63cd1 100644
--- a/alg/src/lin_alg.rs
+++ b/alg/src/lin_alg.rs
@@ -189,16 +189,23 @@ impl<Basis: Clone + PartialEq + PartialOrd, Coeff: PID> Vector<Coeff, Basis> {
 }
 
 impl<const N: usize, Basis: Clone + PartialEq + PartialOrd, Coeff: PID> std::convert::From<[Basis; N]> for Vector<Coeff, Basis> {
-    fn from(mut summands: [Basis; N]) -> Self {
-        summands.sort_by(|x,y| x.partial_cmp(y).unwrap());
-        Vector(summands.into_iter().map(|b| (Coeff::one(), b)).collect::<Vec<_>>())
+    fn from(summands: [Basis; N]) -> Self {
+        Self::from(Vec::from(summands))
     }
 }
 
 impl<Basis: Clone + PartialEq + PartialOrd, Coeff: PID> std::convert::From<Vec<Basis>> for Vector<Coeff, Basis> {
     fn from(mut summands: Vec<Basis>) -> Self {
         summands.sort_by(|x,y| x.partial_cmp(y).unwrap());
-        Vector(summands.into_iter().map(|b| (Coeff::one(), b)).collect::<Vec<_>>())
+        let mut out: Vec<(Coeff, Basis)> = Vec::new();
+        for b in summands {
+            match out.last_mut() {
+                // a repeated basis element adds to the coefficient
+                Some((coeff, last)) if *last == b => *coeff += Coeff::one(),
+                _ => out.push((Coeff::one(), b)),
+            }
+        }
+        Vector(out)
     }
 }
 
-- 
2.43.0


From fc55c3cf5a7e3132b8e75c04bb3dcfbd0436d6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 14/53] fix: comparing a submatrix with a matrix recursed
 without end

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index a520155..908cb5d 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -574,7 +574,7 @@ impl<T: PID> cmp::PartialEq for SubMatrix<T> {
 
 impl<T: PID> cmp::PartialEq<Matrix<T>> for SubMatrix<T> {
     fn eq(&self, rhs: &Matrix<T>) -> bool {
-        self == rhs
+        *self == **rhs
     }
 }
 
-- 
2.43.0


From 664819c815fc8a87439bcb76812f80068174fd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 15/53] fix: building a matrix from rows of different lengths
 was not rejected

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 908cb5d..cfe69c3 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -657,7 +657,7 @@ impl<T: PID> Matrix<T> {
             panic!("Inputs for matrix constructor macro is invalid. Matrix must have positive dimension!")
         }
         let size = (v.len(), v[0].len());
-        if v.iter().map(|x| x.len()).all(|len| len != size.1) {
+        if v.iter().map(|x| x.len()).any(|len| len != size.1) {
             panic!("Inputs for matrix constructor macro is invalid");
         }
 
-- 
2.43.0


From 9fd0522d466c834c2cebb18df3df48d98f023b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 16/53] fix: taking a view of an empty view underflowed

---
 alg/src/lin_alg/matrix_impl.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index cfe69c3..23edb29 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -61,7 +61,8 @@ pub const fn submatrix_from_raw_parts_mut<T: ?Sized>(
 #[inline]
 pub fn slice_from_sub_matrix<T: PID>(m: &SubMatrix<T>) -> *const [T] {
     let (size, offsets) = extract( metadata(m));
-    let metadata = (size.0 * offsets.0 - 1) + (size.1 * offsets.1 - 1) + 1;
+    // an empty view spans no element
+    let metadata = if size.0 == 0 || size.1 == 0 { 0 } else { (size.0 * offsets.0 - 1) + (size.1 * offsets.1 - 1) + 1 };
     let data_address = unsafe{ PtrRepr{const_ptr: m as *const SubMatrix<T>}.components.data_address};
     unsafe { PtrRepr { components: PtrComponents { data_address, metadata } }.const_ptr }
 }
@@ -69,7 +70,8 @@ pub fn slice_from_sub_matrix<T: PID>(m: &SubMatrix<T>) -> *const [T] {
 #[inline]
 pub fn slice_from_sub_matrix_mut<T: PID>(m: &mut SubMatrix<T>) -> *mut [T] {
     let (size, offsets) = extract( metadata(m));
-    let metadata = (size.0 * offsets.0 - 1) + (size.1 * offsets.1 - 1) + 1;
+    // an empty view spans no element
+    let metadata = if size.0 == 0 || size.1 == 0 { 0 } else { (size.0 * offsets.0 - 1) + (size.1 * offsets.1 - 1) + 1 };
     let data_address = unsafe{ PtrRepr{ mut_ptr: m as *mut SubMatrix<T> }.components.data_address };
     unsafe { PtrRepr { components: PtrComponents { data_address, metadata } }.mut_ptr }
 }
-- 
2.43.0


From 0827d2cd6b4383eb0fac932d257da99a3dd79889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 17/53] fix: matrices dropped uninitialised elements and never
 dropped their own

---
 alg/src/lin_alg/matrix_impl.rs | 138 ++++++++-------------------------
 1 file changed, 33 insertions(+), 105 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 23edb29..a660945 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -3,7 +3,6 @@ use crate::matrix;
 
 use std::fmt::{Display, Debug};
 use std::{
-    alloc,
     marker::PhantomData,
     mem,
     ptr,
@@ -140,14 +139,7 @@ impl<T: PID> SubMatrix<T> {
     }
 
     pub fn as_matrix(&self) -> Matrix<T> {
-        let mut out = Matrix::new(self.size().0, self.size().1);
-        for i in 0..self.size().0 {
-            for j in 0..self.size().1 {
-                out.write( (i,j), self[(i, j)].clone() );
-            }
-        }
-
-        out
+        Matrix::from_fn(self.size().0, self.size().1, |i, j| self[(i, j)].clone())
     }
 
     pub fn swap_rows(&mut self, r1: usize, r2: usize) {
@@ -338,13 +330,9 @@ macro_rules! submatrix_add_sub_impl {
             fn $bin_op_fn(self, rhs: Self) -> Self::Output {
                 if self.size() != rhs.size() { panic!(); }
 
-                let mut out = Matrix::new(self.size().0, self.size().1);
-                for i in 0..self.size().0 {
-                    for j in 0..self.size().1 {
-                        out[(i,j)] = $bin_op_tr::$bin_op_fn(self[(i,j)].clone(), rhs[(i,j)].clone());
-                    }
-                }
-                out
+                Matrix::from_fn(self.size().0, self.size().1, |i, j| {
+                    $bin_op_tr::$bin_op_fn(self[(i,j)].clone(), rhs[(i,j)].clone())
+                })
             }
         }
     )*}
@@ -390,13 +378,7 @@ submatrix_add_sub_assign_impl!((AddAssign, add_assign) (SubAssign, sub_assign));
 impl<T: PID> ops::Mul for &SubMatrix<T> {
     type Output = Matrix<T>;
     fn mul(self, rhs: Self) -> Self::Output {
-        let mut prod = Matrix::new(self.size().0, rhs.size().1);
-        for i in 0..prod.size().0 {
-            for j in 0..prod.size().1 {
-                prod[(i, j)] = self[(i, ..)].dot(&rhs[(.., j)]);
-            }
-        };
-        prod
+        Matrix::from_fn(self.size().0, rhs.size().1, |i, j| self[(i, ..)].dot(&rhs[(.., j)]))
     }
 }
 
@@ -489,13 +471,7 @@ impl<T: Field> ops::Div<T> for Matrix<T> {
 impl<T: PID> ops::Mul<T> for &SubMatrix<T> {
     type Output = Matrix<T>;
     fn mul(self, rhs: T) -> Self::Output {
-        let mut out = Matrix::new(self.size().0, self.size().1);
-        for i in 0..out.size().0 {
-            for j in 0..out.size().1 {
-                out[(i,j)] = self[(i,j)].clone() * rhs.clone();
-            }
-        };
-        out
+        Matrix::from_fn(self.size().0, self.size().1, |i, j| self[(i,j)].clone() * rhs.clone())
     }
 }
 
@@ -515,13 +491,7 @@ scalar_mul_impl!{ isize i8 i16 i32 i64 i128 crate::commutative::Rational f64 }
 impl<T: Field> ops::Div<T> for &SubMatrix<T> {
     type Output = Matrix<T>;
     fn div(self, rhs: T) -> Self::Output {
-        let mut out = Matrix::new(self.size().0, self.size().1);
-        for i in 0..out.size().0 {
-            for j in 0..out.size().1 {
-                out[(i,j)] = self[(i,j)].clone() / rhs.clone();
-            }
-        };
-        out
+        Matrix::from_fn(self.size().0, self.size().1, |i, j| self[(i,j)].clone() / rhs.clone())
     }
 }
 
@@ -593,33 +563,22 @@ impl<T: PID> Matrix<T> {
         self.size
     }
 
-    fn new(n: usize, m: usize) -> Self {
-        let mut mat = Matrix {
-            ptr: ptr::NonNull::dangling(),
+    // builds a matrix from its entries, so that every element is initialized exactly once
+    fn from_fn(n: usize, m: usize, mut f: impl FnMut(usize, usize) -> T) -> Self {
+        let mut entries = Vec::with_capacity(n * m);
+        for i in 0..n {
+            for j in 0..m {
+                entries.push( f(i, j) );
+            }
+        }
+
+        let entries = Box::leak(entries.into_boxed_slice());
+        Matrix {
+            ptr: ptr::NonNull::from(entries).cast(),
             _marker: PhantomData,
             size: (n, m),
             offsets: (m, 1),
-        };
-        mat.alloc();
-        mat
-    }
-
-    fn alloc(&mut self) {
-        let layout = alloc::Layout::array::<T>(self.size().0 * self.size().1).unwrap();
-        
-        // Ensure that the new allocation doesn't exceed `isize::MAX` bytes.
-        assert!(
-            layout.size() <= isize::MAX as usize,
-            "Allocation too large"
-        );
-        
-        let new_ptr = unsafe { alloc::alloc(layout) };
-        
-        // If allocation fails, `new_ptr` will be null, in which case we abort.
-        self.ptr = match ptr::NonNull::new(new_ptr as *mut T) {
-            Some(p) => p,
-            None => alloc::handle_alloc_error(layout),
-        };
+        }
     }
 
     fn is_diagonal(&self) -> bool {
@@ -663,14 +622,7 @@ impl<T: PID> Matrix<T> {
             panic!("Inputs for matrix constructor macro is invalid");
         }
 
-        let mut out = Matrix::new(size.0, size.1);
-        for i in 0..size.0 {
-            for j in 0..size.1 {
-                out[(i, j)] = v[i][j].clone();
-            }
-        }
-
-        out
+        Matrix::from_fn(size.0, size.1, |i, j| v[i][j].clone())
     }
 
     pub fn transpose(mut self) -> Self {
@@ -680,10 +632,6 @@ impl<T: PID> Matrix<T> {
 
         self
     }
-
-    fn write(&mut self, (i,j): (usize, usize), val: T) {
-        unsafe{ std::ptr::write( self.ptr().add(i*self.offsets().0 + j*self.offsets().1 ), val); }
-    }
 }
 
 
@@ -693,18 +641,12 @@ impl<T> Matrix<T>
     where T: PID, Standard: Distribution<T>
 {
     pub fn random(n: usize, m: usize) -> Matrix<T> {
-        let mut out = Matrix::new(n ,m);
         let mut rng = rand::thread_rng();
-        for i in 0..out.size().0 {
-            for j in 0..out.size().1 {
-                out[(i,j)] = rng.gen();
-            }
-        }
-        out
+        Matrix::from_fn(n, m, |_, _| rng.gen())
     }
 
     pub fn random_symmetric(n: usize, m: usize) -> Matrix<T> {
-        let mut out = Matrix::new(n ,m);
+        let mut out = Matrix::zero(n ,m);
         let mut rng = rand::thread_rng();
         for i in 0..out.size().0 {
             for j in i..out.size().1 {
@@ -736,16 +678,8 @@ impl<T: PID> ops::DerefMut for Matrix<T> {
 
 impl<T: PID> Drop for Matrix<T> {
     fn drop(&mut self) {
-        let elem_size = mem::size_of::<T>();
-
-        if elem_size != 0 {
-            unsafe {
-                alloc::dealloc(
-                    self.ptr.as_ptr() as *mut u8,
-                    alloc::Layout::array::<T>(self.size().0 * self.size().1).unwrap(),
-                );
-            }
-        }
+        let entries = ptr::slice_from_raw_parts_mut(self.ptr.as_ptr(), self.size.0 * self.size.1);
+        unsafe { drop(Box::from_raw(entries)); }
     }
 }
 
@@ -801,13 +735,7 @@ macro_rules! vector {
 impl <T: PID> Matrix<T> {
     pub fn zero(n: usize, m: usize) -> Self {
         assert!(n>0 && m>0, "the size of the matrix must be a pair positive integers but size=({n}, {m}).");
-        let mut out = Matrix::new(n, m);
-        for i in 0..n {
-            for j in 0..m {
-                out.write((i,j), T::zero());
-            }
-        }
-        out
+        Matrix::from_fn(n, m, |_, _| T::zero())
     }
 
     pub fn identity(size: usize) -> Self {
@@ -1165,7 +1093,7 @@ impl Matrix<f64> {
     }
 
     pub fn random_unit_vec(n: usize) -> Matrix<f64> {
-        let mut out = Matrix::new(n ,1);
+        let mut out = Matrix::zero(n ,1);
         let mut r = thread_rng();
         for i in 0..n {
             out[(i,0)] = r.gen_range(-1.0..1.0);
@@ -1358,7 +1286,7 @@ impl Matrix<f64> {
 
         out.sort_by(|x, y| x.partial_cmp(y).unwrap());
         let out = {
-            let mut a = Matrix::new(n,1);
+            let mut a = Matrix::zero(n,1);
             (0..n).for_each( |i| a[(i,0)]=out[i] );
             a
         };
@@ -1372,7 +1300,7 @@ impl Matrix<f64> {
         let n = self.size().0;
 
         // initialize the eigenvectors
-        let mut eigen_vectors = Matrix::<f64>::new(n, n);
+        let mut eigen_vectors = Matrix::<f64>::zero(n, n);
         let elem = 1.0 / (n as f64).sqrt();
         for i in 0..n {
             for j in 0..n {
@@ -1425,7 +1353,7 @@ impl Matrix<f64> {
 
         out.sort_by(|x, y| x.partial_cmp(y).unwrap());
         let out = {
-            let mut a = Matrix::new(n,1);
+            let mut a = Matrix::zero(n,1);
             (0..n).for_each( |i| a[(i,0)]=out[i] );
             a
         };
@@ -1439,7 +1367,7 @@ impl Matrix<f64> {
         let n = self.size().0;
 
         // initialize the eigenvectors
-        let mut eigen_vectors = Matrix::<f64>::new(n, n);
+        let mut eigen_vectors = Matrix::<f64>::zero(n, n);
         let elem = 1.0 / (n as f64).sqrt();
         for i in 0..n {
             for j in 0..n {
@@ -1477,7 +1405,7 @@ impl Matrix<f64> {
         let size = self.size().0;
 
         // initialize the eigenvectors
-        let mut eigen_vectors = Matrix::<f64>::new(size, n);
+        let mut eigen_vectors = Matrix::<f64>::from_fn(size, n, |_, _| 0.0);
         let elem = 1.0 / (size as f64).sqrt();
         for i in 0..size {
             for j in 0..n {
@@ -1515,7 +1443,7 @@ impl Matrix<f64> {
         let size = self.size().0;
 
         // initialize the eigenvectors
-        let mut eigen_vectors = Matrix::<f64>::new(size, 1);
+        let mut eigen_vectors = Matrix::<f64>::zero(size, 1);
         let elem = 1.0 / (size as f64).sqrt();
         for i in 0..size {
             eigen_vectors[(i,0)] = elem;
-- 
2.43.0


From 1d903e1ed1adecdb64e9041903bd99cefd2d5521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 18/53] fix: matrices with a side of 65536 or more silently
 lost part of their size

---
 alg/src/lin_alg/matrix_impl.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index a660945..b0b1fc4 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -565,6 +565,10 @@ impl<T: PID> Matrix<T> {
 
     // builds a matrix from its entries, so that every element is initialized exactly once
     fn from_fn(n: usize, m: usize, mut f: impl FnMut(usize, usize) -> T) -> Self {
+        // the metadata of a submatrix has room for a quarter of 'usize' for each side
+        let limit = 1 << (mem::size_of::<usize>() * 8 / 4);
+        assert!(n < limit && m < limit, "the size of the matrix is too large: size=({n}, {m}).");
+
         let mut entries = Vec::with_capacity(n * m);
         for i in 0..n {
             for j in 0..m {
-- 
2.43.0


From 0f524361739e41357e55473e7310c89762fa71d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 19/53] fix: the inverse column operation of the Smith normal
 form was wrong when divisors were merged

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index b0b1fc4..f633739 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -992,7 +992,7 @@ impl <T: PID+Debug+Display+Copy> Matrix<T> {
                 // A column operation to eliminate the entry at (r, s)
                 self.col_operation(s, r, -w * y);
                 c_op.col_operation(s, r, -w * y);
-                c_op_inv.row_operation(s, r, w * y);
+                c_op_inv.row_operation(r, s, w * y);
 
                 debug_assert!(self[(r,r)]==gcd);
                 debug_assert!(self[(r,s)]==T::zero());
-- 
2.43.0


From a6940f10a7732ee17bcd88d2d82dc3a5d27311ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 20/53] fix: the Smith normal form could have negative divisors

---
 alg/src/lin_alg/matrix_impl.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index f633739..22a6044 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1000,8 +1000,17 @@ impl <T: PID+Debug+Display+Copy> Matrix<T> {
             }
         }
         debug_assert!((0..rank).all( |i| (i+1..rank).all(|k| self[(i,i)].divides(self[(k,k)]))), " Diagonal is not sorted: {:?}", self);
-        // simplify r_op
 
+        // make each diagonal entry canonical by pulling its unit out to the row operations
+        for r in 0..rank {
+            let (unit, d) = self[(r,r)].simplify();
+            if unit == T::one() { continue; }
+
+            let unit_inv = T::one().euclid_div(unit).0;
+            self[(r,r)] = d;
+            r_op[(r, ..)] *= unit_inv;
+            r_op_inv[(.., r)] *= unit;
+        }
 
         (r_op_inv, r_op, self, c_op, c_op_inv)
     }
-- 
2.43.0


From 8e79e091ba9050b3b34b71bae932c630fc5c8377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 21/53] fix: the rank of a linear map missed pivots next to the
 diagonal

---
 alg/src/lin_alg/matrix_impl.rs | 45 ++++++++++++----------------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 22a6044..7095e8d 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1020,40 +1020,25 @@ impl <T: PID+Debug+Display+Copy> Matrix<T> {
 impl <T:Field+Copy> Matrix<T> {
     pub fn rank_as_linear_map(&self) -> usize {
         let mut clone = self.clone();
-        let shorter_side = std::cmp::min(self.size().0, self.size().1);
-        let mut skipped = 0;
-        for k in 0..shorter_side {
-            if clone[(k,k)] == T::zero() {
-                let result = (k+2..clone.size().1).find(|&i| clone[(k, i)] != T::zero() );
-                match result {
-                    Some(j) => clone.col_operation(k, j, T::one()),
-                    None => (),
-                }
-            }
-            if clone[(k,k)] == T::zero() {
-                let result = (k+2..clone.size().0).find(|&j| clone[(j, k)] != T::zero() );
-                match result {
-                    Some(i) => clone.row_operation(k, i, T::one()),
-                    None => {
-                        skipped += 1;
-                        continue;
-                    },
-                }
-            }
-
-            // Now we have the nonzero element in (k, k)
-            let coeff = T::one() / clone[(k,k)];
-            clone.row_operation(k, k, coeff - T::one()); // Fix
+        let mut rank = 0;
+        for k in 0..self.size().1 {
+            // look for a pivot in the k-th column
+            let pivot = match (rank..self.size().0).find(|&i| clone[(i, k)] != T::zero()) {
+                Some(i) => i,
+                None => continue,
+            };
+            clone.swap_rows(rank, pivot);
 
-            for l in k+1..self.size().0 {
-                let minus_one = T::zero() - T::one();
-                let a_lk = clone[(l,k)];
-                if a_lk == T::zero() { continue; } 
-                clone.row_operation(l, k, minus_one * a_lk);
+            // Now we have the nonzero element in (rank, k)
+            for l in rank+1..self.size().0 {
+                if clone[(l,k)] == T::zero() { continue; }
+                let ratio = clone[(l,k)] / clone[(rank,k)];
+                clone.row_operation(l, rank, -ratio);
             }
+            rank += 1;
         };
 
-        shorter_side - skipped
+        rank
     }
 }
 
-- 
2.43.0


From 581c69a1274a7b9d5d42dcf0f93f6210dd0016ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 22/53] fix: determinants and linear systems with a zero
 leading pivot came out as NaN

---
 alg/src/lin_alg/matrix_impl.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 7095e8d..bdb83d2 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1068,10 +1068,31 @@ impl Matrix<f64> {
         };
 
         // this implementation of determinant is based on LU decomposition
-        self.lu();
+        let n_swaps = self.lu_with_pivoting().into_iter().enumerate().filter(|&(i, p)| i!=p).count();
+        let sign = if n_swaps % 2 == 0 { 1.0 } else { -1.0 };
         (0..self.size().0)
             .map(|i| self[(i,i)])
-            .product()
+            .product::<f64>() * sign
+    }
+
+    // LU decomposition of the matrix with its rows permuted: at the i-th step the i-th row was swapped with the i-th output
+    fn lu_with_pivoting(&mut self) -> Vec<usize> {
+        let n = self.size().0;
+        let mut pivots = Vec::with_capacity(n);
+        for i in 0..n {
+            let p = (i..n).fold(i, |p, k| if self[(k,i)].abs() > self[(p,i)].abs() { k } else { p });
+            self.swap_rows(i, p);
+            pivots.push(p);
+            if self[(i,i)] == 0.0 { continue; }
+
+            for k in i+1..n {
+                self[(k,i)] /= self[(i,i)];
+                for l in i+1..n {
+                    self[(k,l)] = self[(k,l)] - self[(k,i)] * self[(i,l)];
+                }
+            }
+        }
+        pivots
     }
 
     pub fn random_orthogonal(n: usize) -> Matrix<f64> {
@@ -1246,7 +1267,9 @@ impl Matrix<f64> {
             b.size
         );
         let n = self.size().0;
-        self[(..,..)].lu();
+        for (i, p) in self.lu_with_pivoting().into_iter().enumerate() {
+            b.swap_rows(i, p);
+        }
         
         // Solve Ly = b by forward substitution
         for i in 1..n {
-- 
2.43.0


From 69515c46aa8ed581488c77594113fa9cdf0921f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 23/53] fix: iterating over a sparse matrix without entries
 panicked

---
 alg/src/lin_alg/sparse_matrix_impl.rs | 32 +++++++--------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/alg/src/lin_alg/sparse_matrix_impl.rs b/alg/src/lin_alg/sparse_matrix_impl.rs
index 459edfa..293e0ef 100644
--- a/alg/src/lin_alg/sparse_matrix_impl.rs
+++ b/alg/src/lin_alg/sparse_matrix_impl.rs
@@ -94,13 +94,6 @@ impl<T: PID, F: Fn((usize, usize)) -> Option<T>> From<((usize, usize), F)> for S
         m.rows.sort_by(|x, y| x.start_node_idx().cmp( &y.start_node_idx() ) );
         m.cols.sort_by(|x, y| x.start_node_idx().cmp( &y.start_node_idx() ) );
 
-
-        // if 'rows' and 'cols' are empty, then add some elements to 'rows' so that the iter() does not panic.
-        if m.rows.is_empty() {
-            m.rows.push(SparseNode::End);
-            m.cols.push(SparseNode::End);
-        }
-
         m
     }
 }
@@ -108,8 +101,7 @@ impl<T: PID, F: Fn((usize, usize)) -> Option<T>> From<((usize, usize), F)> for S
 
 
 pub struct Iter<'a, T: PID> {
-    data: &'a SparseNode<T>,
-    is_done: bool,
+    data: Option<&'a SparseNode<T>>, // 'None' when there is nothing left
     dir: bool,
 }
 
@@ -119,13 +111,11 @@ impl<T: PID> SparseMatrix<T> {
         let row = self.rows.binary_search_by(|f| f.start_node_idx().cmp(&i) );
         match row {
             Ok(x) => Iter{
-                data: &self.rows[x].start_ref(),
-                is_done: false,
+                data: Some(self.rows[x].start_ref()),
                 dir: !self.transposed,
             },
             Err(_) => Iter{
-                data: &self.rows[0], // Recall that 'rows' is not empty.
-                is_done: true,
+                data: None,
                 dir: !self.transposed
             }
         }
@@ -135,13 +125,11 @@ impl<T: PID> SparseMatrix<T> {
         let col = self.cols.binary_search_by(|f| f.start_node_idx().cmp(&i) );
         match col {
             Ok(x) => Iter {
-                data: &self.cols[x].start_ref(),
-                is_done: false,
+                data: Some(self.cols[x].start_ref()),
                 dir: self.transposed,
             },
             Err(_) => Iter {
-                data: &self.rows[0], // Recall that 'rows' is not empty.
-                is_done: true,
+                data: None,
                 dir: self.transposed,
             }
         }
@@ -164,20 +152,16 @@ impl<T: PID> SparseMatrix<T> {
 impl<'a, T: PID> Iterator for Iter<'a, T> {
     type Item = (usize, &'a T);
     fn next(&mut self) -> Option<Self::Item> {
-        if self.is_done {
-            return None
-        }
-
-        match self.data {
+        match self.data? {
             SparseNode::Start(..) => panic!(),
             SparseNode::Entry(idx, val, r) => {
                 let r = if self.dir {&r.0} else {&r.1};
-                self.data = &*r;
+                self.data = Some(&*r);
                 let idx = if self.dir {idx.1} else {idx.0};
                 Some((idx, val))
             },
             SparseNode::End => {
-                self.is_done = true;
+                self.data = None;
                 return None;
             }
         }
-- 
2.43.0


From 99e1879baf0389445413dbf3dbfa1a6cee7dfe92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:00 +0000
Subject: [PATCH 24/53] fix: equality of sparse matrices depended on how they
 were stored and took exponential time

---
 alg/src/lin_alg.rs                    |  4 ++--
 alg/src/lin_alg/sparse_matrix_impl.rs | 12 +++++++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/alg/src/lin_alg.rs b/alg/src/lin_alg.rs
index 5b63cd1..d56da7f 100644
--- a/alg/src/lin_alg.rs
+++ b/alg/src/lin_alg.rs
@@ -14,7 +14,7 @@ pub struct Matrix<T: PID> {
 
 pub struct SubMatrix<T: PID>([T]);
 
-#[derive(Clone, PartialEq, Debug)]
+#[derive(Clone, Debug)]
 pub struct SparseMatrix<T: PID> {
     rows: Vec<SparseNode<T>>,
     cols: Vec<SparseNode<T>>,
@@ -22,7 +22,7 @@ pub struct SparseMatrix<T: PID> {
     transposed: bool,
 }
 
-#[derive(PartialEq, Clone, Debug)]
+#[derive(Clone, Debug)]
 enum SparseNode<T: PID> {
     Start(usize, Rc<SparseNode<T>>),
     End,
diff --git a/alg/src/lin_alg/sparse_matrix_impl.rs b/alg/src/lin_alg/sparse_matrix_impl.rs
index 293e0ef..8381999 100644
--- a/alg/src/lin_alg/sparse_matrix_impl.rs
+++ b/alg/src/lin_alg/sparse_matrix_impl.rs
@@ -85,7 +85,7 @@ impl<T: PID, F: Fn((usize, usize)) -> Option<T>> From<((usize, usize), F)> for S
 
             // if 'curr_node' is not 'End', then it means that there was some none-zero entry in the row,
             // so in this case add the row. Otherwise, do nothing.
-            if *curr_node != SparseNode::End {
+            if !matches!(*curr_node, SparseNode::End) {
                 m.rows.push(SparseNode::Start(i, curr_node));
             }
         }
@@ -168,6 +168,16 @@ impl<'a, T: PID> Iterator for Iter<'a, T> {
     }
 }
 
+// Two sparse matrices are equal if they have the same size and the same nonzero entries.
+impl<T: PID> std::cmp::PartialEq for SparseMatrix<T> {
+    fn eq(&self, other: &Self) -> bool {
+        self.size() == other.size() && (0..self.size().0).all(|i|
+            self.row_iter(i).filter(|(_, val)| **val != T::zero())
+                .eq( other.row_iter(i).filter(|(_, val)| **val != T::zero()) )
+        )
+    }
+}
+
 impl<T: PID> std::cmp::PartialEq<Matrix<T>> for SparseMatrix<T> {
     fn eq(&self, other: &Matrix<T>) -> bool {
         if self.size() != other.size() {
-- 
2.43.0


From 0af38bcd7a2f8414977d457ce64d8d8057c568cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 25/53] fix: the Householder vector of a negative multiple of
 the first axis did not give a reflection

---
 alg/src/lin_alg/matrix_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index bdb83d2..c0f4455 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1220,7 +1220,7 @@ impl Matrix<f64> {
         if a==0.0 && b>=0.0 {
             (self, 0.0)
         } else if a==0.0 && b<0.0 {
-            (self, -2.0)
+            (self, 2.0)
         } else {
             let u = (a+b*b).sqrt();
             self[(0,0)] = if b<=0.0 {
-- 
2.43.0


From 267fb20059905cefe53e51ff22bce035f661dc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 26/53] fix: the symmetric QR algorithm failed on matrices of
 size 1 and 2

---
 alg/src/lin_alg/matrix_impl.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index c0f4455..71f74b5 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1800,7 +1800,7 @@ impl SubMatrix<f64> {
 
     pub fn householder_tridiagonalization(&mut self, with_op: bool) {
         let n = self.size().0;
-        for i in 0..n-2 {
+        for i in 0..n.saturating_sub(2) {
             let (v, b) = self[(i+1.., i)].householder_vec();
             let v = &*v;
             let p = (&self[(i+1.., i+1..)] * v) * b;
@@ -1900,10 +1900,12 @@ impl SubMatrix<f64> {
         self.householder_tridiagonalization(with_op);
         if with_op {
             op = Matrix::identity(n);
-            op[(1..,1..)].write( &(self[(2..,..n-2)].extract_householder_vecs()) );
+            if n > 2 {
+                op[(1..,1..)].write( &(self[(2..,..n-2)].extract_householder_vecs()) );
+            }
         };
 
-        for i in 0..n-2 {
+        for i in 0..n.saturating_sub(2) {
             for j in i+2..n{
                 self[(i, j)] = 0.0;
                 self[(j, i)] = 0.0;
@@ -1919,7 +1921,7 @@ impl SubMatrix<f64> {
                 }
             }
 
-            q = (0..n-2)
+            q = (0..n.saturating_sub(2))
                 .find( |&i| self[(n-i-1,n-i-2)].abs()>tolerance && self[(n-i-2,n-i-3)].abs()>tolerance )
                 .unwrap_or(n);
 
-- 
2.43.0


From f0a4b1a41aa46ca5652af29f6dde511d0ed20c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 27/53] fix: the transformation recorded by the
 tridiagonalization was wrong for columns that needed none

---
 alg/src/lin_alg/matrix_impl.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 71f74b5..f1d920f 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1803,11 +1803,13 @@ impl SubMatrix<f64> {
         for i in 0..n.saturating_sub(2) {
             let (v, b) = self[(i+1.., i)].householder_vec();
             let v = &*v;
+            // The identity is not a reflection and has no Householder vector, so reflect along the first axis instead of it.
+            let (b, sign) = if b==0.0 { (2.0, -1.0) } else { (b, 1.0) };
             let p = (&self[(i+1.., i+1..)] * v) * b;
             let p = &*p;
             let w = p - v * b/2.0*(v.transpose().dot(p));
             let w = &*w;
-            self[(i+1, i)] = self[(i+1.., i)].two_norm();
+            self[(i+1, i)] = sign * self[(i+1.., i)].two_norm();
             self[(i, i+1)] = self[(i+1, i)];
 
 
-- 
2.43.0


From 10484badbca0dabfed74384542256271006ec07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 28/53] fix: (nearly) equal eigenvalues of a 2 by 2 block were
 taken for complex ones

---
 alg/src/lin_alg/matrix_impl.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index f1d920f..b5768dd 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1632,10 +1632,11 @@ impl SubMatrix<f64> {
 
     fn real_spectrum_of_two_by_two(&self) -> Option<(f64, f64)> {
         debug_assert_eq!( self.size(), (2,2) );
-        let det = self[(0,0)] * self[(1,1)] - self[(0,1)] * self[(1,0)];
         let m = (self[(0,0)] + self[(1,1)]) / 2.0;
-        if m*m-det > 0.0 {
-            let rad = (m*m-det).sqrt();
+        let d = (self[(0,0)] - self[(1,1)]) / 2.0;
+        let discriminant = d*d + self[(0,1)] * self[(1,0)];
+        if discriminant >= 0.0 {
+            let rad = discriminant.sqrt();
             Some((m-rad, m+rad))
         } else {
             None
-- 
2.43.0


From 5138b55a1dfc7ad8e96a43edc26da2e3e6ac2751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 29/53] fix: the transformation of the symmetric QR algorithm
 ignored where the active block starts

---
 alg/src/lin_alg/matrix_impl.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index b5768dd..1596f25 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1940,8 +1940,8 @@ impl SubMatrix<f64> {
                     for (i, c,s) in (0..givens.size.0).map(|i| (i, givens[(i,0)], givens[(i,1)])) {
                         let givens =  matrix!(f64; [[c, -s],[s, c]]);
                         let givens = &*givens;
-                        let update = givens * &op[(i..i+2, ..)];
-                        op[(i..i+2, ..)].write(&update);
+                        let update = givens * &op[(p+i..p+i+2, ..)];
+                        op[(p+i..p+i+2, ..)].write(&update);
                     }
                 }
             }
-- 
2.43.0


From 352aea3123093b4b7040e78c08d34ed8445bcc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:35 +0000
Subject: [PATCH 30/53] fix: the symmetric QR algorithm did not end for
 matrices with large entries

---
 alg/src/lin_alg/matrix_impl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 1596f25..08a0aa9 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1235,7 +1235,7 @@ impl Matrix<f64> {
     }
 
     pub fn givens_rotation(a: f64, b: f64) -> (f64, f64) {
-        if b.abs()<0.000000000001 {
+        if b==0.0 {
             return (1.0, 0.0)
         }
 
@@ -1898,7 +1898,7 @@ impl SubMatrix<f64> {
 
     pub fn symmetric_qr(&mut self, with_op: bool) -> Matrix<f64> {
         let n = self.size().0;
-        let tolerance = 0.0000000001;
+        let tolerance = 0.00000000000001 * self.frobenius_norm();
         let mut op = Matrix::identity(n);
         self.householder_tridiagonalization(with_op);
         if with_op {
@@ -1918,7 +1918,7 @@ impl SubMatrix<f64> {
         let mut q=0;
         while q<n {
             for i in 0..n-1 {
-                if self[(i+1,i)].abs()<tolerance{
+                if self[(i+1,i)].abs()<=tolerance{
                     self[(i+1, i)] = 0.0;
                     self[(i, i+1)] = 0.0;
                 }
@@ -1930,7 +1930,7 @@ impl SubMatrix<f64> {
 
             let p = (1..n-q)
                 .rev()
-                .find(|&i| self[(i,i-1)].abs()<tolerance )
+                .find(|&i| self[(i,i-1)].abs()<=tolerance )
                 .unwrap_or(0);
 
             if q<n {
-- 
2.43.0


From abe948d32569383d7896cb01b282f5ef4f753902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:36 +0000
Subject: [PATCH 31/53] fix: the QR algorithm did not end for many matrices
 with zeros on the diagonal

---
 alg/src/lin_alg/matrix_impl.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 08a0aa9..5864681 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1684,6 +1684,14 @@ impl SubMatrix<f64> {
             "Input to this function must be a square matrix."
         );
         let n = self.size().0;
+        let s = self[(n-2,n-2)] + self[(n-1,n-1)];
+        let t = self[(n-2,n-2)]*self[(n-1,n-1)] - self[(n-2,n-1)]*self[(n-1,n-2)];
+        self.francis_step_with_shifts(s, t, return_op)
+    }
+
+    // 's' is the sum of the two shifts, and 't' is the product of them.
+    fn francis_step_with_shifts(&mut self, s: f64, t: f64, return_op: bool) -> Matrix<f64> {
+        let n = self.size().0;
 
         let op = if return_op {
             Matrix::identity(n)
@@ -1691,8 +1699,6 @@ impl SubMatrix<f64> {
             Matrix::identity(1)
         };
 
-        let s = self[(n-2,n-2)] + self[(n-1,n-1)];
-        let t = self[(n-2,n-2)]*self[(n-1,n-1)] - self[(n-2,n-1)]*self[(n-1,n-2)];
         let mut x = self[(0,0)]*self[(0,0)] + self[(0,1)]*self[(1,0)] -s*self[(0,0)] + t;
         let mut y = self[(1,0)] * (self[(0,0)] + self[(1,1)] - s);
         let mut z = self[(1,0)]*self[(2,1)];
@@ -1758,13 +1764,15 @@ impl SubMatrix<f64> {
             Matrix::identity(1)
         };
 
-        let tolerance = 0.000000000000001;
+        let tolerance = 0.000000000000001 * self.frobenius_norm();
         let mut q=0;
         let mut p;
+        let mut block = (0, 0);
+        let mut n_steps = 0;
 
         while q!=n {
             for i in 1..n {
-                if self[(i,i-1)].abs() < tolerance * (self[(i-1,i-1)].abs() + self[(i,i)].abs()) {
+                if self[(i,i-1)].abs() <= tolerance {
                     self[(i,i-1)] = 0.0;
                 }
             }
@@ -1775,12 +1783,21 @@ impl SubMatrix<f64> {
 
             p = (1..n-q)
                 .rev()
-                .find(|&i| self[(i,i-1)].abs()<tolerance )
+                .find(|&i| self[(i,i-1)].abs()<=tolerance )
                 .unwrap_or(0);
 
             if q<n {
                 debug_assert!( (n-q)-p > 2);
-                if returns_op {
+                n_steps = if block == (p, q) { n_steps + 1 } else { 0 };
+                block = (p, q);
+                if n_steps % 10 == 9 {
+                    // the block has not split for a long time, so use exceptional shifts
+                    let w = self[(n-q-1,n-q-2)].abs() + self[(n-q-2,n-q-3)].abs();
+                    let step_op = self[(p..n-q, p..n-q)].francis_step_with_shifts(1.5*w, w*w, returns_op);
+                    if returns_op {
+                        op = op * step_op;
+                    }
+                } else if returns_op {
                     op = op * self[(p..n-q, p..n-q)].francis_step_with_op();
                 } else {
                     self[(p..n-q, p..n-q)].francis_step();
-- 
2.43.0


From b591f8cc36fb00cdf75e9a0b6c36e8c3a71efda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 32/53] fix: the QR algorithm did not return the transformation
 it was asked for

---
 alg/src/lin_alg/matrix_impl.rs | 58 ++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 5864681..21ae86b 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1657,6 +1657,11 @@ impl SubMatrix<f64> {
 
 
     pub fn hessenberg_form(&mut self) {
+        self.raw_hessenberg_form(None);
+    }
+
+    // If 'op' is given, it is multiplied by the transformation from the right.
+    fn raw_hessenberg_form(&mut self, mut op: Option<&mut Matrix<f64>>) {
         if self.size().0 != self.size().1 {
             panic!("Input to this function must be a square matrix.");
         }
@@ -1676,6 +1681,11 @@ impl SubMatrix<f64> {
 
             let update = &self[(0..n, k+1..n)] - (&self[(0..n, k+1..n)]*v)*v_t*b;
             self[(0..n, k+1..n)].write_and_move( update );
+
+            if let Some(op) = op.as_mut() {
+                let update = &op[(0..n, k+1..n)] - (&op[(0..n, k+1..n)]*v)*v_t*b;
+                op[(0..n, k+1..n)].write_and_move( update );
+            }
         };
     }
 
@@ -1693,7 +1703,7 @@ impl SubMatrix<f64> {
     fn francis_step_with_shifts(&mut self, s: f64, t: f64, return_op: bool) -> Matrix<f64> {
         let n = self.size().0;
 
-        let op = if return_op {
+        let mut op = if return_op {
             Matrix::identity(n)
         } else {
             Matrix::identity(1)
@@ -1719,6 +1729,12 @@ impl SubMatrix<f64> {
             self[(0..r, k..k+3)].write_and_move(
                 update
             );
+
+            if return_op {
+                let update = &op[(0..n, k..k+3)] -
+                    (&op[(0..n, k..k+3)] * v) * (v.transpose()*b);
+                op[(0..n, k..k+3)].write_and_move( update );
+            }
             x = self[(k+1, k)];
             y = self[(k+2, k)];
             if k < n-3 {
@@ -1736,6 +1752,12 @@ impl SubMatrix<f64> {
             (&self[(0..n, n-2..n)] * v) * (v.transpose()*b);
         self[(0..n, n-2..n)].write_and_move( update );
 
+        if return_op {
+            let update = &op[(0..n, n-2..n)] -
+                (&op[(0..n, n-2..n)] * v) * (v.transpose()*b);
+            op[(0..n, n-2..n)].write_and_move( update );
+        }
+
         op
     }
 
@@ -1757,12 +1779,12 @@ impl SubMatrix<f64> {
             return Matrix::identity(1);
         }
 
-        self.hessenberg_form();
         let mut op = if returns_op {
             Matrix::identity(n)
         } else {
             Matrix::identity(1)
         };
+        self.raw_hessenberg_form( if returns_op { Some(&mut op) } else { None } );
 
         let tolerance = 0.000000000000001 * self.frobenius_norm();
         let mut q=0;
@@ -1790,18 +1812,28 @@ impl SubMatrix<f64> {
                 debug_assert!( (n-q)-p > 2);
                 n_steps = if block == (p, q) { n_steps + 1 } else { 0 };
                 block = (p, q);
-                if n_steps % 10 == 9 {
+                let step_op = if n_steps % 10 == 9 {
                     // the block has not split for a long time, so use exceptional shifts
                     let w = self[(n-q-1,n-q-2)].abs() + self[(n-q-2,n-q-3)].abs();
-                    let step_op = self[(p..n-q, p..n-q)].francis_step_with_shifts(1.5*w, w*w, returns_op);
-                    if returns_op {
-                        op = op * step_op;
-                    }
-                } else if returns_op {
-                    op = op * self[(p..n-q, p..n-q)].francis_step_with_op();
+                    self[(p..n-q, p..n-q)].francis_step_with_shifts(1.5*w, w*w, returns_op)
                 } else {
-                    self[(p..n-q, p..n-q)].francis_step();
+                    self[(p..n-q, p..n-q)].raw_francis_step(returns_op)
                 };
+
+                if returns_op {
+                    // The step touched the active block only, so apply it to the rest of the matrix.
+                    let step_op = &*step_op;
+                    if p > 0 {
+                        let update = &self[(0..p, p..n-q)] * step_op;
+                        self[(0..p, p..n-q)].write_and_move( update );
+                    }
+                    if q > 0 {
+                        let update = step_op.transpose() * &self[(p..n-q, n-q..n)];
+                        self[(p..n-q, n-q..n)].write_and_move( update );
+                    }
+                    let update = &op[(0..n, p..n-q)] * step_op;
+                    op[(0..n, p..n-q)].write_and_move( update );
+                }
             }
         };
 
@@ -2135,7 +2167,7 @@ macro_rules! mut_ref_fn_cast_impl_for_matrix {
         impl Matrix<f64> {
             $(
                 pub fn $fn(&mut self) -> $out {
-                    self[(.., ..)].$fn();
+                    self[(.., ..)].$fn()
                 }
             ) *
         }
@@ -2146,8 +2178,8 @@ mut_ref_fn_cast_impl_for_matrix!{
     (hessenberg_form, ())
     (francis_step, ())
     (qr, ()) 
-    (francis_step_with_op, ())
-    (qr_with_op, ()) 
+    (francis_step_with_op, Matrix<f64>)
+    (qr_with_op, Matrix<f64>) 
 }
 
 // macro_rules! fn_cast_impl_for_matrix {
-- 
2.43.0


From 1beda70fd29c7df5db6841933e491fc23e59d7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 33/53] fix: eigenvectors came out as NaN or wrong for exact,
 repeated or unluckily placed eigenvalues

---
 alg/src/lin_alg/matrix_impl.rs | 181 +++++++++++++++------------------
 1 file changed, 83 insertions(+), 98 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 21ae86b..23c5c5c 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1266,8 +1266,15 @@ impl Matrix<f64> {
             self.size,
             b.size
         );
+        let pivots = self.lu_with_pivoting();
+        self.solve_with_lu(&pivots, &mut b);
+        b
+    }
+
+    // Replaces 'b' by the solution, where 'self' and 'pivots' are what 'lu_with_pivoting' left.
+    fn solve_with_lu(&self, pivots: &[usize], b: &mut Matrix<f64>) {
         let n = self.size().0;
-        for (i, p) in self.lu_with_pivoting().into_iter().enumerate() {
+        for (i, &p) in pivots.iter().enumerate() {
             b.swap_rows(i, p);
         }
         
@@ -1282,8 +1289,72 @@ impl Matrix<f64> {
             b[(i, 0)] = b[(i,0)] - self[(i, i+1..n)].dot( &b[(i+1..n, 0)]);
             b[(i, 0)] /= self[(i,i)];
         }
-        
-        b
+    }
+
+    // Inverse iteration: returns a unit eigenvector of 'self' for the eigenvalue 'lambda', orthogonal to 'known'.
+    fn eigenvector(&self, lambda: f64, known: &[Matrix<f64>]) -> Matrix<f64> {
+        let n = self.size().0;
+        let norm = self.frobenius_norm();
+        let norm = if norm > 0.0 { norm } else { 1.0 };
+
+        let mut m = self.clone();
+        for i in 0..n {
+            m[(i,i)] -= lambda;
+        }
+        let m_lu = {
+            let mut m_lu = m.clone();
+            // An accurate eigenvalue makes the matrix singular, so shift by something close to it, which treats all of its eigenvectors alike.
+            for i in 0..n {
+                m_lu[(i,i)] -= 0.0000000001 * norm;
+            }
+            let pivots = m_lu.lu_with_pivoting();
+            for i in 0..n {
+                if m_lu[(i,i)].abs() < f64::EPSILON * norm {
+                    m_lu[(i,i)] = f64::EPSILON * norm;
+                }
+            }
+            (m_lu, pivots)
+        };
+
+        // Makes 'v' a unit vector orthogonal to 'known', or returns false if it is a combination of 'known' up to rounding.
+        let orthonormalize = |v: &mut Matrix<f64>| -> bool {
+            for _ in 0..2 { // the second round cleans up after the cancellation in the first one
+                let factor = v.two_norm();
+                *v /= factor;
+                for u in known {
+                    let c = u[(.., ..)].transpose().dot( v );
+                    let update = &**v - &**u * c;
+                    v.write_and_move( update );
+                }
+                if !(v.two_norm() > 0.00000001) {
+                    return false;
+                }
+            }
+            let factor = v.two_norm();
+            *v /= factor;
+            true
+        };
+
+        // A start vector may happen to have no component along the eigenvector, so move on to another one if the result is not an eigenvector.
+        let mut best: Option<(f64, Matrix<f64>)> = None;
+        for start in 0..=n {
+            let mut v = Matrix::<f64>::from_fn(n, 1, |i, _| if start == 0 || start == i+1 { 1.0 } else { 0.0 });
+            if !orthonormalize(&mut v) { continue; }
+            for _ in 0..2 {
+                m_lu.0.solve_with_lu(&m_lu.1, &mut v);
+                if !orthonormalize(&mut v) { break; }
+
+                let residual = (&*m * &*v).two_norm();
+                if best.as_ref().map_or(true, |(r, _)| residual < *r) {
+                    best = Some((residual, v.clone()));
+                }
+            }
+            match &best {
+                Some((residual, _)) if *residual < 0.0000000001 * norm => break,
+                _ => (),
+            }
+        }
+        best.expect("there is always an eigenvector").1
     }
 
     pub fn spectrum(mut self) -> Matrix<f64> {
@@ -1320,33 +1391,13 @@ impl Matrix<f64> {
         );
         let n = self.size().0;
 
-        // initialize the eigenvectors
-        let mut eigen_vectors = Matrix::<f64>::zero(n, n);
-        let elem = 1.0 / (n as f64).sqrt();
-        for i in 0..n {
-            for j in 0..n {
-                eigen_vectors[(i,j)] = elem;
-            }
-        }
-
         // get the eigenvalues
         let spectrum = self.clone().spectrum();
 
         // run the inverse iteration to get the eigenvector for each of the eigenvalues
+        let mut eigen_vectors = Matrix::<f64>::zero(n, n);
         for i in 0..n {
-            let lambda = spectrum[(i,0)];
-
-            let mut m = self.clone();
-            for j in 0..n {
-                m[(j,j)] -= lambda;
-            }
-
-            let mut update = m.clone().solve( eigen_vectors[(.., i)].as_matrix() );
-            update /= update.two_norm();
-            eigen_vectors[(.., i)].write_and_move( update );
-            let mut update = m.solve( eigen_vectors[(.., i)].as_matrix() );
-            update /= update.two_norm();
-            eigen_vectors[(.., i)].write_and_move( update );
+            eigen_vectors[(.., i)].write_and_move( self.eigenvector(spectrum[(i,0)], &[]) );
         }
 
         (spectrum, eigen_vectors)
@@ -1387,36 +1438,7 @@ impl Matrix<f64> {
         );
         let n = self.size().0;
 
-        // initialize the eigenvectors
-        let mut eigen_vectors = Matrix::<f64>::zero(n, n);
-        let elem = 1.0 / (n as f64).sqrt();
-        for i in 0..n {
-            for j in 0..n {
-                eigen_vectors[(i,j)] = elem;
-            }
-        }
-
-        // get the eigenvalues
-        let spectrum = self.clone().spectrum_symmetric();
-
-        // run the inverse iteration to get the eigenvector for each of the eigenvalues
-        for i in 0..n {
-            let lambda = spectrum[(i,0)];
-
-            let mut m = self.clone();
-            for j in 0..n {
-                m[(j,j)] -= lambda;
-            }
-
-            let mut update = m.clone().solve( eigen_vectors[(.., i)].as_matrix() );
-            update /= update.two_norm();
-            eigen_vectors[(.., i)].write_and_move( update );
-            let mut update = m.solve( eigen_vectors[(.., i)].as_matrix() );
-            update /= update.two_norm();
-            eigen_vectors[(.., i)].write_and_move( update );
-        }
-
-        (spectrum, eigen_vectors)
+        self.spectrum_with_n_smallest_eigenvecs_symmetric(n)
     }
 
     pub fn spectrum_with_n_smallest_eigenvecs_symmetric(self, n: usize) -> (Matrix<f64>, Matrix<f64>) {
@@ -1425,34 +1447,16 @@ impl Matrix<f64> {
         );
         let size = self.size().0;
 
-        // initialize the eigenvectors
-        let mut eigen_vectors = Matrix::<f64>::from_fn(size, n, |_, _| 0.0);
-        let elem = 1.0 / (size as f64).sqrt();
-        for i in 0..size {
-            for j in 0..n {
-                eigen_vectors[(i,j)] = elem;
-            }
-        }
-
         // get the eigenvalues
         let spectrum = self.clone().spectrum_symmetric();
 
         // run the inverse iteration to get the eigenvector for each of the eigenvalues
+        let mut known: Vec<Matrix<f64>> = Vec::new();
         for i in 0..n {
-            let lambda = spectrum[(i,0)];
-
-            let mut m = self.clone();
-            for j in 0..size {
-                m[(j,j)] -= lambda;
-            }
-
-            let mut update = m.clone().solve( eigen_vectors[(.., i)].as_matrix() );
-            update /= update.two_norm();
-            eigen_vectors[(.., i)].write_and_move( update );
-            let mut update = m.solve( eigen_vectors[(.., i)].as_matrix() );
-            update /= update.two_norm();
-            eigen_vectors[(.., i)].write_and_move( update );
+            let v = self.eigenvector(spectrum[(i,0)], &known);
+            known.push(v);
         }
+        let eigen_vectors = Matrix::<f64>::from_fn(size, n, |i, j| known[j][(i,0)]);
 
         (spectrum, eigen_vectors)
     }
@@ -1461,34 +1465,15 @@ impl Matrix<f64> {
         assert_eq!( self.size().0, self.size().1,
             "Input to this function must be a square matrix."
         );
-        let size = self.size().0;
-
-        // initialize the eigenvectors
-        let mut eigen_vectors = Matrix::<f64>::zero(size, 1);
-        let elem = 1.0 / (size as f64).sqrt();
-        for i in 0..size {
-            eigen_vectors[(i,0)] = elem;
-        }
 
         // get the eigenvalues
         let spectrum = self.clone().spectrum_symmetric();
 
         // run the inverse iteration to get the eigenvector
         let lambda = spectrum[(n,0)];
+        let eigen_vector = self.eigenvector(lambda, &[]);
 
-        let mut m = self.clone();
-        for j in 0..size {
-            m[(j,j)] -= lambda;
-        }
-
-        let mut update = m.clone().solve( eigen_vectors[(.., 0)].as_matrix() );
-        update /= update.two_norm();
-        eigen_vectors[(.., 0)].write_and_move( update );
-        let mut update = m.solve( eigen_vectors[(.., 0)].as_matrix() );
-        update /= update.two_norm();
-        eigen_vectors[(.., 0)].write_and_move( update );
-
-        (lambda, eigen_vectors)
+        (lambda, eigen_vector)
     }
 
     // pub fn extremal_spectrum_symmetric(self, n_eigen: usize, small: bool) -> (Matrix<f64>, Matrix<f64>) {
-- 
2.43.0


From 0b0926b08ba5d1e3f99f4cfe1b0dcb92eec742c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 34/53] fix: simplicial complexes with more than 64 vertices
 confused their simplices

---
 topo_spaces/src/simplicial/mod_impl.rs | 32 ++++++++++++--------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index d099d4f..37be130 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -51,19 +51,19 @@ impl SimplicialCell {
     }
 
     pub fn join(&mut self, cell: &SimplicialCell) {
-        self.vertices = self.vertices
-            .iter()
-            .zip(cell.vertices.iter()).map(|(&x, &y)| x | y)
+        self.vertices = (0..std::cmp::max(self.vertices.len(), cell.vertices.len()))
+            .map(|i| self.word(i) | cell.word(i))
             .collect();
-            
-        if cell.vertices.len() > self.vertices.len() { 
-            (self.vertices.len()..cell.vertices.len()).
-                for_each(|i| self.vertices.push(cell.vertices[i]));
-        }
 
         self.dim = SimplicialCell::dim(&self.vertices);
     }
 
+    // the 'i'th word of the bit set of vertices; the words that are not stored are empty.
+    #[inline]
+    fn word(&self, i: usize) -> u64 {
+        self.vertices.get(i).copied().unwrap_or(0)
+    }
+
     pub fn intersection(&self, cell: &SimplicialCell) -> SimplicialCell {
         let vertices = self.vertices
             .iter()
@@ -108,7 +108,7 @@ impl SimplicialCell {
     }
 
     pub fn contains(&self, cell: &SimplicialCell) -> bool {
-        self.vertices.iter().zip(cell.vertices.iter()).all(|(&x, &y)| x | y == x)
+        cell.vertices.iter().enumerate().all(|(i, &y)| self.word(i) | y == self.word(i))
     }
 
     pub fn get_face(&self) -> Vec<SimplicialCell> {
@@ -344,11 +344,8 @@ impl<T: VertexLabel> SimplicialCplx<T>
 
 impl PartialEq for SimplicialCell {
     fn eq(&self, rhs: &Self) -> bool {
-        if self.vertices.len() == rhs.vertices.len() {
-            return self.vertices == rhs.vertices
-        } else {
-            self.vertices.iter().zip(rhs.vertices.iter()).all(|(&x, &y)| x==y)
-        }
+        (0..std::cmp::max(self.vertices.len(), rhs.vertices.len()))
+            .all(|i| self.word(i) == rhs.word(i))
     }
 }
 
@@ -362,9 +359,10 @@ impl Ord for SimplicialCell {
         }
 
         // if self.dim == rhs.dim
-        let result = self.vertices.iter()
-            .zip(rhs.vertices.iter())
-            .map(|(x, y)| x.cmp(y))
+        // the highest word is compared first, so that the order does not depend on the word size
+        let result = (0..std::cmp::max(self.vertices.len(), rhs.vertices.len()))
+            .rev()
+            .map(|i| self.word(i).cmp(&rhs.word(i)))
             .find(|&cmp| cmp != Ordering::Equal);
         match result {
             Some(cmp) => cmp,
-- 
2.43.0


From 3b886e72ce8c7a4e15d15ceb0c5318ba8527a50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 35/53] fix: complexes could not be built from three or more
 vertices

---
 topo_spaces/src/simplicial/mod_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index 37be130..5abb293 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -164,7 +164,7 @@ impl<T: VertexLabel> SimplicialCplx<T>
             size: vertices_labels.len(),
             maximal_cells: 
                 (0..vertices_labels.len())
-                .map(|x| SimplicialCell::new(1, vec![x]))
+                .map(|x| SimplicialCell::new(x+1, vec![x]))
                 .collect(),
             vertices_labeling: vertices_labels,
         }
-- 
2.43.0


From 00cb7a60b29feb16bafaa9de1a2ccce6e77c709a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 36/53] fix: counting the faces of large simplices overflowed

---
 topo_spaces/src/simplicial/mod_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topo_spaces/src/simplicial/mod_impl.rs b/topo_spaces/src/simplicial/mod_impl.rs
index 5abb293..2321efe 100644
--- a/topo_spaces/src/simplicial/mod_impl.rs
+++ b/topo_spaces/src/simplicial/mod_impl.rs
@@ -276,7 +276,7 @@ impl<T: VertexLabel> SimplicialCplx<T>
             if x < y {
                 0
             } else {
-                (x-y+1..=x).product::<usize>() / (1..=y).product::<usize>()
+                (1..=y).fold(1, |prod, i| prod * (x-y+i) / i)
             }
         };
 
-- 
2.43.0


From 3c8aa948aa0b5e45ea1734d48fc0b28fc4ce1b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 37/53] fix: the max_dim argument of H! could not be given a
 value

---
 topo_spaces/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/topo_spaces/src/lib.rs b/topo_spaces/src/lib.rs
index ab5e315..6d23d59 100644
--- a/topo_spaces/src/lib.rs
+++ b/topo_spaces/src/lib.rs
@@ -186,8 +186,8 @@ macro_rules! H {
     ($complex:expr) => {
         IntegralHomology::new(&$complex, None)
     };
-    ($complex:expr, max_dim=) => {
-        IntegralHomology::new(&$complex, Some(max_dim))
+    ($complex:expr, max_dim=$max_dim:expr) => {
+        IntegralHomology::new(&$complex, Some($max_dim))
     };
 }
 
-- 
2.43.0


From 1637fd7bde17f726e60a1d680a50f6a9e0c874eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:40 +0000
Subject: [PATCH 38/53] fix: repeated loops at a vertex were subtracted twice
 from the number of edges

---
 topo_spaces/src/graph.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 447cbcb..830180f 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -80,13 +80,12 @@ impl<T: PID> Graph<T> {
             data[v_idx][w_idx].push(Edge::new());
 
             // update some members
-            if data[v_idx][w_idx].len() > 1 {
-                n_non_loop_edges_up_to_multiplicity -= 1;
-            } 
             if v_idx == w_idx {
                 n_loops += 1;
                 n_non_loop_edges -= 1;
                 n_non_loop_edges_up_to_multiplicity -= 1;
+            } else if data[v_idx][w_idx].len() > 1 {
+                n_non_loop_edges_up_to_multiplicity -= 1;
             }
         });
 
-- 
2.43.0


From 2e8aefb1bdc25351f8d2bd1a541374db88305458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:40 +0000
Subject: [PATCH 39/53] fix: the vertex subdividing an edge for two points was
 put on the end of the edge

---
 topo_spaces/src/graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 830180f..4446742 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -1146,11 +1146,11 @@ impl SimpleGraph {
 
                 for (k, edge) in graph.data[i][j].iter().enumerate() {
                     subdivided_graph.data.add_edge(i, subdivided_graph.n_vertices());
-                    subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( 1; n_marked_points-1))));
+                    subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( 1; n_mid_vertices+1))));
 
                     for l in 2..=n_mid_vertices {
                         subdivided_graph.data.add_edge(subdivided_graph.n_vertices()-1, subdivided_graph.n_vertices());
-                        subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( l; n_marked_points-1))));
+                        subdivided_graph.vertices_list.push(SimpleVertex::Redundant(VertexVector::new(graph.vertices_labeling[i].clone(), graph.vertices_labeling[j].clone(), k, rational!( l; n_mid_vertices+1))));
                     }
 
                     subdivided_graph.data.add_edge(j, subdivided_graph.n_vertices()-1);
-- 
2.43.0


From 5b954e2cbd9ded37e1f828467b8b561a3875f030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:40 +0000
Subject: [PATCH 40/53] fix: iterating over the edges of a graph listed [0, 1]
 even if it is not an edge

---
 topo_spaces/src/graph.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 4446742..ff413dc 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -1474,11 +1474,16 @@ impl<'a> Iterator for EdgeIter<'a> {
 impl<'a> RawSimpleGraph {
     pub fn edge_iter(&'a self) -> EdgeIter<'a> {
         let edge = (0, 1);
-        EdgeIter {
+        let mut iter = EdgeIter {
             graph: self,
             curr: edge,
             is_done: self.n_vertices() < 2,
+        };
+        // the iterator starts at [0, 1], which is not necessarily an edge
+        if !iter.is_done && !self.contains(0, 1) {
+            iter.next();
         }
+        iter
     }
 
     pub fn vertex_iter(&'a self) -> VertexIter<'a> {
-- 
2.43.0


From 72d5a4eb5fd6c9652a26ac30edb748a65d8440ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:40 +0000
Subject: [PATCH 41/53] fix: creating a graph without vertices underflowed

---
 topo_spaces/src/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index ff413dc..3381bc3 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -254,7 +254,7 @@ pub struct RawSimpleGraph {
 impl RawSimpleGraph {
     pub fn new(n_vertices: usize) -> RawSimpleGraph {
         RawSimpleGraph {
-            data: BinaryPool::new(n_vertices * (n_vertices-1)/2),
+            data: BinaryPool::new(n_vertices * n_vertices.saturating_sub(1)/2),
             n_vertices: n_vertices,
             is_maximal_tree_chosen: false,
         }
-- 
2.43.0


From d1c30322c09e5f753bec8f9f5faa5af11ba9ff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 42/53] fix: no base point was found for graphs without leaves
 and non-separating essential vertices

---
 topo_spaces/src/graph.rs | 59 +++++++++++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 10 deletions(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 3381bc3..857b019 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -813,16 +813,8 @@ impl RawSimpleGraph {
                     // return the permutation that represents this swap
                     return permutation!{ (0, i) };
                 } if self.degree_of(i) >= 3 {
-                    // remove edges adjacent to i and see if the resulting graph is connected
-                    let tmp_edges: Vec<_> = self.adjacent_vertices_iter(i).map(|j| if i<j {(i, j)} else {(j, i)} ).collect();
-                    self.remove_edges_adjacent_to(i);
-                    self.add_edge( tmp_edges.first().unwrap().0, tmp_edges.first().unwrap().1 ); // add one edge back in, so that the vertex i belongs to one of the components
-                    let connected = self.is_connected();
-                    // recover the graph
-                    tmp_edges.iter().for_each(|&(i, j)| self.add_edge(i, j) );
-
-                    //  if connected bring the vertex to the front
-                    if connected { 
+                    //  if the graph is connected without i, bring the vertex to the front
+                    if !self.is_separating(i) { 
                         if i==0 {
                             return Permutation::identity()
                         } else {
@@ -833,11 +825,58 @@ impl RawSimpleGraph {
                     }
                 }
             }
+            // -- If there is no such vertex either, then the graph is a cycle, or it contains cycles with only one essential vertex on them.
+            // -- In a cycle, any vertex will do.
+            if (0..self.n_vertices()).all(|i| self.degree_of(i) == 2) { return Permutation::identity(); }
+            // -- Otherwise the base point is at distance two of the essential vertex on such a cycle, 
+            // -- and the maximal tree has to reach the essential vertex by going around the cycle.
+            for i in 0..self.n_vertices() {
+                if self.degree_of(i) != 2 { continue; }
+                let neighbors = self.get_adjacent_vertices(i);
+                for (w, next) in [(neighbors[0], neighbors[1]), (neighbors[1], neighbors[0])] {
+                    if self.degree_of(w) != 2 { continue; }
+                    let essential = self.adjacent_vertices_iter(w).find(|&v| v != i).unwrap();
+
+                    // go around the cycle
+                    let (mut prev, mut curr) = (i, next);
+                    while self.degree_of(curr) == 2 && curr != i {
+                        let v = self.adjacent_vertices_iter(curr).find(|&v| v != prev).unwrap();
+                        prev = curr;
+                        curr = v;
+                    }
+                    if curr != essential { continue; }
+
+                    // bring 'i' to the front, and 'next' to the place after it
+                    let mut p = Permutation::identity();
+                    if i != 0 {
+                        self.swap(0, i);
+                        p = permutation!{ (0, i) };
+                    }
+                    let next = p.map(next);
+                    if next != 1 {
+                        self.swap(1, next);
+                        p = permutation!{ (1, next) } * p;
+                    }
+                    return p;
+                }
+            }
             panic!("good basepoint does not exist.");
         };
         Permutation::identity()
     }
 
+    fn is_separating(&mut self, i: usize) -> bool {
+        // remove edges adjacent to i and see if the resulting graph is connected
+        let tmp_edges: Vec<_> = self.adjacent_vertices_iter(i).map(|j| if i<j {(i, j)} else {(j, i)} ).collect();
+        self.remove_edges_adjacent_to(i);
+        self.add_edge( tmp_edges.first().unwrap().0, tmp_edges.first().unwrap().1 ); // add one edge back in, so that the vertex i belongs to one of the components
+        let connected = self.is_connected();
+        // recover the graph
+        tmp_edges.iter().for_each(|&(i, j)| self.add_edge(i, j) );
+
+        !connected
+    }
+
     // used in 'choose_maximal_tree_by_depth_first(_)'. Find edge (j,k)
     fn fetch_right_and_swap( &mut self, i: usize, j: usize ) -> Option<Permutation> {
         let op_k = self.adjacent_vertices_iter(i).filter(|&k| k > j).next();
-- 
2.43.0


From 592f9d5ef6c8f2a848e20bb4271a11ecdb7c4fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:46 +0000
Subject: [PATCH 43/53] fix: reducing a path whose steps cancel before the end
 panicked

---
 topo_spaces/src/cubical.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index f2bfbad..8fa5085 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -1161,7 +1161,7 @@ impl EdgePath {
         Self(Vec::new())
     }
     pub fn reduce_to_geodesic(self) -> Self {
-        let mut out = vec![Vec::new()];
+        let mut out: Vec<Vec<[usize; 2]>> = Vec::new();
 
         let commute = |v: &[[usize; 2]], w: &[usize; 2]| -> bool {
             for i in v {
@@ -1207,6 +1207,8 @@ impl EdgePath {
                 } else {
                     out[i+1].push(step);
                 }
+            } else if out.is_empty() {
+                out.push(vec![step]);
             } else {
                 out[0].push(step);
             };
-- 
2.43.0


From 1e56c0c3688348efefa915e9844b77c0ccc14ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:10 +0000
Subject: [PATCH 44/53] fix: the bases of the boundary maps of a cubical
 complex were empty

---
 topo_spaces/src/cubical.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index 8fa5085..7ca1023 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -330,13 +330,14 @@ mod cubical_cells {
 impl Complex for CubicalCplx {
     type Cell = Cube;
     fn boundary_map (&self) -> Vec< (Matrix<i64>, Vec<Self::Cell>) > {
-        let basis: Vec<Vec<Self::Cell>> = vec![Vec::new(); self.dim+1];
+        let mut basis: Vec<Vec<Self::Cell>> = vec![Vec::new(); self.dim+1];
 
         let mut numbering = vec![0; self.data.len()];
         let mut counter = vec![0; self.dim+1];
         self.final_branch_indeces.iter().for_each(|&idx| {
             numbering[idx] = counter[self.dim_of(idx)];
             counter[self.dim_of(idx)] += 1;
+            basis[self.dim_of(idx)].push( Cube::from(self.get_cell_from_idx(idx).unwrap()) );
         });
 
         // instantiating the boundary maps
-- 
2.43.0


From 927fae4d4525ffdf0330f344bf7c0295d906865a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:48 +0000
Subject: [PATCH 45/53] fix: homology of configuration spaces was wrong when an
 edge of the tree disrespects vertices of other branches

---
 topo_spaces/src/cubical.rs | 15 ++++++++++-----
 topo_spaces/src/graph.rs   |  6 ++++++
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index 7ca1023..70acefa 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -533,9 +533,9 @@ impl Cube {
             .enumerate()
             .filter(|&(_, &f)| 
                 ( f.is_vertex() && !f.is_blocked(&self, graph) ) || 
-                ( f.is_edge() && f.is_in_maximal_tree(graph) && ( f.is_order_respecting() || self.0.iter().all(|&other| !other.is_vertex() || !other.is_disrespected_by(f)) ))
+                ( f.is_edge() && f.is_in_maximal_tree(graph) && ( f.is_order_respecting() || self.0.iter().all(|&other| !other.is_vertex() || !other.pays_for(f, graph)) ))
             )
-            .next();
+            .min_by_key(|&(_, &f)| if f.is_edge() { f.initial().vertex() } else { f.vertex() });
         match f {
             Some((i, factor)) => if factor.is_vertex() { MorseProp::Redundant(i) } else { MorseProp::Collapsible(i) },
             None => MorseProp::Critical,
@@ -811,7 +811,7 @@ impl UdnMorseCplx {
                 self.factor_iter(branch_idx)
                     .filter(|&factor| factor.is_edge() ) // look only at the edges in the cell
                     .filter(|&factor| factor.is_in_maximal_tree(&self.factor_pool) )
-                    .filter(|&factor| !vertices.iter().any(  |&v| v.is_disrespected_by(factor) ) ) // remove all the edges that are "paid back", i.e., the ones with a disrespected vertex
+                    .filter(|&factor| !vertices.iter().any(  |&v| v.pays_for(factor, &self.factor_pool) ) ) // remove all the edges that are "paid back", i.e., the ones with a disrespected vertex
                     .collect::<Vec<_>>()
             };
             let upper_bound = {
@@ -844,7 +844,7 @@ impl UdnMorseCplx {
                 .filter(|&&factor| factor < upper_bound || ( factor.is_edge() && factor.terminal() < upper_bound ) ) // ignore upper bounds 
                 .filter(|&&factor| {
                     if factor.is_edge() && factor.is_in_maximal_tree(&self.factor_pool) {
-                        let vertices_candidates: Vec<_> = (factor.terminal().vertex()+1..factor.initial().vertex()).map(|v| CubeFactor::Vertex(v)).filter(|&v| self.factor_iter(branch_idx).all(|f| f.is_disjoint_from(v))).collect();
+                        let vertices_candidates: Vec<_> = (factor.terminal().vertex()+1..factor.initial().vertex()).map(|v| CubeFactor::Vertex(v)).filter(|&v| v.pays_for(factor, &self.factor_pool)).filter(|&v| self.factor_iter(branch_idx).all(|f| f.is_disjoint_from(v))).collect();
                         !vertices_candidates.is_empty()
                     } else {
                         true
@@ -856,7 +856,12 @@ impl UdnMorseCplx {
             // further, if the 'n_rem_factor' equals the number of debts, then we need to pay back right now, so remove all the factors that do not pay for unpaid edges.
             let n_debts = unpaid_edges.len();
             if n_rem_factors == n_debts {
-                new_branches.retain(|b| (**b).is_vertex() );
+                new_branches.retain(|b| (**b).is_vertex() && unpaid_edges.iter().any(|&edge| (**b).pays_for(edge, &self.factor_pool) ) );
+            }
+
+            // If there are more debts than factors to come, then there is no way to pay.
+            if n_rem_factors < n_debts {
+                new_branches.clear();
             }
 
             // Similarly if the 'n_rem_factors' is 1, then we cannot add a non-order-respecting edge that is in the maximal tree anymore.
diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 857b019..4601349 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -1405,6 +1405,12 @@ impl CubeFactor {
         i<k && k<j
     }
 
+    // An edge of the maximal tree disrespects the vertices between its ends, but only those that flow to the same terminal are in its way.
+    // 'self' must be a vertex, and 'edge' has to be an edge in the maximal tree.
+    pub fn pays_for(self, edge: CubeFactor, graph: &RawSimpleGraph) -> bool {
+        self.is_disrespected_by(edge) && self.flow(graph).terminal() == edge.terminal()
+    }
+
     pub fn is_blocked(self, factors: &[CubeFactor], graph: &RawSimpleGraph) -> bool {
         if let CubeFactor::Vertex(v) = self {
             // if this is the basepoint of the tree, then this is trivially blocked.
-- 
2.43.0


From 7a1761cf81191f172162e6433a797f6133d70d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 46/53] fix: complexes for one point or of dimension 0 had tree
 edges as cells

---
 topo_spaces/src/cubical.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index 70acefa..85d35fb 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -803,7 +803,10 @@ impl UdnMorseCplx {
         // possible factors are provided by upstairs, so just collect them and make new_branches
         let new_branches = if self.data.len()==0 {
             // if 'self.data.len()' is zero, then this is the initial call of this function
-            possible_factors.iter().map(|&factor| Branch::new_parent(factor) ).collect::<Vec<_>>()
+            // an edge can be chosen only if the upper dim allows it, and if there are enough factors to come to pay for it.
+            possible_factors.iter()
+                .filter(|&&factor| factor.is_vertex() || (upper_dim > 0 && (n_rem_factors > 1 || !factor.is_in_maximal_tree(&self.factor_pool))) )
+                .map(|&factor| Branch::new_parent(factor) ).collect::<Vec<_>>()
         } else {
             // if this is not the initial call, then we need to take care of the upper bound and lower bound when collecting factors
             let unpaid_edges = {
-- 
2.43.0


From fdf2922e9b92ea0be0a8ab88cc7a857c992868d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:45 +0000
Subject: [PATCH 47/53] fix: cells with vertices that are not blocked were
 listed as critical

---
 topo_spaces/src/cubical.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/topo_spaces/src/cubical.rs b/topo_spaces/src/cubical.rs
index 85d35fb..aeefe82 100644
--- a/topo_spaces/src/cubical.rs
+++ b/topo_spaces/src/cubical.rs
@@ -912,8 +912,11 @@ impl UdnMorseCplx {
 
             // modify 'possible_factors' for the factors downstairs.
             if curr_factor.is_vertex() { 
+                // the next vertex is blocked only if it is a child of this vertex, which is not the case if this vertex is an end of the tree.
                 let new_vertex = curr_factor.vertex()+1;
-                if new_vertex < self.factor_pool.n_vertices() { factors_added.push( CubeFactor::Vertex( curr_factor.vertex()+1 ) ); }
+                if new_vertex < self.factor_pool.n_vertices() && CubeFactor::Vertex(new_vertex).flow(&self.factor_pool).terminal() == curr_factor {
+                    factors_added.push( CubeFactor::Vertex(new_vertex) );
+                }
             } else if curr_factor.is_in_maximal_tree(&self.factor_pool) {
                 // Coming here means that 'curr_factor' is an edge in the maximal tree.
                 let [_, j] = curr_factor.edge(); // get two ends of the edge
@@ -923,7 +926,10 @@ impl UdnMorseCplx {
                     .filter(|&v| v > curr_factor.terminal())
                     .filter(|&v| v.flow(&self.factor_pool).terminal() == curr_factor.terminal() )
                     .for_each(|factor| factors_added.push(factor) ); 
-                if j+1<self.factor_pool.n_vertices() { factors_added.push( CubeFactor::Vertex(j+1) )}; // add a vertex blocked by the initial vertex of the edge
+                // add a vertex blocked by the initial vertex of the edge
+                if j+1 < self.factor_pool.n_vertices() && CubeFactor::Vertex(j+1).flow(&self.factor_pool).terminal() == curr_factor.initial() {
+                    factors_added.push( CubeFactor::Vertex(j+1) );
+                }
             } else {
                 // Coming here means that 'curr_factor' is an edge not in the maximal tree.
                 let [_, j] = curr_factor.edge(); // get two ends of the edge
-- 
2.43.0


From b902e65dd0f70f97f16669f69b59c57f60ac7e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:07 +0000
Subject: [PATCH 48/53] fix: Delaunay triangulations missed triangles at the
 boundary of the convex hull

---
 geom/src/lib.rs | 53 +++++++++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/geom/src/lib.rs b/geom/src/lib.rs
index 75ae283..a144d15 100644
--- a/geom/src/lib.rs
+++ b/geom/src/lib.rs
@@ -56,26 +56,36 @@ impl Triangle {
 }
 
 pub fn delaunay_triangulation(points: &[ConstVector<f64, 2>]) -> (Vec<Triangle>, Vec<[usize; 3]>) {
-    let original_points = {
-        let center = points.iter()
-            .fold(ConstVector::<f64, 2>::zero(), |accum, x| accum+*x )
-            / points.len() as f64;
-        let r = points.iter()
-            .map(|p| (*p-center).two_norm())
-            .max_by(|p, q| p.partial_cmp(q).unwrap())
-            .unwrap()
-             + 1_f64;
-        let p1 = center + ConstVector::<f64, 2>::from( [0_f64, 2.0*r] );
-        let p2 = center + ConstVector::<f64, 2>::from( [3_f64.sqrt()*r, -r] );
-        let p3 = center + ConstVector::<f64, 2>::from( [-3_f64.sqrt()*r, -r] );
-        [p1,p2,p3]
-    };
-    
-    let index = |i: usize| {
-        if i<points.len(){
-            points[i]
-        } else {
-            original_points[i-points.len()]
+    // The directions of the three corners of the original triangle, which are infinitely far away from the origin.
+    // They cannot be placed at any finite distance, for they must not be in the circumcircle of any three of the points.
+    let directions = [
+        ConstVector::<f64, 2>::from( [0_f64, 2.0] ),
+        ConstVector::<f64, 2>::from( [3_f64.sqrt(), -1.0] ),
+        ConstVector::<f64, 2>::from( [-3_f64.sqrt(), -1.0] )
+    ];
+
+    // the circumcircle of a triangle with corners infinitely far away is a half plane
+    let circum_circle_contains = |t: &[usize; 3], p: ConstVector<f64, 2>| {
+        let finite: Vec<_> = t.iter().filter(|&&i| i < points.len()).map(|&i| points[i]).collect();
+        let infinite: Vec<_> = t.iter().filter(|&&i| i >= points.len()).map(|&i| directions[i-points.len()]).collect();
+        let cross = |v: ConstVector<f64, 2>, w: ConstVector<f64, 2>| v[0]*w[1] - v[1]*w[0];
+        let dot = |v: ConstVector<f64, 2>, w: ConstVector<f64, 2>| v[0]*w[0] + v[1]*w[1];
+
+        match finite.len() {
+            3 => Triangle::new([finite[0], finite[1], finite[2]]).circum_circle_contains(p),
+            2 => {
+                let (a, b) = (finite[0], finite[1]);
+                let side = cross(b-a, p-a);
+                // the points on the boundary of the half plane are contained if they are between 'a' and 'b'
+                if side == 0.0 { dot(p-a, p-b) < 0.0 } else { (side > 0.0) == (cross(b-a, infinite[0]) > 0.0) }
+            },
+            1 => {
+                let a = finite[0];
+                let side = dot(p-a, infinite[0]+infinite[1]);
+                // the points on the boundary of the half plane are contained if they are nearer to the origin than 'a'
+                if side == 0.0 { p.two_norm() < a.two_norm() } else { side > 0.0 }
+            },
+            _ => true,
         }
     };
 
@@ -85,8 +95,7 @@ pub fn delaunay_triangulation(points: &[ConstVector<f64, 2>]) -> (Vec<Triangle>,
     for i in 0..points.len() {
         let mut bad_triangles = Vec::new();
         for &t in &triangulation {
-            let triangle = Triangle::new([index(t[0]), index(t[1]), index(t[2])]);
-            if triangle.circum_circle_contains(points[i]) {
+            if circum_circle_contains(&t, points[i]) {
                 bad_triangles.push( t );
             }
         }
-- 
2.43.0


From 135c1a68907b17c9fc11322591b2b9e648797794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:26 +0000
Subject: [PATCH 49/53] fix: points on the circumcircle of a triangle were
 rounded to either side, which broke Delaunay triangulations

---
 geom/src/lib.rs | 50 +++++++++++++------------------------------------
 1 file changed, 13 insertions(+), 37 deletions(-)

diff --git a/geom/src/lib.rs b/geom/src/lib.rs
index a144d15..992d432 100644
--- a/geom/src/lib.rs
+++ b/geom/src/lib.rs
@@ -1,20 +1,7 @@
-use alg::lin_alg::{ConstVector, ConstMatrix};
+use alg::lin_alg::ConstVector;
 use util::TupleIterable;
 
 
-#[derive(Clone, Copy, PartialEq)]
-struct Sphere {
-    radius: f64,
-    center: ConstVector<f64, 2>,
-}
-
-impl Sphere {
-    fn contains(&self, p: ConstVector<f64, 2>) -> bool {
-        (p - self.center).two_norm() < self.radius
-    }
-}
-
-
 #[derive(Clone, Copy, PartialEq)]
 pub struct Triangle {
     data: [ConstVector<f64, 2>; 3]
@@ -22,32 +9,21 @@ pub struct Triangle {
 
 impl Triangle {
     pub fn circum_circle_contains(&self, p: ConstVector<f64, 2>) -> bool {
-        let orthogonal = |mut m: ConstVector<f64, 2>| {
-            let tmp = m[0];
-            m[0] = -m[1];
-            m[1] = tmp;
-            m
+        // The sign of this determinant tells the side of the circle. This does not divide, for otherwise points on the circle are rounded to either side.
+        let row = |q: ConstVector<f64, 2>| {
+            let v = q - p;
+            [v[0], v[1], v[0]*v[0] + v[1]*v[1]]
         };
-        let inverse = |m: ConstMatrix<f64, 2, 2>| {
-            let det = m[0][0] * m[1][1] - m[1][0] * m[0][1];
-            ConstMatrix::from(
-                [[ m[1][1], -m[0][1]],
-                [-m[1][0],  m[0][0]]]
-            ) / det
-        };
-        let a = self.data[0] + (self.data[1]-self.data[0]) / 2.0;
-        let b = orthogonal( self.data[1]-self.data[0] );
-        let c = self.data[0] + (self.data[2]-self.data[0]) / 2.0;
-        let d = orthogonal( self.data[2]-self.data[0] );
-        
-        let m = ConstMatrix::from([b, d*(-1.0)]);
-        let m_inv = inverse(m);
-        let t = m_inv[0][0] * (c-a)[0] + m_inv[0][1] * (c-a)[1];
+        let (a, b, c) = (row(self.data[0]), row(self.data[1]), row(self.data[2]));
+        let det = a[0] * (b[1]*c[2] - c[1]*b[2])
+            - a[1] * (b[0]*c[2] - c[0]*b[2])
+            + a[2] * (b[0]*c[1] - c[0]*b[1]);
 
-        let center = a + b*t;
-        let radius = (self.data[0] - center).two_norm();
+        // the sign changes with the orientation of the triangle
+        let (u, v) = (self.data[1]-self.data[0], self.data[2]-self.data[0]);
+        let orientation = u[0]*v[1] - u[1]*v[0];
 
-        Sphere { radius, center }.contains(p)
+        det * orientation > 0.0
     }
 
     pub fn new(data: [ConstVector<f64, 2>; 3]) -> Self {
-- 
2.43.0


From 10b9a69284229625d4396c56e05ea4a2e006082d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:29 +0000
Subject: [PATCH 50/53] fix: dropping a sparse matrix with a long row or column
 overflowed the stack

---
 alg/src/lin_alg/sparse_matrix_impl.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/alg/src/lin_alg/sparse_matrix_impl.rs b/alg/src/lin_alg/sparse_matrix_impl.rs
index 8381999..3b2c074 100644
--- a/alg/src/lin_alg/sparse_matrix_impl.rs
+++ b/alg/src/lin_alg/sparse_matrix_impl.rs
@@ -100,6 +100,21 @@ impl<T: PID, F: Fn((usize, usize)) -> Option<T>> From<((usize, usize), F)> for S
 
 
 
+// The entries of a row and of a column are linked lists, so they are dropped one by one: dropping a long
+// list by dropping its first entry takes one stack frame for every entry.
+impl<T: PID> Drop for SparseMatrix<T> {
+    fn drop(&mut self) {
+        let mut nodes: Vec<_> = self.rows.drain(..).chain( self.cols.drain(..) ).map(|start| start.start_ptr()).collect();
+        while let Some(node) = nodes.pop() {
+            if let Ok( SparseNode::Entry(_, _, (right, down)) ) = Rc::try_unwrap(node) {
+                nodes.push(right);
+                nodes.push(down);
+            }
+        }
+    }
+}
+
+
 pub struct Iter<'a, T: PID> {
     data: Option<&'a SparseNode<T>>, // 'None' when there is nothing left
     dir: bool,
-- 
2.43.0


From 79b1d150d492ba7d2a14c78fd22c96332267111a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:52 +0000
Subject: [PATCH 51/53] fix: matrix! without an element type did not compile

---
 alg/src/lin_alg.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/alg/src/lin_alg.rs b/alg/src/lin_alg.rs
index d56da7f..90f750c 100644
--- a/alg/src/lin_alg.rs
+++ b/alg/src/lin_alg.rs
@@ -48,23 +48,24 @@ mod const_matrix_impl;
 
 #[macro_export]
 macro_rules! matrix {
-    ( $coeff: ty; [$([$( $elem:expr ), *]), *]) => {
+    // before the arm starting with a type, which cannot be backed out of once entered
+    ( [$([$( $elem:expr ), *]), *]) => {
         {
-            let mut v: Vec<Vec<$coeff>> = Vec::new();
+            let mut v: Vec<Vec<_>> = Vec::new();
             $(
                 v.push(vec!($( $elem ), *));
             )*
-            Matrix::<$coeff>::from_array(v)
+            Matrix::from_array(v)
         }
     };
 
-    ( [$([$( $elem:expr ), *]), *]) => {
+    ( $coeff: ty; [$([$( $elem:expr ), *]), *]) => {
         {
-            let mut v: Vec<Vec<_>> = Vec::new();
+            let mut v: Vec<Vec<$coeff>> = Vec::new();
             $(
                 v.push(vec!($( $elem ), *));
             )*
-            Matrix::from_array(v)
+            Matrix::<$coeff>::from_array(v)
         }
     };
 }
-- 
2.43.0


From e7490953b29282364ac8a8caf8c4906e0a75c9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:08 +0000
Subject: [PATCH 52/53] fix: graph! with weights did not compile outside
 topo_spaces

---
 topo_spaces/src/graph.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/topo_spaces/src/graph.rs b/topo_spaces/src/graph.rs
index 4601349..04ca971 100644
--- a/topo_spaces/src/graph.rs
+++ b/topo_spaces/src/graph.rs
@@ -122,7 +122,7 @@ macro_rules! graph {
             $(
                 v.push(($v1.to_string(), $v2.to_string()));
             )*
-            graph::Graph::<i64>::from(v)
+            $crate::graph::Graph::<i64>::from(v)
         }
     };
 
@@ -132,7 +132,7 @@ macro_rules! graph {
             $(
                 v.push(($v1.to_string(), $v2.to_string(), $weight));
             )*
-            crate::graph::WeightedSimpleGraph::from(v)
+            $crate::graph::WeightedSimpleGraph::from(v)
         }
     };
 
@@ -142,7 +142,7 @@ macro_rules! graph {
             $(
                 v.push(($v1.to_string(), $v2.to_string(), $weight_fn( *$embedding.get($v1).unwrap(), *$embedding.get($v2).unwrap())));
             )*
-            crate::graph::WeightedSimpleGraph::from(v)
+            $crate::graph::WeightedSimpleGraph::from(v)
         }
     };
 }
-- 
2.43.0


From 062a383d3cfd2a3e71ccbd88747f20655c1bca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:56 +0000
Subject: [PATCH 53/53] fix: the spectrum of a matrix with small entries is not
 that of its diagonal

Whether a subdiagonal entry left by the QR algorithm counts as zero was decided
absolutely, so that matrices with entries below 1e-11 lost their 2x2 blocks.
Decide it relative to the norm of the matrix, as the QR algorithm itself does.
---
 alg/src/lin_alg/matrix_impl.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/alg/src/lin_alg/matrix_impl.rs b/alg/src/lin_alg/matrix_impl.rs
index 23c5c5c..a7f617e 100644
--- a/alg/src/lin_alg/matrix_impl.rs
+++ b/alg/src/lin_alg/matrix_impl.rs
@@ -1362,12 +1362,13 @@ impl Matrix<f64> {
             "Input to this function must be a square matrix."
         );
         let n = self.size().0;
+        let tolerance = 0.00000000001 * self.frobenius_norm();
         self.qr();
 
         let mut out = vec!{0_f64; n};
         let mut i=0;
         while i < n {
-            if i == n-1 || self[(i+1,i)].abs() < 0.00000000001 {
+            if i == n-1 || self[(i+1,i)].abs() <= tolerance {
                 out[i] = self[(i,i)];
                 i+=1;
             } else {
@@ -1409,12 +1410,13 @@ impl Matrix<f64> {
             "Input to this function must be a square matrix."
         );
         let n = self.size().0;
+        let tolerance = 0.00000000000001 * self.frobenius_norm();
         self.symmetric_qr(false);
 
         let mut out = vec!{0_f64; n};
         let mut i=0;
         while i < n {
-            if i == n-1 || self[(i+1,i)].abs() < 0.00000000000001 {
+            if i == n-1 || self[(i+1,i)].abs() <= tolerance {
                 out[i] = self[(i,i)];
                 i+=1;
             } else {
-- 
2.43.0


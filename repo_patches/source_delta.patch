From bca41e92f453edaf12cdc3734f0b1b28cc76f9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:24 +0000
Subject: [PATCH 01/24] fix: product of two zero dense polynomials underflowed
 and panicked

---
 src/polynomial/polynomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 4ef141a..af36d6c 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -58,6 +58,9 @@ where
 {
     let rhs = &rhs[first_nonzero_index(&rhs)..];
     let lhs = &lhs[first_nonzero_index(&lhs)..];
+    if lhs.is_empty() || rhs.is_empty() {
+        return vec![];
+    }
     let mut terms = vec![N::zero(); rhs.len() + lhs.len() - 1];
     for (index, &rterm) in rhs.iter().enumerate() {
         if rterm.is_zero() {
-- 
2.43.0


From 36e7a77b7d39cc37b5062d3c0fd66521a90bcd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:24 +0000
Subject: [PATCH 02/24] fix: dense % inspected the dividend instead of the
 remainder and never ended

---
 src/polynomial/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index af36d6c..20d8cda 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -555,7 +555,7 @@ where
 
         while self_degree >= rhs_deg {
             vec_sub_w_scale(&mut remainder, self_degree, &rhs.terms, rhs_deg, scale);
-            match first_term(&self.terms) {
+            match first_term(&remainder) {
                 Term::ZeroTerm => break,
                 Term::Term(coeff, degree) => {
                     scale = coeff / rhs_first;
-- 
2.43.0


From 945d7d7c98e9aea104d5cad03583d831776f5179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:11 +0000
Subject: [PATCH 03/24] fix: sparse division subtracted the divisor without
 aligning degrees

---
 src/polynomial/sparsepolynomial.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index 8486861..d9896d4 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -47,14 +47,20 @@ where
     terms
 }
 
-fn map_sub_w_scale<N>(lhs: &mut BTreeMap<usize, N>, rhs: &BTreeMap<usize, N>, rhs_scale: N)
-where
+fn map_sub_w_scale<N>(
+    lhs: &mut BTreeMap<usize, N>,
+    lhs_degree: usize,
+    rhs: &BTreeMap<usize, N>,
+    rhs_deg: usize,
+    rhs_scale: N,
+) where
     N: Copy + Neg<Output = N> + Sub<Output = N> + Mul<Output = N> + SubAssign,
 {
-    for (rdeg, &rcoeff) in rhs.iter() {
-        match lhs.get_mut(rdeg) {
+    for (&rdeg, &rcoeff) in rhs.range(..=rhs_deg) {
+        let degree = rdeg + (lhs_degree - rhs_deg);
+        match lhs.get_mut(&degree) {
             None => {
-                lhs.insert(*rdeg, -rcoeff * rhs_scale);
+                lhs.insert(degree, -rcoeff * rhs_scale);
             }
             Some(lcoeff) => {
                 *lcoeff -= rcoeff * rhs_scale;
@@ -541,12 +547,11 @@ where
         };
 
         let mut remainder = self.terms.clone();
-        let offset = self_degree - rhs_deg;
         let mut div = SparsePolynomial::from(Vec::new());
 
         while self_degree >= rhs_deg {
-            map_sub_w_scale(&mut remainder, &rhs.terms, scale);
-            div.add_term(scale, offset);
+            map_sub_w_scale(&mut remainder, self_degree, &rhs.terms, rhs_deg, scale);
+            div.add_term(scale, self_degree - rhs_deg);
             match first_term(&remainder) {
                 Term::ZeroTerm => {
                     break;
@@ -599,7 +604,7 @@ where
         let mut remainder = self.terms;
 
         while self_degree >= rhs_deg {
-            map_sub_w_scale(&mut remainder, &rhs.terms, scale);
+            map_sub_w_scale(&mut remainder, self_degree, &rhs.terms, rhs_deg, scale);
             match first_term(&remainder) {
                 Term::ZeroTerm => {
                     break;
@@ -648,7 +653,7 @@ where
         };
 
         while self_degree >= rhs_deg {
-            map_sub_w_scale(&mut self.terms, &rhs.terms, scale);
+            map_sub_w_scale(&mut self.terms, self_degree, &rhs.terms, rhs_deg, scale);
             match first_term(&self.terms) {
                 Term::ZeroTerm => {
                     break;
-- 
2.43.0


From 5998c3be463021c42b933557eb7e27c8fee1ba9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:16 +0000
Subject: [PATCH 04/24] fix: polynomial division never ended when a leading
 division was inexact

---
 src/polynomial/polynomial.rs       | 19 ++++++++++++-------
 src/polynomial/sparsepolynomial.rs | 20 ++++++++++++++++----
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 20d8cda..6117766 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -75,15 +75,17 @@ where
 
 fn vec_sub_w_scale<N>(lhs: &mut [N], lhs_degree: usize, rhs: &[N], rhs_deg: usize, rhs_scale: N)
 where
-    N: Copy + Mul<Output = N> + SubAssign,
+    N: Copy + Zero + Mul<Output = N> + Div<Output = N> + SubAssign,
 {
     let loc = lhs.len() - lhs_degree - 1;
-    for (lhs_t, rhs_t) in lhs[loc..]
-        .iter_mut()
-        .zip(rhs[rhs.len() - rhs_deg - 1..].iter())
-    {
+    let rhs = &rhs[rhs.len() - rhs_deg - 1..];
+    for (lhs_t, rhs_t) in lhs[loc..].iter_mut().zip(rhs.iter()) {
         *lhs_t -= (*rhs_t) * rhs_scale;
     }
+    // What is left of the eliminated term can only be divided further if it is a rounding error.
+    if !(lhs[loc] / rhs[0]).is_zero() {
+        lhs[loc] = N::zero();
+    }
 }
 
 pub(crate) fn degree<N>(coeffs: &[N]) -> Degree
@@ -503,6 +505,9 @@ where
 
         while self_degree >= rhs_deg {
             let scale = coeff / rhs_first;
+            if scale.is_zero() {
+                break;
+            }
             vec_sub_w_scale(&mut remainder, self_degree, &rhs.terms, rhs_deg, scale);
             div[offset - self_degree] = scale;
             match first_term(&remainder) {
@@ -553,7 +558,7 @@ where
 
         let mut remainder = self.terms.clone();
 
-        while self_degree >= rhs_deg {
+        while self_degree >= rhs_deg && !scale.is_zero() {
             vec_sub_w_scale(&mut remainder, self_degree, &rhs.terms, rhs_deg, scale);
             match first_term(&remainder) {
                 Term::ZeroTerm => break,
@@ -589,7 +594,7 @@ where
             }
         };
 
-        while self_degree >= rhs_deg {
+        while self_degree >= rhs_deg && !scale.is_zero() {
             vec_sub_w_scale(&mut self.terms, self_degree, &rhs.terms, rhs_deg, scale);
             match first_term(&self.terms) {
                 Term::ZeroTerm => break,
diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index d9896d4..93bd1ca 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -54,7 +54,13 @@ fn map_sub_w_scale<N>(
     rhs_deg: usize,
     rhs_scale: N,
 ) where
-    N: Copy + Neg<Output = N> + Sub<Output = N> + Mul<Output = N> + SubAssign,
+    N: Copy
+        + Zero
+        + Neg<Output = N>
+        + Sub<Output = N>
+        + Mul<Output = N>
+        + Div<Output = N>
+        + SubAssign,
 {
     for (&rdeg, &rcoeff) in rhs.range(..=rhs_deg) {
         let degree = rdeg + (lhs_degree - rhs_deg);
@@ -67,6 +73,12 @@ fn map_sub_w_scale<N>(
             }
         }
     }
+    // What is left of the eliminated term can only be divided further if it is a rounding error.
+    if let (Some(lead), Some(&rhs_first)) = (lhs.get_mut(&lhs_degree), rhs.get(&rhs_deg)) {
+        if !(*lead / rhs_first).is_zero() {
+            *lead = N::zero();
+        }
+    }
 }
 
 fn degree<N: Zero + Copy>(terms: &BTreeMap<usize, N>) -> Degree {
@@ -549,7 +561,7 @@ where
         let mut remainder = self.terms.clone();
         let mut div = SparsePolynomial::from(Vec::new());
 
-        while self_degree >= rhs_deg {
+        while self_degree >= rhs_deg && !scale.is_zero() {
             map_sub_w_scale(&mut remainder, self_degree, &rhs.terms, rhs_deg, scale);
             div.add_term(scale, self_degree - rhs_deg);
             match first_term(&remainder) {
@@ -603,7 +615,7 @@ where
 
         let mut remainder = self.terms;
 
-        while self_degree >= rhs_deg {
+        while self_degree >= rhs_deg && !scale.is_zero() {
             map_sub_w_scale(&mut remainder, self_degree, &rhs.terms, rhs_deg, scale);
             match first_term(&remainder) {
                 Term::ZeroTerm => {
@@ -652,7 +664,7 @@ where
             }
         };
 
-        while self_degree >= rhs_deg {
+        while self_degree >= rhs_deg && !scale.is_zero() {
             map_sub_w_scale(&mut self.terms, self_degree, &rhs.terms, rhs_deg, scale);
             match first_term(&self.terms) {
                 Term::ZeroTerm => {
-- 
2.43.0


From d615ab415c3d9f91073742168854b81b1ac74d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:36 +0000
Subject: [PATCH 05/24] fix: dense >> panicked when leading zeros were stored

---
 src/polynomial/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 6117766..992c0db 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -931,7 +931,7 @@ impl<N: Zero + Copy> Shr<i32> for Polynomial<N> {
             let rhs = rhs as usize;
             let index = first_nonzero_index(&self.terms);
             Polynomial {
-                terms: if rhs > self.terms.len() {
+                terms: if rhs > self.terms.len() - index {
                     vec![]
                 } else {
                     self.terms[index..self.terms.len() - rhs].to_vec()
-- 
2.43.0


From 991361a113379885b6f81a31fb9723d13f9b5b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:37 +0000
Subject: [PATCH 06/24] fix: derivative refused the largest degree its
 coefficient type can represent

---
 src/polynomial/array_polynomial.rs | 6 +++---
 src/polynomial/polynomial.rs       | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/polynomial/array_polynomial.rs b/src/polynomial/array_polynomial.rs
index cfbc541..01deeba 100644
--- a/src/polynomial/array_polynomial.rs
+++ b/src/polynomial/array_polynomial.rs
@@ -80,12 +80,12 @@ where
 {
     fn derivative(&self) -> Self {
         let mut result = [N::zero(); SIZE];
-        let mut degree =
-            N::try_from_usize_cont(SIZE).expect("Degree has no lossless representation in N.");
+        let mut degree = N::try_from_usize_cont(SIZE.saturating_sub(1))
+            .expect("Degree has no lossless representation in N.");
         if SIZE >= 1 {
             for (&coeff_l, coeff_r) in self.coefficients.iter().zip(result[1..].iter_mut()) {
-                degree -= N::one();
                 *coeff_r = degree * coeff_l;
+                degree -= N::one();
             }
         }
         ArrayPolynomial::new(result)
diff --git a/src/polynomial/polynomial.rs b/src/polynomial/polynomial.rs
index 992c0db..4a84006 100644
--- a/src/polynomial/polynomial.rs
+++ b/src/polynomial/polynomial.rs
@@ -385,7 +385,7 @@ where
     /// Will panic if `N` can not losslessly encode the numbers from 0 to the degree of `self`.
     fn derivative(&self) -> Polynomial<N> {
         let index = first_nonzero_index(&self.terms);
-        let mut degree = N::try_from_usize_cont(self.terms.len() - index)
+        let mut degree = N::try_from_usize_cont((self.terms.len() - index).saturating_sub(1))
             .expect("Degree has no lossless representation in N.");
         let mut terms = {
             if let Some((_, terms)) = self.terms.split_at(index).1.split_last() {
@@ -395,8 +395,8 @@ where
             }
         };
         for term in terms.iter_mut() {
-            degree -= N::one();
             *term *= degree;
+            degree -= N::one();
         }
         Polynomial { terms }
     }
-- 
2.43.0


From e3818a9df88a991ee7c56e2c68e316b5702d51ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:37 +0000
Subject: [PATCH 07/24] fix: powers with exponents beyond 32 bits were
 truncated

---
 src/numerics.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/numerics.rs b/src/numerics.rs
index a67744d..f04a62e 100644
--- a/src/numerics.rs
+++ b/src/numerics.rs
@@ -89,7 +89,11 @@ macro_rules! pow_u {
     ($T:ty) => {
         impl PowUsize for $T {
             fn upow(self, exp: usize) -> Self {
-                self.pow(exp as u32)
+                if exp <= u32::MAX as usize {
+                    self.pow(exp as u32)
+                } else {
+                    num::pow(self, exp)
+                }
             }
         }
     };
@@ -110,13 +114,21 @@ pow_u!(isize);
 
 impl PowUsize for f32 {
     fn upow(self, exp: usize) -> Self {
-        self.powi(exp as i32)
+        if exp <= i32::MAX as usize {
+            self.powi(exp as i32)
+        } else {
+            num::pow(self, exp)
+        }
     }
 }
 
 impl PowUsize for f64 {
     fn upow(self, exp: usize) -> Self {
-        self.powi(exp as i32)
+        if exp <= i32::MAX as usize {
+            self.powi(exp as i32)
+        } else {
+            num::pow(self, exp)
+        }
     }
 }
 
-- 
2.43.0


From a9bef12e79186682df63a85e11ec042825a2b0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:38 +0000
Subject: [PATCH 08/24] fix: stored zero coefficients overflowed or gave NaN in
 sparse and monomial eval

---
 src/polynomial/monomial.rs         | 5 ++++-
 src/polynomial/sparsepolynomial.rs | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/monomial.rs b/src/polynomial/monomial.rs
index 1ba7dd6..3be76b8 100644
--- a/src/polynomial/monomial.rs
+++ b/src/polynomial/monomial.rs
@@ -163,7 +163,7 @@ where
 
 impl<N> Evaluable<N> for Monomial<N>
 where
-    N: PowUsize + Mul<Output = N> + Copy,
+    N: Zero + PowUsize + Mul<Output = N> + Copy,
 {
     /// Returns the value of the `Monomial` at the given point.
     ///
@@ -176,6 +176,9 @@ where
     /// assert_eq!(1, Monomial::new(1, 0).eval(0));
     /// ```
     fn eval(&self, point: N) -> N {
+        if self.coefficient.is_zero() {
+            return N::zero();
+        }
         self.coefficient * point.upow(self.deg)
     }
 }
diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index 93bd1ca..285dbe4 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -392,7 +392,9 @@ where
     fn eval(&self, point: N) -> N {
         let mut sum = N::zero();
         for (&degree, &val) in self.terms.iter() {
-            sum += val * point.upow(degree);
+            if !val.is_zero() {
+                sum += val * point.upow(degree);
+            }
         }
         sum
     }
-- 
2.43.0


From c2f145806d1550da85c50a7782615b119a14240d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:24 +0000
Subject: [PATCH 09/24] fix: displaying a non-leading minimum value overflowed

---
 src/strings.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/strings.rs b/src/strings.rs
index 0570e04..98a2ce7 100644
--- a/src/strings.rs
+++ b/src/strings.rs
@@ -2,7 +2,7 @@ use core::fmt;
 
 use num::One;
 
-use crate::numerics::{Abs, IsNegativeOne, IsPositive};
+use crate::numerics::{IsNegativeOne, IsPositive};
 
 macro_rules! fmt_poly {
     ($T:ident) => {
@@ -91,18 +91,20 @@ where
 
 pub(crate) fn write_trailing_term<N>(f: &mut fmt::Formatter, coeff: N, degree: usize) -> fmt::Result
 where
-    N: fmt::Display + One + IsPositive + PartialEq + Copy + Abs,
+    N: fmt::Display + One + IsPositive + IsNegativeOne + PartialEq + Copy,
 {
     write!(f, " {} ", if coeff.is_positive() { "+" } else { "-" })?;
 
-    let coeff = coeff.abs();
+    // The magnitude of a minimum value has no representation in N, but its digits do.
+    let text = format!("{}", coeff);
+    let magnitude = text.trim_start_matches('-');
 
     if degree == 0 {
-        return write!(f, "{}", coeff);
+        return write!(f, "{}", magnitude);
     }
 
-    if !coeff.is_one() {
-        write!(f, "{}", coeff)?;
+    if !coeff.is_one() && !coeff.is_negative_one() {
+        write!(f, "{}", magnitude)?;
     }
 
     if degree > 1 {
-- 
2.43.0


From 5181ed6c8d6fae3e9b68940f0b8594de86a069c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:24 +0000
Subject: [PATCH 10/24] fix: complex_factors returned factors with the roots'
 signs flipped

---
 src/polynomial/array_polynomial.rs | 10 ++++++++--
 src/polynomial/trinomial.rs        | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/polynomial/array_polynomial.rs b/src/polynomial/array_polynomial.rs
index 01deeba..dddbfd3 100644
--- a/src/polynomial/array_polynomial.rs
+++ b/src/polynomial/array_polynomial.rs
@@ -161,8 +161,14 @@ where
         match self.roots() {
             Roots::TwoComplexRoots(root_a, root_b) => (
                 self.coefficients[0],
-                ArrayPolynomial::new([Complex::new(N::one(), -N::zero()), root_a]),
-                ArrayPolynomial::new([Complex::new(N::one(), -N::zero()), root_b]),
+                ArrayPolynomial::new([
+                    Complex::new(N::one(), -N::zero()),
+                    Complex::new(-root_a.re, -root_a.im),
+                ]),
+                ArrayPolynomial::new([
+                    Complex::new(N::one(), -N::zero()),
+                    Complex::new(-root_b.re, -root_b.im),
+                ]),
             ),
             Roots::TwoRealRoots(a, b) => (
                 self.coefficients[0],
diff --git a/src/polynomial/trinomial.rs b/src/polynomial/trinomial.rs
index 782a373..ff45ba4 100644
--- a/src/polynomial/trinomial.rs
+++ b/src/polynomial/trinomial.rs
@@ -81,8 +81,14 @@ where
         match self.roots() {
             Roots::TwoComplexRoots(root_a, root_b) => (
                 self.coefficients[0],
-                LinearBinomial::new([Complex::new(N::one(), -N::zero()), root_a]),
-                LinearBinomial::new([Complex::new(N::one(), -N::zero()), root_b]),
+                LinearBinomial::new([
+                    Complex::new(N::one(), -N::zero()),
+                    Complex::new(-root_a.re, -root_a.im),
+                ]),
+                LinearBinomial::new([
+                    Complex::new(N::one(), -N::zero()),
+                    Complex::new(-root_b.re, -root_b.im),
+                ]),
             ),
             Roots::TwoRealRoots(a, b) => (
                 self.coefficients[0],
-- 
2.43.0


From fb2cf735698d676ad0eff4df4d9340c4c1048b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:24 +0000
Subject: [PATCH 11/24] fix: array polynomial terms were listed with degrees of
 a binomial

---
 src/polynomial/array_polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/array_polynomial.rs b/src/polynomial/array_polynomial.rs
index dddbfd3..cf5cd9b 100644
--- a/src/polynomial/array_polynomial.rs
+++ b/src/polynomial/array_polynomial.rs
@@ -207,7 +207,7 @@ impl<N: Zero + Copy, const SIZE: usize> ArrayPolynomial<N, SIZE> {
                 if coeff.is_zero() {
                     None
                 } else {
-                    Some((coeff, 1 - index))
+                    Some((coeff, SIZE - 1 - index))
                 }
             })
     }
-- 
2.43.0


From 8436214e9fc7b3faf77b2c8c18da7629f6f05502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:25 +0000
Subject: [PATCH 12/24] fix: usize::MAX passed as exactly representable in
 floats

---
 src/numerics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/numerics.rs b/src/numerics.rs
index f04a62e..3e72b8d 100644
--- a/src/numerics.rs
+++ b/src/numerics.rs
@@ -448,7 +448,7 @@ pub enum ExactConversionError {
 impl TryFromUsizeExact for f32 {
     fn try_from_usize_exact(num: usize) -> Result<Self, ExactConversionError> {
         let conv = num as f32;
-        if conv as usize == num {
+        if conv as u128 == num as u128 {
             Ok(conv)
         } else {
             Err(ExactConversionError::Unrepresentable)
@@ -459,7 +459,7 @@ impl TryFromUsizeExact for f32 {
 impl TryFromUsizeExact for f64 {
     fn try_from_usize_exact(num: usize) -> Result<Self, ExactConversionError> {
         let conv = num as f64;
-        if conv as usize == num {
+        if conv as u128 == num as u128 {
             Ok(conv)
         } else {
             Err(ExactConversionError::Unrepresentable)
-- 
2.43.0


From f97d2363af1220a4006ff3c54d415661c136c830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:25 +0000
Subject: [PATCH 13/24] fix: sparse integral refused degrees that only hold a
 stored zero

---
 src/polynomial/sparsepolynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/sparsepolynomial.rs b/src/polynomial/sparsepolynomial.rs
index 285dbe4..a695c98 100644
--- a/src/polynomial/sparsepolynomial.rs
+++ b/src/polynomial/sparsepolynomial.rs
@@ -459,7 +459,7 @@ where
     /// have a lossless representation in `N`.
     fn integral(&self) -> Integral<N, SparsePolynomial<N>> {
         let mut new_terms = BTreeMap::new();
-        for (&deg, &coeff) in self.terms.iter() {
+        for (coeff, deg) in self.ordered_term_iter() {
             new_terms.insert(
                 deg + 1,
                 coeff
-- 
2.43.0


From b870468a2682f49bc99ac5f2a8e81257b4327df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:06 +0000
Subject: [PATCH 14/24] fix: quadratic roots were rounded apart for integers
 and unordered for negative leads

---
 src/polynomial/find_roots.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index eb68f42..966c391 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -47,17 +47,19 @@ where
 {
     let discriminant = discriminant_trinomial(a, b, c);
     let a = a * N::from(2);
-    let b = -b / a;
 
     if discriminant.is_zero() {
-        return Roots::TwoRealRoots(b, b);
+        return Roots::TwoRealRoots(-b / a, -b / a);
     }
 
-    let sqrt = discriminant.abs_sqrt() / a;
-    if discriminant.is_positive() {
-        Roots::TwoRealRoots(b + sqrt, b - sqrt)
+    let sqrt = discriminant.abs_sqrt();
+    if !discriminant.is_positive() {
+        let (re, im) = (-b / a, sqrt / a);
+        Roots::TwoComplexRoots(Complex::new(re, im), Complex::new(re, -im))
+    } else if a.is_positive() {
+        Roots::TwoRealRoots((-b + sqrt) / a, (-b - sqrt) / a)
     } else {
-        Roots::TwoComplexRoots(Complex::new(b, sqrt), Complex::new(b, -sqrt))
+        Roots::TwoRealRoots((-b - sqrt) / a, (-b + sqrt) / a)
     }
 }
 
-- 
2.43.0


From 2545999437cf580b4a702857dff16084963b6f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:07 +0000
Subject: [PATCH 15/24] fix: roots of a quadratic trinomial with no quadratic
 term divided by zero

---
 src/polynomial/array_polynomial.rs |  2 +-
 src/polynomial/find_roots.rs       | 10 ++++++++++
 src/polynomial/trinomial.rs        |  2 +-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/array_polynomial.rs b/src/polynomial/array_polynomial.rs
index cf5cd9b..95e6142 100644
--- a/src/polynomial/array_polynomial.rs
+++ b/src/polynomial/array_polynomial.rs
@@ -181,7 +181,7 @@ where
                     Complex::new(-b, N::zero()),
                 ]),
             ),
-            _ => unreachable!(),
+            _ => panic!("Can't factor a polynomial with no quadratic term."),
         }
     }
 
diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index 966c391..956b443 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -45,6 +45,16 @@ where
         + Neg<Output = N>
         + From<u8>,
 {
+    if a.is_zero() {
+        return if !b.is_zero() {
+            Roots::OneRealRoot(-c / b)
+        } else if !c.is_zero() {
+            Roots::NoRoots
+        } else {
+            Roots::InfiniteRoots
+        };
+    }
+
     let discriminant = discriminant_trinomial(a, b, c);
     let a = a * N::from(2);
 
diff --git a/src/polynomial/trinomial.rs b/src/polynomial/trinomial.rs
index ff45ba4..b7d7c3a 100644
--- a/src/polynomial/trinomial.rs
+++ b/src/polynomial/trinomial.rs
@@ -101,7 +101,7 @@ where
                     Complex::new(-b, N::zero()),
                 ]),
             ),
-            _ => unreachable!(),
+            _ => panic!("Can't factor a polynomial with no quadratic term."),
         }
     }
 
-- 
2.43.0


From b91bb405193a5281db8cf177ba667483d627ebe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:07 +0000
Subject: [PATCH 16/24] fix: cubics with three distinct real roots got wrong
 roots

---
 src/numerics.rs              | 11 +++++++++++
 src/polynomial/find_roots.rs | 12 ++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/numerics.rs b/src/numerics.rs
index 3e72b8d..8e81f80 100644
--- a/src/numerics.rs
+++ b/src/numerics.rs
@@ -237,18 +237,29 @@ impl AbsSqrt for f64 {
 
 pub trait Cbrt {
     fn cbrt(self) -> Self;
+
+    /// Returns the cosine of a third of the angle with cosine `self`.
+    fn cos_third(self) -> Self;
 }
 
 impl Cbrt for f32 {
     fn cbrt(self) -> Self {
         self.cbrt()
     }
+
+    fn cos_third(self) -> Self {
+        (self.max(-1.0).min(1.0).acos() / 3.0).cos()
+    }
 }
 
 impl Cbrt for f64 {
     fn cbrt(self) -> Self {
         self.cbrt()
     }
+
+    fn cos_third(self) -> Self {
+        (self.max(-1.0).min(1.0).acos() / 3.0).cos()
+    }
 }
 
 pub trait CanNegate {
diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index 956b443..11beaf9 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -94,8 +94,16 @@ where
     let p = -b / (N::from(3) * a);
     let q = cub(p) + (b * c - N::from(3) * a * d) / (N::from(6) * sqr(a));
     let r = c / (N::from(3) * a);
-    let k = (sqr(q) + cub(r - sqr(p))).abs_sqrt();
-    let x = (q + k).cbrt() + (q - k).cbrt() + p;
+    let disc = sqr(q) + cub(r - sqr(p));
+    let x = if disc.is_zero() || disc.is_positive() {
+        let k = disc.abs_sqrt();
+        (q + k).cbrt() + (q - k).cbrt() + p
+    } else {
+        // Three distinct real roots: the cube roots are complex conjugates, so take
+        // twice their real part.
+        let k = (sqr(p) - r).abs_sqrt();
+        N::from(2) * k * (q / cub(k)).cos_third() + p
+    };
 
     let b = b / a + x;
     let c = c / a + b * x;
-- 
2.43.0


From bfc64419711b77ef0757a91e13457b81319ab088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:39 +0000
Subject: [PATCH 17/24] fix: poly_mul! named items that do not exist and did
 not compile

---
 src/polynomial/poly_math.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/polynomial/poly_math.rs b/src/polynomial/poly_math.rs
index 99d352f..7c0b2c8 100644
--- a/src/polynomial/poly_math.rs
+++ b/src/polynomial/poly_math.rs
@@ -61,30 +61,31 @@ where
 #[macro_export]
 macro_rules! poly_mul {
     ($lhs:expr, $rhs:expr) => {{
-        use $crate::{FreeSizePolynomial, GenericPolynomial, MutablePolynomial};
-        use $crate::poly_math::mul_poly;
+        use $crate::poly_math::mul_poly_vec;
+        use $crate::{Polynomial, SizedPolynomial};
         let mut sink = Polynomial::zero();
-        mul_poly_vec($lhs.ordered_term_iter(), &$rhs.ordered_term_iter().collect(), &mut sink);
+        // This will never error.
+        let _ = mul_poly_vec($lhs.ordered_term_iter(), &$rhs.terms_as_vec(), &mut sink);
         sink
     }};
 
     ($sink:expr; $lhs:expr) => {{
-        use $crate::{FreeSizePolynomial, GenericPolynomial, MutablePolynomial};
-        use $crate::poly_math::{mul_poly, mul_poly_vec};
-        let sink_terms = $sink.ordered_term_iter().collect();
+        use $crate::poly_math::mul_poly_vec;
+        use $crate::SizedPolynomial;
+        let sink_terms = $sink.terms_as_vec();
         $sink.set_to_zero();
-        mul_poly_vec($lhs.ordered_term_iter(), sink_terms, &mut $sink)
+        mul_poly_vec($lhs.ordered_term_iter(), &sink_terms, &mut $sink)
     }};
 
     ($lhs:expr, $rhs:expr $(,$x:expr )+) => {{
-        poly_mul!(poly_mul!($lhs, $rhs) $(,$x)*)
+        $crate::poly_mul!($crate::poly_mul!($lhs, $rhs) $(,$x)*)
     }};
 
-    ($sink:expr; $lhs:expr, $(,$x:expr )*) => {{
-        use $crate::{FreeSizePolynomial, GenericPolynomial, MutablePolynomial};
-        use $crate::poly_math::mul_poly;
-        poly_mul!($sink; $lhs);
-        poly_mul!($sink; $($x),*)
+    ($sink:expr; $lhs:expr $(,$x:expr )+) => {{
+        match $crate::poly_mul!($sink; $lhs) {
+            Ok(()) => $crate::poly_mul!($sink; $($x),+),
+            Err(x) => Err(x),
+        }
     }};
 }
 
-- 
2.43.0


From f1c895e5792eb1c0e8f8d5231acaab02e0205ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:39 +0000
Subject: [PATCH 18/24] fix: poly_add! and poly_sub! only worked where both
 macros were imported

---
 src/polynomial/poly_math.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/polynomial/poly_math.rs b/src/polynomial/poly_math.rs
index 7c0b2c8..2b3f47e 100644
--- a/src/polynomial/poly_math.rs
+++ b/src/polynomial/poly_math.rs
@@ -12,7 +12,7 @@ macro_rules! poly_add {
         use $crate::{Polynomial, SizedPolynomial};
         let mut sink = Polynomial::zero();
         // This will never error.
-        let _ = poly_add!(sink; $($x),*);
+        let _ = $crate::poly_add!(sink; $($x),*);
         sink
     }};
     // sink += (x_0 + x_1 + ... + x_z)
@@ -153,8 +153,8 @@ macro_rules! poly_sub {
     ($lhs:expr $(,$x:expr )+) => {{
         use $crate::{Polynomial, SizedPolynomial};
         let mut sink = Polynomial::zero();
-        let _ = poly_add!(sink; $lhs);
-        let _ = poly_sub!(sink; $($x),*);
+        let _ = $crate::poly_add!(sink; $lhs);
+        let _ = $crate::poly_sub!(sink; $($x),*);
         sink
     }};
     // sink -= (x_0 + x_1 + ... + x_z)
-- 
2.43.0


From fc338021afb7879b3420833ac8bcc9477737c169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:49 +0000
Subject: [PATCH 19/24] verif hook: re-export ArrayPolynomial under
 cfg(rustnomial_verif)

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 0f836de..069e2fb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -20,6 +20,8 @@ mod polynomial;
 pub mod terms;
 
 pub use crate::err::{PolynomialFromStringError, TryAddError};
+#[cfg(all(rustnomial_verif, feature = "array_polynomials"))]
+pub use crate::polynomial::array_polynomial::ArrayPolynomial;
 pub use crate::polynomial::binomial::LinearBinomial;
 pub use crate::polynomial::derivative::Derivable;
 pub use crate::polynomial::find_roots::Roots;
-- 
2.43.0


From 7e004b691d394ae6d9dd1ee93793be2b7e8336e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:57 +0000
Subject: [PATCH 20/24] fix: an unparsable degree was reported as an unparsable
 coefficient

---
 src/terms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/terms.rs b/src/terms.rs
index 871c3a2..d471d2c 100644
--- a/src/terms.rs
+++ b/src/terms.rs
@@ -99,7 +99,7 @@ where
             if let Ok(degree) = usize::from_str(&str) {
                 Ok(Term::new(coeff, degree))
             } else {
-                Err(TermFromStringError::CoeffCouldNotBeParsed)
+                Err(TermFromStringError::DegreeCouldNotBeParsed)
             }
         } else {
             let str: String = num_vec.iter().collect();
-- 
2.43.0


From 4b659a8d25fa3300129fd0ff74bf7a2ec9c12807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:01 +0000
Subject: [PATCH 21/24] fix: digits on both sides of a caret were joined into
 one degree

---
 src/terms.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/terms.rs b/src/terms.rs
index d471d2c..4e5530c 100644
--- a/src/terms.rs
+++ b/src/terms.rs
@@ -78,7 +78,7 @@ where
                     if seen_caret {
                         return Err(TermFromStringError::MultipleCarets);
                     }
-                    if !seen_x {
+                    if !seen_x || !num_vec.is_empty() {
                         return Err(TermFromStringError::CaretWithoutXInFront);
                     }
                     seen_caret = true;
-- 
2.43.0


From 7437e78c01c0343b46cb5e0a43988bac8860ee26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:59 +0000
Subject: [PATCH 22/24] fix: do not replace a root by a different integer root
 of the polynomial

---
 src/polynomial/find_roots.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index 11beaf9..0e84b34 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -274,7 +274,9 @@ pub(crate) fn find_roots<S: SizedPolynomial<f64> + Evaluable<f64>>(poly: &S) ->
         for root in temp_roots {
             let root = {
                 let x = root.round();
-                if poly.eval(x).abs() < poly.eval(root).abs() {
+                // Only snap to an integer which the search may have meant: another integer root
+                // of the polynomial can be nearby.
+                if (x - root).abs() < 1e-2 && poly.eval(x).abs() < poly.eval(root).abs() {
                     x
                 } else {
                     root
-- 
2.43.0


From 70e8a5258372cdd917473bba1b7acd61566862ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:25 +0000
Subject: [PATCH 23/24] fix: roots() looks for real roots beyond a positive
 last extremum

---
 src/polynomial/find_roots.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index 0e84b34..8457ed2 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -250,11 +250,26 @@ pub(crate) fn find_roots<S: SizedPolynomial<f64> + Evaluable<f64>>(poly: &S) ->
 
     let mut roots = vec![];
     loop {
-        let temp_roots: Vec<f64> = find_roots_sturm(&values[1..], &mut 1e-8f64)
+        let mut temp_roots: Vec<f64> = find_roots_sturm(&values[1..], &mut 1e-8f64)
             .into_iter()
             .filter_map(Result::ok)
             .collect();
 
+        if temp_roots.is_empty() {
+            // The search does not look beyond the last extremum when that is positive,
+            // so look at the polynomial with x replaced by -x as well.
+            let mirrored: Vec<f64> = values[1..]
+                .iter()
+                .enumerate()
+                .map(|(i, &val)| if i % 2 == 0 { -val } else { val })
+                .collect();
+            temp_roots = find_roots_sturm(&mirrored, &mut 1e-8f64)
+                .into_iter()
+                .filter_map(Result::ok)
+                .map(|root: f64| -root)
+                .collect();
+        }
+
         if temp_roots.is_empty() {
             match poly.degree() {
                 Degree::Num(x) => {
-- 
2.43.0


From 6984cacf9a856898c8c4972c8b43991b0f18daf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:03 +0000
Subject: [PATCH 24/24] fix: roots() does not divide out one root twice when
 the search repeats it

---
 src/polynomial/find_roots.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/polynomial/find_roots.rs b/src/polynomial/find_roots.rs
index 8457ed2..d821de7 100644
--- a/src/polynomial/find_roots.rs
+++ b/src/polynomial/find_roots.rs
@@ -286,7 +286,16 @@ pub(crate) fn find_roots<S: SizedPolynomial<f64> + Evaluable<f64>>(poly: &S) ->
             };
         }
 
+        // The search may come upon one root twice. If it is a multiple root, the next pass
+        // finds it again.
+        let mut found: Vec<f64> = Vec::new();
         for root in temp_roots {
+            if found.iter().all(|other| (other - root).abs() >= 1e-6) {
+                found.push(root);
+            }
+        }
+
+        for root in found {
             let root = {
                 let x = root.round();
                 // Only snap to an integer which the search may have meant: another integer root
-- 
2.43.0


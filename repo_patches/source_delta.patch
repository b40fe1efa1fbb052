From d63616405b9ae5b3496895a693a6594074b1ccff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:44 +0000
Subject: [PATCH 01/69] fix: compiled acot uses the same branch as symbolic
 evaluation

---
 src/evaluator/compiler.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/evaluator/compiler.rs b/src/evaluator/compiler.rs
index fd50af1..af9a41e 100644
--- a/src/evaluator/compiler.rs
+++ b/src/evaluator/compiler.rs
@@ -1288,9 +1288,10 @@ impl<'ctx> Compiler<'ctx> {
             self.emit(Instruction::Sin);
             Instruction::Recip
         } else if id == ks.acot {
-            // acot(x) = atan(1/x)
-            self.emit(Instruction::Recip);
-            Instruction::Atan
+            // acot(x) = pi/2 - atan(x), the principal branch used by symbolic evaluation
+            self.emit(Instruction::Atan);
+            let idx = self.add_const(std::f64::consts::FRAC_PI_2);
+            Instruction::ConstSub(idx)
         } else if id == ks.asec {
             // asec(x) = acos(1/x)
             self.emit(Instruction::Recip);
-- 
2.43.0


From 5b5ce80489f325230307aa6b6d54c3e6fbc26711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:59 +0000
Subject: [PATCH 02/69] fix: trigamma, tetragamma and polygamma return for
 every argument; tetragamma uses the correct series

---
 src/math/special.rs | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/math/special.rs b/src/math/special.rs
index cb70c2d..c18fd00 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -153,6 +153,9 @@ pub fn eval_trigamma<T: MathScalar>(x: T) -> Option<T> {
     if x <= T::zero() && x.fract() == T::zero() {
         return None;
     }
+    if is_far_negative(x) {
+        return reflect_polygamma(1, x);
+    }
     let mut xv = x;
     let mut r = T::zero();
     let six = T::from_f64(6.0).expect("Failed to convert constant 6.0");
@@ -175,25 +178,39 @@ pub fn eval_trigamma<T: MathScalar>(x: T) -> Option<T> {
 
 /// Tetragamma function ψ₂(x) = d³/dx³ ln(Γ(x))
 ///
-/// Uses asymptotic expansion with recurrence for small x.
+/// Order two of the general polygamma formula.
 ///
 /// Reference: DLMF §5.15 <https://dlmf.nist.gov/5.15>
 pub fn eval_tetragamma<T: MathScalar>(x: T) -> Option<T> {
     if x <= T::zero() && x.fract() == T::zero() {
         return None;
     }
-    let mut xv = x;
-    let mut r = T::zero();
-    let six = T::from(6.0).expect("Failed to convert mathematical constant");
-    let one = T::one();
-    let two = T::from(2.0).expect("Failed to convert mathematical constant");
+    eval_polygamma(2, x)
+}
 
-    while xv < six {
-        r -= two / (xv * xv * xv);
-        xv += one;
+/// True where the upward recurrence would need too many steps (or never end).
+fn is_far_negative<T: MathScalar>(x: T) -> bool {
+    x < T::from(-64.0).expect("Failed to convert mathematical constant")
+}
+
+/// Polygamma of a negative argument from polygammas of positive arguments (n ≥ 1).
+///
+/// With f the fractional part of x, ψⁿ(x) = ψⁿ(f) + (-1)^(n+1) [ψⁿ(1-f) - ψⁿ(1-x)].
+///
+/// Reference: DLMF §5.15.6 <https://dlmf.nist.gov/5.15>
+fn reflect_polygamma<T: MathScalar>(n: i32, x: T) -> Option<T> {
+    if x.is_infinite() {
+        return None;
     }
-    let x2 = xv * xv;
-    Some(r - one / x2 + one / (x2 * xv) + one / (two * x2 * x2) + one / (six * x2 * x2 * xv))
+    let one = T::one();
+    let f = x - x.floor();
+    let upper = eval_polygamma(n, f)?;
+    let lower = eval_polygamma(n, one - f)? - eval_polygamma(n, one - x)?;
+    Some(if n % 2 == 0 {
+        upper - lower
+    } else {
+        upper + lower
+    })
 }
 
 /// Riemann zeta function ζ(s) = Σ_{n=1}^∞ 1/n^s
@@ -669,6 +686,9 @@ pub fn eval_polygamma<T: MathScalar>(n: i32, x: T) -> Option<T> {
             if x <= T::zero() && x.fract() == T::zero() {
                 return None;
             }
+            if is_far_negative(x) {
+                return reflect_polygamma(n, x);
+            }
             let mut xv = x;
             let mut r = T::zero();
             // ψ^(n)(x) = (-1)^(n+1) * n! * Σ_{k=0}^∞ 1/(x+k)^(n+1)
-- 
2.43.0


From a5d483b2ae9b639fdaaab0e4a7668fa2e59455dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:31 +0000
Subject: [PATCH 03/69] fix: eval_f64 rejects columns of unequal length at
 every batch size

---
 src/bindings/eval_f64.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/bindings/eval_f64.rs b/src/bindings/eval_f64.rs
index 213ca6a..24f1fda 100644
--- a/src/bindings/eval_f64.rs
+++ b/src/bindings/eval_f64.rs
@@ -77,10 +77,8 @@ pub fn run_chunked_evaluator(
         if n_points == 0 {
             return Ok(());
         }
-    } else if columns.first().is_some_and(|c| c.len() != n_points) {
-        return Err(DiffError::invalid_syntax(
-            "Output buffer length must match data column length",
-        ));
+    } else if columns.iter().any(|c| c.len() != n_points) {
+        return Err(DiffError::EvalColumnLengthMismatch);
     }
 
     if n_points < CHUNK_SIZE {
@@ -118,10 +116,6 @@ fn eval_single_expr_chunked<V: ToParamName>(
         columns[0].len()
     };
 
-    if n_points == 0 {
-        return Ok(Vec::new());
-    }
-
     let evaluator = CompiledEvaluator::compile(expr, vars, None).map_err(|e| {
         DiffError::invalid_syntax(format!("Failed to compile expression {expr_idx}: {e}"))
     })?;
-- 
2.43.0


From 4629fc90209dce49e66a96d183b6abb7a4a4fc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 04/69] fix: compiled constant logarithms are undefined outside
 the domain, as everywhere else

---
 src/evaluator/compiler.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/evaluator/compiler.rs b/src/evaluator/compiler.rs
index af9a41e..ca21da9 100644
--- a/src/evaluator/compiler.rs
+++ b/src/evaluator/compiler.rs
@@ -308,7 +308,13 @@ impl<'ctx> Compiler<'ctx> {
                         if id == ks.atan2 {
                             Some(a.atan2(b))
                         } else if id == ks.log {
-                            Some(b.log(a))
+                            // Same domain as at run time
+                            #[allow(
+                                clippy::float_cmp,
+                                reason = "Exact comparison for base == 1.0 is mathematically intentional"
+                            )]
+                            let invalid = a <= 0.0 || a == 1.0 || b <= 0.0;
+                            Some(if invalid { f64::NAN } else { b.log(a) })
                         }
                         // log(base, x)
                         else {
-- 
2.43.0


From de55fa98318088a86c8c423764c8f786ee4b5f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 05/69] fix: elliptic_e uses the right
 arithmetic-geometric-mean weights

---
 src/math/elliptic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math/elliptic.rs b/src/math/elliptic.rs
index 3444930..02cebe3 100644
--- a/src/math/elliptic.rs
+++ b/src/math/elliptic.rs
@@ -54,7 +54,8 @@ pub fn eval_elliptic_e<T: MathScalar>(k: T) -> Option<T> {
 
     let k2 = k * k;
     let mut sum = one - k2 / T::from(2.0).expect("Failed to convert mathematical constant");
-    let mut pow2 = T::from(0.5).expect("Failed to convert mathematical constant");
+    // Weight 2^(n-1) of c_n² for n = 1, 2, … (the n = 0 term is in `sum` already)
+    let mut pow2 = T::one();
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
     let tolerance = T::from(1e-15).expect("Failed to convert mathematical constant");
 
-- 
2.43.0


From fe5941812816606a78ae47b76f0419d690dc14ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 06/69] fix: Bessel functions: correct coefficients,
 normalisation and scaling of J, Y, I and K

---
 src/math/bessel.rs | 108 +++++++++++++++++++++++++++++----------------
 1 file changed, 69 insertions(+), 39 deletions(-)

diff --git a/src/math/bessel.rs b/src/math/bessel.rs
index da5146a..87175ba 100644
--- a/src/math/bessel.rs
+++ b/src/math/bessel.rs
@@ -17,10 +17,15 @@ pub fn bessel_j<T: MathScalar>(n: i32, x: T) -> Option<T> {
     let n_abs = n.abs();
     let ax = x.abs();
 
-    // Special case: J_n(0)
+    // Next to the origin the leading term of the power series is all there is
     let threshold = T::from(1e-10).expect("Failed to convert mathematical constant");
     if ax < threshold {
-        return Some(if n_abs == 0 { T::one() } else { T::zero() });
+        let leading = small_argument_term(n_abs, x);
+        return Some(if n < 0 && n_abs % 2 == 1 {
+            -leading
+        } else {
+            leading
+        });
     }
 
     // REGIME 1: Forward Recurrence is stable when n <= |x|
@@ -84,6 +89,8 @@ fn bessel_j_miller<T: MathScalar>(n: i32, x: T) -> Option<T> {
     let mut result = T::zero();
     let mut sum = T::zero(); // For normalization: J_0 + 2*(J_2 + J_4 + ...)
     let mut compensation = T::zero(); // Kahan summation compensation
+    let big = T::from_f64(1e100).expect("Failed to convert constant 1e100");
+    let shrink = T::from_f64(1e-100).expect("Failed to convert constant 1e-100");
 
     let mut k_t = T::from(n_start).expect("Failed to convert start index");
 
@@ -116,6 +123,15 @@ fn bessel_j_miller<T: MathScalar>(n: i32, x: T) -> Option<T> {
         j_next = j_curr;
         j_curr = j_prev;
         k_t -= T::one();
+
+        // The sequence is only known up to a factor: scale it back before it overflows
+        if j_curr.abs() > big {
+            j_next *= shrink;
+            j_curr *= shrink;
+            result *= shrink;
+            sum *= shrink;
+            compensation *= shrink;
+        }
     }
 
     // Normalize: true J_n = (computed J_n) / (computed sum)
@@ -130,6 +146,19 @@ fn bessel_j_miller<T: MathScalar>(n: i32, x: T) -> Option<T> {
     })
 }
 
+/// Leading term (x/2)^n / n! of `J_n` and `I_n` for arguments next to the origin
+fn small_argument_term<T: MathScalar>(n_abs: i32, x: T) -> T {
+    let half_x = x / T::from(2.0).expect("Failed to convert mathematical constant");
+    let mut term = T::one();
+    for k in 1..=n_abs {
+        term *= half_x / T::from(k).expect("Failed to convert loop counter to float");
+        if term == T::zero() {
+            break;
+        }
+    }
+    term
+}
+
 /// Compute starting point for Miller's algorithm
 fn compute_miller_start(n: i32) -> i32 {
     // Heuristic from Numerical Recipes with extra safety margin
@@ -182,7 +211,7 @@ pub fn bessel_j0<T: MathScalar>(x: T) -> T {
         0.143_048_876_5e-3,
         -0.691_114_765_1e-5,
         0.762_109_516_1e-6,
-        0.934_935_152e-7,
+        -0.934_945_152e-7,
     ];
 
     let ax = x.abs();
@@ -338,7 +367,7 @@ pub fn bessel_y0<T: MathScalar>(x: T) -> T {
         0.143_048_876_5e-3,
         -0.691_114_765_1e-5,
         0.762_109_516_1e-6,
-        0.934_935_152e-7,
+        -0.934_945_152e-7,
     ];
 
     let eight = T::from(8.0).expect("Failed to convert mathematical constant");
@@ -442,7 +471,17 @@ pub fn bessel_i<T: MathScalar>(n: i32, x: T) -> T {
 
     let threshold = T::from(1e-10).expect("Failed to convert mathematical constant");
     if x.abs() < threshold {
-        return T::zero();
+        return small_argument_term(n_abs, x);
+    }
+
+    let i0_actual = bessel_i0(x);
+    if !i0_actual.is_finite() {
+        // Beyond the range of exp every order overflows alike
+        return if x < T::zero() && n_abs % 2 == 1 {
+            -i0_actual
+        } else {
+            i0_actual
+        };
     }
 
     // Miller's backward recurrence algorithm
@@ -451,56 +490,49 @@ pub fn bessel_i<T: MathScalar>(n: i32, x: T) -> T {
     // Normalize using I_0(x) as reference
 
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
+    let big = T::from_f64(1e100).expect("Failed to convert constant 1e100");
+    let shrink = T::from_f64(1e-100).expect("Failed to convert constant 1e-100");
 
-    // Choose starting order N based on x and n
-    // Empirical formula: N = n + sqrt(40*n) + 10 works well
-    // The factor 40 comes from numerical stability analysis:
-    // - Ensures backward recurrence converges before reaching target order
-    // - Balances computational cost vs. accuracy (see NR §6.6)
-    // - Tested empirically for x ∈ [0.1, 100], n ∈ [0, 100]
+    // Choose starting order N based on x and n (see NR §6.6): the orders only decay
+    // beyond max(n, |x|), so the start lies a safety margin above that.
+    let x_order = x.abs().ceil().to_i32().unwrap_or(0);
+    let decay_start = n_abs.max(x_order);
     #[allow(
         clippy::cast_possible_truncation,
-        reason = "n_abs is i32, sqrt result within safe range"
+        reason = "square root of an i32 multiple, within i32 range"
     )]
-    let sqrt_term = f64::from(40 * n_abs).sqrt() as i32;
-    let n_start = n_abs + sqrt_term + 10;
-    let n_start = n_start.max(n_abs + 20);
+    let sqrt_term = (40.0 * f64::from(decay_start)).sqrt() as i32;
+    let n_start = decay_start.saturating_add(sqrt_term).saturating_add(20);
 
     // Initialize backward recurrence
     let mut i_next = T::zero(); // I_{k+1}
     let mut i_curr = T::from(1e-30).expect("Failed to convert mathematical constant"); // I_k (small nonzero to avoid underflow)
     let mut result = T::zero();
-    let mut sum = T::zero(); // For normalization: sum = I_0 + 2*(I_2 + I_4 + ...)
     let mut k_t = T::from(n_start).expect("Failed to convert start index");
 
-    // Backward recurrence
-    for k in (0..=n_start).rev() {
-        // I_{k-1} = (2k/x) * I_k + I_{k+1}
-        let i_prev = (two * k_t / x) * i_curr + i_next;
-
+    // Backward recurrence down to I_0
+    for k in (1..=n_start).rev() {
         // Save I_n when we reach it
         if k == n_abs {
             result = i_curr;
         }
 
-        // Accumulate for normalization (using I_0 + 2*sum of even terms)
-        if k == 0 {
-            sum += i_curr;
-        } else if k % 2 == 0 {
-            sum += two * i_curr;
-        }
-
+        // I_{k-1} = (2k/x) * I_k + I_{k+1}
+        let i_prev = (two * k_t / x) * i_curr + i_next;
         i_next = i_curr;
         i_curr = i_prev;
         k_t -= T::one();
-    }
 
-    // Normalize: actual I_n = result * I_0(x) / computed_I_0
-    // The sum approximates I_0 when properly normalized
-    let i0_actual = bessel_i0(x);
-    let scale = i0_actual / sum;
+        // The sequence is only known up to a factor: scale it back before it overflows
+        if i_curr.abs() > big {
+            i_next *= shrink;
+            i_curr *= shrink;
+            result *= shrink;
+        }
+    }
 
-    result * scale
+    // Normalize: actual I_n = result * I_0(x) / computed I_0
+    result / i_curr * i0_actual
 }
 
 /// Modified Bessel function `I_0(x)` via polynomial approximation
@@ -630,7 +662,7 @@ pub fn bessel_k0<T: MathScalar>(x: T) -> T {
         0.000_007_4,
     ];
 
-    const COEFFS_LARGE: [f64; 8] = [
+    const COEFFS_LARGE: [f64; 7] = [
         1.253_314_14,
         -0.078_323_58,
         0.021_895_68,
@@ -638,7 +670,6 @@ pub fn bessel_k0<T: MathScalar>(x: T) -> T {
         0.005_878_72,
         -0.002_515_40,
         0.000_532_08,
-        -0.000_025_200,
     ];
 
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
@@ -670,7 +701,7 @@ pub fn bessel_k1<T: MathScalar>(x: T) -> T {
         -0.000_046_86,
     ];
 
-    const COEFFS_LARGE: [f64; 8] = [
+    const COEFFS_LARGE: [f64; 7] = [
         1.253_314_14,
         0.234_986_19,
         -0.036_556_20,
@@ -678,7 +709,6 @@ pub fn bessel_k1<T: MathScalar>(x: T) -> T {
         -0.007_803_53,
         0.003_256_14,
         -0.000_682_45,
-        0.000_031_6,
     ];
 
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
@@ -686,7 +716,7 @@ pub fn bessel_k1<T: MathScalar>(x: T) -> T {
         let four = T::from(4.0).expect("Failed to convert mathematical constant");
         let y = x * x / four;
 
-        let term1 = x.ln() * bessel_i1(x);
+        let term1 = (x / two).ln() * bessel_i1(x);
         let term2 = T::one() / x;
 
         let poly = eval_poly_horner(y, &COEFFS);
-- 
2.43.0


From 268b601980d5f2b621ae621cd7ec3de1af684fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 07/69] fix: associated Legendre functions and spherical
 harmonics of negative order

---
 src/math/polynomials.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/math/polynomials.rs b/src/math/polynomials.rs
index c381521..3ad0cac 100644
--- a/src/math/polynomials.rs
+++ b/src/math/polynomials.rs
@@ -41,7 +41,15 @@ pub fn eval_assoc_legendre<T: MathScalar>(l: i32, m: i32, x: T) -> Option<T> {
         // Standard impl assumes -1 <= x <= 1
         return None;
     }
-    let m_abs = m.abs();
+    if m < 0 {
+        // P_l^{-m} = (-1)^m (l-m)!/(l+m)! P_l^m
+        let mut value = eval_assoc_legendre(l, -m, x)?;
+        for i in (l + m + 1)..=(l - m) {
+            value = value / T::from(i).expect("Failed to convert mathematical constant");
+        }
+        return Some(if m % 2 == 0 { value } else { -value });
+    }
+    let m_abs = m;
     let mut pmm = T::one();
     let one = T::one();
 
@@ -94,8 +102,8 @@ pub fn eval_spherical_harmonic<T: MathScalar>(l: i32, m: i32, theta: T, phi: T)
         return None;
     }
     let cos_theta = theta.cos();
-    let plm = eval_assoc_legendre(l, m, cos_theta)?;
     let m_abs = m.abs();
+    let plm = eval_assoc_legendre(l, m_abs, cos_theta)?;
 
     // Factorials
     let mut fact_lm = T::one();
@@ -116,5 +124,11 @@ pub fn eval_spherical_harmonic<T: MathScalar>(l: i32, m: i32, theta: T, phi: T)
     let norm = norm_sq.sqrt();
 
     let m_phi = T::from(m).expect("Failed to convert mathematical constant") * phi;
-    Some(norm * plm * m_phi.cos())
+    // Y_l^{-m} is (-1)^m times the conjugate of Y_l^m
+    let sign = if m < 0 && m % 2 != 0 {
+        -T::one()
+    } else {
+        T::one()
+    };
+    Some(sign * norm * plm * m_phi.cos())
 }
-- 
2.43.0


From 3f2ec0bc6a82a404bf0f4817b874c5cd8155400d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 08/69] fix: erf and erfc for large arguments, gamma up to its
 overflow and next to its poles, zeta near 1 and its derivatives

---
 src/evaluator/execution.rs   |   4 +-
 src/evaluator/simd.rs        |  10 +-
 src/functions/definitions.rs |   2 +-
 src/math/dual.rs             |   2 +-
 src/math/special.rs          | 478 +++++++++++++++++------------------
 5 files changed, 234 insertions(+), 262 deletions(-)

diff --git a/src/evaluator/execution.rs b/src/evaluator/execution.rs
index f857793..41bc468 100644
--- a/src/evaluator/execution.rs
+++ b/src/evaluator/execution.rs
@@ -422,7 +422,7 @@ impl CompiledEvaluator {
                     }
                     Instruction::Erfc => {
                         let top_ptr = stack_ptr.add(len - 1);
-                        *top_ptr = 1.0 - crate::math::eval_erf(top_ptr.read());
+                        *top_ptr = crate::math::eval_erfc(top_ptr.read());
                     }
                     Instruction::Gamma => {
                         let top_ptr = stack_ptr.add(len - 1);
@@ -990,7 +990,7 @@ impl CompiledEvaluator {
                 Instruction::Erfc => {
                     // SAFETY: Stack operations are validated at compile time.
                     let top = unsafe { stack::scalar_stack_top_mut(stack) };
-                    *top = 1.0 - crate::math::eval_erf(*top);
+                    *top = crate::math::eval_erfc(*top);
                 }
                 Instruction::Gamma => {
                     // SAFETY: Stack operations are validated at compile time.
diff --git a/src/evaluator/simd.rs b/src/evaluator/simd.rs
index 6b50968..e93c45d 100644
--- a/src/evaluator/simd.rs
+++ b/src/evaluator/simd.rs
@@ -893,10 +893,10 @@ impl CompiledEvaluator {
                 let top = top!();
                 let arr = top.to_array();
                 *top = f64x4::new([
-                    1.0 - crate::math::eval_erf(arr[0]),
-                    1.0 - crate::math::eval_erf(arr[1]),
-                    1.0 - crate::math::eval_erf(arr[2]),
-                    1.0 - crate::math::eval_erf(arr[3]),
+                    crate::math::eval_erfc(arr[0]),
+                    crate::math::eval_erfc(arr[1]),
+                    crate::math::eval_erfc(arr[2]),
+                    crate::math::eval_erfc(arr[3]),
                 ]);
             }
             Instruction::Gamma => {
@@ -1616,7 +1616,7 @@ impl CompiledEvaluator {
             }
             Instruction::Erfc => {
                 let t = top_mut(stack, *len);
-                *t = 1.0 - crate::math::eval_erf(*t);
+                *t = crate::math::eval_erfc(*t);
             }
             Instruction::Gamma => {
                 let t = top_mut(stack, *len);
diff --git a/src/functions/definitions.rs b/src/functions/definitions.rs
index f88eb28..046509d 100644
--- a/src/functions/definitions.rs
+++ b/src/functions/definitions.rs
@@ -773,7 +773,7 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
         FunctionDefinition {
             name: "erfc",
             arity: 1..=1,
-            eval: |args| Some(1.0 - crate::math::eval_erf(args[0])),
+            eval: |args| Some(crate::math::eval_erfc(args[0])),
             derivative: |args, arg_primes| {
                 // d/dx erfc(u) = -d/dx erf(u)
                 let u = Arc::clone(&args[0]);
diff --git a/src/math/dual.rs b/src/math/dual.rs
index 32827cf..17a0660 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -593,7 +593,7 @@ impl<T: MathScalar> Dual<T> {
     #[must_use]
     pub fn erfc(self) -> Self {
         let erf_result = self.erf();
-        Self::new(T::one() - erf_result.val, -erf_result.eps)
+        Self::new(crate::math::eval_erfc(self.val), -erf_result.eps)
     }
 
     /// Gamma function: Γ(x)
diff --git a/src/math/special.rs b/src/math/special.rs
index c18fd00..50b32f3 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -2,52 +2,62 @@ use crate::core::traits::MathScalar;
 
 /// Error function erf(x) = (2/√π) ∫₀ˣ e^(-t²) dt
 ///
-/// Uses Taylor series expansion: erf(x) = (2/√π) Σₙ (-1)ⁿ x^(2n+1) / (n!(2n+1))
-/// with Kahan summation for numerical stability.
+/// For |x| < 2 uses the all-positive (cancellation-free) series
+/// erf(x) = (2/√π) e^(-x²) Σₙ 2ⁿ x^(2n+1) / (1·3·…·(2n+1)),
+/// otherwise 1 - erfc(|x|) with the sign of x.
 ///
-/// Reference: DLMF §7.6.1 <https://dlmf.nist.gov/7.6#E1>
+/// Reference: DLMF §7.6.2 <https://dlmf.nist.gov/7.6#E2>
 pub fn eval_erf<T: MathScalar>(x: T) -> T {
     let sign = x.signum();
-    let x = x.abs();
-    // PI is available via FloatConst implementation on T
-    let pi = T::PI();
-    let sqrt_pi = pi.sqrt();
+    let ax = x.abs();
     let two = T::from_f64(2.0).expect("Failed to convert mathematical constant 2.0");
-    let coeff = two / sqrt_pi;
-
-    let mut sum = T::zero();
-    let mut compensation = T::zero(); // Kahan summation
-    let mut factorial = T::one();
-    let mut power = x;
-
-    for n in 0..30 {
-        let two_n_plus_one =
-            T::from_usize(2 * n + 1).expect("Failed to convert small integer to float");
+    if ax >= two {
+        return sign * (T::one() - erfc_continued_fraction(ax));
+    }
+    sign * erf_series(ax)
+}
 
-        let term = power / (factorial * two_n_plus_one);
+/// Complementary error function erfc(x) = 1 - erf(x)
+///
+/// Computed without cancellation for x ≥ 2, where 1 - erf(x) would lose the
+/// small result to rounding.
+///
+/// Reference: DLMF §7.9.1 <https://dlmf.nist.gov/7.9#E1>
+pub fn eval_erfc<T: MathScalar>(x: T) -> T {
+    let two = T::from_f64(2.0).expect("Failed to convert mathematical constant 2.0");
+    if x >= two {
+        erfc_continued_fraction(x)
+    } else {
+        T::one() - eval_erf(x)
+    }
+}
 
-        // Overflow protection: break if term becomes NaN or infinite
-        if term.is_nan() || term.is_infinite() {
+/// erf(x) for 0 ≤ x < 2 by the series with positive terms
+fn erf_series<T: MathScalar>(x: T) -> T {
+    let two = T::from_f64(2.0).expect("Failed to convert mathematical constant 2.0");
+    let x2 = x * x;
+    let mut term = x;
+    let mut sum = x;
+    for n in 1..100 {
+        let odd = T::from_usize(2 * n + 1).expect("Failed to convert small integer to float");
+        term *= two * x2 / odd;
+        sum += term;
+        if term <= sum * T::epsilon() {
             break;
         }
+    }
+    two / T::PI().sqrt() * (-x2).exp() * sum
+}
 
-        // Alternating series with Kahan summation
-        let signed_term = if n % 2 == 0 { term } else { -term };
-        let y = signed_term - compensation;
-        let t = sum + y;
-        compensation = (t - sum) - y;
-        sum = t;
-
-        let n_plus_one = T::from_usize(n + 1).expect("Failed to convert loop counter to float");
-        factorial *= n_plus_one;
-        power *= x * x;
-
-        // Check convergence using machine epsilon
-        if term.abs() < T::epsilon() {
-            break;
-        }
+/// erfc(x) for x ≥ 2 by its continued fraction, evaluated from the tail
+fn erfc_continued_fraction<T: MathScalar>(x: T) -> T {
+    let half = T::from_f64(0.5).expect("Failed to convert mathematical constant 0.5");
+    let mut tail = x;
+    for k in (1..=100).rev() {
+        let k_t = T::from_i32(k).expect("Failed to convert small integer to float");
+        tail = x + k_t * half / tail;
     }
-    sign * coeff * sum
+    (-(x * x)).exp() / (T::PI().sqrt() * tail)
 }
 
 /// Gamma function Γ(x) using Lanczos approximation with g=7
@@ -59,15 +69,8 @@ pub fn eval_erf<T: MathScalar>(x: T) -> T {
 /// SIAM J. Numerical Analysis, Ser. B, Vol. 1, pp. 86-96
 /// See also: DLMF §5.10 <https://dlmf.nist.gov/5.10>
 pub fn eval_gamma<T: MathScalar>(x: T) -> Option<T> {
-    // Add special handling for x near negative integers
-    if x < T::zero()
-        && (x.fract().abs() < T::from_f64(1e-10).expect("Failed to convert epsilon 1e-10"))
-    {
-        return None; // Exactly at negative integer pole
-    }
-
     if x <= T::zero() && x.fract() == T::zero() {
-        return None;
+        return None; // Pole at zero and every negative integer
     }
     let g = T::from_f64(7.0).expect("Failed to convert mathematical constant 7.0");
     let c = [
@@ -86,15 +89,17 @@ pub fn eval_gamma<T: MathScalar>(x: T) -> Option<T> {
     let pi = T::PI();
 
     if x < half {
-        // Consider adding Stirling's series for large negative x
-        if x < T::from_f64(-10.0).expect("Failed to convert constant -10.0") {
-            // Use reflection + Gamma(1-x)
-            // For large negative x, 1-x is large positive, so Lanczos works well.
-            // We return directly to avoid stack depth
-            let val = pi / ((pi * x).sin() * eval_gamma(one - x)?);
-            return Some(val);
-        }
-        Some(pi / ((pi * x).sin() * eval_gamma(one - x)?))
+        // Reflection: Γ(x) = π / (sin(πx) Γ(1-x)). The sine is taken of the distance
+        // to the nearest integer so that it keeps its precision next to the poles.
+        let two = T::from_f64(2.0).expect("Failed to convert constant 2.0");
+        let nearest = x.round();
+        let sin_abs = (pi * (x - nearest)).sin();
+        let sin = if (nearest % two) == T::zero() {
+            sin_abs
+        } else {
+            -sin_abs
+        };
+        Some(pi / (sin * eval_gamma(one - x)?))
     } else {
         let x = x - one;
         let mut ag = T::from_f64(c[0]).expect("Failed to convert gamma series coefficient");
@@ -104,7 +109,9 @@ pub fn eval_gamma<T: MathScalar>(x: T) -> Option<T> {
         }
         let t = x + g + half;
         let two_pi_sqrt = (T::from_f64(2.0).expect("Failed to convert constant 2.0") * pi).sqrt();
-        Some(two_pi_sqrt * t.powf(x + half) * (-t).exp() * ag)
+        // The power is applied in two halves: t^(x+1/2) alone overflows well before Γ does
+        let half_power = t.powf((x + half) * half);
+        Some(two_pi_sqrt * half_power * (-t).exp() * half_power * ag)
     }
 }
 
@@ -271,7 +278,7 @@ pub fn eval_zeta<T: MathScalar>(x: T) -> Option<T> {
         // Integral approximation: ∫[N,∞] 1/t^s dt = N^(1-s)/(s-1)
         let em_integral = n_pow_1_minus_x / (x - one);
 
-        // Boundary correction: 1/(2N^s)
+        // Boundary correction: the sum above includes k = N in full, the formula half of it
         let em_boundary = T::from(0.5).expect("Failed to convert mathematical constant") / n_pow_x;
 
         // Bernoulli corrections (improving convergence)
@@ -286,7 +293,7 @@ pub fn eval_zeta<T: MathScalar>(x: T) -> Option<T> {
             / (T::from(720.0).expect("Failed to convert mathematical constant")
                 * n.powf(x + T::from(3.0).expect("Failed to convert mathematical constant")));
 
-        Some(sum + em_integral + em_boundary + b2_correction + b4_correction)
+        Some(sum + em_integral - em_boundary + b2_correction + b4_correction)
     } else {
         // For s > 1.5 OR 0 <= s < 1: Use Borwein's Algorithm 2
         // Borwein is globally convergent (except pole).
@@ -312,7 +319,6 @@ pub fn eval_zeta<T: MathScalar>(x: T) -> Option<T> {
 fn eval_zeta_borwein<T: MathScalar>(s: T) -> Option<T> {
     let one = T::one();
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
-    let four = T::from(4.0).expect("Failed to convert mathematical constant");
     let n = 14; // Optimal for double precision (~18 digits)
 
     // Compute denominator: 1 - 2^(1-s)
@@ -321,8 +327,36 @@ fn eval_zeta_borwein<T: MathScalar>(s: T) -> Option<T> {
         return None; // Too close to s=1
     }
 
-    // Compute d_k coefficients
-    // d_k = n · Σ_{i=0}^{k} [(n+i-1)! · 4^i] / [(n-i)! · (2i)!]
+    let d_coeffs: Vec<T> = borwein_coefficients(n);
+    let d_n = d_coeffs[n];
+
+    // Compute the sum: Σ_{k=0}^{n-1} [(-1)^k(d_k - d_n)] / (k+1)^s
+    let mut sum = T::zero();
+    let mut compensation = T::zero(); // Kahan summation
+
+    for (k, d_coeff_k) in d_coeffs.iter().enumerate().take(n) {
+        let k_plus_1 = T::from(k + 1).expect("Failed to convert mathematical constant");
+        let sign = if k % 2 == 0 { one } else { -one };
+        let current_term = sign * (*d_coeff_k - d_n) / k_plus_1.powf(s);
+
+        // Kahan summation
+        let y = current_term - compensation;
+        let t = sum + y;
+        compensation = (t - sum) - y;
+        sum = t;
+    }
+
+    // ζ(s) = -1 / [d_n(1-2^(1-s))] · sum
+    let result = -sum / (d_n * denom);
+    Some(result)
+}
+
+/// Coefficients `d_k` of Borwein's Algorithm 2
+///
+/// `d_k` = n · Σ_{i=0}^{k} [(n+i-1)! · 4^i] / [(n-i)! · (2i)!]
+fn borwein_coefficients<T: MathScalar>(n: usize) -> Vec<T> {
+    let one = T::one();
+    let four = T::from(4.0).expect("Failed to convert mathematical constant");
     let mut d_coeffs = vec![T::zero(); n + 1];
     let n_t = T::from(n).expect("Failed to convert mathematical constant");
 
@@ -345,237 +379,175 @@ fn eval_zeta_borwein<T: MathScalar>(s: T) -> Option<T> {
         current_inner_sum += term;
         *d_coeff = n_t * current_inner_sum;
     }
-
-    let d_n = d_coeffs[n];
-
-    // Compute the sum: Σ_{k=0}^{n-1} [(-1)^k(d_k - d_n)] / (k+1)^s
-    let mut sum = T::zero();
-    let mut compensation = T::zero(); // Kahan summation
-
-    for (k, d_coeff_k) in d_coeffs.iter().enumerate().take(n) {
-        let k_plus_1 = T::from(k + 1).expect("Failed to convert mathematical constant");
-        let sign = if k % 2 == 0 { one } else { -one };
-        let current_term = sign * (*d_coeff_k - d_n) / k_plus_1.powf(s);
-
-        // Kahan summation
-        let y = current_term - compensation;
-        let t = sum + y;
-        compensation = (t - sum) - y;
-        sum = t;
-    }
-
-    // ζ(s) = -1 / [d_n(1-2^(1-s))] · sum
-    let result = -sum / (d_n * denom);
-    Some(result)
+    d_coeffs
 }
 
 /// Derivative of Riemann Zeta function
 ///
-/// Computes the n-th derivative of ζ(s) using the analytical formula:
-/// ζ^(n)(s) = (-1)^n * Σ_{k=1}^∞ [ln(k)]^n / k^s
+/// For s ≥ 0 the derivatives of η(s) = (1 - 2^(1-s)) ζ(s) come from Borwein's accelerated
+/// alternating series, differentiated term by term, and those of ζ follow from Leibniz'
+/// rule. For s < 0 the functional equation is differentiated, again by Leibniz' rule.
 ///
-/// This implementation uses the same convergence techniques as `eval_zeta`
-/// to ensure consistency and accuracy.
-///
-/// Reference: DLMF §25.2 <https://dlmf.nist.gov/25.2>
+/// Reference: DLMF §25.2, §25.4 <https://dlmf.nist.gov/25.2>
 ///
 /// # Arguments
-/// * `n` - Order of derivative (n ≥ 0)
+/// * `n` - Order of derivative (0 ≤ n ≤ 100)
 /// * `x` - Point at which to evaluate the derivative
 ///
 /// # Returns
 /// * `Some(value)` if convergent
 /// * `None` if at pole (s=1) or invalid
 pub fn eval_zeta_deriv<T: MathScalar>(n: i32, x: T) -> Option<T> {
-    if n < 0 {
-        return None;
-    }
     if n == 0 {
         return eval_zeta(x);
     }
-
-    let one = T::one();
-    let epsilon = T::from(1e-10).expect("Failed to convert mathematical constant");
+    let order = usize::try_from(n).ok().filter(|&order| order <= 100)?;
 
     // Check for pole at s=1
-    if (x - one).abs() < epsilon {
+    let epsilon = T::from(1e-10).expect("Failed to convert mathematical constant");
+    if (x - T::one()).abs() < epsilon {
         return None;
     }
 
-    // For Re(s) > 1, use direct series with Kahan summation
-    // The analytical series is exact for any n, no need for special cases
-    if x > one {
-        let mut sum = T::zero();
-        let mut compensation = T::zero(); // Kahan summation
-        let max_terms = 200;
-
-        for k in 1..=max_terms {
-            let k_t = T::from(k).expect("Failed to convert mathematical constant");
-            let ln_k = k_t.ln();
-
-            // Calculate [ln(k)]^n using faster exponentiation for large n
-            let ln_k_power = if n <= 5 {
-                // Direct multiplication for small n
-                let mut result = one;
-                for _ in 0..n {
-                    result *= ln_k;
-                }
-                result
-            } else {
-                // Use powf for large n (faster)
-                ln_k.powf(T::from(n).expect("Failed to convert mathematical constant"))
-            };
-
-            // Calculate term: [ln(k)]^n / k^x
-            let term = ln_k_power / k_t.powf(x);
-
-            // Kahan summation algorithm (compensated summation)
-            let y = term - compensation;
-            let t = sum + y;
-            compensation = (t - sum) - y; // Captures lost low-order bits
-            sum = t;
-
-            // Enhanced convergence check
-            if k > 50
-                && term.abs()
-                    < epsilon * T::from_f64(0.01).expect("Failed to convert constant 0.01")
-            {
-                break;
-            }
-        }
-
-        // Apply sign: (-1)^n
-        let sign = if n % 2 == 0 { one } else { -one };
-        Some(sign * sum)
+    let derivs = if x < T::zero() {
+        zeta_derivs_reflection(order, x)?
     } else {
-        // For Re(s) < 1, use functional equation derivative
-        // ζ(s) = 2^s π^(s-1) sin(πs/2) Γ(1-s) ζ(1-s)
+        zeta_derivs_alternating(order, x)
+    };
+    derivs.last().copied()
+}
 
-        // Use reflection for all s < 1 (except pole at s=1 already handled)
-        // With improved eval_zeta, the reflection formula components are now stable for 0 < s < 1
-        eval_zeta_deriv_reflection(n, x)
+/// Derivatives of a product from the derivatives of its factors (Leibniz' rule)
+fn leibniz_product<T: MathScalar>(f: &[T], g: &[T]) -> Vec<T> {
+    let mut row = vec![T::one()]; // binomial coefficients of the current order
+    let mut out = Vec::with_capacity(f.len());
+    for m in 0..f.len().min(g.len()) {
+        let mut sum = T::zero();
+        for (j, &binomial) in row.iter().enumerate() {
+            sum += binomial * f[j] * g[m - j];
+        }
+        out.push(sum);
+        row = next_binomials(&row);
     }
+    out
 }
 
-/// Compute zeta derivative using reflection formula with finite differences
-///
-/// For Re(s) < 1, uses reflection formula: ζ(s) = A(s)·ζ(1-s)
-/// where A(s) = 2^s · π^(s-1) · sin(πs/2) · Γ(1-s)
-///
-/// We compute ζ^(n)(s) numerically using finite differences,
-/// while ζ(1-s) is evaluated exactly via analytical series.
-///
-/// This is simpler and more stable than the full Leibniz expansion.
-fn eval_zeta_deriv_reflection<T: MathScalar>(n: i32, s: T) -> Option<T> {
-    let one = T::one();
-    let two = T::from_f64(2.0).expect("Failed to convert constant 2.0");
-    let four = T::from_f64(4.0).expect("Failed to convert constant 4.0");
-
-    // Finite difference step - small enough for accuracy but not too small
-    let h = T::from_f64(1e-7).expect("Failed to convert epsilon 1e-7");
-
-    if n == 1 {
-        // First derivative: centered difference
-        let zeta_plus = eval_zeta_reflection_base(s + h)?;
-        let zeta_minus = eval_zeta_reflection_base(s - h)?;
-        Some((zeta_plus - zeta_minus) / (two * h))
-    } else if n == 2 {
-        // Second derivative: centered second difference
-        let zeta_plus = eval_zeta_reflection_base(s + h)?;
-        let zeta_center = eval_zeta_reflection_base(s)?;
-        let zeta_minus = eval_zeta_reflection_base(s - h)?;
-        Some((zeta_plus - two * zeta_center + zeta_minus) / (h * h))
-    } else {
-        // Higher order: use Richardson extrapolation
-        // Compute with step h and h/2, then extrapolate to h→0
-        let d_h = centered_finite_diff(n, s, h)?;
-        let d_h2 = centered_finite_diff(n, s, h / two)?;
-
-        // Richardson: D_exact ≈ (4^n * D_h - D_{h/2}) / (4^n - 1)
-        // For n >= 3, use general extrapolation factor
-        let extrapolation = four.powi(n) - one;
-        Some((four.powi(n) * d_h2 - d_h) / extrapolation)
-    }
+/// Next row of Pascal's triangle
+fn next_binomials<T: MathScalar>(row: &[T]) -> Vec<T> {
+    let mut next = vec![T::one()];
+    next.extend(row.windows(2).map(|pair| pair[0] + pair[1]));
+    next.push(T::one());
+    next
 }
 
-/// Evaluate ζ(s) using reflection formula (for Re(s) < 1)
-///
-/// ζ(s) = 2^s · π^(s-1) · sin(πs/2) · Γ(1-s) · ζ(1-s)
-/// where ζ(1-s) is computed via exact analytical series
-fn eval_zeta_reflection_base<T: MathScalar>(s: T) -> Option<T> {
-    let pi = T::PI();
-    let two = T::from(2.0).expect("Failed to convert mathematical constant");
-    let half = T::from(0.5).expect("Failed to convert mathematical constant");
+/// `[ζ(s), ζ'(s), …, ζ^(n)(s)]` for s ≥ 0, s ≠ 1, by the alternating series
+fn zeta_derivs_alternating<T: MathScalar>(n: usize, s: T) -> Vec<T> {
     let one = T::one();
-    let one_minus_s = one - s;
+    let two = T::from(2.0).expect("Failed to convert mathematical constant");
 
-    // A(s) = 2^s · π^(s-1) · sin(πs/2) · Γ(1-s)
-    let a_term = two.powf(s);
-    let b_term = pi.powf(s - one);
-    let c_term = (pi * s * half).sin();
-    let d_term = eval_gamma(one_minus_s)?;
+    // η^(m)(s) = Σ_k (1 - d_k/d_n) (-1)^k (-ln(k+1))^m / (k+1)^s
+    let d_coeffs = borwein_coefficients(30);
+    let last = d_coeffs.len() - 1;
+    let d_n: T = d_coeffs[last];
+    let mut eta = vec![T::zero(); n + 1];
+    for (k, &d_k) in d_coeffs.iter().enumerate().take(last) {
+        let base = T::from(k + 1).expect("Failed to convert mathematical constant");
+        let minus_log = -base.ln();
+        let mut term = (one - d_k / d_n) / base.powf(s);
+        if k % 2 == 1 {
+            term = -term;
+        }
+        for eta_m in &mut eta {
+            *eta_m += term;
+            term *= minus_log;
+        }
+    }
 
-    // ζ(1-s) via exact analytical series (Re(1-s) > 1 when Re(s) < 1)
-    let zeta_term = eval_zeta(one_minus_s)?;
+    // g(s) = 1 - 2^(1-s), g^(m)(s) = -(-ln 2)^m 2^(1-s)
+    let mut power = two.powf(one - s);
+    let mut factor = vec![one - power];
+    for _ in 0..n {
+        power = -T::LN_2() * power;
+        factor.push(-power);
+    }
 
-    Some(a_term * b_term * c_term * d_term * zeta_term)
+    // η = g·ζ, solved for the derivatives of ζ one order after the other
+    let mut row = vec![one];
+    let mut zeta: Vec<T> = Vec::with_capacity(n + 1);
+    for m in 0..=n {
+        let mut rest = eta[m];
+        for (j, &zeta_j) in zeta.iter().enumerate() {
+            rest -= row[j] * zeta_j * factor[m - j];
+        }
+        zeta.push(rest / factor[0]);
+        row = next_binomials(&row);
+    }
+    zeta
 }
 
-/// Compute n-th derivative using centered finite difference
+/// `[ζ(s), ζ'(s), …, ζ^(n)(s)]` for s < 0 by the functional equation
 ///
-/// Uses an n+1 point stencil for the n-th derivative
-fn centered_finite_diff<T: MathScalar>(n: i32, s: T, h: T) -> Option<T> {
+/// ζ(s) = 2 (2π)^(s-1) sin(πs/2) Γ(1-s) ζ(1-s)
+fn zeta_derivs_reflection<T: MathScalar>(n: usize, s: T) -> Option<Vec<T>> {
+    let one = T::one();
     let two = T::from(2.0).expect("Failed to convert mathematical constant");
-    let four = T::from(4.0).expect("Failed to convert mathematical constant");
+    let pi = T::PI();
+    let mirrored = one - s;
+
+    // 2 (2π)^(s-1)
+    let log_two_pi = (two * pi).ln();
+    let mut value = two * (two * pi).powf(s - one);
+    let mut power = Vec::with_capacity(n + 1);
+    for _ in 0..=n {
+        power.push(value);
+        value *= log_two_pi;
+    }
+
+    // sin(πs/2): every derivative shifts the phase by a quarter turn
+    let half_pi = pi / two;
+    let angle = half_pi * (s % (two * two));
+    let (sin, cos) = (angle.sin(), angle.cos());
+    let mut scale = one;
+    let mut sine = Vec::with_capacity(n + 1);
+    for m in 0..=n {
+        let phase = match m % 4 {
+            0 => sin,
+            1 => cos,
+            2 => -sin,
+            _ => -cos,
+        };
+        sine.push(scale * phase);
+        scale *= half_pi;
+    }
+
+    // Γ(u), Γ^(m+1)(u) = Σ_j C(m,j) Γ^(j)(u) ψ^(m-j)(u) at u = 1-s
+    let mut psi = Vec::with_capacity(n);
+    let mut order = 0;
+    while psi.len() < n {
+        psi.push(eval_polygamma(order, mirrored)?);
+        order += 1;
+    }
+    let mut gamma = vec![eval_gamma(mirrored)?];
+    let mut row = vec![one];
+    for m in 0..n {
+        let mut sum = T::zero();
+        for (j, &binomial) in row.iter().enumerate() {
+            sum += binomial * gamma[j] * psi[m - j];
+        }
+        gamma.push(sum);
+        row = next_binomials(&row);
+    }
+    let mut zeta = zeta_derivs_alternating(n, mirrored);
+
+    // Both are functions of 1-s: odd derivatives with respect to s change sign
+    for odd in (1..=n).step_by(2) {
+        gamma[odd] = -gamma[odd];
+        zeta[odd] = -zeta[odd];
+    }
 
-    if n == 1 {
-        let zeta_plus = eval_zeta_reflection_base(s + h)?;
-        let zeta_minus = eval_zeta_reflection_base(s - h)?;
-        return Some((zeta_plus - zeta_minus) / (two * h));
-    }
-
-    if n == 2 {
-        let zeta_plus = eval_zeta_reflection_base(s + h)?;
-        let zeta_center = eval_zeta_reflection_base(s)?;
-        let zeta_minus = eval_zeta_reflection_base(s - h)?;
-        return Some((zeta_plus - two * zeta_center + zeta_minus) / (h * h));
-    }
-
-    if n == 3 {
-        // Third derivative: 4-point centered stencil
-        let zeta_plus2 = eval_zeta_reflection_base(s + two * h)?;
-        let zeta_plus1 = eval_zeta_reflection_base(s + h)?;
-        let zeta_minus1 = eval_zeta_reflection_base(s - h)?;
-        let zeta_minus2 = eval_zeta_reflection_base(s - two * h)?;
-        // d³f/dx³ ≈ (f(x+2h) - 2f(x+h) + 2f(x-h) - f(x-2h)) / (2h³)
-        return Some(
-            (-zeta_plus2 + two * zeta_plus1 - two * zeta_minus1 + zeta_minus2) / (two * h * h * h),
-        );
-    }
-
-    // For n >= 4, use 5-point stencil
-    let two_h = two * h;
-
-    let zeta_plus2 = eval_zeta_reflection_base(s + two_h)?;
-    let zeta_plus1 = eval_zeta_reflection_base(s + h)?;
-    let zeta_center = eval_zeta_reflection_base(s)?;
-    let zeta_minus1 = eval_zeta_reflection_base(s - h)?;
-    let zeta_minus2 = eval_zeta_reflection_base(s - two_h)?;
-
-    if n == 4 {
-        // d⁴f/dx⁴ ≈ (f(x+2h) - 4f(x+h) + 6f(x) - 4f(x-h) + f(x-2h)) / h⁴
-        let six = T::from_f64(6.0).expect("Failed to convert constant 6.0");
-        return Some(
-            (zeta_plus2 - four * zeta_plus1 + six * zeta_center - four * zeta_minus1 + zeta_minus2)
-                / (h * h * h * h),
-        );
-    }
-
-    // For n >= 5: recursive centered difference
-    // d^n f / dx^n ≈ [d^(n-1)f(x+h) - d^(n-1)f(x-h)] / (2h)
-    let deriv_plus = centered_finite_diff(n - 1, s + h, h)?;
-    let deriv_minus = centered_finite_diff(n - 1, s - h, h)?;
-    Some((deriv_plus - deriv_minus) / (two * h))
+    let outer = leibniz_product(&power, &sine);
+    let inner = leibniz_product(&gamma, &zeta);
+    Some(leibniz_product(&outer, &inner))
 }
 
 /// Lambert W function: W(x) is the solution to W·e^W = x
-- 
2.43.0


From 23f9cb5d414c8e3ead72e23b63cd406896481bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 09/69] fix: the derivative of cbrt is defined for negative
 arguments

---
 src/functions/definitions.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/functions/definitions.rs b/src/functions/definitions.rs
index 046509d..d9ea793 100644
--- a/src/functions/definitions.rs
+++ b/src/functions/definitions.rs
@@ -704,18 +704,16 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
             arity: 1..=1,
             eval: |args| Some(args[0].cbrt()),
             derivative: |args, arg_primes| {
-                // d/dx cbrt(u) = u' / (3 * u^(2/3))
-                let u = Arc::clone(&args[0]);
+                // d/dx cbrt(u) = u' / (3 * cbrt(u)^2); u^(2/3) is undefined for negative u
+                let root =
+                    Expr::func_symbol_arc(ks::get_symbol(ks::KS.cbrt), Arc::clone(&args[0]));
                 let u_prime = arg_primes[0].clone();
                 Expr::mul_expr(
                     Expr::div_expr(
                         Expr::number(1.0),
                         Expr::mul_expr(
                             Expr::number(3.0),
-                            Expr::pow_from_arcs(
-                                u,
-                                Arc::new(Expr::div_expr(Expr::number(2.0), Expr::number(3.0))),
-                            ),
+                            Expr::pow_from_arcs(Arc::new(root), Arc::new(Expr::number(2.0))),
                         ),
                     ),
                     u_prime,
-- 
2.43.0


From 0bb6f290a298b7a5f35816f2522a102cb09c6387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:12 +0000
Subject: [PATCH 10/69] fix: derivatives of associated Legendre functions and
 spherical harmonics at the largest order

---
 src/functions/definitions.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/functions/definitions.rs b/src/functions/definitions.rs
index d9ea793..7d52543 100644
--- a/src/functions/definitions.rs
+++ b/src/functions/definitions.rs
@@ -14,10 +14,24 @@
 //! - Elliptic: DLMF §19.4 <https://dlmf.nist.gov/19.4>
 //! - Lambert W: Corless et al. (1996) (W'(x) = W(x)/(x(1+W(x))))
 use super::registry::FunctionDefinition;
-use crate::Expr;
+use crate::{Expr, ExprKind};
 use crate::core::known_symbols as ks;
 use std::sync::Arc;
 
+/// `P_{l-1}^m(x)` for the derivative recurrences: zero when the order exceeds the degree,
+/// where the function itself is not defined.
+fn assoc_legendre_below(l_minus_1: Expr, m: &Arc<Expr>, x: Arc<Expr>) -> Expr {
+    if let (ExprKind::Number(degree), ExprKind::Number(order)) = (&l_minus_1.kind, &m.kind)
+        && order.abs() > *degree
+    {
+        return Expr::number(0.0);
+    }
+    Expr::func_multi_from_arcs_symbol(
+        ks::get_symbol(ks::KS.assoc_legendre),
+        vec![Arc::new(l_minus_1), Arc::clone(m), x],
+    )
+}
+
 /// Return all function definitions for populating the registry
 #[allow(
     clippy::too_many_lines,
@@ -1306,10 +1320,7 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
                     Expr::sum_from_arcs(vec![Arc::clone(&l), Arc::new(Expr::number(-1.0))]);
                 let term2 = Expr::mul_expr(
                     l_plus_m,
-                    Expr::func_multi_from_arcs_symbol(
-                        ks::get_symbol(ks::KS.assoc_legendre),
-                        vec![Arc::new(l_minus_1), Arc::clone(&m), Arc::clone(&x)],
-                    ),
+                    assoc_legendre_below(l_minus_1, &m, Arc::clone(&x)),
                 );
 
                 let numerator = Expr::sub_expr(term1, term2);
@@ -1389,10 +1400,7 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
                     ks::get_symbol(ks::KS.assoc_legendre),
                     vec![Arc::clone(&l), Arc::clone(&m), Arc::new(cos_theta.clone())],
                 );
-                let p_prev = Expr::func_multi_from_arcs_symbol(
-                    ks::get_symbol(ks::KS.assoc_legendre),
-                    vec![Arc::new(l_minus_1), Arc::clone(&m), Arc::new(cos_theta)],
-                );
+                let p_prev = assoc_legendre_below(l_minus_1, &m, Arc::new(cos_theta));
 
                 let term_a = Expr::mul_expr(
                     y_expr.clone(),
-- 
2.43.0


From b99311064a88bb3da93f17e5eb5cae0378c78bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:04 +0000
Subject: [PATCH 11/69] fix: the sinh, tanh, csch and coth exponential patterns
 keep the sign of their argument

---
 src/simplification/rules/hyperbolic/helpers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simplification/rules/hyperbolic/helpers.rs b/src/simplification/rules/hyperbolic/helpers.rs
index ae722d7..e96f917 100644
--- a/src/simplification/rules/hyperbolic/helpers.rs
+++ b/src/simplification/rules/hyperbolic/helpers.rs
@@ -183,7 +183,7 @@ pub fn match_cosh_pattern(u: &Expr, v: &Expr) -> Option<Arc<Expr>> {
 }
 
 /// Try to match the pattern (e^x - e^(-x)) for sinh detection
-/// Returns Some(x) if pattern matches (always returns the positive argument as Arc)
+/// Returns Some(x) if pattern matches; x keeps its sign, since sinh is odd
 pub fn match_sinh_pattern_sub(u: &Expr, v: &Expr) -> Option<Arc<Expr>> {
     // u should be e^x, v should be e^(-x)
     let exp1 = ExpTerm::from_expr(u)?;
@@ -191,7 +191,7 @@ pub fn match_sinh_pattern_sub(u: &Expr, v: &Expr) -> Option<Arc<Expr>> {
 
     // Check if exp2.arg = -exp1.arg (so u = e^x, v = e^(-x))
     if exp2.is_negation_of(&exp1.arg) {
-        return Some(get_positive_form(&exp1.arg));
+        return Some(Arc::clone(&exp1.arg));
     }
     None
 }
-- 
2.43.0


From b4f857d8a01548040e1a18aeb8f6e5efb87cd773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:28 +0000
Subject: [PATCH 12/69] fix: printed products, powers and polynomials keep
 every factor and their grouping, also in LaTeX and Unicode

---
 src/core/display.rs | 79 ++++++++++++++++++++++++++++++++--------
 src/core/poly.rs    | 87 ++++-----------------------------------------
 2 files changed, 70 insertions(+), 96 deletions(-)

diff --git a/src/core/display.rs b/src/core/display.rs
index f33f6ee..2426623 100644
--- a/src/core/display.rs
+++ b/src/core/display.rs
@@ -25,7 +25,6 @@
 //! - Derivatives use ∂ notation
 
 use crate::core::known_symbols as ks;
-use crate::core::traits::EPSILON;
 use crate::{Expr, ExprKind};
 use rustc_hash::FxHashMap;
 use std::fmt;
@@ -37,7 +36,7 @@ use std::sync::Arc;
 
 /// Internal display mode to consolidate redundant formatting logic
 #[derive(Clone, Copy)]
-enum FormatMode {
+pub(crate) enum FormatMode {
     /// Standard mathematical notation
     Standard,
     /// LaTeX mathematical notation
@@ -111,7 +110,9 @@ fn analyze_negative(expr: &Expr) -> NegativeExtraction<'_> {
                 && *n < 0.0
             {
                 let abs_coeff = n.abs();
-                if (abs_coeff - 1.0).abs() < EPSILON {
+                #[allow(clippy::float_cmp, reason = "Comparing against exact constant 1.0")]
+                let is_minus_one = abs_coeff == 1.0;
+                if is_minus_one && factors.len() > 1 {
                     // Exactly -1 * ...
                     if factors.len() == 2 {
                         return NegativeExtraction {
@@ -191,7 +192,12 @@ fn analyze_negative(expr: &Expr) -> NegativeExtraction<'_> {
 /// Helper for Power base parenthesis
 fn needs_parens_as_base(expr: &Expr) -> bool {
     match &expr.kind {
-        ExprKind::Sum(_) | ExprKind::Product(_) | ExprKind::Div(_, _) | ExprKind::Poly(_) => true,
+        // `^` associates to the right, so a power as a base needs parens: (x^y)^2 not x^y^2
+        ExprKind::Sum(_)
+        | ExprKind::Product(_)
+        | ExprKind::Div(_, _)
+        | ExprKind::Poly(_)
+        | ExprKind::Pow(_, _) => true,
         ExprKind::Number(n) => *n < 0.0, // Negative numbers need parens: (-1)^x not -1^x
         _ => false,
     }
@@ -261,7 +267,12 @@ fn format_wrapped(
 ) -> fmt::Result {
     let needs = match context {
         ParenContext::SumOrProduct => matches!(expr.kind, ExprKind::Sum(_) | ExprKind::Poly(_)),
-        ParenContext::PowerBase => needs_parens_as_base(expr),
+        // e^x is displayed as exp(x), which is a call
+        ParenContext::PowerBase => {
+            needs_parens_as_base(expr)
+                && !matches!(&expr.kind, ExprKind::Pow(base, _)
+                    if matches!(&base.kind, ExprKind::Symbol(s) if s.id() == ks::KS.e))
+        }
     };
 
     if needs {
@@ -379,6 +390,39 @@ fn format_negative_part(
     Ok(())
 }
 
+/// Unified polynomial formatting: the terms `coeff * base^power` as a sum
+pub(crate) fn format_poly_expr(
+    f: &mut fmt::Formatter<'_>,
+    poly: &crate::core::poly::Polynomial,
+    mode: FormatMode,
+    cache: Option<&SymbolCache>,
+) -> fmt::Result {
+    let base = poly.base();
+    let terms: Vec<Arc<Expr>> = poly
+        .terms()
+        .iter()
+        .map(|&(pow, coeff)| {
+            if pow == 0 {
+                return Arc::new(Expr::number(coeff));
+            }
+            let power = if pow == 1 {
+                Arc::clone(base)
+            } else {
+                let exponent = Arc::new(Expr::number(f64::from(pow)));
+                Arc::new(Expr::new(ExprKind::Pow(Arc::clone(base), exponent)))
+            };
+            #[allow(clippy::float_cmp, reason = "Comparing against exact constant 1.0")]
+            let is_one = coeff == 1.0;
+            if is_one {
+                return power;
+            }
+            let factors = vec![Arc::new(Expr::number(coeff)), power];
+            Arc::new(Expr::new(ExprKind::Product(factors)))
+        })
+        .collect();
+    format_sum_expr(f, &terms, mode, cache)
+}
+
 /// Unified Product formatting
 fn format_product_expr(
     f: &mut fmt::Formatter<'_>,
@@ -419,6 +463,9 @@ fn format_product_expr(
             return format_number_expr(f, *n, mode);
         }
 
+        #[allow(clippy::float_cmp, reason = "Comparing against exact constant 1.0")]
+        let is_minus_one = abs_val == 1.0;
+
         // Handle double negative: -n * -X = n * X
         // We need to look at the next factor to see if it's negative
         let mut second_is_neg = false;
@@ -427,12 +474,16 @@ fn format_product_expr(
             if next_neg.is_negative {
                 second_is_neg = true;
                 // Double negative!
-                if (abs_val - 1.0).abs() >= EPSILON {
+                if !is_minus_one {
                     // -n * -X = n * X
                     format_number_expr(f, abs_val, mode)?;
                     write!(f, "{sep}")?;
                 }
                 format_negative_part(f, next_neg, mode, ParenContext::SumOrProduct, cache)?;
+                for fac in &factors[2..] {
+                    write!(f, "{sep}")?;
+                    format_wrapped(f, fac, mode, ParenContext::SumOrProduct, cache)?;
+                }
             }
         }
 
@@ -440,7 +491,7 @@ fn format_product_expr(
             // Single negative: print "-" then the rest
             write!(f, "{minus}")?;
 
-            if (abs_val - 1.0).abs() < EPSILON {
+            if is_minus_one {
                 // -1 * X = -X (skip the "1*" part)
             } else {
                 // -n * X = -n*X
@@ -642,7 +693,7 @@ fn format_function_call_expr(
             "floor" if args.len() == 1 => {
                 return write!(
                     f,
-                    r"\lfloor{}\rfloor",
+                    r"\lfloor {}\rfloor",
                     LatexFormatter {
                         expr: &args[0],
                         cache
@@ -652,7 +703,7 @@ fn format_function_call_expr(
             "ceil" if args.len() == 1 => {
                 return write!(
                     f,
-                    r"\lceil{}\rceil",
+                    r"\lceil {}\rceil",
                     LatexFormatter {
                         expr: &args[0],
                         cache
@@ -1109,10 +1160,8 @@ impl fmt::Display for Expr {
                 write!(f, "\u{2202}^{order}_{inner}/\u{2202}_{var}^{order}")
             }
 
-            // Poly: display inline using Polynomial's Display
-            ExprKind::Poly(poly) => {
-                write!(f, "{poly}")
-            }
+            // Poly: display inline as a sum of terms
+            ExprKind::Poly(poly) => format_poly_expr(f, poly, FormatMode::Standard, None),
         }
     }
 }
@@ -1184,7 +1233,7 @@ fn format_latex(
         }
 
         // Poly: display inline in LaTeX
-        ExprKind::Poly(poly) => write!(f, "{poly}"),
+        ExprKind::Poly(poly) => format_poly_expr(f, poly, FormatMode::Latex, cache),
     }
 }
 
@@ -1286,7 +1335,7 @@ fn format_unicode(
         }
 
         // Poly: display inline in unicode
-        ExprKind::Poly(poly) => write!(f, "{poly}"),
+        ExprKind::Poly(poly) => format_poly_expr(f, poly, FormatMode::Unicode, cache),
     }
 }
 
diff --git a/src/core/poly.rs b/src/core/poly.rs
index fbf3ce8..fd1f619 100644
--- a/src/core/poly.rs
+++ b/src/core/poly.rs
@@ -27,93 +27,18 @@ pub struct Polynomial {
     terms: Vec<(u32, f64)>,
 }
 
-/// Helper to format coefficient
-fn format_coeff(n: f64) -> String {
-    if {
-        #[allow(clippy::float_cmp, reason = "Checking for exact integer via trunc")]
-        let is_int = n.trunc() == n;
-        is_int
-    } && n.abs() < 1e10
-    {
-        #[allow(clippy::cast_possible_truncation, reason = "Checked is_int above")]
-        let n_int = n as i64;
-        format!("{n_int}")
-    } else {
-        format!("{n}")
-    }
-}
-
 impl std::fmt::Display for Polynomial {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        if self.terms.is_empty() {
-            return write!(f, "0");
-        }
-
-        let mut first = true;
-        for &(pow, coeff) in &self.terms {
-            if first {
-                if coeff < 0.0 {
-                    write!(f, "-")?;
-                    self.write_term(f, pow, coeff.abs())?;
-                } else {
-                    self.write_term(f, pow, coeff)?;
-                }
-                first = false;
-            } else if coeff < 0.0 {
-                write!(f, " - ")?;
-                self.write_term(f, pow, coeff.abs())?;
-            } else {
-                write!(f, " + ")?;
-                self.write_term(f, pow, coeff)?;
-            }
-        }
-        Ok(())
+        crate::core::display::format_poly_expr(
+            f,
+            self,
+            crate::core::display::FormatMode::Standard,
+            None,
+        )
     }
 }
 
 impl Polynomial {
-    /// Write a single term (coefficient * base^power)
-    fn write_term(
-        &self,
-        f: &mut std::fmt::Formatter<'_>,
-        pow: u32,
-        coeff: f64,
-    ) -> std::fmt::Result {
-        // Determine if base needs parentheses when raised to a power
-        let needs_parens_pow = matches!(
-            self.base.kind,
-            ExprKind::Sum(_)
-                | ExprKind::Product(_)
-                | ExprKind::Div(_, _)
-                | ExprKind::Poly(_)
-                | ExprKind::Pow(_, _)
-        ) || (matches!(self.base.kind, ExprKind::Number(n) if n < 0.0));
-
-        if pow == 0 {
-            write!(f, "{}", format_coeff(coeff))
-        } else if (coeff - 1.0).abs() < EPSILON {
-            if pow == 1 {
-                write!(f, "{}", self.base)
-            } else if needs_parens_pow {
-                write!(f, "({})^{}", self.base, pow)
-            } else {
-                write!(f, "{}^{}", self.base, pow)
-            }
-        } else if pow == 1 {
-            // Determine if base needs parentheses when multiplied by coefficient
-            let needs_parens_mul = matches!(self.base.kind, ExprKind::Sum(_) | ExprKind::Poly(_));
-            if needs_parens_mul {
-                write!(f, "{}*({})", format_coeff(coeff), self.base)
-            } else {
-                write!(f, "{}*{}", format_coeff(coeff), self.base)
-            }
-        } else if needs_parens_pow {
-            write!(f, "{}*({})^{}", format_coeff(coeff), self.base, pow)
-        } else {
-            write!(f, "{}*{}^{}", format_coeff(coeff), self.base, pow)
-        }
-    }
-
     // =========================================================================
     // CONSTRUCTORS
     // =========================================================================
-- 
2.43.0


From c2af5f6d7132a253fd78459792bc57fb493f3b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:28 +0000
Subject: [PATCH 13/69] fix: powers and roots are distributed over factors only
 where that is valid; domain-safe mode keeps roots of unknown sign

---
 src/simplification/helpers.rs                 | 35 ++++++++++++++++
 .../rules/algebraic/expansion.rs              |  8 +++-
 src/simplification/rules/algebraic/powers.rs  | 19 ++++++++-
 src/simplification/rules/root/mod.rs          | 40 ++++++++++++++++---
 4 files changed, 93 insertions(+), 9 deletions(-)

diff --git a/src/simplification/helpers.rs b/src/simplification/helpers.rs
index 3f9f121..fcf72f4 100644
--- a/src/simplification/helpers.rs
+++ b/src/simplification/helpers.rs
@@ -536,6 +536,41 @@ pub fn is_fractional_root_exponent(expr: &Expr) -> bool {
     }
 }
 
+/// Check if an exponent is an integer constant.
+pub fn is_integer_exponent(expr: &Expr) -> bool {
+    matches!(&expr.kind, ExprKind::Number(n) if n.fract() == 0.0)
+}
+
+/// Check if an expression is a negative number or carries a negative numeric factor.
+pub fn has_negative_coefficient(expr: &Expr) -> bool {
+    match &expr.kind {
+        ExprKind::Number(n) => *n < 0.0,
+        ExprKind::Product(factors) => factors
+            .iter()
+            .any(|f| matches!(&f.kind, ExprKind::Number(n) if *n < 0.0)),
+        _ => false,
+    }
+}
+
+/// Check if a power may be distributed over the parts of its base: `(a*b)^n -> a^n * b^n`.
+/// Always valid for integer exponents. For any other exponent a part may be negative although
+/// the whole base is not: a negative coefficient certainly is, and with `domain_safe` every
+/// part has to be known to be non-negative.
+pub fn can_distribute_exponent<'a>(
+    exponent: &Expr,
+    mut parts: impl Iterator<Item = &'a Expr>,
+    domain_safe: bool,
+) -> bool {
+    is_integer_exponent(exponent)
+        || parts.all(|part| {
+            if domain_safe {
+                is_known_non_negative(part)
+            } else {
+                !has_negative_coefficient(part)
+            }
+        })
+}
+
 // Compute greatest common divisor using Euclid's algorithm.
 /// Used for rational number simplification in algebraic rules.
 pub const fn gcd(a: i64, b: i64) -> i64 {
diff --git a/src/simplification/rules/algebraic/expansion.rs b/src/simplification/rules/algebraic/expansion.rs
index afdf456..42f6fef 100644
--- a/src/simplification/rules/algebraic/expansion.rs
+++ b/src/simplification/rules/algebraic/expansion.rs
@@ -1,5 +1,6 @@
 use crate::core::known_symbols::KS;
 use crate::core::traits::EPSILON;
+use crate::simplification::helpers::can_distribute_exponent;
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use crate::{Expr, ExprKind as AstKind};
 
@@ -9,7 +10,7 @@ rule!(
     92,
     Algebraic,
     &[ExprKind::Div],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::Div(num, den) = &expr.kind {
             // Helper to check if a factor is present in an expression
             let contains_factor = |e: &Expr, factor: &Expr| -> bool {
@@ -23,6 +24,11 @@ rule!(
             let check_and_expand = |target: &Expr, other: &Expr| -> Option<Expr> {
                 if let AstKind::Pow(base, exp) = &target.kind
                     && let AstKind::Product(base_factors) = &base.kind
+                    && can_distribute_exponent(
+                        exp,
+                        base_factors.iter().map(|f| &**f),
+                        context.domain_safe,
+                    )
                 {
                     // Check if any base factor is present in 'other'
                     let mut useful = false;
diff --git a/src/simplification/rules/algebraic/powers.rs b/src/simplification/rules/algebraic/powers.rs
index e0aff8c..f82f3ee 100644
--- a/src/simplification/rules/algebraic/powers.rs
+++ b/src/simplification/rules/algebraic/powers.rs
@@ -45,7 +45,7 @@ rule!(
     75,
     Algebraic,
     &[ExprKind::Pow],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::Pow(u, v) = &expr.kind
             && let AstKind::Pow(base, exp_inner) = &u.kind
         {
@@ -93,6 +93,16 @@ rule!(
                 }
             }
 
+            // (b^m)^v is b^(m*v) for a negative base only if the outer exponent is an integer
+            // (a fractional inner exponent excludes negative bases by itself)
+            if context.domain_safe
+                && !crate::simplification::helpers::is_integer_exponent(v)
+                && !crate::simplification::helpers::is_fractional_root_exponent(exp_inner)
+                && !crate::simplification::helpers::is_known_non_negative(base)
+            {
+                return None;
+            }
+
             // Create new exponent: exp_inner * v using Product
             let new_exp = Expr::product_from_arcs(vec![Arc::clone(exp_inner), Arc::clone(v)]);
 
@@ -463,9 +473,14 @@ rule!(
     88,
     Algebraic,
     &[ExprKind::Pow],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::Pow(base, exp) = &expr.kind
             && let AstKind::Div(num, den) = &base.kind
+            && crate::simplification::helpers::can_distribute_exponent(
+                exp,
+                [&**num, &**den].into_iter(),
+                context.domain_safe,
+            )
         {
             let is_root_exponent = match &exp.kind {
                 AstKind::Div(n, d) => {
diff --git a/src/simplification/rules/root/mod.rs b/src/simplification/rules/root/mod.rs
index 44c69f6..e781429 100644
--- a/src/simplification/rules/root/mod.rs
+++ b/src/simplification/rules/root/mod.rs
@@ -1,6 +1,7 @@
 use crate::core::expr::{Expr, ExprKind as AstKind};
 use crate::core::known_symbols::{KS, get_symbol};
 use crate::core::traits::EPSILON;
+use crate::simplification::helpers::is_known_non_negative;
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use std::sync::Arc;
 
@@ -10,7 +11,7 @@ rule!(
     85,
     Root,
     &[ExprKind::Function],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::FunctionCall { name, args } = &expr.kind
             && name.id() == KS.sqrt
             && args.len() == 1
@@ -27,6 +28,15 @@ rule!(
                 }
             }
 
+            // For a negative base sqrt(x^n) is x^(n/2) only if n/2 is an even integer
+            // (a non-integer n excludes negative bases by itself)
+            if context.domain_safe
+                && !matches!(&exp.kind, AstKind::Number(n) if n.fract() != 0.0 || n % 2.0 != 0.0 || n % 4.0 == 0.0)
+                && !is_known_non_negative(base)
+            {
+                return None;
+            }
+
             // Create new exponent: exp / 2
             let new_exp = Expr::div_expr(exp.as_ref().clone(), Expr::number(2.0));
 
@@ -72,12 +82,21 @@ rule!(
     85,
     Root,
     &[ExprKind::Function],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::FunctionCall { name, args } = &expr.kind
             && name.id() == KS.cbrt
             && args.len() == 1
             && let AstKind::Pow(base, exp) = &args[0].kind
         {
+            // For a negative base cbrt(x^n) is x^(n/3) only if n/3 is an integer
+            // (a non-integer n excludes negative bases by itself)
+            if context.domain_safe
+                && !matches!(&exp.kind, AstKind::Number(n) if n.fract() != 0.0 || n % 3.0 == 0.0)
+                && !is_known_non_negative(base)
+            {
+                return None;
+            }
+
             // Create new exponent: exp / 3
             let new_exp = Expr::div_expr(exp.as_ref().clone(), Expr::number(3.0));
 
@@ -190,7 +209,7 @@ rule!(
     50,
     Root,
     &[ExprKind::Function],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         if let AstKind::FunctionCall { name, args } = &expr.kind
             && args.len() == 1
         {
@@ -199,7 +218,10 @@ rule!(
                     (*args[0]).clone(),
                     Expr::div_expr(Expr::number(1.0), Expr::number(2.0)),
                 ));
-            } else if name.id() == KS.cbrt {
+            } else if name.id() == KS.cbrt
+                && (!context.domain_safe || is_known_non_negative(&args[0]))
+            {
+                // cbrt is defined for negative arguments, x^(1/3) is not
                 return Some(Expr::pow_static(
                     (*args[0]).clone(),
                     Expr::div_expr(Expr::number(1.0), Expr::number(3.0)),
@@ -216,7 +238,7 @@ rule!(
     84,
     Root,
     &[ExprKind::Function],
-    |expr: &Expr, _context: &RuleContext| {
+    |expr: &Expr, context: &RuleContext| {
         // sqrt(a * x^2) → |x| * sqrt(a)
         if let AstKind::FunctionCall { name, args } = &expr.kind
             && name.id() == KS.sqrt
@@ -231,7 +253,13 @@ rule!(
                     // Exact check for power 2.0 (square)
                     #[allow(clippy::float_cmp, reason = "Comparing against exact constant 2.0")]
                     let is_square = *n == 2.0;
-                    if is_square {
+                    let rest_non_negative = || {
+                        factors
+                            .iter()
+                            .enumerate()
+                            .all(|(j, f)| j == i || is_known_non_negative(f))
+                    };
+                    if is_square && (!context.domain_safe || rest_non_negative()) {
                         // Found x^2, extract |x|
                         let abs_base = Expr::func_symbol(get_symbol(KS.abs), (**base).clone());
 
-- 
2.43.0


From 6159c8cd799173223f573c18694104261e6c834a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:03 +0000
Subject: [PATCH 14/69] fix: small numbers are numbers, not zero

---
 src/core/expr/constructors.rs                 | 19 +++++++++-----
 src/core/poly.rs                              | 26 +++++++++++--------
 src/core/traits.rs                            | 16 ++++++++++++
 src/simplification/helpers.rs                 |  4 +--
 .../rules/algebraic/combination.rs            | 12 +++++----
 .../rules/algebraic/factoring.rs              | 20 +++++++-------
 src/simplification/rules/algebraic/powers.rs  |  4 +--
 src/simplification/rules/numeric/mod.rs       | 10 +++----
 src/simplification/rules/root/mod.rs          |  6 ++---
 src/uncertainty.rs                            |  2 +-
 10 files changed, 74 insertions(+), 45 deletions(-)

diff --git a/src/core/expr/constructors.rs b/src/core/expr/constructors.rs
index 02ce16f..995a65b 100644
--- a/src/core/expr/constructors.rs
+++ b/src/core/expr/constructors.rs
@@ -7,6 +7,7 @@ use std::sync::Arc;
 
 use super::{EPSILON, EXPR_ONE, Expr, ExprKind, compute_expr_hash, expr_cmp, next_id};
 use crate::core::symbol::{InternedSymbol, symb_interned};
+use crate::core::traits::{is_near_integer, is_residue};
 
 impl Expr {
     /// Create a new expression with fresh ID
@@ -56,10 +57,10 @@ impl Expr {
         }
     }
 
-    /// Check if this expression is the number zero (with tolerance)
+    /// Check if this expression is the number zero
     #[inline]
     pub fn is_zero_num(&self) -> bool {
-        self.as_number().is_some_and(crate::core::traits::is_zero)
+        self.as_number().is_some_and(|n| n == 0.0)
     }
 
     /// Check if this expression is the number one (with tolerance)
@@ -154,12 +155,16 @@ impl Expr {
 
         let mut flat: Vec<Arc<Self>> = Vec::with_capacity(terms.len());
         let mut numeric_sum: f64 = 0.0;
+        let mut numeric_scale: f64 = 0.0;
 
         for t in terms {
             if matches!(t.kind, ExprKind::Sum(_) | ExprKind::Number(_)) {
                 match t.into_kind() {
                     ExprKind::Sum(inner) => flat.extend(inner),
-                    ExprKind::Number(n) => numeric_sum += n,
+                    ExprKind::Number(n) => {
+                        numeric_sum += n;
+                        numeric_scale = numeric_scale.max(n.abs());
+                    }
                     // Invariant protected by if guard
                     _ => {}
                 }
@@ -169,7 +174,7 @@ impl Expr {
         }
 
         // Add accumulated numeric constant (canonical order: numbers first)
-        if numeric_sum.abs() > EPSILON {
+        if !is_residue(numeric_sum, numeric_scale) {
             flat.push(Arc::new(Self::number(numeric_sum)));
         }
 
@@ -218,11 +223,13 @@ impl Expr {
         // Flatten nested sums and combine numbers
         let mut flat: Vec<Arc<Self>> = Vec::with_capacity(terms.len());
         let mut numeric_sum: f64 = 0.0;
+        let mut numeric_scale: f64 = 0.0;
 
         for t in terms {
             // Check for Number
             if let ExprKind::Number(n) = t.kind {
                 numeric_sum += n;
+                numeric_scale = numeric_scale.max(n.abs());
                 continue;
             }
 
@@ -249,7 +256,7 @@ impl Expr {
         }
 
         // Add accumulated numeric constant (canonical order: numbers first)
-        if numeric_sum.abs() > EPSILON {
+        if !is_residue(numeric_sum, numeric_scale) {
             flat.push(Arc::new(Self::number(numeric_sum)));
         }
 
@@ -573,7 +580,7 @@ impl Expr {
             if e >= 1.0 && e.fract().abs() < EPSILON {
                 let result = b.powf(e);
                 // Only fold if result is also an integer (or very close)
-                if result.fract().abs() < EPSILON {
+                if is_near_integer(result) {
                     return Self::number(result.round());
                 }
             }
diff --git a/src/core/poly.rs b/src/core/poly.rs
index fd1f619..aac945d 100644
--- a/src/core/poly.rs
+++ b/src/core/poly.rs
@@ -3,7 +3,7 @@
 //! Provides efficient polynomial operations with any expression as base.
 //! The base is stored once; terms are just (power, coefficient) pairs.
 
-use crate::core::traits::EPSILON;
+use crate::core::traits::{EPSILON, is_residue};
 use crate::{Expr, ExprKind};
 use std::sync::Arc;
 
@@ -53,7 +53,7 @@ impl Polynomial {
 
     /// Create a constant polynomial
     pub fn constant(c: f64) -> Self {
-        if c.abs() < EPSILON {
+        if c == 0.0 {
             // Zero polynomial - use dummy base
             Self {
                 base: Arc::new(Expr::number(1.0)),
@@ -77,7 +77,7 @@ impl Polynomial {
 
     /// Create polynomial: coeff * base^pow
     pub fn term(base: Arc<Expr>, pow: u32, coeff: f64) -> Self {
-        if coeff.abs() < EPSILON {
+        if coeff == 0.0 {
             Self::zero(base)
         } else {
             Self {
@@ -181,13 +181,14 @@ impl Polynomial {
 
     /// Add a term (power, coeff) to the polynomial
     pub(crate) fn add_term(&mut self, pow: u32, coeff: f64) {
-        if coeff.abs() < EPSILON {
+        if coeff == 0.0 {
             return;
         }
         match self.terms.binary_search_by_key(&pow, |(p, _)| *p) {
             Ok(i) => {
+                let scale = self.terms[i].1.abs().max(coeff.abs());
                 self.terms[i].1 += coeff;
-                if self.terms[i].1.abs() < EPSILON {
+                if is_residue(self.terms[i].1, scale) {
                     self.terms.remove(i);
                 }
             }
@@ -219,7 +220,7 @@ impl Polynomial {
             let my_const = self.as_constant().unwrap_or(0.0);
             self.base = Arc::clone(&other.base);
             self.terms.clone_from(&other.terms);
-            if my_const.abs() >= EPSILON {
+            if my_const != 0.0 {
                 self.add_term(0, my_const);
             }
             return true;
@@ -289,18 +290,21 @@ impl Polynomial {
         // Merge terms with same power
         let mut merged_terms = Vec::with_capacity(all_terms.len());
         if let Some(&(mut current_pow, mut current_coeff)) = all_terms.first() {
+            let mut scale = current_coeff.abs();
             for &(next_pow, next_coeff) in all_terms.iter().skip(1) {
                 if next_pow == current_pow {
                     current_coeff += next_coeff;
+                    scale = scale.max(next_coeff.abs());
                 } else {
-                    if current_coeff.abs() >= EPSILON {
+                    if !is_residue(current_coeff, scale) {
                         merged_terms.push((current_pow, current_coeff));
                     }
                     current_pow = next_pow;
                     current_coeff = next_coeff;
+                    scale = next_coeff.abs();
                 }
             }
-            if current_coeff.abs() >= EPSILON {
+            if !is_residue(current_coeff, scale) {
                 merged_terms.push((current_pow, current_coeff));
             }
         }
@@ -313,7 +317,7 @@ impl Polynomial {
 
     /// Multiply by a scalar
     pub fn scale(&self, scalar: f64) -> Self {
-        if scalar.abs() < EPSILON {
+        if scalar == 0.0 {
             return Self::zero(Arc::clone(&self.base));
         }
         Self {
@@ -337,7 +341,7 @@ impl Polynomial {
     /// Make polynomial monic (leading coefficient = 1)
     pub fn make_monic(&self) -> Self {
         let lc = self.leading_coeff();
-        if lc.abs() < EPSILON || (lc - 1.0).abs() < EPSILON {
+        if lc == 0.0 || (lc - 1.0).abs() < EPSILON {
             return self.clone();
         }
         self.scale(1.0 / lc)
@@ -484,7 +488,7 @@ impl Polynomial {
             // Division by constant
             ExprKind::Div(num, den) => {
                 if let ExprKind::Number(d) = &den.kind
-                    && d.abs() > EPSILON
+                    && *d != 0.0
                 {
                     let mut result = Self::try_from_expr(num)?;
                     result = result.scale(1.0 / d);
diff --git a/src/core/traits.rs b/src/core/traits.rs
index ad88e15..c89a931 100644
--- a/src/core/traits.rs
+++ b/src/core/traits.rs
@@ -105,6 +105,22 @@ pub fn is_zero(n: f64) -> bool {
     n.abs() < EPSILON
 }
 
+/// Check if a sum of numbers is nothing but the rounding error of its parts
+///
+/// `scale` is the largest magnitude among the summed numbers. Small numbers are
+/// not zero: only what is left over when larger parts cancel is.
+#[inline]
+pub fn is_residue(sum: f64, scale: f64) -> bool {
+    sum == 0.0 || sum.abs() < EPSILON * scale
+}
+
+/// Check if a number is an integer up to rounding; a small nonzero number is not 0
+#[inline]
+pub fn is_near_integer(n: f64) -> bool {
+    let nearest = n.round();
+    (n - nearest).abs() < EPSILON && (nearest != 0.0 || n == 0.0)
+}
+
 /// Check if a floating point number is effectively 1.0
 ///
 /// Uses a tolerance of `1e-15` for comparison.
diff --git a/src/simplification/helpers.rs b/src/simplification/helpers.rs
index fcf72f4..5a3938e 100644
--- a/src/simplification/helpers.rs
+++ b/src/simplification/helpers.rs
@@ -4,7 +4,7 @@
 //! coefficient extraction, root prettification, and like-term grouping.
 
 use crate::core::known_symbols as ks;
-use crate::core::traits::EPSILON;
+use crate::core::traits::{EPSILON, is_near_integer};
 use crate::{Expr, ExprKind};
 use std::f64::consts::PI;
 use std::sync::Arc;
@@ -40,7 +40,7 @@ pub fn is_multiple_of_two_pi(expr: &Expr) -> bool {
 
         let two_pi = 2.0 * PI;
         let k = n / two_pi;
-        return approx_eq(k, k.round());
+        return is_near_integer(k);
     }
     // Handle n * pi (Product with number and pi symbol)
     if let ExprKind::Product(factors) = &expr.kind {
diff --git a/src/simplification/rules/algebraic/combination.rs b/src/simplification/rules/algebraic/combination.rs
index d141c13..21f7828 100644
--- a/src/simplification/rules/algebraic/combination.rs
+++ b/src/simplification/rules/algebraic/combination.rs
@@ -1,6 +1,6 @@
 // Algebraic combination operations on validated expressions
 
-use crate::core::traits::EPSILON;
+use crate::core::traits::{EPSILON, is_residue};
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use crate::{Expr, ExprKind as AstKind};
 use std::sync::Arc;
@@ -410,16 +410,18 @@ rule_arc!(
                 } else {
                     // Sub-group by actual structural base using HashMap (O(n) amortized).
                     // Expr's Hash+PartialEq handles hash collisions via structural equality.
-                    let mut sub_groups: std::collections::HashMap<Arc<Expr>, f64> =
+                    let mut sub_groups: std::collections::HashMap<Arc<Expr>, (f64, f64)> =
                         std::collections::HashMap::new();
                     for term in &group_terms {
                         let (coeff, var_part) =
                             crate::simplification::helpers::extract_coeff_arc(term.as_ref());
-                        *sub_groups.entry(var_part).or_insert(0.0) += coeff;
+                        let (total, scale) = sub_groups.entry(var_part).or_insert((0.0, 0.0));
+                        *total += coeff;
+                        *scale = scale.max(coeff.abs());
                     }
 
-                    for (base_term, total_coeff) in sub_groups {
-                        if total_coeff.abs() < EPSILON {
+                    for (base_term, (total_coeff, scale)) in sub_groups {
+                        if is_residue(total_coeff, scale) {
                             // Terms cancel out
                             continue;
                         }
diff --git a/src/simplification/rules/algebraic/factoring.rs b/src/simplification/rules/algebraic/factoring.rs
index 97ecebb..e717723 100644
--- a/src/simplification/rules/algebraic/factoring.rs
+++ b/src/simplification/rules/algebraic/factoring.rs
@@ -1,6 +1,6 @@
 use crate::core::known_symbols::KS;
 use crate::core::poly::Polynomial;
-use crate::core::traits::EPSILON;
+use crate::core::traits::{EPSILON, is_near_integer};
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use crate::{Expr, ExprKind as AstKind};
 use std::sync::Arc;
@@ -86,7 +86,7 @@ impl Rule for FractionCancellationRule {
 
             fn is_safe_to_cancel(base: &Expr) -> bool {
                 match &base.kind {
-                    AstKind::Number(n) => n.abs() > EPSILON,
+                    AstKind::Number(n) => *n != 0.0,
                     _ => false,
                 }
             }
@@ -119,14 +119,14 @@ impl Rule for FractionCancellationRule {
 
             // Simplify coefficients
             let ratio = num_coeff / den_coeff;
-            if ratio.abs() < EPSILON {
+            if ratio == 0.0 {
                 return Some(Arc::new(Expr::number(0.0)));
             }
 
-            if (ratio - ratio.round()).abs() < EPSILON {
+            if is_near_integer(ratio) {
                 num_coeff = ratio.round();
                 den_coeff = 1.0;
-            } else if (1.0 / ratio - (1.0 / ratio).round()).abs() < EPSILON {
+            } else if is_near_integer(1.0 / ratio) {
                 let inv = (1.0 / ratio).round();
                 if inv < 0.0 {
                     num_coeff = -1.0;
@@ -392,7 +392,7 @@ impl Rule for PerfectSquareRule {
                         // Check if number is a perfect square (positive)
                         if *n > 0.0 {
                             let sqrt_n = n.sqrt();
-                            if (sqrt_n - sqrt_n.round()).abs() < EPSILON {
+                            if is_near_integer(sqrt_n) {
                                 // It's a perfect square constant, treat as square term (coeff=1, base=sqrt(n))
                                 // We treat '9' as 1*3^2. So coeff=1.0, base=Number(3)
                                 square_terms.push((1.0, Arc::new(Expr::number(sqrt_n.round()))));
@@ -452,8 +452,8 @@ impl Rule for PerfectSquareRule {
                 let sqrt_c1 = c1.sqrt();
                 let sqrt_c2 = c2.sqrt();
 
-                if (sqrt_c1 - sqrt_c1.round()).abs() < EPSILON
-                    && (sqrt_c2 - sqrt_c2.round()).abs() < EPSILON
+                if is_near_integer(sqrt_c1)
+                    && is_near_integer(sqrt_c2)
                 {
                     let expected_cross_abs = (2.0 * sqrt_c1 * sqrt_c2).abs();
                     let cross_coeff_abs = cross_coeff.abs();
@@ -535,7 +535,7 @@ rule_arc!(
                 && *n > 0.0
             {
                 let sqrt_n = n.sqrt();
-                if (sqrt_n - sqrt_n.round()).abs() < EPSILON {
+                if is_near_integer(sqrt_n) {
                     return Some(Arc::new(Expr::number(sqrt_n.round())));
                 }
             }
@@ -559,7 +559,7 @@ rule_arc!(
             {
                 let pos_n = -n;
                 let sqrt_n = pos_n.sqrt();
-                if (sqrt_n - sqrt_n.round()).abs() < EPSILON {
+                if is_near_integer(sqrt_n) {
                     return Some(Arc::new(Expr::number(sqrt_n.round())));
                 }
             }
diff --git a/src/simplification/rules/algebraic/powers.rs b/src/simplification/rules/algebraic/powers.rs
index f82f3ee..6041132 100644
--- a/src/simplification/rules/algebraic/powers.rs
+++ b/src/simplification/rules/algebraic/powers.rs
@@ -1,5 +1,5 @@
 use crate::core::known_symbols as ks;
-use crate::core::traits::EPSILON;
+use crate::core::traits::{EPSILON, is_near_integer};
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use crate::{Expr, ExprKind as AstKind};
 use std::sync::Arc;
@@ -360,7 +360,7 @@ rule_arc!(
                                 (&base.kind, &exp.kind)
                             {
                                 let result = base_val.powf(*exp_val);
-                                result.is_finite() && (result - result.round()).abs() < EPSILON
+                                result.is_finite() && is_near_integer(result)
                             } else {
                                 false
                             }
diff --git a/src/simplification/rules/numeric/mod.rs b/src/simplification/rules/numeric/mod.rs
index 3323406..0d0c00f 100644
--- a/src/simplification/rules/numeric/mod.rs
+++ b/src/simplification/rules/numeric/mod.rs
@@ -1,7 +1,7 @@
 use crate::Expr;
 use crate::ExprKind as AstKind;
 use crate::core::known_symbols::KS;
-use crate::core::traits::EPSILON;
+use crate::core::traits::{EPSILON, is_near_integer};
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use std::sync::Arc;
 // ===== Identity Rules for Sum (Priority 100) =====
@@ -389,7 +389,7 @@ rule!(
             && *b != 0.0
         {
             let result = a / b;
-            if (result - result.round()).abs() < EPSILON {
+            if is_near_integer(result) {
                 return Some(Expr::number(result.round()));
             }
         }
@@ -487,7 +487,7 @@ rule!(
             && let AstKind::Number(n) = &args[0].kind
         {
             let s = n.sqrt();
-            if (s - s.round()).abs() < EPSILON {
+            if is_near_integer(s) {
                 return Some(Expr::number(s.round()));
             }
         }
@@ -508,7 +508,7 @@ rule!(
             && let AstKind::Number(n) = &args[0].kind
         {
             let c = n.cbrt();
-            if (c - c.round()).abs() < EPSILON {
+            if is_near_integer(c) {
                 return Some(Expr::number(c.round()));
             }
         }
@@ -575,7 +575,7 @@ rule!(
 
                 // Only evaluate if result is an integer
                 // This preserves symbolic forms like sqrt(2), ln(10), etc.
-                if (result - result.round()).abs() < EPSILON {
+                if is_near_integer(result) {
                     return Some(Expr::number(result.round()));
                 }
 
diff --git a/src/simplification/rules/root/mod.rs b/src/simplification/rules/root/mod.rs
index e781429..4b6d771 100644
--- a/src/simplification/rules/root/mod.rs
+++ b/src/simplification/rules/root/mod.rs
@@ -1,6 +1,6 @@
 use crate::core::expr::{Expr, ExprKind as AstKind};
 use crate::core::known_symbols::{KS, get_symbol};
-use crate::core::traits::EPSILON;
+use crate::core::traits::{EPSILON, is_near_integer};
 use crate::simplification::helpers::is_known_non_negative;
 use crate::simplification::rules::{ExprKind, Rule, RuleCategory, RuleContext};
 use std::sync::Arc;
@@ -48,7 +48,7 @@ rule!(
                             new_exp
                         } else {
                             let result = a / b;
-                            if (result - result.round()).abs() < EPSILON {
+                            if is_near_integer(result) {
                                 Expr::number(result.round())
                             } else {
                                 new_exp
@@ -108,7 +108,7 @@ rule!(
                             new_exp
                         } else {
                             let result = a / b;
-                            if (result - result.round()).abs() < EPSILON {
+                            if is_near_integer(result) {
                                 Expr::number(result.round())
                             } else {
                                 new_exp
diff --git a/src/uncertainty.rs b/src/uncertainty.rs
index 23710ce..db54974 100644
--- a/src/uncertainty.rs
+++ b/src/uncertainty.rs
@@ -43,7 +43,7 @@ impl CovEntry {
     #[must_use]
     pub fn is_zero(&self) -> bool {
         match self {
-            Self::Num(n) => n.abs() < EPSILON,
+            Self::Num(n) => *n == 0.0,
             Self::Symbolic(e) => e.is_zero_num(), // Also check symbolic zero
         }
     }
-- 
2.43.0


From 3bc97eeb9df196d716d0ff2d75609bd3be8db43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:58 +0000
Subject: [PATCH 15/69] fix: polynomial division always ends; large exponents
 are kept exactly

---
 src/core/expr/constructors.rs |  3 +++
 src/core/poly.rs              | 30 +++++++++++++++++++++++++++---
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/core/expr/constructors.rs b/src/core/expr/constructors.rs
index 995a65b..75782f9 100644
--- a/src/core/expr/constructors.rs
+++ b/src/core/expr/constructors.rs
@@ -6,6 +6,7 @@ use std::cmp::Ordering as CmpOrdering;
 use std::sync::Arc;
 
 use super::{EPSILON, EXPR_ONE, Expr, ExprKind, compute_expr_hash, expr_cmp, next_id};
+use crate::core::poly::MAX_POLY_EXPONENT;
 use crate::core::symbol::{InternedSymbol, symb_interned};
 use crate::core::traits::{is_near_integer, is_residue};
 
@@ -811,6 +812,7 @@ fn get_poly_base_hash(expr: &Expr) -> Option<u64> {
         ExprKind::Pow(base, exp) => {
             if let ExprKind::Number(n) = &exp.kind
                 && *n >= 1.0
+                && *n <= MAX_POLY_EXPONENT
                 && n.fract().abs() < EPSILON
             {
                 return Some(base.hash);
@@ -833,6 +835,7 @@ fn get_poly_base_hash(expr: &Expr) -> Option<u64> {
                     ExprKind::Pow(b, exp) => {
                         if let ExprKind::Number(n) = &exp.kind
                             && *n >= 1.0
+                            && *n <= MAX_POLY_EXPONENT
                             && n.fract().abs() < EPSILON
                         {
                             if base_hash.is_some() {
diff --git a/src/core/poly.rs b/src/core/poly.rs
index aac945d..dfa69b4 100644
--- a/src/core/poly.rs
+++ b/src/core/poly.rs
@@ -7,6 +7,12 @@ use crate::core::traits::{EPSILON, is_residue};
 use crate::{Expr, ExprKind};
 use std::sync::Arc;
 
+/// Most steps a polynomial division or GCD takes before it is given up
+const MAX_DIVISION_STEPS: u32 = 2000;
+
+/// Largest exponent that is stored as a power of a polynomial's base
+pub const MAX_POLY_EXPONENT: f64 = 1e6;
+
 // =============================================================================
 // POLYNOMIAL
 // =============================================================================
@@ -352,7 +358,16 @@ impl Polynomial {
     // =========================================================================
 
     /// Polynomial division: self / other = (quotient, remainder)
+    ///
+    /// Returns None for division by zero, if a coefficient overflows, and if the
+    /// quotient has too many terms to be worth computing.
     pub fn div_rem(&self, other: &Self) -> Option<(Self, Self)> {
+        let mut steps = MAX_DIVISION_STEPS;
+        self.div_rem_within(other, &mut steps)
+    }
+
+    /// Polynomial division that takes at most `steps` steps and counts them off
+    fn div_rem_within(&self, other: &Self, steps: &mut u32) -> Option<(Self, Self)> {
         if other.is_zero() {
             return None;
         }
@@ -373,14 +388,21 @@ impl Polynomial {
                 break;
             }
 
+            *steps = steps.checked_sub(1)?;
             let q_coeff = remainder.leading_coeff() / div_lc;
+            if !q_coeff.is_finite() {
+                return None;
+            }
             let q_pow = rem_deg - div_deg;
 
             quotient.add_term(q_pow, q_coeff);
 
-            // remainder -= q_term * other
+            // remainder -= q_term * other; the leading term cancels by construction
+            remainder.terms.pop();
             for &(p, c) in &other.terms {
-                remainder.add_term(p + q_pow, -q_coeff * c);
+                if p < div_deg {
+                    remainder.add_term(p + q_pow, -q_coeff * c);
+                }
             }
         }
 
@@ -397,13 +419,14 @@ impl Polynomial {
 
         let mut r0 = self.clone();
         let mut r1 = other.clone();
+        let mut steps = MAX_DIVISION_STEPS;
 
         loop {
             if r1.is_zero() {
                 return Some(r0.make_monic());
             }
 
-            let (_, rem) = r0.div_rem(&r1)?;
+            let (_, rem) = r0.div_rem_within(&r1, &mut steps)?;
             r0 = r1;
             r1 = rem;
         }
@@ -465,6 +488,7 @@ impl Polynomial {
             ExprKind::Pow(base_expr, exp) => {
                 if let ExprKind::Number(n) = &exp.kind
                     && *n >= 0.0
+                    && *n <= MAX_POLY_EXPONENT
                     && n.fract().abs() < EPSILON
                 {
                     // Exponent n >= 0 is already validated
-- 
2.43.0


From ecadd1b7a46b87ce91d79aa82c579204ab8fd1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:20 +0000
Subject: [PATCH 16/69] fix: the parser reports what it cannot use instead of
 dropping it; 2e and 2exp(x) are products

---
 src/parser/implicit_mul.rs |  6 +++++-
 src/parser/lexer.rs        | 15 ++++++++++-----
 src/parser/pratt.rs        | 12 +++++++++++-
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/parser/implicit_mul.rs b/src/parser/implicit_mul.rs
index 50dbe1f..b21a502 100644
--- a/src/parser/implicit_mul.rs
+++ b/src/parser/implicit_mul.rs
@@ -34,7 +34,11 @@ fn should_insert_mul<'src, S: std::hash::BuildHasher>(
         // ) * Identifier: )x
         // ) * Number: )2
         // ) * (: )(
-        (Token::Number(_) | Token::Identifier(_) | Token::RightParen, Token::Identifier(_))
+        // Number, Identifier or ) * derivative
+        (
+            Token::Number(_) | Token::Identifier(_) | Token::RightParen,
+            Token::Identifier(_) | Token::Derivative { .. },
+        )
         | (Token::Number(_) | Token::RightParen, Token::LeftParen)
         | (Token::Identifier(_) | Token::RightParen, Token::Number(_)) => true,
 
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 3cf4062..19f2db1 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -381,12 +381,17 @@ fn scan_characters(input: &str) -> Result<Vec<RawToken<'_>>, DiffError> {
                             pos += 1;
                         }
                         'e' | 'E' if !has_exponent => {
-                            has_exponent = true;
-                            pos += 1;
-                            // Handle optional sign after exponent
-                            if pos < bytes.len() && (bytes[pos] == b'+' || bytes[pos] == b'-') {
-                                pos += 1;
+                            // An exponent needs digits after an optional sign; without
+                            // them the letter starts the next token (2e, 2exp(x))
+                            let signed =
+                                matches!(bytes.get(pos + 1).copied(), Some(b'+' | b'-'));
+                            let digits = if signed { pos + 2 } else { pos + 1 };
+                            let first = bytes[digits.min(bytes.len())..].iter().find(|&&b| b != b'_');
+                            if !first.is_some_and(u8::is_ascii_digit) {
+                                break;
                             }
+                            has_exponent = true;
+                            pos = digits;
                         }
                         _ => break,
                     }
diff --git a/src/parser/pratt.rs b/src/parser/pratt.rs
index ff2acc7..63c78fe 100644
--- a/src/parser/pratt.rs
+++ b/src/parser/pratt.rs
@@ -24,7 +24,17 @@ pub fn parse_expression(
         context,
     };
 
-    parser.parse_expr(0)
+    let expr = parser.parse_expr(0)?;
+
+    // Everything has to be part of the expression: nothing is dropped silently
+    match parser.current() {
+        None => Ok(expr),
+        Some(token) => Err(DiffError::UnexpectedToken {
+            expected: "end of input".to_owned(),
+            got: token.to_user_string(),
+            span: None,
+        }),
+    }
 }
 
 /// Pratt parser for expressions
-- 
2.43.0


From 7ddfe612cd8e812953281e948c689154d93fe3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:02 +0000
Subject: [PATCH 17/69] fix: a power of zero with a negative symbolic exponent
 is not turned into a fraction

---
 src/simplification/rules/algebraic/powers.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simplification/rules/algebraic/powers.rs b/src/simplification/rules/algebraic/powers.rs
index 6041132..401dabd 100644
--- a/src/simplification/rules/algebraic/powers.rs
+++ b/src/simplification/rules/algebraic/powers.rs
@@ -423,6 +423,10 @@ rule!(
     &[ExprKind::Pow],
     |expr: &Expr, _context: &RuleContext| {
         if let AstKind::Pow(base, exp) = &expr.kind {
+            // 0^(-x) can be defined where 1/0^x is not
+            if base.is_zero_num() {
+                return None;
+            }
             // Handle negative number exponent: x^-n -> 1/x^n
             if let AstKind::Number(n) = exp.kind
                 && n < 0.0
-- 
2.43.0


From 3ed84e5ccd372bcd17237c642847e3669688512a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:12 +0000
Subject: [PATCH 18/69] fix: eval_batch makes the caller's buffer large enough
 for the stack

---
 src/evaluator/simd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluator/simd.rs b/src/evaluator/simd.rs
index e93c45d..f463a7d 100644
--- a/src/evaluator/simd.rs
+++ b/src/evaluator/simd.rs
@@ -141,7 +141,7 @@ impl CompiledEvaluator {
         )]
         let simd_stack_buf: &mut Vec<f64x4> = match simd_buffer {
             Some(buf) => {
-                buf.reserve(self.stack_size.saturating_sub(buf.capacity()));
+                buf.reserve(self.stack_size.saturating_sub(buf.len()));
                 buf
             }
             None => {
-- 
2.43.0


From fea249deb2f9f6d9fa9aecb8491e7cb80fd94281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:50 +0000
Subject: [PATCH 19/69] fix: terms on a polynomial's base have one canonical
 order

---
 src/core/expr/ordering.rs | 61 ++++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 14 deletions(-)

diff --git a/src/core/expr/ordering.rs b/src/core/expr/ordering.rs
index 28dca91..7badb20 100644
--- a/src/core/expr/ordering.rs
+++ b/src/core/expr/ordering.rs
@@ -39,6 +39,13 @@ pub fn expr_cmp(a: &Expr, b: &Expr) -> CmpOrdering {
         }
     }
 
+    // A polynomial sorts by its base; set it apart from the other terms on that base
+    // (e.g., x vs x + x^2), so that different terms never compare equal
+    let poly_cmp = poly_terms_cmp(get_core(a), get_core(b));
+    if poly_cmp != CmpOrdering::Equal {
+        return poly_cmp;
+    }
+
     // Exponents are equal (e.g., 2*x vs 3*x)
     // Compare coefficients last
     let coeff_a = get_coeff(a);
@@ -80,6 +87,45 @@ fn get_exponent(e: &Expr) -> &Expr {
     }
 }
 
+// Helper to strip the numeric coefficient of an expression.
+// e.g., for `3*x^2`, the core is `x^2`.
+#[inline]
+/// Get an expression without its numeric coefficient
+fn get_core(e: &Expr) -> &Expr {
+    match &e.kind {
+        ExprKind::Product(factors)
+            if factors.len() == 2 && matches!(&factors[0].kind, ExprKind::Number(_)) =>
+        {
+            &factors[1]
+        }
+        _ => e,
+    }
+}
+
+/// Order of two terms on the same base as far as polynomials are concerned:
+/// other terms before polynomials, polynomials by their terms
+fn poly_terms_cmp(a: &Expr, b: &Expr) -> CmpOrdering {
+    match (&a.kind, &b.kind) {
+        (ExprKind::Poly(p1), ExprKind::Poly(p2)) => {
+            p1.terms().len().cmp(&p2.terms().len()).then_with(|| {
+                for (t1, t2) in p1.terms().iter().zip(p2.terms().iter()) {
+                    let c = t1
+                        .0
+                        .cmp(&t2.0)
+                        .then_with(|| t1.1.partial_cmp(&t2.1).unwrap_or(CmpOrdering::Equal));
+                    if c != CmpOrdering::Equal {
+                        return c;
+                    }
+                }
+                CmpOrdering::Equal
+            })
+        }
+        (ExprKind::Poly(_), _) => CmpOrdering::Greater,
+        (_, ExprKind::Poly(_)) => CmpOrdering::Less,
+        _ => CmpOrdering::Equal,
+    }
+}
+
 // Helper to get the coefficient of an expression.
 // e.g., for `3*x^2`, the coeff is `3.0`. For `x`, it's `1.0`.
 #[inline]
@@ -181,20 +227,7 @@ pub fn expr_cmp_type_strict(a: &Expr, b: &Expr) -> CmpOrdering {
             .then_with(|| expr_cmp(i1, i2)),
 
         (ExprKind::Poly(p1), ExprKind::Poly(p2)) => {
-            expr_cmp(p1.base(), p2.base()).then_with(|| {
-                p1.terms().len().cmp(&p2.terms().len()).then_with(|| {
-                    for (t1, t2) in p1.terms().iter().zip(p2.terms().iter()) {
-                        let c = t1
-                            .0
-                            .cmp(&t2.0)
-                            .then_with(|| t1.1.partial_cmp(&t2.1).unwrap_or(CmpOrdering::Equal));
-                        if c != CmpOrdering::Equal {
-                            return c;
-                        }
-                    }
-                    CmpOrdering::Equal
-                })
-            })
+            expr_cmp(p1.base(), p2.base()).then_with(|| poly_terms_cmp(a, b))
         }
         (ExprKind::Poly(_), _) => CmpOrdering::Less,
         (_, ExprKind::Poly(_)) => CmpOrdering::Greater,
-- 
2.43.0


From 3f809146beec99460a03d9b96b800bb1a26ef2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:36 +0000
Subject: [PATCH 20/69] fix: removed names leave no stale symbols, and clearing
 or listing is one step for other threads

---
 src/core/symbol/registry.rs | 67 ++++++++++++++++++++++++++-----------
 src/core/unified_context.rs | 15 +++++----
 2 files changed, 56 insertions(+), 26 deletions(-)

diff --git a/src/core/symbol/registry.rs b/src/core/symbol/registry.rs
index 1a887ac..c9e1703 100644
--- a/src/core/symbol/registry.rs
+++ b/src/core/symbol/registry.rs
@@ -4,7 +4,8 @@
 //! This implementation uses sharding to minimize lock contention and `FxHash` for
 //! high-performance mapping.
 
-use std::sync::{Mutex, RwLock};
+use std::sync::atomic::{AtomicU64, Ordering};
+use std::sync::{Mutex, MutexGuard, RwLock};
 
 use rustc_hash::{FxHashMap, FxHasher};
 use slotmap::{DefaultKey, SlotMap};
@@ -102,18 +103,41 @@ impl SymbolRegistry {
         let shard_idx = (hash as usize) % NUM_SHARDS;
         &self.shards[shard_idx]
     }
+
+    /// Lock every shard, in order (everything else locks a single one)
+    fn lock_all_shards(&self) -> Vec<MutexGuard<'_, RegistryShard>> {
+        self.shards
+            .iter()
+            .map(|shard| shard.lock().expect("Global symbol registry shard poisoned"))
+            .collect()
+    }
 }
 
 /// Global registry for symbols
 static REGISTRY: std::sync::LazyLock<SymbolRegistry> =
     std::sync::LazyLock::new(SymbolRegistry::new);
 
+/// Counts removals of names; a thread's name cache is only valid for the count it was filled at
+static REMOVALS: AtomicU64 = AtomicU64::new(0);
+
 thread_local! {
     // Thread-local cache to avoid global lock contention on frequently accessed symbols
     static ID_CACHE: std::cell::RefCell<FxHashMap<DefaultKey, InternedSymbol>> = std::cell::RefCell::new(FxHashMap::default());
 
     // Thread-local cache for name → Symbol lookups (hot path in parsing/construction)
     static NAME_CACHE: std::cell::RefCell<FxHashMap<String, Symbol>> = std::cell::RefCell::new(FxHashMap::default());
+
+    // Value of `REMOVALS` the name cache belongs to
+    static NAME_CACHE_REMOVALS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
+}
+
+/// Drop this thread's name cache if names have been removed since it was filled (by any thread)
+#[inline]
+fn refresh_name_cache() {
+    let removals = REMOVALS.load(Ordering::SeqCst);
+    if NAME_CACHE_REMOVALS.replace(removals) != removals {
+        NAME_CACHE.with(|cache| cache.borrow_mut().clear());
+    }
 }
 
 /// Look up `InternedSymbol` by its u64 ID.
@@ -222,6 +246,7 @@ pub fn symbol_exists(name: &str) -> bool {
 #[must_use]
 pub fn symb(name: &str) -> Symbol {
     // Fast path: check TLS cache first (no locks, no allocations for common symbols)
+    refresh_name_cache();
     if let Some(sym) = NAME_CACHE.with(|cache| cache.borrow().get(name).copied()) {
         return sym;
     }
@@ -266,8 +291,12 @@ pub fn symb(name: &str) -> Symbol {
 ///
 /// Panics if the global registry shard lock is poisoned.
 pub fn symb_interned(name: &str) -> InternedSymbol {
-    let symbol = symb(name);
-    lookup_by_id(symbol.id()).expect("Just-created symbol should always be found")
+    loop {
+        // Another thread may remove the symbol between the two steps: then there is a new one
+        if let Some(interned) = lookup_by_id(symb(name).id()) {
+            return interned;
+        }
+    }
 }
 
 /// Remove a symbol from the global registry
@@ -284,8 +313,8 @@ pub fn remove_symbol(name: &str) -> bool {
         .expect("Global symbol registry shard poisoned");
 
     shard.name_to_symbol_key.remove(name).is_some_and(|key| {
-        // Explicitly drop shard lock before taking id_data lock to avoid deadlocks
-        drop(shard);
+        REMOVALS.fetch_add(1, Ordering::SeqCst);
+        // Name and data go together: the shard lock is held, as it is when a symbol is created
         REGISTRY
             .id_to_data
             .write()
@@ -301,22 +330,22 @@ pub fn remove_symbol(name: &str) -> bool {
 ///
 /// Panics if any global registry lock is poisoned.
 pub fn clear_symbols() {
-    // Clear TLS caches first
-    ID_CACHE.with(|cache| cache.borrow_mut().clear());
-    NAME_CACHE.with(|cache| cache.borrow_mut().clear());
-
-    for shard_lock in &REGISTRY.shards {
-        let mut shard = shard_lock
-            .lock()
-            .expect("Global symbol registry shard poisoned");
-        shard.name_to_symbol_key.clear();
-    }
-
+    // All shards are held until the end, so that no name is created or found half way
+    let mut shards = REGISTRY.lock_all_shards();
     let mut id_data = REGISTRY
         .id_to_data
         .write()
         .expect("Global ID registry poisoned");
+
+    REMOVALS.fetch_add(1, Ordering::SeqCst);
+    for shard in &mut shards {
+        shard.name_to_symbol_key.clear();
+    }
     id_data.clear();
+
+    // This thread's caches go with them
+    ID_CACHE.with(|cache| cache.borrow_mut().clear());
+    NAME_CACHE.with(|cache| cache.borrow_mut().clear());
 }
 
 /// Get the number of registered symbols
@@ -340,10 +369,8 @@ pub fn symbol_count() -> usize {
 #[must_use]
 pub fn symbol_names() -> Vec<String> {
     let mut names = Vec::new();
-    for shard_lock in &REGISTRY.shards {
-        let shard = shard_lock
-            .lock()
-            .expect("Global symbol registry shard poisoned");
+    // One moment's names: hold all shards while listing
+    for shard in &REGISTRY.lock_all_shards() {
         names.extend(shard.name_to_symbol_key.keys().cloned());
     }
     // Removed sorting - caller can sort if needed
diff --git a/src/core/unified_context.rs b/src/core/unified_context.rs
index 9ae1b97..526dbef 100644
--- a/src/core/unified_context.rs
+++ b/src/core/unified_context.rs
@@ -341,15 +341,18 @@ impl Context {
             return Symbol::from_id(existing.id());
         }
 
-        // 2. Check global registry (without creating)
         // 2. Check global registry (without creating), else create isolated
-        let symbol = crate::core::symbol::registry::symb_get(name)
-            .unwrap_or_else(|_| crate::core::symbol::registry::symb_new_isolated(name));
-
-        // Track in context's local map
-        let interned = crate::core::symbol::lookup_by_id(symbol.id())
+        // (what another thread removes between the two steps is not there)
+        let find = |symbol: Symbol| {
+            crate::core::symbol::lookup_by_id(symbol.id()).map(|interned| (symbol, interned))
+        };
+        let (symbol, interned) = crate::core::symbol::registry::symb_get(name)
+            .ok()
+            .and_then(find)
+            .or_else(|| find(crate::core::symbol::registry::symb_new_isolated(name)))
             .expect("Symbol just created should exist");
 
+        // Track in context's local map
         inner.symbols.insert(name.to_owned(), interned);
 
         symbol
-- 
2.43.0


From f5e2ae309da173e19d01e0ce147ca461dfdb2dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:51 +0000
Subject: [PATCH 21/69] fix: removing or clearing symbols keeps the built-in
 names and the symbols of contexts

---
 src/core/known_symbols.rs   |  4 ++--
 src/core/symbol/mod.rs      |  2 +-
 src/core/symbol/registry.rs | 47 ++++++++++++++++++++++++++++++++++---
 src/functions/registry.rs   |  4 ++--
 4 files changed, 49 insertions(+), 8 deletions(-)

diff --git a/src/core/known_symbols.rs b/src/core/known_symbols.rs
index 67fde8c..6fbb5af 100644
--- a/src/core/known_symbols.rs
+++ b/src/core/known_symbols.rs
@@ -3,12 +3,12 @@
 //! This module provides lazily-initialized symbol IDs for common function names.
 //! Comparison is O(1) - just a u64 integer comparison.
 
-use crate::core::symbol::{InternedSymbol, lookup_by_id, symb_interned};
+use crate::core::symbol::{InternedSymbol, lookup_by_id, symb_builtin};
 use std::sync::LazyLock;
 
 /// Get the ID for an interned symbol (helper for the macro)
 fn intern_id(name: &str) -> u64 {
-    symb_interned(name).id()
+    symb_builtin(name).id()
 }
 
 /// Collection of pre-interned symbol IDs for all built-in mathematical functions.
diff --git a/src/core/symbol/mod.rs b/src/core/symbol/mod.rs
index 97a3484..22aacc9 100644
--- a/src/core/symbol/mod.rs
+++ b/src/core/symbol/mod.rs
@@ -36,7 +36,7 @@ pub use registry::{
 };
 
 // Internal re-exports for crate use only
-pub use registry::{lookup_by_id, symb_interned};
+pub use registry::{lookup_by_id, symb_builtin, symb_interned};
 
 use std::sync::Arc;
 
diff --git a/src/core/symbol/registry.rs b/src/core/symbol/registry.rs
index c9e1703..4222b0f 100644
--- a/src/core/symbol/registry.rs
+++ b/src/core/symbol/registry.rs
@@ -7,7 +7,7 @@
 use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::{Mutex, MutexGuard, RwLock};
 
-use rustc_hash::{FxHashMap, FxHasher};
+use rustc_hash::{FxHashMap, FxHashSet, FxHasher};
 use slotmap::{DefaultKey, SlotMap};
 use std::hash::Hasher;
 
@@ -61,6 +61,8 @@ const NUM_SHARDS: usize = 16;
 struct RegistryShard {
     /// Mapping from symbol names to their keys
     name_to_symbol_key: FxHashMap<String, DefaultKey>,
+    /// Keys of the names the library itself refers to; these are never removed
+    builtin: FxHashSet<DefaultKey>,
 }
 
 /// Unified symbol registry storage
@@ -77,6 +79,7 @@ impl SymbolRegistry {
         let shards: [Mutex<RegistryShard>; NUM_SHARDS] = std::array::from_fn(|_| {
             Mutex::new(RegistryShard {
                 name_to_symbol_key: FxHashMap::default(),
+                builtin: FxHashSet::default(),
             })
         });
 
@@ -299,9 +302,29 @@ pub fn symb_interned(name: &str) -> InternedSymbol {
     }
 }
 
+/// Get or create the symbol of a built-in function or constant, which cannot be removed
+///
+/// # Panics
+///
+/// Panics if the global registry shard lock is poisoned.
+pub fn symb_builtin(name: &str) -> InternedSymbol {
+    loop {
+        let interned = symb_interned(name);
+        let mut shard = REGISTRY
+            .get_shard(name)
+            .lock()
+            .expect("Global symbol registry shard poisoned");
+        if shard.name_to_symbol_key.get(name) == Some(&interned.key()) {
+            shard.builtin.insert(interned.key());
+            return interned;
+        }
+    }
+}
+
 /// Remove a symbol from the global registry
 ///
 /// Returns `true` if the symbol existed and was removed, `false` otherwise.
+/// The names of built-in functions and constants cannot be removed.
 ///
 /// # Panics
 ///
@@ -312,6 +335,12 @@ pub fn remove_symbol(name: &str) -> bool {
         .lock()
         .expect("Global symbol registry shard poisoned");
 
+    if let Some(key) = shard.name_to_symbol_key.get(name)
+        && shard.builtin.contains(key)
+    {
+        return false;
+    }
+
     shard.name_to_symbol_key.remove(name).is_some_and(|key| {
         REMOVALS.fetch_add(1, Ordering::SeqCst);
         // Name and data go together: the shard lock is held, as it is when a symbol is created
@@ -326,6 +355,8 @@ pub fn remove_symbol(name: &str) -> bool {
 
 /// Clear all symbols from the global registry
 ///
+/// The names of built-in functions and constants stay, and so do the symbols of contexts.
+///
 /// # Panics
 ///
 /// Panics if any global registry lock is poisoned.
@@ -339,9 +370,19 @@ pub fn clear_symbols() {
 
     REMOVALS.fetch_add(1, Ordering::SeqCst);
     for shard in &mut shards {
-        shard.name_to_symbol_key.clear();
+        let RegistryShard {
+            name_to_symbol_key,
+            builtin,
+        } = &mut **shard;
+        name_to_symbol_key.retain(|_, key| {
+            let keep = builtin.contains(key);
+            if !keep {
+                id_data.remove(*key);
+            }
+            keep
+        });
     }
-    id_data.clear();
+    id_data.retain(|_, symbol| symbol.name().is_some());
 
     // This thread's caches go with them
     ID_CACHE.with(|cache| cache.borrow_mut().clear());
diff --git a/src/functions/registry.rs b/src/functions/registry.rs
index fbfd850..e27a379 100644
--- a/src/functions/registry.rs
+++ b/src/functions/registry.rs
@@ -33,7 +33,7 @@ impl FunctionDefinition {
     }
 }
 
-use crate::core::symbol::{InternedSymbol, symb_interned};
+use crate::core::symbol::{InternedSymbol, symb_builtin};
 
 /// Static registry storing all function definitions
 /// Maps symbol ID -> `FunctionDefinition` for fast O(1) lookup
@@ -46,7 +46,7 @@ fn init_registry() -> HashMap<u64, FunctionDefinition> {
     // Populate from definitions
     for def in crate::functions::definitions::all_definitions() {
         // Intern the name to get its ID
-        let sym = symb_interned(def.name);
+        let sym = symb_builtin(def.name);
         map.insert(sym.id(), def);
     }
 
-- 
2.43.0


From 2d9682efd16d25d30c20549117475ac399568fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:52 +0000
Subject: [PATCH 22/69] fix: asking a context about a function does not create
 a symbol

---
 src/core/unified_context.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/core/unified_context.rs b/src/core/unified_context.rs
index 526dbef..8feb262 100644
--- a/src/core/unified_context.rs
+++ b/src/core/unified_context.rs
@@ -471,16 +471,16 @@ impl Context {
     #[inline]
     #[must_use]
     pub fn get_user_fn(&self, name: &str) -> Option<&UserFunction> {
-        let id = symb_interned(name).id();
-        self.user_functions.get(&id)
+        self.fn_name_to_id
+            .get(name)
+            .and_then(|id| self.user_functions.get(id))
     }
 
     /// Check if a function is registered.
     #[inline]
     #[must_use]
     pub fn has_function(&self, name: &str) -> bool {
-        let id = symb_interned(name).id();
-        self.user_functions.contains_key(&id)
+        self.get_user_fn(name).is_some()
     }
 
     /// Get all registered function names.
@@ -499,8 +499,7 @@ impl Context {
     #[inline]
     #[must_use]
     pub fn get_body(&self, name: &str) -> Option<&BodyFn> {
-        let id = symb_interned(name).id();
-        self.user_functions.get(&id).and_then(|f| f.body.as_ref())
+        self.get_user_fn(name).and_then(|f| f.body.as_ref())
     }
 
     /// Get the body function for a user function by symbol ID.
@@ -514,9 +513,7 @@ impl Context {
     #[inline]
     #[must_use]
     pub fn get_partial(&self, name: &str, arg_idx: usize) -> Option<&PartialFn> {
-        let id = symb_interned(name).id();
-        self.user_functions
-            .get(&id)
+        self.get_user_fn(name)
             .and_then(|f| f.partials.get(&arg_idx))
     }
 
-- 
2.43.0


From 90914ac02146152264e808690931ab01bd8f1a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:01 +0000
Subject: [PATCH 23/69] hook: locks of the symbol tables can be observed by a
 test scheduler (--cfg symb_verif)

---
 src/core/mod.rs             |   1 +
 src/core/symbol/registry.rs |   4 +-
 src/core/sync.rs            | 183 ++++++++++++++++++++++++++++++++++++
 src/core/unified_context.rs |   5 +-
 src/lib.rs                  |   6 ++
 5 files changed, 195 insertions(+), 4 deletions(-)
 create mode 100644 src/core/sync.rs

diff --git a/src/core/mod.rs b/src/core/mod.rs
index 94eb39a..c1d6982 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -36,6 +36,7 @@ pub mod expr; // Expression AST (Expr, ExprKind)
 pub mod known_symbols; // Well-known symbol IDs (pi, e, etc.)
 pub mod poly; // Polynomial representation (internal)
 pub mod symbol; // Symbol interning system
+pub mod sync; // Locks (observable under --cfg symb_verif)
 pub mod traits; // Common traits (MathScalar, epsilon helpers)
 pub mod unified_context; // Unified context for symbols and functions
 
diff --git a/src/core/symbol/registry.rs b/src/core/symbol/registry.rs
index 4222b0f..dc6b3f6 100644
--- a/src/core/symbol/registry.rs
+++ b/src/core/symbol/registry.rs
@@ -4,8 +4,8 @@
 //! This implementation uses sharding to minimize lock contention and `FxHash` for
 //! high-performance mapping.
 
-use std::sync::atomic::{AtomicU64, Ordering};
-use std::sync::{Mutex, MutexGuard, RwLock};
+use crate::core::sync::{AtomicU64, Mutex, MutexGuard, RwLock};
+use std::sync::atomic::Ordering;
 
 use rustc_hash::{FxHashMap, FxHashSet, FxHasher};
 use slotmap::{DefaultKey, SlotMap};
diff --git a/src/core/sync.rs b/src/core/sync.rs
new file mode 100644
index 0000000..73a2421
--- /dev/null
+++ b/src/core/sync.rs
@@ -0,0 +1,183 @@
+//! Locks of the symbol tables
+//!
+//! Normally these are the standard library's. Built with `--cfg symb_verif`, every
+//! acquisition, release and atomic access is first reported to an installed observer, so that
+//! a test scheduler can decide which thread goes on.
+
+#[cfg(not(symb_verif))]
+pub use std::sync::{Mutex, MutexGuard, RwLock, atomic::AtomicU64};
+
+#[cfg(symb_verif)]
+pub use observed::{AtomicU64, Mutex, MutexGuard, RwLock, SyncEvent, set_sync_observer};
+
+#[cfg(symb_verif)]
+#[allow(dead_code, reason = "the standard types' methods, whether used at present or not")]
+mod observed {
+    use std::ops::{Deref, DerefMut};
+    use std::sync::atomic::Ordering;
+    use std::sync::{LockResult, OnceLock, PoisonError, TryLockError};
+
+    /// What a thread is about to do, or has just done, to the lock at an address
+    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
+    pub enum SyncEvent {
+        /// About to try to acquire
+        Acquire(usize),
+        /// The attempt failed: another thread holds it
+        Blocked(usize),
+        /// Has released
+        Release(usize),
+        /// About to access an atomic
+        Atomic(usize),
+    }
+
+    static OBSERVER: OnceLock<fn(SyncEvent)> = OnceLock::new();
+
+    /// Install the observer (once per process)
+    pub fn set_sync_observer(f: fn(SyncEvent)) {
+        OBSERVER.set(f).unwrap_or_default();
+    }
+
+    fn tell(e: SyncEvent) {
+        if let Some(f) = OBSERVER.get() {
+            f(e);
+        }
+    }
+
+    fn acquire<G>(
+        addr: usize,
+        attempt: impl Fn() -> Result<G, TryLockError<G>>,
+    ) -> LockResult<Held<G>> {
+        loop {
+            tell(SyncEvent::Acquire(addr));
+            let held = |g| Held {
+                guard: Some(g),
+                addr,
+            };
+            match attempt() {
+                Ok(g) => return Ok(held(g)),
+                Err(TryLockError::Poisoned(p)) => {
+                    return Err(PoisonError::new(held(p.into_inner())));
+                }
+                Err(TryLockError::WouldBlock) => tell(SyncEvent::Blocked(addr)),
+            }
+        }
+    }
+
+    /// A standard guard that reports its release
+    #[derive(Debug)]
+    pub struct Held<G> {
+        guard: Option<G>,
+        addr: usize,
+    }
+
+    impl<G> Drop for Held<G> {
+        fn drop(&mut self) {
+            self.guard = None;
+            tell(SyncEvent::Release(self.addr));
+        }
+    }
+
+    impl<G: Deref> Deref for Held<G> {
+        type Target = G::Target;
+        fn deref(&self) -> &G::Target {
+            self.guard.as_ref().expect("guard is held")
+        }
+    }
+
+    impl<G: DerefMut> DerefMut for Held<G> {
+        fn deref_mut(&mut self) -> &mut G::Target {
+            self.guard.as_mut().expect("guard is held")
+        }
+    }
+
+    /// Guard of [`Mutex`]
+    pub type MutexGuard<'a, T> = Held<std::sync::MutexGuard<'a, T>>;
+
+    /// `std::sync::Mutex`, observed
+    #[derive(Debug, Default)]
+    pub struct Mutex<T>(std::sync::Mutex<T>);
+
+    impl<T> Mutex<T> {
+        pub const fn new(t: T) -> Self {
+            Self(std::sync::Mutex::new(t))
+        }
+        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+            acquire(std::ptr::from_ref(self).addr(), || self.0.try_lock())
+        }
+        pub fn get_mut(&mut self) -> LockResult<&mut T> {
+            self.0.get_mut()
+        }
+        pub fn into_inner(self) -> LockResult<T> {
+            self.0.into_inner()
+        }
+    }
+
+    /// `std::sync::RwLock`, observed
+    #[derive(Debug, Default)]
+    pub struct RwLock<T>(std::sync::RwLock<T>);
+
+    impl<T> RwLock<T> {
+        pub const fn new(t: T) -> Self {
+            Self(std::sync::RwLock::new(t))
+        }
+        pub fn read(&self) -> LockResult<Held<std::sync::RwLockReadGuard<'_, T>>> {
+            acquire(std::ptr::from_ref(self).addr(), || self.0.try_read())
+        }
+        pub fn write(&self) -> LockResult<Held<std::sync::RwLockWriteGuard<'_, T>>> {
+            acquire(std::ptr::from_ref(self).addr(), || self.0.try_write())
+        }
+        pub fn get_mut(&mut self) -> LockResult<&mut T> {
+            self.0.get_mut()
+        }
+        pub fn into_inner(self) -> LockResult<T> {
+            self.0.into_inner()
+        }
+    }
+
+    /// `std::sync::atomic::AtomicU64`, observed
+    #[derive(Debug, Default)]
+    pub struct AtomicU64(std::sync::atomic::AtomicU64);
+
+    impl AtomicU64 {
+        pub const fn new(v: u64) -> Self {
+            Self(std::sync::atomic::AtomicU64::new(v))
+        }
+        fn tell(&self) {
+            tell(SyncEvent::Atomic(std::ptr::from_ref(self).addr()));
+        }
+        pub fn load(&self, o: Ordering) -> u64 {
+            self.tell();
+            self.0.load(o)
+        }
+        pub fn store(&self, n: u64, o: Ordering) {
+            self.tell();
+            self.0.store(n, o);
+        }
+        pub fn swap(&self, n: u64, o: Ordering) -> u64 {
+            self.tell();
+            self.0.swap(n, o)
+        }
+        pub fn fetch_add(&self, n: u64, o: Ordering) -> u64 {
+            self.tell();
+            self.0.fetch_add(n, o)
+        }
+        pub fn fetch_sub(&self, n: u64, o: Ordering) -> u64 {
+            self.tell();
+            self.0.fetch_sub(n, o)
+        }
+        pub fn fetch_max(&self, n: u64, o: Ordering) -> u64 {
+            self.tell();
+            self.0.fetch_max(n, o)
+        }
+        pub fn compare_exchange(
+            &self,
+            a: u64,
+            b: u64,
+            o: Ordering,
+            p: Ordering,
+        ) -> Result<u64, u64> {
+            self.tell();
+            self.0.compare_exchange(a, b, o, p)
+        }
+    }
+}
diff --git a/src/core/unified_context.rs b/src/core/unified_context.rs
index 8feb262..5ae8921 100644
--- a/src/core/unified_context.rs
+++ b/src/core/unified_context.rs
@@ -22,10 +22,11 @@
 
 use super::symbol::{InternedSymbol, Symbol, symb_interned};
 use crate::Expr;
+use crate::core::sync::{AtomicU64, RwLock};
 use std::collections::{HashMap, HashSet};
 use std::ops::RangeInclusive;
-use std::sync::atomic::{AtomicU64, Ordering};
-use std::sync::{Arc, RwLock};
+use std::sync::Arc;
+use std::sync::atomic::Ordering;
 
 // =============================================================================
 // Type Aliases for Thread-Safe Function Types
diff --git a/src/lib.rs b/src/lib.rs
index 0eb935f..2ed801a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -194,6 +194,8 @@
 //! - **Error handling**: All operations return `Result` with descriptive error messages
 //! - **Thread safety**: All public types are `Send + Sync` for parallel usage
 
+#![allow(unexpected_cfgs, reason = "symb_verif is set on the command line")]
+
 // ============================================================================
 // Module Declarations
 // ============================================================================
@@ -314,6 +316,10 @@ pub use core::{
     symbol_exists, symbol_names,
 };
 
+/// Hook for a test scheduler, only with `--cfg symb_verif`.
+#[cfg(symb_verif)]
+pub use core::sync::{SyncEvent, set_sync_observer};
+
 // === Context and Functions ===
 
 /// Context system for custom functions and parsing.
-- 
2.43.0


From eac5df11a8f2a71c46bbf7d3c16c4dc7be192231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:45 +0000
Subject: [PATCH 24/69] fix: interning a name is one step, also when it is
 removed at the same moment

---
 src/core/symbol/registry.rs | 80 ++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 37 deletions(-)

diff --git a/src/core/symbol/registry.rs b/src/core/symbol/registry.rs
index dc6b3f6..9f95e52 100644
--- a/src/core/symbol/registry.rs
+++ b/src/core/symbol/registry.rs
@@ -255,37 +255,7 @@ pub fn symb(name: &str) -> Symbol {
     }
 
     // Slow path: acquire shard lock
-    let shard_lock = REGISTRY.get_shard(name);
-    let mut shard = shard_lock
-        .lock()
-        .expect("Global symbol registry shard poisoned");
-
-    // Check if the symbol already exists.
-    if let Some(&key) = shard.name_to_symbol_key.get(name) {
-        let sym = Symbol(key);
-        // Populate TLS cache for future lookups
-        drop(shard); // Release lock before TLS operation
-        NAME_CACHE.with(|cache| {
-            cache.borrow_mut().insert(name.to_owned(), sym);
-        });
-        return sym;
-    }
-
-    // If not, create it.
-    let key = REGISTRY
-        .id_to_data
-        .write()
-        .expect("Global ID registry poisoned")
-        .insert_with_key(|k| InternedSymbol::new_named(name, k));
-    shard.name_to_symbol_key.insert(name.to_owned(), key);
-    drop(shard);
-
-    let sym = Symbol(key);
-    // Populate TLS cache
-    NAME_CACHE.with(|cache| {
-        cache.borrow_mut().insert(name.to_owned(), sym);
-    });
-    sym
+    Symbol(intern(name).key())
 }
 
 /// Get or create an interned symbol
@@ -294,12 +264,48 @@ pub fn symb(name: &str) -> Symbol {
 ///
 /// Panics if the global registry shard lock is poisoned.
 pub fn symb_interned(name: &str) -> InternedSymbol {
-    loop {
-        // Another thread may remove the symbol between the two steps: then there is a new one
-        if let Some(interned) = lookup_by_id(symb(name).id()) {
-            return interned;
-        }
-    }
+    refresh_name_cache();
+    NAME_CACHE
+        .with(|cache| cache.borrow().get(name).copied())
+        .and_then(|sym| lookup_by_id(sym.id()))
+        .unwrap_or_else(|| intern(name))
+}
+
+/// Find or create the symbol of a name, under the lock of its shard, and remember it in this thread's caches
+fn intern(name: &str) -> InternedSymbol {
+    let mut shard = REGISTRY
+        .get_shard(name)
+        .lock()
+        .expect("Global symbol registry shard poisoned");
+
+    // Name and data go together: a name found here has its data until the lock is released
+    let found = shard.name_to_symbol_key.get(name).and_then(|&key| {
+        REGISTRY
+            .id_to_data
+            .read()
+            .expect("Global ID registry poisoned")
+            .get(key)
+            .cloned()
+    });
+    let interned = found.unwrap_or_else(|| {
+        let mut id_data = REGISTRY
+            .id_to_data
+            .write()
+            .expect("Global ID registry poisoned");
+        let key = id_data.insert_with_key(|k| InternedSymbol::new_named(name, k));
+        shard.name_to_symbol_key.insert(name.to_owned(), key);
+        id_data[key].clone()
+    });
+    drop(shard); // Release lock before TLS operations
+
+    let key = interned.key();
+    NAME_CACHE.with(|cache| {
+        cache.borrow_mut().insert(name.to_owned(), Symbol(key));
+    });
+    ID_CACHE.with(|cache| {
+        cache.borrow_mut().insert(key, interned.clone());
+    });
+    interned
 }
 
 /// Get or create the symbol of a built-in function or constant, which cannot be removed
-- 
2.43.0


From c820d991f89c4cf554a8f08aafa14c2df9801f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 25/69] fix: deeply nested input is an error instead of a stack
 overflow

---
 src/parser/pratt.rs | 49 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/parser/pratt.rs b/src/parser/pratt.rs
index 63c78fe..30e4449 100644
--- a/src/parser/pratt.rs
+++ b/src/parser/pratt.rs
@@ -8,6 +8,11 @@ use crate::{DiffError, Expr};
 
 use crate::core::unified_context::Context;
 
+/// How deep an input may nest (brackets, arguments, signs, exponents, quotients of quotients).
+/// The parser and everything that walks the tree are recursive: without a limit, a long enough
+/// input overflows the stack, which ends the whole process.
+const MAX_NESTING: usize = 200;
+
 /// Parse tokens into an AST using Pratt parsing algorithm
 #[inline]
 pub fn parse_expression(
@@ -21,6 +26,7 @@ pub fn parse_expression(
     let mut parser = Parser {
         tokens,
         pos: 0,
+        depth: 0,
         context,
     };
 
@@ -43,6 +49,8 @@ struct Parser<'tokens, 'src> {
     tokens: &'tokens [Token<'src>],
     /// Current position in the token stream
     pos: usize,
+    /// How many expressions enclose the current position
+    depth: usize,
     /// Optional context for parsing
     context: Option<&'tokens Context>,
 }
@@ -60,10 +68,28 @@ impl<'src> Parser<'_, 'src> {
         self.pos += 1;
     }
 
+    /// Parse an expression that is nested in another one
+    fn parse_nested(&mut self, min_precedence: u8) -> Result<Expr, DiffError> {
+        self.enter()?;
+        let expr = self.parse_expr(min_precedence)?;
+        self.depth -= 1;
+        Ok(expr)
+    }
+
+    /// Go one level deeper, if the limit allows it
+    const fn enter(&mut self) -> Result<(), DiffError> {
+        if self.depth >= MAX_NESTING {
+            return Err(DiffError::MaxDepthExceeded);
+        }
+        self.depth += 1;
+        Ok(())
+    }
+
     /// Parse an expression with precedence
     fn parse_expr(&mut self, min_precedence: u8) -> Result<Expr, DiffError> {
         // Parse left side (prefix)
         let mut left = self.parse_prefix()?;
+        let outer = self.depth;
 
         // Parse operators and right side (infix)
         while let Some(token) = self.current() {
@@ -86,9 +112,15 @@ impl<'src> Parser<'_, 'src> {
                 continue;
             }
 
+            if matches!(token, Token::Operator(Operator::Div)) {
+                // The left operand ends up below the quotient
+                self.enter()?;
+            }
+
             left = self.parse_infix(left, precedence)?;
         }
 
+        self.depth = outer;
         Ok(left)
     }
 
@@ -140,7 +172,7 @@ impl<'src> Parser<'_, 'src> {
         }
 
         loop {
-            args.push(self.parse_expr(0)?);
+            args.push(self.parse_nested(0)?);
 
             match self.current() {
                 Some(Token::Comma) => {
@@ -253,19 +285,19 @@ impl<'src> Parser<'_, 'src> {
             // This ensures -x^2 parses as -(x^2), not (-x)^2
             Token::Operator(Operator::Sub) => {
                 self.advance();
-                let expr = self.parse_expr(25)?; // Lower than Pow (30), higher than Mul (20)
+                let expr = self.parse_nested(25)?; // Lower than Pow (30), higher than Mul (20)
                 Ok(Expr::mul_expr(Expr::number(-1.0), expr))
             }
 
             // Unary plus: same precedence as unary minus, just returns the expression
             Token::Operator(Operator::Add) => {
                 self.advance();
-                self.parse_expr(25) // Same precedence as unary minus
+                self.parse_nested(25) // Same precedence as unary minus
             }
 
             Token::LeftParen => {
                 self.advance(); // consume (
-                let expr = self.parse_expr(0)?;
+                let expr = self.parse_nested(0)?;
 
                 if matches!(self.current(), Some(Token::RightParen)) {
                     self.advance(); // consume )
@@ -301,6 +333,7 @@ impl<'src> Parser<'_, 'src> {
                         let mut sub_parser = Parser {
                             tokens: args,
                             pos: 0,
+                            depth: self.depth,
                             context: self.context,
                         };
                         let mut exprs = Vec::new();
@@ -309,7 +342,7 @@ impl<'src> Parser<'_, 'src> {
                             if sub_parser.current().is_none() {
                                 break;
                             }
-                            let expr = sub_parser.parse_expr(0)?;
+                            let expr = sub_parser.parse_nested(0)?;
                             exprs.push(expr);
 
                             if matches!(sub_parser.current(), Some(Token::Comma)) {
@@ -356,7 +389,11 @@ impl<'src> Parser<'_, 'src> {
                     precedence + 1 // Left associative
                 };
 
-                let right = self.parse_expr(next_precedence)?;
+                let right = if matches!(op, Operator::Pow) {
+                    self.parse_nested(next_precedence)?
+                } else {
+                    self.parse_expr(next_precedence)?
+                };
 
                 let result = match op {
                     Operator::Add => Expr::add_expr(left, right),
-- 
2.43.0


From 0e38df0b2d8b3ca538f900ca59c5c8787ddb3119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 26/69] fix: error positions refer to the input as given and
 cover whole characters

---
 src/core/error.rs   | 15 +++++++++++++++
 src/parser/lexer.rs |  5 +++--
 src/parser/mod.rs   |  6 +++++-
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/core/error.rs b/src/core/error.rs
index af9a117..58b1cec 100644
--- a/src/core/error.rs
+++ b/src/core/error.rs
@@ -208,6 +208,21 @@ pub enum DiffError {
 }
 
 impl DiffError {
+    /// The same error at a position `by` bytes earlier in the source
+    pub(crate) fn moved_back(mut self, by: usize) -> Self {
+        if let Self::InvalidSyntax { span, .. }
+        | Self::InvalidNumber { span, .. }
+        | Self::InvalidToken { span, .. }
+        | Self::UnexpectedToken { span, .. }
+        | Self::AmbiguousSequence { span, .. } = &mut self
+        {
+            *span = span.map(|s| {
+                Span::new(s.start().saturating_sub(by), s.end().saturating_sub(by))
+            });
+        }
+        self
+    }
+
     // Convenience constructors for backward compatibility
 
     /// Create `InvalidSyntax` without span (backward compatible)
diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 19f2db1..27d0ea6 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -444,9 +444,10 @@ fn scan_characters(input: &str) -> Result<Vec<RawToken<'_>>, DiffError> {
 
             _ => {
                 // For invalid tokens, include position information
+                let invalid = input.get(pos..).and_then(|s| s.chars().next()).unwrap_or(ch);
                 return Err(DiffError::InvalidToken {
-                    token: ch.to_string(),
-                    span: Some(crate::Span::new(pos, pos + 1)),
+                    token: invalid.to_string(),
+                    span: Some(crate::Span::new(pos, pos + invalid.len_utf8())),
                 });
             }
         }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 4b6129f..99650f3 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -86,7 +86,11 @@ pub fn parse<S: std::hash::BuildHasher + Clone>(
     let balanced = lexer::balance_parentheses(input);
 
     // Step 3: Lexing (two-pass)
-    let tokens = lexer::lex(&balanced, symbols_ref, functions_ref)?;
+    let tokens = lexer::lex(&balanced, symbols_ref, functions_ref).map_err(|error| {
+        // Positions are those in the input as given, without the brackets put before it
+        let brackets = |s: &str| s.bytes().take_while(|&b| b == b'(').count();
+        error.moved_back(brackets(&balanced) - brackets(input))
+    })?;
 
     // Step 4: Insert implicit multiplication
     let tokens_with_mul = implicit_mul::insert_implicit_multiplication(tokens, functions_ref);
-- 
2.43.0


From d4040ee0b4be92c46303e50f7ae0de856457230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 27/69] fix: long runs of declared names are read in a loop,
 not by recursion

---
 src/parser/lexer.rs | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 27d0ea6..217e9ba 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -533,27 +533,41 @@ pub fn lex<'src, S: std::hash::BuildHasher>(
 /// but introduces potential ambiguity. Users can resolve ambiguity by:
 /// - Declaring multi-char variables in `fixed_vars`
 /// - Using explicit multiplication: `x*sin(y)`
+fn resolve_sequence<'src, S: std::hash::BuildHasher>(
+    seq: &'src str,
+    fixed_vars: &HashSet<String, S>,
+    custom_functions: &HashSet<String, S>,
+    next_is_paren: bool,
+    output: &mut Vec<Token<'src>>,
+) {
+    let mut rest = resolve_first(seq, fixed_vars, custom_functions, next_is_paren, output);
+    while !rest.is_empty() {
+        rest = resolve_first(rest, fixed_vars, custom_functions, false, output);
+    }
+}
+
+/// Resolve the first part of a sequence; returns what is left of it
 #[allow(
     clippy::string_slice,
     reason = "Slicing by char indices yields valid UTF-8 sequences"
 )]
-fn resolve_sequence<'src, S: std::hash::BuildHasher>(
+fn resolve_first<'src, S: std::hash::BuildHasher>(
     seq: &'src str,
     fixed_vars: &HashSet<String, S>,
     custom_functions: &HashSet<String, S>,
     next_is_paren: bool,
     output: &mut Vec<Token<'src>>,
-) {
+) -> &'src str {
     // Priority 1: Check if entire sequence is in fixed_vars
     if fixed_vars.contains(seq) {
         output.push(Token::Identifier(Cow::Borrowed(seq)));
-        return;
+        return "";
     }
 
     // Priority 1.5: Check for known constants (pi, e)
     if crate::core::known_symbols::is_known_constant(seq) {
         output.push(Token::Identifier(Cow::Borrowed(seq)));
-        return;
+        return "";
     }
 
     // Priority 2: Check if it's a built-in function followed by (
@@ -563,13 +577,13 @@ fn resolve_sequence<'src, S: std::hash::BuildHasher>(
         && let Some(op) = Operator::parse_str(seq)
     {
         output.push(Token::Operator(op));
-        return;
+        return "";
     }
 
     // Priority 3: Check if it's a custom function followed by (
     if custom_functions.contains(seq) && next_is_paren {
         output.push(Token::Identifier(Cow::Borrowed(seq)));
-        return;
+        return "";
     }
 
     // Priority 4: Scan for built-in functions as substrings (if followed by paren)
@@ -598,7 +612,7 @@ fn resolve_sequence<'src, S: std::hash::BuildHasher>(
                     output.push(Token::Operator(op));
                 }
 
-                return;
+                return "";
             }
         }
     }
@@ -621,24 +635,14 @@ fn resolve_sequence<'src, S: std::hash::BuildHasher>(
                 // Found a fixed variable prefix, split here
                 let rest = seq.get(end_byte..).expect("Checked char boundaries");
                 output.push(Token::Identifier(Cow::Borrowed(prefix)));
-                if !rest.is_empty() {
-                    // Recursively resolve the rest
-                    resolve_sequence(
-                        rest,
-                        fixed_vars,
-                        custom_functions,
-                        next_is_paren && end_byte == seq.len(),
-                        output,
-                    );
-                }
-                return;
+                return rest;
             }
         }
 
         // No fixed variable prefix found, treat as single identifier
         // This preserves multi-character Unicode identifiers like "αβ" or "θ₁"
         output.push(Token::Identifier(Cow::Borrowed(seq)));
-        return;
+        return "";
     }
 
     // Priority 6 (FINAL FALLBACK): Split into individual characters (for complex sequences)
@@ -648,6 +652,7 @@ fn resolve_sequence<'src, S: std::hash::BuildHasher>(
         let end = char_indices.peek().copied().unwrap_or(seq.len());
         output.push(Token::Identifier(Cow::Borrowed(&seq[start..end])));
     }
+    ""
 }
 
 /// Parse derivative notation like ∂^`1_f(x)`/∂_x^1
-- 
2.43.0


From 8acf3a180b0e213f7ea948ee95ff969e2f4e9f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:01 +0000
Subject: [PATCH 28/69] fix: built-in functions with the wrong number of
 arguments are not evaluated (log(2) panicked)

---
 src/core/expr/evaluate.rs               | 1 +
 src/diff/engine.rs                      | 2 +-
 src/evaluator/compiler.rs               | 2 +-
 src/simplification/rules/numeric/mod.rs | 1 +
 4 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/expr/evaluate.rs b/src/core/expr/evaluate.rs
index 8663483..c15c46f 100644
--- a/src/core/expr/evaluate.rs
+++ b/src/core/expr/evaluate.rs
@@ -146,6 +146,7 @@ impl Expr {
                     }
                     if let Some(func_def) =
                         crate::functions::registry::Registry::get_by_symbol(name)
+                        && func_def.validate_arity(args_vec.len())
                         && let Some(result) = (func_def.eval)(&args_vec)
                     {
                         return Self::number(result);
diff --git a/src/diff/engine.rs b/src/diff/engine.rs
index bae3ee0..3764c59 100644
--- a/src/diff/engine.rs
+++ b/src/diff/engine.rs
@@ -417,7 +417,7 @@ impl Expr {
                 order,
             } => {
                 if deriv_var.id() == var_id {
-                    Self::derivative_interned(inner.as_ref().clone(), deriv_var.clone(), order + 1)
+                    Self::derivative_interned(inner.as_ref().clone(), deriv_var.clone(), order.saturating_add(1))
                 } else if !inner.contains_var(var) {
                     Self::number(0.0)
                 } else {
diff --git a/src/evaluator/compiler.rs b/src/evaluator/compiler.rs
index ca21da9..96fb9cf 100644
--- a/src/evaluator/compiler.rs
+++ b/src/evaluator/compiler.rs
@@ -284,7 +284,7 @@ impl<'ctx> Compiler<'ctx> {
                             Some(x.tan())
                         } else if id == ks.exp {
                             Some(x.exp())
-                        } else if id == ks.ln || id == ks.log {
+                        } else if id == ks.ln {
                             Some(x.ln())
                         } else if id == ks.sqrt {
                             Some(x.sqrt())
diff --git a/src/simplification/rules/numeric/mod.rs b/src/simplification/rules/numeric/mod.rs
index 0d0c00f..873b882 100644
--- a/src/simplification/rules/numeric/mod.rs
+++ b/src/simplification/rules/numeric/mod.rs
@@ -566,6 +566,7 @@ rule!(
 
             // Try built-in function registry first (via InternedSymbol ID)
             if let Some(func_def) = crate::functions::registry::Registry::get_by_symbol(name)
+                && func_def.validate_arity(numeric_args.len())
                 && let Some(result) = (func_def.eval)(&numeric_args)
             {
                 // Check for NaN or Inf
-- 
2.43.0


From f895ea36c7fe8b0a6724b866633c565fd21eda91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 29/69] fix: orders beyond a million are unsupported instead of
 overflowing or running for minutes

---
 src/math/bessel.rs      | 11 +++++++++--
 src/math/mod.rs         |  8 ++++++++
 src/math/polynomials.rs |  8 +++++---
 src/math/special.rs     |  3 ++-
 4 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/math/bessel.rs b/src/math/bessel.rs
index 87175ba..fedf871 100644
--- a/src/math/bessel.rs
+++ b/src/math/bessel.rs
@@ -1,3 +1,4 @@
+use super::is_supported_order;
 use crate::core::traits::MathScalar;
 
 /// Bessel function of the first kind `J_n(x)`
@@ -14,6 +15,9 @@ use crate::core::traits::MathScalar;
 ///
 /// Reference: A&S §9.1.27, DLMF §10.6 <https://dlmf.nist.gov/10.6>
 pub fn bessel_j<T: MathScalar>(n: i32, x: T) -> Option<T> {
+    if !is_supported_order(n) {
+        return None;
+    }
     let n_abs = n.abs();
     let ax = x.abs();
 
@@ -309,7 +313,7 @@ pub fn bessel_j1<T: MathScalar>(x: T) -> T {
 ///
 /// Reference: A&S §9.1.27, DLMF §10.6 <https://dlmf.nist.gov/10.6>
 pub fn bessel_y<T: MathScalar>(n: i32, x: T) -> Option<T> {
-    if x <= T::zero() {
+    if x <= T::zero() || !is_supported_order(n) {
         return None;
     }
     let n_abs = n.abs();
@@ -461,6 +465,9 @@ pub fn bessel_y1<T: MathScalar>(x: T) -> T {
 ///
 /// Reference: Numerical Recipes §6.6, A&S §9.6 <https://dlmf.nist.gov/10.25>
 pub fn bessel_i<T: MathScalar>(n: i32, x: T) -> T {
+    if !is_supported_order(n) {
+        return T::nan();
+    }
     let n_abs = n.abs();
     if n_abs == 0 {
         return bessel_i0(x);
@@ -623,7 +630,7 @@ pub fn bessel_i1<T: MathScalar>(x: T) -> T {
 ///
 /// Reference: A&S §9.6.26, DLMF §10.29 <https://dlmf.nist.gov/10.29>
 pub fn bessel_k<T: MathScalar>(n: i32, x: T) -> Option<T> {
-    if x <= T::zero() {
+    if x <= T::zero() || !is_supported_order(n) {
         return None;
     }
     let n_abs = n.abs();
diff --git a/src/math/mod.rs b/src/math/mod.rs
index 976b603..dd84fe1 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -43,6 +43,14 @@ pub use elliptic::*;
 pub use polynomials::*;
 pub use special::*;
 
+/// Largest order or degree the integer-order functions are evaluated for
+const MAX_ORDER: i32 = 1_000_000;
+
+/// Whether `n`, positive or negative, is an order the recurrences can be run for
+fn is_supported_order(n: i32) -> bool {
+    (-MAX_ORDER..=MAX_ORDER).contains(&n)
+}
+
 /// Here to remenber to implement properly when adding proper imaginary support
 /// Exponential function for polar representation
 ///
diff --git a/src/math/polynomials.rs b/src/math/polynomials.rs
index 3ad0cac..e5135d0 100644
--- a/src/math/polynomials.rs
+++ b/src/math/polynomials.rs
@@ -1,3 +1,4 @@
+use super::is_supported_order;
 use crate::core::traits::MathScalar;
 
 /// Hermite polynomials `H_n(x)` (physicist's convention)
@@ -7,7 +8,7 @@ use crate::core::traits::MathScalar;
 ///
 /// Reference: DLMF §18.9 <https://dlmf.nist.gov/18.9>
 pub fn eval_hermite<T: MathScalar>(n: i32, x: T) -> Option<T> {
-    if n < 0 {
+    if n < 0 || !is_supported_order(n) {
         return None;
     }
     if n == 0 {
@@ -36,7 +37,8 @@ pub fn eval_hermite<T: MathScalar>(n: i32, x: T) -> Option<T> {
 ///
 /// Reference: DLMF §14.10 <https://dlmf.nist.gov/14.10>
 pub fn eval_assoc_legendre<T: MathScalar>(l: i32, m: i32, x: T) -> Option<T> {
-    if l < 0 || m.abs() > l || x.abs() > T::one() {
+    if l < 0 || !is_supported_order(l) || m.unsigned_abs() > l.unsigned_abs() || x.abs() > T::one()
+    {
         // Technically |x| > 1 is domain error, but some continuations exist.
         // Standard impl assumes -1 <= x <= 1
         return None;
@@ -98,7 +100,7 @@ pub fn eval_assoc_legendre<T: MathScalar>(l: i32, m: i32, x: T) -> Option<T> {
 ///
 /// Reference: DLMF §14.30 <https://dlmf.nist.gov/14.30>
 pub fn eval_spherical_harmonic<T: MathScalar>(l: i32, m: i32, theta: T, phi: T) -> Option<T> {
-    if l < 0 || m.abs() > l {
+    if l < 0 || !is_supported_order(l) || m.unsigned_abs() > l.unsigned_abs() {
         return None;
     }
     let cos_theta = theta.cos();
diff --git a/src/math/special.rs b/src/math/special.rs
index 50b32f3..78572fd 100644
--- a/src/math/special.rs
+++ b/src/math/special.rs
@@ -1,3 +1,4 @@
+use super::is_supported_order;
 use crate::core::traits::MathScalar;
 
 /// Error function erf(x) = (2/√π) ∫₀ˣ e^(-t²) dt
@@ -647,7 +648,7 @@ pub fn eval_lambert_w<T: MathScalar>(x: T) -> Option<T> {
 ///
 /// Reference: DLMF §5.15 <https://dlmf.nist.gov/5.15>
 pub fn eval_polygamma<T: MathScalar>(n: i32, x: T) -> Option<T> {
-    if n < 0 {
+    if n < 0 || !is_supported_order(n) {
         return None;
     }
     match n {
-- 
2.43.0


From 4dd097749c0bc64653d4d029d1b7d72e94e7beae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 30/69] fix: differentiation goes by symbol, so nameless and
 context symbols work, and polynomials use the context

---
 src/api/builder.rs     | 24 +++++++++++--
 src/api/helpers.rs     | 48 +++++++++++--------------
 src/core/poly.rs       |  8 +++--
 src/core/symbol/mod.rs | 11 +++---
 src/diff/engine.rs     | 82 +++++++++++++++++++++++-------------------
 5 files changed, 98 insertions(+), 75 deletions(-)

diff --git a/src/api/builder.rs b/src/api/builder.rs
index 4748aba..5f9657c 100644
--- a/src/api/builder.rs
+++ b/src/api/builder.rs
@@ -16,6 +16,7 @@
 //! assert!(!format!("{}", derivative).is_empty());
 //! ```
 
+use crate::core::symbol::{InternedSymbol, symb_interned};
 use crate::core::unified_context::{Context, UserFunction};
 use crate::evaluator::ToParamName;
 use crate::{DiffError, Expr, Symbol, parser, simplification};
@@ -125,8 +126,11 @@ impl Diff {
     /// - Expression depth exceeds `max_depth`
     /// - Expression node count exceeds `max_nodes`
     pub fn differentiate(&self, expr: &Expr, var: &Symbol) -> Result<Expr, DiffError> {
-        let var_name = var.name().unwrap_or_default();
-        self.differentiate_by_name(expr, &var_name)
+        let var = var.interned();
+        if let Some(name) = var.name() {
+            self.check_not_fixed(name)?;
+        }
+        self.differentiate_by_symbol(expr, &var)
     }
 
     /// Get custom function names for parsing
@@ -169,12 +173,26 @@ impl Diff {
 
     /// Differentiates an expression with respect to a variable by name.
     pub(crate) fn differentiate_by_name(&self, expr: &Expr, var: &str) -> Result<Expr, DiffError> {
+        self.check_not_fixed(var)?;
+        self.differentiate_by_symbol(expr, &symb_interned(var))
+    }
+
+    /// Error if the variable of differentiation is also a fixed variable
+    fn check_not_fixed(&self, var: &str) -> Result<(), DiffError> {
         if self.known_symbols.contains(var) {
             return Err(DiffError::VariableInBothFixedAndDiff {
                 var: var.to_owned(),
             });
         }
+        Ok(())
+    }
 
+    /// Differentiates an expression with respect to a symbol, which need not have a name.
+    fn differentiate_by_symbol(
+        &self,
+        expr: &Expr,
+        var: &InternedSymbol,
+    ) -> Result<Expr, DiffError> {
         if let Some(max_d) = self.max_depth
             && expr.max_depth() > max_d
         {
@@ -187,7 +205,7 @@ impl Diff {
         }
 
         let context = self.build_context();
-        let derivative = expr.derive(var, Some(&context));
+        let derivative = expr.derive_by_symbol(var, Some(&context));
 
         if self.skip_simplification {
             return Ok(derivative);
diff --git a/src/api/helpers.rs b/src/api/helpers.rs
index 0601b7b..a08f28f 100644
--- a/src/api/helpers.rs
+++ b/src/api/helpers.rs
@@ -14,43 +14,41 @@ fn empty_context() -> (HashSet<String>, HashSet<String>) {
     (HashSet::new(), HashSet::new())
 }
 
-/// Helper to extract variable names from Symbol slices
-#[inline]
-fn extract_var_names(vars: &[&Symbol]) -> Vec<String> {
-    vars.iter().filter_map(|s| s.name()).collect()
+/// Copies of the given symbols
+fn symbols(vars: &[&Symbol]) -> Vec<Symbol> {
+    vars.iter().map(|var| **var).collect()
 }
 
-/// Helper to convert variable names to &str slices
-#[inline]
-fn var_names_to_str_refs(var_names: &[String]) -> Vec<&str> {
-    var_names.iter().map(std::string::String::as_str).collect()
+/// Symbols of the given names
+fn symbols_of(names: &[&str]) -> Vec<Symbol> {
+    names.iter().map(|name| crate::symb(name)).collect()
 }
 
-/// Internal gradient implementation using &str variable names
+/// Internal gradient implementation
 /// This is the core implementation - public APIs wrap this
-fn gradient_internal(expr: &Expr, vars: &[&str]) -> Result<Vec<Expr>, DiffError> {
+fn gradient_internal(expr: &Expr, vars: &[Symbol]) -> Result<Vec<Expr>, DiffError> {
     let diff = Diff::new();
     vars.iter()
-        .map(|var| diff.differentiate_by_name(expr, var))
+        .map(|var| diff.differentiate(expr, var))
         .collect()
 }
 
-/// Internal hessian implementation using &str variable names
-fn hessian_internal(expr: &Expr, vars: &[&str]) -> Result<Vec<Vec<Expr>>, DiffError> {
+/// Internal hessian implementation
+fn hessian_internal(expr: &Expr, vars: &[Symbol]) -> Result<Vec<Vec<Expr>>, DiffError> {
     let diff = Diff::new();
     let grad = gradient_internal(expr, vars)?;
 
     grad.iter()
         .map(|partial| {
             vars.iter()
-                .map(|var| diff.differentiate_by_name(partial, var))
+                .map(|var| diff.differentiate(partial, var))
                 .collect::<Result<Vec<_>, _>>()
         })
         .collect()
 }
 
-/// Internal jacobian implementation using &str variable names
-fn jacobian_internal(exprs: &[Expr], vars: &[&str]) -> Result<Vec<Vec<Expr>>, DiffError> {
+/// Internal jacobian implementation
+fn jacobian_internal(exprs: &[Expr], vars: &[Symbol]) -> Result<Vec<Vec<Expr>>, DiffError> {
     exprs
         .iter()
         .map(|expr| gradient_internal(expr, vars))
@@ -75,9 +73,7 @@ fn jacobian_internal(exprs: &[Expr], vars: &[&str]) -> Result<Vec<Vec<Expr>>, Di
 /// # Errors
 /// Returns `DiffError` if differentiation fails for any variable.
 pub fn gradient(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Expr>, DiffError> {
-    let var_names = extract_var_names(vars);
-    let var_refs = var_names_to_str_refs(&var_names);
-    gradient_internal(expr, &var_refs)
+    gradient_internal(expr, &symbols(vars))
 }
 
 /// Compute the Hessian matrix of an expression
@@ -98,9 +94,7 @@ pub fn gradient(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Expr>, DiffError> {
 /// # Errors
 /// Returns `DiffError` if any second partial derivative fails.
 pub fn hessian(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Vec<Expr>>, DiffError> {
-    let var_names = extract_var_names(vars);
-    let var_refs = var_names_to_str_refs(&var_names);
-    hessian_internal(expr, &var_refs)
+    hessian_internal(expr, &symbols(vars))
 }
 
 /// Compute the Jacobian matrix of a vector of expressions
@@ -121,9 +115,7 @@ pub fn hessian(expr: &Expr, vars: &[&Symbol]) -> Result<Vec<Vec<Expr>>, DiffErro
 /// # Errors
 /// Returns `DiffError` if any partial derivative fails.
 pub fn jacobian(exprs: &[Expr], vars: &[&Symbol]) -> Result<Vec<Vec<Expr>>, DiffError> {
-    let var_names: Vec<String> = vars.iter().filter_map(|s| s.name()).collect();
-    let var_refs: Vec<&str> = var_names.iter().map(std::string::String::as_str).collect();
-    jacobian_internal(exprs, &var_refs)
+    jacobian_internal(exprs, &symbols(vars))
 }
 
 // ===== String-based API =====
@@ -153,7 +145,7 @@ fn parse_formula(formula: &str) -> Result<Expr, DiffError> {
 /// Returns `DiffError` if parsing or differentiation fails.
 pub fn gradient_str(formula: &str, vars: &[&str]) -> Result<Vec<String>, DiffError> {
     let expr = parse_formula(formula)?;
-    let grad = gradient_internal(&expr, vars)?;
+    let grad = gradient_internal(&expr, &symbols_of(vars))?;
     Ok(grad.iter().map(std::string::ToString::to_string).collect())
 }
 
@@ -174,7 +166,7 @@ pub fn gradient_str(formula: &str, vars: &[&str]) -> Result<Vec<String>, DiffErr
 /// Returns `DiffError` if parsing or differentiation fails.
 pub fn hessian_str(formula: &str, vars: &[&str]) -> Result<Vec<Vec<String>>, DiffError> {
     let expr = parse_formula(formula)?;
-    let hess = hessian_internal(&expr, vars)?;
+    let hess = hessian_internal(&expr, &symbols_of(vars))?;
     Ok(hess
         .iter()
         .map(|row| row.iter().map(std::string::ToString::to_string).collect())
@@ -208,7 +200,7 @@ fn parse_formulas(formulas: &[&str]) -> Result<Vec<Expr>, DiffError> {
 /// Returns `DiffError` if parsing or differentiation fails.
 pub fn jacobian_str(formulas: &[&str], vars: &[&str]) -> Result<Vec<Vec<String>>, DiffError> {
     let exprs = parse_formulas(formulas)?;
-    let jac = jacobian_internal(&exprs, vars)?;
+    let jac = jacobian_internal(&exprs, &symbols_of(vars))?;
     Ok(jac
         .iter()
         .map(|row| row.iter().map(std::string::ToString::to_string).collect())
diff --git a/src/core/poly.rs b/src/core/poly.rs
index dfa69b4..eab8c49 100644
--- a/src/core/poly.rs
+++ b/src/core/poly.rs
@@ -3,7 +3,9 @@
 //! Provides efficient polynomial operations with any expression as base.
 //! The base is stored once; terms are just (power, coefficient) pairs.
 
+use crate::core::symbol::InternedSymbol;
 use crate::core::traits::{EPSILON, is_residue};
+use crate::core::unified_context::Context;
 use crate::{Expr, ExprKind};
 use std::sync::Arc;
 
@@ -589,15 +591,15 @@ impl Polynomial {
     }
 
     /// Differentiate with respect to a variable (chain rule)
-    pub fn derivative_expr(&self, diff_var: &str) -> Expr {
+    pub(crate) fn derivative_expr(&self, diff_var: &InternedSymbol, context: &Context) -> Expr {
         // Get polynomial derivative
         let poly_deriv = self.derivative();
         let poly_expr = poly_deriv.to_expr();
 
         // Check if base contains the differentiation variable
-        if self.base.contains_var(diff_var) {
+        if self.base.contains_var_id(diff_var.id()) {
             // Chain rule: d/dx[P(u)] = P'(u) * u'
-            let u_prime = self.base.derive_raw(diff_var);
+            let u_prime = self.base.derive_by_symbol(diff_var, Some(context));
 
             if u_prime.is_zero_num() {
                 Expr::number(0.0)
diff --git a/src/core/symbol/mod.rs b/src/core/symbol/mod.rs
index 22aacc9..79f7a6c 100644
--- a/src/core/symbol/mod.rs
+++ b/src/core/symbol/mod.rs
@@ -151,11 +151,12 @@ impl Symbol {
     /// Convert to an Expr
     #[must_use]
     pub fn to_expr(&self) -> Expr {
-        // Look up the InternedSymbol from registry
-        lookup_by_id(self.id()).map_or_else(
-            || Expr::from_interned(InternedSymbol::new_anon_with_key(self.0)),
-            Expr::from_interned,
-        )
+        Expr::from_interned(self.interned())
+    }
+
+    /// The symbol as stored in expressions, nameless when it is not in the registry
+    pub(crate) fn interned(self) -> InternedSymbol {
+        lookup_by_id(self.id()).unwrap_or_else(|| InternedSymbol::new_anon_with_key(self.0))
     }
 
     /// Raise to a power (Copy means no clone needed)
diff --git a/src/diff/engine.rs b/src/diff/engine.rs
index 3764c59..8503da4 100644
--- a/src/diff/engine.rs
+++ b/src/diff/engine.rs
@@ -16,8 +16,9 @@
 //! The simplification engine then handles any remaining optimization opportunities.
 
 use crate::core::known_symbols as ks;
+use crate::core::symbol::{InternedSymbol, symb_interned};
 use crate::core::unified_context::Context;
-use crate::{Expr, ExprKind};
+use crate::{Expr, ExprKind, Symbol};
 use std::sync::Arc;
 
 impl Expr {
@@ -49,30 +50,37 @@ impl Expr {
         reason = "Comprehensive differentiation logic handles many expression types"
     )]
     pub fn derive(&self, var: &str, context: Option<&Context>) -> Self {
+        // A symbol of the context goes before the global one of that name
+        let var = context
+            .and_then(|ctx| ctx.get_symbol(var))
+            .filter(|symbol| self.contains_var_id(symbol.id()))
+            .map_or_else(|| symb_interned(var), Symbol::interned);
+
+        self.derive_by_symbol(&var, context)
+    }
+
+    /// Differentiate with respect to a symbol, which need not have a name
+    pub(crate) fn derive_by_symbol(&self, var: &InternedSymbol, context: Option<&Context>) -> Self {
         // Use static empty context for None case to avoid allocation
         static EMPTY_CONTEXT: std::sync::OnceLock<Context> = std::sync::OnceLock::new();
         let ctx = context.unwrap_or_else(|| EMPTY_CONTEXT.get_or_init(Context::new));
 
-        // Intern the var name ONCE for O(1) UID comparisons throughout recursion
-        let var_id = crate::core::symbol::symb_interned(var).id();
-
-        self.derive_impl(var, var_id, ctx)
+        self.derive_impl(var, ctx)
     }
 
-    /// Inner recursive implementation that carries pre-computed `var_id`
-    /// to avoid re-interning the variable name at each node.
+    /// Inner recursive implementation, comparing variables by ID
     #[allow(
         clippy::too_many_lines,
         reason = "Comprehensive differentiation logic handles many expression types"
     )]
-    fn derive_impl(&self, var: &str, var_id: u64, ctx: &Context) -> Self {
+    fn derive_impl(&self, var: &InternedSymbol, ctx: &Context) -> Self {
         match &self.kind {
             // Base cases
             ExprKind::Number(_) => Self::number(0.0),
 
             ExprKind::Symbol(name) => {
                 // d/dx(x) = 1, d/dx(y) = 0 (anything else is constant)
-                if name.id() == var_id {
+                if name == var {
                     Self::number(1.0)
                 } else {
                     Self::number(0.0)
@@ -90,7 +98,7 @@ impl Expr {
 
                 // Special handling for exponential function e^x
                 if name.id() == ks::KS.exp && args.len() == 1 {
-                    let inner_deriv = args[0].derive_impl(var, var_id, ctx);
+                    let inner_deriv = args[0].derive_impl(var, ctx);
                     return Self::mul_expr(
                         Self::func_symbol(ks::get_symbol(ks::KS.exp), (*args[0]).clone()),
                         inner_deriv,
@@ -101,10 +109,8 @@ impl Expr {
                 if let Some(def) = crate::functions::registry::Registry::get_by_symbol(name)
                     && def.validate_arity(args.len())
                 {
-                    let arg_primes: Vec<Self> = args
-                        .iter()
-                        .map(|arg| arg.derive_impl(var, var_id, ctx))
-                        .collect();
+                    let arg_primes: Vec<Self> =
+                        args.iter().map(|arg| arg.derive_impl(var, ctx)).collect();
                     return (def.derivative)(args, &arg_primes);
                 }
 
@@ -114,7 +120,7 @@ impl Expr {
                     let mut terms = Vec::new();
 
                     for (i, arg) in args.iter().enumerate() {
-                        let arg_prime = arg.derive_impl(var, var_id, ctx);
+                        let arg_prime = arg.derive_impl(var, ctx);
 
                         // Skip if derivative is zero
                         if arg_prime.is_zero_num() {
@@ -142,7 +148,7 @@ impl Expr {
                 // Unknown function - symbolic partial derivative using chain rule
                 let mut terms = Vec::new();
                 for (i, arg) in args.iter().enumerate() {
-                    let arg_prime = arg.derive_impl(var, var_id, ctx);
+                    let arg_prime = arg.derive_impl(var, ctx);
                     if arg_prime.is_zero_num() {
                         continue;
                     }
@@ -163,7 +169,7 @@ impl Expr {
             ExprKind::Sum(terms) => {
                 let derivs: Vec<Self> = terms
                     .iter()
-                    .map(|t| t.derive_impl(var, var_id, ctx))
+                    .map(|t| t.derive_impl(var, ctx))
                     .filter(|d| !d.is_zero_num())
                     .collect();
 
@@ -185,7 +191,7 @@ impl Expr {
                     return Self::number(0.0);
                 }
                 if factors.len() == 1 {
-                    return factors[0].derive_impl(var, var_id, ctx);
+                    return factors[0].derive_impl(var, ctx);
                 }
 
                 // Optimization: For large products, use logarithmic differentiation
@@ -194,7 +200,7 @@ impl Expr {
                 if factors.len() > 10 {
                     let mut log_terms = Vec::with_capacity(factors.len());
                     for factor in factors {
-                        let prime = factor.derive_impl(var, var_id, ctx);
+                        let prime = factor.derive_impl(var, ctx);
                         if !prime.is_zero_num() {
                             // term = f' / f
                             log_terms
@@ -219,7 +225,7 @@ impl Expr {
                         continue;
                     }
 
-                    let factor_prime = factors[i].derive_impl(var, var_id, ctx);
+                    let factor_prime = factors[i].derive_impl(var, ctx);
 
                     // Skip zero terms
                     if factor_prime.is_zero_num() {
@@ -260,7 +266,7 @@ impl Expr {
                 // Fast-path 1: Constant numerator (n/f) → -n*f'/f²
                 // Skip computing u' since we know it's 0
                 if let ExprKind::Number(n) = &u.kind {
-                    let v_prime = v.derive_impl(var, var_id, ctx);
+                    let v_prime = v.derive_impl(var, ctx);
                     if v_prime.is_zero_num() {
                         return Self::number(0.0);
                     }
@@ -273,13 +279,13 @@ impl Expr {
                 // Fast-path 2: Constant denominator (u/n) → u'/n
                 // Skip computing v' since we know it's 0
                 if let ExprKind::Number(_) = &v.kind {
-                    let u_prime = u.derive_impl(var, var_id, ctx);
+                    let u_prime = u.derive_impl(var, ctx);
                     return Self::div_from_arcs(Arc::new(u_prime), Arc::clone(v));
                 }
 
                 // General case: compute both derivatives
-                let u_prime = u.derive_impl(var, var_id, ctx);
-                let v_prime = v.derive_impl(var, var_id, ctx);
+                let u_prime = u.derive_impl(var, ctx);
+                let v_prime = v.derive_impl(var, ctx);
 
                 let u_is_zero = u_prime.is_zero_num();
                 let v_is_zero = v_prime.is_zero_num();
@@ -316,8 +322,8 @@ impl Expr {
             // - 1^x: case 2, ln(1)=0 creates 0 term, simplifier handles ✓
             // - x^0: n_minus_1 becomes -1, but final term is 0*u^(-1)*u'=0 via simplifier ✓
             ExprKind::Pow(u, v) => {
-                let u_contains_var = u.contains_var(var);
-                let v_contains_var = v.contains_var(var);
+                let u_contains_var = u.contains_var_id(var.id());
+                let v_contains_var = v.contains_var_id(var.id());
 
                 if !u_contains_var && !v_contains_var {
                     // Both constant
@@ -330,7 +336,7 @@ impl Expr {
                         return Self::number(0.0);
                     }
 
-                    let u_prime = u.derive_impl(var, var_id, ctx);
+                    let u_prime = u.derive_impl(var, ctx);
 
                     if u_prime.is_zero_num() {
                         Self::number(0.0)
@@ -347,7 +353,7 @@ impl Expr {
                     }
                 } else if !u_contains_var {
                     // Case 2: a^v, base is constant
-                    let v_prime = v.derive_impl(var, var_id, ctx);
+                    let v_prime = v.derive_impl(var, ctx);
 
                     if v_prime.is_zero_num() {
                         Self::number(0.0)
@@ -363,8 +369,8 @@ impl Expr {
                     }
                 } else {
                     // Case 3: u^v, both variable - use logarithmic differentiation
-                    let u_prime = u.derive_impl(var, var_id, ctx);
-                    let v_prime = v.derive_impl(var, var_id, ctx);
+                    let u_prime = u.derive_impl(var, ctx);
+                    let v_prime = v.derive_impl(var, ctx);
 
                     let ln_u = Self::func_symbol(ks::get_symbol(ks::KS.ln), (**u).clone());
 
@@ -416,25 +422,29 @@ impl Expr {
                 var: deriv_var,
                 order,
             } => {
-                if deriv_var.id() == var_id {
-                    Self::derivative_interned(inner.as_ref().clone(), deriv_var.clone(), order.saturating_add(1))
-                } else if !inner.contains_var(var) {
+                if deriv_var == var {
+                    Self::derivative_interned(
+                        inner.as_ref().clone(),
+                        deriv_var.clone(),
+                        order.saturating_add(1),
+                    )
+                } else if !inner.contains_var_id(var.id()) {
                     Self::number(0.0)
                 } else {
-                    Self::derivative(
+                    Self::derivative_interned(
                         Self::new(ExprKind::Derivative {
                             inner: Arc::clone(inner),
                             var: deriv_var.clone(),
                             order: *order,
                         }),
-                        var,
+                        var.clone(),
                         1,
                     )
                 }
             }
 
             // Polynomial
-            ExprKind::Poly(poly) => poly.derivative_expr(var),
+            ExprKind::Poly(poly) => poly.derivative_expr(var, ctx),
         }
     }
 
-- 
2.43.0


From 81de4f4089251eb7b004bbd7f3f95eaac42acb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 31/69] fix: substitution, map, fold and size counts reach the
 base of polynomials

---
 src/core/expr/analysis.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/core/expr/analysis.rs b/src/core/expr/analysis.rs
index 2c20232..2e96871 100644
--- a/src/core/expr/analysis.rs
+++ b/src/core/expr/analysis.rs
@@ -97,7 +97,8 @@ impl Expr {
             ExprKind::Div(l, r) | ExprKind::Pow(l, r) => 1 + l.node_count() + r.node_count(),
             ExprKind::Derivative { inner, .. } => 1 + inner.node_count(),
             // Poly is counted as 1 node + its expanded form
-            ExprKind::Poly(poly) => 1 + poly.terms().len(),
+            // A base that is more than a symbol or number is counted once
+            ExprKind::Poly(poly) => poly.terms().len() + poly.base().node_count(),
         }
     }
 
@@ -115,7 +116,7 @@ impl Expr {
             }
             ExprKind::Div(l, r) | ExprKind::Pow(l, r) => 1 + l.max_depth().max(r.max_depth()),
             ExprKind::Derivative { inner, .. } => 1 + inner.max_depth(),
-            ExprKind::Poly(_) => 2, // Poly is shallow: one level for poly, one for terms
+            ExprKind::Poly(poly) => 1 + poly.base().max_depth(),
         }
     }
 
@@ -358,7 +359,8 @@ impl Expr {
     {
         let acc = f(init, self);
         match &self.kind {
-            ExprKind::Number(_) | ExprKind::Symbol(_) | ExprKind::Poly(_) => acc, // Poly is opaque for folding
+            ExprKind::Number(_) | ExprKind::Symbol(_) => acc,
+            ExprKind::Poly(poly) => poly.base().fold(acc, f), // The terms are opaque, the base is not
             ExprKind::FunctionCall { args, .. } => args.iter().fold(acc, |a, arg| arg.fold(a, f)),
             ExprKind::Sum(terms) => terms.iter().fold(acc, |a, t| t.fold(a, f)),
             ExprKind::Product(factors) => factors.iter().fold(acc, |a, f_| f_.fold(a, f)),
@@ -400,8 +402,13 @@ impl Expr {
                 Self::derivative(inner.map(f), var.clone(), *order)
             }
             ExprKind::Poly(poly) => {
-                // Poly is opaque for mapping - just clone
-                Self::new(ExprKind::Poly(poly.clone()))
+                // The terms are opaque for mapping, the base they share is not
+                let base = poly.base().map(f);
+                if base == **poly.base() {
+                    Self::new(ExprKind::Poly(poly.clone()))
+                } else {
+                    poly.with_base(Arc::new(base)).to_expr()
+                }
             }
         };
         f(&transformed)
-- 
2.43.0


From 8fe5554ceb1e960be07a38b0289dd9d7f24f9ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 32/69] fix: contains_var finds symbols of contexts that share
 their name with a global symbol

---
 src/core/expr/analysis.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/core/expr/analysis.rs b/src/core/expr/analysis.rs
index 2e96871..98f056c 100644
--- a/src/core/expr/analysis.rs
+++ b/src/core/expr/analysis.rs
@@ -147,14 +147,12 @@ impl Expr {
     #[must_use]
     pub fn contains_var(&self, var: &str) -> bool {
         // Try to look up the symbol ID first for O(1) comparison
-        crate::core::symbol::symb_get(var).map_or_else(
-            |_| self.contains_var_str(var),
-            |sym| self.contains_var_id(sym.id()),
-        )
+        crate::core::symbol::symb_get(var).is_ok_and(|sym| self.contains_var_id(sym.id()))
+            || self.contains_var_str(var)
     }
 
     /// Check if the expression contains a specific variable (by name string match)
-    /// This is used as a fallback when the symbol isn't in the global registry
+    /// This is used as a fallback for symbols that aren't in the global registry
     #[inline]
     fn contains_var_str(&self, var: &str) -> bool {
         match &self.kind {
-- 
2.43.0


From eba24793d0ff6d649f5d71f0e5f7988a98157cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:24 +0000
Subject: [PATCH 33/69] fix: asymmetric covariance matrices of small entries
 are rejected (tolerance is relative)

---
 src/uncertainty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uncertainty.rs b/src/uncertainty.rs
index db54974..9aafd1b 100644
--- a/src/uncertainty.rs
+++ b/src/uncertainty.rs
@@ -94,7 +94,7 @@ impl CovarianceMatrix {
         for (i, row_i) in entries.iter().enumerate() {
             for (j, entry_ij) in row_i.iter().enumerate().skip(i.saturating_add(1)) {
                 if let (CovEntry::Num(a), CovEntry::Num(b)) = (entry_ij, &entries[j][i])
-                    && (a - b).abs() >= EPSILON
+                    && (a - b).abs() > EPSILON * a.abs().max(b.abs())
                 {
                     return Err(DiffError::UnsupportedOperation(format!(
                         "Covariance matrix must be symmetric: Cov[{i}][{j}]={a} != Cov[{j}][{i}]={b}"
-- 
2.43.0


From f91c0426a83f8c45a515969d6f6998cd7e09ad04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:24 +0000
Subject: [PATCH 34/69] fix: standard deviations stay non-negative for negative
 variables

---
 src/uncertainty.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/uncertainty.rs b/src/uncertainty.rs
index 9aafd1b..6600c65 100644
--- a/src/uncertainty.rs
+++ b/src/uncertainty.rs
@@ -14,7 +14,7 @@
 
 use crate::core::known_symbols as ks;
 use crate::core::traits::EPSILON;
-use crate::{Diff, DiffError, Expr};
+use crate::{Diff, DiffError, Expr, Simplify};
 #[cfg(feature = "parallel")]
 use rayon::iter::{IntoParallelRefIterator, ParallelIterator};
 
@@ -281,10 +281,12 @@ pub fn uncertainty_propagation(
     let variance = Expr::sum(terms);
 
     // Simplify the variance, then wrap in sqrt for σ_f = sqrt(σ_f²)
-    let simplified_variance = variance.simplified()?;
+    // (only in ways that hold for either sign of the variables, as σ_f is never negative)
+    let simplify = Simplify::new().domain_safe(true);
+    let simplified_variance = simplify.simplify(&variance)?;
     let std_dev = Expr::func_symbol(ks::get_symbol(ks::KS.sqrt), simplified_variance);
 
-    std_dev.simplified()
+    simplify.simplify(&std_dev)
 }
 
 /// Compute relative uncertainty expression: `σ_f` / |f|
-- 
2.43.0


From 32dbe1929e9039b30ae20d5479c78cdaa7d7b98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 35/69] fix: substitution replaces context symbols of the given
 name too

---
 src/core/expr/analysis.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/expr/analysis.rs b/src/core/expr/analysis.rs
index 98f056c..322246d 100644
--- a/src/core/expr/analysis.rs
+++ b/src/core/expr/analysis.rs
@@ -415,10 +415,10 @@ impl Expr {
     /// Substitute a variable with another expression
     #[must_use]
     pub fn substitute(&self, var: &str, replacement: &Self) -> Self {
-        let var_id = crate::core::symbol::symb_interned(var).id();
+        // By name, as symbols of a context have identities of their own
         self.map(|node| {
             if let ExprKind::Symbol(s) = &node.kind
-                && s.id() == var_id
+                && s.name() == Some(var)
             {
                 return replacement.clone();
             }
-- 
2.43.0


From a481c1423ab9619490b1ce645a6ff4fc9d74886e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:45 +0000
Subject: [PATCH 36/69] fix: derivatives of unknown functions keep their
 variable's identity when rebuilt

---
 src/core/expr/analysis.rs | 4 ++--
 src/core/expr/evaluate.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/expr/analysis.rs b/src/core/expr/analysis.rs
index 322246d..e8bbcab 100644
--- a/src/core/expr/analysis.rs
+++ b/src/core/expr/analysis.rs
@@ -268,7 +268,7 @@ impl Expr {
                 Self::pow_static(a.as_ref().deep_clone(), b.as_ref().deep_clone())
             }
             ExprKind::Derivative { inner, var, order } => {
-                Self::derivative(inner.as_ref().deep_clone(), var.clone(), *order)
+                Self::derivative_interned(inner.as_ref().deep_clone(), var.clone(), *order)
             }
             ExprKind::Poly(poly) => {
                 // For performance, Poly is not recursively deep-cloned.
@@ -397,7 +397,7 @@ impl Expr {
             ExprKind::Div(a, b) => Self::div_expr(a.map(f), b.map(f)),
             ExprKind::Pow(a, b) => Self::pow_static(a.map(f), b.map(f)),
             ExprKind::Derivative { inner, var, order } => {
-                Self::derivative(inner.map(f), var.clone(), *order)
+                Self::derivative_interned(inner.map(f), var.clone(), *order)
             }
             ExprKind::Poly(poly) => {
                 // The terms are opaque for mapping, the base they share is not
diff --git a/src/core/expr/evaluate.rs b/src/core/expr/evaluate.rs
index c15c46f..247aa21 100644
--- a/src/core/expr/evaluate.rs
+++ b/src/core/expr/evaluate.rs
@@ -235,7 +235,7 @@ impl Expr {
                 }
             }
             ExprKind::Derivative { inner, var, order } => {
-                Self::derivative(inner.evaluate(vars, custom_evals), var.clone(), *order)
+                Self::derivative_interned(inner.evaluate(vars, custom_evals), var.clone(), *order)
             }
             ExprKind::Poly(poly) => {
                 let base_result = poly.base().evaluate(vars, custom_evals);
-- 
2.43.0


From f92cc03d0fc92a8b379c11c3795829a8274616c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 37/69] fix: bodies and partial derivatives are used only for
 calls with a declared number of arguments

---
 src/api/builder.rs                      | 21 ++++++++-------------
 src/diff/engine.rs                      |  4 +++-
 src/simplification/engine.rs            |  2 +-
 src/simplification/mod.rs               | 15 +++++++--------
 src/simplification/rules/mod.rs         | 17 +++++++++++++----
 src/simplification/rules/numeric/mod.rs | 11 ++---------
 6 files changed, 34 insertions(+), 36 deletions(-)

diff --git a/src/api/builder.rs b/src/api/builder.rs
index 5f9657c..6ff51ff 100644
--- a/src/api/builder.rs
+++ b/src/api/builder.rs
@@ -22,7 +22,6 @@ use crate::evaluator::ToParamName;
 use crate::{DiffError, Expr, Symbol, parser, simplification};
 use std::collections::HashMap;
 use std::collections::HashSet;
-use std::sync::Arc;
 
 /// Builder for differentiation operations
 #[derive(Clone, Default)]
@@ -138,15 +137,13 @@ impl Diff {
         self.user_fns.keys().cloned().collect()
     }
 
-    /// Build body functions map for simplification
+    /// Build the map of custom functions for simplification
     fn build_bodies_map(&self) -> simplification::CustomBodyMap {
         self.user_fns
             .iter()
-            .filter_map(|(name, func)| {
-                func.body.as_ref().map(|b| {
-                    let id = crate::core::symbol::symb_interned(name).id();
-                    (id, Arc::clone(b))
-                })
+            .map(|(name, func)| {
+                let id = crate::core::symbol::symb_interned(name).id();
+                (id, func.clone())
             })
             .collect()
     }
@@ -377,15 +374,13 @@ impl Simplify {
         self.user_fns.keys().cloned().collect()
     }
 
-    /// Build body functions map for simplification
+    /// Build the map of custom functions for simplification
     fn build_bodies_map(&self) -> simplification::CustomBodyMap {
         self.user_fns
             .iter()
-            .filter_map(|(name, func)| {
-                func.body.as_ref().map(|b| {
-                    let id = crate::core::symbol::symb_interned(name).id();
-                    (id, Arc::clone(b))
-                })
+            .map(|(name, func)| {
+                let id = crate::core::symbol::symb_interned(name).id();
+                (id, func.clone())
             })
             .collect()
     }
diff --git a/src/diff/engine.rs b/src/diff/engine.rs
index 8503da4..78a867c 100644
--- a/src/diff/engine.rs
+++ b/src/diff/engine.rs
@@ -115,7 +115,9 @@ impl Expr {
                 }
 
                 // Check for user-defined function partials in context
-                if let Some(user_fn) = ctx.get_user_fn_by_id(name.id()) {
+                if let Some(user_fn) = ctx.get_user_fn_by_id(name.id())
+                    && user_fn.accepts_arity(args.len())
+                {
                     // Multi-arg chain rule: dF/dx = Σ (∂F/∂arg[i]) * (darg[i]/dx)
                     let mut terms = Vec::new();
 
diff --git a/src/simplification/engine.rs b/src/simplification/engine.rs
index acfa1a4..203941e 100644
--- a/src/simplification/engine.rs
+++ b/src/simplification/engine.rs
@@ -200,7 +200,7 @@ impl Simplifier {
     /// Sets custom function bodies.
     pub fn with_custom_bodies(
         mut self,
-        custom_bodies: HashMap<u64, crate::core::unified_context::BodyFn>,
+        custom_bodies: HashMap<u64, crate::core::unified_context::UserFunction>,
     ) -> Self {
         self.context = self.context.with_custom_bodies(custom_bodies);
         self
diff --git a/src/simplification/mod.rs b/src/simplification/mod.rs
index a69111b..4d3dd06 100644
--- a/src/simplification/mod.rs
+++ b/src/simplification/mod.rs
@@ -5,13 +5,12 @@ mod patterns;
 pub mod rules;
 
 use crate::Expr;
-use crate::core::unified_context::{BodyFn, Context};
+use crate::core::unified_context::{Context, UserFunction};
 
 use std::collections::{HashMap, HashSet};
-use std::sync::Arc;
 
-/// Type alias for custom body function map (symbolic expansion)
-pub type CustomBodyMap = HashMap<u64, BodyFn>;
+/// Type alias for custom function map (symbolic expansion of the bodies)
+pub type CustomBodyMap = HashMap<u64, UserFunction>;
 
 /// Simplify an expression with user-specified options
 ///
@@ -19,10 +18,10 @@ pub type CustomBodyMap = HashMap<u64, BodyFn>;
 /// - `expr`: The expression to simplify
 /// - `_known_symbols`: (Deprecated/Unused) Previously used for parsing hints.
 ///   Constants like 'e' are now always handled consistently via UIDs.
-/// - `custom_bodies`: Map of custom function bodies for numeric evaluation
+/// - `custom_bodies`: Map of custom functions, whose bodies replace their calls
 /// - `max_depth`: maximum tree depth during simplification (None = use default 50)
 /// - `max_iterations`: maximum simplification iterations (None = use default 1000)
-/// - `context`: optional unified Context (merges its function bodies)
+/// - `context`: optional unified Context (merges its functions; `custom_bodies` go first)
 /// - `domain_safe`: if true, avoids transformations that can change expression domain
 pub fn simplify_expr(
     expr: Expr,
@@ -38,8 +37,8 @@ pub fn simplify_expr(
         // Context symbols are parsing hints, not simplification constants
         // But we still merge function bodies
         for id in ctx.fn_name_to_id().values() {
-            if let Some(body) = ctx.get_body_by_id(*id) {
-                custom_bodies.insert(*id, Arc::clone(body));
+            if let Some(function) = ctx.get_user_fn_by_id(*id) {
+                custom_bodies.entry(*id).or_insert_with(|| function.clone());
             }
         }
     }
diff --git a/src/simplification/rules/mod.rs b/src/simplification/rules/mod.rs
index 8779b88..15b5c16 100644
--- a/src/simplification/rules/mod.rs
+++ b/src/simplification/rules/mod.rs
@@ -5,7 +5,7 @@
 
 use crate::Expr;
 use crate::ExprKind as AstKind;
-use crate::core::unified_context::BodyFn;
+use crate::core::unified_context::UserFunction;
 use std::collections::HashMap;
 use std::sync::Arc;
 
@@ -453,8 +453,8 @@ pub struct RuleContext {
     pub depth: usize,
     /// Whether to apply only domain-safe transformations
     pub domain_safe: bool,
-    /// Custom function body definitions
-    pub custom_bodies: Arc<HashMap<u64, BodyFn>>,
+    /// Custom function definitions
+    pub custom_bodies: Arc<HashMap<u64, UserFunction>>,
 }
 
 impl std::fmt::Debug for RuleContext {
@@ -478,10 +478,19 @@ impl RuleContext {
     }
 
     /// Sets the custom function bodies for this context.
-    pub fn with_custom_bodies(mut self, custom_bodies: HashMap<u64, BodyFn>) -> Self {
+    pub fn with_custom_bodies(mut self, custom_bodies: HashMap<u64, UserFunction>) -> Self {
         self.custom_bodies = Arc::new(custom_bodies);
         self
     }
+
+    /// Expand a call of a custom function, if it has a body for that many arguments.
+    pub fn expand_custom_body(&self, id: u64, args: &[Arc<Expr>]) -> Option<Expr> {
+        let function = self
+            .custom_bodies
+            .get(&id)
+            .filter(|function| function.accepts_arity(args.len()))?;
+        function.body.as_ref().map(|body| body(args))
+    }
 }
 
 /// Numeric simplification rules
diff --git a/src/simplification/rules/numeric/mod.rs b/src/simplification/rules/numeric/mod.rs
index 873b882..79ac0e6 100644
--- a/src/simplification/rules/numeric/mod.rs
+++ b/src/simplification/rules/numeric/mod.rs
@@ -556,11 +556,7 @@ rule!(
                     numeric_args.push(*n);
                 } else {
                     // Not all numeric - check if we have a body to expand symbolically
-                    if let Some(body_fn) = context.custom_bodies.get(&name.id()) {
-                        // Expand the function body with the given arguments
-                        return Some(body_fn(args));
-                    }
-                    return None;
+                    return context.expand_custom_body(name.id(), args);
                 }
             }
 
@@ -585,10 +581,7 @@ rule!(
             }
 
             // Fallback: check custom_bodies in context and expand symbolically
-            if let Some(body_fn) = context.custom_bodies.get(&name.id()) {
-                // Expand the function body with the given arguments
-                return Some(body_fn(args));
-            }
+            return context.expand_custom_body(name.id(), args);
         }
         None
     }
-- 
2.43.0


From 71ab8c1d8677a8b493ee88cd879e2a5e28eaa652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 38/69] fix: Simplify and Diff use the function bodies of their
 context

---
 src/api/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/builder.rs b/src/api/builder.rs
index 6ff51ff..a439387 100644
--- a/src/api/builder.rs
+++ b/src/api/builder.rs
@@ -214,7 +214,7 @@ impl Diff {
             self.build_bodies_map(),
             self.max_depth,
             None,
-            None,
+            self.context.as_ref(),
             self.domain_safe,
         );
 
@@ -409,7 +409,7 @@ impl Simplify {
             self.build_bodies_map(),
             self.max_depth,
             None,
-            None,
+            self.context.as_ref(),
             self.domain_safe,
         );
 
-- 
2.43.0


From fb9ca725c19f7522d3c605d22b15fcaaadfedb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:41 +0000
Subject: [PATCH 39/69] fix: function bodies are expanded below any depth and
 inside polynomials when compiling

---
 src/evaluator/mod.rs | 51 +++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/evaluator/mod.rs b/src/evaluator/mod.rs
index 2c03399..d4542ea 100644
--- a/src/evaluator/mod.rs
+++ b/src/evaluator/mod.rs
@@ -223,13 +223,16 @@ impl CompiledEvaluator {
         let (param_ids, param_names): (Vec<u64>, Vec<String>) = params.into_iter().unzip();
 
         // Expand user function calls with their body expressions
-        let expanded_expr = context.map_or_else(
-            || expr.clone(),
-            |ctx| {
-                let mut expanding = std::collections::HashSet::new();
-                Self::expand_user_functions(expr, ctx, &mut expanding, 0)
-            },
-        );
+        // (if the context has no user-defined functions with bodies, there is nothing to expand)
+        let expanded_expr = context
+            .filter(|ctx| ctx.has_expandable_functions())
+            .map_or_else(
+                || expr.clone(),
+                |ctx| {
+                    let mut expanding = std::collections::HashSet::new();
+                    Self::expand_user_functions(expr, ctx, &mut expanding, 0)
+                },
+            );
 
         let mut compiler = Compiler::new(&param_ids, context);
 
@@ -907,7 +910,8 @@ impl CompiledEvaluator {
     ///
     /// - The `expanding` set tracks functions currently being expanded to prevent
     ///   infinite recursion from self-referential or mutually recursive functions.
-    /// - The `depth` parameter limits recursion depth to prevent stack overflow.
+    /// - The `depth` parameter, the number of bodies around `expr`, is limited to prevent
+    ///   stack overflow.
     fn expand_user_functions(
         expr: &Expr,
         ctx: &Context,
@@ -921,19 +925,13 @@ impl CompiledEvaluator {
             return expr.clone();
         }
 
-        // Fast path: if the context has no user-defined functions with bodies,
-        // there's nothing to expand — skip the entire recursive traversal.
-        if depth == 0 && !ctx.has_expandable_functions() {
-            return expr.clone();
-        }
-
         match &expr.kind {
             ExprKind::Number(_) | ExprKind::Symbol(_) => expr.clone(),
 
             ExprKind::Sum(terms) => {
                 let expanded: Vec<Expr> = terms
                     .iter()
-                    .map(|t| Self::expand_user_functions(t, ctx, expanding, depth + 1))
+                    .map(|t| Self::expand_user_functions(t, ctx, expanding, depth))
                     .collect();
                 Expr::sum(expanded)
             }
@@ -941,20 +939,20 @@ impl CompiledEvaluator {
             ExprKind::Product(factors) => {
                 let expanded: Vec<Expr> = factors
                     .iter()
-                    .map(|f| Self::expand_user_functions(f, ctx, expanding, depth + 1))
+                    .map(|f| Self::expand_user_functions(f, ctx, expanding, depth))
                     .collect();
                 Expr::product(expanded)
             }
 
             ExprKind::Div(num, den) => {
-                let num_exp = Self::expand_user_functions(num, ctx, expanding, depth + 1);
-                let den_exp = Self::expand_user_functions(den, ctx, expanding, depth + 1);
+                let num_exp = Self::expand_user_functions(num, ctx, expanding, depth);
+                let den_exp = Self::expand_user_functions(den, ctx, expanding, depth);
                 Expr::div_expr(num_exp, den_exp)
             }
 
             ExprKind::Pow(base, exp) => {
-                let base_exp = Self::expand_user_functions(base, ctx, expanding, depth + 1);
-                let exp_exp = Self::expand_user_functions(exp, ctx, expanding, depth + 1);
+                let base_exp = Self::expand_user_functions(base, ctx, expanding, depth);
+                let exp_exp = Self::expand_user_functions(exp, ctx, expanding, depth);
                 Expr::pow_static(base_exp, exp_exp)
             }
 
@@ -962,7 +960,7 @@ impl CompiledEvaluator {
                 // First expand arguments
                 let expanded_args: Vec<Expr> = args
                     .iter()
-                    .map(|a| Self::expand_user_functions(a, ctx, expanding, depth + 1))
+                    .map(|a| Self::expand_user_functions(a, ctx, expanding, depth))
                     .collect();
 
                 let fn_id = name.id();
@@ -990,12 +988,17 @@ impl CompiledEvaluator {
             }
 
             ExprKind::Poly(poly) => {
-                let poly_expr = poly.to_expr();
-                Self::expand_user_functions(&poly_expr, ctx, expanding, depth + 1)
+                // (as a sum the terms could turn into the same polynomial again)
+                let base = Self::expand_user_functions(poly.base(), ctx, expanding, depth);
+                if base == **poly.base() {
+                    expr.clone()
+                } else {
+                    poly.with_base(Arc::new(base)).to_expr()
+                }
             }
 
             ExprKind::Derivative { inner, var, order } => {
-                let expanded_inner = Self::expand_user_functions(inner, ctx, expanding, depth + 1);
+                let expanded_inner = Self::expand_user_functions(inner, ctx, expanding, depth);
                 Expr::derivative_interned(expanded_inner, var.clone(), *order)
             }
         }
-- 
2.43.0


From 9a3394b6c40bf8dbf16ce19d0012c1ae68a116f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:15 +0000
Subject: [PATCH 40/69] fix: simplification reaches the base of polynomials

---
 src/simplification/engine.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/simplification/engine.rs b/src/simplification/engine.rs
index 203941e..3a21db1 100644
--- a/src/simplification/engine.rs
+++ b/src/simplification/engine.rs
@@ -345,6 +345,17 @@ impl Simplifier {
                     self.apply_rules_to_node(expr, depth)
                 }
             }
+            AstKind::Poly(poly) => {
+                // The terms are kept as they are, the base they share is simplified
+                let base = poly.base_arc();
+                let simplified = self.apply_rules_bottom_up(Arc::clone(&base), depth + 1);
+                if Arc::ptr_eq(&simplified, &base) {
+                    self.apply_rules_to_node(expr, depth)
+                } else {
+                    let new_expr = Arc::new(poly.with_base(simplified).to_expr());
+                    self.apply_rules_to_node(new_expr, depth)
+                }
+            }
             _ => self.apply_rules_to_node(expr, depth),
         }
     }
-- 
2.43.0


From ade259dbd5e3ba710c1020a09b1086b8b043f0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 41/69] fix: simplification stops when functions that call
 themselves expand without end

---
 src/simplification/engine.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/simplification/engine.rs b/src/simplification/engine.rs
index 3a21db1..7849c50 100644
--- a/src/simplification/engine.rs
+++ b/src/simplification/engine.rs
@@ -121,6 +121,9 @@ macro_rules! trace_log {
 /// Default cache capacity per rule before clearing (10K entries)
 const DEFAULT_CACHE_CAPACITY: usize = 10_000;
 
+/// Simplification stops once the expansion of custom functions has grown beyond this size
+const MAX_EXPANDED_NODES: usize = 10_000;
+
 /// Check if tracing is enabled via environment variable (cached)
 fn trace_enabled() -> bool {
     static TRACE: OnceLock<bool> = OnceLock::new();
@@ -211,6 +214,10 @@ impl Simplifier {
         // Set domain_safe on context once (apply_rules_to_node will only update depth)
         self.context.domain_safe = self.domain_safe;
 
+        let expands = self.context.custom_bodies.values().any(|f| f.has_body());
+        let node_limit =
+            expands.then(|| MAX_EXPANDED_NODES.max(expr.node_count().saturating_mul(2)));
+
         let mut current = Arc::new(expr);
         let mut iterations = 0;
         // Use full expression storage for cycle detection to handle hash collisions safely.
@@ -233,6 +240,11 @@ impl Simplifier {
 
             trace_log!("[DEBUG] Iteration {iterations}: {original} -> {current}");
 
+            // Functions that call themselves can expand without end, doubling every time
+            if node_limit.is_some_and(|limit| current.node_count() > limit) {
+                break;
+            }
+
             // Cycle detection: Check if we've seen this exact expression before.
             //
             // If we see the same expression twice, we're in a simplification cycle where
-- 
2.43.0


From 3e92f999f7dfc8a87aee8b16c3fdcd2933b2c51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:47 +0000
Subject: [PATCH 42/69] fix: derivative of the remainder of dual numbers

a % b is a - b*trunc(a/b): the derivative between the jumps is a' - b'*trunc(a/b), not 0.
---
 src/math/dual.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/math/dual.rs b/src/math/dual.rs
index 17a0660..ace0ec8 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -131,11 +131,10 @@ impl<T: MathScalar> Neg for Dual<T> {
 impl<T: MathScalar> Rem for Dual<T> {
     type Output = Self;
     fn rem(self, rhs: Self) -> Self {
-        // IMPORTANT: The remainder operation is NOT differentiable!
-        // It's discontinuous at integer multiples of the divisor.
-        // The derivative is technically 0 almost everywhere, but undefined at jumps.
-        // For AD purposes, we set eps = 0 to indicate non-differentiability.
-        Self::new(self.val % rhs.val, T::zero())
+        // a % b = a - b * trunc(a/b), where the quotient is constant between the jumps
+        // (at integer multiples of the divisor the remainder is not differentiable)
+        let quotient = (self.val / rhs.val).trunc();
+        Self::new(self.val % rhs.val, self.eps - rhs.eps * quotient)
     }
 }
 
-- 
2.43.0


From f1e36c4cd9df59437d226cfbf3f167e90c43f254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:47 +0000
Subject: [PATCH 43/69] fix: powf and powi of dual numbers at zero and negative
 bases

powf went through exp(n*ln(x)), NaN for x <= 0; powi(x, 0) gave NaN at x = 0 and
powi overflowed at i32::MIN.
---
 src/math/dual.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/math/dual.rs b/src/math/dual.rs
index ace0ec8..30e5ac0 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -402,13 +402,29 @@ impl<T: MathScalar + Float> Float for Dual<T> {
     fn powi(self, n: i32) -> Self {
         let n_t = T::from(n).expect("T::from conversion failed");
         let val_pow = self.val.powi(n);
-        let val_pow_minus_1 = self.val.powi(n - 1);
+        if n == 0 {
+            return Self::constant(val_pow);
+        }
+        let val_pow_minus_1 = n
+            .checked_sub(1)
+            .map_or_else(|| val_pow / self.val, |m| self.val.powi(m));
         Self::new(val_pow, self.eps * n_t * val_pow_minus_1)
     }
 
     fn powf(self, n: Self) -> Self {
-        // x^y = exp(y * ln(x))
-        (n * self.ln()).exp()
+        let val = self.val.powf(n.val);
+        let eps = if n.eps.is_zero() {
+            // Constant exponent: y * x^(y-1), also for x <= 0
+            if n.val.is_zero() {
+                T::zero()
+            } else {
+                self.eps * n.val * self.val.powf(n.val - T::one())
+            }
+        } else {
+            // x^y * (y' * ln(x) + y * x'/x)
+            val * (n.eps * self.val.ln() + n.val * self.eps / self.val)
+        };
+        Self::new(val, eps)
     }
 
     fn sqrt(self) -> Self {
-- 
2.43.0


From 34b83771149e594fc1efd07677f063fc49177807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:47 +0000
Subject: [PATCH 44/69] fix: log2 and log10 of dual numbers carry the plain
 value

ln(1000)/ln(10) is 2.999..., so floor(log10(x)) differed from the plain evaluation.
---
 src/math/dual.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/dual.rs b/src/math/dual.rs
index 30e5ac0..015cc1a 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -459,11 +459,11 @@ impl<T: MathScalar + Float> Float for Dual<T> {
     }
 
     fn log2(self) -> Self {
-        self.ln() / Self::constant(T::LN_2())
+        Self::new(self.val.log2(), self.eps / (self.val * T::LN_2()))
     }
 
     fn log10(self) -> Self {
-        self.ln() / Self::constant(T::LN_10())
+        Self::new(self.val.log10(), self.eps / (self.val * T::LN_10()))
     }
 
     fn max(self, other: Self) -> Self {
-- 
2.43.0


From 655d09e1f714c71218457a661a4cacf326c9bcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:47 +0000
Subject: [PATCH 45/69] fix: max and min of dual numbers ignore NaN like plain
 ones

---
 src/math/dual.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/math/dual.rs b/src/math/dual.rs
index 015cc1a..933acf6 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -467,11 +467,20 @@ impl<T: MathScalar + Float> Float for Dual<T> {
     }
 
     fn max(self, other: Self) -> Self {
-        if self.val > other.val { self } else { other }
+        // (like `f64::max`, the other one if one is NaN)
+        if self.val > other.val || other.val.is_nan() {
+            self
+        } else {
+            other
+        }
     }
 
     fn min(self, other: Self) -> Self {
-        if self.val < other.val { self } else { other }
+        if self.val < other.val || other.val.is_nan() {
+            self
+        } else {
+            other
+        }
     }
 
     fn abs_sub(self, other: Self) -> Self {
-- 
2.43.0


From 4b2339c8221ab72802d97b38d9ea5131e8c9a5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:47 +0000
Subject: [PATCH 46/69] fix: hypot, exp_m1 and ln_1p of dual numbers keep range
 and accuracy

hypot overflowed for arguments above 1e154; exp_m1 and ln_1p lost all digits near 0.
---
 src/math/dual.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/math/dual.rs b/src/math/dual.rs
index 933acf6..3e95d38 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -499,7 +499,9 @@ impl<T: MathScalar + Float> Float for Dual<T> {
     }
 
     fn hypot(self, other: Self) -> Self {
-        (self * self + other * other).sqrt()
+        let val = self.val.hypot(other.val);
+        let eps = self.val / val * self.eps + other.val / val * other.eps;
+        Self::new(val, eps)
     }
 
     // Trig
@@ -548,11 +550,11 @@ impl<T: MathScalar + Float> Float for Dual<T> {
     }
 
     fn exp_m1(self) -> Self {
-        self.exp() - Self::one()
+        Self::new(self.val.exp_m1(), self.eps * self.val.exp())
     }
 
     fn ln_1p(self) -> Self {
-        (self + Self::one()).ln()
+        Self::new(self.val.ln_1p(), self.eps / (T::one() + self.val))
     }
 
     fn sinh(self) -> Self {
-- 
2.43.0


From a36ee3b89f94ad84670fb385250afac88d3571a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:47 +0000
Subject: [PATCH 47/69] fix: exact derivatives of the elliptic integrals of
 dual numbers

Finite differences left 1e-8 relative errors and gave infinity or None close to |k| = 1.
---
 src/math/dual.rs | 47 +++++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/math/dual.rs b/src/math/dual.rs
index 3e95d38..efb3e9b 100644
--- a/src/math/dual.rs
+++ b/src/math/dual.rs
@@ -722,34 +722,49 @@ impl<T: MathScalar> Dual<T> {
     }
 
     /// Elliptic integral of the first kind: K(k)
-    /// Uses numerical differentiation since analytical is complex
+    /// d/dk K(k) = E(k)/(k(1-k²)) - K(k)/k
     ///
     /// # Panics
     /// Panics only if internal invariants are violated (never in normal use with f64).
     pub fn elliptic_k(self) -> Option<Self> {
-        let val = crate::math::eval_elliptic_k(self.val)?;
-        // Numerical derivative via finite difference
-        let h = T::from(1e-8).expect("T::from conversion failed");
-        let val_plus = crate::math::eval_elliptic_k(self.val + h)?;
-        let val_minus = crate::math::eval_elliptic_k(self.val - h)?;
-        let two = T::from(2.0).expect("T::from conversion failed");
-        let deriv = (val_plus - val_minus) / (two * h);
+        let k = self.val;
+        let val = crate::math::eval_elliptic_k(k)?;
+        let deriv = if k.abs() < T::from(0.01).expect("T::from conversion failed") {
+            // K'(k) = π/2 (k/2 + 9k³/16 + 75k⁵/128 + …)
+            let (c1, c3, c5) = (
+                T::from(0.5).expect("T::from conversion failed"),
+                T::from(9.0 / 16.0).expect("T::from conversion failed"),
+                T::from(75.0 / 128.0).expect("T::from conversion failed"),
+            );
+            let k2 = k * k;
+            T::FRAC_PI_2() * k * (c1 + k2 * (c3 + k2 * c5))
+        } else {
+            let e = crate::math::eval_elliptic_e(k)?;
+            e / (k * (T::one() - k * k)) - val / k
+        };
         Some(Self::new(val, self.eps * deriv))
     }
 
     /// Elliptic integral of the second kind: E(k)
-    /// Uses numerical differentiation since analytical is complex
+    /// d/dk E(k) = (E(k) - K(k))/k
     ///
     /// # Panics
     /// Panics only if internal invariants are violated (never in normal use with f64).
     pub fn elliptic_e(self) -> Option<Self> {
-        let val = crate::math::eval_elliptic_e(self.val)?;
-        // Numerical derivative via finite difference
-        let h = T::from(1e-8).expect("T::from conversion failed");
-        let val_plus = crate::math::eval_elliptic_e(self.val + h)?;
-        let val_minus = crate::math::eval_elliptic_e(self.val - h)?;
-        let two = T::from(2.0).expect("T::from conversion failed");
-        let deriv = (val_plus - val_minus) / (two * h);
+        let k = self.val;
+        let val = crate::math::eval_elliptic_e(k)?;
+        let deriv = if k.abs() < T::from(0.01).expect("T::from conversion failed") {
+            // E'(k) = -π/2 (k/2 + 3k³/16 + 15k⁵/128 + …)
+            let (c1, c3, c5) = (
+                T::from(0.5).expect("T::from conversion failed"),
+                T::from(3.0 / 16.0).expect("T::from conversion failed"),
+                T::from(15.0 / 128.0).expect("T::from conversion failed"),
+            );
+            let k2 = k * k;
+            -T::FRAC_PI_2() * k * (c1 + k2 * (c3 + k2 * c5))
+        } else {
+            (val - crate::math::eval_elliptic_k(k)?) / k
+        };
         Some(Self::new(val, self.eps * deriv))
     }
 
-- 
2.43.0


From 91ecf712ab8ef7f729a3704b5465505971dcd8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:02 +0000
Subject: [PATCH 48/69] fix: evaluate_parallel puts in all values of a row at
 once

Expressions were substituted one after the other, so x = y, y = x did not swap, a symbolic
value mentioning another variable of the row was overwritten, and the result depended on the
order of the variables. Anonymous symbols given as variables were never replaced at all.
---
 src/bindings/parallel.rs | 56 +++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/src/bindings/parallel.rs b/src/bindings/parallel.rs
index 7e78a4d..7a1a112 100644
--- a/src/bindings/parallel.rs
+++ b/src/bindings/parallel.rs
@@ -29,7 +29,9 @@
 //! # }
 //! ```
 
-use crate::{DiffError, Expr, parser};
+use crate::core::symbol::InternedSymbol;
+use crate::evaluator::ToParamName;
+use crate::{DiffError, Expr, ExprKind, parser};
 use rayon::prelude::*;
 use std::collections::HashMap;
 use std::collections::HashSet;
@@ -97,6 +99,21 @@ impl VarInput {
     pub fn as_str(&self) -> &str {
         &self.name
     }
+
+    /// Whether this is the variable of a symbol: by name, or by ID for anonymous symbols
+    fn matches(&self, symbol: &InternedSymbol) -> bool {
+        if self.name.is_empty() {
+            self.id == symbol.id()
+        } else {
+            symbol.name() == Some(&*self.name)
+        }
+    }
+}
+
+impl ToParamName for VarInput {
+    fn to_param_id_and_name(&self) -> (u64, String) {
+        (self.id, self.name.to_string())
+    }
 }
 
 impl From<&str> for VarInput {
@@ -363,7 +380,7 @@ pub(crate) fn evaluate_parallel_with_hint(
         .into_par_iter()
         .map(|expr_idx| {
             let (expr, was_string) = &parsed[expr_idx];
-            let vars: Vec<&str> = var_names[expr_idx].iter().map(VarInput::as_str).collect();
+            let vars = &var_names[expr_idx];
             let expr_values = &values[expr_idx];
 
             // Validate dimensions
@@ -408,7 +425,7 @@ pub(crate) fn evaluate_parallel_with_hint(
             // We ignore all_values_numeric check here - we'll check per-point
             // We also rely on compile() to check that all variables are bound
             let evaluator =
-                crate::evaluator::CompiledEvaluator::compile(expr, &vars, None).ok();
+                crate::evaluator::CompiledEvaluator::compile(expr, vars, None).ok();
 
             if let Some(evaluator) = evaluator {
                 // OPTIMIZATION: Use pre-computed hint if available, otherwise compute lazily
@@ -553,7 +570,7 @@ pub(crate) fn evaluate_parallel_with_hint(
                                 // SLOW PATH: Fallback for this point (symbolic inputs/skips)
                                 evaluate_slow_point(
                                     expr,
-                                    &vars,
+                                    vars,
                                     expr_values,
                                     point_idx,
                                     *was_string,
@@ -568,7 +585,7 @@ pub(crate) fn evaluate_parallel_with_hint(
                 let pts: Vec<EvalResult> = (0..n_points)
                     .into_par_iter()
                     .map(|point_idx| {
-                        evaluate_slow_point(expr, &vars, expr_values, point_idx, *was_string)
+                        evaluate_slow_point(expr, vars, expr_values, point_idx, *was_string)
                     })
                     .collect::<Result<Vec<_>, _>>()?;
                 Ok(pts)
@@ -582,14 +599,13 @@ pub(crate) fn evaluate_parallel_with_hint(
 /// Helper for slow path evaluation of a single point (extracted to avoid code duplication)
 fn evaluate_slow_point(
     expr: &Expr,
-    vars: &[&str],
+    vars: &[VarInput],
     var_values: &[Vec<Value>],
     point_idx: usize,
     was_string: bool,
 ) -> Result<EvalResult, DiffError> {
     let n_vars = vars.len();
-    let mut var_map: HashMap<&str, f64> = HashMap::new();
-    let mut expr_subs: Vec<(&str, &Expr)> = Vec::with_capacity(n_vars);
+    let mut row: Vec<(&VarInput, Expr)> = Vec::with_capacity(n_vars);
 
     for var_idx in 0..n_vars {
         let val = if point_idx < var_values[var_idx].len() {
@@ -604,10 +620,10 @@ fn evaluate_slow_point(
 
         match val {
             Value::Num(n) => {
-                var_map.insert(vars[var_idx], *n);
+                row.push((&vars[var_idx], Expr::number(*n)));
             }
             Value::Expr(e) => {
-                expr_subs.push((vars[var_idx], e));
+                row.push((&vars[var_idx], e.clone()));
             }
             Value::Skip => {
                 // Keep symbolic
@@ -615,14 +631,18 @@ fn evaluate_slow_point(
         }
     }
 
-    // Apply expression substitutions
-    let mut result = expr.clone();
-    for (var, sub_expr) in expr_subs {
-        result = result.substitute(var, sub_expr);
-    }
-
-    // Evaluate numerics
-    let evaluated = result.evaluate(&var_map, &HashMap::new());
+    // Put in the whole row at once (variables inside the substituted expressions are not
+    // replaced again), then evaluate numerics
+    let substituted = expr.map(|node| {
+        if let ExprKind::Symbol(s) = &node.kind
+            && let Some((_, value)) = row.iter().find(|(var, _)| var.matches(s))
+        {
+            return value.clone();
+        }
+        node.clone()
+    });
+    let no_vars: HashMap<&str, f64> = HashMap::new();
+    let evaluated = substituted.evaluate(&no_vars, &HashMap::new());
 
     // Convert to appropriate result type
     Ok(if was_string {
-- 
2.43.0


From f96213e9df2e97ac1f46b4c27b1400f368e617cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:01 +0000
Subject: [PATCH 49/69] fix: a depth limit no longer weakens simplification

The limit on the input was also the depth down to which the engine simplifies, so tight limits
gave results like x^(2*1/2).
---
 src/api/builder.rs           | 9 +++++++--
 src/simplification/engine.rs | 5 ++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/api/builder.rs b/src/api/builder.rs
index a439387..1d8bd39 100644
--- a/src/api/builder.rs
+++ b/src/api/builder.rs
@@ -23,6 +23,11 @@ use crate::{DiffError, Expr, Symbol, parser, simplification};
 use std::collections::HashMap;
 use std::collections::HashSet;
 
+/// Depth down to which results are simplified: a limit on the input does not lower it
+fn simplification_depth(max_depth: Option<usize>) -> Option<usize> {
+    max_depth.map(|depth| depth.max(simplification::engine::DEFAULT_MAX_DEPTH))
+}
+
 /// Builder for differentiation operations
 #[derive(Clone, Default)]
 pub struct Diff {
@@ -212,7 +217,7 @@ impl Diff {
             derivative,
             self.known_symbols.clone(),
             self.build_bodies_map(),
-            self.max_depth,
+            simplification_depth(self.max_depth),
             None,
             self.context.as_ref(),
             self.domain_safe,
@@ -407,7 +412,7 @@ impl Simplify {
             expr.clone(),
             self.known_symbols.clone(),
             self.build_bodies_map(),
-            self.max_depth,
+            simplification_depth(self.max_depth),
             None,
             self.context.as_ref(),
             self.domain_safe,
diff --git a/src/simplification/engine.rs b/src/simplification/engine.rs
index 7849c50..aa3463b 100644
--- a/src/simplification/engine.rs
+++ b/src/simplification/engine.rs
@@ -145,6 +145,9 @@ pub fn global_registry() -> &'static RuleRegistry {
     })
 }
 
+/// Default maximum depth for recursive simplifications
+pub const DEFAULT_MAX_DEPTH: usize = 50;
+
 /// Main simplification engine with rule-based architecture
 pub struct Simplifier {
     /// Per-rule caches using hash-keyed storage for O(1) lookups without Arc cloning.
@@ -176,7 +179,7 @@ impl Simplifier {
             rule_caches: FxHashMap::default(),
             cache_capacity: DEFAULT_CACHE_CAPACITY,
             max_iterations: 1000,
-            max_depth: 50,
+            max_depth: DEFAULT_MAX_DEPTH,
             context: RuleContext::default(),
             domain_safe: false,
         }
-- 
2.43.0


From b441b99604bf4beb7ef4e9f1b7c94da1b866c9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:01 +0000
Subject: [PATCH 50/69] fix: an anonymous symbol cannot be both fixed and
 differentiated

---
 src/api/builder.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/api/builder.rs b/src/api/builder.rs
index 1d8bd39..f1afb27 100644
--- a/src/api/builder.rs
+++ b/src/api/builder.rs
@@ -130,11 +130,8 @@ impl Diff {
     /// - Expression depth exceeds `max_depth`
     /// - Expression node count exceeds `max_nodes`
     pub fn differentiate(&self, expr: &Expr, var: &Symbol) -> Result<Expr, DiffError> {
-        let var = var.interned();
-        if let Some(name) = var.name() {
-            self.check_not_fixed(name)?;
-        }
-        self.differentiate_by_symbol(expr, &var)
+        self.check_not_fixed(&var.to_param_id_and_name().1)?;
+        self.differentiate_by_symbol(expr, &var.interned())
     }
 
     /// Get custom function names for parsing
-- 
2.43.0


From b118366b20ad0b2d7bfa2ddc467e7b62231a1131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:01 +0000
Subject: [PATCH 51/69] fix: a fixed or known name that is a function of the
 context is a name collision

---
 src/api/builder.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/api/builder.rs b/src/api/builder.rs
index f1afb27..744544f 100644
--- a/src/api/builder.rs
+++ b/src/api/builder.rs
@@ -268,10 +268,12 @@ impl Diff {
             }
         }
 
-        // Check for conflicts between builder's known_symbols and custom functions
-        for func in &custom_functions {
-            if self.known_symbols.contains(func) {
-                return Err(DiffError::NameCollision { name: func.clone() });
+        // Likewise for the functions of the context
+        if let Some(ctx) = &self.context {
+            for func in ctx.fn_name_to_id().keys() {
+                if symbols.contains(func) {
+                    return Err(DiffError::NameCollision { name: func.clone() });
+                }
             }
         }
 
@@ -452,10 +454,12 @@ impl Simplify {
             }
         }
 
-        // Check for conflicts between builder's known_symbols and custom functions
-        for func in &custom_functions {
-            if self.known_symbols.contains(func) {
-                return Err(DiffError::NameCollision { name: func.clone() });
+        // Likewise for the functions of the context
+        if let Some(ctx) = &self.context {
+            for func in ctx.fn_name_to_id().keys() {
+                if symbols.contains(func) {
+                    return Err(DiffError::NameCollision { name: func.clone() });
+                }
             }
         }
 
-- 
2.43.0


From d19fa9f14d0a284f5f3f50d02bb6da3f37fd4325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 52/69] fix: parameters given by name stand for context symbols
 of that name, whatever global symbols exist

---
 src/evaluator/compiler.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/evaluator/compiler.rs b/src/evaluator/compiler.rs
index 96fb9cf..b19c3ef 100644
--- a/src/evaluator/compiler.rs
+++ b/src/evaluator/compiler.rs
@@ -184,6 +184,17 @@ impl<'ctx> Compiler<'ctx> {
         )
     }
 
+    /// The parameter that gives the value of a symbol
+    ///
+    /// A parameter given by its plain name also stands for the symbols of that name in contexts.
+    fn param_of(&self, symbol: &InternedSymbol) -> Option<usize> {
+        let by_name = || {
+            let global = crate::core::symbol::registry::symb_get(symbol.name()?).ok()?;
+            self.param_index.get(&global.id())
+        };
+        self.param_index.get(&symbol.id()).or_else(by_name).copied()
+    }
+
     /// Get a reference to the emitted instructions.
     #[cfg(test)]
     pub fn instructions(&self) -> &[Instruction] {
@@ -368,7 +379,7 @@ impl<'ctx> Compiler<'ctx> {
                     let idx = self.add_const(value);
                     self.emit(Instruction::LoadConst(idx));
                     self.push()?;
-                } else if let Some(&idx) = self.param_index.get(&sym_id) {
+                } else if let Some(idx) = self.param_of(s) {
                     // O(1) HashMap lookup for parameter index
                     // Truncation safe: param count bounded by realistic expression size
                     #[allow(
@@ -1579,7 +1590,7 @@ impl<'ctx> Compiler<'ctx> {
             if crate::core::known_symbols::is_known_constant_by_id(sym_id) {
                 None
             } else {
-                self.param_ids.iter().position(|&id| id == sym_id)
+                self.param_of(s)
             }
         } else {
             None
-- 
2.43.0


From 89c7299ca2b33e53499a31d031f20b10e58f669f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 53/69] fix: the reported name collision does not depend on
 hash order

---
 src/api/builder.rs | 50 ++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/api/builder.rs b/src/api/builder.rs
index 744544f..a7e7b1d 100644
--- a/src/api/builder.rs
+++ b/src/api/builder.rs
@@ -262,19 +262,18 @@ impl Diff {
 
         let custom_functions = self.custom_function_names();
 
-        for func in &custom_functions {
-            if symbols.contains(func) {
-                return Err(DiffError::NameCollision { name: func.clone() });
-            }
-        }
-
-        // Likewise for the functions of the context
-        if let Some(ctx) = &self.context {
-            for func in ctx.fn_name_to_id().keys() {
-                if symbols.contains(func) {
-                    return Err(DiffError::NameCollision { name: func.clone() });
-                }
-            }
+        // (of several, name the first: the order of the sets is arbitrary)
+        let of_context = self
+            .context
+            .iter()
+            .flat_map(|ctx| ctx.fn_name_to_id().keys());
+        if let Some(func) = custom_functions
+            .iter()
+            .chain(of_context)
+            .filter(|func| symbols.contains(*func))
+            .min()
+        {
+            return Err(DiffError::NameCollision { name: func.clone() });
         }
 
         let ast = parser::parse(formula, &symbols, &custom_functions, self.context.as_ref())?;
@@ -448,19 +447,18 @@ impl Simplify {
         let custom_functions = self.custom_function_names();
 
         // Validate: no name should be both a symbol and a function
-        for func in &custom_functions {
-            if symbols.contains(func) {
-                return Err(DiffError::NameCollision { name: func.clone() });
-            }
-        }
-
-        // Likewise for the functions of the context
-        if let Some(ctx) = &self.context {
-            for func in ctx.fn_name_to_id().keys() {
-                if symbols.contains(func) {
-                    return Err(DiffError::NameCollision { name: func.clone() });
-                }
-            }
+        // (of several, name the first: the order of the sets is arbitrary)
+        let of_context = self
+            .context
+            .iter()
+            .flat_map(|ctx| ctx.fn_name_to_id().keys());
+        if let Some(func) = custom_functions
+            .iter()
+            .chain(of_context)
+            .filter(|func| symbols.contains(*func))
+            .min()
+        {
+            return Err(DiffError::NameCollision { name: func.clone() });
         }
 
         let ast = parser::parse(formula, &symbols, &custom_functions, self.context.as_ref())?;
-- 
2.43.0


From f720f22db490dbb77cfd32d55dfb8890bb38c969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 54/69] fix: like terms and factors are grouped by equality,
 not by equal hashes

---
 src/core/expr/constructors.rs | 148 +++++++++++++---------------------
 1 file changed, 55 insertions(+), 93 deletions(-)

diff --git a/src/core/expr/constructors.rs b/src/core/expr/constructors.rs
index 75782f9..7c11f44 100644
--- a/src/core/expr/constructors.rs
+++ b/src/core/expr/constructors.rs
@@ -708,24 +708,17 @@ fn finalize_sum(mut flat: Vec<Arc<Expr>>) -> Expr {
         }
 
         // Check for poly merge (e.g. x + x, x + x^2)
-        let h1 = get_poly_base_hash(&flat[0]);
-        let h2 = get_poly_base_hash(&flat[1]);
-        if h1.is_some()
-            && h1 == h2
-            && h1 != Some(0)
+        if same_poly_base(&flat[0], &flat[1])
             && let (Some(mut poly), Some(next_poly)) = (
                 crate::core::poly::Polynomial::try_from_expr(&flat[0]),
                 crate::core::poly::Polynomial::try_from_expr(&flat[1]),
             )
+            && poly.try_add_assign(&next_poly)
         {
-            // Verify structural compatibility (hash match alone is insufficient)
-            if poly.try_add_assign(&next_poly) {
-                if poly.is_zero() {
-                    return Expr::number(0.0);
-                }
-                return Expr::poly(poly);
+            if poly.is_zero() {
+                return Expr::number(0.0);
             }
-            // Hash collision: different bases, fall through to plain Sum
+            return Expr::poly(poly);
         }
 
         return Expr::new(ExprKind::Sum(flat));
@@ -744,42 +737,22 @@ fn finalize_sum(mut flat: Vec<Arc<Expr>>) -> Expr {
     let mut it = flat.into_iter().peekable();
 
     while let Some(term) = it.next() {
-        let h = get_poly_base_hash(&term);
-
-        if let Some(bh) = h
-            && bh != 0
-            && it
-                .peek()
-                .is_some_and(|next| get_poly_base_hash(next) == Some(bh))
+        if it.peek().is_some_and(|next| same_poly_base(&term, next))
+            && let Some(mut poly) = crate::core::poly::Polynomial::try_from_expr(&term)
         {
             // Group found! Try to merge into a Polynomial
-            if let Some(mut poly) = crate::core::poly::Polynomial::try_from_expr(&term) {
-                let mut unmerged: Vec<Arc<Expr>> = Vec::new();
-                while it
-                    .peek()
-                    .is_some_and(|next| get_poly_base_hash(next) == Some(bh))
-                {
-                    let next_term = it.next().expect("Iterator peeked successfully");
-                    if let Some(next_poly) =
-                        crate::core::poly::Polynomial::try_from_expr(&next_term)
-                    {
-                        // Verify structural compatibility (hash match alone is insufficient)
-                        if !poly.try_add_assign(&next_poly) {
-                            // Hash collision: different bases, keep as separate term
-                            unmerged.push(next_term);
-                        }
-                    } else {
-                        unmerged.push(next_term);
-                    }
-                }
-                if !poly.is_zero() {
-                    result.push(Arc::new(Expr::poly(poly)));
+            let mut unmerged: Vec<Arc<Expr>> = Vec::new();
+            while let Some(next_term) = it.next_if(|next| same_poly_base(&term, next)) {
+                let merged = crate::core::poly::Polynomial::try_from_expr(&next_term)
+                    .is_some_and(|next_poly| poly.try_add_assign(&next_poly));
+                if !merged {
+                    unmerged.push(next_term);
                 }
-                result.extend(unmerged);
-                continue;
             }
-            // Poly conversion failed for the first term, just push it
-            result.push(term);
+            if !poly.is_zero() {
+                result.push(Arc::new(Expr::poly(poly)));
+            }
+            result.extend(unmerged);
             continue;
         }
         result.push(term);
@@ -796,41 +769,41 @@ fn finalize_sum(mut flat: Vec<Arc<Expr>>) -> Expr {
     Expr::new(ExprKind::Sum(result))
 }
 
-/// Extract the polynomial base structural hash from a term.
-/// For polynomial-like terms (x, x^2, 3*x^3, sin(x)^2, 2*cos(x)), returns a hash
-/// that identifies the base expression so adjacent terms with the same base can be merged.
+/// Extract the polynomial base from a term.
+/// For polynomial-like terms (x, x^2, 3*x^3, sin(x)^2, 2*cos(x)), returns the base expression,
+/// so that adjacent terms with the same base can be merged.
 /// Returns None if term is not polynomial-like.
-fn get_poly_base_hash(expr: &Expr) -> Option<u64> {
+fn get_poly_base(expr: &Expr) -> Option<&Expr> {
     match &expr.kind {
-        // Symbol x or FunctionCall like sin(x) → use its structural hash
-        ExprKind::Symbol(_) | ExprKind::FunctionCall { .. } => Some(expr.hash),
+        // Symbol x or FunctionCall like sin(x) is its own base
+        ExprKind::Symbol(_) | ExprKind::FunctionCall { .. } => Some(expr),
 
-        // Already a Poly -> use its base's hash
-        ExprKind::Poly(p) => Some(p.base().hash),
+        // Already a Poly -> use its base
+        ExprKind::Poly(p) => Some(p.base()),
 
-        // base^n where n is a positive integer → base's hash
+        // base^n where n is a positive integer → base
         ExprKind::Pow(base, exp) => {
             if let ExprKind::Number(n) = &exp.kind
                 && *n >= 1.0
                 && *n <= MAX_POLY_EXPONENT
                 && n.fract().abs() < EPSILON
             {
-                return Some(base.hash);
+                return Some(base);
             }
             None
         }
 
-        // c*base or c*base^n → extract the non-numeric base's hash
+        // c*base or c*base^n → extract the non-numeric base
         ExprKind::Product(factors) => {
-            let mut base_hash = None;
+            let mut base = None;
             for f in factors {
                 match &f.kind {
                     ExprKind::Number(_) => {} // Skip coefficients
                     ExprKind::Symbol(_) | ExprKind::FunctionCall { .. } => {
-                        if base_hash.is_some() {
+                        if base.is_some() {
                             return None; // Multiple bases
                         }
-                        base_hash = Some(f.hash);
+                        base = Some(&**f);
                     }
                     ExprKind::Pow(b, exp) => {
                         if let ExprKind::Number(n) = &exp.kind
@@ -838,10 +811,10 @@ fn get_poly_base_hash(expr: &Expr) -> Option<u64> {
                             && *n <= MAX_POLY_EXPONENT
                             && n.fract().abs() < EPSILON
                         {
-                            if base_hash.is_some() {
+                            if base.is_some() {
                                 return None; // Multiple bases
                             }
-                            base_hash = Some(b.hash);
+                            base = Some(&**b);
                             continue;
                         }
                         return None;
@@ -849,16 +822,19 @@ fn get_poly_base_hash(expr: &Expr) -> Option<u64> {
                     _ => return None, // Other complex expressions
                 }
             }
-            base_hash
+            base
         }
 
-        // Constants have "base" 0 (can combine with any polynomial)
-        ExprKind::Number(_) => Some(0),
-
         _ => None,
     }
 }
 
+/// Do these terms have the same polynomial base?
+/// (Compared as expressions: equal hashes alone would make the result depend on symbol identifiers.)
+fn same_poly_base(a: &Expr, b: &Expr) -> bool {
+    get_poly_base(a).is_some_and(|base| get_poly_base(b) == Some(base))
+}
+
 /// Extract the base expression and its exponent from a factor for product merging.
 /// e.g., `x` -> `(x, 1)`, `x^2` -> `(x, 2)`
 fn get_factor_base_and_exponent(expr: &Arc<Expr>) -> (Arc<Expr>, Expr) {
@@ -868,14 +844,17 @@ fn get_factor_base_and_exponent(expr: &Arc<Expr>) -> (Arc<Expr>, Expr) {
     }
 }
 
-/// Extract a base hash for product grouping.
-/// Includes all Powers by using their base's hash, enabling merging of x * x^2 * x^a.
-fn get_product_base_hash(expr: &Expr) -> Option<u64> {
-    match &expr.kind {
-        ExprKind::Number(_) => None, // Don't merge numbers (already folded)
-        ExprKind::Pow(base, _) => Some(base.hash),
-        _ => Some(expr.hash),
+/// Do these factors have the same base?
+/// Includes all Powers by using their base, enabling merging of x * x^2 * x^a.
+fn same_factor_base(a: &Expr, b: &Expr) -> bool {
+    fn base(expr: &Expr) -> Option<&Expr> {
+        match &expr.kind {
+            ExprKind::Number(_) => None, // Don't merge numbers (already folded)
+            ExprKind::Pow(base, _) => Some(base),
+            _ => Some(expr),
+        }
     }
+    base(a).is_some_and(|first| base(b) == Some(first))
 }
 
 /// Finalize a product expression from a flattened and sorted list of factors
@@ -892,31 +871,15 @@ fn finalize_product(mut flat: Vec<Arc<Expr>>) -> Expr {
     let mut it = flat.into_iter().peekable();
 
     while let Some(factor) = it.next() {
-        let bh = get_product_base_hash(&factor);
-
-        if let Some(bh_val) = bh
-            && it
-                .peek()
-                .is_some_and(|next| get_product_base_hash(next) == Some(bh_val))
+        if it
+            .peek()
+            .is_some_and(|next| same_factor_base(&factor, next))
         {
             // Group found! Collect all exponents for this base
             let (base, first_exp) = get_factor_base_and_exponent(&factor);
             let mut group_exps = vec![first_exp];
-            let mut unmerged: Vec<Arc<Expr>> = Vec::new();
-
-            while it
-                .peek()
-                .is_some_and(|next| get_product_base_hash(next) == Some(bh_val))
-            {
-                let next_factor = it.next().expect("Iterator peeked successfully");
-                let (next_base, next_exp) = get_factor_base_and_exponent(&next_factor);
-                // Verify structural equality (hash match alone is insufficient)
-                if *next_base == *base {
-                    group_exps.push(next_exp);
-                } else {
-                    // Hash collision: different bases, keep as separate factor
-                    unmerged.push(next_factor);
-                }
+            while let Some(next) = it.next_if(|next| same_factor_base(&factor, next)) {
+                group_exps.push(get_factor_base_and_exponent(&next).1);
             }
 
             // Merge all exponents into one via a single call to sum()
@@ -926,7 +889,6 @@ fn finalize_product(mut flat: Vec<Arc<Expr>>) -> Expr {
                 Arc::try_unwrap(base).unwrap_or_else(|arc| (*arc).clone()),
                 total_exp,
             )));
-            result.extend(unmerged);
             continue;
         }
         result.push(factor);
-- 
2.43.0


From f098c08e5be8fffaaf994a072e2d15f643586633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 55/69] fix: simplification orders symbols by name, not by
 creation order

---
 src/simplification/helpers.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/simplification/helpers.rs b/src/simplification/helpers.rs
index 5a3938e..f6d2b5d 100644
--- a/src/simplification/helpers.rs
+++ b/src/simplification/helpers.rs
@@ -4,6 +4,7 @@
 //! coefficient extraction, root prettification, and like-term grouping.
 
 use crate::core::known_symbols as ks;
+use crate::core::symbol::InternedSymbol;
 use crate::core::traits::{EPSILON, is_near_integer};
 use crate::{Expr, ExprKind};
 use std::f64::consts::PI;
@@ -131,23 +132,24 @@ pub fn compare_expr(a: &Expr, b: &Expr) -> std::cmp::Ordering {
     use std::cmp::Ordering;
 
     /// Extract (`base_name`, degree) for polynomial-style ordering.
-    /// Returns (`type_priority`, `base_symbol_id`, degree) - uses u64 ID to avoid String alloc
-    fn get_sort_key(e: &Expr) -> (i32, u64, f64) {
-        // Returns (type_priority, symbol_id, degree)
+    /// Returns (`type_priority`, `base_symbol`, degree) - symbols are ordered by name, as their
+    /// identifiers depend on the order in which they were created
+    fn get_sort_key(e: &Expr) -> (i32, Option<&InternedSymbol>, f64) {
+        // Returns (type_priority, symbol, degree)
         // Lower type_priority = comes first
         // Lower degree = comes first (low-to-high)
         match &e.kind {
-            Number(_) => (0, 0, 0.0),       // Numbers first
-            Symbol(s) => (10, s.id(), 1.0), // Variables are degree 1, use symbol ID
+            Number(_) => (0, None, 0.0),     // Numbers first
+            Symbol(s) => (10, Some(s), 1.0), // Variables are degree 1
             Pow(base, exp) => {
                 if let Symbol(s) = &base.kind {
                     if let Number(n) = &exp.kind {
-                        (10, s.id(), *n) // Same priority as symbol, degree from exponent
+                        (10, Some(s), *n) // Same priority as symbol, degree from exponent
                     } else {
-                        (10, s.id(), 999.0) // Symbolic exponent - treat as very high degree
+                        (10, Some(s), 999.0) // Symbolic exponent - treat as very high degree
                     }
                 } else {
-                    (30, 0, 0.0) // Non-symbol base - complex
+                    (30, None, 0.0) // Non-symbol base - complex
                 }
             }
             Product(factors) => {
@@ -159,13 +161,13 @@ pub fn compare_expr(a: &Expr, b: &Expr) -> std::cmp::Ordering {
                         return key;
                     }
                 }
-                (20, 0, 0.0) // No polynomial term found
+                (20, None, 0.0) // No polynomial term found
             }
-            FunctionCall { name, .. } => (40, name.id(), 0.0),
-            Sum(..) => (50, 0, 0.0),
-            Div(..) => (35, 0, 0.0),
-            Derivative { .. } => (45, 0, 0.0),
-            Poly(_) => (25, 0, 0.0), // Poly treated as complex
+            FunctionCall { name, .. } => (40, Some(name), 0.0),
+            Sum(..) => (50, None, 0.0),
+            Div(..) => (35, None, 0.0),
+            Derivative { .. } => (45, None, 0.0),
+            Poly(_) => (25, None, 0.0), // Poly treated as complex
         }
     }
 
-- 
2.43.0


From 2420ede6a16cae8a84f91f28822ad94cf33ea959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 56/69] fix: a symbol that a context shares keeps its name when
 the global name is removed

---
 src/core/symbol/registry.rs | 30 +++++++++++++++++++++++++++++-
 src/core/unified_context.rs | 14 ++++++--------
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/src/core/symbol/registry.rs b/src/core/symbol/registry.rs
index 9f95e52..413c83f 100644
--- a/src/core/symbol/registry.rs
+++ b/src/core/symbol/registry.rs
@@ -63,6 +63,8 @@ struct RegistryShard {
     name_to_symbol_key: FxHashMap<String, DefaultKey>,
     /// Keys of the names the library itself refers to; these are never removed
     builtin: FxHashSet<DefaultKey>,
+    /// Keys of the names that contexts use as well; their symbols outlive the names
+    adopted: FxHashSet<DefaultKey>,
 }
 
 /// Unified symbol registry storage
@@ -80,6 +82,7 @@ impl SymbolRegistry {
             Mutex::new(RegistryShard {
                 name_to_symbol_key: FxHashMap::default(),
                 builtin: FxHashSet::default(),
+                adopted: FxHashSet::default(),
             })
         });
 
@@ -228,6 +231,27 @@ pub fn symb_get(name: &str) -> Result<Symbol, SymbolError> {
         .ok_or_else(|| SymbolError::NotFound(name.to_owned()))
 }
 
+/// Get an existing symbol by name, for a context that goes on using it when the name is removed
+///
+/// # Panics
+///
+/// Panics if any global registry lock is poisoned.
+pub fn symb_adopt(name: &str) -> Option<InternedSymbol> {
+    let mut shard = REGISTRY
+        .get_shard(name)
+        .lock()
+        .expect("Global symbol registry shard poisoned");
+
+    let key = *shard.name_to_symbol_key.get(name)?;
+    shard.adopted.insert(key);
+    REGISTRY
+        .id_to_data
+        .read()
+        .expect("Global ID registry poisoned")
+        .get(key)
+        .cloned()
+}
+
 /// Check if a symbol exists
 ///
 /// # Panics
@@ -349,6 +373,9 @@ pub fn remove_symbol(name: &str) -> bool {
 
     shard.name_to_symbol_key.remove(name).is_some_and(|key| {
         REMOVALS.fetch_add(1, Ordering::SeqCst);
+        if shard.adopted.contains(&key) {
+            return true;
+        }
         // Name and data go together: the shard lock is held, as it is when a symbol is created
         REGISTRY
             .id_to_data
@@ -379,10 +406,11 @@ pub fn clear_symbols() {
         let RegistryShard {
             name_to_symbol_key,
             builtin,
+            adopted,
         } = &mut **shard;
         name_to_symbol_key.retain(|_, key| {
             let keep = builtin.contains(key);
-            if !keep {
+            if !keep && !adopted.contains(key) {
                 id_data.remove(*key);
             }
             keep
diff --git a/src/core/unified_context.rs b/src/core/unified_context.rs
index 5ae8921..d46a20d 100644
--- a/src/core/unified_context.rs
+++ b/src/core/unified_context.rs
@@ -343,15 +343,13 @@ impl Context {
         }
 
         // 2. Check global registry (without creating), else create isolated
-        // (what another thread removes between the two steps is not there)
-        let find = |symbol: Symbol| {
-            crate::core::symbol::lookup_by_id(symbol.id()).map(|interned| (symbol, interned))
-        };
-        let (symbol, interned) = crate::core::symbol::registry::symb_get(name)
-            .ok()
-            .and_then(find)
-            .or_else(|| find(crate::core::symbol::registry::symb_new_isolated(name)))
+        let interned = crate::core::symbol::registry::symb_adopt(name)
+            .or_else(|| {
+                let isolated = crate::core::symbol::registry::symb_new_isolated(name);
+                crate::core::symbol::lookup_by_id(isolated.id())
+            })
             .expect("Symbol just created should exist");
+        let symbol = Symbol::from_id(interned.id());
 
         // Track in context's local map
         inner.symbols.insert(name.to_owned(), interned);
-- 
2.43.0


From c0f898c9e5ecfbe0014365244be7770c0b4bc875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 57/69] fix: functions of a context are found again after their
 name was removed and created anew

---
 src/core/unified_context.rs | 19 ++++++++++++-------
 src/simplification/mod.rs   | 10 +++++++---
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/core/unified_context.rs b/src/core/unified_context.rs
index d46a20d..9a177b0 100644
--- a/src/core/unified_context.rs
+++ b/src/core/unified_context.rs
@@ -433,8 +433,10 @@ impl Context {
     #[must_use]
     pub fn with_function(mut self, name: &str, func: UserFunction) -> Self {
         let id = symb_interned(name).id();
+        if let Some(old_id) = self.fn_name_to_id.insert(name.to_owned(), id) {
+            self.user_functions.remove(&old_id);
+        }
         self.user_functions.insert(id, func);
-        self.fn_name_to_id.insert(name.to_owned(), id);
         self
     }
 
@@ -444,11 +446,9 @@ impl Context {
     /// an evaluation or derivative definition.
     #[must_use]
     pub fn with_function_name(mut self, name: &str) -> Self {
-        let id = symb_interned(name).id();
-        if let std::collections::hash_map::Entry::Vacant(e) = self.user_functions.entry(id) {
+        if !self.has_function(name) {
             // Create a placeholder with default arity (any number of args)
-            e.insert(UserFunction::new(0..=usize::MAX));
-            self.fn_name_to_id.insert(name.to_owned(), id);
+            self = self.with_function(name, UserFunction::new(0..=usize::MAX));
         }
         self
     }
@@ -505,7 +505,7 @@ impl Context {
     #[inline]
     #[must_use]
     pub fn get_body_by_id(&self, id: u64) -> Option<&BodyFn> {
-        self.user_functions.get(&id).and_then(|f| f.body.as_ref())
+        self.get_user_fn_by_id(id).and_then(|f| f.body.as_ref())
     }
 
     /// Get the partial derivative function for a user function argument.
@@ -517,10 +517,15 @@ impl Context {
     }
 
     /// Get a user function by symbol ID. O(1) direct map lookup.
+    ///
+    /// A name that was removed and created again has another ID: it is found by its name.
     #[inline]
     #[must_use]
     pub fn get_user_fn_by_id(&self, id: u64) -> Option<&UserFunction> {
-        self.user_functions.get(&id)
+        self.user_functions.get(&id).or_else(|| {
+            let symbol = crate::core::symbol::lookup_by_id(id)?;
+            self.get_user_fn(symbol.name()?)
+        })
     }
 
     /// Check if context has any user-defined functions with bodies that could be expanded.
diff --git a/src/simplification/mod.rs b/src/simplification/mod.rs
index 4d3dd06..3476435 100644
--- a/src/simplification/mod.rs
+++ b/src/simplification/mod.rs
@@ -36,9 +36,13 @@ pub fn simplify_expr(
     if let Some(ctx) = context {
         // Context symbols are parsing hints, not simplification constants
         // But we still merge function bodies
-        for id in ctx.fn_name_to_id().values() {
-            if let Some(function) = ctx.get_user_fn_by_id(*id) {
-                custom_bodies.entry(*id).or_insert_with(|| function.clone());
+        for (name, id) in ctx.fn_name_to_id() {
+            // (a name that was removed and created again has another ID)
+            let current = crate::core::symbol::registry::symb_get(name).map_or(*id, |s| s.id());
+            if let Some(function) = ctx.get_user_fn(name) {
+                for id in [*id, current] {
+                    custom_bodies.entry(id).or_insert_with(|| function.clone());
+                }
             }
         }
     }
-- 
2.43.0


From 9cb0e66d7ecf50d515cd3d6c23cb4c81250a6b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 58/69] fix: Python objects can be used from any thread, not
 only the one that made them

---
 src/bindings/python/context.rs   | 4 ++--
 src/bindings/python/evaluator.rs | 2 +-
 src/bindings/python/expr.rs      | 2 +-
 src/bindings/python/symbol.rs    | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bindings/python/context.rs b/src/bindings/python/context.rs
index 2ceb4b8..72ab2bd 100644
--- a/src/bindings/python/context.rs
+++ b/src/bindings/python/context.rs
@@ -12,7 +12,7 @@ use std::sync::Arc;
 type PartialDerivativeFn = Arc<dyn Fn(&[Arc<RustExpr>]) -> RustExpr + Send + Sync>;
 
 /// Python wrapper for expression contexts
-#[pyclass(unsendable, name = "Context")]
+#[pyclass(name = "Context")]
 pub struct PyContext {
     /// The inner Rust context
     pub inner: RustContext,
@@ -179,7 +179,7 @@ impl PyContext {
 ///
 /// This tracks custom function names for parsing. For full custom function
 /// support with evaluation and derivatives, use the `Diff.custom_derivative` API.
-#[pyclass(unsendable, name = "FunctionContext")]
+#[pyclass(name = "FunctionContext")]
 pub struct PyFunctionContext {
     /// Set of registered custom function names
     functions: HashSet<String>,
diff --git a/src/bindings/python/evaluator.rs b/src/bindings/python/evaluator.rs
index 05da71f..9aa1df4 100644
--- a/src/bindings/python/evaluator.rs
+++ b/src/bindings/python/evaluator.rs
@@ -8,7 +8,7 @@ use numpy::{PyArray1, PyReadonlyArray1};
 use pyo3::prelude::*;
 
 /// Python wrapper for compiled evaluators
-#[pyclass(unsendable, name = "CompiledEvaluator")]
+#[pyclass(name = "CompiledEvaluator")]
 pub struct PyCompiledEvaluator {
     /// The underlying Rust compiled evaluator
     evaluator: RustCompiledEvaluator,
diff --git a/src/bindings/python/expr.rs b/src/bindings/python/expr.rs
index 2127cb6..5860638 100644
--- a/src/bindings/python/expr.rs
+++ b/src/bindings/python/expr.rs
@@ -14,7 +14,7 @@ use crate::core::traits::EPSILON;
 use pyo3::prelude::*;
 
 /// Python wrapper for symbolic expressions
-#[pyclass(unsendable, name = "Expr", from_py_object)]
+#[pyclass(name = "Expr", from_py_object)]
 #[derive(Clone)]
 pub struct PyExpr(pub RustExpr);
 
diff --git a/src/bindings/python/symbol.rs b/src/bindings/python/symbol.rs
index a9defdd..7c03a60 100644
--- a/src/bindings/python/symbol.rs
+++ b/src/bindings/python/symbol.rs
@@ -13,7 +13,7 @@ use crate::{Expr as RustExpr, remove_symbol, symb, symb_get, symb_new};
 use pyo3::prelude::*;
 
 /// Python wrapper for symbols
-#[pyclass(unsendable, name = "Symbol", from_py_object)]
+#[pyclass(name = "Symbol", from_py_object)]
 #[derive(Clone)]
 pub struct PySymbol(pub RustSymbol);
 
-- 
2.43.0


From b952ff601fd8fbda0201fd4a829068369ee52aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 59/69] fix: a Python Symbol equals and hashes like the
 expression of it, whichever side is compared

---
 src/bindings/python/expr.rs   |  2 +-
 src/bindings/python/symbol.rs | 14 ++++++--------
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/bindings/python/expr.rs b/src/bindings/python/expr.rs
index 5860638..0de3618 100644
--- a/src/bindings/python/expr.rs
+++ b/src/bindings/python/expr.rs
@@ -48,7 +48,7 @@ impl PyExpr {
     }
 
     /// Hash function for use in sets and dictionaries
-    fn __hash__(&self) -> isize {
+    pub(super) fn __hash__(&self) -> isize {
         // Simple hash based on string representation or kind
         // For better performance, we'd need a stable hash in Rust Expr
         use std::collections::hash_map::DefaultHasher;
diff --git a/src/bindings/python/symbol.rs b/src/bindings/python/symbol.rs
index 7c03a60..3c17a93 100644
--- a/src/bindings/python/symbol.rs
+++ b/src/bindings/python/symbol.rs
@@ -57,18 +57,16 @@ impl PySymbol {
         if let Ok(other_sym) = other.extract::<Self>() {
             return self.0 == other_sym.0;
         }
+        // An expression that is just this symbol is equal to it
+        if let Ok(other_expr) = other.extract::<super::expr::PyExpr>() {
+            return self.0.to_expr() == other_expr.0;
+        }
         false
     }
 
-    // u64->isize: Python __hash__ requires isize, wrap is expected
-    #[allow(
-        clippy::cast_possible_wrap,
-        clippy::cast_possible_truncation,
-        reason = "Python __hash__ requires isize"
-    )]
-    /// Returns the hash value of the symbol.
+    /// Returns the hash value of the symbol (that of the expression equal to it).
     fn __hash__(&self) -> isize {
-        self.0.id() as isize
+        self.to_expr().__hash__()
     }
 
     /// Get the symbol name
-- 
2.43.0


From df67d082c877c322ec4d816cfa4998c9fa92459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 60/69] fix: str() of an anonymous Python symbol is its name in
 expressions, not empty

---
 src/bindings/python/symbol.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bindings/python/symbol.rs b/src/bindings/python/symbol.rs
index 3c17a93..940f67e 100644
--- a/src/bindings/python/symbol.rs
+++ b/src/bindings/python/symbol.rs
@@ -42,14 +42,14 @@ impl PySymbol {
         Self(RustSymbol::anon())
     }
 
-    /// Returns the string representation of the symbol.
+    /// Returns the string representation of the symbol (`$id` for an anonymous one).
     fn __str__(&self) -> String {
-        self.0.name().unwrap_or_default()
+        self.0.to_expr().to_string()
     }
 
     /// Returns the repr representation of the symbol.
     fn __repr__(&self) -> String {
-        format!("Symbol(\"{}\")", self.0.name().unwrap_or_default())
+        format!("Symbol(\"{}\")", self.__str__())
     }
 
     /// Checks equality with another object.
-- 
2.43.0


From 47e99574b4053425dfebf8c1e292934af08f809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 61/69] fix: pow() of Python objects refuses a third argument
 instead of ignoring it

---
 src/bindings/python/dual.rs   |  6 ++++--
 src/bindings/python/expr.rs   | 16 ++++++++++++++--
 src/bindings/python/symbol.rs |  6 ++++--
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/bindings/python/dual.rs b/src/bindings/python/dual.rs
index 8b51029..2a97109 100644
--- a/src/bindings/python/dual.rs
+++ b/src/bindings/python/dual.rs
@@ -189,7 +189,8 @@ impl PyDual {
     }
 
     /// Raise a dual number to a power
-    fn __pow__(&self, other: &Bound<'_, PyAny>, _modulo: Option<Py<PyAny>>) -> PyResult<Self> {
+    fn __pow__(&self, other: &Bound<'_, PyAny>, modulo: Option<Py<PyAny>>) -> PyResult<Self> {
+        super::expr::refuse_modulo(modulo.as_ref())?;
         if let Ok(dual) = other.extract::<Self>() {
             return Ok(Self(self.0.powf(dual.0)));
         }
@@ -205,7 +206,8 @@ impl PyDual {
     }
 
     /// Reverse power (for commutative exponentiation)
-    fn __rpow__(&self, other: &Bound<'_, PyAny>, _modulo: Option<Py<PyAny>>) -> PyResult<Self> {
+    fn __rpow__(&self, other: &Bound<'_, PyAny>, modulo: Option<Py<PyAny>>) -> PyResult<Self> {
+        super::expr::refuse_modulo(modulo.as_ref())?;
         if let Ok(n) = other.extract::<f64>() {
             return Ok(Self(Dual::constant(n).powf(self.0)));
         }
diff --git a/src/bindings/python/expr.rs b/src/bindings/python/expr.rs
index 0de3618..e9f6ff1 100644
--- a/src/bindings/python/expr.rs
+++ b/src/bindings/python/expr.rs
@@ -110,14 +110,16 @@ impl PyExpr {
     }
 
     /// Power operator
-    fn __pow__(&self, other: &Bound<'_, PyAny>, _modulo: Option<Py<PyAny>>) -> PyResult<Self> {
+    fn __pow__(&self, other: &Bound<'_, PyAny>, modulo: Option<Py<PyAny>>) -> PyResult<Self> {
+        refuse_modulo(modulo.as_ref())?;
         let other_expr = extract_to_expr(other)?;
         Ok(Self(self.0.clone().pow(other_expr)))
     }
 
     // Reverse power: 2 ** x where x is Expr
     /// Reverse power operator
-    fn __rpow__(&self, other: &Bound<'_, PyAny>, _modulo: Option<Py<PyAny>>) -> PyResult<Self> {
+    fn __rpow__(&self, other: &Bound<'_, PyAny>, modulo: Option<Py<PyAny>>) -> PyResult<Self> {
+        refuse_modulo(modulo.as_ref())?;
         // other ** self (other is the base, self is the exponent)
         if let Ok(n) = other.extract::<f64>() {
             return Ok(Self(RustExpr::number(n).pow(self.0.clone())));
@@ -910,6 +912,16 @@ const fn get_numeric_value(expr: &RustExpr) -> Option<f64> {
     }
 }
 
+/// Refuse the third argument of `pow`, which has no meaning for symbolic powers.
+pub fn refuse_modulo(modulo: Option<&Py<PyAny>>) -> PyResult<()> {
+    match modulo {
+        Some(_) => Err(pyo3::exceptions::PyTypeError::new_err(
+            "pow() with a third argument is not supported",
+        )),
+        None => Ok(()),
+    }
+}
+
 // Complex if-let chain is clearer than map_or_else for multi-type extraction
 #[allow(
     clippy::option_if_let_else,
diff --git a/src/bindings/python/symbol.rs b/src/bindings/python/symbol.rs
index 940f67e..d4cfe71 100644
--- a/src/bindings/python/symbol.rs
+++ b/src/bindings/python/symbol.rs
@@ -119,8 +119,9 @@ impl PySymbol {
     fn __pow__(
         &self,
         other: &Bound<'_, PyAny>,
-        _modulo: Option<&Bound<'_, PyAny>>,
+        modulo: Option<Py<PyAny>>,
     ) -> PyResult<super::expr::PyExpr> {
+        super::expr::refuse_modulo(modulo.as_ref())?;
         let other_expr = super::expr::extract_to_expr(other)?;
         Ok(super::expr::PyExpr(RustExpr::pow_static(
             self.0.to_expr(),
@@ -156,8 +157,9 @@ impl PySymbol {
     fn __rpow__(
         &self,
         other: &Bound<'_, PyAny>,
-        _modulo: Option<&Bound<'_, PyAny>>,
+        modulo: Option<Py<PyAny>>,
     ) -> PyResult<super::expr::PyExpr> {
+        super::expr::refuse_modulo(modulo.as_ref())?;
         let other_expr = super::expr::extract_to_expr(other)?;
         Ok(super::expr::PyExpr(RustExpr::pow_static(
             other_expr,
-- 
2.43.0


From f278b43d464f98af1abb28bea8dee00d9b6a57d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 62/69] fix: eval_f64 in Python returns one array per
 expression when their lengths differ

---
 src/bindings/python/parallel.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bindings/python/parallel.rs b/src/bindings/python/parallel.rs
index bc7033e..2797dee 100644
--- a/src/bindings/python/parallel.rs
+++ b/src/bindings/python/parallel.rs
@@ -165,6 +165,7 @@ pub mod parallel_impl {
     ///
     /// Returns:
     ///     2D `NumPy` array or list of results: result[expr_idx][point_idx]
+    ///     (a list of arrays when the expressions have different numbers of points)
     #[pyfunction]
     #[pyo3(name = "eval_f64")]
     #[allow(
@@ -234,6 +235,15 @@ pub mod parallel_impl {
             let n_exprs = results.len();
             let n_points = results[0].len();
 
+            // Expressions evaluated at different numbers of points make no 2D array
+            if results.iter().any(|row| row.len() != n_points) {
+                let rows: Vec<_> = results
+                    .into_iter()
+                    .map(|row| PyArray1::from_vec(py, row))
+                    .collect();
+                return Ok(rows.into_pyobject(py)?.into_any().unbind());
+            }
+
             // Flatten the results into a single contiguous vector
             let flat_results: Vec<f64> = results.into_iter().flatten().collect();
 
-- 
2.43.0


From 3961f15589a1df01b362435cb9967842fb123d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:05 +0000
Subject: [PATCH 63/69] fix: evaluate_parallel in Python refuses values of an
 unsupported type instead of dropping them

---
 src/bindings/python/parallel.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/bindings/python/parallel.rs b/src/bindings/python/parallel.rs
index 2797dee..7b45fb6 100644
--- a/src/bindings/python/parallel.rs
+++ b/src/bindings/python/parallel.rs
@@ -68,12 +68,12 @@ pub mod parallel_impl {
                 let mut expr_is_numeric = true;
                 let converted: Vec<Vec<Value>> = expr_vals
                     .into_iter()
-                    .map(|var_vals| {
+                    .map(|var_vals| -> PyResult<Vec<Value>> {
                         // Try NumPy array first (zero-copy path)
                         if let Ok(arr) = var_vals.extract::<PyReadonlyArray1<f64>>()
                             && let Ok(slice) = arr.as_slice()
                         {
-                            return slice.iter().map(|&n| Value::Num(n)).collect();
+                            return Ok(slice.iter().map(|&n| Value::Num(n)).collect());
                         }
                         // Fallback to Python list with Option<f64>
                         if let Ok(list) = var_vals.extract::<Vec<Option<f64>>>() {
@@ -82,7 +82,7 @@ pub mod parallel_impl {
                                 clippy::option_if_let_else,
                                 reason = "Side-effect in else branch makes map_or_else unsuitable"
                             )]
-                            return list
+                            return Ok(list
                                 .into_iter()
                                 .map(|v| {
                                     if let Some(n) = v {
@@ -92,21 +92,21 @@ pub mod parallel_impl {
                                         Value::Skip
                                     }
                                 })
-                                .collect();
+                                .collect());
                         }
                         // Try pure f64 list (no None values)
                         if let Ok(list) = var_vals.extract::<Vec<f64>>() {
-                            return list.into_iter().map(Value::Num).collect();
+                            return Ok(list.into_iter().map(Value::Num).collect());
                         }
-                        // Empty fallback
-                        expr_is_numeric = false;
-                        vec![]
+                        Err(PyErr::new::<pyo3::exceptions::PyTypeError, _>(
+                            "values must be NumPy arrays or lists of floats (or None)",
+                        ))
                     })
-                    .collect();
+                    .collect::<PyResult<_>>()?;
                 is_fully_numeric.push(expr_is_numeric);
-                converted
+                Ok(converted)
             })
-            .collect();
+            .collect::<PyResult<_>>()?;
 
         // Use the hint-based version to skip double-scan
         let results: Vec<Vec<parallel::EvalResult>> = parallel::evaluate_parallel_with_hint(
-- 
2.43.0


From 08279ab5d31db7bc9379fc091e0d39d496db2dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:05 +0000
Subject: [PATCH 64/69] fix: errors and plain numbers from Python callbacks of
 user functions are not turned into 0

---
 src/bindings/python/builder.rs   | 58 ++++----------------------------
 src/bindings/python/callback.rs  | 45 +++++++++++++++++++++++++
 src/bindings/python/context.rs   | 45 ++-----------------------
 src/bindings/python/evaluator.rs |  8 +++--
 src/bindings/python/mod.rs       |  1 +
 5 files changed, 61 insertions(+), 96 deletions(-)
 create mode 100644 src/bindings/python/callback.rs

diff --git a/src/bindings/python/builder.rs b/src/bindings/python/builder.rs
index 450aed6..23b2816 100644
--- a/src/bindings/python/builder.rs
+++ b/src/bindings/python/builder.rs
@@ -106,54 +106,15 @@ impl PyDiff {
         let mut user_fn = UserFunction::new(arity..=arity);
 
         if let Some(callback) = body_callback {
-            let body_fn: BodyFn = Arc::new(move |args: &[Arc<RustExpr>]| -> RustExpr {
-                Python::attach(|py| {
-                    let py_args: Vec<super::expr::PyExpr> = args
-                        .iter()
-                        .map(|a| super::expr::PyExpr((**a).clone()))
-                        .collect();
-                    let Ok(py_list) = py_args.into_pyobject(py) else {
-                        return RustExpr::number(0.0);
-                    };
-
-                    let result = callback.call1(py, (py_list,));
-
-                    result.map_or_else(
-                        |_| RustExpr::number(0.0),
-                        |res| {
-                            res.extract::<super::expr::PyExpr>(py)
-                                .map_or_else(|_| RustExpr::number(0.0), |py_expr| py_expr.0)
-                        },
-                    )
-                })
-            });
+            let body_fn: BodyFn =
+                Arc::new(move |args: &[Arc<RustExpr>]| super::callback::call(&callback, args));
             user_fn = user_fn.body_arc(body_fn);
         }
 
         if let Some(callbacks) = partials {
             for (i, callback) in callbacks.into_iter().enumerate() {
                 let partial_fn: PartialDerivativeFn =
-                    Arc::new(move |args: &[Arc<RustExpr>]| -> RustExpr {
-                        Python::attach(|py| {
-                            let py_args: Vec<super::expr::PyExpr> = args
-                                .iter()
-                                .map(|a| super::expr::PyExpr((**a).clone()))
-                                .collect();
-                            let Ok(py_list) = py_args.into_pyobject(py) else {
-                                return RustExpr::number(0.0);
-                            };
-
-                            let result = callback.call1(py, (py_list,));
-
-                            result.map_or_else(
-                                |_| RustExpr::number(0.0),
-                                |res| {
-                                    res.extract::<super::expr::PyExpr>(py)
-                                        .map_or_else(|_| RustExpr::number(0.0), |py_expr| py_expr.0)
-                                },
-                            )
-                        })
-                    });
+                    Arc::new(move |args: &[Arc<RustExpr>]| super::callback::call(&callback, args));
 
                 user_fn = user_fn.partial_arc(i, partial_fn).map_err(|e| {
                     PyErr::new::<pyo3::exceptions::PyValueError, _>(format!("{e:?}"))
@@ -167,7 +128,7 @@ impl PyDiff {
 
     /// Differentiate a string formula
     fn diff_str(&self, formula: &str, var: &str) -> PyResult<String> {
-        self.inner.diff_str(formula, var, &[]).map_err(Into::into)
+        super::callback::checked(|| self.inner.diff_str(formula, var, &[]))
     }
 
     /// Differentiate an expression
@@ -187,10 +148,8 @@ impl PyDiff {
             ));
         };
 
-        self.inner
-            .differentiate(&rust_expr, &sym)
+        super::callback::checked(|| self.inner.differentiate(&rust_expr, &sym))
             .map(super::expr::PyExpr)
-            .map_err(Into::into)
     }
 }
 
@@ -277,14 +236,11 @@ impl PySimplify {
     /// Simplify an expression
     fn simplify(&self, expr: &Bound<'_, PyAny>) -> PyResult<super::expr::PyExpr> {
         let rust_expr = super::expr::extract_to_expr(expr)?;
-        self.inner
-            .simplify(&rust_expr)
-            .map(super::expr::PyExpr)
-            .map_err(Into::into)
+        super::callback::checked(|| self.inner.simplify(&rust_expr)).map(super::expr::PyExpr)
     }
 
     /// Simplify a string formula
     fn simplify_str(&self, formula: &str) -> PyResult<String> {
-        self.inner.simplify_str(formula, &[]).map_err(Into::into)
+        super::callback::checked(|| self.inner.simplify_str(formula, &[]))
     }
 }
diff --git a/src/bindings/python/callback.rs b/src/bindings/python/callback.rs
new file mode 100644
index 0000000..3e04945
--- /dev/null
+++ b/src/bindings/python/callback.rs
@@ -0,0 +1,45 @@
+//! Python callables as bodies and partial derivatives of user functions.
+//!
+//! The engine calls them where an error cannot be returned, so a failed call
+//! yields `NaN` there, and the error is raised by the [`checked`] call around it.
+
+use crate::{DiffError, Expr as RustExpr};
+use pyo3::prelude::*;
+use std::cell::RefCell;
+use std::sync::Arc;
+
+thread_local! {
+    /// First error of a callback since the enclosing [`checked`] call began
+    static RAISED: RefCell<Option<PyErr>> = const { RefCell::new(None) };
+}
+
+/// Call `callback` with the list of arguments of the function.
+///
+/// It may return whatever stands for an expression: `Expr`, `Symbol`, `int`, `float` or `str`.
+pub fn call(callback: &Py<PyAny>, args: &[Arc<RustExpr>]) -> RustExpr {
+    Python::attach(|py| {
+        let args: Vec<super::expr::PyExpr> = args
+            .iter()
+            .map(|a| super::expr::PyExpr((**a).clone()))
+            .collect();
+        let result = callback
+            .call1(py, (args,))
+            .and_then(|value| super::expr::extract_to_expr(value.bind(py)));
+        result.unwrap_or_else(|error| {
+            RAISED.with_borrow_mut(|raised| {
+                raised.get_or_insert(error);
+            });
+            RustExpr::number(f64::NAN)
+        })
+    })
+}
+
+/// Run an operation that may call back into Python, and raise the error of a failed callback.
+pub fn checked<T>(operation: impl FnOnce() -> Result<T, DiffError>) -> PyResult<T> {
+    let outer = RAISED.take();
+    let result = operation();
+    match RAISED.replace(outer) {
+        Some(error) => Err(error),
+        None => result.map_err(Into::into),
+    }
+}
diff --git a/src/bindings/python/context.rs b/src/bindings/python/context.rs
index 72ab2bd..f90e974 100644
--- a/src/bindings/python/context.rs
+++ b/src/bindings/python/context.rs
@@ -105,27 +105,8 @@ impl PyContext {
 
         // Handle optional body function
         if let Some(callback) = body_callback {
-            let body_fn: BodyFn = Arc::new(move |args: &[Arc<RustExpr>]| -> RustExpr {
-                Python::attach(|py| {
-                    let py_args: Vec<super::expr::PyExpr> = args
-                        .iter()
-                        .map(|a| super::expr::PyExpr((**a).clone()))
-                        .collect();
-                    let Ok(py_list) = py_args.into_pyobject(py) else {
-                        return RustExpr::number(0.0);
-                    };
-
-                    let result = callback.call1(py, (py_list,));
-
-                    result.map_or_else(
-                        |_| RustExpr::number(0.0),
-                        |res| {
-                            res.extract::<super::expr::PyExpr>(py)
-                                .map_or_else(|_| RustExpr::number(0.0), |py_expr| py_expr.0)
-                        },
-                    )
-                })
-            });
+            let body_fn: BodyFn =
+                Arc::new(move |args: &[Arc<RustExpr>]| super::callback::call(&callback, args));
             user_fn = user_fn.body_arc(body_fn);
         }
 
@@ -133,27 +114,7 @@ impl PyContext {
         if let Some(callbacks) = partials {
             for (i, callback) in callbacks.into_iter().enumerate() {
                 let partial_fn: PartialDerivativeFn =
-                    Arc::new(move |args: &[Arc<RustExpr>]| -> RustExpr {
-                        Python::attach(|py| {
-                            let py_args: Vec<super::expr::PyExpr> = args
-                                .iter()
-                                .map(|a| super::expr::PyExpr((**a).clone()))
-                                .collect();
-                            let Ok(py_list) = py_args.into_pyobject(py) else {
-                                return RustExpr::number(0.0);
-                            };
-
-                            let result = callback.call1(py, (py_list,));
-
-                            result.map_or_else(
-                                |_| RustExpr::number(0.0),
-                                |res| {
-                                    res.extract::<super::expr::PyExpr>(py)
-                                        .map_or_else(|_| RustExpr::number(0.0), |py_expr| py_expr.0)
-                                },
-                            )
-                        })
-                    });
+                    Arc::new(move |args: &[Arc<RustExpr>]| super::callback::call(&callback, args));
 
                 user_fn = user_fn.partial_arc(i, partial_fn).map_err(|e| {
                     PyErr::new::<pyo3::exceptions::PyValueError, _>(format!("{e:?}"))
diff --git a/src/bindings/python/evaluator.rs b/src/bindings/python/evaluator.rs
index 9aa1df4..f51eed5 100644
--- a/src/bindings/python/evaluator.rs
+++ b/src/bindings/python/evaluator.rs
@@ -35,12 +35,14 @@ impl PyCompiledEvaluator {
 
         let evaluator = if let Some(p) = &params {
             param_refs = p.iter().map(std::string::String::as_str).collect();
-            RustCompiledEvaluator::compile(&expr.0, &param_refs, rust_context)
+            super::callback::checked(|| {
+                RustCompiledEvaluator::compile(&expr.0, &param_refs, rust_context)
+            })
         } else {
-            RustCompiledEvaluator::compile_auto(&expr.0, rust_context)
+            super::callback::checked(|| RustCompiledEvaluator::compile_auto(&expr.0, rust_context))
         };
 
-        evaluator.map(|e| Self { evaluator: e }).map_err(Into::into)
+        evaluator.map(|e| Self { evaluator: e })
     }
 
     /// Evaluate at a single point
diff --git a/src/bindings/python/mod.rs b/src/bindings/python/mod.rs
index e6b4e44..5f393ff 100644
--- a/src/bindings/python/mod.rs
+++ b/src/bindings/python/mod.rs
@@ -39,6 +39,7 @@
 
 // Submodules
 mod builder;
+mod callback;
 mod context;
 mod dual;
 mod error;
-- 
2.43.0


From 842f734b941a62f857430c798634cb3c2e094b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:26 +0000
Subject: [PATCH 65/69] fix: split derivative notation at its operators, not at
 the first underscore

---
 src/parser/lexer.rs | 275 ++++++++++++++++++++------------------------
 src/parser/pratt.rs |  22 +++-
 2 files changed, 140 insertions(+), 157 deletions(-)

diff --git a/src/parser/lexer.rs b/src/parser/lexer.rs
index 217e9ba..a156b7c 100644
--- a/src/parser/lexer.rs
+++ b/src/parser/lexer.rs
@@ -18,6 +18,7 @@
 //!    - Users can disambiguate by using explicit operators or declaring `fixed_vars`
 //
 use crate::DiffError;
+use crate::parser::implicit_mul::insert_implicit_multiplication;
 use crate::parser::tokens::{Operator, Token};
 use std::borrow::Cow;
 use std::cmp::Ordering;
@@ -217,80 +218,108 @@ enum RawToken<'src> {
     reason = "Slicing is safe because len is calculated from utf8 lengths"
 )]
 fn scan_derivative_notation(input: &str) -> Result<&str, DiffError> {
-    let mut chars = input.chars().peekable();
-    let mut len = 0;
-    let mut depth = 0;
-
-    // chars is already positioned at start of input. Check for ∂
-    if chars.peek() == Some(&'\u{2202}') {
-        let c = chars.next().expect("Checked peek");
-        len += c.len_utf8();
-    } else {
-        // This function expects to be called when ∂ is detected
-        // but we handle the case where it's not starting with it if needed,
-        // though the caller (lexer) checks it.
+    let (parts, _) = split_derivative(input, 0)?;
+    Ok(parts.text)
+}
+
+/// How deep derivatives may be nested in each other
+const MAX_NESTED_DERIVATIVES: usize = 50;
+
+/// The parts of one derivative ∂^order_inner/∂_var^order
+struct DerivativeParts<'src> {
+    /// All of the notation
+    text: &'src str,
+    /// Order after the first ∂
+    order: Option<&'src str>,
+    /// What is differentiated: a call, a name, another derivative or an expression in parentheses
+    inner: &'src str,
+    /// Differentiation variable
+    var: &'src str,
+    /// Order after the variable
+    var_order: Option<&'src str>,
+}
+
+/// Split the derivative notation `input` starts with into its parts and what follows it
+fn split_derivative(
+    input: &str,
+    depth: usize,
+) -> Result<(DerivativeParts<'_>, &str), DiffError> {
+    let invalid = || DiffError::invalid_token(format!("Invalid derivative notation: {input}"));
+    if depth >= MAX_NESTED_DERIVATIVES {
+        return Err(invalid());
     }
 
-    while let Some(&next_c) = chars.peek() {
-        // Decision logic based on CURRENT depth
-        let accept = if depth > 0 {
-            // Inside parens, accept everything except unmatched closing
-            true
-        } else {
-            // Top level: accept specific chars for derivative notation
-            next_c.is_alphanumeric()
-                || next_c == '_'
-                || next_c == '\u{2202}'
-                || next_c == '^'
-                || next_c == '/'
-                || next_c == '('
-                || next_c == ')'
-                || next_c == ','
-        };
-
-        if !accept {
-            break;
-        }
+    let rest = input.strip_prefix('\u{2202}').ok_or_else(invalid)?;
+    let (order, rest) = split_order(rest);
+    let inner_start = rest.strip_prefix('_').ok_or_else(invalid)?;
 
-        chars.next(); // Consume
-        len += next_c.len_utf8();
+    let (inner, rest) = if inner_start.starts_with('\u{2202}') {
+        let (nested, rest) = split_derivative(inner_start, depth + 1)?;
+        (nested.text, rest)
+    } else {
+        let name_len = identifier_len(inner_start);
+        let group_len = group_len(&inner_start[name_len..]).ok_or_else(invalid)?;
+        inner_start.split_at(name_len + group_len)
+    };
+    if inner.is_empty() {
+        return Err(invalid());
+    }
 
-        // Update depth AFTER consuming
-        match next_c {
-            '(' => depth += 1,
-            ')' => {
-                if depth > 0 {
-                    depth -= 1;
-                } else {
-                    // Unmatched closing paren at top level - stop here
-                    // This logic mirrors the original: break on unmatched closing paren
-                    // However, we consumed it.
-                    // "Unmatched closing paren at top level - stop here"
-                    // Original code:
-                    // seq.push(next_c); chars.next();
-                    // if depth > 0 { depth -= 1 } else { break }
-                    // So it INCLUDED the closing paren in seq, then broke loop.
-                    // Wait, if depth == 0, break.
-                    // So ")(x" -> seq includes ")".
-                    // But then it breaks.
-                    // Let's verify original behavior.
-                    break;
-                }
-            }
-            _ => {}
-        }
+    let rest = rest.strip_prefix("/\u{2202}_").ok_or_else(invalid)?;
+    let (var, rest) = rest.split_at(identifier_len(rest));
+    if var.is_empty() {
+        return Err(invalid());
     }
+    let (var_order, rest) = split_order(rest);
 
-    let seq = &input[..len];
+    let parts = DerivativeParts {
+        text: &input[..input.len() - rest.len()],
+        order,
+        inner,
+        var,
+        var_order,
+    };
+    Ok((parts, rest))
+}
 
-    // Basic validation: derivative notation should contain more than just '∂'
-    if seq.len() <= '\u{2202}'.len_utf8() {
-        return Err(DiffError::invalid_token(format!(
-            "Incomplete derivative notation: {seq}"
-        )));
+/// Split off an order `^n`
+fn split_order(s: &str) -> (Option<&str>, &str) {
+    let Some(digits) = s.strip_prefix('^') else {
+        return (None, s);
+    };
+    let end = digits
+        .find(|c: char| !c.is_ascii_digit())
+        .unwrap_or(digits.len());
+    if end == 0 {
+        return (None, s);
     }
+    let (order, rest) = digits.split_at(end);
+    (Some(order), rest)
+}
 
-    Ok(seq)
+/// Length of the identifier `s` starts with
+fn identifier_len(s: &str) -> usize {
+    s.find(|c: char| !is_identifier_continue(c))
+        .unwrap_or(s.len())
+}
+
+/// Length of the parenthesized group `s` starts with: 0 without one, `None` if it is not closed
+fn group_len(s: &str) -> Option<usize> {
+    if !s.starts_with('(') {
+        return Some(0);
+    }
+    let mut depth = 0_usize;
+    for (i, c) in s.char_indices() {
+        match c {
+            '(' => depth += 1,
+            ')' => depth -= 1,
+            _ => {}
+        }
+        if depth == 0 {
+            return Some(i + 1);
+        }
+    }
+    None
 }
 
 /// Pass 1: Scan characters and create raw tokens
@@ -664,104 +693,48 @@ fn parse_derivative_notation<'src, S: std::hash::BuildHasher>(
     fixed_vars: &HashSet<String, S>,
     custom_functions: &HashSet<String, S>,
 ) -> Result<Token<'src>, DiffError> {
-    // Format: ∂^order_func(args)/∂_var^order
-    if !s.starts_with("\u{2202}") || !s.contains("/\u{2202}_") {
-        return Err(DiffError::invalid_token(format!(
-            "Invalid derivative notation '{s}': must start with '\u{2202}' and contain '/\u{2202}_'"
-        )));
+    // Format: ∂^order_inner/∂_var^order, where the order 1 need not be written
+    let invalid =
+        |why: &str| DiffError::invalid_token(format!("Invalid derivative notation '{s}': {why}"));
+    let (parts, rest) = split_derivative(s, 0)?;
+    if !rest.is_empty() {
+        return Err(invalid("it ends early"));
     }
 
-    let parts: Vec<&str> = s.split("/\u{2202}_").collect();
-    if parts.len() != 2 {
-        return Err(DiffError::invalid_token(format!(
-            "Invalid derivative notation '{}': expected exactly one '/\u{2202}_' separator, found {}",
-            s,
-            parts.len() - 1
-        )));
+    // Safety: prevent unreasonable recursion
+    if parts.inner.matches("/\u{2202}_").count() > MAX_NESTED_DERIVATIVES {
+        return Err(invalid("too many derivatives inside of each other"));
     }
 
-    let left = parts[0]; // ∂^order_func(args) or ∂_func(args)
-    let right = parts[1]; // var^order or var
-
-    // Parse left side
-    let left_parts: Vec<&str> = left.split('_').collect();
-    if left_parts.len() < 2 {
-        return Err(DiffError::invalid_token(format!(
-            "Invalid derivative notation '{s}': left side must contain underscore separator"
-        )));
-    }
-
-    // Parse order from left (defaults to 1 if not specified)
-    // e.g., "∂^n" -> n, "∂" -> 1
-    // Note: '∂' is 3 bytes in UTF-8, '^' is 1 byte = 4 bytes total to skip
-    let order_str = if left_parts[0].starts_with("\u{2202}^") {
-        left_parts[0].get(4..).expect("Checked prefix boundaries")
-    } else if left_parts[0] == "\u{2202}" {
-        "1"
-    } else {
-        return Err(DiffError::invalid_token(format!(
-            "Invalid derivative notation '{s}': expected '\u{2202}' or '\u{2202}^order'"
-        )));
-    };
-
-    let order = order_str.parse::<u32>().map_err(|_e| {
-        DiffError::invalid_token(format!(
-            "Invalid derivative notation '{s}': order '{order_str}' is not a valid number"
-        ))
-    })?;
+    let order_str = parts.order.unwrap_or("1");
+    let order = order_str
+        .parse::<u32>()
+        .map_err(|_e| invalid("the order is not a valid number"))?;
 
     // Safety check: prevent unreasonably high derivative orders
     if order > 100 {
-        return Err(DiffError::invalid_token(format!(
-            "Invalid derivative notation '{s}': order {order} exceeds maximum (100)"
-        )));
+        return Err(invalid("the order exceeds the maximum (100)"));
+    }
+    if parts.var_order.is_some_and(|o| o.parse() != Ok(order)) {
+        return Err(invalid("the two orders differ"));
     }
 
-    // Parse function name and args
-    // left_parts[1] is "func(args)" or "func"
-    let func_str = left_parts[1];
-    let (func_name, args_tokens) = if let Some(open_paren) = func_str.find('(') {
-        if func_str.ends_with(')') {
-            let name = func_str.get(..open_paren).expect("Checked paren position");
-            // .to_owned(); // Changed to borrow
-            let args_body = func_str
-                .get(open_paren + 1..func_str.len() - 1)
-                .expect("Checked paren boundaries");
-
-            // Safety: prevent infinite recursion on malformed nested derivatives
-            // Check if we're about to recursively parse another derivative
-            if args_body.contains("\u{2202}") && args_body.contains("/\u{2202}_") {
-                // This is likely a nested derivative - limit recursion depth
-                // by ensuring the args don't contain another full derivative notation
-                let nested_depth = args_body.matches("/\u{2202}_").count();
-                if nested_depth > 3 {
-                    return Err(DiffError::invalid_token(format!(
-                        "Invalid derivative notation '{s}': nested derivative depth exceeds limit"
-                    )));
-                }
-            }
-
-            // Recursively lex the arguments
-            let tokens = lex(args_body, fixed_vars, custom_functions)?;
-            (name, tokens)
-        } else {
-            return Err(DiffError::invalid_token(format!(
-                "Invalid derivative notation '{s}': unmatched parentheses in function arguments"
-            )));
-        }
-    } else {
-        (func_str, Vec::new())
-    };
-
-    // Parse right side: var^order or var
-    let right_parts: Vec<&str> = right.split('^').collect();
-    let var = right_parts[0]; //.to_owned();
+    // A call or a name; another derivative or a group stands without function name
+    let (func, args) = parts.inner.split_at(identifier_len(parts.inner));
+    let args = args
+        .strip_prefix('(')
+        .and_then(|args| args.strip_suffix(')'))
+        .unwrap_or(args);
+    let args = insert_implicit_multiplication(
+        lex(args, fixed_vars, custom_functions)?,
+        custom_functions,
+    );
 
     Ok(Token::Derivative {
         order,
-        func: Cow::Borrowed(func_name), //Borrow
-        args: args_tokens,
-        var: Cow::Borrowed(var), // Borrow
+        func: Cow::Borrowed(func),
+        args,
+        var: Cow::Borrowed(parts.var),
     })
 }
 
diff --git a/src/parser/pratt.rs b/src/parser/pratt.rs
index 30e4449..6ef38cb 100644
--- a/src/parser/pratt.rs
+++ b/src/parser/pratt.rs
@@ -320,7 +320,7 @@ impl<'src> Parser<'_, 'src> {
                 self.advance();
 
                 let arg_exprs =
-                    if args.is_empty() {
+                    if args.is_empty() && !func.is_empty() {
                         // Implicit dependency on the differentiation variable
                         // Implicit dependency on the differentiation variable
                         vec![self.context.map_or_else(
@@ -339,9 +339,6 @@ impl<'src> Parser<'_, 'src> {
                         let mut exprs = Vec::new();
 
                         loop {
-                            if sub_parser.current().is_none() {
-                                break;
-                            }
                             let expr = sub_parser.parse_nested(0)?;
                             exprs.push(expr);
 
@@ -362,9 +359,22 @@ impl<'src> Parser<'_, 'src> {
                         exprs
                     };
 
-                let inner_expr = Expr::func_multi(func, arg_exprs);
+                let inner_expr = if func.is_empty() {
+                    // Another derivative, or an expression in parentheses
+                    let mut arg_exprs = arg_exprs.into_iter();
+                    match (arg_exprs.next(), arg_exprs.next()) {
+                        (Some(inner), None) => inner,
+                        _ => return Err(DiffError::invalid_token(token.to_user_string())),
+                    }
+                } else {
+                    Expr::func_multi(func, arg_exprs)
+                };
 
-                Ok(Expr::derivative(inner_expr, var, *order))
+                let var = self.context.map_or_else(
+                    || crate::core::symbol::symb_interned(var),
+                    |ctx| ctx.symb(var.as_ref()).interned(),
+                );
+                Ok(Expr::derivative_interned(inner_expr, var, *order))
             }
 
             _ => Err(DiffError::invalid_token(token.to_user_string())),
-- 
2.43.0


From b777e238c5c29e93b636b8c5d9775c7262f35e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:26 +0000
Subject: [PATCH 66/69] fix: print derivatives, subscripts and long names so
 that they read back as themselves

---
 src/core/display.rs | 86 ++++++++++++++++++++++++++++++---------------
 1 file changed, 58 insertions(+), 28 deletions(-)

diff --git a/src/core/display.rs b/src/core/display.rs
index 2426623..25d8afc 100644
--- a/src/core/display.rs
+++ b/src/core/display.rs
@@ -25,6 +25,7 @@
 //! - Derivatives use ∂ notation
 
 use crate::core::known_symbols as ks;
+use crate::core::symbol::InternedSymbol;
 use crate::{Expr, ExprKind};
 use rustc_hash::FxHashMap;
 use std::fmt;
@@ -197,7 +198,8 @@ fn needs_parens_as_base(expr: &Expr) -> bool {
         | ExprKind::Product(_)
         | ExprKind::Div(_, _)
         | ExprKind::Poly(_)
-        | ExprKind::Pow(_, _) => true,
+        | ExprKind::Pow(_, _)
+        | ExprKind::Derivative { .. } => true,
         ExprKind::Number(n) => *n < 0.0, // Negative numbers need parens: (-1)^x not -1^x
         _ => false,
     }
@@ -227,7 +229,16 @@ fn format_symbol_expr(
     let ExprKind::Symbol(s) = &expr.kind else {
         return Err(fmt::Error);
     };
+    format_symbol(f, s, mode, cache)
+}
 
+/// Format a symbol by itself, such as the variable of a derivative
+fn format_symbol(
+    f: &mut fmt::Formatter<'_>,
+    s: &InternedSymbol,
+    mode: FormatMode,
+    cache: Option<&SymbolCache>,
+) -> fmt::Result {
     let name_str = cache.map_or_else(
         || s.as_ref(),
         |c| c.get(&s.id()).map_or_else(|| s.as_ref(), Arc::as_ref),
@@ -241,11 +252,19 @@ fn format_symbol_expr(
     match mode {
         FormatMode::Standard => write!(f, "{name_str}"),
         FormatMode::Latex => {
-            if let Some(greek) = greek_to_latex(name_str) {
-                write!(f, "{greek}")
+            // What follows an underscore is a subscript
+            let (base, subscript) = match name_str.split_once('_') {
+                Some((base, subscript)) if !base.is_empty() && !subscript.is_empty() => {
+                    (base, Some(subscript))
+                }
+                _ => (name_str, None),
+            };
+            if let Some(greek) = greek_to_latex(base) {
+                write!(f, "{greek}")?;
             } else {
-                write!(f, "{name_str}")
+                write!(f, "{}", base.replace('_', r"\_"))?;
             }
+            subscript.map_or(Ok(()), |sub| write!(f, "_{{{}}}", sub.replace('_', r"\_")))
         }
         FormatMode::Unicode => {
             if let Some(greek) = greek_to_unicode(name_str) {
@@ -257,6 +276,14 @@ fn format_symbol_expr(
     }
 }
 
+/// Whether what is differentiated stands behind ∂ without parentheses
+const fn bare_in_derivative(inner: &Expr) -> bool {
+    matches!(
+        inner.kind,
+        ExprKind::FunctionCall { .. } | ExprKind::Derivative { .. }
+    )
+}
+
 /// Consolidated parenthesis wrapping logic
 fn format_wrapped(
     f: &mut fmt::Formatter<'_>,
@@ -996,7 +1023,7 @@ fn format_function_call_expr(
             "sinc" => r"\operatorname{sinc}".to_owned(),
             "round" => r"\operatorname{round}".to_owned(),
             // Default: wrap in \text{}
-            _ => format!(r"\text{{{name}}}"),
+            _ => format!(r"\text{{{}}}", name.replace('_', r"\_")),
         };
 
         if args.is_empty() {
@@ -1157,7 +1184,11 @@ impl fmt::Display for Expr {
             ExprKind::Pow(u, v) => format_pow_expr(f, u, v, FormatMode::Standard, None),
 
             ExprKind::Derivative { inner, var, order } => {
-                write!(f, "\u{2202}^{order}_{inner}/\u{2202}_{var}^{order}")
+                if bare_in_derivative(inner) {
+                    write!(f, "\u{2202}^{order}_{inner}/\u{2202}_{var}^{order}")
+                } else {
+                    write!(f, "\u{2202}^{order}_({inner})/\u{2202}_{var}^{order}")
+                }
             }
 
             // Poly: display inline as a sum of terms
@@ -1213,23 +1244,23 @@ fn format_latex(
         ExprKind::Pow(u, v) => format_pow_expr(f, u, v, FormatMode::Latex, cache),
 
         ExprKind::Derivative { inner, var, order } => {
-            if *order == 1 {
-                write!(
-                    f,
-                    r"\frac{{\partial {}}}{{\partial {}}}",
-                    LatexFormatter { expr: inner, cache },
-                    var
-                )
+            let (open, close) = if bare_in_derivative(inner) {
+                ("", "")
             } else {
-                write!(
-                    f,
-                    r"\frac{{\partial^{} {}}}{{\partial {}^{}}}",
-                    order,
-                    LatexFormatter { expr: inner, cache },
-                    var,
-                    order
-                )
-            }
+                (r"\left(", r"\right)")
+            };
+            let power = if *order == 1 {
+                String::new()
+            } else {
+                format!("^{{{order}}}")
+            };
+            write!(
+                f,
+                r"\frac{{\partial{power} {open}{}{close}}}{{\partial ",
+                LatexFormatter { expr: inner, cache }
+            )?;
+            format_symbol(f, var, FormatMode::Latex, cache)?;
+            write!(f, "{power}}}")
         }
 
         // Poly: display inline in LaTeX
@@ -1326,12 +1357,11 @@ fn format_unicode(
             let sup = num_to_superscript(f64::from(*order));
             write!(
                 f,
-                "\u{2202}{}({})/\u{2202}{}{}",
-                sup,
-                UnicodeFormatter { expr: inner, cache },
-                var,
-                sup
-            )
+                "\u{2202}{sup}({})/\u{2202}",
+                UnicodeFormatter { expr: inner, cache }
+            )?;
+            format_symbol(f, var, FormatMode::Unicode, cache)?;
+            write!(f, "{sup}")
         }
 
         // Poly: display inline in unicode
-- 
2.43.0


From c93c03276143cb9c82f711cfc22b691f7ba332c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:26 +0000
Subject: [PATCH 67/69] fix: take powers of infinite and undefined lanes with
 powf in batches

---
 src/evaluator/simd.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/evaluator/simd.rs b/src/evaluator/simd.rs
index f463a7d..6c9da48 100644
--- a/src/evaluator/simd.rs
+++ b/src/evaluator/simd.rs
@@ -503,7 +503,18 @@ impl CompiledEvaluator {
                 Instruction::Pow => {
                     let exp = pop!();
                     let top = top_mut!();
-                    *top = top.pow_f64x4(exp);
+                    let (base, e) = (top.to_array(), exp.to_array());
+                    *top = if base.iter().chain(&e).all(|v| v.is_finite()) {
+                        top.pow_f64x4(exp)
+                    } else {
+                        // The vector version has no limits at infinity
+                        f64x4::new([
+                            base[0].powf(e[0]),
+                            base[1].powf(e[1]),
+                            base[2].powf(e[2]),
+                            base[3].powf(e[3]),
+                        ])
+                    };
                 }
 
                 // Unary operations
-- 
2.43.0


From 83012bfb134e3e38b6aeed41d8e37308e5be1b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:26 +0000
Subject: [PATCH 68/69] fix: an order that is no number is not order zero

---
 src/functions/definitions.rs | 92 +++++++++---------------------------
 1 file changed, 22 insertions(+), 70 deletions(-)

diff --git a/src/functions/definitions.rs b/src/functions/definitions.rs
index 7d52543..0a8d68e 100644
--- a/src/functions/definitions.rs
+++ b/src/functions/definitions.rs
@@ -32,6 +32,15 @@ fn assoc_legendre_below(l_minus_1: Expr, m: &Arc<Expr>, x: Arc<Expr>) -> Expr {
     )
 }
 
+/// The integer order or degree of a function; NaN is none
+fn integer_order(n: f64) -> Option<i32> {
+    #[allow(
+        clippy::cast_possible_truncation,
+        reason = "Orders are small integers, others saturate"
+    )]
+    (!n.is_nan()).then(|| n.round() as i32)
+}
+
 /// Return all function definitions for populating the registry
 #[allow(
     clippy::too_many_lines,
@@ -917,11 +926,7 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
             name: "besselj",
             arity: 2..=2,
             eval: |args| {
-                #[allow(
-                    clippy::cast_possible_truncation,
-                    reason = "Bessel order is always a small integer"
-                )]
-                let n = args[0].round() as i32;
+                let n = integer_order(args[0])?;
                 crate::math::bessel_j(n, args[1])
             },
             derivative: |args, arg_primes| {
@@ -954,11 +959,7 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
             name: "bessely",
             arity: 2..=2,
             eval: |args| {
-                #[allow(
-                    clippy::cast_possible_truncation,
-                    reason = "Bessel order is always a small integer"
-                )]
-                let n = args[0].round() as i32;
+                let n = integer_order(args[0])?;
                 crate::math::bessel_y(n, args[1])
             },
             derivative: |args, arg_primes| {
@@ -992,11 +993,7 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
             name: "besseli",
             arity: 2..=2,
             eval: |args| {
-                #[allow(
-                    clippy::cast_possible_truncation,
-                    reason = "Bessel order is always a small integer"
-                )]
-                let n = args[0].round() as i32;
+                let n = integer_order(args[0])?;
                 Some(crate::math::bessel_i(n, args[1]))
             },
             derivative: |args, arg_primes| {
@@ -1030,11 +1027,7 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
             name: "besselk",
             arity: 2..=2,
             eval: |args| {
-                #[allow(
-                    clippy::cast_possible_truncation,
-                    reason = "Bessel order is always a small integer"
-                )]
-                let n = args[0].round() as i32;
+                let n = integer_order(args[0])?;
                 crate::math::bessel_k(n, args[1])
             },
             derivative: |args, arg_primes| {
@@ -1068,12 +1061,7 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
             name: "polygamma",
             arity: 2..=2,
             eval: |args| {
-                #[allow(
-                    clippy::cast_possible_truncation,
-                    reason = "Polygamma order is always a small integer"
-                )]
-                // Polygamma order is always a small integer
-                let n = args[0].round() as i32;
+                let n = integer_order(args[0])?;
                 crate::math::eval_polygamma(n, args[1])
             },
             derivative: |args, arg_primes| {
@@ -1229,12 +1217,7 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
             name: "zeta_deriv",
             arity: 2..=2,
             eval: |args| {
-                #[allow(
-                    clippy::cast_possible_truncation,
-                    reason = "Zeta derivative order is always a small integer"
-                )]
-                // Zeta derivative order is always a small integer
-                let n = args[0].round() as i32;
+                let n = integer_order(args[0])?;
                 crate::math::eval_zeta_deriv(n, args[1])
             },
             derivative: |args, arg_primes| {
@@ -1258,12 +1241,7 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
             name: "hermite",
             arity: 2..=2,
             eval: |args| {
-                #[allow(
-                    clippy::cast_possible_truncation,
-                    reason = "Hermite polynomial degree is always a small integer"
-                )]
-                // Hermite polynomial degree is always a small integer
-                let n = args[0].round() as i32;
+                let n = integer_order(args[0])?;
                 crate::math::eval_hermite(n, args[1])
             },
             derivative: |args, arg_primes| {
@@ -1288,16 +1266,8 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
             name: "assoc_legendre",
             arity: 3..=3,
             eval: |args| {
-                #[allow(
-                    clippy::cast_possible_truncation,
-                    reason = "Legendre l is always a small integer"
-                )]
-                let l = args[0].round() as i32;
-                #[allow(
-                    clippy::cast_possible_truncation,
-                    reason = "Legendre m is always a small integer"
-                )]
-                let m = args[1].round() as i32;
+                let l = integer_order(args[0])?;
+                let m = integer_order(args[1])?;
                 crate::math::eval_assoc_legendre(l, m, args[2])
             },
             derivative: |args, arg_primes| {
@@ -1337,18 +1307,8 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
             arity: 4..=4,
             eval: |args| {
                 // Order/degree args are integers by definition
-                #[allow(
-                    clippy::cast_possible_truncation,
-                    reason = "Spherical harmonic l is always a small integer"
-                )]
-                // Spherical harmonic l is always a small integer
-                let l = args[0].round() as i32;
-                #[allow(
-                    clippy::cast_possible_truncation,
-                    reason = "Spherical harmonic m is always a small integer"
-                )]
-                // Spherical harmonic m is always a small integer
-                let m = args[1].round() as i32;
+                let l = integer_order(args[0])?;
+                let m = integer_order(args[1])?;
                 crate::math::eval_spherical_harmonic(l, m, args[2], args[3])
             },
             derivative: |args, arg_primes| {
@@ -1444,16 +1404,8 @@ pub fn all_definitions() -> Vec<FunctionDefinition> {
             arity: 4..=4,
             eval: |args| {
                 // Order/degree args are integers by definition
-                #[allow(
-                    clippy::cast_possible_truncation,
-                    reason = "ynm l is always a small integer"
-                )]
-                let l = args[0].round() as i32;
-                #[allow(
-                    clippy::cast_possible_truncation,
-                    reason = "ynm m is always a small integer"
-                )]
-                let m = args[1].round() as i32;
+                let l = integer_order(args[0])?;
+                let m = integer_order(args[1])?;
                 crate::math::eval_spherical_harmonic(l, m, args[2], args[3])
             },
             derivative: |args, arg_primes| {
-- 
2.43.0


From 716ea2bf4c4a7021522e72fc27e36e4a222fedbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:42 +0000
Subject: [PATCH 69/69] fix: a definition in a context goes before the built-in
 of its name when differentiating and simplifying

---
 src/core/unified_context.rs  |  3 +++
 src/diff/engine.rs           | 15 ++++++++++-----
 src/simplification/engine.rs |  7 +++++++
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/core/unified_context.rs b/src/core/unified_context.rs
index 9a177b0..d02a79c 100644
--- a/src/core/unified_context.rs
+++ b/src/core/unified_context.rs
@@ -522,6 +522,9 @@ impl Context {
     #[inline]
     #[must_use]
     pub fn get_user_fn_by_id(&self, id: u64) -> Option<&UserFunction> {
+        if self.user_functions.is_empty() {
+            return None;
+        }
         self.user_functions.get(&id).or_else(|| {
             let symbol = crate::core::symbol::lookup_by_id(id)?;
             self.get_user_fn(symbol.name()?)
diff --git a/src/diff/engine.rs b/src/diff/engine.rs
index 78a867c..082fab7 100644
--- a/src/diff/engine.rs
+++ b/src/diff/engine.rs
@@ -96,8 +96,14 @@ impl Expr {
                     return Self::number(0.0);
                 }
 
+                // What a definition in the context says goes before a built-in of that name
+                let user_fn = ctx
+                    .get_user_fn_by_id(name.id())
+                    .filter(|user_fn| user_fn.accepts_arity(args.len()));
+                let defined = user_fn.is_some_and(|f| f.body.is_some() || !f.partials.is_empty());
+
                 // Special handling for exponential function e^x
-                if name.id() == ks::KS.exp && args.len() == 1 {
+                if !defined && name.id() == ks::KS.exp && args.len() == 1 {
                     let inner_deriv = args[0].derive_impl(var, ctx);
                     return Self::mul_expr(
                         Self::func_symbol(ks::get_symbol(ks::KS.exp), (*args[0]).clone()),
@@ -106,7 +112,8 @@ impl Expr {
                 }
 
                 // Check Registry (built-in functions like sin, cos, etc.)
-                if let Some(def) = crate::functions::registry::Registry::get_by_symbol(name)
+                if !defined
+                    && let Some(def) = crate::functions::registry::Registry::get_by_symbol(name)
                     && def.validate_arity(args.len())
                 {
                     let arg_primes: Vec<Self> =
@@ -115,9 +122,7 @@ impl Expr {
                 }
 
                 // Check for user-defined function partials in context
-                if let Some(user_fn) = ctx.get_user_fn_by_id(name.id())
-                    && user_fn.accepts_arity(args.len())
-                {
+                if let Some(user_fn) = user_fn {
                     // Multi-arg chain rule: dF/dx = Σ (∂F/∂arg[i]) * (darg[i]/dx)
                     let mut terms = Vec::new();
 
diff --git a/src/simplification/engine.rs b/src/simplification/engine.rs
index aa3463b..960ed7f 100644
--- a/src/simplification/engine.rs
+++ b/src/simplification/engine.rs
@@ -380,6 +380,13 @@ impl Simplifier {
         // Update depth in-place (context.domain_safe is already set in simplify())
         self.context.set_depth(depth);
 
+        // The definition of a function goes before what is known of a built-in of that name
+        if let AstKind::FunctionCall { name, args } = &current.kind
+            && let Some(body) = self.context.expand_custom_body(name.id(), args)
+        {
+            return Arc::new(body);
+        }
+
         // Get the expression kind once and only check rules that apply to it
         let kind = ExprKind::of(current.as_ref());
 
-- 
2.43.0


From 2466d74407703b8a0576b2191485531ce129eeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 01/16] fix: remquof: wrap the quotient when rounding up the
 last bit

With overflow checks on, a quotient of u32::MAX panicked; remquo already wraps.
---
 libm/src/math/remquof.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libm/src/math/remquof.rs b/libm/src/math/remquof.rs
index b0e85ca..673cc92 100644
--- a/libm/src/math/remquof.rs
+++ b/libm/src/math/remquof.rs
@@ -85,7 +85,7 @@ pub fn remquof(mut x: f32, mut y: f32) -> (f32, i32) {
     }
     if ex == ey || (ex + 1 == ey && (2.0 * x > y || (2.0 * x == y && (q % 2) != 0))) {
         x -= y;
-        q += 1;
+        q = q.wrapping_add(1);
     }
     q &= 0x7fffffff;
     let quo = if sx ^ sy { -(q as i32) } else { q as i32 };
-- 
2.43.0


From 0e8069ac7ae94526212a74c9f75095b1b7211ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 02/16] fix: fmaf: avoid double rounding of subnormal results

The halfway test only looked at the bits lost by normal results.
---
 libm/src/math/fma_wide.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libm/src/math/fma_wide.rs b/libm/src/math/fma_wide.rs
index 08b78b0..8838e32 100644
--- a/libm/src/math/fma_wide.rs
+++ b/libm/src/math/fma_wide.rs
@@ -44,8 +44,15 @@ where
     let re = result.ex();
     let zb: B = z.widen();
 
-    let prec_diff = B::SIG_BITS - F::SIG_BITS;
-    let excess_prec = ui & ((one << prec_diff) - one);
+    let min_normal_exp = (B::EXP_BIAS as i32 + F::EXP_MIN) as u32;
+    let mut prec_diff = B::SIG_BITS - F::SIG_BITS;
+    if re < min_normal_exp {
+        // Subnormal results lose more bits when narrowed. Anything less than half of the smallest
+        // subnormal cannot be halfway, so there is no need to look further than that.
+        prec_diff = (prec_diff + (min_normal_exp - re)).min(B::SIG_BITS + 2);
+    }
+    let sig = (ui & B::SIG_MASK) | B::IMPLICIT_BIT;
+    let excess_prec = sig & ((one << prec_diff) - one);
     let halfway = one << (prec_diff - 1);
 
     // Common case: the larger precision is fine if...
-- 
2.43.0


From 12efe0b0c98009a780c081af0da3ffe9baa846ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 03/16] fix: fma: take the sticky bit from the bits that are
 shifted out

It was computed from the already shifted value.
---
 libm/src/math/fma.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libm/src/math/fma.rs b/libm/src/math/fma.rs
index e0b3347..0141d42 100644
--- a/libm/src/math/fma.rs
+++ b/libm/src/math/fma.rs
@@ -93,9 +93,10 @@ where
                 // Exactly `sbits`, nothing to do
             } else if d < sbits {
                 // Remaining shift fits within `sbits`. Leave `z` in place, shift `x * y`
+                let sticky = IntTy::<F>::from((rlo << (sbits - d)) != zero);
                 rlo = (rhi << (sbits - d)) | (rlo >> d);
                 // Set the sticky bit
-                rlo |= IntTy::<F>::from((rlo << (sbits - d)) != zero);
+                rlo |= sticky;
                 rhi = rhi >> d;
             } else {
                 // `z`'s magnitude is enough that `x * y` is irrelevant. It was nonzero, so set
-- 
2.43.0


From 66936dd23ec98f9b8cfdc407f8ef60da0b71a61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 04/16] fix: fmaximum_num: return -0.0 rather than NaN for
 (-0.0, NaN)

---
 libm/src/math/generic/fmaximum_num.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libm/src/math/generic/fmaximum_num.rs b/libm/src/math/generic/fmaximum_num.rs
index f7efdde..2366314 100644
--- a/libm/src/math/generic/fmaximum_num.rs
+++ b/libm/src/math/generic/fmaximum_num.rs
@@ -15,12 +15,14 @@ use super::super::Float;
 
 #[inline]
 pub fn fmaximum_num<F: Float>(x: F, y: F) -> F {
-    let res =
-        if x.is_nan() || x < y || (x.to_bits() == F::NEG_ZERO.to_bits() && y.is_sign_positive()) {
-            y
-        } else {
-            x
-        };
+    let res = if x.is_nan()
+        || x < y
+        || (x.to_bits() == F::NEG_ZERO.to_bits() && y.is_sign_positive() && !y.is_nan())
+    {
+        y
+    } else {
+        x
+    };
 
     // Canonicalize
     res * F::ONE
-- 
2.43.0


From e725cffb9322a57b9a7e7ded0d76f38bc0907bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 05/16] fix: hex float parsing: handle exponents far out of
 range

The exponent overflowed (panic with overflow checks, a wrong number without),
and exponents past 2^16 were shifted out for f128.
---
 libm/src/math/support/hex_float.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libm/src/math/support/hex_float.rs b/libm/src/math/support/hex_float.rs
index 819e2f5..d72edde 100644
--- a/libm/src/math/support/hex_float.rs
+++ b/libm/src/math/support/hex_float.rs
@@ -123,6 +123,15 @@ const fn parse_finite(
         Ok(Parsed { sig, exp }) => (sig, exp),
     };
 
+    // Exponents this far out overflow or underflow whatever the significand is. Clamp them so that
+    // the arithmetic below stays in range.
+    let exp_limit = max_msb - min_lsb + 256;
+    if exp > exp_limit {
+        exp = exp_limit;
+    } else if exp < -exp_limit {
+        exp = -exp_limit;
+    }
+
     let mut round_bits = u128_ilog2(sig) as i32 - sig_bits as i32;
 
     // Round at least up to min_lsb
@@ -155,6 +164,8 @@ const fn parse_finite(
     // Expressed as a multiple U of the smallest subnormal value:
     // X = U * 2^min_lsb, so U = sig * 2^(exp-min_lsb)
     let uexp = (exp - min_lsb) as u128;
+    // No exponent beyond infinity's own needs to be told apart, and larger ones could be shifted out
+    let uexp = if uexp >> exp_bits != 0 { (1 << exp_bits) - 1 } else { uexp };
     let uexp = uexp << sig_bits;
 
     // Note that it is possible for the exponent bits to equal 2 here
@@ -289,8 +300,7 @@ const fn parse_hex(mut b: &[u8]) -> Result<Parsed, HexFloatParseError> {
             None => return Err(HexFloatParseError("expected decimal digit")),
         };
         some_digits = true;
-        pexp = pexp.saturating_mul(10);
-        pexp += digit as u32;
+        pexp = pexp.saturating_mul(10).saturating_add(digit as u32);
     }
 
     if !some_digits {
-- 
2.43.0


From b1374b10b3dabd92adc1a282ae348e55b5084466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 06/16] fix: powf: do not overflow or underflow early for |y| >
 2^27

For x = 1 - 9*2^-24 and |y| just above 2^27 the result is about 2^-104.
---
 libm/src/math/powf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libm/src/math/powf.rs b/libm/src/math/powf.rs
index 839c6c2..00d6656 100644
--- a/libm/src/math/powf.rs
+++ b/libm/src/math/powf.rs
@@ -181,7 +181,7 @@ pub fn powf(x: f32, y: f32) -> f32 {
     if iy > 0x4d000000 {
         /* if |y| > 2**27 */
         /* over/underflow if x is not close to one */
-        if ix < 0x3f7ffff8 {
+        if ix < 0x3f7ffff3 {
             return if hy < 0 { sn * HUGE * HUGE } else { sn * TINY * TINY };
         }
 
-- 
2.43.0


From e6a1d1649faeea74aae5c8d8b564ff7914a44172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 07/16] fix: pow: keep log2(x) accurate for |y| > 2^31

The product IVLN2_H * t was taken to be exact, but t may have up to 32 bits,
which cost up to 700 ULP in the result.
---
 libm/src/math/pow.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libm/src/math/pow.rs b/libm/src/math/pow.rs
index 80b2a24..d2343bc 100644
--- a/libm/src/math/pow.rs
+++ b/libm/src/math/pow.rs
@@ -249,8 +249,9 @@ pub fn pow(x: f64, y: f64) -> f64 {
         log(x) by x-x^2/2+x^3/3-x^4/4 */
         let t: f64 = ax - 1.0; /* t has 20 trailing zeros */
         let w: f64 = (t * t) * (0.5 - t * (0.3333333333333333333333 - t * 0.25));
-        let u: f64 = IVLN2_H * t; /* ivln2_h has 21 sig. bits */
-        let v: f64 = t * IVLN2_L - w * IVLN2;
+        let th: f64 = with_set_low_word(t, 0); /* so that u is exact */
+        let u: f64 = IVLN2_H * th; /* ivln2_h has 24 sig. bits */
+        let v: f64 = (t * IVLN2_L + (t - th) * IVLN2_H) - w * IVLN2;
         t1 = with_set_low_word(u + v, 0);
         t2 = v - (t1 - u);
     } else {
-- 
2.43.0


From 636ab4b068615e6f3de808b81dc6a148e501c922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 08/16] fix: acosh, acoshf: return NaN for x < -1

---
 libm/src/math/acosh.rs  | 4 +++-
 libm/src/math/acoshf.rs | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/libm/src/math/acosh.rs b/libm/src/math/acosh.rs
index d1f5b9f..e453deb 100644
--- a/libm/src/math/acosh.rs
+++ b/libm/src/math/acosh.rs
@@ -12,7 +12,9 @@ pub fn acosh(x: f64) -> f64 {
     let u = x.to_bits();
     let e = ((u >> 52) as usize) & 0x7ff;
 
-    /* x < 1 domain error is handled in the called functions */
+    if x < 1.0 {
+        return (x - x) / (x - x);
+    }
 
     if e < 0x3ff + 1 {
         /* |x| < 2, up to 2ulp error in [1,1.125] */
diff --git a/libm/src/math/acoshf.rs b/libm/src/math/acoshf.rs
index ad3455f..055beed 100644
--- a/libm/src/math/acoshf.rs
+++ b/libm/src/math/acoshf.rs
@@ -12,6 +12,9 @@ pub fn acoshf(x: f32) -> f32 {
     let u = x.to_bits();
     let a = u & 0x7fffffff;
 
+    if x < 1.0 {
+        return (x - x) / (x - x);
+    }
     if a < 0x3f800000 + (1 << 23) {
         /* |x| < 2, invalid if x < 1 or nan */
         /* up to 2ulp error in [1,1.125] */
-- 
2.43.0


From 0cf75399bd30030856cd1a1b25340a6b5b2d03db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 09/16] fix: expm1f: do not overflow for representable results

Also makes sinhf finite (it was NaN) for |x| just below log(FLT_MAX).
---
 libm/src/math/expm1f.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libm/src/math/expm1f.rs b/libm/src/math/expm1f.rs
index 12c6f53..a347ce6 100644
--- a/libm/src/math/expm1f.rs
+++ b/libm/src/math/expm1f.rs
@@ -13,7 +13,7 @@
  * ====================================================
  */
 
-const O_THRESHOLD: f32 = 8.8721679688e+01; /* 0x42b17180 */
+const O_THRESHOLD: f32 = 8.8722831726e+01; /* 0x42b17217 */
 const LN2_HI: f32 = 6.9313812256e-01; /* 0x3f317180 */
 const LN2_LO: f32 = 9.0580006145e-06; /* 0x3717f7d1 */
 const INV_LN2: f32 = 1.4426950216e+00; /* 0x3fb8aa3b */
-- 
2.43.0


From 943974665c73d93bcf21d339c64d4ce550e7b55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 10/16] fix: yn, ynf: do not overflow in an intermediate
 product

---
 libm/src/math/jn.rs  | 3 ++-
 libm/src/math/jnf.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/libm/src/math/jn.rs b/libm/src/math/jn.rs
index 31f8d9c..04167dc 100644
--- a/libm/src/math/jn.rs
+++ b/libm/src/math/jn.rs
@@ -329,7 +329,8 @@ pub fn yn(n: i32, x: f64) -> f64 {
         while i < nm1 && ib != 0xfff00000 {
             i += 1;
             temp = b;
-            b = (2.0 * (i as f64) / x) * b - a;
+            /* scaled by half so that only the result can overflow */
+            b = 2.0 * (((i as f64) / x) * b - 0.5 * a);
             ib = get_high_word(b);
             a = temp;
         }
diff --git a/libm/src/math/jnf.rs b/libm/src/math/jnf.rs
index 52cf7d8..ecc0697 100644
--- a/libm/src/math/jnf.rs
+++ b/libm/src/math/jnf.rs
@@ -244,7 +244,8 @@ pub fn ynf(n: i32, x: f32) -> f32 {
     while i < nm1 && ib != 0xff800000 {
         i += 1;
         temp = b;
-        b = (2.0 * (i as f32) / x) * b - a;
+        /* scaled by half so that only the result can overflow */
+        b = 2.0 * (((i as f32) / x) * b - 0.5 * a);
         ib = b.to_bits();
         a = temp;
     }
-- 
2.43.0


From d75b0dbaf5cc593912a6327c18ed295dcf774ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 11/16] fix: u256, i256: order by the high limb first, correct
 i256::MAX

The derived order compared the low limbs first, and i256::MAX was negative.
---
 libm/src/math/support/big.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/libm/src/math/support/big.rs b/libm/src/math/support/big.rs
index eae0823..046c970 100644
--- a/libm/src/math/support/big.rs
+++ b/libm/src/math/support/big.rs
@@ -3,7 +3,7 @@
 #[cfg(test)]
 mod tests;
 
-use core::ops;
+use core::{cmp, ops};
 
 use super::{DInt, HInt, Int, MinInt};
 
@@ -11,12 +11,18 @@ const U128_LO_MASK: u128 = u64::MAX as u128;
 
 /// A 256-bit unsigned integer represented as two 128-bit native-endian limbs.
 #[allow(non_camel_case_types)]
-#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
+#[derive(Clone, Copy, Debug, PartialEq)]
 pub struct u256 {
     pub lo: u128,
     pub hi: u128,
 }
 
+impl PartialOrd for u256 {
+    fn partial_cmp(&self, other: &Self) -> Option<cmp::Ordering> {
+        Some(self.hi.cmp(&other.hi).then(self.lo.cmp(&other.lo)))
+    }
+}
+
 impl u256 {
     #[cfg(any(test, feature = "unstable-public-internals"))]
     pub const MAX: Self = Self { lo: u128::MAX, hi: u128::MAX };
@@ -29,12 +35,18 @@ impl u256 {
 
 /// A 256-bit signed integer represented as two 128-bit native-endian limbs.
 #[allow(non_camel_case_types)]
-#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
+#[derive(Clone, Copy, Debug, PartialEq)]
 pub struct i256 {
     pub lo: u128,
     pub hi: u128,
 }
 
+impl PartialOrd for i256 {
+    fn partial_cmp(&self, other: &Self) -> Option<cmp::Ordering> {
+        Some((self.hi as i128).cmp(&(other.hi as i128)).then(self.lo.cmp(&other.lo)))
+    }
+}
+
 impl i256 {
     /// Reinterpret as an unsigned integer
     #[cfg(any(test, feature = "unstable-public-internals"))]
@@ -66,7 +78,7 @@ impl MinInt for i256 {
     const ZERO: Self = Self { lo: 0, hi: 0 };
     const ONE: Self = Self { lo: 1, hi: 0 };
     const MIN: Self = Self { lo: 0, hi: 1 << 127 };
-    const MAX: Self = Self { lo: u128::MAX, hi: u128::MAX << 1 };
+    const MAX: Self = Self { lo: u128::MAX, hi: u128::MAX >> 1 };
 }
 
 macro_rules! impl_common {
-- 
2.43.0


From b6a8729a10ac66d00795d0b9a2747b03f9a63966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:01 +0000
Subject: [PATCH 12/16] fix: i256 is a signed integer: SIGNED = true

---
 libm/src/math/support/big.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libm/src/math/support/big.rs b/libm/src/math/support/big.rs
index 046c970..72720b8 100644
--- a/libm/src/math/support/big.rs
+++ b/libm/src/math/support/big.rs
@@ -73,7 +73,7 @@ impl MinInt for i256 {
 
     type Unsigned = u256;
 
-    const SIGNED: bool = false;
+    const SIGNED: bool = true;
     const BITS: u32 = 256;
     const ZERO: Self = Self { lo: 0, hi: 0 };
     const ONE: Self = Self { lo: 1, hi: 0 };
-- 
2.43.0


From 18d5666433a2cca82eb85bd75a2bad63ecaf09ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:09 +0000
Subject: [PATCH 13/16] fix: ceil, floor, trunc: powers of two below one are
 rounded inexactly

The status was taken to be exact whenever the significand field was zero,
which is so for 0.5, 0.25, ... as well as for zero.
---
 libm/src/math/generic/ceil.rs  | 2 +-
 libm/src/math/generic/floor.rs | 2 +-
 libm/src/math/generic/trunc.rs | 3 +--
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/libm/src/math/generic/ceil.rs b/libm/src/math/generic/ceil.rs
index 5c5bb47..dfe93f7 100644
--- a/libm/src/math/generic/ceil.rs
+++ b/libm/src/math/generic/ceil.rs
@@ -47,7 +47,7 @@ pub fn ceil_status<F: Float>(x: F) -> FpResult<F> {
         F::from_bits(ix)
     } else {
         // |x| < 1.0, raise an inexact exception since truncation will happen (unless x == 0).
-        if ix & F::SIG_MASK == F::Int::ZERO {
+        if ix << 1 == zero {
             status = Status::OK;
         } else {
             status = Status::INEXACT;
diff --git a/libm/src/math/generic/floor.rs b/libm/src/math/generic/floor.rs
index 2438046..8240f9b 100644
--- a/libm/src/math/generic/floor.rs
+++ b/libm/src/math/generic/floor.rs
@@ -47,7 +47,7 @@ pub fn floor_status<F: Float>(x: F) -> FpResult<F> {
         F::from_bits(ix)
     } else {
         // |x| < 1.0, raise an inexact exception since truncation will happen.
-        if ix & F::SIG_MASK == F::Int::ZERO {
+        if ix << 1 == zero {
             status = Status::OK;
         } else {
             status = Status::INEXACT;
diff --git a/libm/src/math/generic/trunc.rs b/libm/src/math/generic/trunc.rs
index 25414ec..4eb65c9 100644
--- a/libm/src/math/generic/trunc.rs
+++ b/libm/src/math/generic/trunc.rs
@@ -36,9 +36,8 @@ pub fn trunc_status<F: Float>(x: F) -> FpResult<F> {
     // C5: Otherwise the result is inexact and we will truncate. Raise `FE_INEXACT`, mask the
     // result, and return.
 
-    let status = if xi & F::SIG_MASK == F::Int::ZERO { Status::OK } else { Status::INEXACT };
     xi &= mask;
-    FpResult::new(F::from_bits(xi), status)
+    FpResult::new(F::from_bits(xi), Status::INEXACT)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 267a1b07c1d8742c6e2686db4d9348a337885fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:09 +0000
Subject: [PATCH 14/16] hook: status-reporting functions public with
 unstable-public-internals

---
 libm/src/math/generic/mod.rs | 4 ++++
 libm/src/math/mod.rs         | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/libm/src/math/generic/mod.rs b/libm/src/math/generic/mod.rs
index 3584635..0183515 100644
--- a/libm/src/math/generic/mod.rs
+++ b/libm/src/math/generic/mod.rs
@@ -36,3 +36,7 @@ pub use round::round;
 pub use scalbn::scalbn;
 pub use sqrt::sqrt;
 pub use trunc::trunc;
+
+// The same with their status flags, for verification
+#[cfg(feature = "unstable-public-internals")]
+pub use self::{ceil::ceil_status, floor::floor_status, sqrt::sqrt_round, trunc::trunc_status};
diff --git a/libm/src/math/mod.rs b/libm/src/math/mod.rs
index 949c18b..bb2adb6 100644
--- a/libm/src/math/mod.rs
+++ b/libm/src/math/mod.rs
@@ -122,6 +122,10 @@ use self::rem_pio2f::rem_pio2f;
 #[allow(unused_imports)]
 use self::support::{CastFrom, CastInto, DFloat, DInt, Float, HFloat, HInt, Int, IntTy, MinInt};
 
+// Functions with their status flags, for verification
+#[cfg(feature = "unstable-public-internals")]
+pub use self::{fma::fma_round, fma_wide::fma_wide_round};
+
 // Public modules
 mod acos;
 mod acosf;
-- 
2.43.0


From acbb59e60f4c00f46bdb9766bf916baf7c96b912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:09 +0000
Subject: [PATCH 15/16] fix: util: read f16 and f128 decimal inputs with a
 single rounding

`parse_rug` rounded the text to `F::BITS` bits of precision first and to the
type afterwards, so that e.g. `eval libm ceilf16 1.00048828125000001` was
read as a different number than it denotes.  Round once, to the precision
and exponent range of the type.
---
 crates/util/src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/util/src/main.rs b/crates/util/src/main.rs
index ef70ec9..a85475d 100644
--- a/crates/util/src/main.rs
+++ b/crates/util/src/main.rs
@@ -14,6 +14,8 @@ use libm_test::mpfloat::MpOp;
 use libm_test::{MathOp, TupleCall};
 #[cfg(feature = "build-mpfr")]
 use rug::az::{self, Az};
+#[cfg(feature = "build-mpfr")]
+use rug::float::Round;
 
 const USAGE: &str = "\
 usage:
@@ -309,8 +311,10 @@ where
         return F::from_str_radix(s, 2).unwrap_or_else(|_| panic!("{}", msg()));
     }
 
+    // Round once, to the precision of the type; the conversion is then exact.
     let x = rug::Float::parse(s).unwrap_or_else(|_| panic!("{}", msg()));
-    let x = rug::Float::with_val(F::BITS, x);
+    let (mut x, ord) = rug::Float::with_val_round(F::SIG_BITS + 1, x, Round::Nearest);
+    x.subnormalize_ieee_round(ord, Round::Nearest);
     x.az()
 }
 
-- 
2.43.0


From a6803cd3491b8e8de74bd734c22721ec5f4cf0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:09 +0000
Subject: [PATCH 16/16] fix: util: accept negative hexadecimal floats for f16
 and f128

`-0x1.8p0` was read for f32 and f64 but refused for the types parsed via rug.
---
 crates/util/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/util/src/main.rs b/crates/util/src/main.rs
index a85475d..6a2f4af 100644
--- a/crates/util/src/main.rs
+++ b/crates/util/src/main.rs
@@ -303,7 +303,7 @@ where
 
     let msg = || format!("invalid {} input '{s}'", type_name::<F>());
 
-    if s.starts_with("0x") {
+    if s.starts_with("0x") || s.starts_with("-0x") {
         return F::from_str_radix(s, 16).unwrap_or_else(|_| panic!("{}", msg()));
     }
 
-- 
2.43.0


From 5beb229ef8ce3881af067ac4dd41fbfce18eaea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:31:49 +0000
Subject: [PATCH 01/14] fix: signed carrying_add/borrowing_sub reported
 overflow for in-range results

When the first step overflows and the carry (borrow) brings the result
back into range, the two flags cancel out. Combine them with != as the
standard library does; for unsigned types both can never be set.
---
 src/shared/bigint.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/bigint.rs b/src/shared/bigint.rs
index b5b613f..ed6845f 100644
--- a/src/shared/bigint.rs
+++ b/src/shared/bigint.rs
@@ -23,7 +23,7 @@ macro_rules! define {
         pub const fn carrying_add(self, rhs: Self, carry: bool) -> (Self, bool) {
             let (a, b) = self.overflowing_add(rhs);
             let (c, d) = a.overflowing_add_ulimb(carry as $crate::ULimb);
-            (c, b | d)
+            (c, b != d)
         }
 
         /// Calculates `self` &minus; `rhs` &minus; `borrow` and returns a tuple
@@ -42,7 +42,7 @@ macro_rules! define {
         pub const fn borrowing_sub(self, rhs: Self, borrow: bool) -> (Self, bool) {
             let (a, b) = self.overflowing_sub(rhs);
             let (c, d) = a.overflowing_sub_ulimb(borrow as $crate::ULimb);
-            (c, b | d)
+            (c, b != d)
         }
     };
 }
-- 
2.43.0


From 6f855dd7dfcf9d08ab8d2cd8518ff4d1452c8444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:46 +0000
Subject: [PATCH 02/14] fix: signed overflowing multiplication missed overflow
 just below MIN

The check for a product of exactly MIN only looked at the most significant
limb, so any negative product whose magnitude shares that limb with MIN was
returned wrapped with the overflow flag clear. This also let checked,
saturating and strict multiplication return wrong values and the parser
accept out-of-range negative numerals.
---
 src/math/mul.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math/mul.rs b/src/math/mul.rs
index ae516ec..24e1e95 100644
--- a/src/math/mul.rs
+++ b/src/math/mul.rs
@@ -464,8 +464,9 @@ macro_rules! signed_define {
                 // wrap and it shouldn't be negative
                 // NOTE: We want to negate this, which will always work since
                 // `::MAX + 1` will wrap to min as expected.
-                let is_min = msl == <$s>::MIN;
                 r = negate!(r, M, $u);
+                // only `::MIN` is negative both before and after negating
+                let is_min = r_is_negative && (ne_index!(r[M - 1]) as $s) < 0;
                 (r, overflowed | (r_is_negative ^ is_min))
             }
         }
-- 
2.43.0


From 33db362b6f5cdc385a1a903c619f32f1fcf71828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:46 +0000
Subject: [PATCH 03/14] fix: long division corrupted or panicked when adding
 the divisor back

The add-back step looped over n + 1 divisor limbs: with a full-length divisor
this indexed past its end and panicked, otherwise the final carry was added
to the top numerator limb twice and the remainder came out wrong. The divisor
has n limbs; the carry into the next limb is already handled after the loop.
---
 src/math/div.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/div.rs b/src/math/div.rs
index 2a78581..38a857b 100644
--- a/src/math/div.rs
+++ b/src/math/div.rs
@@ -401,7 +401,7 @@ fn div_rem_knuth<const M: usize, const N: usize>(
             // Add back one multiple of divisor
             i = 0;
             c = false;
-            while i < n + 1 {
+            while i < n {
                 let x = numerator.get(i + j);
                 let y = divisor[i];
                 let (res1, overflow1) = y.overflowing_add(c as ULimb);
-- 
2.43.0


From 3f8a6c66ad4d8980ea11661cc2f6ae0e72684be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:35 +0000
Subject: [PATCH 04/14] fix: division by zero returned a value or trapped
 instead of panicking

Dividing zero by zero returned 1 (or 0 for scalar divisors), and in release
builds using the x86-64 division instruction a large numerator raised SIGFPE.
The documentation promises a panic if the divisor is zero.
---
 src/math/div.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/math/div.rs b/src/math/div.rs
index 38a857b..c56b85a 100644
--- a/src/math/div.rs
+++ b/src/math/div.rs
@@ -52,7 +52,10 @@ pub fn full<const M: usize, const N: usize>(
 
     match cmp(numerator, divisor) {
         Ordering::Less => ([0; M], truncate(*numerator)),
-        Ordering::Equal => (scalar1(1), scalar1(0)),
+        Ordering::Equal => {
+            assert!(!is_zero(divisor, 0), "attempt to divide by zero");
+            (scalar1(1), scalar1(0))
+        },
         Ordering::Greater => {
             if is_zero(numerator, 0) {
                 (scalar1(0), scalar1(0))
@@ -76,6 +79,7 @@ pub fn wide<const M: usize>(numerator: &[ULimb; M], divisor: UWide) -> ([ULimb;
     if M >= 2 && is_zero(numerator, 2) {
         // Can do as a scalar operation, simple.
         if numerator[0] == 0 && numerator[1] == 0 {
+            assert!(divisor != 0, "attempt to divide by zero");
             return (scalar1(0), 0);
         } else {
             let lo = numerator[0] as UWide;
@@ -109,6 +113,7 @@ pub fn from_u128<const M: usize>(numerator: &[ULimb; M], divisor: u128) -> ([ULi
     if M >= 2 && is_zero(numerator, 2) {
         // Can do as a scalar operation, simple.
         if numerator[0] == 0 && numerator[1] == 0 {
+            assert!(divisor != 0, "attempt to divide by zero");
             return (scalar1(0), 0);
         } else {
             let numerator = u128_scalar(numerator);
@@ -142,6 +147,8 @@ pub fn limb<const M: usize>(numerator: &[ULimb; M], divisor: ULimb) -> ([ULimb;
         return (scalar2(quo), rem as ULimb);
     }
 
+    // NOTE: The hardware division would trap on this, rather than panic.
+    assert!(divisor != 0, "attempt to divide by zero");
     let mut numerator = *numerator;
     let mut r = 0;
     let mut i = M;
-- 
2.43.0


From 465a086df4844afce2da2a5fdf02fc595e01a296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:26 +0000
Subject: [PATCH 05/14] fix: signed div_euclid/rem_euclid/div_floor/div_ceil
 did not panic on overflow

MIN divided by -1 is documented to panic regardless of the overflow-checks
flag, but div_floor and div_ceil always wrapped and the Euclidean pair wrapped
without overflow checks.
---
 src/int/ops.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/int/ops.rs b/src/int/ops.rs
index b79d712..7ea1eac 100644
--- a/src/int/ops.rs
+++ b/src/int/ops.rs
@@ -88,13 +88,9 @@ macro_rules! define {
         #[inline(always)]
         #[must_use = $crate::shared::docs::must_use_copy_doc!()]
         pub fn div_euclid(self, rhs: Self) -> Self {
-            if cfg!(not(have_overflow_checks)) {
-                self.wrapping_div_euclid(rhs)
-            } else {
-                match self.checked_div_euclid(rhs) {
-                    Some(v) => v,
-                    _ => core::panic!("attempt to divide with overflow"),
-                }
+            match self.checked_div_euclid(rhs) {
+                Some(v) => v,
+                _ => core::panic!("attempt to divide with overflow"),
             }
         }
 
@@ -110,13 +106,9 @@ macro_rules! define {
         #[inline(always)]
         #[must_use = $crate::shared::docs::must_use_copy_doc!()]
         pub fn rem_euclid(self, rhs: Self) -> Self {
-            if cfg!(not(have_overflow_checks)) {
-                self.wrapping_rem_euclid(rhs)
-            } else {
-                match self.checked_rem_euclid(rhs) {
-                    Some(v) => v,
-                    _ => core::panic!("attempt to divide with overflow"),
-                }
+            match self.checked_rem_euclid(rhs) {
+                Some(v) => v,
+                _ => core::panic!("attempt to divide with overflow"),
             }
         }
 
@@ -129,7 +121,10 @@ macro_rules! define {
         #[inline]
         #[must_use = $crate::shared::docs::must_use_copy_doc!()]
         pub fn div_floor(self, rhs: Self) -> Self {
-            let (d, r) = self.wrapping_div_rem(rhs);
+            let (d, r) = match self.checked_div_rem(rhs) {
+                Some(v) => v,
+                _ => core::panic!("attempt to divide with overflow"),
+            };
 
             // If the remainder is non-zero, we need to subtract one if the
             // signs of self and rhs differ, as this means we rounded upwards
@@ -154,7 +149,10 @@ macro_rules! define {
         #[inline]
         #[must_use = $crate::shared::docs::must_use_copy_doc!()]
         pub fn div_ceil(self, rhs: Self) -> Self {
-            let (d, r) = self.wrapping_div_rem(rhs);
+            let (d, r) = match self.checked_div_rem(rhs) {
+                Some(v) => v,
+                _ => core::panic!("attempt to divide with overflow"),
+            };
 
             // When remainder is non-zero we have a.div_ceil(b) == 1 + a.div_floor(b),
             // so we can re-use the algorithm from div_floor, just adding 1.
-- 
2.43.0


From d7f2a19ba9c69e13c28453f31c606a7fc83605df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:41 +0000
Subject: [PATCH 06/14] fix: integer logarithm of a value below the base, and
 of base 1

checked_ilog returned None (and ilog panicked) for a positive value smaller
than the base although the logarithm is 0, and looped practically forever for
base 1 although bases below 2 are documented to be rejected.
---
 src/uint/checked.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/uint/checked.rs b/src/uint/checked.rs
index 27f454a..2eeeaf2 100644
--- a/src/uint/checked.rs
+++ b/src/uint/checked.rs
@@ -54,11 +54,14 @@ macro_rules! define {
         #[inline(always)]
         pub fn checked_ilog(self, base: Self) -> Option<u32> {
             let zero = Self::from_u8(0);
-            if self == zero || base <= zero || self < base {
+            if self == zero || base <= Self::from_u8(1) {
                 return None;
             }
+            if self < base {
+                return Some(0);
+            }
 
-            // Since base >= self, n >= 1
+            // Since base <= self, n >= 1
             let mut n = 1;
             let mut r = base;
 
-- 
2.43.0


From 84ca9b22eacca3d74f1c89ea23444a3ef28869bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:36 +0000
Subject: [PATCH 07/14] fix: shifting by 8-bit distances panicked with overflow
 checks

The bound was truncated to the type of the distance: 256, 512 and 1024 become
zero in 8 bits (and 384 becomes 128 or -128), so in-range u8 and i8 distances
were rejected.
---
 src/shared/shift.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/shared/shift.rs b/src/shared/shift.rs
index ae400c1..b909ebd 100644
--- a/src/shared/shift.rs
+++ b/src/shared/shift.rs
@@ -6,11 +6,11 @@ macro_rules! define {
             type Output = Self;
 
             #[inline(always)]
-            #[allow(unused_comparisons)]
             #[allow(clippy::suspicious_arithmetic_impl)]
             fn shl(self, other: $t) -> Self::Output {
                 if cfg!(have_overflow_checks) {
-                    assert!(other < Self::BITS as $t && other >= 0, "attempt to shift left with overflow");
+                    // NOTE: `BITS` may not fit in `$t`. Negative values are also above.
+                    assert!((other as u128) < Self::BITS as u128, "attempt to shift left with overflow");
                 }
                 self.wrapping_shl(other as u32)
             }
@@ -20,11 +20,11 @@ macro_rules! define {
             type Output = Self;
 
             #[inline(always)]
-            #[allow(unused_comparisons)]
             #[allow(clippy::suspicious_arithmetic_impl)]
             fn shr(self, other: $t) -> Self::Output {
                 if cfg!(have_overflow_checks) {
-                    assert!(other < Self::BITS as $t && other >= 0, "attempt to shift right with overflow");
+                    // NOTE: `BITS` may not fit in `$t`. Negative values are also above.
+                    assert!((other as u128) < Self::BITS as u128, "attempt to shift right with overflow");
                 }
                 self.wrapping_shr(other as u32)
             }
-- 
2.43.0


From 2bf365209c02510a6268721b00e4eaceb5e3e5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:36 +0000
Subject: [PATCH 08/14] fix: shift operators with a distance of the same type
 ignored overflow checks

Unlike every other distance type, an out-of-range distance was silently
reduced in builds with overflow checks enabled.
---
 src/shared/ops.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/shared/ops.rs b/src/shared/ops.rs
index c8e7ef7..475273b 100644
--- a/src/shared/ops.rs
+++ b/src/shared/ops.rs
@@ -153,6 +153,11 @@ macro_rules! traits {
             #[inline(always)]
             #[allow(clippy::suspicious_arithmetic_impl)]
             fn shl(self, other: Self) -> Self::Output {
+                if cfg!(have_overflow_checks) {
+                    let is_above = other.ge_const(Self::from_u32(Self::BITS));
+                    let is_below = other.lt_const(Self::from_u32(0));
+                    assert!(!is_above && !is_below, "attempt to shift left with overflow");
+                }
                 let shift = other.least_significant_limb() as u32 & u32::MAX;
                 self.wrapping_shl(shift)
             }
@@ -164,6 +169,11 @@ macro_rules! traits {
             #[inline(always)]
             #[allow(clippy::suspicious_arithmetic_impl)]
             fn shr(self, other: Self) -> Self::Output {
+                if cfg!(have_overflow_checks) {
+                    let is_above = other.ge_const(Self::from_u32(Self::BITS));
+                    let is_below = other.lt_const(Self::from_u32(0));
+                    assert!(!is_above && !is_below, "attempt to shift right with overflow");
+                }
                 let shift = other.least_significant_limb() as u32 & u32::MAX;
                 self.wrapping_shr(shift)
             }
-- 
2.43.0


From c7f263ce57ccd08e9a0b8f4c6f16101f5a73dbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:05 +0000
Subject: [PATCH 09/14] fix: signed addition and subtraction of 128-bit scalars
 panicked with 32-bit limbs

The operand is sign-extended to the full limb count, but was then passed to
the routines for a strictly shorter operand, whose assertion always failed.
---
 src/int/limb.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/int/limb.rs b/src/int/limb.rs
index 7f7363f..d281b67 100644
--- a/src/int/limb.rs
+++ b/src/int/limb.rs
@@ -1001,7 +1001,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::u128_to_limb_n::<{ Self::LIMBS }>(n);
-                let limbs = $crate::math::add::wrapping_mn(&lhs, &rhs);
+                let limbs = $crate::math::add::wrapping_signed(&lhs, &rhs);
                 Self::from_ne_limbs(limbs)
             }
         }
@@ -1022,7 +1022,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::i128_to_limb_n::<{ Self::LIMBS }>(n);
-                let limbs = $crate::math::add::wrapping_mn(&lhs, &rhs);
+                let limbs = $crate::math::add::wrapping_signed(&lhs, &rhs);
                 Self::from_ne_limbs(limbs)
             }
         }
@@ -1044,7 +1044,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::u128_to_limb_n::<{ Self::LIMBS }>(n);
-                let limbs = $crate::math::sub::wrapping_mn(&lhs, &rhs);
+                let limbs = $crate::math::sub::wrapping_signed(&lhs, &rhs);
                 Self::from_ne_limbs(limbs)
             }
         }
@@ -1066,7 +1066,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::i128_to_limb_n::<{ Self::LIMBS }>(n);
-                let limbs = $crate::math::sub::wrapping_mn(&lhs, &rhs);
+                let limbs = $crate::math::sub::wrapping_signed(&lhs, &rhs);
                 Self::from_ne_limbs(limbs)
             }
         }
@@ -1652,7 +1652,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::u128_to_limb_n::<{ Self::LIMBS }>(n);
-                let (limbs, overflowed) = $crate::math::add::overflowing_mn(&lhs, &rhs);
+                let (limbs, overflowed) = $crate::math::add::overflowing_signed(&lhs, &rhs);
                 (Self::from_ne_limbs(limbs), overflowed)
             }
         }
@@ -1673,7 +1673,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::i128_to_limb_n::<{ Self::LIMBS }>(n);
-                let (limbs, overflowed) = $crate::math::add::overflowing_mn(&lhs, &rhs);
+                let (limbs, overflowed) = $crate::math::add::overflowing_signed(&lhs, &rhs);
                 (Self::from_ne_limbs(limbs), overflowed)
             }
         }
@@ -1694,7 +1694,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::u128_to_limb_n::<{ Self::LIMBS }>(n);
-                let (limbs, overflowed) = $crate::math::sub::overflowing_mn(&lhs, &rhs);
+                let (limbs, overflowed) = $crate::math::sub::overflowing_signed(&lhs, &rhs);
                 (Self::from_ne_limbs(limbs), overflowed)
             }
         }
@@ -1715,7 +1715,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::i128_to_limb_n::<{ Self::LIMBS }>(n);
-                let (limbs, overflowed) = $crate::math::sub::overflowing_mn(&lhs, &rhs);
+                let (limbs, overflowed) = $crate::math::sub::overflowing_signed(&lhs, &rhs);
                 (Self::from_ne_limbs(limbs), overflowed)
             }
         }
-- 
2.43.0


From 30500d82a107ad99e89a7d5e3938952fd3d23fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:05 +0000
Subject: [PATCH 10/14] fix: 128-bit scalars were split into 32-bit limbs in
 the wrong order

Limbs 1 and 3 were exchanged, so with 32-bit limbs the signed types computed
with a different operand than the one given.
---
 src/util.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index bb87e7b..9460bfb 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -127,9 +127,9 @@ pub(crate) const fn u128_to_limb_n<const N: usize>(value: u128) -> [u32; N] {
 
     let mut result = [0; N];
     ne_index!(result[0] = value as u32);
-    ne_index!(result[1] = (value >> 96) as u32);
+    ne_index!(result[1] = (value >> 32) as u32);
     ne_index!(result[2] = (value >> 64) as u32);
-    ne_index!(result[3] = (value >> 32) as u32);
+    ne_index!(result[3] = (value >> 96) as u32);
 
     result
 }
@@ -157,9 +157,9 @@ pub(crate) const fn i128_to_limb_n<const N: usize>(value: i128) -> [u32; N] {
     let value = value as u128;
     let mut result = [sign_bit; N];
     ne_index!(result[0] = value as u32);
-    ne_index!(result[1] = (value >> 96) as u32);
+    ne_index!(result[1] = (value >> 32) as u32);
     ne_index!(result[2] = (value >> 64) as u32);
-    ne_index!(result[3] = (value >> 32) as u32);
+    ne_index!(result[3] = (value >> 96) as u32);
 
     result
 }
-- 
2.43.0


From af98bcae2ffb1b53c86c49bc801009bbf8e07749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:47 +0000
Subject: [PATCH 11/14] fix: convert the largest signed value from the unsigned
 type

TryFrom from the unsigned to the signed type of the same width refused the
value equal to the signed maximum, although it is representable.
---
 src/int/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/int/traits.rs b/src/int/traits.rs
index e43bc7d..72afb4e 100644
--- a/src/int/traits.rs
+++ b/src/int/traits.rs
@@ -132,7 +132,7 @@ macro_rules! define {
 
             #[inline(always)]
             fn try_from(u: $u_t) -> Result<Self, $crate::TryFromIntError> {
-                if u < Self::MAX.as_unsigned() {
+                if u <= Self::MAX.as_unsigned() {
                     Ok(u.as_signed())
                 } else {
                     Err($crate::TryFromIntError {})
-- 
2.43.0


From 0b78e1af292966e0fbb5334b601ad59e8fdca6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:22 +0000
Subject: [PATCH 12/14] fix: reject a lone sign when parsing

from_str_radix accepted "+" and "-" without any digit as zero. It now
reports an invalid digit, like the standard library and FromStr do.
---
 src/parse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index e3dcef8..ea6f96b 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -143,6 +143,10 @@ macro_rules! define {
                 Some(&b'-') => return Err(ParseIntError::new(IntErrorKind::NegOverflow)),
                 _ => false,
             };
+            if index == digits.len() {
+                // a lone sign has no digits
+                return Err(ParseIntError::new(IntErrorKind::InvalidDigit));
+            }
             let overflow_digits = overflow_digits::<Self>(radix, $is_signed);
             let cannot_overflow = (digits.len() - index) <= overflow_digits;
 
-- 
2.43.0


From ffe44277df3733e0136a768d308f3644377f583a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:56 +0000
Subject: [PATCH 13/14] fix: print negative values in any radix

to_str_radix divided a negative value directly, so it stopped at once and
indexed past the digit range. The digits are now those of the magnitude.
---
 src/write.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index adf1ff9..1bbcd97 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -27,7 +27,7 @@ macro_rules! define {
         /// This function panics if `radix` is not in the range from 2 to 36,
         /// or the buffer isn't large enough to hold the significant digits.
         #[inline]
-        pub fn to_str_radix(mut self, buffer: &mut [u8], radix: u32) -> &[u8] {
+        pub fn to_str_radix(self, buffer: &mut [u8], radix: u32) -> &[u8] {
             if !(2..=36).contains(&radix) {
                 core::panic!("from_str_radix_int: must lie in the range `[2, 36]`");
             }
@@ -45,20 +45,27 @@ macro_rules! define {
                 1
             };
 
+            // the digits are those of the magnitude
+            let mut value = if is_negative {
+                self.wrapping_neg().as_unsigned()
+            } else {
+                self.as_unsigned()
+            };
+
             // This isn't optimized at all.
             let mut rem: $crate::ULimb;
             let mut index = buffer.len();
-            let limit = Self::from_u32(radix);
-            while self.ge_const(limit) && index > start_index {
+            let limit = Self::from_u32(radix).as_unsigned();
+            while value.ge_const(limit) && index > start_index {
                 index -= 1;
-                (self, rem) = self.div_rem_ulimb(radix as $crate::ULimb);
+                (value, rem) = value.div_rem_ulimb(radix as $crate::ULimb);
                 buffer[index] = $crate::write::digit_to_char(rem as u32, radix);
             }
 
             // always have one trailing digit
-            assert!(self.lt_const(limit), "overflowed our buffer");
+            assert!(value.lt_const(limit), "overflowed our buffer");
             index -= 1;
-            buffer[index] = $crate::write::digit_to_char(self.get_limb(0) as u32, radix);
+            buffer[index] = $crate::write::digit_to_char(value.get_limb(0) as u32, radix);
 
             // write our negative sign, if required
             if is_negative {
-- 
2.43.0


From 33a1b2d0f0ea5808e08395da2567fd3c84649350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:27 +0000
Subject: [PATCH 14/14] fix: zero is not positive through num_traits::Signed

num_traits defines is_positive as strictly greater than zero, as the
inherent is_positive already does.
---
 src/int/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/int/traits.rs b/src/int/traits.rs
index 72afb4e..9324f9e 100644
--- a/src/int/traits.rs
+++ b/src/int/traits.rs
@@ -169,7 +169,7 @@ macro_rules! define {
 
             #[inline(always)]
             fn is_positive(&self) -> bool {
-                *self >= <Self as ::num_traits::ConstZero>::ZERO
+                *self > <Self as ::num_traits::ConstZero>::ZERO
             }
 
             #[inline(always)]
-- 
2.43.0


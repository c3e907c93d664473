From 96a73bd2ae37a3f96b0daf0b6b5418965c6d5ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:04 +0000
Subject: [PATCH 01/17] fix: order of the limbs when splitting 128-bit scalars
 with 32-bit limbs

The second and fourth 32-bit limb were swapped, so every operation of a
signed type with a u128 or i128 scalar used the wrong scalar value.
---
 src/util.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index bb87e7b..9460bfb 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -127,9 +127,9 @@ pub(crate) const fn u128_to_limb_n<const N: usize>(value: u128) -> [u32; N] {
 
     let mut result = [0; N];
     ne_index!(result[0] = value as u32);
-    ne_index!(result[1] = (value >> 96) as u32);
+    ne_index!(result[1] = (value >> 32) as u32);
     ne_index!(result[2] = (value >> 64) as u32);
-    ne_index!(result[3] = (value >> 32) as u32);
+    ne_index!(result[3] = (value >> 96) as u32);
 
     result
 }
@@ -157,9 +157,9 @@ pub(crate) const fn i128_to_limb_n<const N: usize>(value: i128) -> [u32; N] {
     let value = value as u128;
     let mut result = [sign_bit; N];
     ne_index!(result[0] = value as u32);
-    ne_index!(result[1] = (value >> 96) as u32);
+    ne_index!(result[1] = (value >> 32) as u32);
     ne_index!(result[2] = (value >> 64) as u32);
-    ne_index!(result[3] = (value >> 32) as u32);
+    ne_index!(result[3] = (value >> 96) as u32);
 
     result
 }
-- 
2.43.0


From 63ef46439e7a5d8ac2d62880045341958ff4c3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:04 +0000
Subject: [PATCH 02/17] fix: add-back step of the long division

The loop that adds the divisor back after an estimate that was one too
large ran over n + 1 limbs. This indexed past the end of a divisor that uses
all limbs, and applied the final carry twice otherwise. The carry into
limb n is added after the loop.
---
 src/math/div.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/div.rs b/src/math/div.rs
index 2a78581..38a857b 100644
--- a/src/math/div.rs
+++ b/src/math/div.rs
@@ -401,7 +401,7 @@ fn div_rem_knuth<const M: usize, const N: usize>(
             // Add back one multiple of divisor
             i = 0;
             c = false;
-            while i < n + 1 {
+            while i < n {
                 let x = numerator.get(i + j);
                 let y = divisor[i];
                 let (res1, overflow1) = y.overflowing_add(c as ULimb);
-- 
2.43.0


From d6b2648296ae6939749beb6add6bbc6760e41494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:37:04 +0000
Subject: [PATCH 03/17] fix: overflow flag of signed products just below the
 minimum

Whether the absolute value of a negative product is exactly 2^(BITS-1) was
decided on the most significant limb only, so products such as
(2^200 + 1) * -2^55 were reported as not overflowing.
---
 src/math/mul.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/mul.rs b/src/math/mul.rs
index ae516ec..492be43 100644
--- a/src/math/mul.rs
+++ b/src/math/mul.rs
@@ -461,12 +461,12 @@ macro_rules! signed_define {
             } else {
                 // convert our unsigned integer to 2's complement from an
                 // abs value. if our value is exactly `::MIN`, then it didn't
-                // wrap and it shouldn't be negative
+                // wrap and it is still negative once negated, while all larger
+                // abs values wrap to a positive value.
                 // NOTE: We want to negate this, which will always work since
                 // `::MAX + 1` will wrap to min as expected.
-                let is_min = msl == <$s>::MIN;
                 r = negate!(r, M, $u);
-                (r, overflowed | (r_is_negative ^ is_min))
+                (r, overflowed | (r_is_negative & !is_negative!(r, $s)))
             }
         }
 
-- 
2.43.0


From daa3c75f6b59a6e35f47125f882d0e2e7950b030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:25 +0000
Subject: [PATCH 04/17] fix: overflow flag of signed carrying_add and
 borrowing_sub

If adding the operand overflows in one direction and adding the carry in
the other, the sum is in range and must not be reported as an overflow:
for example `MIN + -1 + 1`, or `MAX - -1 - 1`.
---
 src/shared/bigint.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/shared/bigint.rs b/src/shared/bigint.rs
index b5b613f..b9bcd37 100644
--- a/src/shared/bigint.rs
+++ b/src/shared/bigint.rs
@@ -23,7 +23,9 @@ macro_rules! define {
         pub const fn carrying_add(self, rhs: Self, carry: bool) -> (Self, bool) {
             let (a, b) = self.overflowing_add(rhs);
             let (c, d) = a.overflowing_add_ulimb(carry as $crate::ULimb);
-            (c, b | d)
+            // NOTE: A signed value can overflow in both steps, in opposite directions,
+            // and then the result did not overflow. An unsigned one cannot.
+            (c, b != d)
         }
 
         /// Calculates `self` &minus; `rhs` &minus; `borrow` and returns a tuple
@@ -42,7 +44,9 @@ macro_rules! define {
         pub const fn borrowing_sub(self, rhs: Self, borrow: bool) -> (Self, bool) {
             let (a, b) = self.overflowing_sub(rhs);
             let (c, d) = a.overflowing_sub_ulimb(borrow as $crate::ULimb);
-            (c, b | d)
+            // NOTE: A signed value can overflow in both steps, in opposite directions,
+            // and then the result did not overflow. An unsigned one cannot.
+            (c, b != d)
         }
     };
 }
-- 
2.43.0


From 9d0c36f6522300ea64740638b7f8a3d88b2ccc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:25 +0000
Subject: [PATCH 05/17] fix: unbounded_shr of negative values by the full width
 or more

Shifting out all bits of a negative value leaves -1, as for smaller amounts
and as for Rust's own integers, not 0.
---
 src/shared/unbounded.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/shared/unbounded.rs b/src/shared/unbounded.rs
index 5fcd01d..f40e46b 100644
--- a/src/shared/unbounded.rs
+++ b/src/shared/unbounded.rs
@@ -27,7 +27,8 @@ macro_rules! define {
         /// value of `rhs`.
         ///
         /// If `rhs` is larger or equal to the number of bits in `self`,
-        /// the entire value is shifted out, and `0` is returned.
+        /// the entire value is shifted out, which yields `0` for a
+        /// non-negative number, and `-1` for a negative number.
         ///
         #[doc = $crate::shared::docs::nightly_doc!()]
         #[inline]
@@ -36,7 +37,8 @@ macro_rules! define {
             if rhs < Self::BITS {
                 self.wrapping_shr(rhs)
             } else {
-                Self::from_u8(0)
+                // NOTE: This keeps only the sign of signed integers.
+                self.wrapping_shr(Self::BITS - 1).wrapping_shr(1)
             }
         }
     };
-- 
2.43.0


From bd027501b489639cc5ee6680ca0f48c8d5c63e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:25 +0000
Subject: [PATCH 06/17] fix: overflow check of shifts by 8-bit amounts

The number of bits does not fit the 8-bit types, so the comparison was made
with a truncated bound and `u256 << 1u8` panicked for every amount when
overflow checks are enabled.
---
 src/shared/shift.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/shared/shift.rs b/src/shared/shift.rs
index ae400c1..46f68c0 100644
--- a/src/shared/shift.rs
+++ b/src/shared/shift.rs
@@ -10,7 +10,8 @@ macro_rules! define {
             #[allow(clippy::suspicious_arithmetic_impl)]
             fn shl(self, other: $t) -> Self::Output {
                 if cfg!(have_overflow_checks) {
-                    assert!(other < Self::BITS as $t && other >= 0, "attempt to shift left with overflow");
+                    // NOTE: Negative values are sign-extended, and therefore too large.
+                    assert!((other as u128) < Self::BITS as u128, "attempt to shift left with overflow");
                 }
                 self.wrapping_shl(other as u32)
             }
@@ -24,7 +25,8 @@ macro_rules! define {
             #[allow(clippy::suspicious_arithmetic_impl)]
             fn shr(self, other: $t) -> Self::Output {
                 if cfg!(have_overflow_checks) {
-                    assert!(other < Self::BITS as $t && other >= 0, "attempt to shift right with overflow");
+                    // NOTE: Negative values are sign-extended, and therefore too large.
+                    assert!((other as u128) < Self::BITS as u128, "attempt to shift right with overflow");
                 }
                 self.wrapping_shr(other as u32)
             }
-- 
2.43.0


From ecc0f8656d273356bbbb9b8c35492166004acb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:25 +0000
Subject: [PATCH 07/17] fix: overflow check of shifts by an amount of the same
 type

Shifts by every other amount type panic on an out of range amount when
overflow checks are enabled. Shifting by `Self` silently wrapped.
---
 src/shared/ops.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/shared/ops.rs b/src/shared/ops.rs
index c8e7ef7..102a9c4 100644
--- a/src/shared/ops.rs
+++ b/src/shared/ops.rs
@@ -153,6 +153,12 @@ macro_rules! traits {
             #[inline(always)]
             #[allow(clippy::suspicious_arithmetic_impl)]
             fn shl(self, other: Self) -> Self::Output {
+                if cfg!(have_overflow_checks) {
+                    let is_above = other.ge_const(Self::from_u32(Self::BITS));
+                    let is_below = other.lt_const(Self::from_u32(0));
+                    let is_overflow = is_above || is_below;
+                    assert!(!is_overflow, "attempt to shift left with overflow");
+                }
                 let shift = other.least_significant_limb() as u32 & u32::MAX;
                 self.wrapping_shl(shift)
             }
@@ -164,6 +170,12 @@ macro_rules! traits {
             #[inline(always)]
             #[allow(clippy::suspicious_arithmetic_impl)]
             fn shr(self, other: Self) -> Self::Output {
+                if cfg!(have_overflow_checks) {
+                    let is_above = other.ge_const(Self::from_u32(Self::BITS));
+                    let is_below = other.lt_const(Self::from_u32(0));
+                    let is_overflow = is_above || is_below;
+                    assert!(!is_overflow, "attempt to shift right with overflow");
+                }
                 let shift = other.least_significant_limb() as u32 & u32::MAX;
                 self.wrapping_shr(shift)
             }
-- 
2.43.0


From 24b756c609cb4496ce7cb221e17ee9415e16009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:25 +0000
Subject: [PATCH 08/17] fix: to_str_radix of negative values

The digits were taken from the negative value itself, which panicked or
wrote a single meaningless character after the sign.
---
 src/write.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index adf1ff9..1ffbc93 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -27,7 +27,7 @@ macro_rules! define {
         /// This function panics if `radix` is not in the range from 2 to 36,
         /// or the buffer isn't large enough to hold the significant digits.
         #[inline]
-        pub fn to_str_radix(mut self, buffer: &mut [u8], radix: u32) -> &[u8] {
+        pub fn to_str_radix(self, buffer: &mut [u8], radix: u32) -> &[u8] {
             if !(2..=36).contains(&radix) {
                 core::panic!("from_str_radix_int: must lie in the range `[2, 36]`");
             }
@@ -45,20 +45,27 @@ macro_rules! define {
                 1
             };
 
+            // write the digits of the absolute value
+            let mut value = if is_negative {
+                self.wrapping_neg().as_unsigned()
+            } else {
+                self.as_unsigned()
+            };
+
             // This isn't optimized at all.
             let mut rem: $crate::ULimb;
             let mut index = buffer.len();
-            let limit = Self::from_u32(radix);
-            while self.ge_const(limit) && index > start_index {
+            let limit = Self::from_u32(radix).as_unsigned();
+            while value.ge_const(limit) && index > start_index {
                 index -= 1;
-                (self, rem) = self.div_rem_ulimb(radix as $crate::ULimb);
+                (value, rem) = value.div_rem_ulimb(radix as $crate::ULimb);
                 buffer[index] = $crate::write::digit_to_char(rem as u32, radix);
             }
 
             // always have one trailing digit
-            assert!(self.lt_const(limit), "overflowed our buffer");
+            assert!(value.lt_const(limit), "overflowed our buffer");
             index -= 1;
-            buffer[index] = $crate::write::digit_to_char(self.get_limb(0) as u32, radix);
+            buffer[index] = $crate::write::digit_to_char(value.get_limb(0) as u32, radix);
 
             // write our negative sign, if required
             if is_negative {
-- 
2.43.0


From f68bf5059d97126870666cfda630a6f7ff23c81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:25 +0000
Subject: [PATCH 09/17] fix: reject a lone sign in from_str_radix

"+" and "-" were parsed as zero. They are invalid, as they are for the
standard integer types and for FromStr.
---
 src/parse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index e3dcef8..5fba17f 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -143,6 +143,10 @@ macro_rules! define {
                 Some(&b'-') => return Err(ParseIntError::new(IntErrorKind::NegOverflow)),
                 _ => false,
             };
+            // a sign has to be followed by at least one digit
+            if digits.len() == index {
+                return Err(ParseIntError::new(IntErrorKind::InvalidDigit));
+            }
             let overflow_digits = overflow_digits::<Self>(radix, $is_signed);
             let cannot_overflow = (digits.len() - index) <= overflow_digits;
 
-- 
2.43.0


From 00e7c0abe675bfbb9835c1bf73934e681e892936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:25 +0000
Subject: [PATCH 10/17] fix: panic on division by zero in every division
 routine

Dividing zero by zero returned 1 or 0, and dividing a large value by zero
executed the hardware instruction with a zero divisor, which killed the
process with SIGFPE instead of panicking as documented.
---
 src/math/div.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/math/div.rs b/src/math/div.rs
index 38a857b..f55a900 100644
--- a/src/math/div.rs
+++ b/src/math/div.rs
@@ -49,6 +49,7 @@ pub fn full<const M: usize, const N: usize>(
     if N == 1 {
         return limb_padded(numerator, divisor[0]);
     }
+    assert!(!is_zero(divisor, 0), "attempt to divide by zero");
 
     match cmp(numerator, divisor) {
         Ordering::Less => ([0; M], truncate(*numerator)),
@@ -72,6 +73,8 @@ pub fn full<const M: usize, const N: usize>(
 #[inline]
 #[must_use]
 pub fn wide<const M: usize>(numerator: &[ULimb; M], divisor: UWide) -> ([ULimb; M], UWide) {
+    assert!(divisor != 0, "attempt to divide by zero");
+
     // NOTE: It's way better to keep this optimization outside the comparison.
     if M >= 2 && is_zero(numerator, 2) {
         // Can do as a scalar operation, simple.
@@ -104,6 +107,7 @@ pub fn wide<const M: usize>(numerator: &[ULimb; M], divisor: UWide) -> ([ULimb;
 #[allow(clippy::assertions_on_constants)]
 pub fn from_u128<const M: usize>(numerator: &[ULimb; M], divisor: u128) -> ([ULimb; M], u128) {
     assert!(ULimb::BITS == 32);
+    assert!(divisor != 0, "attempt to divide by zero");
 
     // NOTE: It's way better to keep this optimization outside the comparison.
     if M >= 2 && is_zero(numerator, 2) {
@@ -132,6 +136,8 @@ pub fn from_u128<const M: usize>(numerator: &[ULimb; M], divisor: u128) -> ([ULi
 #[inline]
 #[must_use]
 pub fn limb<const M: usize>(numerator: &[ULimb; M], divisor: ULimb) -> ([ULimb; M], ULimb) {
+    assert!(divisor != 0, "attempt to divide by zero");
+
     // quick path optinmization for small values
     if M >= 2 && is_zero(numerator, 2) {
         let lo = numerator[0] as UWide;
-- 
2.43.0


From 7bdee777a4192ac165984af180e3d6b86a23334e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:04 +0000
Subject: [PATCH 11/17] fix: checked_ilog below the base and for base one

The logarithm of a value below the base is zero, but None was returned,
and ilog panicked. A base of one has no logarithm, but it looped forever
instead of returning None.
---
 src/uint/checked.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/uint/checked.rs b/src/uint/checked.rs
index 27f454a..cbb615b 100644
--- a/src/uint/checked.rs
+++ b/src/uint/checked.rs
@@ -54,11 +54,14 @@ macro_rules! define {
         #[inline(always)]
         pub fn checked_ilog(self, base: Self) -> Option<u32> {
             let zero = Self::from_u8(0);
-            if self == zero || base <= zero || self < base {
+            if self == zero || base <= Self::from_u8(1) {
                 return None;
             }
+            if self < base {
+                return Some(0);
+            }
 
-            // Since base >= self, n >= 1
+            // Since self >= base, n >= 1
             let mut n = 1;
             let mut r = base;
 
-- 
2.43.0


From 60e0fafe8a0fda05824fdaf540257b730b0e490c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:04 +0000
Subject: [PATCH 12/17] fix: conversion of the largest signed value from
 unsigned

TryFrom rejected the maximum of the signed type, which is representable.
---
 src/int/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/int/traits.rs b/src/int/traits.rs
index e43bc7d..72afb4e 100644
--- a/src/int/traits.rs
+++ b/src/int/traits.rs
@@ -132,7 +132,7 @@ macro_rules! define {
 
             #[inline(always)]
             fn try_from(u: $u_t) -> Result<Self, $crate::TryFromIntError> {
-                if u < Self::MAX.as_unsigned() {
+                if u <= Self::MAX.as_unsigned() {
                     Ok(u.as_signed())
                 } else {
                     Err($crate::TryFromIntError {})
-- 
2.43.0


From 1f0a7a23a7cd4d5da7de045f9f24bb8a68d48cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:04 +0000
Subject: [PATCH 13/17] fix: Signed::is_positive of zero

Zero is neither positive nor negative, as for the inherent method and the
standard integer types.
---
 src/int/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/int/traits.rs b/src/int/traits.rs
index 72afb4e..9324f9e 100644
--- a/src/int/traits.rs
+++ b/src/int/traits.rs
@@ -169,7 +169,7 @@ macro_rules! define {
 
             #[inline(always)]
             fn is_positive(&self) -> bool {
-                *self >= <Self as ::num_traits::ConstZero>::ZERO
+                *self > <Self as ::num_traits::ConstZero>::ZERO
             }
 
             #[inline(always)]
-- 
2.43.0


From 35e736df269a22f64ebb06b082638abfd9cfefc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:04 +0000
Subject: [PATCH 14/17] fix: signed 128-bit scalar addition and subtraction
 with 32-bit limbs

The scalar is extended to the full width first, but the routines for a
shorter right-hand side were used. They assert that it is shorter, so
every call panicked, and they report the unsigned carry.
---
 src/int/limb.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/int/limb.rs b/src/int/limb.rs
index 7f7363f..d281b67 100644
--- a/src/int/limb.rs
+++ b/src/int/limb.rs
@@ -1001,7 +1001,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::u128_to_limb_n::<{ Self::LIMBS }>(n);
-                let limbs = $crate::math::add::wrapping_mn(&lhs, &rhs);
+                let limbs = $crate::math::add::wrapping_signed(&lhs, &rhs);
                 Self::from_ne_limbs(limbs)
             }
         }
@@ -1022,7 +1022,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::i128_to_limb_n::<{ Self::LIMBS }>(n);
-                let limbs = $crate::math::add::wrapping_mn(&lhs, &rhs);
+                let limbs = $crate::math::add::wrapping_signed(&lhs, &rhs);
                 Self::from_ne_limbs(limbs)
             }
         }
@@ -1044,7 +1044,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::u128_to_limb_n::<{ Self::LIMBS }>(n);
-                let limbs = $crate::math::sub::wrapping_mn(&lhs, &rhs);
+                let limbs = $crate::math::sub::wrapping_signed(&lhs, &rhs);
                 Self::from_ne_limbs(limbs)
             }
         }
@@ -1066,7 +1066,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::i128_to_limb_n::<{ Self::LIMBS }>(n);
-                let limbs = $crate::math::sub::wrapping_mn(&lhs, &rhs);
+                let limbs = $crate::math::sub::wrapping_signed(&lhs, &rhs);
                 Self::from_ne_limbs(limbs)
             }
         }
@@ -1652,7 +1652,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::u128_to_limb_n::<{ Self::LIMBS }>(n);
-                let (limbs, overflowed) = $crate::math::add::overflowing_mn(&lhs, &rhs);
+                let (limbs, overflowed) = $crate::math::add::overflowing_signed(&lhs, &rhs);
                 (Self::from_ne_limbs(limbs), overflowed)
             }
         }
@@ -1673,7 +1673,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::i128_to_limb_n::<{ Self::LIMBS }>(n);
-                let (limbs, overflowed) = $crate::math::add::overflowing_mn(&lhs, &rhs);
+                let (limbs, overflowed) = $crate::math::add::overflowing_signed(&lhs, &rhs);
                 (Self::from_ne_limbs(limbs), overflowed)
             }
         }
@@ -1694,7 +1694,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::u128_to_limb_n::<{ Self::LIMBS }>(n);
-                let (limbs, overflowed) = $crate::math::sub::overflowing_mn(&lhs, &rhs);
+                let (limbs, overflowed) = $crate::math::sub::overflowing_signed(&lhs, &rhs);
                 (Self::from_ne_limbs(limbs), overflowed)
             }
         }
@@ -1715,7 +1715,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::i128_to_limb_n::<{ Self::LIMBS }>(n);
-                let (limbs, overflowed) = $crate::math::sub::overflowing_mn(&lhs, &rhs);
+                let (limbs, overflowed) = $crate::math::sub::overflowing_signed(&lhs, &rhs);
                 (Self::from_ne_limbs(limbs), overflowed)
             }
         }
-- 
2.43.0


From 41f7687894de173864588c4bc593a10602650704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:04 +0000
Subject: [PATCH 15/17] fix: panic on overflow in the rounding signed divisions

div_euclid, rem_euclid, div_floor and div_ceil are documented to panic if
the division overflows. Dividing the minimum by -1 wrapped instead, for
the first two without overflow checks and for the others always.
---
 src/int/ops.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/int/ops.rs b/src/int/ops.rs
index b79d712..0ac663d 100644
--- a/src/int/ops.rs
+++ b/src/int/ops.rs
@@ -88,14 +88,10 @@ macro_rules! define {
         #[inline(always)]
         #[must_use = $crate::shared::docs::must_use_copy_doc!()]
         pub fn div_euclid(self, rhs: Self) -> Self {
-            if cfg!(not(have_overflow_checks)) {
-                self.wrapping_div_euclid(rhs)
-            } else {
-                match self.checked_div_euclid(rhs) {
-                    Some(v) => v,
-                    _ => core::panic!("attempt to divide with overflow"),
-                }
+            if self.is_div_overflow(rhs) {
+                core::panic!("attempt to divide with overflow");
             }
+            self.wrapping_div_euclid(rhs)
         }
 
         /// Calculates the least nonnegative remainder of `self (mod rhs)`.
@@ -110,14 +106,10 @@ macro_rules! define {
         #[inline(always)]
         #[must_use = $crate::shared::docs::must_use_copy_doc!()]
         pub fn rem_euclid(self, rhs: Self) -> Self {
-            if cfg!(not(have_overflow_checks)) {
-                self.wrapping_rem_euclid(rhs)
-            } else {
-                match self.checked_rem_euclid(rhs) {
-                    Some(v) => v,
-                    _ => core::panic!("attempt to divide with overflow"),
-                }
+            if self.is_div_overflow(rhs) {
+                core::panic!("attempt to divide with overflow");
             }
+            self.wrapping_rem_euclid(rhs)
         }
 
         /// Calculates the quotient of `self` and `rhs`, rounding the result towards
@@ -129,6 +121,9 @@ macro_rules! define {
         #[inline]
         #[must_use = $crate::shared::docs::must_use_copy_doc!()]
         pub fn div_floor(self, rhs: Self) -> Self {
+            if self.is_div_overflow(rhs) {
+                core::panic!("attempt to divide with overflow");
+            }
             let (d, r) = self.wrapping_div_rem(rhs);
 
             // If the remainder is non-zero, we need to subtract one if the
@@ -154,6 +149,9 @@ macro_rules! define {
         #[inline]
         #[must_use = $crate::shared::docs::must_use_copy_doc!()]
         pub fn div_ceil(self, rhs: Self) -> Self {
+            if self.is_div_overflow(rhs) {
+                core::panic!("attempt to divide with overflow");
+            }
             let (d, r) = self.wrapping_div_rem(rhs);
 
             // When remainder is non-zero we have a.div_ceil(b) == 1 + a.div_floor(b),
-- 
2.43.0


From 8a80cf6be0d479b762786d36ede8589343327924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:04 +0000
Subject: [PATCH 16/17] fix: honour the width, fill, alignment and sign flags
 when formatting

Display ignored the width, and the other formats padded with the fill
character on the left only, after the prefix and not counting it. Use
pad_integral, so the output has the layout of the standard integers.
---
 src/int/traits.rs  | 11 +++++-----
 src/uint/traits.rs | 50 +++++-----------------------------------------
 2 files changed, 10 insertions(+), 51 deletions(-)

diff --git a/src/int/traits.rs b/src/int/traits.rs
index 9324f9e..719ec4a 100644
--- a/src/int/traits.rs
+++ b/src/int/traits.rs
@@ -61,13 +61,12 @@ macro_rules! define {
 
         impl core::fmt::Display for $t {
             #[inline]
+            #[allow(clippy::bind_instead_of_map)]
             fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> Result<(), core::fmt::Error> {
-                if self.is_negative() {
-                    write!(f, "-")?;
-                } else if f.sign_plus() {
-                    write!(f, "+")?;
-                }
-                core::fmt::Display::fmt(&self.unsigned_abs(), f)
+                let mut buffer = [0u8; Self::BITS as usize];
+                let bytes = self.unsigned_abs().to_str_radix(&mut buffer, 10);
+                let formatted = core::str::from_utf8(bytes).or_else(|_| Err(core::fmt::Error))?;
+                f.pad_integral(!self.is_negative(), "", formatted)
             }
         }
 
diff --git a/src/uint/traits.rs b/src/uint/traits.rs
index b9814bb..396319b 100644
--- a/src/uint/traits.rs
+++ b/src/uint/traits.rs
@@ -15,17 +15,7 @@ macro_rules! define {
                 let mut buffer = [0u8; Self::BITS as usize];
                 let bytes = self.to_str_radix(&mut buffer, 2);
                 let formatted = core::str::from_utf8(bytes).or_else(|_| Err(core::fmt::Error))?;
-                if f.alternate() {
-                    f.write_str("0b")?;
-                }
-                if let Some(width) = f.width() {
-                    let c = f.fill();
-                    let pad = width.saturating_sub(bytes.len());
-                    for _ in 0..pad {
-                        write!(f, "{c}")?;
-                    }
-                }
-                core::write!(f, "{}", formatted)
+                f.pad_integral(true, "0b", formatted)
             }
         }
 
@@ -36,7 +26,7 @@ macro_rules! define {
                 let mut buffer = [0u8; Self::BITS as usize];
                 let bytes = self.to_str_radix(&mut buffer, 10);
                 let formatted = core::str::from_utf8(bytes).or_else(|_| Err(core::fmt::Error))?;
-                core::write!(f, "{}", formatted)
+                f.pad_integral(true, "", formatted)
             }
         }
 
@@ -48,17 +38,7 @@ macro_rules! define {
                 let lower = buffer.map(|x| x.to_ascii_lowercase());
                 let bytes = &lower[buffer.len() - count..];
                 let formatted = core::str::from_utf8(bytes).or_else(|_| Err(core::fmt::Error))?;
-                if f.alternate() {
-                    f.write_str("0x")?;
-                }
-                if let Some(width) = f.width() {
-                    let c = f.fill();
-                    let pad = width.saturating_sub(count);
-                    for _ in 0..pad {
-                        write!(f, "{c}")?;
-                    }
-                }
-                f.write_str(formatted)
+                f.pad_integral(true, "0x", formatted)
             }
         }
 
@@ -70,17 +50,7 @@ macro_rules! define {
                 let upper = buffer.map(|x| x.to_ascii_uppercase());
                 let bytes = &upper[buffer.len() - count..];
                 let formatted = core::str::from_utf8(bytes).or_else(|_| Err(core::fmt::Error))?;
-                if f.alternate() {
-                    f.write_str("0x")?;
-                }
-                if let Some(width) = f.width() {
-                    let c = f.fill();
-                    let pad = width.saturating_sub(count);
-                    for _ in 0..pad {
-                        write!(f, "{c}")?;
-                    }
-                }
-                f.write_str(formatted)
+                f.pad_integral(true, "0x", formatted)
             }
         }
 
@@ -112,17 +82,7 @@ macro_rules! define {
                 let mut buffer = [0u8; Self::BITS as usize];
                 let bytes = self.to_str_radix(&mut buffer, 8);
                 let formatted = core::str::from_utf8(bytes).or_else(|_| Err(core::fmt::Error))?;
-                if f.alternate() {
-                    f.write_str("0o")?;
-                }
-                if let Some(width) = f.width() {
-                    let c = f.fill();
-                    let pad = width.saturating_sub(bytes.len());
-                    for _ in 0..pad {
-                        write!(f, "{c}")?;
-                    }
-                }
-                core::write!(f, "{}", formatted)
+                f.pad_integral(true, "0o", formatted)
             }
         }
 
-- 
2.43.0


From e3342a170b7d47108ad77afb6ed55d548896d55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:33 +0000
Subject: [PATCH 17/17] fix: abs of the minimum without overflow checks

It panicked in every build. As for negation and for the standard integer
types, the overflow is only checked if overflow checks are on, and
otherwise the result wraps.
---
 src/int/ops.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/int/ops.rs b/src/int/ops.rs
index 0ac663d..ae7ec16 100644
--- a/src/int/ops.rs
+++ b/src/int/ops.rs
@@ -275,9 +275,13 @@ macro_rules! define {
         #[inline(always)]
         #[must_use = $crate::shared::docs::must_use_copy_doc!()]
         pub const fn abs(self) -> Self {
-            match self.checked_abs() {
-                Some(value) => value,
-                None => core::panic!("attempt to negate with overflow"),
+            if cfg!(not(have_overflow_checks)) {
+                self.wrapping_abs()
+            } else {
+                match self.checked_abs() {
+                    Some(value) => value,
+                    None => core::panic!("attempt to negate with overflow"),
+                }
             }
         }
 
-- 
2.43.0


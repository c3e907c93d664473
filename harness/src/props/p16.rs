//! P16: operations with a 32, 64 or 128-bit scalar.
use super::ty::*;

crate::scalar_type! { u32, u32_plain, u32, u u128, [U "u" false I "i" true],
     add_u32 sub_u32 mul_u32,
     wrapping_add_u32 wrapping_sub_u32 wrapping_mul_u32,
     overflowing_add_u32 overflowing_sub_u32 overflowing_mul_u32,
     checked_add_u32 checked_sub_u32 checked_mul_u32,
     div_rem_u32 div_u32 rem_u32,
     wrapping_div_rem_u32 wrapping_div_u32 wrapping_rem_u32,
     overflowing_div_rem_u32 overflowing_div_u32 overflowing_rem_u32,
     checked_div_rem_u32 checked_div_u32 checked_rem_u32 }
crate::scalar_type! { u64, u64_plain, u64, u u128, [U "u" false I "i" true],
     add_u64 sub_u64 mul_u64,
     wrapping_add_u64 wrapping_sub_u64 wrapping_mul_u64,
     overflowing_add_u64 overflowing_sub_u64 overflowing_mul_u64,
     checked_add_u64 checked_sub_u64 checked_mul_u64,
     div_rem_u64 div_u64 rem_u64,
     wrapping_div_rem_u64 wrapping_div_u64 wrapping_rem_u64,
     overflowing_div_rem_u64 overflowing_div_u64 overflowing_rem_u64,
     checked_div_rem_u64 checked_div_u64 checked_rem_u64 }
crate::scalar_type! { u128, u128_plain, u128, u u128, [U "u" false I "i" true],
     add_u128 sub_u128 mul_u128,
     wrapping_add_u128 wrapping_sub_u128 wrapping_mul_u128,
     overflowing_add_u128 overflowing_sub_u128 overflowing_mul_u128,
     checked_add_u128 checked_sub_u128 checked_mul_u128,
     div_rem_u128 div_u128 rem_u128,
     wrapping_div_rem_u128 wrapping_div_u128 wrapping_rem_u128,
     overflowing_div_rem_u128 overflowing_div_u128 overflowing_rem_u128,
     checked_div_rem_u128 checked_div_u128 checked_rem_u128 }
crate::scalar_type! { i32, i32_plain, i32, i i128, [I "i" true],
     add_i32 sub_i32 mul_i32,
     wrapping_add_i32 wrapping_sub_i32 wrapping_mul_i32,
     overflowing_add_i32 overflowing_sub_i32 overflowing_mul_i32,
     checked_add_i32 checked_sub_i32 checked_mul_i32,
     div_rem_i32 div_i32 rem_i32,
     wrapping_div_rem_i32 wrapping_div_i32 wrapping_rem_i32,
     overflowing_div_rem_i32 overflowing_div_i32 overflowing_rem_i32,
     checked_div_rem_i32 checked_div_i32 checked_rem_i32 }
crate::scalar_type! { i64, i64_plain, i64, i i128, [I "i" true],
     add_i64 sub_i64 mul_i64,
     wrapping_add_i64 wrapping_sub_i64 wrapping_mul_i64,
     overflowing_add_i64 overflowing_sub_i64 overflowing_mul_i64,
     checked_add_i64 checked_sub_i64 checked_mul_i64,
     div_rem_i64 div_i64 rem_i64,
     wrapping_div_rem_i64 wrapping_div_i64 wrapping_rem_i64,
     overflowing_div_rem_i64 overflowing_div_i64 overflowing_rem_i64,
     checked_div_rem_i64 checked_div_i64 checked_rem_i64 }
crate::scalar_type! { i128, i128_plain, i128, i i128, [I "i" true],
     add_i128 sub_i128 mul_i128,
     wrapping_add_i128 wrapping_sub_i128 wrapping_mul_i128,
     overflowing_add_i128 overflowing_sub_i128 overflowing_mul_i128,
     checked_add_i128 checked_sub_i128 checked_mul_i128,
     div_rem_i128 div_i128 rem_i128,
     wrapping_div_rem_i128 wrapping_div_i128 wrapping_rem_i128,
     overflowing_div_rem_i128 overflowing_div_i128 overflowing_rem_i128,
     checked_div_rem_i128 checked_div_i128 checked_rem_i128 }

pub fn suites(t: Tier, out: &mut Vec<Suite>) {
    crate::scalar_suites!(out, t, "P16", "u32", 32, false, u32, u32_plain, false);
    crate::scalar_suites!(out, t, "P16", "u64", 64, false, u64, u64_plain, false);
    crate::scalar_suites!(out, t, "P16", "u128", 128, false, u128, u128_plain, false);
    crate::scalar_suites!(out, t, "P16", "i32", 32, true, i32, i32_plain, false);
    crate::scalar_suites!(out, t, "P16", "i64", 64, true, i64, i64_plain, false);
    crate::scalar_suites!(out, t, "P16", "i128", 128, true, i128, i128_plain, false);
}

//! P15: operations with a limb or a double limb.
use super::ty::*;
use ::i256::{ILimb, IWide, ULimb, UWide};

crate::scalar_type! { ulimb, ulimb_plain, ULimb, u u128, [U "u" false I "i" true],
     add_ulimb sub_ulimb mul_ulimb,
     wrapping_add_ulimb wrapping_sub_ulimb wrapping_mul_ulimb,
     overflowing_add_ulimb overflowing_sub_ulimb overflowing_mul_ulimb,
     checked_add_ulimb checked_sub_ulimb checked_mul_ulimb,
     div_rem_ulimb div_ulimb rem_ulimb,
     wrapping_div_rem_ulimb wrapping_div_ulimb wrapping_rem_ulimb,
     overflowing_div_rem_ulimb overflowing_div_ulimb overflowing_rem_ulimb,
     checked_div_rem_ulimb checked_div_ulimb checked_rem_ulimb }
crate::scalar_type! { uwide, uwide_plain, UWide, u u128, [U "u" false I "i" true],
     add_uwide sub_uwide mul_uwide,
     wrapping_add_uwide wrapping_sub_uwide wrapping_mul_uwide,
     overflowing_add_uwide overflowing_sub_uwide overflowing_mul_uwide,
     checked_add_uwide checked_sub_uwide checked_mul_uwide,
     div_rem_uwide div_uwide rem_uwide,
     wrapping_div_rem_uwide wrapping_div_uwide wrapping_rem_uwide,
     overflowing_div_rem_uwide overflowing_div_uwide overflowing_rem_uwide,
     checked_div_rem_uwide checked_div_uwide checked_rem_uwide }
crate::scalar_type! { ilimb, ilimb_plain, ILimb, i i128, [I "i" true],
     add_ilimb sub_ilimb mul_ilimb,
     wrapping_add_ilimb wrapping_sub_ilimb wrapping_mul_ilimb,
     overflowing_add_ilimb overflowing_sub_ilimb overflowing_mul_ilimb,
     checked_add_ilimb checked_sub_ilimb checked_mul_ilimb,
     div_rem_ilimb div_ilimb rem_ilimb,
     wrapping_div_rem_ilimb wrapping_div_ilimb wrapping_rem_ilimb,
     overflowing_div_rem_ilimb overflowing_div_ilimb overflowing_rem_ilimb,
     checked_div_rem_ilimb checked_div_ilimb checked_rem_ilimb }
crate::scalar_type! { iwide, iwide_plain, IWide, i i128, [I "i" true],
     add_iwide sub_iwide mul_iwide,
     wrapping_add_iwide wrapping_sub_iwide wrapping_mul_iwide,
     overflowing_add_iwide overflowing_sub_iwide overflowing_mul_iwide,
     checked_add_iwide checked_sub_iwide checked_mul_iwide,
     div_rem_iwide div_iwide rem_iwide,
     wrapping_div_rem_iwide wrapping_div_iwide wrapping_rem_iwide,
     overflowing_div_rem_iwide overflowing_div_iwide overflowing_rem_iwide,
     checked_div_rem_iwide checked_div_iwide checked_rem_iwide }

pub fn suites(t: Tier, out: &mut Vec<Suite>) {
    crate::scalar_suites!(out, t, "P15", "ulimb", ULimb::BITS, false, ulimb, ulimb_plain, true);
    crate::scalar_suites!(out, t, "P15", "uwide", UWide::BITS, false, uwide, uwide_plain, true);
    crate::scalar_suites!(out, t, "P15", "ilimb", ILimb::BITS, true, ilimb, ilimb_plain, true);
    crate::scalar_suites!(out, t, "P15", "iwide", IWide::BITS, true, iwide, iwide_plain, true);
}

//! The model against the machine's own 128-bit integers, and against laws at larger widths.

use crate::model::Z;
use crate::space;

fn word(v: i128) -> Z<2> {
    Z::i(v)
}
fn back(z: &Z<2>) -> i128 {
    let l = z.lo::<2>();
    (l[0] as u128 | (l[1] as u128) << 64) as i128
}

/// Number of comparisons made; panics at the first difference.
pub fn run() -> u64 {
    let mut n = 0;
    let mut eq = |a: bool, what: &str, x: &dyn std::fmt::Debug| {
        n += 1;
        assert!(a, "the model is wrong: {} at {:?}", what, x);
    };
    let v: Vec<i128> = space::scalars(128, space::Tier::Quick).into_iter().map(|x| x as i128).collect();
    for &a in &v {
        let x = word(a);
        eq(back(&x) == a, "round trip", &a);
        eq(back(&x.neg()) == a.wrapping_neg(), "neg", &a);
        eq(back(&x.not()) == !a, "not", &a);
        eq(x.is_neg() == (a < 0) && x.is_zero() == (a == 0), "sign", &a);
        eq(x.fits_s(1) == i64::try_from(a).is_ok(), "fits_s", &a);
        eq(x.fits_u(1) == u64::try_from(a).is_ok(), "fits_u", &a);
        for k in 0..128 {
            eq(back(&x.shl(k)) == a << k, "shl", &(a, k));
            eq(back(&x.shr(k)) == a >> k, "shr", &(a, k));
            eq(x.bit(k) == (a >> k & 1 == 1), "bit", &(a, k));
        }
        if a >= 0 {
            eq(x.bits() == 128 - a.leading_zeros(), "bits", &a);
        }
        if a > i128::MIN {
            eq(x.to_radix(10) == a.to_string(), "decimal", &a);
            eq(i128::from_str_radix(&x.to_radix(7), 7) == Ok(a), "base 7", &a);
            eq(i128::from_str_radix(&x.to_radix(36), 36) == Ok(a), "base 36", &a);
            eq(x.to_radix(16).trim_start_matches('-') == format!("{:x}", a.unsigned_abs()), "hex", &a);
            eq(back(&x.abs()) == a.abs(), "abs", &a);
        }
        for e in 0..9 {
            eq(back(&x.pow_mod(e, 2)) == a.wrapping_pow(e), "power", &(a, e));
        }
        for &b in &v {
            let y = word(b);
            eq(back(&x.add(&y)) == a.wrapping_add(b), "add", &(a, b));
            eq(back(&x.sub(&y)) == a.wrapping_sub(b), "sub", &(a, b));
            eq(back(&x.mul(&y)) == a.wrapping_mul(b), "mul", &(a, b));
            eq(x.cmp(&y) == a.cmp(&b), "compare", &(a, b));
            if b != 0 && a > i128::MIN && b > i128::MIN {
                let (q, r) = x.divrem(&y);
                eq((back(&q), back(&r)) == (a / b, a % b), "divide", &(a, b));
            }
        }
    }
    // wider numbers: laws that tie multiplication, division, addition and shifts together
    let v = space::lean(4, space::Tier::Mid);
    for p in &v {
        let a: Z<9> = Z::from_s(&{ let mut r = [0; 4]; r.copy_from_slice(&p[..4]); r });
        for q in &v {
            let b: Z<9> = Z::from_s(&{ let mut r = [0; 4]; r.copy_from_slice(&q[..4]); r });
            eq(a.add(&b).mul(&a.sub(&b)) == a.mul(&a).sub(&b.mul(&b)), "difference of squares", &(a.0, b.0));
            eq(a.mul(&b) == b.mul(&a), "commutativity", &(a.0, b.0));
            // multiplication as a sum of shifts
            let (mut s, m) = (Z::ZERO, b.abs());
            for k in 0..m.bits() {
                if m.bit(k) {
                    s = s.add(&a.shl(k));
                }
            }
            eq(a.mul(&b) == if b.is_neg() { s.neg() } else { s }, "product", &(a.0, b.0));
            if !b.is_zero() {
                let (x, r) = a.divrem(&b);
                eq(x.mul(&b).add(&r) == a && r.abs().lt(&b.abs()) && (r.is_zero() || r.is_neg() == a.is_neg()), "division", &(a.0, b.0));
            }
        }
    }
    n
}

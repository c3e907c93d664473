//! P12: serialisation to and from bytes, words and limbs.
use super::ty::*;
use ::i256::{ULimb, UWide};

/// The value's digits of `b` bits, least significant first.
fn digits(r: &R, b: u32) -> Vec<u128> {
    (0..BITS / b)
        .map(|k| {
            let p = k * b;
            let q = (p / 64) as usize;
            let v = r[q] as u128 | if q + 1 < L { (r[q + 1] as u128) << 64 } else { 0 };
            let v = v >> (p % 64);
            if b == 128 { v } else { v & ((1 << b) - 1) }
        })
        .collect()
}

fn order(d: &[u128], e: char) -> Vec<u128> {
    let mut v = d.to_vec();
    if e == 'b' || e == 'n' && cfg!(target_endian = "big") {
        v.reverse();
    }
    v
}

macro_rules! forms {
    ($c:ident, $r:ident, $d:ident, $t:ty, $n:expr, $e:literal, $to:ident, $from:ident) => {{
        let want = order(&$d, $e);
        let mut arr = [0 as $t; $n];
        for (x, y) in arr.iter_mut().zip(&want) {
            *x = *y as $t;
        }
        ck!($c, concat!("u.", stringify!($to)), U::new(&$r).$to() == arr, true);
        ck!($c, concat!("i.", stringify!($to)), I::new(&$r).$to() == arr, true);
        ck!($c, concat!("U::", stringify!($from)), U::$from(arr).raw(), $r);
        ck!($c, concat!("I::", stringify!($from)), I::$from(arr).raw(), $r);
    }};
}

fn fixed(c: &mut Ctx, a: &Args) {
    let r: R = a.z(0);
    let d = digits(&r, 8);
    forms!(c, r, d, u8, 8 * L, 'b', to_be_bytes, from_be_bytes);
    forms!(c, r, d, u8, 8 * L, 'l', to_le_bytes, from_le_bytes);
    forms!(c, r, d, u8, 8 * L, 'n', to_ne_bytes, from_ne_bytes);
    let d = digits(&r, 32);
    forms!(c, r, d, u32, 2 * L, 'b', to_be_u32, from_be_u32);
    forms!(c, r, d, u32, 2 * L, 'l', to_le_u32, from_le_u32);
    forms!(c, r, d, u32, 2 * L, 'n', to_ne_u32, from_ne_u32);
    let d = digits(&r, 64);
    forms!(c, r, d, u64, L, 'b', to_be_u64, from_be_u64);
    forms!(c, r, d, u64, L, 'l', to_le_u64, from_le_u64);
    forms!(c, r, d, u64, L, 'n', to_ne_u64, from_ne_u64);
    let (u, i) = (U::new(&r), I::new(&r));
    // `to_be` lays the value out so that its memory is in big endian order
    let be = order(&digits(&r, 8), 'b');
    let le = order(&digits(&r, 8), 'l');
    let eq = |m: [u8; 8 * L], w: &[u128]| m.iter().zip(w).all(|(x, y)| *x as u128 == *y);
    ck!(c, "u.to_be", eq(u.to_be().to_ne_bytes(), &be), true);
    ck!(c, "i.to_be", eq(i.to_be().to_ne_bytes(), &be), true);
    ck!(c, "u.to_le", eq(u.to_le().to_ne_bytes(), &le), true);
    ck!(c, "i.to_le", eq(i.to_le().to_ne_bytes(), &le), true);
    ck!(c, "U::from_be", U::from_be(u.to_be()).raw(), r);
    ck!(c, "I::from_be", I::from_be(i.to_be()).raw(), r);
    ck!(c, "U::from_le", U::from_le(u.to_le()).raw(), r);
    ck!(c, "I::from_le", I::from_le(i.to_le()).raw(), r);
}

fn limbs(c: &mut Ctx, a: &Args) {
    const LB: u32 = ULimb::BITS;
    const N: usize = (BITS / LB) as usize;
    let r: R = a.z(0);
    let d = digits(&r, LB);
    forms!(c, r, d, ULimb, N, 'b', to_be_limbs, from_be_limbs);
    forms!(c, r, d, ULimb, N, 'l', to_le_limbs, from_le_limbs);
    forms!(c, r, d, ULimb, N, 'n', to_ne_limbs, from_ne_limbs);
    let d = digits(&r, 2 * LB);
    forms!(c, r, d, UWide, N / 2, 'b', to_be_wide, from_be_wide);
    forms!(c, r, d, UWide, N / 2, 'l', to_le_wide, from_le_wide);
    forms!(c, r, d, UWide, N / 2, 'n', to_ne_wide, from_ne_wide);
}

pub fn suites(t: Tier, out: &mut Vec<Suite>) {
    let mut v = space::wide(L, t);
    // every byte different
    let mut r = [0; MAXL];
    for k in 0..8 * L {
        r[k / 8] |= (k as u64 * 37 + 11 & 255) << (k % 8 * 8);
    }
    v.push(r);
    v.push(space::neg(L, &r));
    if t != Tier::Tiny {
        // every pair of bytes
        for i in 0..8 * L {
            for j in 0..i {
                let mut r = [0; MAXL];
                r[i / 8] |= 0xa7 << (i % 8 * 8);
                r[j / 8] |= 0x5c << (j % 8 * 8);
                v.push(r);
            }
        }
    }
    let v = space::norm(v);
    out.push(suite(format!("P12/{}/fixed", UN), space::unary(v.clone()), fixed, &[]));
    let mut s = suite(format!("P12/{}/limbs", UN), space::unary(v), limbs, &[]);
    s.dep = Dep::Limb;
    out.push(s);
}

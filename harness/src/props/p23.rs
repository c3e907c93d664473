//! P23: operations with caller preconditions, inside the preconditions.
use super::ty::*;
use ::i256::{ULimb, UWide};

/// Exactly the pairs for which the result exists.
fn pair(c: &mut Ctx, a: &Args) {
    let (xr, yr): (R, R) = (a.z(0), a.z(1));
    let (u, v, i, j) = (U::new(&xr), U::new(&yr), I::new(&xr), I::new(&yr));
    let (x, y) = (Z::from_u(&xr), Z::from_u(&yr));
    let (p, q) = (Z::from_s(&xr), Z::from_s(&yr));
    macro_rules! one {
        ($name:literal, $e:expr, $fit:expr) => {
            match $fit {
                Some(r) => {
                    c.hit(0);
                    // SAFETY: the precondition is that the result fits, and it does
                    ck!(c, $name, unsafe { $e }.raw(), r);
                },
                None => c.hit(1),
            }
        };
    }
    one!("u.unchecked_add", u.unchecked_add(v), fit_u(&x.add(&y)));
    one!("u.unchecked_sub", u.unchecked_sub(v), fit_u(&x.sub(&y)));
    one!("u.unchecked_mul", u.unchecked_mul(v), fit_u(&x.mul(&y)));
    one!("i.unchecked_add", i.unchecked_add(j), fit_s(&p.add(&q)));
    one!("i.unchecked_sub", i.unchecked_sub(j), fit_s(&p.sub(&q)));
    one!("i.unchecked_mul", i.unchecked_mul(j), fit_s(&p.mul(&q)));
}

fn unary(c: &mut Ctx, a: &Args) {
    let xr: R = a.z(0);
    if let Some(r) = fit_s(&Z::from_s(&xr).neg()) {
        c.hit(0);
        // SAFETY: the negation fits
        ck!(c, "i.unchecked_neg", unsafe { I::new(&xr).unchecked_neg() }.raw(), r);
    } else {
        c.hit(1);
    }
}

/// Every amount below the width.
fn shift(c: &mut Ctx, a: &Args) {
    let xr: R = a.z(0);
    let n = a.n[0] as u32;
    let (u, i) = (U::new(&xr), I::new(&xr));
    let (x, p) = (Z::from_u(&xr), Z::from_s(&xr));
    // SAFETY: the amount is below the width
    unsafe {
        ck!(c, "u.unchecked_shl", u.unchecked_shl(n).raw(), x.shl(n).lo());
        ck!(c, "u.unchecked_shr", u.unchecked_shr(n).raw(), x.shr(n).lo());
        ck!(c, "i.unchecked_shl", i.unchecked_shl(n).raw(), x.shl(n).lo());
        ck!(c, "i.unchecked_shr", i.unchecked_shr(n).raw(), p.shr(n).lo());
    }
}

/// Indices and buffers past what there is: an answer or a panic, and nothing else.
fn edges(c: &mut Ctx, a: &Args) {
    let r: R = a.z(0);
    let (u, i, k) = (U::new(&r), I::new(&r), a.n[0] as usize);
    let limb = |k: usize| (k < BITS as usize / ULimb::BITS as usize).then(|| {
        (r[k * ULimb::BITS as usize / 64] >> (k as u32 * ULimb::BITS % 64)) as ULimb
    });
    let wide = |k: usize| (k < BITS as usize / UWide::BITS as usize).then(|| {
        limb(2 * k).unwrap() as UWide | (limb(2 * k + 1).unwrap() as UWide) << ULimb::BITS
    });
    c.hit(limb(k).is_none() as usize);
    ckp!(c, "u.get_limb", u.get_limb(k), limb(k));
    ckp!(c, "i.get_limb", i.get_limb(k), limb(k));
    ckp!(c, "u.get_wide", u.get_wide(k), wide(k));
    ckp!(c, "i.get_wide", i.get_wide(k), wide(k));
    // the needed length and which digits are refused are decided elsewhere; here only that nothing
    // undefined happens and that the rest of the buffer stays as it was
    for n in [k, k.saturating_add(BITS as usize - 1)] {
        if n > BITS as usize + 64 {
            continue;
        }
        for radix in [2, 10, 16, 36, 0, 1, 37, u32::MAX] {
            let mut b = vec![0xa5u8; n + 32];
            c.begin("u.to_str_radix into a short buffer");
            let g = may_panic(|| u.to_str_radix(&mut b[16..16 + n], radix).to_vec());
            c.note(&matches!(g, Out::Panic));
            c.check(b[..16].iter().chain(&b[16 + n..]).all(|x| *x == 0xa5), true);
            c.begin("i.to_str_radix into a short buffer");
            let g = may_panic(|| i.to_str_radix(&mut b[16..16 + n], radix).to_vec());
            c.note(&matches!(g, Out::Panic));
            c.check(b[..16].iter().chain(&b[16 + n..]).all(|x| *x == 0xa5), true);
        }
    }
}

const FIT: &[&str] = &["precondition holds", "precondition does not hold"];

pub fn suites(t: Tier, out: &mut Vec<Suite>) {
    let (v, w) = if t == Tier::Tiny {
        let v: Vec<Raw> = space::lean(L, t).into_iter().step_by(8).collect();
        (v.clone(), v)
    } else {
        (space::core(L, t), space::wide(L, t))
    };
    out.push(suite(format!("P23/{}/pairs", UN), space::pairs(v.clone(), v.clone()), pair, FIT));
    if t != Tier::Tiny {
        out.push(suite(
            format!("P23/{}/bounds", UN),
            space::derived(if t == Tier::Thorough { w.clone() } else { v }, "partners within 2 of every bound", crate::bounds::<W, L>),
            pair, FIT,
        ));
    }
    out.push(suite(format!("P23/{}/unary", UN), space::unary(w.clone()), unary, FIT));
    let n: Vec<u128> = if t == Tier::Tiny { vec![0, 1, 31, 32, 63, 64, 65, BITS as u128 - 1] } else { (0..BITS as u128).collect() };
    out.push(suite(format!("P23/{}/shifts", UN), space::with_scalar(space::lean(L, t).into_iter().step_by(if t == Tier::Tiny { 16 } else { 1 }).collect(), n), shift, &[]));
    let nl = BITS as u128 / ULimb::BITS as u128;
    let tiny = t == Tier::Tiny;
    let mut n: Vec<u128> = if tiny { vec![0, nl / 2, nl - 1, nl, 2 * nl] } else { (0..=4 * nl).collect() };
    n.extend([usize::MAX, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX - 1, u32::MAX as usize].map(|x| x as u128));
    let v: Vec<Raw> = if tiny { space::generic(L, 1).into_iter().rev().take(1).collect() } else { space::lean(L, Tier::Mid).into_iter().step_by(4).collect() };
    out.push(suite(format!("P23/{}/edges", UN), space::with_scalar(v, n), edges, &["index in range", "index out of range"]));
}

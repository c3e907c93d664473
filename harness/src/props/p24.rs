//! The exported limb-array routines, for limb counts other than those of the integer types.

use crate::engine::{Args, Ctx, Gen, Raw, Suite, MAXL};
use crate::space::{self, Tier, Vals};
use crate::{ck, suite};
use std::cmp::Ordering;

const W: usize = 11;
type Z = crate::model::Z<W>;

fn modulo(z: &Z, bits: u32) -> Z {
    let mut r = *z;
    for (i, d) in r.0.iter_mut().enumerate() {
        let at = 64 * i as u32;
        if at >= bits {
            *d = 0;
        } else if bits - at < 64 {
            *d &= (1 << (bits - at)) - 1;
        }
    }
    r
}
fn signed(z: &Z, bits: u32) -> Z {
    if z.bit(bits - 1) { z.sub(&Z::pow2(bits)) } else { *z }
}
fn fits_u(z: &Z, bits: u32) -> bool {
    !z.is_neg() && z.shr(bits).is_zero()
}
fn fits_s(z: &Z, bits: u32) -> bool {
    let h = z.shr(bits - 1);
    h.is_zero() || h == Z::i(-1)
}
/// What a wrapping and an overflowing routine return.
fn out(z: &Z, bits: u32) -> [u64; W] {
    modulo(z, bits).0
}

/// Limbs of one size.
trait Limb: Copy {
    const BITS: u32;
    fn cut(z: &Z, i: usize) -> Self;
    fn join(z: &mut Z, i: usize, v: Self);
}
macro_rules! limb {
    ($($t:ident)*) => ($(impl Limb for $t {
        const BITS: u32 = $t::BITS;
        fn cut(z: &Z, i: usize) -> Self {
            let s = z.shr(i as u32 * $t::BITS);
            (s.0[0] as u128 | (s.0[1] as u128) << 64) as $t
        }
        fn join(z: &mut Z, i: usize, v: Self) {
            *z = z.add(&Z::u(v as u128).shl(i as u32 * $t::BITS));
        }
    })*)
}
limb! { u32 u64 u128 }
fn limbs<T: Limb, const N: usize>(z: &Z) -> [T; N] {
    std::array::from_fn(|i| T::cut(z, if cfg!(target_endian = "big") { N - 1 - i } else { i }))
}
fn val<T: Limb, const N: usize>(v: &[T; N]) -> Z {
    let mut z = Z::ZERO;
    for i in 0..N {
        T::join(&mut z, i, v[if cfg!(target_endian = "big") { N - 1 - i } else { i }]);
    }
    z
}
fn arg(a: &Args, i: usize, bits: u32) -> Z {
    modulo(&Z::from_u(&a.z[i][..8].try_into().map(|r: [u64; 8]| r).unwrap()), bits)
}

macro_rules! lane {
    ($m:ident, $u:ident $s:ident $uw:ident $sw:ident,
     $wu:ident $ou:ident $wl:ident $ol:ident $ww:ident $ow:ident,
     $wi:ident $oi:ident $wul:ident $oul:ident $wil:ident $oil:ident $wuw:ident $ouw:ident $wiw:ident $oiw:ident,
     $wide:ident) => {
        mod $m {
            use super::*;
            use i256::math::{add, mul, sub};
            type T = $u;
            const B: u32 = $u::BITS;

            /// One routine of each of the three modules with the same shape.
            macro_rules! three {
                ($c:expr, $n:expr, $w:ident $o:ident, $x:expr, $y:expr, $zx:expr, $zy:expr, $fits:ident) => {{
                    let bits = $n as u32 * B;
                    let (x, y) = (&$x, $y);
                    for (k, e) in [$zx.add(&$zy), $zx.sub(&$zy), $zx.mul(&$zy)].iter().enumerate() {
                        let exp = (out(e, bits), !$fits(e, bits));
                        match k {
                            0 => {
                                ck!($c, concat!("add::", stringify!($w)), val(&add::$w(x, y)).0, exp.0);
                                ck!($c, concat!("add::", stringify!($o)), { let (v, o) = add::$o(x, y); (val(&v).0, o) }, exp);
                            },
                            1 => {
                                ck!($c, concat!("sub::", stringify!($w)), val(&sub::$w(x, y)).0, exp.0);
                                ck!($c, concat!("sub::", stringify!($o)), { let (v, o) = sub::$o(x, y); (val(&v).0, o) }, exp);
                            },
                            _ => {
                                ck!($c, concat!("mul::", stringify!($w)), val(&mul::$w(x, y)).0, exp.0);
                                ck!($c, concat!("mul::", stringify!($o)), { let (v, o) = mul::$o(x, y); (val(&v).0, o) }, exp);
                            },
                        }
                    }
                }};
            }

            /// Two operands of the same count.
            pub fn same<const N: usize>(c: &mut Ctx, a: &Args) {
                let bits = N as u32 * B;
                let (zx, zy) = (arg(a, 0, bits), arg(a, 1, bits));
                let (x, y) = (limbs::<T, N>(&zx), limbs::<T, N>(&zy));
                c.hit(if fits_u(&zx.mul(&zy), bits) { 0 } else { 1 });
                three!(c, N, $wu $ou, x, &y, zx, zy, fits_u);
                let p = zx.mul(&zy);
                ck!(c, stringify!($wide), { let (l, h) = mul::$wide(&x, &y); (val(&l).0, val(&h).0) }, (modulo(&p, bits).0, p.shr(bits).0));
                if N >= 2 {
                    let (sx, sy) = (signed(&zx, bits), signed(&zy, bits));
                    c.hit(if fits_s(&sx.mul(&sy), bits) { 2 } else { 3 });
                    three!(c, N, $wi $oi, x, &y, sx, sy, fits_s);
                }
            }
            /// The second operand is one limb.
            pub fn by_limb<const N: usize>(c: &mut Ctx, a: &Args) {
                let bits = N as u32 * B;
                let (zx, zy) = (arg(a, 0, bits), arg(a, 1, B));
                let x = limbs::<T, N>(&zx);
                let (y, sx, sy) = (T::cut(&zy, 0), signed(&zx, bits), signed(&zy, B));
                c.hit(if fits_u(&zx.mul(&zy), bits) { 0 } else { 1 });
                three!(c, N, $wl $ol, x, y, zx, zy, fits_u);
                c.hit(if fits_s(&sx.mul(&zy), bits) { 2 } else { 3 });
                three!(c, N, $wul $oul, x, y, sx, zy, fits_s);
                three!(c, N, $wil $oil, x, y as $s, sx, sy, fits_s);
            }
            /// The second operand is a double limb.
            pub fn by_wide<const N: usize>(c: &mut Ctx, a: &Args) {
                let bits = N as u32 * B;
                let (zx, zy) = (arg(a, 0, bits), arg(a, 1, 2 * B));
                let x = limbs::<T, N>(&zx);
                let (y, sx, sy) = (<$uw>::cut(&zy, 0), signed(&zx, bits), signed(&zy, 2 * B));
                c.hit(if fits_u(&zx.mul(&zy), bits) { 0 } else { 1 });
                three!(c, N, $ww $ow, x, y, zx, zy, fits_u);
                c.hit(if fits_s(&sx.mul(&zy), bits) { 2 } else { 3 });
                three!(c, N, $wuw $ouw, x, y, sx, zy, fits_s);
                three!(c, N, $wiw $oiw, x, y as $sw, sx, sy, fits_s);
            }
            /// The second operand has fewer limbs.
            pub fn shorter<const M: usize, const N: usize>(c: &mut Ctx, a: &Args) {
                let bits = M as u32 * B;
                let (zx, zy) = (arg(a, 0, bits), arg(a, 1, N as u32 * B));
                let (x, y) = (limbs::<T, M>(&zx), limbs::<T, N>(&zy));
                let p = zx.mul(&zy);
                c.hit(if fits_u(&p, bits) { 0 } else { 1 });
                ck!(c, "mul wrapping", val(&mul::$wu(&x, &y)).0, out(&p, bits));
                ck!(c, "mul overflowing", { let (v, o) = mul::$ou(&x, &y); (val(&v).0, o) }, (out(&p, bits), !fits_u(&p, bits)));
            }
        }
    };
}
lane! { m32, u32 i32 u64 i64,
    wrapping_u32 overflowing_u32 wrapping_limb_u32 overflowing_limb_u32 wrapping_wide_u32 overflowing_wide_u32,
    wrapping_i32 overflowing_i32 wrapping_ulimb_i32 overflowing_ulimb_i32 wrapping_ilimb_i32 overflowing_ilimb_i32 wrapping_uwide_i32 overflowing_uwide_i32 wrapping_iwide_i32 overflowing_iwide_i32,
    widening_u32 }
lane! { m64, u64 i64 u128 i128,
    wrapping_u64 overflowing_u64 wrapping_limb_u64 overflowing_limb_u64 wrapping_wide_u64 overflowing_wide_u64,
    wrapping_i64 overflowing_i64 wrapping_ulimb_i64 overflowing_ulimb_i64 wrapping_ilimb_i64 overflowing_ilimb_i64 wrapping_uwide_i64 overflowing_uwide_i64 wrapping_iwide_i64 overflowing_iwide_i64,
    widening_u64 }

macro_rules! moves {
    ($m:ident, $u:ident, $lu:ident $ru:ident $li:ident $ri:ident, $rl:ident $rr:ident) => {
        mod $m {
            use super::*;
            use i256::math::{rotate, shift};
            /// Shifts by less than the width, and rotations by anything.
            pub fn by<const N: usize>(c: &mut Ctx, a: &Args) {
                let bits = N as u32 * $u::BITS;
                let (z, n) = (arg(a, 0, bits), a.n[0] as u32);
                let x = limbs::<$u, N>(&z);
                if n < bits {
                    c.hit(0);
                    ck!(c, stringify!($lu), val(&shift::$lu(x, n)).0, out(&z.shl(n), bits));
                    ck!(c, stringify!($ru), val(&shift::$ru(x, n)).0, z.shr(n).0);
                    ck!(c, stringify!($li), val(&shift::$li(x, n)).0, out(&z.shl(n), bits));
                    ck!(c, stringify!($ri), val(&shift::$ri(x, n)).0, out(&signed(&z, bits).shr(n), bits));
                } else {
                    c.hit(1);
                }
                let k = n % bits;
                ck!(c, stringify!($rl), val(&rotate::$rl(x, n)).0, out(&z.shl(k).add(&z.shr(bits - k)), bits));
                ck!(c, stringify!($rr), val(&rotate::$rr(x, n)).0, out(&z.shr(k).add(&z.shl(bits - k)), bits));
            }
        }
    };
}
moves! { s32, u32, left_u32 right_u32 left_i32 right_i32, left_u32 right_u32 }
moves! { s64, u64, left_u64 right_u64 left_i64 right_i64, left_u64 right_u64 }
moves! { s128, u128, left_u128 right_u128 left_i128 right_i128, left_u128 right_u128 }

// Division works on the limbs of the build, least significant first on every target.
use i256::math::div;
use i256::{ULimb, UWide};
const B: u32 = ULimb::BITS;

fn dl<const N: usize>(z: &Z) -> [ULimb; N] {
    std::array::from_fn(|i| ULimb::cut(z, i))
}
fn dv<const N: usize>(v: &[ULimb; N]) -> Z {
    let mut z = Z::ZERO;
    for i in 0..N {
        ULimb::join(&mut z, i, v[i]);
    }
    z
}
/// Quotient and remainder, as far as the definition goes: `true` if they are the right ones.
fn right(q: &Z, r: &Z, n: &Z, d: &Z) -> bool {
    q.mul(d).add(r) == *n && r.lt(d)
}
fn divide<const M: usize, const N: usize>(c: &mut Ctx, a: &Args) {
    let (n, d) = (arg(a, 0, M as u32 * B), arg(a, 1, N as u32 * B));
    let (x, y) = (dl::<M>(&n), dl::<N>(&d));
    if d.is_zero() {
        return;
    }
    c.hit(match n.cmp(&d) { Ordering::Less => 0, Ordering::Equal => 1, _ => 2 });
    ck!(c, "full", { let (q, r) = div::full(&x, &y); right(&dv(&q), &dv(&r), &n, &d) }, true);
    if N == 1 {
        ck!(c, "limb", { let (q, r) = div::limb(&x, y[0]); right(&dv(&q), &Z::u(r as u128), &n, &d) }, true);
    }
    if N == 2 {
        let w = UWide::cut(&d, 0);
        ck!(c, "wide", { let (q, r) = div::wide(&x, w); right(&dv(&q), &Z::u(r as u128), &n, &d) }, true);
    }
}

/// Values of `n` limbs of `unit` bits.
fn vals(unit: u32, n: usize, t: Tier) -> Vals {
    let top = |k: u32| if k == 128 { u128::MAX } else { (1 << k) - 1 };
    let m = top(unit);
    let mut alpha: Vec<u128> = vec![0, 1, m >> 1, (m >> 1) + 1, m - 1, m];
    let few = alpha.clone();
    alpha.extend([2, 3, top(unit / 2), top(unit / 2) + 1, top(unit / 2) << (unit / 2), (m >> 1) + 2]);
    alpha.extend(space::G[..2].iter().map(|g| (*g as u128 | (*g as u128) << 64) & m));
    let put = |r: &mut Z, i: usize, v: u128| *r = r.add(&Z::u(v).shl(i as u32 * unit));
    let bits = unit * n as u32;
    let mut v: Vec<Z> = Vec::new();
    if n <= 2 || n == 3 && t == Tier::Thorough {
        let mut w = vec![Z::ZERO];
        for i in 0..n {
            w = w.iter().flat_map(|z| alpha.iter().map(move |a| { let mut z = *z; put(&mut z, i, *a); z })).collect();
        }
        v.extend(w);
    } else {
        let two = if n == 3 { &alpha } else { &few };
        for bg in [0, m] {
            for i in 0..n {
                for &p in &alpha {
                    for j in 0..n {
                        for &q in two {
                            let mut z = Z::ZERO;
                            for k in 0..n {
                                put(&mut z, k, if k == i { p } else if k == j { q } else { bg });
                            }
                            v.push(z);
                        }
                    }
                }
            }
        }
    }
    let step = if n <= 2 || t == Tier::Thorough { 1 } else { unit / 4 };
    for k in 0..bits {
        if (k + 1) % step < 2 || step == 1 {
            for e in -1..=1 {
                v.push(Z::pow2(k).add(&Z::i(e)));
                v.push(Z::pow2(k).add(&Z::i(e)).neg());
            }
        }
    }
    for e in -8..=8 {
        v.push(Z::i(e));
    }
    for s in 0..4 {
        let mut z = Z::ZERO;
        for i in 0..bits.div_ceil(64) as usize {
            z.0[i] = space::G[(3 * i + s) % 8].rotate_left(7 * i as u32);
        }
        v.push(z);
        v.push(z.shr(unit / 2));
    }
    space::norm(v.iter().map(|z| {
        let mut r = [0; MAXL];
        r[..W].copy_from_slice(&modulo(z, bits).0);
        r
    }).collect())
}

pub fn suites(t: Tier, out: &mut Vec<Suite>) {
    let cl = &["unsigned product fits", "unsigned product does not fit", "signed product fits", "signed product does not fit"];
    macro_rules! counts {
        ($m:ident $n:literal $unit:literal: $($k:literal)*) => {$(
            let v = vals($unit, $k, t);
            out.push(suite(format!("P24/u{}x{}/same", $unit, $k), space::pairs(v.clone(), v.clone()), $m::same::<$k>, cl));
            if $k >= 2 {
                out.push(suite(format!("P24/u{}x{}/by-limb", $unit, $k), space::pairs(v.clone(), vals($unit, 1, t)), $m::by_limb::<{ if $k < 2 { 2 } else { $k } }>, cl));
            }
            if $k >= 3 {
                out.push(suite(format!("P24/u{}x{}/by-wide", $unit, $k), space::pairs(v.clone(), vals($unit, 2, t)), $m::by_wide::<{ if $k < 3 { 3 } else { $k } }>, cl));
            }
        )*};
    }
    counts! { m32 "u32" 32: 2 3 4 5 }
    counts! { m64 "u64" 64: 2 3 4 5 }
    macro_rules! shorter {
        ($m:ident $unit:literal: $(($a:literal $b:literal))*) => {$(
            out.push(suite(format!("P24/u{}x{}/by-{}", $unit, $a, $b), space::pairs(vals($unit, $a, t), vals($unit, $b, t)), $m::shorter::<$a, $b>, &cl[..2]));
        )*};
    }
    shorter! { m32 32: (2 1) (3 1) (3 2) (4 2) (4 3) (5 3) (5 4) }
    shorter! { m64 64: (2 1) (3 1) (3 2) (4 2) (4 3) (5 3) (5 4) }
    let cl = &["shorter than the width", "past the width"];
    macro_rules! moves {
        ($m:ident $unit:literal: $($k:literal)*) => {$(
            let b = $unit * $k as u128;
            let n: Vec<u128> = (0..=2 * b).chain([u32::MAX as u128 - 1, u32::MAX as u128, 1 << 31, 3 * b, 5 * b + 1]).collect();
            out.push(suite(format!("P24/u{}x{}/shift", $unit, $k), space::with_scalar(vals($unit, $k, t), n), $m::by::<$k>, cl));
        )*};
    }
    moves! { s32 32: 2 3 4 5 }
    moves! { s64 64: 2 3 5 }
    moves! { s128 128: 2 3 }
    let cl = &["less", "equal", "greater"];
    macro_rules! divide {
        ($(($a:literal $b:literal))*) => {$(
            out.push(suite(format!("P24/limb x{}/divide-by-{}", $a, $b), space::pairs(vals(B, $a, t), vals(B, $b, t)), divide::<$a, $b>, cl));
            // dividends next to the multiples
            let (ds, qs) = (vals(B, $b, t), vals(B, $a - $b + 1, Tier::Quick));
            let d = format!("{} divisors x {} quotients, dividends at and next to each multiple", ds.len(), qs.len());
            let g: (usize, Gen, String) = (ds.len(), Box::new(move |i, f| {
                let d = Z::from_u::<8>(&ds[i][..8].try_into().unwrap());
                let mut x = Args::new();
                x.z[1] = ds[i];
                for q in &qs {
                    let n = d.mul(&Z::from_u::<8>(&q[..8].try_into().unwrap()));
                    for e in [Z::i(-1), Z::ZERO, d.sub(&Z::u(1))] {
                        let n = n.add(&e);
                        if fits_u(&n, $a * B) {
                            x.z[0][..W].copy_from_slice(&n.0);
                            f(&x);
                        }
                    }
                }
            }), d);
            out.push(suite(format!("P24/limb x{}/multiples-of-{}", $a, $b), g, divide::<$a, $b>, cl));
        )*};
    }
    divide! { (1 1) (2 1) (3 1) (2 2) (3 2) (4 2) (3 3) (4 3) (5 3) }
}

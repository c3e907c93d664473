//! P20: the num-traits implementations.
use super::ty::*;
use num_traits as nt;

fn ok<T: Big<L>>(x: Option<T>) -> Option<R> {
    x.map(Big::raw)
}

fn floor_mod(x: &Z, d: &Z) -> (Z, Z) {
    // Euclidean quotient and remainder
    let (q, r) = x.divrem(d);
    if !r.is_neg() {
        (q, r)
    } else if d.is_neg() {
        (q.add(&Z::u(1)), r.sub(d))
    } else {
        (q.sub(&Z::u(1)), r.add(d))
    }
}

macro_rules! arith {
    ($f:ident, $T:ident, $p:literal, $from:ident, $fit:ident, $sat:ident) => {
        fn $f(c: &mut Ctx, a: &Args) {
            let (ar, br): (R, R) = (a.z(0), a.z(1));
            let (x, y) = ($T::new(&ar), $T::new(&br));
            let (zx, zy) = (Z::$from(&ar), Z::$from(&br));
            macro_rules! three {
                ($e:expr, $W:ident $w:ident, $C:ident $k:ident, $S:ident $s:ident) => {{
                    let e: Z = $e;
                    let f = $fit(&e);
                    c.hit(f.is_some() as usize);
                    ck!(c, concat!($p, ".", stringify!($W)), <$T as nt::$W>::$w(&x, &y).raw(), e.lo());
                    ck!(c, concat!($p, ".", stringify!($C)), ok(<$T as nt::$C>::$k(&x, &y)), f);
                    ck!(c, concat!($p, ".", stringify!($S)), <$T as nt::$S>::$s(&x, &y).raw(), $sat(&e));
                }};
            }
            three!(zx.add(&zy), WrappingAdd wrapping_add, CheckedAdd checked_add, SaturatingAdd saturating_add);
            three!(zx.sub(&zy), WrappingSub wrapping_sub, CheckedSub checked_sub, SaturatingSub saturating_sub);
            three!(zx.mul(&zy), WrappingMul wrapping_mul, CheckedMul checked_mul, SaturatingMul saturating_mul);
            ck!(c, concat!($p, ".Saturating::add"), <$T as nt::Saturating>::saturating_add(x, y).raw(), $sat(&zx.add(&zy)));
            ck!(c, concat!($p, ".Saturating::sub"), <$T as nt::Saturating>::saturating_sub(x, y).raw(), $sat(&zx.sub(&zy)));
        }
    };
}
arith!(u_arith, U, "u", from_u, fit_u, sat_u);
arith!(i_arith, I, "i", from_s, fit_s, sat_s);
fn arith(c: &mut Ctx, a: &Args) {
    u_arith(c, a);
    i_arith(c, a);
}

macro_rules! divide {
    ($f:ident, $T:ident, $p:literal, $from:ident, $fit:ident, $op:ident) => {
        fn $f(c: &mut Ctx, a: &Args) {
            let (ar, br): (R, R) = (a.z(0), a.z(1));
            let (x, y) = ($T::new(&ar), $T::new(&br));
            let (zx, zy) = (Z::$from(&ar), Z::$from(&br));
            if zy.is_zero() {
                c.hit(0);
                ck!(c, concat!($p, ".CheckedDiv"), ok(<$T as nt::CheckedDiv>::checked_div(&x, &y)), None);
                ck!(c, concat!($p, ".CheckedRem"), ok(<$T as nt::CheckedRem>::checked_rem(&x, &y)), None);
                ck!(c, concat!($p, ".checked_div_euclid"), ok(<$T as nt::CheckedEuclid>::checked_div_euclid(&x, &y)), None);
                ck!(c, concat!($p, ".checked_rem_euclid"), ok(<$T as nt::CheckedEuclid>::checked_rem_euclid(&x, &y)), None);
                ck!(c, concat!($p, ".checked_div_rem_euclid"), <$T as nt::CheckedEuclid>::checked_div_rem_euclid(&x, &y).is_some(), false);
                ckp!(c, concat!($p, ".div_euclid"), <$T as nt::Euclid>::div_euclid(&x, &y).raw(), None);
                ckp!(c, concat!($p, ".rem_euclid"), <$T as nt::Euclid>::rem_euclid(&x, &y).raw(), None);
                return;
            }
            let (q, r) = zx.divrem(&zy);
            let f = $fit(&q);
            c.hit(1 + f.is_some() as usize);
            let fr = f.map(|_| r.lo());
            ck!(c, concat!($p, ".CheckedDiv"), ok(<$T as nt::CheckedDiv>::checked_div(&x, &y)), f);
            ck!(c, concat!($p, ".CheckedRem"), ok(<$T as nt::CheckedRem>::checked_rem(&x, &y)), fr);
            let (q, r) = floor_mod(&zx, &zy);
            let f = $fit(&q);
            let fr: Option<R> = f.map(|_| r.lo());
            ck!(c, concat!($p, ".checked_div_euclid"), ok(<$T as nt::CheckedEuclid>::checked_div_euclid(&x, &y)), f);
            ck!(c, concat!($p, ".checked_rem_euclid"), ok(<$T as nt::CheckedEuclid>::checked_rem_euclid(&x, &y)), fr);
            ck!(c, concat!($p, ".checked_div_rem_euclid"), <$T as nt::CheckedEuclid>::checked_div_rem_euclid(&x, &y).map(|p| (p.0.raw(), p.1.raw())), f.map(|q| (q, r.lo())));
            let panics = f.is_none(); // documented to panic in every build
            let e = |z: &Z| if panics { None } else { Some(z.lo()) };
            ckp!(c, concat!($p, ".div_euclid"), <$T as nt::Euclid>::div_euclid(&x, &y).raw(), e(&q));
            ckp!(c, concat!($p, ".rem_euclid"), <$T as nt::Euclid>::rem_euclid(&x, &y).raw(), e(&r));
            ckp!(c, concat!($p, ".div_rem_euclid"), { let p = <$T as nt::Euclid>::div_rem_euclid(&x, &y); (p.0.raw(), p.1.raw()) }, e(&q).map(|q: R| (q, r.lo())));
        }
    };
}
divide!(u_divide, U, "u", from_u, fit_u, op_u);
divide!(i_divide, I, "i", from_s, fit_s, op_s);
fn divide(c: &mut Ctx, a: &Args) {
    u_divide(c, a);
    i_divide(c, a);
    // abs_sub
    let (ar, br): (R, R) = (a.z(0), a.z(1));
    let (zx, zy) = (Z::from_s(&ar), Z::from_s(&br));
    let d = if zx.lt(&zy) { Z::u(0) } else { zx.sub(&zy) };
    if d.fits_s(L) || !checks_on() || ar[0] % 16 == 0 {
        ckp!(c, "i.abs_sub", <I as nt::Signed>::abs_sub(&I::new(&ar), &I::new(&br)).raw(), op_s(&d));
    }
}

fn fused(c: &mut Ctx, a: &Args) {
    macro_rules! go {
        ($T:ident, $p:literal, $from:ident, $fits:ident) => {{
            let (ar, br, kr): (R, R, R) = (a.z(0), a.z(1), a.z(2));
            let (x, y, k) = ($T::new(&ar), $T::new(&br), $T::new(&kr));
            let p = Z::$from(&ar).mul(&Z::$from(&br));
            let s = p.add(&Z::$from(&kr));
            let (fp, fs) = (p.$fits(L), s.$fits(L));
            c.hit(fp as usize * 2 + fs as usize);
            // with overflow checks an intermediate overflow alone is left open
            if !checks_on() || fp && fs {
                ck!(c, concat!($p, ".mul_add"), <$T as nt::MulAdd>::mul_add(x, y, k).raw(), s.lo());
                ck!(c, concat!($p, ".mul_add_assign"), { let mut v = x; <$T as nt::MulAddAssign>::mul_add_assign(&mut v, y, k); v.raw() }, s.lo());
            } else if !fs && ar[0] % 8 == 0 {
                ckp!(c, concat!($p, ".mul_add"), <$T as nt::MulAdd>::mul_add(x, y, k).raw(), None);
            }
        }};
    }
    go!(U, "u", from_u, fits_u);
    go!(I, "i", from_s, fits_s);
}

fn shift(c: &mut Ctx, a: &Args) {
    let r: R = a.z(0);
    let n = a.n[0] as u32;
    let (u, i) = (U::new(&r), I::new(&r));
    let (zu, zi) = (Z::from_u(&r), Z::from_s(&r));
    let m = n % BITS;
    let (l, ur, ir): (R, R, R) = (zu.shl(m).lo(), zu.shr(m).lo(), zi.shr(m).lo());
    let inside = |x: R| if n < BITS { Some(x) } else { None };
    c.hit((n < BITS) as usize);
    ck!(c, "u.WrappingShl", <U as nt::WrappingShl>::wrapping_shl(&u, n).raw(), l);
    ck!(c, "i.WrappingShl", <I as nt::WrappingShl>::wrapping_shl(&i, n).raw(), l);
    ck!(c, "u.WrappingShr", <U as nt::WrappingShr>::wrapping_shr(&u, n).raw(), ur);
    ck!(c, "i.WrappingShr", <I as nt::WrappingShr>::wrapping_shr(&i, n).raw(), ir);
    ck!(c, "u.CheckedShl", ok(<U as nt::CheckedShl>::checked_shl(&u, n)), inside(l));
    ck!(c, "i.CheckedShl", ok(<I as nt::CheckedShl>::checked_shl(&i, n)), inside(l));
    ck!(c, "u.CheckedShr", ok(<U as nt::CheckedShr>::checked_shr(&u, n)), inside(ur));
    ck!(c, "i.CheckedShr", ok(<I as nt::CheckedShr>::checked_shr(&i, n)), inside(ir));
    let op = |x: R| if checks_on() { inside(x) } else { Some(x) };
    if n < BITS || !checks_on() || r[0] % 16 == 0 {
        ckp!(c, "u.signed_shl", nt::PrimInt::signed_shl(u, n).raw(), op(l));
        ckp!(c, "i.signed_shl", nt::PrimInt::signed_shl(i, n).raw(), op(l));
        ckp!(c, "u.unsigned_shl", nt::PrimInt::unsigned_shl(u, n).raw(), op(l));
        ckp!(c, "i.unsigned_shl", nt::PrimInt::unsigned_shl(i, n).raw(), op(l));
        ckp!(c, "u.signed_shr", nt::PrimInt::signed_shr(u, n).raw(), op(ir));
        ckp!(c, "i.signed_shr", nt::PrimInt::signed_shr(i, n).raw(), op(ir));
        ckp!(c, "u.unsigned_shr", nt::PrimInt::unsigned_shr(u, n).raw(), op(ur));
        ckp!(c, "i.unsigned_shr", nt::PrimInt::unsigned_shr(i, n).raw(), op(ur));
    }
    let rot: R = { let (x, y): (R, R) = (zu.shl(m).lo(), if m == 0 { [0; L] } else { zu.shr(BITS - m).lo() }); std::array::from_fn(|k| x[k] | y[k]) };
    let back: R = { let (x, y): (R, R) = (zu.shr(m).lo(), if m == 0 { [0; L] } else { zu.shl(BITS - m).lo() }); std::array::from_fn(|k| x[k] | y[k]) };
    ck!(c, "u.rotate_left", nt::PrimInt::rotate_left(u, n).raw(), rot);
    ck!(c, "i.rotate_left", nt::PrimInt::rotate_left(i, n).raw(), rot);
    ck!(c, "u.rotate_right", nt::PrimInt::rotate_right(u, n).raw(), back);
    ck!(c, "i.rotate_right", nt::PrimInt::rotate_right(i, n).raw(), back);
}

fn pow(c: &mut Ctx, a: &Args) {
    let r: R = a.z(0);
    let e = a.n[0] as u32;
    macro_rules! go {
        ($T:ident, $p:literal, $from:ident, $fit:ident) => {{
            let f = Z::$from(&r).pow_capped(e, L).and_then(|z| $fit(&z));
            c.hit(f.is_some() as usize);
            let x = $T::new(&r);
            let exp = if checks_on() { f } else { Some(Z::$from(&r).pow_mod(e, L).lo()) };
            ckp!(c, concat!($p, ".Pow<u32>"), <$T as nt::Pow<u32>>::pow(x, e).raw(), exp);
            ckp!(c, concat!($p, ".Pow<&u32>"), <$T as nt::Pow<&u32>>::pow(x, &e).raw(), exp);
            ckp!(c, concat!($p, ".PrimInt::pow"), nt::PrimInt::pow(x, e).raw(), exp);
        }};
    }
    go!(U, "u", from_u, fit_u);
    go!(I, "i", from_s, fit_s);
}

fn bytes(r: &R) -> Vec<u8> {
    r.iter().flat_map(|d| d.to_le_bytes()).collect()
}

fn unary(c: &mut Ctx, a: &Args) {
    let r: R = a.z(0);
    let (u, i) = (U::new(&r), I::new(&r));
    let (zu, zi) = (Z::from_u(&r), Z::from_s(&r));
    let neg: R = zu.neg().lo();
    ck!(c, "u.WrappingNeg", <U as nt::WrappingNeg>::wrapping_neg(&u).raw(), neg);
    ck!(c, "i.WrappingNeg", <I as nt::WrappingNeg>::wrapping_neg(&i).raw(), neg);
    ck!(c, "u.CheckedNeg", ok(<U as nt::CheckedNeg>::checked_neg(&u)), fit_u(&zu.neg()));
    ck!(c, "i.CheckedNeg", ok(<I as nt::CheckedNeg>::checked_neg(&i)), fit_s(&zi.neg()));
    ck!(c, "u.is_zero", nt::Zero::is_zero(&u), zu.is_zero());
    ck!(c, "i.is_zero", nt::Zero::is_zero(&i), zu.is_zero());
    ck!(c, "u.set_zero", { let mut v = u; nt::Zero::set_zero(&mut v); v.raw() }, [0; L]);
    ck!(c, "u.is_one", nt::One::is_one(&u), zu == Z::u(1));
    ck!(c, "i.is_one", nt::One::is_one(&i), zu == Z::u(1));
    ck!(c, "i.set_one", { let mut v = i; nt::One::set_one(&mut v); v.raw() }, Z::u(1).lo());
    ck!(c, "i.is_positive", nt::Signed::is_positive(&i), !zi.is_neg() && !zi.is_zero());
    ck!(c, "i.is_negative", nt::Signed::is_negative(&i), zi.is_neg());
    ck!(c, "i.signum", nt::Signed::signum(&i).raw(), if zi.is_zero() { [0; L] } else if zi.is_neg() { [u64::MAX; L] } else { Z::u(1).lo() });
    c.hit(zi.is_neg() as usize);
    ckp!(c, "i.abs", nt::Signed::abs(&i).raw(), op_s(&zi.abs()));
    // bits
    let ones: u32 = r.iter().map(|d| d.count_ones()).sum();
    let not: R = std::array::from_fn(|k| !r[k]);
    let lz = BITS - zu.bits();
    let lo = BITS - Z::from_u(&not).bits();
    let tz = |z: &Z| (0..BITS).find(|k| z.bit(*k)).unwrap_or(BITS);
    let (t0, t1) = (tz(&zu), tz(&Z::from_u(&not)));
    let swapped: R = std::array::from_fn(|k| r[L - 1 - k].swap_bytes());
    let reversed: R = std::array::from_fn(|k| r[L - 1 - k].reverse_bits());
    let (be, le) = if cfg!(target_endian = "big") { (r, swapped) } else { (swapped, r) };
    let le_bytes = bytes(&r);
    let be_bytes: Vec<u8> = le_bytes.iter().rev().copied().collect();
    let ne_bytes = if cfg!(target_endian = "big") { be_bytes.clone() } else { le_bytes.clone() };
    macro_rules! go {
        ($T:ident, $x:ident, $p:literal) => {{
            ck!(c, concat!($p, ".count_ones"), nt::PrimInt::count_ones($x), ones);
            ck!(c, concat!($p, ".count_zeros"), nt::PrimInt::count_zeros($x), BITS - ones);
            ck!(c, concat!($p, ".leading_ones"), nt::PrimInt::leading_ones($x), lo);
            ck!(c, concat!($p, ".leading_zeros"), nt::PrimInt::leading_zeros($x), lz);
            ck!(c, concat!($p, ".trailing_ones"), nt::PrimInt::trailing_ones($x), t1);
            ck!(c, concat!($p, ".trailing_zeros"), nt::PrimInt::trailing_zeros($x), t0);
            ck!(c, concat!($p, ".swap_bytes"), nt::PrimInt::swap_bytes($x).raw(), swapped);
            ck!(c, concat!($p, ".reverse_bits"), nt::PrimInt::reverse_bits($x).raw(), reversed);
            ck!(c, concat!($p, ".to_be"), nt::PrimInt::to_be($x).raw() == be, true);
            ck!(c, concat!($p, ".to_le"), nt::PrimInt::to_le($x).raw() == le, true);
            ck!(c, concat!($p, ".from_be"), <$T as nt::PrimInt>::from_be($x).raw() == be, true);
            ck!(c, concat!($p, ".from_le"), <$T as nt::PrimInt>::from_le($x).raw() == le, true);
            ck!(c, concat!($p, ".ToBytes be"), nt::ToBytes::to_be_bytes(&$x).as_ref() == &be_bytes[..], true);
            ck!(c, concat!($p, ".ToBytes le"), nt::ToBytes::to_le_bytes(&$x).as_ref() == &le_bytes[..], true);
            ck!(c, concat!($p, ".ToBytes ne"), nt::ToBytes::to_ne_bytes(&$x).as_ref() == &ne_bytes[..], true);
            let mut b = <$T as nt::ToBytes>::to_le_bytes(&$x);
            b.copy_from_slice(&be_bytes);
            ck!(c, concat!($p, ".FromBytes be"), <$T as nt::FromBytes>::from_be_bytes(&b).raw(), r);
            b.copy_from_slice(&le_bytes);
            ck!(c, concat!($p, ".FromBytes le"), <$T as nt::FromBytes>::from_le_bytes(&b).raw(), r);
            b.copy_from_slice(&ne_bytes);
            ck!(c, concat!($p, ".FromBytes ne"), <$T as nt::FromBytes>::from_ne_bytes(&b).raw(), r);
        }};
    }
    go!(U, u, "u");
    go!(I, i, "i");
}

fn to_prim(c: &mut Ctx, a: &Args) {
    prims(c, a, false)
}
fn to_pointer(c: &mut Ctx, a: &Args) {
    prims(c, a, true)
}
/// Conversions to primitives.
fn prims(c: &mut Ctx, a: &Args, pointer: bool) {
    let r: R = a.z(0);
    let n = r[0] as u128 | (r[1] as u128) << 64;
    macro_rules! go {
        ($T:ident, $p:literal, $z:expr) => {{
            let x = $T::new(&r);
            let z: Z = $z;
            macro_rules! prim {
                ($of:ident $st:ident; $t:ident $to:ident) => {{
                    let f = Z::$of($t::MIN as $st).le(&z) && z.le(&Z::$of($t::MAX as $st));
                    c.hit(f as usize);
                    let e = if f { Some(n as $t) } else { None };
                    ck!(c, concat!($p, ".", stringify!($to)), nt::ToPrimitive::$to(&x), e);
                    ck!(c, concat!($p, ".as_ ", stringify!($t)), <$T as nt::AsPrimitive<$t>>::as_(x), n as $t);
                    ck!(c, concat!($p, ".cast ", stringify!($t)), nt::cast::<$T, $t>(x), e);
                }};
            }
            if pointer {
                prim!(i i128; isize to_isize);
                prim!(u u128; usize to_usize);
                return;
            }
            prim!(i i128; i8 to_i8);
            prim!(i i128; i16 to_i16);
            prim!(i i128; i32 to_i32);
            prim!(i i128; i64 to_i64);
            prim!(i i128; i128 to_i128);
            prim!(u u128; u8 to_u8);
            prim!(u u128; u16 to_u16);
            prim!(u u128; u32 to_u32);
            prim!(u u128; u64 to_u64);
            prim!(u u128; u128 to_u128);
        }};
    }
    if a.n[0] == 0 {
        go!(U, "u", Z::from_u(&r));
    }
    if !pointer || a.n[0] == 1 {
        go!(I, "i", Z::from_s(&r));
    }
}

/// Conversions from primitives.
fn from_prim(c: &mut Ctx, a: &Args) {
    of_prims(c, a, false)
}
fn from_pointer(c: &mut Ctx, a: &Args) {
    of_prims(c, a, true)
}
fn of_prims(c: &mut Ctx, a: &Args, pointer: bool) {
    let n = a.n[0];
    macro_rules! prim {
        ($of:ident $st:ident; $t:ident $from:ident) => {{
            let v = n as $t;
            let z = Z::$of(v as $st);
            ck!(c, concat!("u.", stringify!($from)), ok(<U as nt::FromPrimitive>::$from(v)), fit_u(&z));
            ck!(c, concat!("i.", stringify!($from)), ok(<I as nt::FromPrimitive>::$from(v)), fit_s(&z));
            ck!(c, concat!("u.as_ from ", stringify!($t)), <$t as nt::AsPrimitive<U>>::as_(v).raw(), z.lo());
            ck!(c, concat!("i.as_ from ", stringify!($t)), <$t as nt::AsPrimitive<I>>::as_(v).raw(), z.lo());
            ck!(c, concat!("u.NumCast from ", stringify!($t)), ok(<U as nt::NumCast>::from(v)), fit_u(&z));
            ck!(c, concat!("i.NumCast from ", stringify!($t)), ok(<I as nt::NumCast>::from(v)), fit_s(&z));
            c.hit(z.is_neg() as usize);
        }};
    }
    if pointer {
        prim!(i i128; isize from_isize);
        prim!(u u128; usize from_usize);
        return;
    }
    prim!(i i128; i8 from_i8);
    prim!(i i128; i16 from_i16);
    prim!(i i128; i32 from_i32);
    prim!(i i128; i64 from_i64);
    prim!(i i128; i128 from_i128);
    prim!(u u128; u8 from_u8);
    prim!(u u128; u16 from_u16);
    prim!(u u128; u32 from_u32);
    prim!(u u128; u64 from_u64);
    prim!(u u128; u128 from_u128);
    let b = n & 1 == 1;
    ck!(c, "u.as_ from bool", <bool as nt::AsPrimitive<U>>::as_(b).raw(), Z::u(b as u128).lo());
    ck!(c, "i.as_ from bool", <bool as nt::AsPrimitive<I>>::as_(b).raw(), Z::u(b as u128).lo());
    if let Some(x) = char::from_u32(n as u32) {
        ck!(c, "u.as_ from char", <char as nt::AsPrimitive<U>>::as_(x).raw(), Z::u(x as u128).lo());
        ck!(c, "i.as_ from char", <char as nt::AsPrimitive<I>>::as_(x).raw(), Z::u(x as u128).lo());
    }
}

fn consts(c: &mut Ctx, _: &Args) {
    ck!(c, "u.min_value", <U as nt::Bounded>::min_value().raw(), [0; L]);
    ck!(c, "u.max_value", <U as nt::Bounded>::max_value().raw(), [u64::MAX; L]);
    ck!(c, "i.min_value", <I as nt::Bounded>::min_value().raw(), smin().lo());
    ck!(c, "i.max_value", <I as nt::Bounded>::max_value().raw(), smax().lo());
    ck!(c, "u.zero", <U as nt::Zero>::zero().raw(), [0; L]);
    ck!(c, "i.zero", <I as nt::Zero>::zero().raw(), [0; L]);
    ck!(c, "u.ZERO", <U as nt::ConstZero>::ZERO.raw(), [0; L]);
    ck!(c, "i.ZERO", <I as nt::ConstZero>::ZERO.raw(), [0; L]);
    ck!(c, "u.one", <U as nt::One>::one().raw(), Z::u(1).lo());
    ck!(c, "i.one", <I as nt::One>::one().raw(), Z::u(1).lo());
    ck!(c, "u.ONE", <U as nt::ConstOne>::ONE.raw(), Z::u(1).lo());
    ck!(c, "i.ONE", <I as nt::ConstOne>::ONE.raw(), Z::u(1).lo());
}

fn parse(c: &mut Ctx, a: &Args) {
    let r: R = a.z(0);
    let radix = a.n[0] as u32;
    for z in [Z::from_u(&r), Z::from_s(&r)] {
        let s = z.to_radix(radix);
        for (plus, cut) in [(false, false), (true, false), (false, true)] {
            let t = match (plus, cut) {
                (true, _) if !z.is_neg() => format!("+{}", s),
                (_, true) => format!("{}!", s),
                _ => s.clone(),
            };
            let bad = t.ends_with('!');
            let f = |x: Option<R>| if bad { None } else { x };
            c.hit(bad as usize);
            ck!(c, "u.Num::from_str_radix", <U as nt::Num>::from_str_radix(&t, radix).ok().map(Big::raw), f(fit_u(&z)));
            ck!(c, "i.Num::from_str_radix", <I as nt::Num>::from_str_radix(&t, radix).ok().map(Big::raw), f(fit_s(&z)));
        }
    }
}

pub fn suites(t: Tier, out: &mut Vec<Suite>) {
    let lean = || space::lean(L, t.min(Tier::Quick));
    let core = || space::core(L, t);
    let fits = &["does not fit", "fits"];
    out.push(suite(format!("P20/{}/arith", UN), space::pairs(lean(), lean()), arith, fits));
    out.push(suite(format!("P20/{}/arith-bounds", UN), space::derived(if t == Tier::Thorough { core() } else { lean() }, "partners at the bounds", |r| crate::bounds::<W, L>(r)), arith, fits));
    let cl = &["by zero", "does not fit", "fits"];
    out.push(suite(format!("P20/{}/divide", UN), space::pairs(lean(), lean()), divide, cl));
    out.push(suite(format!("P20/{}/divide-bounds", UN), space::derived(lean(), "partners at the bounds", |r| crate::bounds::<W, L>(r)), divide, cl));
    let some: Vec<Raw> = lean().into_iter().step_by(match t { Tier::Tiny => 6, Tier::Mid | Tier::Quick => 20, _ => 8 }).collect();
    out.push(suite(format!("P20/{}/fused", UN), space::triples(some.clone(), some.clone(), some), fused, &["neither fits", "only the sum fits", "only the product fits", "both fit"]));
    let mut n: Vec<u128> = (0..=2 * BITS as u128 + 1).collect();
    n.extend([u32::MAX as u128, u32::MAX as u128 - 1, 1 << 31, (1 << 31) - 1, 1 << 16, 4096, 3 * BITS as u128]);
    if t == Tier::Tiny {
        n = n.into_iter().filter(|x| x % 64 < 2 || x % 64 == 63).collect();
    }
    let v: Vec<Raw> = lean().into_iter().step_by(match t { Tier::Tiny => 2, Tier::Mid | Tier::Quick => 4, _ => 1 }).collect();
    out.push(suite(format!("P20/{}/shift", UN), space::with_scalar(v.clone(), n), shift, &["amount past the width", "inside"]));
    let mut e: Vec<u128> = (0..=40).collect();
    e.extend([63, 64, 65, 85, 86, 127, 128, 129, 255, 256, 257, 383, 384, 511, 512, 1023, 1024, 1025, 65535, 65536, u32::MAX as u128 - 1, u32::MAX as u128]);
    out.push(suite(format!("P20/{}/pow", UN), space::with_scalar(v, e), pow, fits));
    out.push(suite(format!("P20/{}/unary", UN), space::unary(if t == Tier::Tiny { core() } else { space::wide(L, t) }), unary, &["not negative", "negative"]));
    // every boundary of every primitive, with neighbours, and the same with higher digits set
    let mut v = core();
    for k in [7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 129] {
        for d in if t == Tier::Tiny { -2..=2i128 } else { -40..=40 } {
            for z in [Z::pow2(k), Z::pow2(k).neg()] {
                let b = z.add(&Z::i(d));
                v.push(raw(&b.lo()));
                for h in (129..BITS).step_by(if t == Tier::Tiny { BITS as usize / 2 - 1 } else if t == Tier::Mid { 31 } else { 1 }) {
                    v.push(raw(&b.add(&Z::pow2(h)).lo()));
                    v.push(raw(&b.sub(&Z::pow2(h)).lo()));
                }
            }
        }
    }
    let v = space::norm(v);
    out.push(suite(format!("P20/{}/to-primitive", UN), space::unary(v.clone()), to_prim, &["not representable", "representable"]));
    let mut s = suite(format!("P20/{}/to-pointer-sized", UN), space::with_scalar(v, vec![0, 1]), to_pointer, &["not representable", "representable"]);
    s.dep = Dep::Pointer;
    out.push(s);
    let mut n = space::scalars(128, t);
    for b in [8, 16, 32, 64] {
        n.extend(space::scalars(b, t));
    }
    n.extend(0..if t == Tier::Tiny { 300 } else { 1 << 17 });
    if t != Tier::Tiny {
        n.extend((0..1u128 << 12).map(|x| x + 0xd700));
        n.extend((0x10f000..0x111000u128).chain((0..1 << 16).map(|x: u128| x.wrapping_neg())));
    }
    n.sort();
    n.dedup();
    out.push(suite(format!("P20/{}/from-primitive", UN), space::with_scalar(vec![[0; MAXL]], n.clone()), from_prim, &["not negative", "negative"]));
    let mut s = suite(format!("P20/{}/from-pointer-sized", UN), space::with_scalar(vec![[0; MAXL]], n), from_pointer, &["not negative", "negative"]);
    s.dep = Dep::Pointer;
    out.push(s);
    out.push(suite(format!("P20/{}/constants", UN), space::unary(vec![[0; MAXL]]), consts, &[]));
    let v: Vec<Raw> = lean().into_iter().step_by(match t { Tier::Tiny => 8, Tier::Mid | Tier::Quick => 3, _ => 1 }).collect();
    out.push(suite(format!("P20/{}/parse", UN), space::with_scalar(v, if t == Tier::Tiny { vec![2, 10, 36] } else { (2..=36).collect() }), parse, &["valid", "invalid"]));
}

//! P09: bitwise logic, bit counts, sign and parity, limb accessors.
use super::ty::*;
use ::i256::{ILimb, IWide, ULimb, UWide};

fn zip(a: &R, b: &R, f: impl Fn(u64, u64) -> u64) -> R {
    let mut o = [0; L];
    for i in 0..L {
        o[i] = f(a[i], b[i]);
    }
    o
}

fn logic(c: &mut Ctx, a: &Args) {
    let (ar, br): (R, R) = (a.z(0), a.z(1));
    macro_rules! op {
        ($op:tt, $as:tt, $f:ident, $n:literal) => {{
            let e = zip(&ar, &br, |x, y| x $op y);
            op!(@ U, "u", $op, $as, $f, $n, e);
            op!(@ I, "i", $op, $as, $f, $n, e);
        }};
        (@ $t:ident, $p:literal, $op:tt, $as:tt, $f:ident, $n:literal, $e:ident) => {{
            let (x, y) = ($t::new(&ar), $t::new(&br));
            ck!(c, concat!($p, " ", $n), (x $op y).raw(), $e);
            ck!(c, concat!($p, " ", $n, " reference"), (x $op &y).raw(), $e);
            ck!(c, concat!($p, " ", $n, " assign"), { let mut v = x; v $as y; v.raw() }, $e);
            ck!(c, concat!($p, " ", $n, " assign reference"), { let mut v = x; v $as &y; v.raw() }, $e);
            ck!(c, concat!($p, ".", stringify!($f)), x.$f(y).raw(), $e);
        }};
    }
    op!(&, &=, bitand_const, "&");
    op!(|, |=, bitor_const, "|");
    op!(^, ^=, bitxor_const, "^");
}

fn count(c: &mut Ctx, a: &Args) {
    let r: R = a.z(0);
    let (u, i) = (U::new(&r), I::new(&r));
    let (mut ones, mut lz, mut tz, mut lo, mut to) = (0, 0, 0, 0, 0);
    for d in &r {
        ones += d.count_ones();
    }
    let run = |n: &mut u32, up: bool, inv: u64| {
        for k in 0..L {
            let d = r[if up { k } else { L - 1 - k }] ^ inv;
            *n += if up { d.trailing_zeros() } else { d.leading_zeros() };
            if d != 0 {
                break;
            }
        }
    };
    run(&mut lz, false, 0);
    run(&mut lo, false, u64::MAX);
    run(&mut tz, true, 0);
    run(&mut to, true, u64::MAX);
    c.hit(if lz == BITS { 0 } else if lo == BITS { 1 } else if lz >= 64 || lo >= 64 || tz >= 64 || to >= 64 { 2 } else { 3 });
    let not = zip(&r, &r, |x, _| !x);
    macro_rules! both {
        ($($n:ident $e:expr;)*) => {{$(
            ck!(c, concat!("u.", stringify!($n)), u.$n(), $e);
            ck!(c, concat!("i.", stringify!($n)), i.$n(), $e);
        )*}};
    }
    both! {
        count_ones ones;
        count_zeros BITS - ones;
        leading_zeros lz;
        leading_ones lo;
        trailing_zeros tz;
        trailing_ones to;
        is_even r[0] % 2 == 0;
        is_odd r[0] % 2 == 1;
    }
    ck!(c, "u !", (!u).raw(), not);
    ck!(c, "i !", (!i).raw(), not);
    ck!(c, "u ! reference", (!&u).raw(), not);
    ck!(c, "i ! reference", (!&i).raw(), not);
    ck!(c, "u.not_const", u.not_const().raw(), not);
    ck!(c, "i.not_const", i.not_const().raw(), not);
    let neg = r[L - 1] >> 63 == 1;
    ck!(c, "i.is_negative", i.is_negative(), neg);
    ck!(c, "i.is_positive", i.is_positive(), !neg && r != [0; L]);
}

fn limbs(c: &mut Ctx, a: &Args) {
    let r: R = a.z(0);
    let (u, i) = (U::new(&r), I::new(&r));
    const LB: u32 = ULimb::BITS;
    let bits = |from: u32, n: u32| -> u128 {
        let q = (from / 64) as usize;
        let v = r[q] as u128 | if q + 1 < L { (r[q + 1] as u128) << 64 } else { 0 };
        let v = v >> (from % 64);
        if n == 128 { v } else { v & ((1 << n) - 1) }
    };
    for k in 0..BITS / LB {
        let e = bits(k * LB, LB) as ULimb;
        ck!(c, "u.get_limb", u.get_limb(k as usize), e);
        ck!(c, "i.get_limb", i.get_limb(k as usize), e);
    }
    for k in 0..BITS / LB / 2 {
        let e = bits(k * 2 * LB, 2 * LB) as UWide;
        ck!(c, "u.get_wide", u.get_wide(k as usize), e);
        ck!(c, "i.get_wide", i.get_wide(k as usize), e);
    }
    ck!(c, "u.least_significant_limb", u.least_significant_limb(), bits(0, LB) as ULimb);
    ck!(c, "i.least_significant_limb", i.least_significant_limb(), bits(0, LB) as ULimb);
    ck!(c, "u.most_significant_limb", u.most_significant_limb(), bits(BITS - LB, LB) as ULimb);
    ck!(c, "i.most_significant_limb", i.most_significant_limb(), bits(BITS - LB, LB) as ULimb as ILimb);
}

fn constants(c: &mut Ctx, _: &Args) {
    macro_rules! both {
        ($($n:ident $u:expr, $i:expr;)*) => {{$(
            ck!(c, concat!("U::", stringify!($n)), U::$n.raw(), $u);
            ck!(c, concat!("I::", stringify!($n)), I::$n.raw(), $i);
        )*}};
    }
    both! {
        MIN [0; L], smin().lo();
        MAX [u64::MAX; L], smax().lo();
    }
    ck!(c, "U::BITS", U::BITS, BITS);
    ck!(c, "I::BITS", I::BITS, BITS);
    ck!(c, "U::IS_SIGNED", U::IS_SIGNED, false);
    ck!(c, "I::IS_SIGNED", I::IS_SIGNED, true);
    ck!(c, "U::default", U::default().raw(), [0; L]);
    ck!(c, "I::default", I::default().raw(), [0; L]);
    #[allow(deprecated)]
    {
        ck!(c, "U::min_value", U::min_value().raw(), [0; L]);
        ck!(c, "U::max_value", U::max_value().raw(), [u64::MAX; L]);
        ck!(c, "I::min_value", I::min_value().raw(), smin().lo());
        ck!(c, "I::max_value", I::max_value().raw(), smax().lo());
    }
}

pub fn suites(t: Tier, out: &mut Vec<Suite>) {
    out.push(suite(format!("P09/{}/logic", UN), space::pairs(space::core(L, t), space::core(L, t)), logic, &[]));
    out.push(suite(format!("P09/{}/count", UN), space::unary(space::wide(L, t)), count, &["zero", "all ones", "through a limb", "within a limb"]));
    let mut s = suite(format!("P09/{}/limbs", UN), space::unary(space::wide(L, t)), limbs, &[]);
    s.dep = Dep::Limb;
    out.push(s);
    out.push(suite(format!("P09/{}/constants", UN), space::unary(vec![[0; MAXL]]), constants, &[]));
}

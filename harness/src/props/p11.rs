//! P11: conversions.
use super::ty::*;
use ::i256::{ILimb, IWide, ULimb, UWide};

macro_rules! tryf {
    ($t:ident, $v:expr) => {
        $t::try_from($v).ok().map(Big::raw)
    };
}

macro_rules! unsigned {
    ($($f:ident $t:ident $from:ident;)*) => ($(
        fn $f(c: &mut Ctx, a: &Args) {
            let n = a.n[0] as $t;
            let e: R = Z::u(n as u128).lo();
            ck!(c, concat!("U::", stringify!($from)), U::$from(n).raw(), e);
            ck!(c, concat!("I::", stringify!($from)), I::$from(n).raw(), e);
            ck!(c, concat!("U::from(", stringify!($t), ")"), U::from(n).raw(), e);
            ck!(c, concat!("I::from(", stringify!($t), ")"), I::from(n).raw(), e);
            ck!(c, concat!("U::try_from(", stringify!($t), ")"), tryf!(U, n), Some(e));
            ck!(c, concat!("I::try_from(", stringify!($t), ")"), tryf!(I, n), Some(e));
        }
    )*)
}
macro_rules! signed {
    ($($f:ident $t:ident $from:ident;)*) => ($(
        fn $f(c: &mut Ctx, a: &Args) {
            let n = a.n[0] as $t;
            let e: R = Z::i(n as i128).lo();
            c.hit((n < 0) as usize);
            ck!(c, concat!("U::", stringify!($from)), U::$from(n).raw(), e);
            ck!(c, concat!("I::", stringify!($from)), I::$from(n).raw(), e);
            ck!(c, concat!("I::from(", stringify!($t), ")"), I::from(n).raw(), e);
            ck!(c, concat!("U::try_from(", stringify!($t), ")"), tryf!(U, n), if n < 0 { None } else { Some(e) });
            ck!(c, concat!("I::try_from(", stringify!($t), ")"), tryf!(I, n), Some(e));
        }
    )*)
}
unsigned! { f_u8 u8 from_u8; f_u16 u16 from_u16; f_u32 u32 from_u32; f_u64 u64 from_u64; f_u128 u128 from_u128; }
signed! { f_i8 i8 from_i8; f_i16 i16 from_i16; f_i32 i32 from_i32; f_i64 i64 from_i64; f_i128 i128 from_i128; }

fn f_bool(c: &mut Ctx, a: &Args) {
    let b = a.n[0] != 0;
    ck!(c, "U::from(bool)", U::from(b).raw(), Z::u(b as u128).lo());
    ck!(c, "I::from(bool)", I::from(b).raw(), Z::u(b as u128).lo());
}
fn f_char(c: &mut Ctx, a: &Args) {
    let Some(x) = char::from_u32(a.n[0] as u32) else { return };
    ck!(c, "U::from(char)", U::from(x).raw(), Z::u(x as u128).lo());
    ck!(c, "I::from(char)", I::from(x).raw(), Z::u(x as u128).lo());
}
fn limbs(c: &mut Ctx, a: &Args) {
    let n = a.n[0];
    ck!(c, "U::from_ulimb", U::from_ulimb(n as ULimb).raw(), Z::u(n as ULimb as u128).lo());
    ck!(c, "I::from_ulimb", I::from_ulimb(n as ULimb).raw(), Z::u(n as ULimb as u128).lo());
    ck!(c, "U::from_uwide", U::from_uwide(n as UWide).raw(), Z::u(n as UWide as u128).lo());
    ck!(c, "I::from_uwide", I::from_uwide(n as UWide).raw(), Z::u(n as UWide as u128).lo());
    ck!(c, "U::from_ilimb", U::from_ilimb(n as ILimb).raw(), Z::i(n as ILimb as i128).lo());
    ck!(c, "I::from_ilimb", I::from_ilimb(n as ILimb).raw(), Z::i(n as ILimb as i128).lo());
    ck!(c, "U::from_iwide", U::from_iwide(n as IWide).raw(), Z::i(n as IWide as i128).lo());
    ck!(c, "I::from_iwide", I::from_iwide(n as IWide).raw(), Z::i(n as IWide as i128).lo());
}

fn casts(c: &mut Ctx, a: &Args) {
    let r: R = a.z(0);
    let (u, i) = (U::new(&r), I::new(&r));
    let n = r[0] as u128 | (r[1] as u128) << 64;
    macro_rules! both {
        ($($f:ident $t:ty;)*) => {{$(
            ck!(c, concat!("u.", stringify!($f)), u.$f(), n as $t);
            ck!(c, concat!("i.", stringify!($f)), i.$f(), n as $t);
        )*}};
    }
    both! {
        as_u8 u8; as_u16 u16; as_u32 u32; as_u64 u64; as_u128 u128;
        as_i8 i8; as_i16 i16; as_i32 i32; as_i64 i64; as_i128 i128;
    }
    ck!(c, "u.as_signed", u.as_signed().raw(), r);
    ck!(c, "u.as_unsigned", u.as_unsigned().raw(), r);
    ck!(c, "i.as_signed", i.as_signed().raw(), r);
    ck!(c, "i.as_unsigned", i.as_unsigned().raw(), r);
    ck!(c, "U::from_signed", U::from_signed(i).raw(), r);
    ck!(c, "U::from_unsigned", U::from_unsigned(u).raw(), r);
    ck!(c, "I::from_signed", I::from_signed(i).raw(), r);
    ck!(c, "I::from_unsigned", I::from_unsigned(u).raw(), r);
    ck!(c, "u.cast_signed", u.cast_signed().raw(), r);
    ck!(c, "i.cast_unsigned", i.cast_unsigned().raw(), r);
    let top = r[L - 1] >> 63 == 1;
    c.hit(top as usize);
    ck!(c, "U::try_from(i)", tryf!(U, i), if top { None } else { Some(r) });
    ck!(c, "I::try_from(u)", tryf!(I, u), if top { None } else { Some(r) });
}
fn limb_casts(c: &mut Ctx, a: &Args) {
    let r: R = a.z(0);
    let (u, i) = (U::new(&r), I::new(&r));
    let n = r[0] as u128 | (r[1] as u128) << 64;
    macro_rules! both {
        ($($f:ident $t:ty;)*) => {{$(
            ck!(c, concat!("u.", stringify!($f)), u.$f(), n as $t);
            ck!(c, concat!("i.", stringify!($f)), i.$f(), n as $t);
        )*}};
    }
    both! { as_ulimb ULimb; as_uwide UWide; as_ilimb ILimb; as_iwide IWide; }
}

pub fn suites(t: Tier, out: &mut Vec<Suite>) {
    let one = vec![[0; MAXL]];
    let list = |bits: u32| -> Vec<u128> {
        let mut v = space::scalars(bits, t);
        let top = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
        if t != Tier::Tiny {
            let n = if t <= Tier::Quick { 16 } else { 20 };
            // everything near zero and every window of 8 bits
            v.extend((0..1u128 << n.min(bits)).flat_map(|x| [x, x.wrapping_neg() & top, x << (bits - n.min(bits)) & top]));
            for p in (0..bits).step_by(4) {
                v.extend((0..256u128).flat_map(|x| [x << p & top, !(x << p) & top]));
            }
        }
        v.sort();
        v.dedup();
        v
    };
    let kinds: &[(&str, u32, fn(&mut Ctx, &Args))] = &[
        ("u8", 8, f_u8), ("u16", 16, f_u16), ("u32", 32, f_u32), ("u64", 64, f_u64), ("u128", 128, f_u128),
        ("i8", 8, f_i8), ("i16", 16, f_i16), ("i32", 32, f_i32), ("i64", 64, f_i64), ("i128", 128, f_i128),
        ("bool", 1, f_bool), ("limb", 128, limbs),
    ];
    for &(n, b, f) in kinds {
        let mut s = suite(format!("P11/{}/from-{}", UN, n), space::with_scalar(one.clone(), list(b)), f, if n.starts_with('i') { &["non-negative", "negative"] } else { &[] });
        s.dep = if n == "limb" { Dep::Limb } else { Dep::Nothing };
        out.push(s);
    }
    let step = if t == Tier::Tiny { 65521 } else { 1 };
    out.push(suite(format!("P11/{}/from-char", UN), space::with_scalar(one, (0..0x110000).step_by(step).collect()), f_char, &[]));
    out.push(suite(format!("P11/{}/casts", UN), space::unary(space::wide(L, t)), casts, &["top bit clear", "top bit set"]));
    let mut s = suite(format!("P11/{}/limb-casts", UN), space::unary(space::wide(L, t)), limb_casts, &[]);
    s.dep = Dep::Limb;
    out.push(s);
}

//! P07: shifts.
use super::ty::*;

/// x * 2^n modulo the width, for n below the width
fn left(x: &R, n: u32) -> R {
    let (q, s) = (n as usize / 64, n % 64);
    let mut o = [0; L];
    for i in q..L {
        o[i] = x[i - q] << s;
        if s != 0 && i > q {
            o[i] |= x[i - q - 1] >> (64 - s);
        }
    }
    o
}
/// floor(x / 2^n) with digits `fill` above the top, for n below the width
fn right(x: &R, n: u32, fill: u64) -> R {
    let (q, s) = (n as usize / 64, n % 64);
    let at = |i: usize| if i < L { x[i] } else { fill };
    let mut o = [0; L];
    for i in 0..L {
        o[i] = at(i + q) >> s;
        if s != 0 {
            o[i] |= at(i + q + 1) << (64 - s);
        }
    }
    o
}
fn fill(x: &R) -> u64 {
    if x[L - 1] >> 63 == 1 { u64::MAX } else { 0 }
}
fn flag(p: (I, bool)) -> (R, bool) {
    (p.0.raw(), p.1)
}

/// The method families with a 32-bit amount.
fn methods(c: &mut Ctx, a: &Args) {
    let x: R = a.z(0);
    let (u, i) = (U::new(&x), I::new(&x));
    let n = a.n[0] as u32;
    let over = n >= BITS;
    let m = n % BITS;
    let (l, ru, ri) = (left(&x, m), right(&x, m, 0), right(&x, m, fill(&x)));
    let some = |r: R| if over { None } else { Some(r) };
    c.hit(if over { 2 } else if m % 64 == 0 { 1 } else { 0 });
    ck!(c, "u.wrapping_shl", u.wrapping_shl(n).raw(), l);
    ck!(c, "u.wrapping_shr", u.wrapping_shr(n).raw(), ru);
    ck!(c, "i.wrapping_shl", i.wrapping_shl(n).raw(), l);
    ck!(c, "i.wrapping_shr", i.wrapping_shr(n).raw(), ri);
    ck!(c, "u.checked_shl", u.checked_shl(n).map(Big::raw), some(l));
    ck!(c, "u.checked_shr", u.checked_shr(n).map(Big::raw), some(ru));
    ck!(c, "i.checked_shl", i.checked_shl(n).map(Big::raw), some(l));
    ck!(c, "i.checked_shr", i.checked_shr(n).map(Big::raw), some(ri));
    ck!(c, "i.overflowing_shl", flag(i.overflowing_shl(n)), (l, over));
    ck!(c, "i.overflowing_shr", flag(i.overflowing_shr(n)), (ri, over));
    ck!(c, "u.unbounded_shl", u.unbounded_shl(n).raw(), if over { [0; L] } else { l });
    ck!(c, "u.unbounded_shr", u.unbounded_shr(n).raw(), if over { [0; L] } else { ru });
    ck!(c, "i.unbounded_shl", i.unbounded_shl(n).raw(), if over { [0; L] } else { l });
    ck!(c, "i.unbounded_shr", i.unbounded_shr(n).raw(), if over { [fill(&x); L] } else { ri });
    if !over {
        ck!(c, "u << u32", (u << n).raw(), l);
        ck!(c, "u >> u32", (u >> n).raw(), ru);
        ck!(c, "i << u32", (i << n).raw(), l);
        ck!(c, "i >> u32", (i >> n).raw(), ri);
        ck!(c, "u.strict_shl", u.strict_shl(n).raw(), l);
        ck!(c, "u.strict_shr", u.strict_shr(n).raw(), ru);
        ck!(c, "i.strict_shl", i.strict_shl(n).raw(), l);
        ck!(c, "i.strict_shr", i.strict_shr(n).raw(), ri);
    }
}

fn strict(c: &mut Ctx, a: &Args) {
    let x: R = a.z(0);
    let (u, i) = (U::new(&x), I::new(&x));
    let n = a.n[0] as u32;
    let over = n >= BITS;
    let m = n % BITS;
    let some = |r: R| if over { None } else { Some(r) };
    c.hit(if over { 2 } else if m % 64 == 0 { 1 } else { 0 });
    ckp!(c, "u.strict_shl", u.strict_shl(n).raw(), some(left(&x, m)));
    ckp!(c, "u.strict_shr", u.strict_shr(n).raw(), some(right(&x, m, 0)));
    ckp!(c, "i.strict_shl", i.strict_shl(n).raw(), some(left(&x, m)));
    ckp!(c, "i.strict_shr", i.strict_shr(n).raw(), some(right(&x, m, fill(&x))));
}

/// What the operators do with an amount: `None` is not judged, `Some(None)` panics.
fn amount(n: &Z) -> Option<Option<u32>> {
    if !n.is_neg() && n.lt(&Z::u(BITS as u128)) {
        return Some(Some(n.lo::<1>()[0] as u32));
    }
    if checks_on() {
        return Some(None);
    }
    if BITS.is_power_of_two() {
        return Some(Some(n.lo::<1>()[0] as u32 % BITS));
    }
    if !n.is_neg() && n.lt(&Z::pow2(32)) {
        return Some(Some(n.lo::<1>()[0] as u32 % BITS));
    }
    None
}

macro_rules! prim {
    ($($f:ident $t:ty, $n:literal;)*) => ($(
        fn $f(c: &mut Ctx, a: &Args) {
            let x: R = a.z(0);
            let (u, i) = (U::new(&x), I::new(&x));
            let n = a.n[0] as $t;
            #[allow(unused_comparisons)]
            let zn = if n < 0 { Z::i(n as i128) } else { Z::u(n as u128) };
            let Some(m) = amount(&zn) else { c.hit(3); return };
            c.hit(match m { None => 2, Some(_) if zn.is_neg() || zn.bits() > 10 => 1, _ => 0 });
            let l = m.map(|m| left(&x, m));
            let ru = m.map(|m| right(&x, m, 0));
            let ri = m.map(|m| right(&x, m, fill(&x)));
            ckp!(c, concat!("u << ", $n), (u << n).raw(), l);
            ckp!(c, concat!("u >> ", $n), (u >> n).raw(), ru);
            ckp!(c, concat!("i << ", $n), (i << n).raw(), l);
            ckp!(c, concat!("i >> ", $n), (i >> n).raw(), ri);
            ckp!(c, concat!("u << &", $n), (u << &n).raw(), l);
            ckp!(c, concat!("u >> &", $n), (u >> &n).raw(), ru);
            ckp!(c, concat!("i << &", $n), (i << &n).raw(), l);
            ckp!(c, concat!("i >> &", $n), (i >> &n).raw(), ri);
            ckp!(c, concat!("u <<= ", $n), { let mut y = u; y <<= n; y.raw() }, l);
            ckp!(c, concat!("u >>= ", $n), { let mut y = u; y >>= n; y.raw() }, ru);
            ckp!(c, concat!("i <<= ", $n), { let mut y = i; y <<= n; y.raw() }, l);
            ckp!(c, concat!("i >>= ", $n), { let mut y = i; y >>= n; y.raw() }, ri);
            ckp!(c, concat!("u <<= &", $n), { let mut y = u; y <<= &n; y.raw() }, l);
            ckp!(c, concat!("u >>= &", $n), { let mut y = u; y >>= &n; y.raw() }, ru);
            ckp!(c, concat!("i <<= &", $n), { let mut y = i; y <<= &n; y.raw() }, l);
            ckp!(c, concat!("i >>= &", $n), { let mut y = i; y >>= &n; y.raw() }, ri);
        }
    )*)
}
prim! {
    by_u8 u8, "u8"; by_u16 u16, "u16"; by_u32 u32, "u32"; by_u64 u64, "u64"; by_u128 u128, "u128"; by_usize usize, "usize";
    by_i8 i8, "i8"; by_i16 i16, "i16"; by_i32 i32, "i32"; by_i64 i64, "i64"; by_i128 i128, "i128"; by_isize isize, "isize";
}

/// Amounts of the big types.
fn big(c: &mut Ctx, a: &Args) {
    let (x, nr): (R, R) = (a.z(0), a.z(1));
    let (u, i, nu, ni) = (U::new(&x), I::new(&x), U::new(&nr), I::new(&nr));
    if let Some(m) = amount(&Z::from_u(&nr)) {
        c.hit(m.is_none() as usize);
        let l = m.map(|m| left(&x, m));
        let ru = m.map(|m| right(&x, m, 0));
        let ri = m.map(|m| right(&x, m, fill(&x)));
        ckp!(c, "u << u", (u << nu).raw(), l);
        ckp!(c, "u >> u", (u >> nu).raw(), ru);
        ckp!(c, "u << &u", (u << &nu).raw(), l);
        ckp!(c, "u >> &u", (u >> &nu).raw(), ru);
        ckp!(c, "&u << &u", (&u << &nu).raw(), l);
        ckp!(c, "&u >> &u", (&u >> &nu).raw(), ru);
        ckp!(c, "i << u", (i << nu).raw(), l);
        ckp!(c, "i >> u", (i >> nu).raw(), ri);
        ckp!(c, "i << &u", (i << &nu).raw(), l);
        ckp!(c, "i >> &u", (i >> &nu).raw(), ri);
        ckp!(c, "i <<= u", { let mut y = i; y <<= nu; y.raw() }, l);
        ckp!(c, "i >>= u", { let mut y = i; y >>= nu; y.raw() }, ri);
    }
    if let Some(m) = amount(&Z::from_s(&nr)) {
        c.hit(m.is_none() as usize);
        let l = m.map(|m| left(&x, m));
        let ru = m.map(|m| right(&x, m, 0));
        let ri = m.map(|m| right(&x, m, fill(&x)));
        ckp!(c, "i << i", (i << ni).raw(), l);
        ckp!(c, "i >> i", (i >> ni).raw(), ri);
        ckp!(c, "i << &i", (i << &ni).raw(), l);
        ckp!(c, "i >> &i", (i >> &ni).raw(), ri);
        ckp!(c, "&i << &i", (&i << &ni).raw(), l);
        ckp!(c, "&i >> &i", (&i >> &ni).raw(), ri);
        ckp!(c, "u << i", (u << ni).raw(), l);
        ckp!(c, "u >> i", (u >> ni).raw(), ru);
        ckp!(c, "u << &i", (u << &ni).raw(), l);
        ckp!(c, "u >> &i", (u >> &ni).raw(), ru);
        ckp!(c, "u <<= i", { let mut y = u; y <<= ni; y.raw() }, l);
        ckp!(c, "u >>= i", { let mut y = u; y >>= ni; y.raw() }, ru);
    }
}

fn amounts(bits: u32, t: Tier) -> Vec<u128> {
    let mut v = space::scalars(bits, t);
    let top = if bits >= 64 { u128::MAX } else { (1u128 << bits) - 1 };
    if t == Tier::Tiny {
        for n in [7, 31, 33, 64, 100, 128, 191, BITS as u128 - 1, BITS as u128, BITS as u128 + 5] {
            v.push(n & top);
        }
    } else {
        v.extend((0..=3 * BITS as u128 / 2).map(|n| n & top));
        if bits <= 8 {
            v.extend(0..1 << bits);
        }
        for k in [8, 9, 16, 32, 64, 96] {
            if k < bits {
                v.extend((0..=BITS as u128).step_by(16).map(|n| (n | 1 << k) & top));
                v.push(BITS as u128 | 1 << k);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn suites(t: Tier, out: &mut Vec<Suite>) {
    let vals = match t {
        Tier::Tiny => space::lean(L, t),
        Tier::Mid | Tier::Quick if L <= 6 => space::wide(L, t),
        Tier::Mid | Tier::Quick => space::core(L, t),
        Tier::Thorough => space::wide(L, Tier::Quick),
    };
    let cl = &["in range", "in range, whole limbs", "out of range"];
    out.push(suite(format!("P07/{}/methods", UN), space::with_scalar(vals, amounts(32, t)), methods, cl));
    let few = match t {
        Tier::Tiny => space::lean(L, t).into_iter().step_by(3).collect(),
        _ => {
            let mut v = space::generic(L, 1);
            v.extend(space::lean(L, Tier::Tiny));
            v.extend(space::pows_at(L, 0, 64));
            space::norm(v)
        },
    };
    out.push(suite(format!("P07/{}/strict", UN), space::with_scalar(few.clone(), amounts(32, t)), strict, cl));
    let cl = &["in range", "wrapped", "panic", "not judged"];
    let mut types: Vec<(&str, u32, fn(&mut Ctx, &Args))> = vec![
        ("u8", 8, by_u8), ("u16", 16, by_u16), ("u32", 32, by_u32), ("u64", 64, by_u64), ("u128", 128, by_u128),
        ("i8", 8, by_i8), ("i16", 16, by_i16), ("i32", 32, by_i32), ("i64", 64, by_i64), ("i128", 128, by_i128),
        ("usize", 64, by_usize), ("isize", 64, by_isize),
    ];
    if t == Tier::Tiny {
        types.retain(|x| x.0 != "usize" && x.0 != "isize");
    }
    for (n, b, f) in types {
        out.push(suite(format!("P07/{}/by-{}", UN, n), space::with_scalar(few.clone(), amounts(b, t)), f, cl));
    }
    let mut by = space::lean(L, t);
    for n in 0..if t == Tier::Tiny { 0 } else { 2 * BITS as usize } {
        for k in [None, Some(0), Some(1), Some(L - 1)] {
            let mut r = [0; MAXL];
            r[0] = n as u64;
            match k {
                Some(0) => r[0] |= 1 << 32,
                Some(k) => r[k] = 1 << 63,
                None => {},
            }
            by.push(r);
        }
    }
    out.push(suite(format!("P07/{}/by-big", UN), space::pairs(few, space::norm(by)), big, &["shifted", "panic"]));
}

//! P17: powers and logarithms.
use super::ty::*;

struct Pow {
    lo: R,
    u: Option<R>,
    i: Option<R>,
    neg: bool,
}

fn power(r: &R, e: u32) -> Pow {
    let (zu, zi) = (Z::from_u(r), Z::from_s(r));
    Pow {
        lo: zu.pow_mod(e, L).lo(),
        u: zu.pow_capped(e, L).and_then(|z| fit_u(&z)),
        i: zi.pow_capped(e, L).and_then(|z| fit_s(&z)),
        neg: zi.is_neg() && e % 2 == 1,
    }
}

fn pow(c: &mut Ctx, a: &Args) {
    let r: R = a.z(0);
    let e = a.n[0] as u32;
    let (u, i) = (U::new(&r), I::new(&r));
    let p = power(&r, e);
    c.hit(p.u.is_some() as usize);
    c.hit(2 + p.i.is_some() as usize);
    let smin: R = smin().lo();
    let smax: R = smax().lo();
    ck!(c, "u.wrapping_pow", u.wrapping_pow(e).raw(), p.lo);
    ck!(c, "i.wrapping_pow", i.wrapping_pow(e).raw(), p.lo);
    ck!(c, "u.overflowing_pow", { let x = u.overflowing_pow(e); (x.0.raw(), x.1) }, (p.lo, p.u.is_none()));
    ck!(c, "i.overflowing_pow", { let x = i.overflowing_pow(e); (x.0.raw(), x.1) }, (p.lo, p.i.is_none()));
    ck!(c, "u.checked_pow", u.checked_pow(e).map(Big::raw), p.u);
    ck!(c, "i.checked_pow", i.checked_pow(e).map(Big::raw), p.i);
    ck!(c, "u.saturating_pow", u.saturating_pow(e).raw(), p.u.unwrap_or([u64::MAX; L]));
    ck!(c, "i.saturating_pow", i.saturating_pow(e).raw(), p.i.unwrap_or(if p.neg { smin } else { smax }));
    if p.u.is_some() {
        ck!(c, "u.strict_pow", u.strict_pow(e).raw(), p.lo);
    }
    if p.i.is_some() {
        ck!(c, "i.strict_pow", i.strict_pow(e).raw(), p.lo);
    }
    if p.u.is_some() || !checks_on() {
        ck!(c, "u.pow", u.pow(e).raw(), p.lo);
    }
    if p.i.is_some() || !checks_on() {
        ck!(c, "i.pow", i.pow(e).raw(), p.lo);
    }
}

fn strict(c: &mut Ctx, a: &Args) {
    let r: R = a.z(0);
    let e = a.n[0] as u32;
    let (u, i) = (U::new(&r), I::new(&r));
    let p = power(&r, e);
    c.hit(p.u.is_some() as usize);
    c.hit(2 + p.i.is_some() as usize);
    let op = |x: Option<R>| if checks_on() { x } else { Some(p.lo) };
    ckp!(c, "u.strict_pow", u.strict_pow(e).raw(), p.u);
    ckp!(c, "i.strict_pow", i.strict_pow(e).raw(), p.i);
    ckp!(c, "u.pow", u.pow(e).raw(), op(p.u));
    ckp!(c, "i.pow", i.pow(e).raw(), op(p.i));
}

/// floor(log_b(x)) for x > 0, b > 1, by multiplying up
fn floor_log(x: &Z, b: &Z) -> u32 {
    let (mut k, mut p) = (0, *b);
    while p.le(x) {
        k += 1;
        p = p.mul(b);
    }
    k
}

fn log(c: &mut Ctx, a: &Args) {
    let (xr, br): (R, R) = (a.z(0), a.z(1));
    let one = Z::u(1);
    macro_rules! go {
        ($t:ident, $p:literal, $z:ident) => {{
            let (x, b) = ($t::new(&xr), $t::new(&br));
            let (zx, zb) = (Z::$z(&xr), Z::$z(&br));
            let ok = one.le(&zx) && one.lt(&zb);
            let e = if ok { Some(floor_log(&zx, &zb)) } else { None };
            c.hit(match e { None => 0, Some(0) => 1, _ => 2 });
            ck!(c, concat!($p, ".checked_ilog"), x.checked_ilog(b), e);
            ckp!(c, concat!($p, ".ilog"), x.ilog(b), e);
        }};
    }
    go!(U, "u", from_u);
    go!(I, "i", from_s);
}

fn log2(c: &mut Ctx, a: &Args) {
    let r: R = a.z(0);
    let (u, i) = (U::new(&r), I::new(&r));
    let (zu, zi) = (Z::from_u(&r), Z::from_s(&r));
    let eu = if zu.is_zero() { None } else { Some(zu.bits() - 1) };
    let ei = if zi.is_zero() || zi.is_neg() { None } else { Some(zi.bits() - 1) };
    ck!(c, "u.checked_ilog2", u.checked_ilog2(), eu);
    ck!(c, "i.checked_ilog2", i.checked_ilog2(), ei);
    if eu.is_some() {
        ck!(c, "u.ilog2", u.ilog2(), eu.unwrap());
    } else {
        ckp!(c, "u.ilog2", u.ilog2(), eu);
    }
    if ei.is_some() || a.z[0][0] % 64 == 0 {
        ckp!(c, "i.ilog2", i.ilog2(), ei);
    }
}

/// floor(x^(1/e))
fn root(x: &Z, e: u32) -> Z {
    let mut r = Z::u(0);
    for k in (0..=BITS / e).rev() {
        let t = r.add(&Z::pow2(k));
        if let Some(p) = t.pow_capped(e, L) {
            if p.le(x) {
                r = t;
            }
        }
    }
    r
}

/// Exponents around the one where powers of the base stop fitting.
fn exps(r: &Raw, t: Tier) -> Vec<u128> {
    let mut v: Vec<u128> = if t == Tier::Tiny { vec![0, 1, 2, 3, 5] } else { (0..=12).collect() };
    for z in [Z::from_u(&low(r)), Z::from_s(&low(r)).abs()] {
        if Z::u(1).lt(&z) {
            let k = floor_log(&umax(), &z) as i64;
            for e in if t == Tier::Tiny { 0..=1 } else { -3..=3 } {
                v.push((k + e).max(0) as u128);
            }
        }
    }
    if t != Tier::Tiny {
        for k in 4..32 {
            v.push(1 << k);
            v.push((1 << k) - 1);
        }
        v.extend([BITS as u128 - 1, BITS as u128 + 1, u32::MAX as u128, u32::MAX as u128 - 1]);
    } else {
        v.extend([100, u32::MAX as u128]);
    }
    v.sort();
    v.dedup();
    v
}

fn with_exps(a: Vec<Raw>, t: Tier) -> (usize, Gen, String) {
    let d = format!("{} bases, exponents small, around the limit of the base, and around powers of two", a.len());
    (a.len(), Box::new(move |i, f| {
        let mut x = Args::new();
        x.z[0] = a[i];
        for e in exps(&a[i], t) {
            x.n[0] = e;
            f(&x);
        }
    }), d)
}

pub fn suites(t: Tier, out: &mut Vec<Suite>) {
    let tiny = t == Tier::Tiny;
    let cl = &["unsigned overflow", "unsigned fits", "signed overflow", "signed fits"];
    // bases whose e-th power is at a bound
    let mut roots = Vec::new();
    let max = if tiny { 3 } else { BITS + 1 };
    for e in 2..=max {
        for b in [umax(), smax(), smin().abs()] {
            let r = root(&b, e);
            for d in -1..=2 {
                let x = raw(&r.add(&Z::i(d)).lo());
                roots.push(x);
                roots.push(space::neg(L, &x));
            }
        }
    }
    let mut bases = match t {
        Tier::Tiny => space::lean(L, t),
        Tier::Mid | Tier::Quick if L > 4 => space::lean(L, t),
        Tier::Mid | Tier::Quick => space::core(L, t),
        Tier::Thorough if L > 8 => space::core(L, Tier::Quick),
        Tier::Thorough => space::wide(L, Tier::Quick),
    };
    if !tiny {
        bases.extend(space::small(L, 300));
    }
    bases.extend(roots.iter().copied());
    let bases = space::norm(bases);
    out.push(suite(format!("P17/{}/pow", UN), with_exps(bases, t), pow, cl));
    let mut few = space::lean(L, Tier::Tiny);
    few.extend(roots.iter().copied());
    if !tiny {
        few.extend(space::small(L, 40));
    }
    out.push(suite(format!("P17/{}/pow-panics", UN), with_exps(space::norm(few), t), strict, cl));

    // values next to each power of each base
    let mut bs = if tiny { space::lean(L, t).into_iter().step_by(3).collect() } else { space::lean(L, t.min(Tier::Quick)) };
    if !tiny {
        bs.extend(space::small(L, if L > 8 { 40 } else { 300 }));
        bs.extend(roots);
    }
    let bs = space::norm(bs);
    let d = format!("{} bases, values next to each of their powers", bs.len());
    let step = if tiny { 40 } else { 1 };
    let g: (usize, Gen, String) = (bs.len(), Box::new(move |i, f| {
        let mut x = Args::new();
        x.z[1] = bs[i];
        for z in [Z::from_u(&low(&bs[i])), Z::from_s(&low(&bs[i])).abs()] {
            let mut p = Z::u(1);
            let mut k = 0;
            while p.fits_u(L) {
                if k % step == 0 {
                    for e in -1..=1 {
                        x.z[0] = raw(&p.add(&Z::i(e)).lo());
                        f(&x);
                    }
                }
                if z.le(&Z::u(1)) {
                    break;
                }
                p = p.mul(&z);
                k += 1;
            }
        }
    }), d);
    let cl = &["absent", "zero", "positive"];
    out.push(suite(format!("P17/{}/log-powers", UN), g, log, cl));
    let mut v: Vec<Raw> = space::lean(L, t.min(Tier::Quick));
    v = v.into_iter().step_by(match (t, L) { (Tier::Tiny, _) => 3, (Tier::Mid | Tier::Quick, 4) => 5, (Tier::Mid | Tier::Quick, _) => 7, _ => 1 }).collect();
    out.push(suite(format!("P17/{}/log-pairs", UN), space::pairs(v.clone(), v), log, cl));
    out.push(suite(format!("P17/{}/log2", UN), space::unary(space::wide(L, t)), log2, &[]));
}

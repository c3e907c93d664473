//! P19: derived helpers.
use super::ty::*;

fn pairs(c: &mut Ctx, a: &Args) {
    let (ar, br): (R, R) = (a.z(0), a.z(1));
    let (ua, ub, ia, ib) = (U::new(&ar), U::new(&br), I::new(&ar), I::new(&br));
    let (zua, zub, zia, zib) = (Z::from_u(&ar), Z::from_u(&br), Z::from_s(&ar), Z::from_s(&br));
    let (du, di) = (zua.sub(&zub), zia.sub(&zib));
    c.hit(du.fits_s(L) as usize);
    ck!(c, "u.abs_diff", ua.abs_diff(ub).raw(), du.abs().lo());
    ck!(c, "i.abs_diff", ia.abs_diff(ib).raw(), di.abs().lo());
    ck!(c, "u.checked_signed_diff", ua.checked_signed_diff(ub).map(Big::raw), fit_s(&du));
    ck!(c, "u.midpoint", ua.midpoint(ub).raw(), zua.add(&zub).shr(1).lo());
    // signed midpoints round towards zero
    let s = zia.add(&zib);
    let m = if s.is_neg() { s.neg().shr(1).neg() } else { s.shr(1) };
    c.hit(2 + s.is_neg() as usize);
    ck!(c, "i.midpoint", ia.midpoint(ib).raw(), m.lo());
}

fn modulo(x: &Z, d: &Z) -> Z {
    // remainder with the sign of d
    let r = x.divrem(d).1;
    if !r.is_zero() && r.is_neg() != d.is_neg() { r.add(d) } else { r }
}

fn multiples(c: &mut Ctx, a: &Args) {
    let (ar, br): (R, R) = (a.z(0), a.z(1));
    let (ua, ub, ia, ib) = (U::new(&ar), U::new(&br), I::new(&ar), I::new(&br));
    if br == [0; L] {
        ck!(c, "u.is_multiple_of", ua.is_multiple_of(ub), ar == [0; L]);
        return;
    }
    macro_rules! go {
        ($p:literal, $x:ident, $y:ident, $zx:expr, $zy:expr, $fit:ident) => {{
            let (x, d): (Z, Z) = ($zx, $zy);
            let r = modulo(&x, &d);
            let e = if r.is_zero() { x } else { x.add(&d.sub(&r)) };
            let f = $fit(&e);
            c.hit(if r.is_zero() { 0 } else if f.is_some() { 1 } else { 2 });
            ck!(c, concat!($p, ".checked_next_multiple_of"), $x.checked_next_multiple_of($y).map(Big::raw), f);
            if f.is_some() || !checks_on() {
                ck!(c, concat!($p, ".next_multiple_of"), $x.next_multiple_of($y).raw(), e.lo());
            } else if a.n[0] == 0 {
                ckp!(c, concat!($p, ".next_multiple_of"), $x.next_multiple_of($y).raw(), f);
            }
            r.is_zero()
        }};
    }
    let m = go!("u", ua, ub, Z::from_u(&ar), Z::from_u(&br), fit_u);
    ck!(c, "u.is_multiple_of", ua.is_multiple_of(ub), m);
    go!("i", ia, ib, Z::from_s(&ar), Z::from_s(&br), fit_s);
}

fn single(c: &mut Ctx, a: &Args) {
    let r: R = a.z(0);
    let (u, i) = (U::new(&r), I::new(&r));
    let (zu, zi) = (Z::from_u(&r), Z::from_s(&r));
    ck!(c, "i.unsigned_abs", i.unsigned_abs().raw(), zi.abs().lo());
    ck!(c, "i.signum", i.signum().raw(), if zi.is_zero() { [0; L] } else if zi.is_neg() { [u64::MAX; L] } else { Z::u(1).lo() });
    let pow = !zu.is_zero() && zu == Z::pow2(zu.bits() - 1);
    ck!(c, "u.is_power_of_two", u.is_power_of_two(), pow);
    let next = if zu.is_zero() { Z::u(1) } else if pow { zu } else { Z::pow2(zu.bits()) };
    let f = fit_u(&next);
    c.hit(if pow { 0 } else if f.is_some() { 1 } else { 2 });
    ck!(c, "u.checked_next_power_of_two", u.checked_next_power_of_two().map(Big::raw), f);
    ck!(c, "u.wrapping_next_power_of_two", u.wrapping_next_power_of_two().raw(), f.unwrap_or([0; L]));
    if f.is_some() || !checks_on() || r[0] % 64 == 0 {
        ckp!(c, "u.next_power_of_two", u.next_power_of_two().raw(), op_u(&next));
    }
}

pub fn suites(t: Tier, out: &mut Vec<Suite>) {
    let core = || space::core(L, t);
    out.push(suite(format!("P19/{}/pairs", UN), space::pairs(core(), core()), pairs, &["no signed difference", "signed difference", "sum not negative", "sum negative"]));
    let v = if t == Tier::Thorough { space::wide(L, Tier::Quick) } else { core() };
    out.push(suite(format!("P19/{}/pairs-bounds", UN), space::derived(v, "partners at the bounds", |r| {
        crate::bounds::<W, L>(r).into_iter().flat_map(|x| (-2..=2).map(move |e| space::add_small(L, &x, e))).collect()
    }), pairs, &["no signed difference", "signed difference", "sum not negative", "sum negative"]));
    let cl = &["multiple", "moved up", "does not fit"];
    let lean = space::lean(L, t.min(Tier::Quick));
    out.push(suite(format!("P19/{}/multiples", UN), space::pairs(lean.clone(), lean.clone()), multiples, cl));
    // values at, just above and just below a multiple, and around the largest multiple
    let ds = if t == Tier::Tiny { lean.into_iter().step_by(3).collect() } else { core() };
    out.push(suite(format!("P19/{}/multiples-bounds", UN), space::derived(ds, "values next to the extreme multiples", |d| {
        let mut v = Vec::new();
        for z in [Z::from_u(&low(d)), Z::from_s(&low(d))] {
            if z.is_zero() {
                continue;
            }
            for b in [umax(), smax(), smin(), Z::u(0), z.mul(&Z::u(1000))] {
                let m = b.divrem(&z).0.mul(&z);
                for e in -2..=2 {
                    for k in [Z::u(0), z, z.neg()] {
                        v.push(raw(&m.add(&k).add(&Z::i(e)).lo()));
                    }
                }
            }
        }
        v
    }).swap(), multiples, cl));
    out.push(suite(format!("P19/{}/single", UN), space::unary(space::wide(L, t)), single, &["power of two", "next", "does not fit"]));
}

trait Swap {
    fn swap(self) -> Self;
}
/// The derived operand first.
impl Swap for (usize, Gen, String) {
    fn swap(self) -> Self {
        let (n, g, d) = self;
        (n, Box::new(move |i, f| g(i, &mut |a: &Args| {
            let mut b = a.clone();
            b.z.swap(0, 1);
            f(&b);
        })), d)
    }
}

//! P04: unsigned division.
use super::ty::*;

fn two(p: (U, U)) -> (R, R) {
    (p.0.raw(), p.1.raw())
}
fn flag(p: (U, bool)) -> (R, bool) {
    (p.0.raw(), p.1)
}

fn main_form(c: &mut Ctx, a: &Args) -> Option<(R, R)> {
    let (nr, dr): (R, R) = (a.z(0), a.z(1));
    if dr == [0; L] {
        return None;
    }
    let (n, d) = (U::new(&nr), U::new(&dr));
    // the quotient and remainder are characterised, not computed
    c.begin("u.wrapping_div_rem");
    let (q, r) = two(n.wrapping_div_rem(d));
    let (zq, zr, zn, zd) = (Z::from_u(&q), Z::from_u(&r), Z::from_u(&nr), Z::from_u(&dr));
    let ok = zr.lt(&zd) && zq.mul(&zd).add(&zr) == zn;
    if !ok {
        let (eq, er) = zn.divrem(&zd);
        let e: (R, R) = (eq.lo(), er.lo());
        c.check((q, r), e);
    } else {
        c.check((q, r), (q, r));
    }
    c.hit(if q == [0; L] { 0 } else if zq.bits() <= 64 { 1 } else { 2 });
    c.hit(if r == [0; L] { 3 } else { 4 });
    Some((q, r))
}

fn short(c: &mut Ctx, a: &Args) {
    let Some((q, r)) = main_form(c, a) else { return };
    let (n, d) = (U::new(&a.z::<L>(0)), U::new(&a.z::<L>(1)));
    ck!(c, "u.wrapping_div", n.wrapping_div(d).raw(), q);
    ck!(c, "u.wrapping_rem", n.wrapping_rem(d).raw(), r);
}

fn all(c: &mut Ctx, a: &Args) {
    let Some((q, r)) = main_form(c, a) else { return };
    let (n, d) = (U::new(&a.z::<L>(0)), U::new(&a.z::<L>(1)));
    ck!(c, "u.wrapping_div", n.wrapping_div(d).raw(), q);
    ck!(c, "u.wrapping_rem", n.wrapping_rem(d).raw(), r);
    ck!(c, "u.wrapping_div_euclid", n.wrapping_div_euclid(d).raw(), q);
    ck!(c, "u.wrapping_rem_euclid", n.wrapping_rem_euclid(d).raw(), r);
    ck!(c, "u.overflowing_div", flag(n.overflowing_div(d)), (q, false));
    ck!(c, "u.overflowing_rem", flag(n.overflowing_rem(d)), (r, false));
    ck!(c, "u.overflowing_div_euclid", flag(n.overflowing_div_euclid(d)), (q, false));
    ck!(c, "u.overflowing_rem_euclid", flag(n.overflowing_rem_euclid(d)), (r, false));
    ck!(c, "u.overflowing_div_rem", { let p = n.overflowing_div_rem(d); (two(p.0), p.1) }, ((q, r), false));
    ck!(c, "u.checked_div", n.checked_div(d).map(Big::raw), Some(q));
    ck!(c, "u.checked_rem", n.checked_rem(d).map(Big::raw), Some(r));
    ck!(c, "u.checked_div_euclid", n.checked_div_euclid(d).map(Big::raw), Some(q));
    ck!(c, "u.checked_rem_euclid", n.checked_rem_euclid(d).map(Big::raw), Some(r));
    ck!(c, "u.checked_div_rem", n.checked_div_rem(d).map(two), Some((q, r)));
    ck!(c, "u.saturating_div", n.saturating_div(d).raw(), q);
    ck!(c, "u.strict_div", n.strict_div(d).raw(), q);
    ck!(c, "u.strict_rem", n.strict_rem(d).raw(), r);
    ck!(c, "u.strict_div_euclid", n.strict_div_euclid(d).raw(), q);
    ck!(c, "u.strict_rem_euclid", n.strict_rem_euclid(d).raw(), r);
    ck!(c, "u.div_rem", two(n.div_rem(d)), (q, r));
    ck!(c, "u.div_euclid", n.div_euclid(d).raw(), q);
    ck!(c, "u.rem_euclid", n.rem_euclid(d).raw(), r);
    ck!(c, "u.div_floor", n.div_floor(d).raw(), q);
    let up: R = if r == [0; L] { q } else { Z::from_u(&q).add(&Z::u(1)).lo() };
    ck!(c, "u.div_ceil", n.div_ceil(d).raw(), up);
    ck!(c, "u /", (n / d).raw(), q);
    ck!(c, "u %", (n % d).raw(), r);
}

pub fn suites(t: Tier, out: &mut Vec<Suite>) {
    let cl = &["quotient zero", "quotient of one digit", "longer quotient", "remainder zero", "remainder non-zero"];
    out.push(suite(format!("P04/{}/pairs", UN), space::pairs(space::core(L, t), space::core(L, t)), main_form_only, cl));
    out.push(suite(format!("P04/{}/forms", UN), space::pairs(space::lean(L, t.min(Tier::Quick)), space::lean(L, t.min(Tier::Quick))), all, cl));
    let (q, d) = match t {
        Tier::Tiny => (space::lean(L, t), space::lean(L, t)),
        Tier::Mid | Tier::Quick => (space::lean(L, t), space::core(L, t)),
        Tier::Thorough => (space::core(L, Tier::Quick), space::core(L, Tier::Quick)),
    };
    out.push(suite(format!("P04/{}/multiples", UN), space::products(q, d, L), short, cl));
    for (n, a, b) in space::knuth(L, t) {
        out.push(suite(format!("P04/{}/{}", UN, n), space::pairs(a, b), main_form_only, cl));
    }
}

fn main_form_only(c: &mut Ctx, a: &Args) {
    main_form(c, a);
}

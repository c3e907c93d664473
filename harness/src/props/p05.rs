//! P05: signed division.
use super::ty::*;

fn two(p: (I, I)) -> (R, R) {
    (p.0.raw(), p.1.raw())
}
fn flag(p: (I, bool)) -> (R, bool) {
    (p.0.raw(), p.1)
}

struct Exp {
    over: bool,
    q: R,
    r: R,
}

fn truncating(c: &mut Ctx, a: &Args) -> Option<Exp> {
    let (nr, dr): (R, R) = (a.z(0), a.z(1));
    if dr == [0; L] {
        return None;
    }
    let (n, d) = (I::new(&nr), I::new(&dr));
    let (zn, zd) = (Z::from_s(&nr), Z::from_s(&dr));
    let over = zn == smin() && zd == Z::i(-1);
    c.begin("i.wrapping_div_rem");
    let (q, r) = two(n.wrapping_div_rem(d));
    if over {
        c.check((q, r), (smin().lo(), [0; L]));
    } else {
        // characterised: n = q d + r, |r| < |d|, r is zero or has the sign of n
        let (zq, zr) = (Z::from_s(&q), Z::from_s(&r));
        let ok = zr.abs().lt(&zd.abs()) && (zr.is_zero() || zr.is_neg() == zn.is_neg()) && zq.mul(&zd).add(&zr) == zn;
        let e: (R, R) = if ok { (q, r) } else { let p = zn.divrem(&zd); (p.0.lo(), p.1.lo()) };
        c.check((q, r), e);
    }
    c.hit(if over { 4 } else { zn.is_neg() as usize * 2 + zd.is_neg() as usize });
    if !over && r != [0; L] {
        c.hit(5);
    }
    Some(Exp { over, q, r })
}

/// Truncating, Euclidean, floor and ceiling quotients with their remainders.
fn rounded(c: &mut Ctx, a: &Args, e: &Exp) -> [R; 6] {
    let (zn, zd) = (Z::from_s(&a.z::<L>(0)), Z::from_s(&a.z::<L>(1)));
    let (q, r) = if e.over { (smin().neg(), Z::u(0)) } else { (Z::from_s(&e.q), Z::from_s(&e.r)) };
    let one = Z::u(1);
    let (eq, er) = if r.is_neg() {
        if zd.is_neg() { (q.add(&one), r.sub(&zd)) } else { (q.sub(&one), r.add(&zd)) }
    } else {
        (q, r)
    };
    let mixed = zn.is_neg() != zd.is_neg();
    let fl = if !r.is_zero() && mixed { q.sub(&one) } else { q };
    let ce = if !r.is_zero() && !mixed { q.add(&one) } else { q };
    c.evals += 0;
    [e.q, e.r, eq.lo(), er.lo(), fl.lo(), ce.lo()]
}

fn short(c: &mut Ctx, a: &Args) {
    let Some(e) = truncating(c, a) else { return };
    let (n, d) = (I::new(&a.z::<L>(0)), I::new(&a.z::<L>(1)));
    let [q, r, eq, er, fl, ce] = rounded(c, a, &e);
    ck!(c, "i.wrapping_div", n.wrapping_div(d).raw(), q);
    ck!(c, "i.wrapping_rem", n.wrapping_rem(d).raw(), r);
    ck!(c, "i.wrapping_div_euclid", n.wrapping_div_euclid(d).raw(), eq);
    ck!(c, "i.wrapping_rem_euclid", n.wrapping_rem_euclid(d).raw(), er);
    if !e.over {
        ck!(c, "i.div_floor", n.div_floor(d).raw(), fl);
        ck!(c, "i.div_ceil", n.div_ceil(d).raw(), ce);
    }
}

fn all(c: &mut Ctx, a: &Args) {
    let Some(e) = truncating(c, a) else { return };
    let (n, d) = (I::new(&a.z::<L>(0)), I::new(&a.z::<L>(1)));
    let [q, r, eq, er, fl, ce] = rounded(c, a, &e);
    let o = e.over;
    let some = |x: R| if o { None } else { Some(x) };
    let oper = |x: R| if o && checks_on() { None } else { Some(x) };
    ck!(c, "i.wrapping_div", n.wrapping_div(d).raw(), q);
    ck!(c, "i.wrapping_rem", n.wrapping_rem(d).raw(), r);
    ck!(c, "i.wrapping_div_euclid", n.wrapping_div_euclid(d).raw(), eq);
    ck!(c, "i.wrapping_rem_euclid", n.wrapping_rem_euclid(d).raw(), er);
    ck!(c, "i.overflowing_div", flag(n.overflowing_div(d)), (q, o));
    ck!(c, "i.overflowing_rem", flag(n.overflowing_rem(d)), (r, o));
    ck!(c, "i.overflowing_div_euclid", flag(n.overflowing_div_euclid(d)), (eq, o));
    ck!(c, "i.overflowing_rem_euclid", flag(n.overflowing_rem_euclid(d)), (er, o));
    ck!(c, "i.overflowing_div_rem", { let p = n.overflowing_div_rem(d); (two(p.0), p.1) }, ((q, r), o));
    ck!(c, "i.checked_div", n.checked_div(d).map(Big::raw), some(q));
    ck!(c, "i.checked_rem", n.checked_rem(d).map(Big::raw), some(r));
    ck!(c, "i.checked_div_euclid", n.checked_div_euclid(d).map(Big::raw), some(eq));
    ck!(c, "i.checked_rem_euclid", n.checked_rem_euclid(d).map(Big::raw), some(er));
    ck!(c, "i.checked_div_rem", n.checked_div_rem(d).map(two), if o { None } else { Some((q, r)) });
    ck!(c, "i.saturating_div", n.saturating_div(d).raw(), if o { smax().lo() } else { q });
    ckp!(c, "i.strict_div", n.strict_div(d).raw(), some(q));
    ckp!(c, "i.strict_rem", n.strict_rem(d).raw(), some(r));
    ckp!(c, "i.strict_div_euclid", n.strict_div_euclid(d).raw(), some(eq));
    ckp!(c, "i.strict_rem_euclid", n.strict_rem_euclid(d).raw(), some(er));
    ckp!(c, "i.div_rem", two(n.div_rem(d)), if o && checks_on() { None } else { Some((q, r)) });
    ckp!(c, "i /", (n / d).raw(), oper(q));
    ckp!(c, "i %", (n % d).raw(), oper(r));
    ckp!(c, "i.div_euclid", n.div_euclid(d).raw(), some(eq));
    ckp!(c, "i.rem_euclid", n.rem_euclid(d).raw(), some(er));
    ckp!(c, "i.div_floor", n.div_floor(d).raw(), some(fl));
    ckp!(c, "i.div_ceil", n.div_ceil(d).raw(), some(ce));
}

pub fn suites(t: Tier, out: &mut Vec<Suite>) {
    let cl = &["+ / +", "+ / -", "- / +", "- / -", "minimum / -1", "remainder non-zero"];
    out.push(suite(format!("P05/{}/pairs", UN), space::pairs(space::core(L, t), space::core(L, t)), short, cl));
    out.push(suite(format!("P05/{}/forms", UN), space::pairs(space::lean(L, t.min(Tier::Quick)), space::lean(L, t.min(Tier::Quick))), all, cl));
    let (q, d) = match t {
        Tier::Tiny => (space::lean(L, t), space::lean(L, t)),
        Tier::Mid | Tier::Quick => (space::lean(L, t), space::core(L, t)),
        Tier::Thorough => (space::core(L, Tier::Quick), space::core(L, Tier::Quick)),
    };
    out.push(suite(format!("P05/{}/multiples", UN), space::products(q, d, L), signs, cl));
    for (n, a, b) in space::knuth(L, t.min(Tier::Quick)) {
        if !["4by4-digits", "4by3-digits", "5by3-half-digits"].contains(&n) || t == Tier::Thorough {
            out.push(suite(format!("P05/{}/{}", UN, n), space::pairs(a, b), signs, cl));
        }
    }
}

/// The case with all four sign combinations.
fn signs(c: &mut Ctx, a: &Args) {
    let mut b = Args::new();
    let (n, d): (R, R) = (a.z(0), a.z(1));
    for k in 0..4 {
        b.z[0] = raw(&if k & 1 == 0 { n } else { Z::from_u(&n).neg().lo() });
        b.z[1] = raw(&if k & 2 == 0 { d } else { Z::from_u(&d).neg().lo() });
        short(c, &b);
    }
}

//! P03: operators and plainly named methods under both overflow-check modes; all operator forms.
use super::ty::*;

/// All forms of a binary operator.
macro_rules! forms {
    ($c:ident, $n:literal, $a:expr, $b:expr, $op:tt, $as:tt, $exp:expr) => {{
        let e: Option<R> = $exp;
        let (a, b) = ($a, $b);
        ckp!($c, concat!($n, " value"), (a $op b).raw(), e);
        ckp!($c, concat!($n, " reference"), (a $op &b).raw(), e);
        ckp!($c, concat!($n, " assign"), { let mut x = a; x $as b; x.raw() }, e);
        ckp!($c, concat!($n, " assign reference"), { let mut x = a; x $as &b; x.raw() }, e);
    }};
}

fn check(c: &mut Ctx, a: &Args) {
    let (xr, yr): (R, R) = (a.z(0), a.z(1));
    let (x, y) = (Z::from_u(&xr), Z::from_u(&yr));
    let (s, t) = (Z::from_s(&xr), Z::from_s(&yr));
    let (u, v) = (U::new(&xr), U::new(&yr));
    let (i, j) = (I::new(&xr), I::new(&yr));
    forms!(c, "u +", u, v, +, +=, op_u(&x.add(&y)));
    forms!(c, "u -", u, v, -, -=, op_u(&x.sub(&y)));
    forms!(c, "u *", u, v, *, *=, op_u(&x.mul(&y)));
    forms!(c, "i +", i, j, +, +=, op_s(&s.add(&t)));
    forms!(c, "i -", i, j, -, -=, op_s(&s.sub(&t)));
    forms!(c, "i *", i, j, *, *=, op_s(&s.mul(&t)));
    if !y.is_zero() {
        let (q, r) = x.divrem(&y);
        forms!(c, "u /", u, v, /, /=, Some(q.lo()));
        forms!(c, "u %", u, v, %, %=, Some(r.lo()));
        ckp!(c, "u.div_rem", { let p = u.div_rem(v); (p.0.raw(), p.1.raw()) }, Some((q.lo(), r.lo())));
        let (q, r) = s.divrem(&t);
        // only the quotient of the minimum by minus one does not fit; the remainder operator reports it too
        let o = !q.fits_s(L) && checks_on();
        let e = |z: &Z| -> Option<R> { if o { None } else { Some(z.lo()) } };
        forms!(c, "i /", i, j, /, /=, e(&q));
        forms!(c, "i %", i, j, %, %=, e(&r));
        ckp!(c, "i.div_rem", { let p = i.div_rem(j); (p.0.raw(), p.1.raw()) }, if o { None } else { Some((q.lo(), r.lo())) });
    }
    c.hit(x.mul(&y).fits_u(L) as usize);
    c.hit(2 + s.mul(&t).fits_s(L) as usize);
}

fn unary(c: &mut Ctx, a: &Args) {
    let xr: R = a.z(0);
    let s = Z::from_s(&xr);
    let i = I::new(&xr);
    ckp!(c, "i neg", (-i).raw(), op_s(&s.neg()));
    ckp!(c, "i neg reference", (-&i).raw(), op_s(&s.neg()));
    ckp!(c, "i.abs", i.abs().raw(), op_s(&s.abs()));
}

pub fn suites(t: Tier, out: &mut Vec<Suite>) {
    let cl = &["unsigned product overflows", "unsigned product fits", "signed product overflows", "signed product fits"];
    let (a, b) = match t {
        Tier::Tiny => (space::lean(L, t), space::lean(L, t)),
        _ if L == 4 => (space::lean(L, t), space::lean(L, t)),
        _ => (space::lean(L, t.min(Tier::Quick)), space::lean(L, t)),
    };
    out.push(suite(format!("P03/{}/pairs", UN), space::pairs(a, b), check, cl));
    let m = if t == Tier::Tiny { space::lean(L, t) } else { space::core(L, t) };
    out.push(suite(format!("P03/{}/bounds", UN), space::derived(m, "partners at the bounds", crate::bounds::<W, L>), check, cl));
    out.push(suite(format!("P03/{}/unary", UN), space::unary(space::wide(L, t)), unary, &[]));
}

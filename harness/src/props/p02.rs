//! P02: overflow is reported exactly.
use super::ty::*;

fn both(c: &mut Ctx, a: &Args) {
    let (xr, yr): (R, R) = (a.z(0), a.z(1));
    let (x, y) = (Z::from_u(&xr), Z::from_u(&yr));
    let (s, t) = (Z::from_s(&xr), Z::from_s(&yr));
    let (u, v) = (U::new(&xr), U::new(&yr));
    let (i, j) = (I::new(&xr), I::new(&yr));
    macro_rules! uu {
        ($z:expr, $of:literal $o:ident, $ch:ident, $sa:ident, $l:expr, $r:expr) => {{
            let z: Z = $z;
            let f = fit_u(&z);
            ck!(c, concat!("u.overflowing_", $of), val(U::$o($l, $r)), (z.lo(), f.is_none()));
            ck!(c, concat!("u.checked_", $of), U::$ch($l, $r).map(Big::raw), f);
            ck!(c, concat!("u.saturating_", $of), U::$sa($l, $r).raw(), sat_u(&z));
            c.hit(f.is_none() as usize);
        }};
    }
    macro_rules! ii {
        ($z:expr, $of:literal $o:ident, $ch:ident, $sa:ident, $l:expr, $r:expr) => {{
            let z: Z = $z;
            let f = fit_s(&z);
            ck!(c, concat!("i.overflowing_", $of), val(I::$o($l, $r)), (z.lo(), f.is_none()));
            ck!(c, concat!("i.checked_", $of), I::$ch($l, $r).map(Big::raw), f);
            ck!(c, concat!("i.saturating_", $of), I::$sa($l, $r).raw(), sat_s(&z));
            c.hit(2 + f.is_none() as usize);
        }};
    }
    uu!(x.add(&y), "add" overflowing_add, checked_add, saturating_add, u, v);
    uu!(x.sub(&y), "sub" overflowing_sub, checked_sub, saturating_sub, u, v);
    uu!(x.mul(&y), "mul" overflowing_mul, checked_mul, saturating_mul, u, v);
    uu!(x.add(&t), "add_signed" overflowing_add_signed, checked_add_signed, saturating_add_signed, u, j);
    ii!(s.add(&t), "add" overflowing_add, checked_add, saturating_add, i, j);
    ii!(s.sub(&t), "sub" overflowing_sub, checked_sub, saturating_sub, i, j);
    ii!(s.mul(&t), "mul" overflowing_mul, checked_mul, saturating_mul, i, j);
    ii!(s.add(&y), "add_unsigned" overflowing_add_unsigned, checked_add_unsigned, saturating_add_unsigned, i, v);
    ii!(s.sub(&y), "sub_unsigned" overflowing_sub_unsigned, checked_sub_unsigned, saturating_sub_unsigned, i, v);
    let z = x.sub(&t);
    ck!(c, "u.overflowing_sub_signed", val(u.overflowing_sub_signed(j)), (z.lo(), fit_u(&z).is_none()));
}

fn val<T: Big<L>>(p: (T, bool)) -> (R, bool) {
    (p.0.raw(), p.1)
}

fn strict(c: &mut Ctx, a: &Args) {
    let (xr, yr): (R, R) = (a.z(0), a.z(1));
    let (x, y) = (Z::from_u(&xr), Z::from_u(&yr));
    let (s, t) = (Z::from_s(&xr), Z::from_s(&yr));
    let (u, v) = (U::new(&xr), U::new(&yr));
    let (i, j) = (I::new(&xr), I::new(&yr));
    ckp!(c, "u.strict_add", u.strict_add(v).raw(), fit_u(&x.add(&y)));
    ckp!(c, "u.strict_sub", u.strict_sub(v).raw(), fit_u(&x.sub(&y)));
    ckp!(c, "u.strict_mul", u.strict_mul(v).raw(), fit_u(&x.mul(&y)));
    ckp!(c, "u.strict_add_signed", u.strict_add_signed(j).raw(), fit_u(&x.add(&t)));
    ckp!(c, "i.strict_add", i.strict_add(j).raw(), fit_s(&s.add(&t)));
    ckp!(c, "i.strict_sub", i.strict_sub(j).raw(), fit_s(&s.sub(&t)));
    ckp!(c, "i.strict_mul", i.strict_mul(j).raw(), fit_s(&s.mul(&t)));
    ckp!(c, "i.strict_add_unsigned", i.strict_add_unsigned(v).raw(), fit_s(&s.add(&y)));
    ckp!(c, "i.strict_sub_unsigned", i.strict_sub_unsigned(v).raw(), fit_s(&s.sub(&y)));
}

fn all(c: &mut Ctx, a: &Args) {
    both(c, a);
    strict(c, a);
}

fn unary(c: &mut Ctx, a: &Args) {
    let xr: R = a.z(0);
    let (u, i) = (U::new(&xr), I::new(&xr));
    let un = Z::from_u(&xr).neg();
    ck!(c, "u.checked_neg", u.checked_neg().map(Big::raw), fit_u(&un));
    if un.is_zero() || xr[0] % 16 == 1 {
        ckp!(c, "u.strict_neg", u.strict_neg().raw(), fit_u(&un));
    }
    let s = Z::from_s(&xr);
    let (n, b) = (s.neg(), s.abs());
    let (fn_, fb) = (fit_s(&n), fit_s(&b));
    ck!(c, "i.overflowing_neg", val(i.overflowing_neg()), (n.lo(), fn_.is_none()));
    ck!(c, "i.checked_neg", i.checked_neg().map(Big::raw), fn_);
    ck!(c, "i.saturating_neg", i.saturating_neg().raw(), sat_s(&n));
    ckp!(c, "i.strict_neg", i.strict_neg().raw(), fn_);
    ck!(c, "i.overflowing_abs", val(i.overflowing_abs()), (b.lo(), fb.is_none()));
    ck!(c, "i.checked_abs", i.checked_abs().map(Big::raw), fb);
    ck!(c, "i.saturating_abs", i.saturating_abs().raw(), sat_s(&b));
    ckp!(c, "i.strict_abs", i.strict_abs().raw(), fb);
    c.hit(fn_.is_none() as usize);
}

pub fn suites(t: Tier, out: &mut Vec<Suite>) {
    let cl = &["unsigned fits", "unsigned overflow", "signed fits", "signed overflow"];
    out.push(suite(format!("P02/{}/pairs", UN), space::pairs(space::core(L, t), space::core(L, t)), both, cl));
    let m = if t == Tier::Tiny { space::lean(L, t) } else { space::core(L, t) };
    out.push(suite(format!("P02/{}/bounds", UN), space::derived(m, "partners at the bounds", crate::bounds::<W, L>), all, cl));
    out.push(suite(format!("P02/{}/strict", UN), space::pairs(space::lean(L, Tier::Tiny), space::lean(L, t.min(Tier::Quick))), strict, &[]));
    out.push(suite(format!("P02/{}/unary", UN), space::unary(space::wide(L, t)), unary, &["fits", "overflow"]));
}

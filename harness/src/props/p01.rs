//! P01: wrapping ring arithmetic.
use super::ty::*;

fn check(c: &mut Ctx, a: &Args) {
    let (xr, yr): (R, R) = (a.z(0), a.z(1));
    // signed and unsigned readings agree modulo 2^BITS, which is all that counts here
    let (x, y) = (Z::from_u(&xr), Z::from_u(&yr));
    let (add, sub, mul): (R, R, R) = (x.add(&y).lo(), x.sub(&y).lo(), x.mul(&y).lo());
    let (u, v) = (U::new(&xr), U::new(&yr));
    let (i, j) = (I::new(&xr), I::new(&yr));
    ck!(c, "u.wrapping_add", u.wrapping_add(v).raw(), add);
    ck!(c, "u.wrapping_sub", u.wrapping_sub(v).raw(), sub);
    ck!(c, "u.wrapping_mul", u.wrapping_mul(v).raw(), mul);
    ck!(c, "i.wrapping_add", i.wrapping_add(j).raw(), add);
    ck!(c, "i.wrapping_sub", i.wrapping_sub(j).raw(), sub);
    ck!(c, "i.wrapping_mul", i.wrapping_mul(j).raw(), mul);
    ck!(c, "u.wrapping_add_signed", u.wrapping_add_signed(j).raw(), add);
    ck!(c, "i.wrapping_sub_unsigned", i.wrapping_sub_unsigned(v).raw(), sub);
    c.hit(if add < xr { 0 } else { 1 });
}

fn check1(c: &mut Ctx, a: &Args) {
    let xr: R = a.z(0);
    let neg: R = Z::from_u(&xr).neg().lo();
    ck!(c, "u.wrapping_neg", U::new(&xr).wrapping_neg().raw(), neg);
    ck!(c, "i.wrapping_neg", I::new(&xr).wrapping_neg().raw(), neg);
    let abs: R = Z::from_s(&xr).abs().lo();
    ck!(c, "i.wrapping_abs", I::new(&xr).wrapping_abs().raw(), abs);
    // squares and doubles of many values
    let x = Z::from_u(&xr);
    let (u, i) = (U::new(&xr), I::new(&xr));
    ck!(c, "u.wrapping_mul(self)", u.wrapping_mul(u).raw(), x.mul(&x).lo());
    ck!(c, "i.wrapping_mul(self)", i.wrapping_mul(i).raw(), x.mul(&x).lo());
    ck!(c, "u.wrapping_add(self)", u.wrapping_add(u).raw(), x.add(&x).lo());
    ck!(c, "i.wrapping_add(self)", i.wrapping_add(i).raw(), x.add(&x).lo());
    ck!(c, "u.wrapping_sub(self)", u.wrapping_sub(u).raw(), [0; L]);
    ck!(c, "i.wrapping_sub(self)", i.wrapping_sub(i).raw(), [0; L]);
}

pub fn suites(t: Tier, out: &mut Vec<Suite>) {
    out.push(suite(format!("P01/{}/pairs", UN), space::pairs(space::core(L, t), space::core(L, t)), check, &["carry out", "no carry out"]));
    out.push(suite(format!("P01/{}/unary", UN), space::unary(space::wide(L, t)), check1, &[]));
}

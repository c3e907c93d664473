//! P10: comparison, equality, hashing.
use super::ty::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn order(c: &mut Ctx, a: &Args) {
    let (ar, br): (R, R) = (a.z(0), a.z(1));
    let mut o = Ordering::Equal;
    for k in (0..L).rev() {
        if ar[k] != br[k] {
            o = ar[k].cmp(&br[k]);
            break;
        }
    }
    c.hit((o as i8 + 1) as usize);
    let s = if ar[L - 1] >> 63 != br[L - 1] >> 63 { o.reverse() } else { o };
    c.hit(if s != o { 3 } else { 4 });
    macro_rules! go {
        ($t:ident, $p:literal, $o:ident) => {{
            let (x, y) = ($t::new(&ar), $t::new(&br));
            let (lt, eq) = ($o == Ordering::Less, $o == Ordering::Equal);
            ck!(c, concat!($p, ".cmp"), x.cmp(&y), $o);
            ck!(c, concat!($p, ".partial_cmp"), x.partial_cmp(&y), Some($o));
            ck!(c, concat!($p, ".cmp_const"), x.cmp_const(y), $o);
            ck!(c, concat!($p, " <"), x < y, lt);
            ck!(c, concat!($p, " <="), x <= y, lt || eq);
            ck!(c, concat!($p, " >"), x > y, !lt && !eq);
            ck!(c, concat!($p, " >="), x >= y, !lt);
            ck!(c, concat!($p, " =="), x == y, eq);
            ck!(c, concat!($p, " !="), x != y, !eq);
            ck!(c, concat!($p, ".eq_const"), x.eq_const(y), eq);
            ck!(c, concat!($p, ".eq_branched"), x.eq_branched(y), eq);
            ck!(c, concat!($p, ".lt_const"), x.lt_const(y), lt);
            ck!(c, concat!($p, ".le_const"), x.le_const(y), lt || eq);
            ck!(c, concat!($p, ".gt_const"), x.gt_const(y), !lt && !eq);
            ck!(c, concat!($p, ".ge_const"), x.ge_const(y), !lt);
            ck!(c, concat!($p, ".max"), x.max(y).raw(), if lt { br } else { ar });
            ck!(c, concat!($p, ".min"), x.min(y).raw(), if lt || eq { ar } else { br });
        }};
    }
    go!(U, "u", o);
    go!(I, "i", s);
}

fn clamp(c: &mut Ctx, a: &Args) {
    let (xr, lr, hr): (R, R, R) = (a.z(0), a.z(1), a.z(2));
    macro_rules! go {
        ($t:ident, $p:literal, $z:ident) => {{
            let (x, l, h) = ($z(&xr), $z(&lr), $z(&hr));
            if l.le(&h) {
                let e = if x.lt(&l) { lr } else if h.lt(&x) { hr } else { xr };
                ck!(c, concat!($p, ".clamp"), $t::new(&xr).clamp($t::new(&lr), $t::new(&hr)).raw(), e);
                c.hit(if e == xr { 0 } else { 1 });
            } else {
                c.hit(2);
            }
        }};
    }
    fn u(r: &R) -> Z { Z::from_u(r) }
    fn s(r: &R) -> Z { Z::from_s(r) }
    go!(U, "u", u);
    go!(I, "i", s);
}

/// Values that arise in different ways are equal and hash equally.
fn hash(c: &mut Ctx, a: &Args) {
    let r: R = a.z(0);
    macro_rules! go {
        ($t:ident, $p:literal) => {{
            let x = $t::new(&r);
            let h = |v: &$t| { let mut s = DefaultHasher::new(); v.hash(&mut s); s.finish() };
            let same = [
                $t::from_le_bytes(x.to_le_bytes()),
                $t::from_be_bytes(x.to_be_bytes()),
                x.wrapping_add($t::MAX).wrapping_sub($t::MAX),
                x.rotate_left(13).rotate_right(13),
                !!x,
                x.wrapping_neg().wrapping_neg(),
                x.wrapping_mul($t::from_u8(1)),
                x.swap_bytes().swap_bytes(),
                $t::from_str_radix(&x.to_string(), 10).unwrap(),
            ];
            for y in &same {
                ck!(c, concat!($p, " rebuilt =="), x == *y && *y == x && x.eq_const(*y), true);
                ck!(c, concat!($p, " rebuilt hash"), h(&x) == h(y), true);
                ck!(c, concat!($p, " rebuilt order"), x.cmp(y), Ordering::Equal);
            }
        }};
    }
    go!(U, "u");
    go!(I, "i");
}

/// The value with one bit or one whole digit changed, and its neighbours.
fn near(r: &Raw) -> Vec<Raw> {
    let mut v = vec![*r, space::add_small(L, r, 1), space::add_small(L, r, -1), space::neg(L, r)];
    for k in 0..BITS as usize {
        let mut x = *r;
        x[k / 64] ^= 1 << (k % 64);
        v.push(x);
        // one bit above, everything below it the other way round
        for d in 0..k / 64 {
            x[d] = !x[d];
        }
        v.push(x);
    }
    v
}

pub fn suites(t: Tier, out: &mut Vec<Suite>) {
    let cl = &["less", "equal", "greater", "orders differ", "orders agree"];
    out.push(suite(format!("P10/{}/pairs", UN), space::pairs(space::core(L, t), space::core(L, t)), order, cl));
    let v = match t {
        Tier::Tiny => space::lean(L, t).into_iter().step_by(6).collect(),
        Tier::Mid | Tier::Quick => space::core(L, t),
        Tier::Thorough => space::wide(L, Tier::Quick),
    };
    let near: (usize, Gen, String) = space::derived(v, "each single bit changed", near);
    out.push(suite(format!("P10/{}/near", UN), near, order, cl));
    let v: Vec<Raw> = match t {
        Tier::Tiny => space::lean(L, t).into_iter().step_by(3).collect(),
        _ => space::lean(L, t.min(Tier::Quick)).into_iter().step_by(if t <= Tier::Quick { 9 } else { 3 }).collect(),
    };
    out.push(suite(format!("P10/{}/clamp", UN), space::triples(v.clone(), v.clone(), v), clamp, &["inside", "moved", "bounds crossed"]));
    out.push(suite(format!("P10/{}/hash", UN), space::unary(space::core(L, t)), hash, &[]));
}

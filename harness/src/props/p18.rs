//! P18: carry-chained and widening primitives.
use super::ty::*;

fn flag<T: Big<L>>(p: (T, bool)) -> (R, bool) {
    (p.0.raw(), p.1)
}

fn carry(c: &mut Ctx, a: &Args) {
    let (ar, br): (R, R) = (a.z(0), a.z(1));
    let (ua, ub, ia, ib) = (U::new(&ar), U::new(&br), I::new(&ar), I::new(&br));
    for k in [false, true] {
        let z = Z::u(k as u128);
        let s = Z::from_u(&ar).add(&Z::from_u(&br)).add(&z);
        ck!(c, "u.carrying_add", flag(ua.carrying_add(ub, k)), (s.lo(), !s.fits_u(L)));
        c.hit(s.fits_u(L) as usize);
        let s = Z::from_u(&ar).sub(&Z::from_u(&br)).sub(&z);
        ck!(c, "u.borrowing_sub", flag(ua.borrowing_sub(ub, k)), (s.lo(), !s.fits_u(L)));
        let s = Z::from_s(&ar).add(&Z::from_s(&br)).add(&z);
        ck!(c, "i.carrying_add", flag(ia.carrying_add(ib, k)), (s.lo(), !s.fits_s(L)));
        c.hit(2 + s.fits_s(L) as usize);
        let s = Z::from_s(&ar).sub(&Z::from_s(&br)).sub(&z);
        ck!(c, "i.borrowing_sub", flag(ia.borrowing_sub(ib, k)), (s.lo(), !s.fits_s(L)));
    }
}

/// Schoolbook product of digit strings.
fn mulv(a: &[u64], b: &[u64]) -> Vec<u64> {
    let mut o = vec![0u64; a.len() + b.len()];
    for (i, x) in a.iter().enumerate() {
        let mut k = 0u128;
        for (j, y) in b.iter().enumerate() {
            let t = *x as u128 * *y as u128 + o[i + j] as u128 + k;
            o[i + j] = t as u64;
            k = t >> 64;
        }
        o[i + b.len()] = k as u64;
    }
    o
}
fn addv(a: &[u64], b: &[u64], mut k: bool) -> (Vec<u64>, bool) {
    let mut o = Vec::new();
    for i in 0..a.len() {
        let y = b.get(i).copied().unwrap_or(0);
        let t = a[i] as u128 + y as u128 + k as u128;
        o.push(t as u64);
        k = t >> 64 != 0;
    }
    (o, k)
}
fn part(v: &[u64], k: usize) -> R {
    let mut r = [0; L];
    r.copy_from_slice(&v[k * L..(k + 1) * L]);
    r
}

fn product(c: &mut Ctx, a: &Args) {
    let (ar, br): (R, R) = (a.z(0), a.z(1));
    let (x, y) = (U::new(&ar), U::new(&br));
    let p = mulv(&ar, &br);
    let (lo, hi) = (part(&p, 0), part(&p, 1));
    c.hit((hi != [0; L]) as usize);
    ck!(c, "u.widening_mul", { let p = x.widening_mul(y); (p.0.raw(), p.1.raw()) }, (lo, hi));
    ck!(c, "u.high_mul", x.high_mul(y).raw(), hi);
    // carries: none, the largest, and those next to an overflow of the low half
    let mut n = [0u64; L];
    for (d, s) in n.iter_mut().zip(&lo) {
        *d = !s;
    }
    let n1 = low(&space::add_small(L, &raw(&n), 1));
    for k in [[0; L], [u64::MAX; L], n, n1, ar] {
        let (s, over) = addv(&p, &k, false);
        debug_assert!(!over);
        ck!(c, "u.carrying_mul", { let p = x.carrying_mul(y, U::new(&k)); (p.0.raw(), p.1.raw()) }, (part(&s, 0), part(&s, 1)));
        c.hit(2 + (part(&s, 1) != hi) as usize);
    }
}

fn triple(c: &mut Ctx, a: &Args) {
    let (ar, br, kr): (R, R, R) = (a.z(0), a.z(1), a.z(2));
    let (s, _) = addv(&mulv(&ar, &br), &kr, false);
    ck!(c, "u.carrying_mul", { let p = U::new(&ar).carrying_mul(U::new(&br), U::new(&kr)); (p.0.raw(), p.1.raw()) }, (part(&s, 0), part(&s, 1)));
}

fn halves(c: &mut Ctx, a: &Args) {
    let r: R = a.z(0);
    let (mut lo, mut hi) = ([0; L], [0; L]);
    for k in 0..L / 2 {
        lo[k] = r[k];
        hi[k] = r[k + L / 2];
    }
    ck!(c, "u.low", U::new(&r).low().raw(), lo);
    ck!(c, "u.high", U::new(&r).high().raw(), hi);
}

/// Words for the upper digits of chained numbers.
fn corners() -> Vec<R> {
    let mut v = vec![[0; L], [u64::MAX; L], smin().lo(), smax().lo(), Z::u(1).lo(), Z::i(-2).lo()];
    let mut g = [0; L];
    for (k, d) in g.iter_mut().enumerate() {
        *d = space::G[k % 8];
    }
    v.push(g);
    v
}

/// Two and three word sums, differences and products, word by word.
fn chain(c: &mut Ctx, a: &Args) {
    let (a0, b0): (R, R) = (a.z(0), a.z(1));
    let cs = corners();
    let (a1, b1) = (cs[a.n[0] as usize], cs[a.n[1] as usize]);
    for top in &cs {
        // (top a1 a0) + (a1 b1 b0), unsigned and with a signed top word
        let cat = |x: &R, y: &R, z: &R| { let mut v = x.to_vec(); v.extend(y); v.extend(z); v };
        let (av, bv) = (cat(&a0, &a1, top), cat(&b0, &b1, &a1));
        for k in [false, true] {
            let (e, out) = addv(&av, &bv, k);
            let (s0, k0) = U::new(&a0).carrying_add(U::new(&b0), k);
            let (s1, k1) = U::new(&a1).carrying_add(U::new(&b1), k0);
            let (s2, k2) = U::new(top).carrying_add(U::new(&a1), k1);
            let (t2, o2) = I::new(top).carrying_add(I::new(&a1), k1);
            c.hit(k0 as usize * 2 + k1 as usize);
            ck!(c, "chained u.carrying_add", ((s0.raw(), s1.raw()), (s2.raw(), k2)), ((part(&e, 0), part(&e, 1)), (part(&e, 2), out)));
            let neg = |r: &R| r[L - 1] >> 63 == 1;
            let e2 = part(&e, 2);
            let so = neg(top) == neg(&a1) && neg(&e2) != neg(top);
            ck!(c, "chained i.carrying_add", (t2.raw(), o2), (e2, so));
            // subtraction: a - b - k = a + !b + !k
            let nb: Vec<u64> = bv.iter().map(|x| !x).collect();
            let (e, out) = addv(&av, &nb, !k);
            let (s0, k0) = U::new(&a0).borrowing_sub(U::new(&b0), k);
            let (s1, k1) = U::new(&a1).borrowing_sub(U::new(&b1), k0);
            let (s2, k2) = U::new(top).borrowing_sub(U::new(&a1), k1);
            let (t2, o2) = I::new(top).borrowing_sub(I::new(&a1), k1);
            ck!(c, "chained u.borrowing_sub", ((s0.raw(), s1.raw()), (s2.raw(), k2)), ((part(&e, 0), part(&e, 1)), (part(&e, 2), !out)));
            let e2 = part(&e, 2);
            let so = neg(top) != neg(&a1) && neg(&e2) != neg(top);
            ck!(c, "chained i.borrowing_sub", (t2.raw(), o2), (e2, so));
        }
    }
    // (a1 a0) * (b1 b0) by rows
    let (mut av, mut bv) = (a0.to_vec(), b0.to_vec());
    av.extend(&a1);
    bv.extend(&b1);
    let e = mulv(&av, &bv);
    let w = |r: &R| U::new(r);
    let (r0, k) = w(&a0).widening_mul(w(&b0));
    let (r1, r2) = w(&a1).carrying_mul(w(&b0), k);
    let (t, k) = w(&a0).widening_mul(w(&b1));
    let (r1, o) = r1.carrying_add(t, false);
    let (t, h) = w(&a1).carrying_mul(w(&b1), k);
    let (r2, o) = r2.carrying_add(t, o);
    let (r3, o) = h.carrying_add(U::new(&[0; L]), o);
    ck!(c, "product by rows", ((r0.raw(), r1.raw()), (r2.raw(), r3.raw())), ((part(&e, 0), part(&e, 1)), (part(&e, 2), part(&e, 3))));
    ck!(c, "product by rows, last carry", o, false);
}

pub fn suites(t: Tier, out: &mut Vec<Suite>) {
    let cl = &["unsigned carry", "unsigned none", "signed overflow", "signed none"];
    out.push(suite(format!("P18/{}/carry", UN), space::pairs(space::core(L, t), space::core(L, t)), carry, cl));
    let v = if t == Tier::Thorough { space::wide(L, Tier::Quick) } else { space::core(L, t) };
    out.push(suite(format!("P18/{}/carry-bounds", UN), space::derived(v, "partners at the bounds", |r| {
        crate::bounds::<W, L>(r).into_iter().flat_map(|x| (-1..=1).map(move |e| space::add_small(L, &x, e))).collect()
    }), carry, cl));
    let cl = &["no high half", "high half", "carry stays low", "carry into the high half"];
    let p = if t == Tier::Tiny || L > 8 && t <= Tier::Quick { space::lean(L, t) } else { space::core(L, t.min(Tier::Quick)) };
    out.push(suite(format!("P18/{}/product", UN), space::pairs(p.clone(), p), product, cl));
    let step = match t { Tier::Tiny => 5, Tier::Mid | Tier::Quick => 12, _ => 5 };
    let v: Vec<Raw> = space::lean(L, t.min(Tier::Quick)).into_iter().step_by(step).collect();
    out.push(suite(format!("P18/{}/product-carry", UN), space::triples(v.clone(), v.clone(), v), triple, &[]));
    if L % 2 == 0 {
        out.push(suite(format!("P18/{}/halves", UN), space::unary(space::wide(L, t)), halves, &[]));
    }
    // chains
    let v: Vec<Raw> = match t {
        Tier::Tiny => space::lean(L, t).into_iter().step_by(6).collect(),
        _ => space::lean(L, t.min(Tier::Quick)).into_iter().step_by(if t <= Tier::Quick { 7 } else { 2 }).collect(),
    };
    let n = corners().len();
    let d = format!("{} x {} low words x {} x {} x {} upper words", v.len(), v.len(), n, n, n);
    let step = if t == Tier::Tiny { 3 } else { 1 };
    let g: (usize, Gen, String) = (v.len(), Box::new(move |i, f| {
        let mut x = Args::new();
        x.z[0] = v[i];
        for w in &v {
            x.z[1] = *w;
            for p in (0..n).step_by(step) {
                for q in (0..n).step_by(step) {
                    x.n[0] = p as u128;
                    x.n[1] = q as u128;
                    f(&x);
                }
            }
        }
    }), d);
    out.push(suite(format!("P18/{}/chain", UN), g, chain, &["no carry", "second carry", "first carry", "both carries"]));
}

//! The enumerated value spaces. Everything is deterministic; every list is sorted and free of
//! duplicates.

use crate::engine::{Args, Gen, Raw, MAXL};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Tier {
    /// for interpreters: a few dozen values
    Tiny,
    /// for comparing many configurations
    Mid,
    Quick,
    Thorough,
}

pub type Vals = Vec<Raw>;

const M: u64 = u64::MAX;
const H: u64 = 1 << 63;
pub const A4: &[u64] = &[0, 1, H, M];
pub const A6: &[u64] = &[0, 1, H - 1, H, M - 1, M];
pub const A8: &[u64] = &[0, 1, 0xffff_ffff, 0x1_0000_0000, H - 1, H, M - 1, M];
pub const A12: &[u64] = &[
    0, 1, 2, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, H - 1, H, H + 1, 0xffff_ffff_0000_0000, M - 1, M,
];
/// Limbs without any structure.
pub const G: &[u64] = &[
    0x9e37_79b9_7f4a_7c15, 0xbf58_476d_1ce4_e5b9, 0x94d0_49bb_1331_11eb, 0x2545_f491_4f6c_dd1d,
    0x0123_4567_89ab_cdef, 0x6a09_e667_f3bc_c908, 0xd6e8_feb8_6659_fd93, 0x5851_f42d_4c95_7f2d,
];

pub fn norm(mut v: Vals) -> Vals {
    v.sort_by(|a, b| a.iter().rev().cmp(b.iter().rev()));
    v.dedup();
    v
}

fn trim(l: usize, mut r: Raw) -> Raw {
    for d in &mut r[l..] {
        *d = 0;
    }
    r
}

pub fn add_small(l: usize, r: &Raw, d: i64) -> Raw {
    let mut o = *r;
    let mut c = d as i128;
    for x in o[..l].iter_mut() {
        let t = *x as i128 + c;
        *x = t as u64;
        c = t >> 64;
    }
    trim(l, o)
}

pub fn neg(l: usize, r: &Raw) -> Raw {
    let mut o = *r;
    for x in &mut o[..l] {
        *x = !*x;
    }
    add_small(l, &o, 1)
}

/// +-2^k + e for every k and |e| <= d
pub fn pows(l: usize, d: i64) -> Vals {
    let mut v = Vec::new();
    for k in 0..64 * l {
        let mut r = [0; MAXL];
        r[k / 64] = 1 << (k % 64);
        for e in -d..=d {
            let x = add_small(l, &r, e);
            v.push(x);
            v.push(neg(l, &x));
        }
    }
    v
}

/// +-2^k + e for every k around the multiples of `step` and |e| <= d
pub fn pows_at(l: usize, d: i64, step: usize) -> Vals {
    let mut v = Vec::new();
    for k in (0..64 * l).filter(|k| (k + 1) % step < 2) {
        let mut r = [0; MAXL];
        r[k / 64] = 1 << (k % 64);
        for e in -d..=d {
            let x = add_small(l, &r, e);
            v.push(x);
            v.push(neg(l, &x));
        }
    }
    v
}

/// Every vector of limbs over the alphabet.
pub fn full(l: usize, alpha: &[u64]) -> Vals {
    let mut v = vec![[0u64; MAXL]];
    for i in 0..l {
        let mut w = Vec::with_capacity(v.len() * alpha.len());
        for r in &v {
            for &a in alpha {
                let mut x = *r;
                x[i] = a;
                w.push(x);
            }
        }
        v = w;
    }
    v
}

/// At most `dev` limbs differ from the background, over the alphabet.
pub fn dev(l: usize, alpha: &[u64], bg: u64, dev: usize) -> Vals {
    let mut base = [0; MAXL];
    for x in &mut base[..l] {
        *x = bg;
    }
    fn go(l: usize, from: usize, left: usize, cur: &Raw, alpha: &[u64], out: &mut Vals) {
        out.push(*cur);
        if left == 0 {
            return;
        }
        for i in from..l {
            for &a in alpha {
                if a != cur[i] {
                    let mut x = *cur;
                    x[i] = a;
                    go(l, i + 1, left - 1, &x, alpha, out);
                }
            }
        }
    }
    let mut out = Vec::new();
    go(l, 0, dev, &base, alpha, &mut out);
    out
}

/// The same with 32-bit half limbs.
pub fn dev32(l: usize, alpha: &[u32], bg: u32, dev: usize) -> Vals {
    fn go(n: usize, from: usize, left: usize, cur: &[u32; 2 * MAXL], alpha: &[u32], out: &mut Vec<[u32; 2 * MAXL]>) {
        out.push(*cur);
        if left == 0 {
            return;
        }
        for i in from..n {
            for &a in alpha {
                if a != cur[i] {
                    let mut x = *cur;
                    x[i] = a;
                    go(n, i + 1, left - 1, &x, alpha, out);
                }
            }
        }
    }
    let mut base = [0u32; 2 * MAXL];
    for x in &mut base[..2 * l] {
        *x = bg;
    }
    let mut o = Vec::new();
    go(2 * l, 0, dev, &base, alpha, &mut o);
    o.iter()
        .map(|x| {
            let mut r = [0; MAXL];
            for i in 0..2 * l {
                r[i / 2] |= (x[i] as u64) << (32 * (i % 2));
            }
            r
        })
        .collect()
}

/// All 32-bit half limbs over the alphabet.
pub fn full32(l: usize, alpha: &[u32]) -> Vals {
    let mut a = Vec::new();
    for &x in alpha {
        for &y in alpha {
            a.push(x as u64 | (y as u64) << 32);
        }
    }
    full(l, &a)
}

/// Every run of ones starting and ending on a multiple of `step`, and its complement.
pub fn runs(l: usize, step: usize) -> Vals {
    let n = 64 * l;
    let mut v = Vec::new();
    for i in (0..n).step_by(step) {
        let mut r = [0u64; MAXL];
        for j in i..n {
            r[j / 64] |= 1 << (j % 64);
            if (j + 1) % step == 0 {
                v.push(r);
                let mut c = r;
                for x in &mut c[..l] {
                    *x = !*x;
                }
                v.push(c);
            }
        }
    }
    v
}

/// Every pattern of `w` bits at every multiple of `w`, on a background of zeros and of ones.
pub fn windows(l: usize, w: usize) -> Vals {
    let mut v = Vec::new();
    for p in (0..64 * l).step_by(w) {
        for x in 0..1u64 << w {
            let mut r = [0; MAXL];
            r[p / 64] = x << (p % 64);
            v.push(r);
            for d in &mut r[..l] {
                *d = !*d;
            }
            v.push(r);
        }
    }
    v
}

/// 0..n and their negatives.
pub fn small(l: usize, n: i64) -> Vals {
    (-n..=n).map(|e| add_small(l, &[0; MAXL], e)).collect()
}

/// Unstructured numbers of every length in limbs (and their negatives).
pub fn generic(l: usize, per_len: usize) -> Vals {
    let mut v = Vec::new();
    for n in 1..=l {
        for s in 0..per_len {
            let mut r = [0; MAXL];
            for i in 0..n {
                r[i] = G[(i * 3 + s * 5 + n) % G.len()].rotate_left((7 * s + 11 * i) as u32);
            }
            v.push(r);
            v.push(neg(l, &r));
        }
    }
    v
}

/// The operand set for pairs.
pub fn core(l: usize, t: Tier) -> Vals {
    let mut v = Vec::new();
    match t {
        Tier::Tiny => {
            v.extend(dev(l, &[1, M], 0, 1));
            v.extend(dev(l, &[0, H], M, 1));
            v.extend(generic(l, 1));
            v.extend(small(l, 3));
            if l > 4 {
                v = norm(v);
                v = v.iter().step_by(3).copied().collect();
            }
        },
        Tier::Mid => {
            v.extend(lean(l, t));
            v.extend(dev(l, A8, 0, 1));
            v.extend(dev(l, A8, M, 1));
            v.extend(dev32(l, &[1, u32::MAX, 1 << 31], 0, 1));
            v.extend(runs(l, 32));
            v.extend(generic(l, 4));
        },
        Tier::Quick => {
            if l <= 8 {
                v.extend(pows(l, if l <= 6 { 2 } else { 1 }));
            } else {
                v.extend(pows(l, 0));
                v.extend(pows_at(l, 1, 8));
            }
            v.extend(runs(l, if l == 4 { 16 } else { 32 }));
            if l == 4 {
                v.extend(full(l, A8));
                v.extend(dev(l, G, 0, 1));
                v.extend(dev(l, G, M, 1));
                v.extend(dev32(l, &[0, 1, u32::MAX, 1 << 31], 0, 2));
                v.extend(dev32(l, &[0, 1, u32::MAX, 1 << 31], u32::MAX, 2));
            } else {
                let a = if l <= 8 { A4 } else { &[0, M][..] };
                v.extend(dev(l, a, 0, 2));
                v.extend(dev(l, a, M, 2));
            }
            v.extend(generic(l, 8));
            v.extend(small(l, 20));
        },
        Tier::Thorough => {
            v.extend(pows(l, if l <= 8 { 3 } else { 2 }));
            if l == 4 {
                v.extend(full(l, A12));
                v.extend(full32(l, &[0, u32::MAX]));
                v.extend(dev(l, G, 0, 2));
                v.extend(dev(l, G, M, 2));
                v.extend(dev32(l, &[0, 1, u32::MAX - 1, u32::MAX, 1 << 31], 0, 3));
                v.extend(dev32(l, &[0, 1, u32::MAX - 1, u32::MAX, 1 << 31], u32::MAX, 3));
            } else if l <= 8 {
                v.extend(dev(l, A6, 0, 2));
                v.extend(dev(l, A6, M, 2));
                v.extend(full(l, &[0, M]));
                v.extend(dev32(l, &[0, 1, u32::MAX], 0, 2));
            } else {
                v.extend(dev(l, A6, 0, 2));
                v.extend(dev(l, A4, M, 2));
            }
            v.extend(runs(l, if l == 4 { 8 } else { 32 }));
            v.extend(generic(l, 24));
            v.extend(small(l, 100));
        },
    }
    norm(v)
}

/// A smaller operand set, for pairs with expensive checks or for triples.
pub fn lean(l: usize, t: Tier) -> Vals {
    let mut v = Vec::new();
    match t {
        Tier::Tiny => {
            v.extend(dev(l, &[M], 0, 1));
            v.extend(generic(l, 1));
            v.extend(small(l, 2));
            v.push(add_small(l, &neg(l, &[0; MAXL]), -2));
            let mut min = [0; MAXL];
            min[l - 1] = H;
            v.push(min);
            v.push(add_small(l, &min, -1));
            if l > 4 {
                v = norm(v);
                v = v.iter().step_by(4).copied().collect();
                v.push(min);
                v.push(add_small(l, &min, -1));
            }
        },
        Tier::Mid => {
            v.extend(dev(l, A4, 0, 1));
            v.extend(dev(l, A4, M, 1));
            v.extend(pows_at(l, 1, if l == 4 { 16 } else { 64 }));
            v.extend(generic(l, 3));
            v.extend(small(l, 8));
        },
        Tier::Quick => {
            v.extend(dev(l, A4, 0, if l <= 6 { 2 } else { 1 }));
            v.extend(dev(l, A4, M, if l <= 6 { 2 } else { 1 }));
            v.extend(pows(l, 1).into_iter().step_by(match l { 4 => 1, 16 => 17, _ => 5 }));
            v.extend(generic(l, 3));
            v.extend(small(l, 8));
        },
        Tier::Thorough => {
            v.extend(dev(l, A6, 0, 2));
            v.extend(dev(l, A6, M, 2));
            v.extend(pows(l, 1));
            v.extend(generic(l, 8));
            v.extend(small(l, 30));
        },
    }
    norm(v)
}

/// The operand set for operations of one operand.
pub fn wide(l: usize, t: Tier) -> Vals {
    if t == Tier::Tiny {
        return core(l, t);
    }
    if t == Tier::Mid {
        let mut v = core(l, t);
        v.extend(lean(l, Tier::Quick));
        v.extend(windows(l, 4));
        return norm(v);
    }
    let mut v = core(l, t);
    let q = t == Tier::Quick;
    v.extend(runs(l, if q && l > 8 { 2 } else { 1 }));
    v.extend(windows(l, if q { 8 } else { 16 }));
    v.extend(small(l, if q { 3000 } else { 70000 }));
    v.extend(pows(l, if q { 8 } else { 40 }));
    if l == 4 {
        v.extend(full(l, if q { A8 } else { A12 }));
        if !q {
            v.extend(full32(l, &[0, 1, u32::MAX]));
        }
    } else {
        v.extend(dev(l, A8, 0, 2));
        v.extend(dev(l, A8, M, 2));
    }
    v.extend(generic(l, if q { 64 } else { 512 }));
    norm(v)
}

/// Digits around which quotient estimates go wrong.
pub const D9: &[u64] = &[0, 1, 2, 3, 1 << 61, H - 1, H, M - 1, M];
pub const D8: &[u32] = &[0, 1, 3, 1 << 29, (1 << 31) - 1, 1 << 31, u32::MAX - 1, u32::MAX];

/// Numbers of exactly `n` 64-bit digits over the alphabet, moved up by `up` digits.
pub fn digits(n: usize, alpha: &[u64], up: usize) -> Vals {
    full(n, alpha)
        .iter()
        .filter(|r| r[n - 1] != 0)
        .map(|r| {
            let mut x = [0; MAXL];
            for i in 0..n {
                x[i + up] = r[i];
            }
            x
        })
        .collect()
}

/// Numbers of exactly `n` 32-bit digits over the alphabet, moved up by `up` digits.
pub fn digits32(n: usize, alpha: &[u32], up: usize) -> Vals {
    let a: Vec<u64> = alpha.iter().map(|x| *x as u64).collect();
    full(n, &a)
        .iter()
        .filter(|r| r[n - 1] != 0)
        .map(|r| {
            let mut x = [0; MAXL];
            for i in 0..n {
                x[(i + up) / 2] |= r[i] << ((i + up) % 2 * 32);
            }
            x
        })
        .collect()
}

/// Dividends and divisors for long division with few digits.
pub fn knuth(l: usize, t: Tier) -> Vec<(&'static str, Vals, Vals)> {
    let mut o = Vec::new();
    if t == Tier::Tiny {
        let a: &[u64] = &[0, 1, H, M];
        o.push(("3by2-digits", digits(3, a, 0), digits(2, a, 0)));
        o.push(("3by2-half-digits", digits32(3, &[0, 1 << 31, u32::MAX], 0), digits32(2, &[1, 1 << 31, u32::MAX], 0)));
        return o;
    }
    let top = l - 4;
    if t == Tier::Mid {
        o.push(("4by2-digits", digits(4, A6, top), digits(2, A6, 0)));
        o.push(("4by3-digits", digits(4, A6, 0), digits(3, A4, 0)));
        o.push(("4by2-half-digits", digits32(4, &D8[..6], 0), digits32(2, D8, 0)));
        o.push(("4by3-half-digits", digits32(4, &[0, 1, 1 << 31, u32::MAX], 1), digits32(3, &[0, 1, 1 << 31, u32::MAX], 0)));
        return o;
    }
    o.push(("4by2-digits", digits(4, D9, top), digits(2, D9, 0)));
    o.push(("4by3-digits", digits(4, D9, 0), digits(3, D9, 0)));
    o.push(("4by4-digits", digits(4, A8, top), digits(4, A8, top)));
    o.push(("3by2-digits", digits(3, A12, 0), digits(2, A12, 0)));
    o.push(("4by2-half-digits", digits32(4, D8, 0), digits32(2, D8, 0)));
    o.push(("4by3-half-digits", digits32(4, D8, 1), digits32(3, D8, 0)));
    o.push(("4by3-half-digits-top", digits32(4, D8, 2 * l - 4), digits32(3, D8, 2 * l - 5)));
    o.push(("5by3-half-digits", digits32(5, D8, 1), digits32(3, D8, 0)));
    if t == Tier::Thorough {
        o.push(("4by4-digits-wide", digits(4, D9, top), digits(4, D9, top)));
        o.push(("4by3-digits-wide", digits(4, A12, 0), digits(3, A12, 0)));
        o.push(("4by3-digits-top", digits(4, D9, top), digits(3, D9, top)));
        o.push(("5by4-half-digits", digits32(5, D8, 0), digits32(4, D8, 0)));
        o.push(("5by4-half-digits-odd", digits32(5, D8, 1), digits32(4, D8, 1)));
    }
    o
}

/// For every divisor and quotient, the dividends around their product that fit.
pub fn products(qs: Vals, ds: Vals, l: usize) -> (usize, Gen, String) {
    let d = format!("{} quotients x {} divisors, dividends at and next to each multiple", qs.len(), ds.len());
    (ds.len(), Box::new(move |i, f| {
        let mut x = Args::new();
        x.z[1] = ds[i];
        if ds[i] == [0; MAXL] {
            return;
        }
        for q in &qs {
            let Some(n) = mul_fit(q, &ds[i], l) else { continue };
            for e in [-1, 0, 1] {
                x.z[0] = add_small(l, &n, e);
                f(&x);
            }
            x.z[0] = sub_raw(&add_raw(&n, &ds[i], l), &one(), l);
            f(&x);
        }
    }), d)
}

fn one() -> Raw {
    let mut r = [0; MAXL];
    r[0] = 1;
    r
}
pub fn add_raw(a: &Raw, b: &Raw, l: usize) -> Raw {
    let mut o = [0; MAXL];
    let mut c = 0u128;
    for i in 0..l {
        let t = a[i] as u128 + b[i] as u128 + c;
        o[i] = t as u64;
        c = t >> 64;
    }
    o
}
pub fn sub_raw(a: &Raw, b: &Raw, l: usize) -> Raw {
    add_raw(a, &neg(l, b), l)
}
/// The product if it fits `l` digits.
pub fn mul_fit(a: &Raw, b: &Raw, l: usize) -> Option<Raw> {
    let mut o = [0u64; MAXL];
    for i in 0..l {
        if a[i] == 0 {
            continue;
        }
        let mut c = 0u128;
        for j in 0..l {
            if i + j < l {
                let t = a[i] as u128 * b[j] as u128 + o[i + j] as u128 + c;
                o[i + j] = t as u64;
                c = t >> 64;
            } else if b[j] != 0 || c != 0 {
                return None;
            }
        }
        if c != 0 {
            return None;
        }
    }
    Some(o)
}

// ---- spaces built from value lists

pub fn unary(a: Vals) -> (usize, Gen, String) {
    const B: usize = 64;
    let n = a.len();
    let d = format!("{} values", n);
    (n.div_ceil(B), Box::new(move |i, f| {
        let mut x = Args::new();
        for v in &a[i * B..((i + 1) * B).min(a.len())] {
            x.z[0] = *v;
            f(&x);
        }
    }), d)
}

pub fn pairs(a: Vals, b: Vals) -> (usize, Gen, String) {
    let d = format!("{} x {} pairs", a.len(), b.len());
    (a.len(), Box::new(move |i, f| {
        let mut x = Args::new();
        x.z[0] = a[i];
        for v in &b {
            x.z[1] = *v;
            f(&x);
        }
    }), d)
}

pub fn triples(a: Vals, b: Vals, c: Vals) -> (usize, Gen, String) {
    let d = format!("{} x {} x {} triples", a.len(), b.len(), c.len());
    (a.len(), Box::new(move |i, f| {
        let mut x = Args::new();
        x.z[0] = a[i];
        for v in &b {
            x.z[1] = *v;
            for w in &c {
                x.z[2] = *w;
                f(&x);
            }
        }
    }), d)
}

/// Every value with every scalar.
pub fn with_scalar(a: Vals, n: Vec<u128>) -> (usize, Gen, String) {
    let d = format!("{} values x {} scalars", a.len(), n.len());
    (a.len(), Box::new(move |i, f| {
        let mut x = Args::new();
        x.z[0] = a[i];
        for v in &n {
            x.n[0] = *v;
            f(&x);
        }
    }), d)
}

/// For every value, a list of partners computed from it.
pub fn derived(a: Vals, what: &str, g: impl Fn(&Raw) -> Vals + Sync + Send + 'static) -> (usize, Gen, String) {
    let d = format!("{} values with {}", a.len(), what);
    (a.len(), Box::new(move |i, f| {
        let mut x = Args::new();
        x.z[0] = a[i];
        for v in norm(g(&a[i])) {
            x.z[1] = v;
            f(&x);
        }
    }), d)
}

/// Scalars around every power of two below 2^bits.
pub fn scalars(bits: u32, t: Tier) -> Vec<u128> {
    let mask = if bits == 128 { u128::MAX } else { (1 << bits) - 1 };
    let mut v: Vec<u128> = Vec::new();
    let e = match t {
        Tier::Tiny | Tier::Mid => 0,
        Tier::Quick => 1,
        Tier::Thorough => 3,
    };
    let step = if t == Tier::Tiny { (bits as usize / 2).max(1) } else { 1 };
    for k in (0..bits).step_by(step) {
        for d in 0..=e {
            v.push((1u128 << k).wrapping_add(d));
            v.push((1u128 << k).wrapping_sub(d));
            v.push((1u128 << k).wrapping_add(d).wrapping_neg());
            v.push((1u128 << k).wrapping_sub(d).wrapping_neg());
        }
    }
    let g = if t == Tier::Tiny { 1 } else { G.len() };
    for i in 0..g {
        v.push(G[i] as u128 | (G[(i + 3) % G.len()] as u128) << 64);
        v.push(G[i] as u128);
    }
    if t > Tier::Mid && bits == 128 {
        v.extend(D9.iter().flat_map(|x| D9.iter().map(move |y| *x as u128 | (*y as u128) << 64)));
    }
    if t > Tier::Mid && bits == 64 {
        v.extend(D8.iter().flat_map(|x| D8.iter().map(move |y| *x as u128 | (*y as u128) << 32)));
    }
    for i in 0..if t == Tier::Tiny { 3 } else { 17 } {
        v.push(i);
        v.push(u128::MAX - i);
    }
    for x in &mut v {
        *x &= mask;
    }
    v.sort();
    v.dedup();
    v
}

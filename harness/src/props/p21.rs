//! P21: histories of operations on two unsigned registers and a signed one.
use super::ty::*;
use std::hash::{Hash, Hasher};

/// The registers of the implementation.
#[derive(Clone, Copy)]
struct Real {
    a: U,
    b: U,
    s: I,
}
/// The registers of the model: numbers already reduced to the width.
#[derive(Clone, Copy)]
struct Model {
    a: Z,
    b: Z,
    s: Z,
}

fn u(z: &Z) -> Z {
    Z::from_u::<L>(&z.lo())
}
fn s(z: &Z) -> Z {
    Z::from_s::<L>(&z.lo())
}
fn bitwise(x: &Z, y: &Z, f: impl Fn(u64, u64) -> u64) -> Z {
    let (x, y): (R, R) = (x.lo(), y.lo());
    Z::from_u::<L>(&std::array::from_fn(|k| f(x[k], y[k])))
}
fn rot(x: &Z, n: u32) -> Z {
    let n = n % BITS;
    if n == 0 { *x } else { bitwise(&u(&x.shl(n)), &x.shr(BITS - n), |p, q| p | q) }
}
fn flip(x: &Z, f: impl Fn(u64) -> u64) -> Z {
    let x: R = x.lo();
    Z::from_u::<L>(&std::array::from_fn(|k| f(x[L - 1 - k])))
}
const K64: u64 = 0xfedc_ba98_7654_3211;
const K128: u128 = 0xf000_0000_0000_0000_ffff_ffff_ffff_fff1;

pub const OPS: [&str; 56] = [
    "a+b", "a-b", "a*b", "div_rem(a,b)", "a*u64", "a+u128", "div_rem(a,u64)", "swap", "!a", "a&b", "a|b", "a^b", "a<<1",
    "a>>1", "a<<63", "a>>65", "rotl(a,13)", "rotr(a,BITS/2+1)", "swap_bytes", "reverse_bits", "s+b", "s*a", "-s",
    "a=|s|", "a=s as unsigned", "s=a as signed", "s>>7", "s/b", "s%b", "s rem_euclid b", "be bytes", "le bytes",
    "to_be/from_be", "print/parse a", "print/parse s", "hex", "radix 7", "checked a+b", "overflowing a-b",
    "saturating a*b", "a^3", "a=count_ones", "a=leading_zeros", "b=|a-b|", "a=midpoint", "a=high(a*b)", "a=a as u128",
    "s=a as i64", "a=max", "a+=&b", "s-=&s'", "compare", "checked s*b", "b=a", "s=s<<(a%BITS)", "a div_ceil b",
];

fn step(op: u8, x: &mut Real, m: &mut Model, c: &mut Ctx) {
    let name = OPS[op as usize];
    let sb = s(&m.b);
    c.begin(name);
    match op {
        0 => { x.a = x.a.wrapping_add(x.b); m.a = u(&m.a.add(&m.b)) }
        1 => { x.a = x.a.wrapping_sub(x.b); m.a = u(&m.a.sub(&m.b)) }
        2 => { x.a = x.a.wrapping_mul(x.b); m.a = u(&m.a.mul(&m.b)) }
        3 => if !m.b.is_zero() {
            (x.a, x.b) = x.a.div_rem(x.b);
            (m.a, m.b) = m.a.divrem(&m.b);
        },
        4 => { x.a = x.a.wrapping_mul_u64(K64); m.a = u(&m.a.mul(&Z::u(K64 as u128))) }
        5 => { x.a = x.a.wrapping_add_u128(K128); m.a = u(&m.a.add(&Z::u(K128))) }
        6 => {
            let (q, r) = x.a.div_rem_u64(K64);
            let (zq, zr) = m.a.divrem(&Z::u(K64 as u128));
            x.a = q;
            m.a = zq;
            c.check(r, zr.lo::<1>()[0]);
        }
        7 => { std::mem::swap(&mut x.a, &mut x.b); std::mem::swap(&mut m.a, &mut m.b) }
        8 => { x.a = !x.a; m.a = u(&m.a.not()) }
        9 => { x.a = x.a & x.b; m.a = bitwise(&m.a, &m.b, |p, q| p & q) }
        10 => { x.a |= x.b; m.a = bitwise(&m.a, &m.b, |p, q| p | q) }
        11 => { x.a ^= &x.b; m.a = bitwise(&m.a, &m.b, |p, q| p ^ q) }
        12 => { x.a = x.a << 1u32; m.a = u(&m.a.shl(1)) }
        13 => { x.a >>= 1i32; m.a = m.a.shr(1) }
        14 => { x.a = x.a.wrapping_shl(63); m.a = u(&m.a.shl(63)) }
        15 => { x.a = x.a.wrapping_shr(65); m.a = m.a.shr(65) }
        16 => { x.a = x.a.rotate_left(13); m.a = rot(&m.a, 13) }
        17 => { x.a = x.a.rotate_right(BITS / 2 + 1); m.a = rot(&m.a, BITS / 2 - 1) }
        18 => { x.a = x.a.swap_bytes(); m.a = flip(&m.a, u64::swap_bytes) }
        19 => { x.a = x.a.reverse_bits(); m.a = flip(&m.a, u64::reverse_bits) }
        20 => { x.s = x.s.wrapping_add(I::from_unsigned(x.b)); m.s = s(&m.s.add(&sb)) }
        21 => { x.s = x.s.wrapping_mul(x.a.as_signed()); m.s = s(&m.s.mul(&s(&m.a))) }
        22 => { x.s = x.s.wrapping_neg(); m.s = s(&m.s.neg()) }
        23 => { x.a = x.s.unsigned_abs(); m.a = m.s.abs() }
        24 => { x.a = x.s.as_unsigned(); m.a = u(&m.s) }
        25 => { x.s = x.a.cast_signed(); m.s = s(&m.a) }
        26 => { x.s = x.s >> 7u8; m.s = m.s.shr(7) }
        27 => if !sb.is_zero() { x.s = x.s.wrapping_div(x.b.as_signed()); m.s = s(&m.s.divrem(&sb).0) },
        28 => if !sb.is_zero() { x.s = x.s.wrapping_rem(x.b.as_signed()); m.s = m.s.divrem(&sb).1 },
        29 => if !sb.is_zero() {
            x.s = x.s.wrapping_rem_euclid(x.b.as_signed());
            let r = m.s.divrem(&sb).1;
            m.s = if r.is_neg() { r.add(&sb.abs()) } else { r };
        },
        30 => x.a = U::from_be_bytes(x.a.to_be_bytes()),
        31 => x.s = I::from_le_bytes(x.s.to_le_bytes()),
        32 => x.a = U::from_be(x.a.to_be()),
        33 => match x.a.to_string().parse::<U>() { Ok(v) => x.a = v, Err(_) => c.check("parse error", "parsed") },
        34 => match format!("{:+}", x.s).parse::<I>() { Ok(v) => x.s = v, Err(_) => c.check("parse error", "parsed") },
        35 => match U::from_str_radix(&format!("{:x}", x.a), 16) { Ok(v) => x.a = v, Err(_) => c.check("parse error", "parsed") },
        36 => {
            let mut buf = [0u8; BITS as usize + 1];
            let t = x.s.to_str_radix(&mut buf, 7);
            match std::str::from_utf8(t).ok().and_then(|t| I::from_str_radix(t, 7).ok()) { Some(v) => x.s = v, None => c.check("parse error", "parsed") }
        }
        37 => {
            let e = m.a.add(&m.b);
            let r = x.a.checked_add(x.b);
            c.check(r.is_some(), e.fits_u(L));
            c.hit(e.fits_u(L) as usize);
            if let Some(v) = r { x.a = v; m.a = u(&e) }
        }
        38 => {
            let e = m.a.sub(&m.b);
            let r = x.a.overflowing_sub(x.b);
            c.check(r.1, e.is_neg());
            c.hit(!e.is_neg() as usize);
            x.a = r.0;
            m.a = u(&e);
        }
        39 => { x.a = x.a.saturating_mul(x.b); m.a = Z::from_u(&sat_u(&m.a.mul(&m.b))) }
        40 => { x.a = x.a.wrapping_pow(3); m.a = u(&u(&m.a.mul(&m.a)).mul(&m.a)) }
        41 => { let r: R = m.a.lo(); x.a = U::from_u32(x.a.count_ones()); m.a = Z::u(r.iter().map(|d| d.count_ones()).sum::<u32>() as u128) }
        42 => { x.a = U::from_u32(x.a.leading_zeros()); m.a = Z::u((BITS - m.a.bits()) as u128) }
        43 => { x.b = x.a.abs_diff(x.b); m.b = m.a.sub(&m.b).abs() }
        44 => { x.a = x.a.midpoint(x.b); m.a = m.a.add(&m.b).shr(1) }
        45 => { x.a = x.a.high_mul(x.b); m.a = m.a.mul(&m.b).shr(BITS) }
        46 => { x.a = U::from_u128(x.a.as_u128()); m.a = Z::from_u::<2>(&m.a.lo()) }
        47 => { x.s = I::from_i64(x.a.as_i64()); m.s = Z::from_s::<1>(&m.a.lo()) }
        48 => { x.a = x.a.max(x.b); if m.a.lt(&m.b) { m.a = m.b } }
        49 => if m.a.add(&m.b).fits_u(L) { x.a += &x.b; m.a = m.a.add(&m.b) },
        50 => if m.s.sub(&sb).fits_s(L) { let t = x.b.as_signed(); x.s -= &t; m.s = m.s.sub(&sb) },
        51 => {
            c.check(x.a.cmp(&x.b), m.a.cmp(&m.b));
            c.check(x.s.partial_cmp(&x.b.as_signed()), Some(m.s.cmp(&sb)));
            c.check(x.a == x.b, m.a == m.b);
            let h = |v: U| { let mut h = std::collections::hash_map::DefaultHasher::new(); v.hash(&mut h); h.finish() };
            // an equal value built directly is the same value
            let d = U::new(&m.a.lo());
            c.check((d == x.a, h(d) == h(x.a)), (true, true));
        }
        52 => {
            let e = m.s.mul(&sb);
            let r = x.s.checked_mul(x.b.as_signed());
            c.check(r.is_some(), e.fits_s(L));
            c.hit(e.fits_s(L) as usize);
            if let Some(v) = r { x.s = v; m.s = s(&e) }
        }
        53 => { x.b = x.a; m.b = m.a }
        54 => {
            let n = m.a.divrem(&Z::u(BITS as u128)).1.lo::<1>()[0] as u32;
            x.s = x.s.wrapping_shl(x.a.wrapping_rem(U::from_u32(BITS)).as_u32());
            m.s = s(&m.s.shl(n));
        }
        _ => if !m.b.is_zero() {
            x.a = x.a.div_ceil(x.b);
            let (q, r) = m.a.divrem(&m.b);
            m.a = if r.is_zero() { q } else { q.add(&Z::u(1)) };
        },
    }
    let got = (x.a.raw(), (x.b.raw(), x.s.raw()));
    c.check(got, (m.a.lo(), (m.b.lo(), m.s.lo())));
}

fn history(c: &mut Ctx, a: &Args) {
    let (ar, br, sr): (R, R, R) = (a.z(0), a.z(1), a.z(2));
    let mut x = Real { a: U::new(&ar), b: U::new(&br), s: I::new(&sr) };
    let mut m = Model { a: Z::from_u(&ar), b: Z::from_u(&br), s: Z::from_s(&sr) };
    for op in &a.s {
        step(*op, &mut x, &mut m, c);
        if c.fail.is_some() {
            return;
        }
    }
}

fn seeds(n: usize) -> Vec<[Raw; 3]> {
    let z = |z: Z| raw(&z.lo());
    let g = |k: usize| { let mut r = [0; MAXL]; for (i, d) in r.iter_mut().take(L).enumerate() { *d = space::G[(i + k) % 8] } r };
    let base = [
        [g(0), g(3), g(5)],
        [z(umax()), z(Z::pow2(BITS / 2)), z(smin())],
        [z(Z::pow2(BITS - 64).sub(&Z::u(1))), z(Z::u(10)), z(Z::i(-1))],
        [z(Z::pow2(BITS - 1)), z(umax()), z(smax())],
        [z(Z::u(0)), z(Z::u(1)), z(Z::u(0))],
        [z(smax()), z(Z::pow2(64)), z(smin().add(&Z::u(1)))],
        [g(1), z(Z::pow2(BITS - 65)), g(6)],
        [z(Z::pow2(64).sub(&Z::u(1))), z(Z::pow2(128).sub(&Z::pow2(64))), z(Z::pow2(63).neg())],
    ];
    let vals = [z(Z::u(0)), z(Z::u(1)), z(umax()), z(smin()), z(smax()), g(0), g(4), z(Z::pow2(BITS / 2)), z(Z::pow2(64).neg()), z(Z::u(K64 as u128))];
    let mut v = base.to_vec();
    for (i, a) in vals.iter().enumerate() {
        for (j, b) in vals.iter().enumerate() {
            v.push([*a, *b, vals[(i + 3 * j) % vals.len()]]);
        }
    }
    v.truncate(n);
    v
}

fn histories(seeds: Vec<[Raw; 3]>, depth: usize, ops: Vec<u8>) -> (usize, Gen, String) {
    let d = format!("{} initial states x all {}^{} histories", seeds.len(), ops.len(), depth);
    let k = ops.len();
    (seeds.len() * k, Box::new(move |i, f| {
        let mut x = Args::new();
        x.z = seeds[i / k];
        x.s = vec![ops[i % k]; depth];
        let mut ix = vec![0; depth];
        loop {
            for q in 1..depth {
                x.s[q] = ops[ix[q]];
            }
            f(&x);
            let mut q = depth - 1;
            while q > 0 {
                ix[q] += 1;
                if ix[q] < k {
                    break;
                }
                ix[q] = 0;
                q -= 1;
            }
            if q == 0 {
                return;
            }
        }
    }), d)
}

pub fn suites(t: Tier, out: &mut Vec<Suite>) {
    let all: Vec<u8> = (0..OPS.len() as u8).collect();
    let cl = &["overflow reported", "no overflow"];
    let mut go = |n: &str, g| out.push(suite(format!("P21/{}/{}", UN, n), g, history, cl));
    match t {
        Tier::Tiny => go("two", histories(seeds(2), 2, all)),
        Tier::Mid => {
            go("two", histories(seeds(40), 2, all.clone()));
            go("three", histories(seeds(1), 3, all));
        },
        Tier::Quick => {
            go("two", histories(seeds(108), 2, all.clone()));
            go("three", histories(seeds(if L > 8 { 10 } else { 24 }), 3, all.clone()));
            // a smaller alphabet, deeper
            go("five", histories(seeds(2), 5, vec![1, 2, 3, 7, 17, 21, 25, 26, 43]));
            if L == 4 {
                go("four", histories(seeds(1), 4, all));
            }
        },
        Tier::Thorough => {
            go("three", histories(seeds(108), 3, all.clone()));
            go("four", histories(seeds(if L > 8 { 1 } else { 4 }), 4, all.clone()));
            go("six", histories(seeds(4), 6, vec![1, 2, 3, 7, 17, 21, 25, 26, 43]));
        },
    }
}

//! P08: rotation, byte swap, bit reversal.
use super::ty::*;

/// bit i of the result is bit (i - n mod BITS) of x
fn rotl(x: &R, n: u32) -> R {
    let (q, s) = ((n / 64) as usize, n % 64);
    let mut o = [0; L];
    for i in 0..L {
        o[i] = x[(i + 2 * L - q) % L] << s;
        if s != 0 {
            o[i] |= x[(i + 2 * L - q - 1) % L] >> (64 - s);
        }
    }
    o
}

fn rotate(c: &mut Ctx, a: &Args) {
    let x: R = a.z(0);
    let (u, i) = (U::new(&x), I::new(&x));
    let n = a.n[0] as u32;
    let m = n % BITS;
    c.hit(if n >= BITS { 2 } else if m % 64 == 0 { 1 } else { 0 });
    let (l, r) = (rotl(&x, m), rotl(&x, (BITS - m) % BITS));
    ck!(c, "u.rotate_left", u.rotate_left(n).raw(), l);
    ck!(c, "u.rotate_right", u.rotate_right(n).raw(), r);
    ck!(c, "i.rotate_left", i.rotate_left(n).raw(), l);
    ck!(c, "i.rotate_right", i.rotate_right(n).raw(), r);
}

fn mirror(c: &mut Ctx, a: &Args) {
    let x: R = a.z(0);
    let (u, i) = (U::new(&x), I::new(&x));
    let mut by = [0u64; L];
    let mut bi = [0u64; L];
    for k in 0..8 * L {
        let j = 8 * L - 1 - k;
        by[j / 8] |= (x[k / 8] >> (k % 8 * 8) & 255) << (j % 8 * 8);
    }
    for k in 0..64 * L {
        let j = 64 * L - 1 - k;
        bi[j / 64] |= (x[k / 64] >> (k % 64) & 1) << (j % 64);
    }
    ck!(c, "u.swap_bytes", u.swap_bytes().raw(), by);
    ck!(c, "i.swap_bytes", i.swap_bytes().raw(), by);
    ck!(c, "u.reverse_bits", u.reverse_bits().raw(), bi);
    ck!(c, "i.reverse_bits", i.reverse_bits().raw(), bi);
}

pub fn suites(t: Tier, out: &mut Vec<Suite>) {
    let mut n: Vec<u128> = space::scalars(32, t);
    if t == Tier::Tiny {
        n.extend([7, 31, 33, 64, 65, 100, 127, 128, 192, BITS as u128 - 1, BITS as u128, BITS as u128 + 5]);
    } else {
        n.extend(0..=2 * BITS as u128);
        n.extend((0..=BITS as u128).map(|k| u32::MAX as u128 - k));
    }
    n.sort();
    n.dedup();
    let vals = match t {
        Tier::Tiny => space::lean(L, t),
        Tier::Mid | Tier::Quick if L <= 6 => space::wide(L, t),
        Tier::Mid | Tier::Quick => space::core(L, t),
        Tier::Thorough => space::wide(L, Tier::Quick),
    };
    out.push(suite(format!("P08/{}/rotate", UN), space::with_scalar(vals, n), rotate, &["in range", "whole limbs", "out of range"]));
    out.push(suite(format!("P08/{}/mirror", UN), space::unary(space::wide(L, t)), mirror, &[]));
}

//! Bounded exhaustive checking of the `i256` crate against a reference model.
#![allow(long_running_const_eval, dead_code, unused_imports, unused_macros, clippy::all)]

#[macro_use]
pub mod engine;
pub mod model;
#[macro_use]
pub mod scalar;
pub mod selftest;
pub mod space;

use engine::{Suite, MAXL};
use space::Tier;

/// The only two functions the harness trusts for getting values in and out: the raw limb array.
pub trait Big<const L: usize>: Copy {
    fn new(r: &[u64; L]) -> Self;
    fn raw(self) -> [u64; L];
}

macro_rules! big {
    ($($t:ident $l:literal)*) => ($(
        impl Big<$l> for ::i256::$t {
            #[inline(always)]
            #[cfg(not(any(feature = "limb32", not(target_pointer_width = "64"))))]
            fn new(r: &[u64; $l]) -> Self {
                let mut a = *r;
                if cfg!(target_endian = "big") {
                    a.reverse();
                }
                Self::from_ne_limbs(a)
            }
            #[inline(always)]
            #[cfg(not(any(feature = "limb32", not(target_pointer_width = "64"))))]
            fn raw(self) -> [u64; $l] {
                let mut a = self.to_ne_limbs();
                if cfg!(target_endian = "big") {
                    a.reverse();
                }
                a
            }
            #[inline(always)]
            #[cfg(any(feature = "limb32", not(target_pointer_width = "64")))]
            fn new(r: &[u64; $l]) -> Self {
                let mut a = [0u32; 2 * $l];
                for i in 0..2 * $l {
                    let k = if cfg!(target_endian = "big") { 2 * $l - 1 - i } else { i };
                    a[k] = (r[i / 2] >> (32 * (i % 2))) as u32;
                }
                Self::from_ne_limbs(a)
            }
            #[inline(always)]
            #[cfg(any(feature = "limb32", not(target_pointer_width = "64")))]
            fn raw(self) -> [u64; $l] {
                let a = self.to_ne_limbs();
                let mut r = [0; $l];
                for i in 0..2 * $l {
                    let k = if cfg!(target_endian = "big") { 2 * $l - 1 - i } else { i };
                    r[i / 2] |= (a[k] as u64) << (32 * (i % 2));
                }
                r
            }
        }
    )*)
}
big! { U256 4 I256 4 U384 6 I384 6 U512 8 I512 8 U1024 16 I1024 16 }

macro_rules! width {
    ($U:ident, $I:ident, $l:literal, $un:literal, $in:literal) => {
        pub mod ty {
            pub use crate::engine::{may_panic, Args, Ctx, Dep, Gen, Out, Raw, Suite, MAXL};
            pub use crate::space::{self, Tier};
            pub use crate::{checks_on, suite, Big};
            pub use std::cmp::Ordering;
            pub type U = ::i256::$U;
            pub type I = ::i256::$I;
            pub const L: usize = $l;
            pub const W: usize = 2 * $l + 1;
            pub const BITS: u32 = 64 * $l;
            pub type Z = crate::model::Z<W>;
            pub type R = [u64; L];
            pub const UN: &str = $un;
            pub const IN: &str = $in;

            pub fn raw(r: &R) -> Raw {
                let mut x = [0; MAXL];
                x[..L].copy_from_slice(r);
                x
            }
            pub fn low(r: &Raw) -> R {
                let mut x = [0; L];
                x.copy_from_slice(&r[..L]);
                x
            }
            pub fn umax() -> Z {
                Z::from_u(&[u64::MAX; L])
            }
            pub fn smin() -> Z {
                Z::pow2(BITS - 1).neg()
            }
            pub fn smax() -> Z {
                Z::pow2(BITS - 1).sub(&Z::u(1))
            }
            /// the result if it fits
            pub fn fit_u(z: &Z) -> Option<R> {
                if z.fits_u(L) { Some(z.lo()) } else { None }
            }
            pub fn fit_s(z: &Z) -> Option<R> {
                if z.fits_s(L) { Some(z.lo()) } else { None }
            }
            pub fn sat_u(z: &Z) -> R {
                if z.is_neg() { [0; L] } else { fit_u(z).unwrap_or([u64::MAX; L]) }
            }
            pub fn sat_s(z: &Z) -> R {
                fit_s(z).unwrap_or(if z.is_neg() { smin().lo() } else { smax().lo() })
            }
            /// what an operator gives (`None`: panic)
            pub fn op_u(z: &Z) -> Option<R> {
                if checks_on() { fit_u(z) } else { Some(z.lo()) }
            }
            pub fn op_s(z: &Z) -> Option<R> {
                if checks_on() { fit_s(z) } else { Some(z.lo()) }
            }
        }
    };
}
mod w1024;
mod w256;
mod w384;
mod w512;
#[cfg(feature = "p24")]
#[path = "props/p24.rs"]
mod p24;

/// Whether this build has overflow checks.
pub fn checks_on() -> bool {
    cfg!(debug_assertions)
}

/// Partners that put a sum, difference, product or quotient right at a bound of either type.
pub fn bounds<const W: usize, const L: usize>(r: &engine::Raw) -> Vec<engine::Raw> {
    type Z<const W: usize> = model::Z<W>;
    let mut xr = [0; L];
    xr.copy_from_slice(&r[..L]);
    let (one, bits) = (Z::<W>::u(1), 64 * L as u32);
    let (umax, smin) = (Z::<W>::pow2(bits).sub(&one), Z::<W>::pow2(bits - 1).neg());
    let mut v: Vec<Z<W>> = Vec::new();
    for x in [Z::from_u(&xr), Z::from_s(&xr)] {
        for b in [Z::u(0), umax, smin, smin.neg().sub(&one), umax.add(&one), smin.neg()] {
            v.push(b.sub(&x));
            v.push(x.sub(&b));
            if !x.is_zero() {
                v.push(b.divrem(&x).0);
            }
        }
    }
    let mut o = Vec::new();
    for z in v {
        for d in -2..=2 {
            let l: [u64; L] = z.add(&Z::i(d)).lo();
            let mut x = [0; MAXL];
            x[..L].copy_from_slice(&l);
            o.push(x);
        }
    }
    o
}

pub fn suite(
    name: String, space: (usize, engine::Gen, String), check: fn(&mut engine::Ctx, &engine::Args),
    classes: &'static [&'static str],
) -> Suite {
    Suite { name, desc: space.2, outer: space.0, gen: space.1, check, classes, dep: engine::Dep::Nothing }
}

fn suites(t: Tier, widths: &str) -> Vec<Suite> {
    let mut out = Vec::new();
    let all = widths.is_empty();
    if all || widths.contains("256") {
        w256::suites(t, &mut out);
    }
    if all || widths.contains("384") {
        w384::suites(t, &mut out);
    }
    if all || widths.contains("512") {
        w512::suites(t, &mut out);
    }
    if all || widths.contains("1024") {
        w1024::suites(t, &mut out);
    }
    #[cfg(feature = "p24")]
    if want("P24") {
        p24::suites(t, &mut out);
    }
    out
}

static ONLY: std::sync::OnceLock<String> = std::sync::OnceLock::new();

/// Whether the suites of a property are wanted (`--props P01,P02`, default all compiled in).
pub fn want(p: &str) -> bool {
    ONLY.get().map_or(true, |o| o.is_empty() || o.contains(p))
}

static DENSE: std::sync::OnceLock<bool> = std::sync::OnceLock::new();

/// Whether the spaces for foreign targets should not be thinned out.
pub fn dense() -> bool {
    DENSE.get().map_or(false, |d| *d)
}

fn main() {
    let mut args = std::env::args().skip(1);
    let cmd = args.next().unwrap_or_default();
    let mut opt = std::collections::HashMap::new();
    while let Some(k) = args.next() {
        opt.insert(k, args.next().expect("value"));
    }
    let get = |k: &str| opt.get(k).cloned().unwrap_or_default();
    let tier = match get("--tier").as_str() {
        "tiny" => Tier::Tiny,
        "mid" => Tier::Mid,
        "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    };
    let threads = get("--threads").parse().unwrap_or(8);
    let _ = ONLY.set(get("--props"));
    // the build script of the crate under test must have seen the same overflow-check mode
    std::panic::set_hook(Box::new(|_| {}));
    let on = std::panic::catch_unwind(|| std::hint::black_box(255u8) + std::hint::black_box(1)).is_err();
    let _ = std::panic::take_hook();
    assert_eq!(on, checks_on());
    let _ = DENSE.set(!get("--dense").is_empty());
    let mut s = suites(tier, &get("--widths"));
    let m = get("--match");
    if !m.is_empty() {
        s.retain(|x| m.split(',').any(|k| x.name.ends_with(k)));
    }
    engine::install_hook();
    let code = match cmd.as_str() {
        "run" => engine::run(&s, threads, &get("--json"), &get("--fail")),
        "replay" => engine::replay(&s, &get("--suite"), &get("--args")),
        "record" => {
            engine::record(&s, &get("--suite"), &get("--op"), &get("--args"), threads);
            0
        },
        "list" => {
            for x in &s {
                println!("{} {} {}", x.name, x.outer, x.desc);
            }
            0
        },
        "selftest" => {
            println!("{} comparisons", selftest::run());
            0
        },
        _ => {
            eprintln!("usage: harness run|replay|record|list|selftest ...");
            2
        },
    };
    std::process::exit(code);
}

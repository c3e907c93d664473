//! P22: every operation, results recorded so that configurations can be compared. No model here:
//! the table has to be cheap enough for an interpreter of foreign targets.
use super::ty::*;
use ::i256::{ILimb, IWide, ULimb, UWide};
use std::hash::{Hash, Hasher};

fn o<T: Big<L>>(x: Option<T>) -> Option<R> {
    x.map(Big::raw)
}
fn f<T: Big<L>>(x: (T, bool)) -> (R, bool) {
    (x.0.raw(), x.1)
}
fn p<T: Big<L>, S: Big<L>>(x: (T, S)) -> (R, R) {
    (x.0.raw(), x.1.raw())
}
/// A hash that sees what is written, not in which pieces.
struct Eq1(u64);
impl Hasher for Eq1 {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
}
fn h<T: Hash>(x: &T) -> u64 {
    let mut s = Eq1(1);
    x.hash(&mut s);
    s.finish()
}

fn by_limb(g: impl Fn(usize) -> ULimb) -> R {
    let n = 64 / ULimb::BITS as usize;
    std::array::from_fn(|k| (0..n).map(|q| (g(n * k + q) as u64) << (32 * q)).fold(0, |s, x| s | x))
}
fn by_wide(g: impl Fn(usize) -> UWide) -> R {
    let n = UWide::BITS as usize / 64;
    std::array::from_fn(|k| (g(k / n) as u128 >> (64 * (k % n))) as u64)
}

macro_rules! note {
    ($c:ident; $($e:expr;)*) => {{$(
        $c.begin(stringify!($e));
        let got = $e;
        $c.note(&got);
    )*}};
}
/// the same for things that may panic
macro_rules! notep {
    ($c:ident; $($e:expr;)*) => {{$(
        $c.begin(stringify!($e));
        let got = may_panic(|| $e);
        $c.note(&got);
    )*}};
}

fn binary(c: &mut Ctx, x: &Args) {
    let (ar, br): (R, R) = (x.z(0), x.z(1));
    let (a, b, i, j) = (U::new(&ar), U::new(&br), I::new(&ar), I::new(&br));
    note! { c;
        a.wrapping_add(b).raw(); i.wrapping_add(j).raw();
        a.wrapping_sub(b).raw(); i.wrapping_sub(j).raw();
        a.wrapping_mul(b).raw(); i.wrapping_mul(j).raw();
        f(a.overflowing_add(b)); f(i.overflowing_add(j));
        f(a.overflowing_sub(b)); f(i.overflowing_sub(j));
        f(a.overflowing_mul(b)); f(i.overflowing_mul(j));
        o(a.checked_add(b)); o(i.checked_add(j));
        o(a.checked_sub(b)); o(i.checked_sub(j));
        o(a.checked_mul(b)); o(i.checked_mul(j));
        a.saturating_add(b).raw(); i.saturating_add(j).raw();
        a.saturating_sub(b).raw(); i.saturating_sub(j).raw();
        a.saturating_mul(b).raw(); i.saturating_mul(j).raw();
        f(a.carrying_add(b, true)); f(i.carrying_add(j, true));
        f(a.borrowing_sub(b, true)); f(i.borrowing_sub(j, true));
        p(a.widening_mul(b)); p(a.carrying_mul(b, a)); a.high_mul(b).raw();
        a.abs_diff(b).raw(); i.abs_diff(j).raw();
        a.midpoint(b).raw(); i.midpoint(j).raw();
        o(a.checked_signed_diff(b));
        a.wrapping_add_signed(j).raw(); f(a.overflowing_add_signed(j)); o(a.checked_add_signed(j)); a.saturating_add_signed(j).raw();
        f(a.overflowing_sub_signed(j));
        f(i.overflowing_add_unsigned(b)); o(i.checked_add_unsigned(b)); i.saturating_add_unsigned(b).raw();
        i.wrapping_sub_unsigned(b).raw(); f(i.overflowing_sub_unsigned(b)); o(i.checked_sub_unsigned(b)); i.saturating_sub_unsigned(b).raw();
        (a & b).raw(); (a | b).raw(); (a ^ b).raw(); (i & j).raw(); (i | j).raw(); (i ^ j).raw();
        a.bitand_const(b).raw(); i.bitor_const(j).raw(); a.bitxor_const(b).raw();
        a.cmp(&b); i.cmp(&j); a == b; i == j; a < b; i <= j;
        a.cmp_const(b); i.cmp_const(j); a.eq_const(b); i.lt_const(j); a.le_const(b); i.gt_const(j); a.ge_const(b);
        a.max(b).raw(); i.min(j).raw();
        h(&a) == h(&b); h(&i) == h(&j);
        a.is_multiple_of(b);
        o(a.checked_div(b)); o(i.checked_div(j)); o(a.checked_rem(b)); o(i.checked_rem(j));
        o(a.checked_div_euclid(b)); o(i.checked_div_euclid(j)); o(a.checked_rem_euclid(b)); o(i.checked_rem_euclid(j));
        o(a.checked_next_multiple_of(b)); o(i.checked_next_multiple_of(j));
        a.checked_ilog(b); i.checked_ilog(j);
        a.wrapping_shl(br[0] as u32).raw(); i.wrapping_shr(br[0] as u32).raw();
    }
    if br != [0; L] {
        note! { c;
            a.wrapping_div(b).raw(); i.wrapping_div(j).raw(); a.wrapping_rem(b).raw(); i.wrapping_rem(j).raw();
            p(a.wrapping_div_rem(b)); p(i.wrapping_div_rem(j)); p(a.div_rem(b));
            i.wrapping_div_euclid(j).raw(); i.wrapping_rem_euclid(j).raw();
            f(a.overflowing_div(b)); f(i.overflowing_div(j)); f(a.overflowing_rem(b)); f(i.overflowing_rem(j));
            i.saturating_div(j).raw();
            a.div_floor(b).raw(); a.div_ceil(b).raw(); (a / b).raw(); (a % b).raw();
        }
    }
    if ar[0] & 1 == 0 && br[0] & 1 == 0 {
        notep! { c;
            (a + b).raw(); (i + j).raw(); (a - b).raw(); (i - j).raw(); (a * b).raw(); (i * j).raw();
            (i / j).raw(); (i % j).raw(); i.div_floor(j).raw(); i.div_ceil(j).raw(); i.div_euclid(j).raw();
            a.strict_add(b).raw(); i.strict_sub(j).raw(); a.strict_mul(b).raw();
            a.next_multiple_of(b).raw();
        }
    }
}

macro_rules! family {
    ($c:ident $x:ident $k:ident $t:ident: $($wrap:ident)*; $($over:ident)*; $($check:ident)*; $($dr:ident)*; $($d:ident)*; $($r:ident)*; $($cd:ident)*; $($cr:ident)*;) => {{
        $( $c.begin(concat!(stringify!($x), ".", stringify!($wrap))); let got = $x.$wrap($k as $t).raw(); $c.note(&got); )*
        $( $c.begin(concat!(stringify!($x), ".", stringify!($over))); let got = f($x.$over($k as $t)); $c.note(&got); )*
        $( $c.begin(concat!(stringify!($x), ".", stringify!($check))); let got = o($x.$check($k as $t)); $c.note(&got); )*
        if $k as $t != 0 {
            $( $c.begin(concat!(stringify!($x), ".", stringify!($dr))); let got = { let q = $x.$dr($k as $t); (q.0.raw(), q.1 as u128) }; $c.note(&got); )*
            $( $c.begin(concat!(stringify!($x), ".", stringify!($d))); let got = $x.$d($k as $t).raw(); $c.note(&got); )*
            $( $c.begin(concat!(stringify!($x), ".", stringify!($r))); let got = $x.$r($k as $t) as u128; $c.note(&got); )*
        }
        $( $c.begin(concat!(stringify!($x), ".", stringify!($cd))); let got = o($x.$cd($k as $t)); $c.note(&got); )*
        $( $c.begin(concat!(stringify!($x), ".", stringify!($cr))); let got = $x.$cr($k as $t).map(|v| v as u128); $c.note(&got); )*
    }};
}

/// Scalars; those of limb size are kept to what fits the smallest limb.
fn scalar(c: &mut Ctx, x: &Args) {
    let r: R = x.z(0);
    let k = x.n[0];
    let (u, i) = (U::new(&r), I::new(&r));
    macro_rules! both {
        ($x:ident) => {{
            family!(c $x k u32: wrapping_add_u32 wrapping_sub_u32 wrapping_mul_u32; overflowing_add_u32 overflowing_sub_u32 overflowing_mul_u32; checked_add_u32 checked_sub_u32 checked_mul_u32; wrapping_div_rem_u32; wrapping_div_u32; wrapping_rem_u32; checked_div_u32; checked_rem_u32;);
            family!(c $x k u64: wrapping_add_u64 wrapping_sub_u64 wrapping_mul_u64; overflowing_add_u64 overflowing_sub_u64 overflowing_mul_u64; checked_add_u64 checked_sub_u64 checked_mul_u64; wrapping_div_rem_u64; wrapping_div_u64; wrapping_rem_u64; checked_div_u64; checked_rem_u64;);
            family!(c $x k u128: wrapping_add_u128 wrapping_sub_u128 wrapping_mul_u128; overflowing_add_u128 overflowing_sub_u128 overflowing_mul_u128; checked_add_u128 checked_sub_u128 checked_mul_u128; wrapping_div_rem_u128; wrapping_div_u128; wrapping_rem_u128; checked_div_u128; checked_rem_u128;);
            let k = k as u32;
            family!(c $x k ULimb: wrapping_add_ulimb wrapping_sub_ulimb wrapping_mul_ulimb; overflowing_add_ulimb overflowing_sub_ulimb overflowing_mul_ulimb; checked_add_ulimb checked_sub_ulimb checked_mul_ulimb; wrapping_div_rem_ulimb; wrapping_div_ulimb; wrapping_rem_ulimb; checked_div_ulimb; checked_rem_ulimb;);
            let k = x.n[0] as u64;
            family!(c $x k UWide: wrapping_add_uwide wrapping_sub_uwide wrapping_mul_uwide; overflowing_add_uwide overflowing_sub_uwide overflowing_mul_uwide; checked_add_uwide checked_sub_uwide checked_mul_uwide; wrapping_div_rem_uwide; wrapping_div_uwide; wrapping_rem_uwide; checked_div_uwide; checked_rem_uwide;);
        }};
    }
    both!(u);
    both!(i);
    family!(c i k i32: wrapping_add_i32 wrapping_sub_i32 wrapping_mul_i32; overflowing_add_i32 overflowing_sub_i32 overflowing_mul_i32; checked_add_i32 checked_sub_i32 checked_mul_i32; wrapping_div_rem_i32; wrapping_div_i32; wrapping_rem_i32; checked_div_i32; checked_rem_i32;);
    family!(c i k i64: wrapping_add_i64 wrapping_sub_i64 wrapping_mul_i64; overflowing_add_i64 overflowing_sub_i64 overflowing_mul_i64; checked_add_i64 checked_sub_i64 checked_mul_i64; wrapping_div_rem_i64; wrapping_div_i64; wrapping_rem_i64; checked_div_i64; checked_rem_i64;);
    family!(c i k i128: wrapping_add_i128 wrapping_sub_i128 wrapping_mul_i128; overflowing_add_i128 overflowing_sub_i128 overflowing_mul_i128; checked_add_i128 checked_sub_i128 checked_mul_i128; wrapping_div_rem_i128; wrapping_div_i128; wrapping_rem_i128; checked_div_i128; checked_rem_i128;);
    let k = x.n[0] as i32;
    family!(c i k ILimb: wrapping_add_ilimb wrapping_sub_ilimb wrapping_mul_ilimb; overflowing_add_ilimb overflowing_sub_ilimb overflowing_mul_ilimb; checked_add_ilimb checked_sub_ilimb checked_mul_ilimb; wrapping_div_rem_ilimb; wrapping_div_ilimb; wrapping_rem_ilimb; checked_div_ilimb; checked_rem_ilimb;);
    let k = x.n[0] as i64;
    family!(c i k IWide: wrapping_add_iwide wrapping_sub_iwide wrapping_mul_iwide; overflowing_add_iwide overflowing_sub_iwide overflowing_mul_iwide; checked_add_iwide checked_sub_iwide checked_mul_iwide; wrapping_div_rem_iwide; wrapping_div_iwide; wrapping_rem_iwide; checked_div_iwide; checked_rem_iwide;);
    // construction and casts
    let k = x.n[0];
    note! { c;
        U::from_u8(k as u8).raw(); U::from_u16(k as u16).raw(); U::from_u32(k as u32).raw(); U::from_u64(k as u64).raw(); U::from_u128(k).raw();
        I::from_i8(k as i8).raw(); I::from_i16(k as i16).raw(); I::from_i32(k as i32).raw(); I::from_i64(k as i64).raw(); I::from_i128(k as i128).raw();
        U::from_i8(k as i8).raw(); U::from_i16(k as i16).raw(); U::from_i32(k as i32).raw(); U::from_i64(k as i64).raw(); U::from_i128(k as i128).raw();
        I::from_u8(k as u8).raw(); I::from_u16(k as u16).raw(); I::from_u32(k as u32).raw(); I::from_u64(k as u64).raw(); I::from_u128(k).raw();
        U::from_ulimb(k as u32 as ULimb).raw(); U::from_ilimb(k as i32 as ILimb).raw(); U::from_uwide(k as u64 as UWide).raw(); U::from_iwide(k as i64 as IWide).raw();
        I::from_ulimb(k as u32 as ULimb).raw(); I::from_ilimb(k as i32 as ILimb).raw(); I::from_uwide(k as u64 as UWide).raw(); I::from_iwide(k as i64 as IWide).raw();
        U::from(k).raw(); U::try_from(k as i128).ok().map(Big::raw); I::from(k as i128).raw(); I::from(k).raw();
    }
}

fn shift(c: &mut Ctx, x: &Args) {
    let r: R = x.z(0);
    let n = x.n[0] as u32;
    let (a, i) = (U::new(&r), I::new(&r));
    note! { c;
        a.wrapping_shl(n).raw(); i.wrapping_shl(n).raw(); a.wrapping_shr(n).raw(); i.wrapping_shr(n).raw();
        f(i.overflowing_shl(n)); f(i.overflowing_shr(n));
        o(a.checked_shl(n)); o(i.checked_shl(n)); o(a.checked_shr(n)); o(i.checked_shr(n));
        a.unbounded_shl(n).raw(); i.unbounded_shl(n).raw(); a.unbounded_shr(n).raw(); i.unbounded_shr(n).raw();
        a.rotate_left(n).raw(); i.rotate_left(n).raw(); a.rotate_right(n).raw(); i.rotate_right(n).raw();
    }
    if n < BITS {
        note! { c;
            (a << n).raw(); (i << n).raw(); (a >> n).raw(); (i >> n).raw();
            (a << n as u64).raw(); (i >> n as i64).raw(); (a >> n as u16).raw(); (a << U::from_u32(n)).raw(); (i >> I::from_u32(n)).raw(); (a >> n as u128).raw();
        }
    }
}

fn power(c: &mut Ctx, x: &Args) {
    let r: R = x.z(0);
    let n = x.n[0] as u32;
    let (a, i) = (U::new(&r), I::new(&r));
    note! { c;
        a.wrapping_pow(n).raw(); i.wrapping_pow(n).raw(); f(a.overflowing_pow(n)); f(i.overflowing_pow(n));
        o(a.checked_pow(n)); o(i.checked_pow(n)); a.saturating_pow(n).raw(); i.saturating_pow(n).raw();
    }
}

fn unary(c: &mut Ctx, x: &Args) {
    let r: R = x.z(0);
    let (a, i) = (U::new(&r), I::new(&r));
    note! { c;
        a.wrapping_neg().raw(); i.wrapping_neg().raw(); o(a.checked_neg()); o(i.checked_neg()); f(i.overflowing_neg()); i.saturating_neg().raw();
        i.wrapping_abs().raw(); i.unsigned_abs().raw(); o(i.checked_abs()); f(i.overflowing_abs()); i.saturating_abs().raw(); i.signum().raw();
        i.is_negative(); i.is_positive();
        (!a).raw(); (!i).raw(); a.not_const().raw();
        a.swap_bytes().raw(); i.swap_bytes().raw(); a.reverse_bits().raw(); i.reverse_bits().raw();
        a.count_ones(); i.count_ones(); a.count_zeros(); a.leading_zeros(); i.leading_zeros(); a.leading_ones(); i.leading_ones();
        a.trailing_zeros(); i.trailing_zeros(); a.trailing_ones(); i.trailing_ones();
        a.is_even(); i.is_odd(); a.is_power_of_two(); o(a.checked_next_power_of_two()); a.wrapping_next_power_of_two().raw();
        a.low().raw(); a.high().raw();
        a.checked_ilog2(); i.checked_ilog2();
        a.as_u8(); a.as_u16(); a.as_u32(); a.as_u64(); a.as_u128(); a.as_i8(); a.as_i16(); a.as_i32(); a.as_i64(); a.as_i128();
        i.as_u8(); i.as_u16(); i.as_u32(); i.as_u64(); i.as_u128(); i.as_i8(); i.as_i16(); i.as_i32(); i.as_i64(); i.as_i128();
        a.as_ulimb() as u32; a.as_uwide() as u64; i.as_ilimb() as u32; i.as_iwide() as u64;
        a.as_signed().raw(); i.as_unsigned().raw(); a.cast_signed().raw(); i.cast_unsigned().raw();
        U::try_from(i).ok().map(Big::raw); I::try_from(a).ok().map(Big::raw);
        a.to_be_bytes().to_vec(); a.to_le_bytes().to_vec(); i.to_be_bytes().to_vec(); i.to_le_bytes().to_vec();
        U::from_be_bytes(a.to_le_bytes()).raw(); U::from_le_bytes(a.to_le_bytes()).raw(); I::from_be_bytes(i.to_le_bytes()).raw(); I::from_le_bytes(i.to_be_bytes()).raw();
        U::from_ne_bytes(a.to_ne_bytes()).raw(); I::from_ne_bytes(i.to_ne_bytes()).raw();
        U::from_ne_limbs(a.to_ne_limbs()).raw(); I::from_ne_limbs(i.to_ne_limbs()).raw();
        U::from_be(a.to_be()).raw(); I::from_le(i.to_le()).raw(); U::from_be(a.to_le()) == U::from_le(a.to_be());
        a.to_le_u32().to_vec(); a.to_be_u32().to_vec(); a.to_le_u64().to_vec(); a.to_be_u64().to_vec(); i.to_le_u64().to_vec();
        U::from_le_u32(a.to_be_u32()).raw(); U::from_be_u32(a.to_be_u32()).raw(); U::from_le_u64(a.to_be_u64()).raw(); U::from_be_u64(a.to_be_u64()).raw();
        U::from_ne_u32(a.to_ne_u32()).raw(); U::from_ne_u64(a.to_ne_u64()).raw();
        U::from_le_limbs(a.to_le_limbs()).raw(); U::from_be_limbs(a.to_be_limbs()).raw(); U::from_be_limbs({ let mut v = a.to_le_limbs(); v.reverse(); v }).raw();
        U::from_le_wide(a.to_le_wide()).raw(); U::from_be_wide(a.to_be_wide()).raw(); U::from_ne_wide(a.to_ne_wide()).raw();
        U::from_be_wide({ let mut v = a.to_le_wide(); v.reverse(); v }).raw();
        a.get_limb(0) as u32; a.get_wide(0) as u64; a.least_significant_limb() as u32; i.get_limb(0) as u32;
        (a.most_significant_limb() as u128 >> (ULimb::BITS - 32)) as u32; (a.get_wide((BITS / UWide::BITS) as usize - 1) >> (UWide::BITS - 64)) as u64;
        by_limb(|k| a.get_limb(k)); by_limb(|k| i.get_limb(k)); by_wide(|k| a.get_wide(k));
        h(&a) == h(&U::new(&r));
    }
    notep! { c;
        (-i).raw(); i.abs().raw(); a.next_power_of_two().raw();
    }
}

fn text(c: &mut Ctx, x: &Args) {
    let r: R = x.z(0);
    let (a, i) = (U::new(&r), I::new(&r));
    note! { c;
        a.to_string(); i.to_string(); format!("{:x}", a); format!("{:#X}", i); format!("{:o}", a); format!("{:+e}", i); format!("{:>90}", i); format!("{:?}", a);
        { let mut b = [0u8; BITS as usize + 1]; i.to_str_radix(&mut b, 36).to_vec() };
        a.to_string().parse::<U>().ok().map(Big::raw); i.to_string().parse::<I>().ok().map(Big::raw);
        U::from_str_radix(&format!("{:x}", a), 16).ok().map(Big::raw);
        i.to_string().parse::<U>().ok().map(Big::raw); a.to_string().parse::<I>().ok().map(Big::raw);
        format!("{}0", a).parse::<U>().ok().map(Big::raw); format!("{}9", i).parse::<I>().ok().map(Big::raw);
    }
}

/// Decimal strings around every length at which the parser changes its method.
fn parse(c: &mut Ctx, x: &Args) {
    let t = String::from_utf8(x.s.clone()).unwrap();
    note! { c;
        t.parse::<U>().ok().map(Big::raw);
        t.parse::<I>().ok().map(Big::raw);
        U::from_str_radix(&t, 10).ok().map(Big::raw);
        I::from_str_radix(&t, 10).ok().map(Big::raw);
    }
}

// ---- evaluation at compile time ----

const K: usize = 9;
const fn constant(k: usize) -> R {
    let mut r = [0; L];
    let mut q = 0;
    while q < L {
        r[q] = match k {
            0 => 0,
            1 => if q == 0 { 1 } else { 0 },
            2 => u64::MAX,
            3 => if q == L - 1 { 1 << 63 } else { 0 },
            4 => if q == L - 1 { u64::MAX >> 1 } else { u64::MAX },
            5 => space::G[q % 8],
            6 => space::G[(q + 3) % 8],
            7 => if q % 2 == 0 { 0 } else { u64::MAX },
            _ => if q < L / 2 { u64::MAX } else { 0 },
        };
        q += 1;
    }
    r
}

#[cfg(not(feature = "noct"))]
mod ct {
use super::*;
pub const N: usize = if cfg!(miri) { 2 } else if L > 8 { 6 } else { 9 };
const fn unsigned(k: usize) -> U {
    U::from_le_u64(constant(k))
}
const fn signed(k: usize) -> I {
    I::from_le_u64(constant(k))
}
const AMOUNT: [u32; K] = [0, 1, 31, 32, 63, 64, 65, BITS - 1, BITS];

macro_rules! table {
    ($(($n:ident $c:ident: $t:ty, $d:expr, |$a:ident, $b:ident, $i:ident, $j:ident, $s:ident| $e:expr, $v:ident => $obs:expr))*) => {
        $(const fn $n($a: U, $b: U, $i: I, $j: I, $s: u32) -> $t { let _ = ($a, $b, $i, $j, $s); $e }
        const $c: [[$t; N]; N] = {
            let mut o = [[$d; N]; N];
            let mut x = 0;
            while x < N {
                let mut y = 0;
                while y < N {
                    o[x][y] = $n(unsigned(x), unsigned(y), signed(x), signed(y), AMOUNT[y]);
                    y += 1;
                }
                x += 1;
            }
            o
        };)*
        pub fn compile_time(c: &mut Ctx, a: &Args) {
            let (x, y) = (a.n[0] as usize, a.n[1] as usize);
            let (p, q) = (std::hint::black_box(constant(x)), std::hint::black_box(constant(y)));
            $({
                c.begin(stringify!($n));
                let $v = $n(U::new(&p), U::new(&q), I::new(&p), I::new(&q), std::hint::black_box(AMOUNT[y]));
                let run = $obs;
                let $v = $c[x][y];
                let compiled = $obs;
                c.check(run, compiled);
            })*
        }
    };
}
const U0: U = U::MIN;
const I0: I = I::MAX;
table! {
    (k_add K_ADD: U, U0, |a, b, i, j, s| a.wrapping_add(b), v => v.raw())
    (k_sub K_SUB: U, U0, |a, b, i, j, s| a.wrapping_sub(b), v => v.raw())
    (k_mul K_MUL: U, U0, |a, b, i, j, s| a.wrapping_mul(b), v => v.raw())
    (k_imul K_IMUL: I, I0, |a, b, i, j, s| i.wrapping_mul(j), v => v.raw())
    (k_oadd K_OADD: (U, bool), (U0, false), |a, b, i, j, s| a.overflowing_add(b), v => f(v))
    (k_iosub K_IOSUB: (I, bool), (I0, false), |a, b, i, j, s| i.overflowing_sub(j), v => f(v))
    (k_omul K_OMUL: (U, bool), (U0, false), |a, b, i, j, s| a.overflowing_mul(b), v => f(v))
    (k_iomul K_IOMUL: (I, bool), (I0, false), |a, b, i, j, s| i.overflowing_mul(j), v => f(v))
    (k_cadd K_CADD: Option<I>, None, |a, b, i, j, s| i.checked_add(j), v => o(v))
    (k_cmul K_CMUL: Option<U>, None, |a, b, i, j, s| a.checked_mul(b), v => o(v))
    (k_smul K_SMUL: I, I0, |a, b, i, j, s| i.saturating_mul(j), v => v.raw())
    (k_wmul K_WMUL: (U, U), (U0, U0), |a, b, i, j, s| a.widening_mul(b), v => p(v))
    (k_carry K_CARRY: (I, bool), (I0, false), |a, b, i, j, s| i.carrying_add(j, true), v => f(v))
    (k_borrow K_BORROW: (U, bool), (U0, false), |a, b, i, j, s| a.borrowing_sub(b, true), v => f(v))
    (k_diff K_DIFF: U, U0, |a, b, i, j, s| i.abs_diff(j), v => v.raw())
    (k_mid K_MID: I, I0, |a, b, i, j, s| i.midpoint(j), v => v.raw())
    (k_cmp K_CMP: Ordering, Ordering::Equal, |a, b, i, j, s| a.cmp_const(b), v => v)
    (k_icmp K_ICMP: Ordering, Ordering::Equal, |a, b, i, j, s| i.cmp_const(j), v => v)
    (k_and K_AND: U, U0, |a, b, i, j, s| a.bitand_const(b), v => v.raw())
    (k_xor K_XOR: I, I0, |a, b, i, j, s| i.bitxor_const(j), v => v.raw())
    (k_not K_NOT: U, U0, |a, b, i, j, s| a.not_const(), v => v.raw())
    (k_shl K_SHL: U, U0, |a, b, i, j, s| a.wrapping_shl(s), v => v.raw())
    (k_shr K_SHR: U, U0, |a, b, i, j, s| a.wrapping_shr(s), v => v.raw())
    (k_ishr K_ISHR: I, I0, |a, b, i, j, s| i.wrapping_shr(s), v => v.raw())
    (k_ushr K_USHR: I, I0, |a, b, i, j, s| i.unbounded_shr(s), v => v.raw())
    (k_rotl K_ROTL: U, U0, |a, b, i, j, s| a.rotate_left(s), v => v.raw())
    (k_rotr K_ROTR: I, I0, |a, b, i, j, s| i.rotate_right(s), v => v.raw())
    (k_swap K_SWAP: U, U0, |a, b, i, j, s| a.swap_bytes(), v => v.raw())
    (k_rev K_REV: U, U0, |a, b, i, j, s| a.reverse_bits(), v => v.raw())
    (k_ones K_ONES: u32, 0, |a, b, i, j, s| a.count_ones(), v => v)
    (k_lz K_LZ: u32, 0, |a, b, i, j, s| a.leading_zeros(), v => v)
    (k_tz K_TZ: u32, 0, |a, b, i, j, s| i.trailing_zeros(), v => v)
    (k_be K_BE: [u8; 8 * L], [0; 8 * L], |a, b, i, j, s| a.to_be_bytes(), v => v.to_vec())
    (k_le K_LE: [u8; 8 * L], [0; 8 * L], |a, b, i, j, s| i.to_le_bytes(), v => v.to_vec())
    (k_fbe K_FBE: U, U0, |a, b, i, j, s| U::from_be_bytes(a.to_le_bytes()), v => v.raw())
    (k_u32 K_U32: U, U0, |a, b, i, j, s| U::from_be_u32(a.to_le_u32()), v => v.raw())
    (k_u64 K_U64: I, I0, |a, b, i, j, s| I::from_be_u64(i.to_le_u64()), v => v.raw())
    (k_u128 K_U128: u128, 0, |a, b, i, j, s| a.as_u128(), v => v)
    (k_i64 K_I64: i64, 0, |a, b, i, j, s| i.as_i64(), v => v)
    (k_fi K_FI: I, I0, |a, b, i, j, s| I::from_i128(a.as_i128()), v => v.raw())
    (k_abs K_ABS: U, U0, |a, b, i, j, s| i.unsigned_abs(), v => v.raw())
    (k_sign K_SIGN: I, I0, |a, b, i, j, s| i.signum(), v => v.raw())
    (k_pow K_POW: U, U0, |a, b, i, j, s| a.wrapping_pow(s % 16), v => v.raw())
    (k_ipow K_IPOW: (I, bool), (I0, false), |a, b, i, j, s| i.overflowing_pow(s % 16), v => f(v))
    (k_log K_LOG: Option<u32>, None, |a, b, i, j, s| a.checked_ilog2(), v => v)
    (k_m64 K_M64: U, U0, |a, b, i, j, s| a.wrapping_mul_u64(b.as_u64()), v => v.raw())
    (k_a128 K_A128: (I, bool), (I0, false), |a, b, i, j, s| i.overflowing_add_i128(j.as_i128()), v => f(v))
    (k_m128 K_M128: (I, bool), (I0, false), |a, b, i, j, s| i.overflowing_mul_i128(j.as_i128()), v => f(v))
    (k_s32 K_S32: U, U0, |a, b, i, j, s| a.wrapping_sub_u32(b.as_u32()), v => v.raw())
    (k_np2 K_NP2: Option<U>, None, |a, b, i, j, s| a.checked_next_power_of_two(), v => o(v))
    (k_high K_HIGH: U, U0, |a, b, i, j, s| a.high_mul(b), v => v.raw())
}
}

fn operands(t: Tier) -> Vec<Raw> {
    let mut v: Vec<R> = (0..K).map(constant).collect();
    // one digit apart, odd and even halves, a lone high half-digit
    for k in [0, L / 2, L - 1] {
        let mut r = [0; L];
        r[k] = 0x8000_0000_ffff_fffe;
        v.push(r);
        r[k] = 0x1_0000_0000;
        v.push(r);
        let mut r = [u64::MAX; L];
        r[k] = 0xffff_fffe_0000_0001;
        v.push(r);
    }
    v.push(Z::u(10).lo());
    v.push(Z::i(-3).lo());
    let mut v: Vec<Raw> = v.iter().map(raw).collect();
    if t != Tier::Tiny {
        v.extend(space::lean(L, t.min(Tier::Quick)));
    }
    v.sort();
    v.dedup();
    v
}

pub fn suites(t: Tier, out: &mut Vec<Suite>) {
    let v = operands(t);
    let few: Vec<Raw> = if t == Tier::Tiny && !crate::dense() { v.iter().copied().step_by(match L { 16 => 3, _ => 2 }).collect() } else { v.clone() };
    out.push(suite(format!("P22/{}/binary", UN), space::pairs(few.clone(), few.clone()), binary, &[]));
    let mut k: Vec<u128> = vec![0, 1, 10, 0x8000_0000, 0xffff_ffff, 0xffff_ffff_8000_0000, 0x8000_0000_0000_0001, 1 << 64, 1 << 127, u128::MAX, 0xfedc_ba98_7654_3210_0123_4567_89ab_cdef];
    if t != Tier::Tiny {
        k.extend(space::scalars(128, Tier::Mid));
        k.extend(space::scalars(64, Tier::Mid));
        k.sort();
        k.dedup();
    }
    let sc: Vec<Raw> = if t == Tier::Tiny { few.iter().copied().step_by(match L { 4 => 2, 16 => 4, _ => 3 }).collect() } else { v.clone() };
    out.push(suite(format!("P22/{}/scalar", UN), space::with_scalar(sc, k), scalar, &[]));
    let n: Vec<u128> = if t == Tier::Tiny {
        let mut n: Vec<u128> = vec![0, 1, 7, 8, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 192, 200, BITS as u128 - 64, BITS as u128 - 33, BITS as u128 - 1, BITS as u128, u32::MAX as u128];
        n.sort();
        n.dedup();
        n
    } else {
        (0..BITS as u128 + 2).chain([u32::MAX as u128]).collect()
    };
    out.push(suite(format!("P22/{}/shift", UN), space::with_scalar(few.clone(), n), shift, &[]));
    let e: Vec<u128> = if t == Tier::Tiny { vec![0, 3, 6] } else { (0..20).chain([31, 64, 100, 255]).collect() };
    out.push(suite(format!("P22/{}/power", UN), space::with_scalar(few.clone(), e), power, &[]));
    // distinct bytes in one digit only
    let mut one = v.clone();
    for k in 0..L {
        let mut r = [0; L];
        r[k] = 0x8192_a3b4_c5d6_e7f8;
        one.push(raw(&r));
    }
    out.push(suite(format!("P22/{}/unary", UN), space::unary(one), unary, &[]));
    out.push(suite(format!("P22/{}/text", UN), space::unary(if t == Tier::Tiny { few.iter().copied().skip(1).step_by(if L == 4 { 2 } else { 4 }).collect() } else { v }), text, &[]));
    // strings of every length up to past the widest 128-bit number
    let lens: Vec<usize> = if t == Tier::Tiny { vec![1, 2, 9, 10, 17, 18, 19, 20, 21, 38, 39, 40] } else { (1..=90).collect() };
    let mut ss: Vec<Vec<u8>> = Vec::new();
    for n in lens {
        for d in [b'0', b'1', b'9'] {
            for sign in ["", "-", "+"] {
                let mut s = sign.as_bytes().to_vec();
                s.extend(vec![d; n]);
                ss.push(s);
            }
        }
    }
    for s in ["9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "170141183460469231731687303715884105727", "170141183460469231731687303715884105728", "-170141183460469231731687303715884105728", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "1a", "", "+", "-", "12345678901234567890x"] {
        ss.push(s.as_bytes().to_vec());
    }
    let d = format!("{} strings", ss.len());
    let g: (usize, Gen, String) = (ss.len(), Box::new(move |i, f| {
        let mut x = Args::new();
        x.s = ss[i].clone();
        f(&x);
    }), d);
    out.push(suite(format!("P22/{}/parse", UN), g, parse, &[]));
    #[cfg(not(feature = "noct"))]
    {
        let g: (usize, Gen, String) = (ct::N, Box::new(|i, f| {
            let mut x = Args::new();
            x.n[0] = i as u128;
            for j in 0..ct::N {
                x.n[1] = j as u128;
                f(&x);
            }
        }), format!("{} x {} operands, compiled and run", ct::N, ct::N));
        out.push(suite(format!("P22/{}/compile-time", UN), g, ct::compile_time, &[]));
    }
}

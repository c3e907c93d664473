//! P06: division by zero.
use super::ty::*;
use ::i256::{ILimb, IWide, ULimb, UWide};

/// Any non-panicking outcome is reported as a value.
macro_rules! panics {
    ($c:ident, $($n:expr => $e:expr;)*) => {{$(
        $c.begin($n);
        let got = may_panic(|| { std::hint::black_box($e); });
        $c.check(got, Out::Panic);
    )*}};
}
macro_rules! absent {
    ($c:ident, $($n:expr => $e:expr;)*) => {{$(
        ck!($c, $n, $e.is_none(), true);
    )*}};
}

fn full(c: &mut Ctx, a: &Args) {
    let xr: R = a.z(0);
    let zr = std::hint::black_box([0; L]);
    let (u, i, zu, zi) = (U::new(&xr), I::new(&xr), U::new(&zr), I::new(&zr));
    macro_rules! forms {
        ($x:ident, $z:ident, $p:literal) => {
            absent! { c,
                concat!($p, ".checked_div") => $x.checked_div($z);
                concat!($p, ".checked_rem") => $x.checked_rem($z);
                concat!($p, ".checked_div_euclid") => $x.checked_div_euclid($z);
                concat!($p, ".checked_rem_euclid") => $x.checked_rem_euclid($z);
                concat!($p, ".checked_div_rem") => $x.checked_div_rem($z);
                concat!($p, ".checked_next_multiple_of") => $x.checked_next_multiple_of($z);
            }
            panics! { c,
                concat!($p, " /") => $x / $z;
                concat!($p, " %") => $x % $z;
                concat!($p, " / reference") => $x / &$z;
                concat!($p, " % reference") => $x % &$z;
                concat!($p, " /=") => { let mut y = $x; y /= $z; y };
                concat!($p, " %=") => { let mut y = $x; y %= $z; y };
                concat!($p, " /= reference") => { let mut y = $x; y /= &$z; y };
                concat!($p, " %= reference") => { let mut y = $x; y %= &$z; y };
                concat!($p, ".div_rem") => $x.div_rem($z);
                concat!($p, ".div_euclid") => $x.div_euclid($z);
                concat!($p, ".rem_euclid") => $x.rem_euclid($z);
                concat!($p, ".div_floor") => $x.div_floor($z);
                concat!($p, ".div_ceil") => $x.div_ceil($z);
                concat!($p, ".next_multiple_of") => $x.next_multiple_of($z);
                concat!($p, ".wrapping_div") => $x.wrapping_div($z);
                concat!($p, ".wrapping_rem") => $x.wrapping_rem($z);
                concat!($p, ".wrapping_div_rem") => $x.wrapping_div_rem($z);
                concat!($p, ".wrapping_div_euclid") => $x.wrapping_div_euclid($z);
                concat!($p, ".wrapping_rem_euclid") => $x.wrapping_rem_euclid($z);
                concat!($p, ".overflowing_div") => $x.overflowing_div($z);
                concat!($p, ".overflowing_rem") => $x.overflowing_rem($z);
                concat!($p, ".overflowing_div_rem") => $x.overflowing_div_rem($z);
                concat!($p, ".overflowing_div_euclid") => $x.overflowing_div_euclid($z);
                concat!($p, ".overflowing_rem_euclid") => $x.overflowing_rem_euclid($z);
                concat!($p, ".saturating_div") => $x.saturating_div($z);
                concat!($p, ".strict_div") => $x.strict_div($z);
                concat!($p, ".strict_rem") => $x.strict_rem($z);
                concat!($p, ".strict_div_euclid") => $x.strict_div_euclid($z);
                concat!($p, ".strict_rem_euclid") => $x.strict_rem_euclid($z);
            }
        };
    }
    forms!(u, zu, "u");
    forms!(i, zi, "i");
}

fn scalar(c: &mut Ctx, a: &Args) {
    let xr: R = a.z(0);
    let (u, i) = (U::new(&xr), I::new(&xr));
    macro_rules! forms {
        ($x:ident, $p:literal, $t:ty, $dr:ident $d:ident $r:ident, $wdr:ident $wd:ident $wr:ident, $odr:ident $od:ident $or:ident, $cdr:ident $cd:ident $cr:ident) => {{
            let z: $t = std::hint::black_box(0);
            panics! { c,
                concat!($p, ".", stringify!($dr)) => $x.$dr(z);
                concat!($p, ".", stringify!($d)) => $x.$d(z);
                concat!($p, ".", stringify!($r)) => $x.$r(z);
                concat!($p, ".", stringify!($wdr)) => $x.$wdr(z);
                concat!($p, ".", stringify!($wd)) => $x.$wd(z);
                concat!($p, ".", stringify!($wr)) => $x.$wr(z);
                concat!($p, ".", stringify!($odr)) => $x.$odr(z);
                concat!($p, ".", stringify!($od)) => $x.$od(z);
                concat!($p, ".", stringify!($or)) => $x.$or(z);
            }
            absent! { c,
                concat!($p, ".", stringify!($cdr)) => $x.$cdr(z);
                concat!($p, ".", stringify!($cd)) => $x.$cd(z);
                concat!($p, ".", stringify!($cr)) => $x.$cr(z);
            }
        }};
    }
    macro_rules! both {
        ($($t:ty, $dr:ident $d:ident $r:ident, $wdr:ident $wd:ident $wr:ident, $odr:ident $od:ident $or:ident, $cdr:ident $cd:ident $cr:ident;)*) => {{$(
            forms!(u, "u", $t, $dr $d $r, $wdr $wd $wr, $odr $od $or, $cdr $cd $cr);
            forms!(i, "i", $t, $dr $d $r, $wdr $wd $wr, $odr $od $or, $cdr $cd $cr);
        )*}};
    }
    macro_rules! signed {
        ($($t:ty, $dr:ident $d:ident $r:ident, $wdr:ident $wd:ident $wr:ident, $odr:ident $od:ident $or:ident, $cdr:ident $cd:ident $cr:ident;)*) => {{$(
            forms!(i, "i", $t, $dr $d $r, $wdr $wd $wr, $odr $od $or, $cdr $cd $cr);
        )*}};
    }
    both! {
        ULimb, div_rem_ulimb div_ulimb rem_ulimb, wrapping_div_rem_ulimb wrapping_div_ulimb wrapping_rem_ulimb, overflowing_div_rem_ulimb overflowing_div_ulimb overflowing_rem_ulimb, checked_div_rem_ulimb checked_div_ulimb checked_rem_ulimb;
        UWide, div_rem_uwide div_uwide rem_uwide, wrapping_div_rem_uwide wrapping_div_uwide wrapping_rem_uwide, overflowing_div_rem_uwide overflowing_div_uwide overflowing_rem_uwide, checked_div_rem_uwide checked_div_uwide checked_rem_uwide;
        u32, div_rem_u32 div_u32 rem_u32, wrapping_div_rem_u32 wrapping_div_u32 wrapping_rem_u32, overflowing_div_rem_u32 overflowing_div_u32 overflowing_rem_u32, checked_div_rem_u32 checked_div_u32 checked_rem_u32;
        u64, div_rem_u64 div_u64 rem_u64, wrapping_div_rem_u64 wrapping_div_u64 wrapping_rem_u64, overflowing_div_rem_u64 overflowing_div_u64 overflowing_rem_u64, checked_div_rem_u64 checked_div_u64 checked_rem_u64;
        u128, div_rem_u128 div_u128 rem_u128, wrapping_div_rem_u128 wrapping_div_u128 wrapping_rem_u128, overflowing_div_rem_u128 overflowing_div_u128 overflowing_rem_u128, checked_div_rem_u128 checked_div_u128 checked_rem_u128;
    }
    signed! {
        ILimb, div_rem_ilimb div_ilimb rem_ilimb, wrapping_div_rem_ilimb wrapping_div_ilimb wrapping_rem_ilimb, overflowing_div_rem_ilimb overflowing_div_ilimb overflowing_rem_ilimb, checked_div_rem_ilimb checked_div_ilimb checked_rem_ilimb;
        IWide, div_rem_iwide div_iwide rem_iwide, wrapping_div_rem_iwide wrapping_div_iwide wrapping_rem_iwide, overflowing_div_rem_iwide overflowing_div_iwide overflowing_rem_iwide, checked_div_rem_iwide checked_div_iwide checked_rem_iwide;
        i32, div_rem_i32 div_i32 rem_i32, wrapping_div_rem_i32 wrapping_div_i32 wrapping_rem_i32, overflowing_div_rem_i32 overflowing_div_i32 overflowing_rem_i32, checked_div_rem_i32 checked_div_i32 checked_rem_i32;
        i64, div_rem_i64 div_i64 rem_i64, wrapping_div_rem_i64 wrapping_div_i64 wrapping_rem_i64, overflowing_div_rem_i64 overflowing_div_i64 overflowing_rem_i64, checked_div_rem_i64 checked_div_i64 checked_rem_i64;
        i128, div_rem_i128 div_i128 rem_i128, wrapping_div_rem_i128 wrapping_div_i128 wrapping_rem_i128, overflowing_div_rem_i128 overflowing_div_i128 overflowing_rem_i128, checked_div_rem_i128 checked_div_i128 checked_rem_i128;
    }
}

pub fn suites(t: Tier, out: &mut Vec<Suite>) {
    let v = if t == Tier::Thorough { space::wide(L, Tier::Quick) } else { space::core(L, t) };
    out.push(suite(format!("P06/{}/full-width", UN), space::unary(v.clone()), full, &[]));
    out.push(suite(format!("P06/{}/scalar", UN), space::unary(v), scalar, &[]));
}

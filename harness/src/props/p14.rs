//! P14: formatting.
use super::ty::*;
use std::fmt;

/// A numeral printed the way the standard library prints integers.
struct Num<'a> {
    pos: bool,
    text: &'a str,
}
macro_rules! num {
    ($($t:ident $p:literal;)*) => ($(
        impl fmt::$t for Num<'_> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.pad_integral(self.pos, $p, self.text)
            }
        }
    )*)
}
num! { Display ""; Debug ""; LowerHex "0x"; UpperHex "0x"; Octal "0o"; Binary "0b"; }

fn plain(c: &mut Ctx, a: &Args) {
    let r: R = a.z(0);
    let (u, i) = (U::new(&r), I::new(&r));
    let (zu, zi) = (Z::from_u(&r), Z::from_s(&r));
    let hex = zu.to_radix(16);
    let (ud, id) = (zu.to_radix(10), zi.to_radix(10));
    c.hit(zi.is_neg() as usize);
    if ud.contains("000") {
        c.hit(2);
    }
    ck!(c, "u {}", format!("{}", u), ud.clone());
    ck!(c, "i {}", format!("{}", i), id.clone());
    ck!(c, "u {:?}", format!("{:?}", u), ud.clone());
    ck!(c, "i {:?}", format!("{:?}", i), id.clone());
    ck!(c, "u {:x}", format!("{:x}", u), hex.clone());
    ck!(c, "i {:x}", format!("{:x}", i), hex.clone());
    ck!(c, "u {:X}", format!("{:X}", u), hex.to_uppercase());
    ck!(c, "i {:X}", format!("{:X}", i), hex.to_uppercase());
    ck!(c, "u parse {}", ud.parse::<U>().ok().map(Big::raw), Some(r));
    ck!(c, "i parse {}", id.parse::<I>().ok().map(Big::raw), Some(r));
    ck!(c, "u {:e}", exp(&format!("{:e}", u), 'e'), Some((ud.clone(), false)));
    ck!(c, "u {:E}", exp(&format!("{:E}", u), 'E'), Some((ud.clone(), false)));
    ck!(c, "i {:e}", exp(&format!("{:e}", i), 'e'), Some((id.clone(), false)));
    ck!(c, "i {:E}", exp(&format!("{:E}", i), 'E'), Some((id.clone(), false)));
    ck!(c, "i {:+e}", exp(&format!("{:+e}", i), 'e'), Some((id.clone(), !zi.is_neg())));
    ck!(c, "i {:+E}", exp(&format!("{:+E}", i), 'E'), Some((id, !zi.is_neg())));
}

fn bits(c: &mut Ctx, a: &Args) {
    let r: R = a.z(0);
    let (u, i) = (U::new(&r), I::new(&r));
    let z = Z::from_u(&r);
    let (o, b) = (z.to_radix(8), z.to_radix(2));
    ck!(c, "u {:o}", format!("{:o}", u), o.clone());
    ck!(c, "i {:o}", format!("{:o}", i), o.clone());
    ck!(c, "u {:b}", format!("{:b}", u), b.clone());
    ck!(c, "i {:b}", format!("{:b}", i), b.clone());
}

/// The integer denoted by a number in scientific notation, and whether it has a plus sign.
fn exp(s: &str, e: char) -> Option<(String, bool)> {
    let (sign, t) = match s.as_bytes().first()? {
        b'-' => ("-", &s[1..]),
        b'+' => ("+", &s[1..]),
        _ => ("", s),
    };
    let (m, x) = t.split_once(e)?;
    let x: usize = x.parse().ok()?;
    let (int, frac) = m.split_once('.').unwrap_or((m, ""));
    if int.len() != 1 || !int.bytes().chain(frac.bytes()).all(|b| b.is_ascii_digit()) {
        return None;
    }
    if int == "0" && (x != 0 || frac.bytes().any(|b| b != b'0')) {
        return None;
    }
    let frac = frac.trim_end_matches('0');
    if frac.len() > x {
        return None;
    }
    let neg = if sign == "-" { "-" } else { "" };
    Some((format!("{}{}{}{}", neg, int, frac, "0".repeat(x - frac.len())), sign == "+"))
}

fn radix(c: &mut Ctx, a: &Args) {
    let r: R = a.z(0);
    let (u, i) = (U::new(&r), I::new(&r));
    let n = a.n[0] as u32;
    let (zu, zi) = (Z::from_u(&r).to_radix(n), Z::from_s(&r).to_radix(n));
    c.hit(zi.starts_with('-') as usize);
    let text = |b: &[u8]| String::from_utf8_lossy(b).to_lowercase();
    let mut buf = [b'?'; BITS as usize + 40];
    const N: usize = BITS as usize;
    ck!(c, "u.to_str_radix", text(u.to_str_radix(&mut buf[..N], n)), zu.clone());
    ck!(c, "i.to_str_radix", text(i.to_str_radix(&mut buf[..N + 1], n)), zi.clone());
    ck!(c, "u.to_str_radix long buffer", text(u.to_str_radix(&mut buf, n)), zu.clone());
    ck!(c, "i.to_str_radix long buffer", text(i.to_str_radix(&mut buf, n)), zi.clone());
    ck!(c, "U::from_str_radix of it", U::from_str_radix(&zu, n).ok().map(Big::raw), Some(r));
    ck!(c, "I::from_str_radix of it", I::from_str_radix(&zi, n).ok().map(Big::raw), Some(r));
    ck!(c, "U::from_str_radix of it in upper case", U::from_str_radix(&zu.to_uppercase(), n).ok().map(Big::raw), Some(r));
    ck!(c, "I::from_str_radix of it in upper case", I::from_str_radix(&zi.to_uppercase(), n).ok().map(Big::raw), Some(r));
}

// ---- flags

macro_rules! specs {
    (@all $name:ident, $tr:ident, $ty:literal) => {
        static $name: &[(&str, fn(&dyn fmt::$tr, usize) -> String)] = specs!(@list $tr, $ty, ["" "<" "^" ">" "*<" "*^" "*>" "0^" "\u{e9}>"]);
    };
    (@list $tr:ident, $ty:literal, [$($al:literal)*]) => {
        &[$(
            specs!(@one $tr, $ty, $al, "", "", ""), specs!(@one $tr, $ty, $al, "", "", "0"),
            specs!(@one $tr, $ty, $al, "", "#", ""), specs!(@one $tr, $ty, $al, "", "#", "0"),
            specs!(@one $tr, $ty, $al, "+", "", ""), specs!(@one $tr, $ty, $al, "+", "", "0"),
            specs!(@one $tr, $ty, $al, "+", "#", ""), specs!(@one $tr, $ty, $al, "+", "#", "0"),
        )*]
    };
    (@one $tr:ident, $ty:literal, $al:literal, $s:literal, $h:literal, $z:literal) => {
        (concat!("{:", $al, $s, $h, $z, "w$", $ty, "}"), |v: &dyn fmt::$tr, w: usize| format!(concat!("{:", $al, $s, $h, $z, "w$", $ty, "}"), v, w = w))
    };
}
specs!(@all DISPLAY, Display, "");
specs!(@all DEBUG, Debug, "?");
specs!(@all LOWER, LowerHex, "x");
specs!(@all UPPER, UpperHex, "X");
specs!(@all OCTAL, Octal, "o");
specs!(@all BINARY, Binary, "b");

fn flags(c: &mut Ctx, a: &Args) {
    let r: R = a.z(0);
    let (u, i) = (U::new(&r), I::new(&r));
    let (zu, zi) = (Z::from_u(&r), Z::from_s(&r));
    c.hit(zi.is_neg() as usize);
    let k = a.n[0] as usize;
    let rel = a.n[1] as i128;
    macro_rules! go {
        ($tab:ident, $radix:literal, $up:literal, $sz:expr) => {{
            for (v, z, p) in [(0, zu, "u"), (1, $sz, "i")] {
                let mut t = z.abs().to_radix($radix);
                if $up {
                    t = t.to_uppercase();
                }
                let w = (t.len() as i128 + rel).max(0) as usize;
                let e = Num { pos: !z.is_neg(), text: &t };
                let (name, f) = $tab[k];
                let _ = p;
                if v == 0 {
                    ck!(c, name, f(&u, w), f(&e, w));
                } else {
                    ck!(c, name, f(&i, w), f(&e, w));
                }
            }
        }};
    }
    go!(DISPLAY, 10, false, zi);
    go!(DEBUG, 10, false, zi);
    go!(LOWER, 16, false, zu);
    go!(UPPER, 16, true, zu);
    go!(OCTAL, 8, false, zu);
    go!(BINARY, 2, false, zu);
}

/// Numbers with long runs of the digit zero or of the largest digit in some radix.
fn runs(radices: &[u32], full: bool) -> Vec<Raw> {
    let mut v = Vec::new();
    for &r in radices {
        let mut pw: Vec<Z> = vec![Z::u(1)];
        loop {
            let n = pw.last().unwrap().mul(&Z::u(r as u128));
            if !n.fits_u(L) {
                break;
            }
            pw.push(n);
        }
        let mut put = |z: &Z| {
            if z.fits_u(L) {
                let x = raw(&z.lo());
                v.push(x);
                v.push(space::neg(L, &x));
            }
        };
        for (i, p) in pw.iter().enumerate() {
            for d in 1..r {
                if !full && d > 2 && d + 1 < r {
                    continue;
                }
                let m = p.mul(&Z::u(d as u128));
                put(&m);
                put(&m.sub(&Z::u(1)));
                put(&m.add(&Z::u(1)));
            }
            if full {
                for q in &pw[..i] {
                    put(&p.add(q));
                    put(&p.sub(q));
                }
            }
        }
    }
    space::norm(v)
}

pub fn suites(t: Tier, out: &mut Vec<Suite>) {
    let tiny = t == Tier::Tiny;
    let mut vals = match t {
        Tier::Tiny => space::lean(L, t),
        Tier::Mid | Tier::Quick if L > 4 => space::core(L, t),
        Tier::Mid | Tier::Quick => space::wide(L, t),
        Tier::Thorough => space::wide(L, Tier::Quick),
    };
    if !tiny {
        vals.extend(runs(&[10], L <= 8));
    }
    let vals = space::norm(vals);
    out.push(suite(format!("P14/{}/plain", UN), space::unary(vals), plain, &["top bit clear", "top bit set", "zeros inside"]));
    let mut vals = if t == Tier::Thorough { space::wide(L, Tier::Quick) } else { space::core(L, t) };
    if !tiny {
        vals.extend(runs(&[2, 8], L <= 6));
    } else {
        vals = vals.into_iter().step_by(3).collect();
    }
    out.push(suite(format!("P14/{}/bits", UN), space::unary(space::norm(vals)), bits, &[]));

    let radices: Vec<u32> = if tiny { vec![3, 10, 36] } else { (2..=36).collect() };
    let mut vals = space::lean(L, t.min(Tier::Quick));
    if tiny {
        vals = vals.into_iter().step_by(4).collect();
    } else if L >= 8 {
        vals = vals.into_iter().step_by(if t <= Tier::Quick { 5 } else { 1 }).collect();
    }
    out.push(suite(format!("P14/{}/radix", UN), space::with_scalar(vals, radices.iter().map(|r| *r as u128).collect()), radix, &["non-negative", "negative"]));
    if !tiny {
        for &r in &radices {
            let v = runs(&[r], false);
            out.push(suite(format!("P14/{}/radix-{}-digits", UN, r), space::with_scalar(v, vec![r as u128]), radix, &["non-negative", "negative"]));
        }
    }

    // small and large values, every flag combination, widths around the length
    let mut v = vec![[0; MAXL]];
    for z in [Z::u(1), Z::u(7), Z::u(10), Z::u(255), umax(), smax(), smin(), Z::i(-1), Z::i(-10), Z::i(-255), Z::pow2(BITS / 2), Z::pow2(70).neg()] {
        v.push(raw(&z.lo()));
    }
    v.extend(space::generic(L, 1).into_iter().step_by(if tiny { 6 } else { 1 }));
    if tiny {
        v.truncate(4);
    }
    let v = space::norm(v);
    let specs: Vec<usize> = (0..DISPLAY.len()).step_by(if tiny { 11 } else { 1 }).collect();
    let rels: Vec<i128> = if tiny { vec![0, 5] } else { vec![-1000, -1, 0, 1, 2, 3, 4, 5, 8, 13] };
    let d = format!("{} values x {} flag combinations x {} minimum widths x 6 formats", v.len(), specs.len(), rels.len());
    let g: (usize, Gen, String) = (v.len(), Box::new(move |i, f| {
        let mut x = Args::new();
        x.z[0] = v[i];
        for s in &specs {
            for r in &rels {
                x.n[0] = *s as u128;
                x.n[1] = *r as u128;
                f(&x);
            }
        }
    }), d);
    out.push(suite(format!("P14/{}/flags", UN), g, flags, &["top bit clear", "top bit set"]));
}

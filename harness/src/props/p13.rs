//! P13: parsing.
use super::ty::*;
use ::i256::IntErrorKind as Kind;

fn digit(c: u8, radix: u32) -> Option<u32> {
    let d = match c {
        b'0'..=b'9' => c - b'0',
        b'a'..=b'z' => c - b'a' + 10,
        b'A'..=b'Z' => c - b'A' + 10,
        _ => return None,
    };
    if (d as u32) < radix { Some(d as u32) } else { None }
}

/// Sign and magnitude denoted by the string, the magnitude capped at 2^BITS.
fn value(s: &[u8], radix: u32) -> Option<(bool, Z)> {
    let (neg, t) = match s.first() {
        Some(b'+') => (false, &s[1..]),
        Some(b'-') => (true, &s[1..]),
        _ => (false, s),
    };
    if t.is_empty() {
        return None;
    }
    let mut m = [0u64; L + 1];
    let mut top = 1;
    for &c in t {
        let mut k = digit(c, radix)? as u128;
        if m[L] != 0 {
            continue;
        }
        for x in m[..top].iter_mut() {
            let v = *x as u128 * radix as u128 + k;
            *x = v as u64;
            k = v >> 64;
        }
        if k != 0 && top <= L {
            m[top] = k as u64;
            top += 1;
        }
    }
    if m[L] != 0 {
        return Some((neg, Z::pow2(BITS)));
    }
    Some((neg, Z::from_u(&m)))
}

fn parse(c: &mut Ctx, a: &Args) {
    let s = std::str::from_utf8(&a.s).unwrap();
    let radix = a.n[0] as u32;
    let v = value(&a.s, radix);
    let i: Option<R> = v.as_ref().and_then(|(n, m)| fit_s(&if *n { m.neg() } else { *m }));
    let u: Option<R> = v.as_ref().and_then(|(n, m)| if *n { None } else { fit_u(m) });
    // whether "-0" is a numeral of an unsigned type is left open
    let open = matches!(&v, Some((true, m)) if m.is_zero());
    c.hit(match (&v, &i) { (None, _) => 0, (_, None) => 1, (Some((true, _)), _) => 3, _ => 2 });
    if !open {
        ckp!(c, "U::from_str_radix", U::from_str_radix(s, radix).ok().map(Big::raw), Some(u));
    }
    ckp!(c, "I::from_str_radix", I::from_str_radix(s, radix).ok().map(Big::raw), Some(i));
    if radix == 10 {
        if !open {
            ckp!(c, "U::from_str", s.parse::<U>().ok().map(Big::raw), Some(u));
        }
        ckp!(c, "I::from_str", s.parse::<I>().ok().map(Big::raw), Some(i));
    }
    // the cause of a failure, as far as it can only be one
    let neg = a.s.first() == Some(&b'-');
    if i.is_none() {
        let e = cause(&a.s, radix, &v, |z| fit_s(z).is_some());
        if e != "two faults" {
            ckp!(c, "I::from_str_radix(..).kind()", kind(I::from_str_radix(s, radix)), Some(e));
        }
    }
    if u.is_none() && !neg {
        let e = cause(&a.s, radix, &v, |z| fit_u(z).is_some());
        if e != "two faults" {
            ckp!(c, "U::from_str_radix(..).kind()", kind(U::from_str_radix(s, radix)), Some(e));
        }
    }
}

fn kind<T>(r: Result<T, ::i256::ParseIntError>) -> &'static str {
    match r.as_ref().map_err(|e| e.kind()) {
        Ok(_) => "accepted",
        Err(Kind::Empty) => "empty",
        Err(Kind::InvalidDigit) => "invalid digit",
        Err(Kind::PosOverflow) => "too large",
        Err(Kind::NegOverflow) => "too small",
        Err(_) => "something else",
    }
}

/// What is wrong with a string that is rejected. A string with a bad character after digits that
/// are already too many has two faults, and either may be named.
fn cause(s: &[u8], radix: u32, v: &Option<(bool, Z)>, fits: impl Fn(&Z) -> bool) -> &'static str {
    if s.is_empty() {
        return "empty";
    }
    match v {
        Some((true, _)) => "too small",
        Some(_) => "too large",
        None => {
            let k = (1..s.len()).find(|k| digit(s[*k], radix).is_none()).unwrap_or(s.len());
            match value(&s[..k], radix) {
                Some((n, m)) if !fits(&if n { m.neg() } else { m }) => "two faults",
                _ => "invalid digit",
            }
        },
    }
}

/// A radix outside the documented range.
fn bad_radix(c: &mut Ctx, a: &Args) {
    let s = std::str::from_utf8(&a.s).unwrap();
    let radix = a.n[0] as u32;
    ckp!(c, "U::from_str_radix with a bad radix", U::from_str_radix(s, radix).is_ok(), None);
    ckp!(c, "I::from_str_radix with a bad radix", I::from_str_radix(s, radix).is_ok(), None);
}

fn cases(v: Vec<(String, u32)>, what: &str) -> (usize, Gen, String) {
    let d = format!("{} strings: {}", v.len(), what);
    const B: usize = 32;
    (v.len().div_ceil(B), Box::new(move |i, f| {
        let mut x = Args::new();
        for (s, r) in &v[i * B..((i + 1) * B).min(v.len())] {
            x.s.clear();
            x.s.extend(s.as_bytes());
            x.n[0] = *r as u128;
            f(&x);
        }
    }), d)
}

/// Every string over the alphabet up to the length, in every radix.
fn all(alpha: Vec<char>, len: usize, radices: Vec<u32>) -> (usize, Gen, String) {
    let d = format!("all strings of up to {} of {} characters, {} radices", len, alpha.len(), radices.len());
    let n = alpha.len();
    ((n + 1) * radices.len(), Box::new(move |i, f| {
        let mut x = Args::new();
        x.n[0] = radices[i / (n + 1)] as u128;
        let first = i % (n + 1);
        if first == n {
            f(&x);
            return;
        }
        fn go(alpha: &[char], left: usize, x: &mut Args, f: &mut dyn FnMut(&Args)) {
            f(x);
            if left > 0 {
                let k = x.s.len();
                for c in alpha {
                    x.s.extend(c.encode_utf8(&mut [0; 4]).as_bytes());
                    go(alpha, left - 1, x, f);
                    x.s.truncate(k);
                }
            }
        }
        x.s.extend(alpha[first].encode_utf8(&mut [0; 4]).as_bytes());
        go(&alpha, len - 1, &mut x, f);
    }), d)
}

fn numeral(z: &Z, radix: u32) -> String {
    let s: String = z.abs().to_radix(radix);
    if z.is_neg() { format!("-{}", s) } else { s }
}

pub fn suites(t: Tier, out: &mut Vec<Suite>) {
    let cl = &["not a numeral", "out of the signed range", "accepted", "accepted, negative"];
    let tiny = t == Tier::Tiny;
    let radices: Vec<u32> = if tiny { vec![2, 10, 16, 36] } else { (2..=36).collect() };
    let mut push = |n: &str, s: (usize, Gen, String)| out.push(suite(format!("P13/{}/{}", UN, n), s, parse, cl));

    let alpha: Vec<char> = "01279aAzZfg+-_ .".chars().collect();
    push("short", all(alpha, match t { Tier::Tiny => 1, Tier::Mid => 3, Tier::Quick => 4, _ => 5 }, radices.clone()));
    if !tiny {
        let bytes: Vec<char> = (0..=255u8).map(|b| b as char).collect();
        push("two-characters", all(bytes, 2, radices.clone()));
    }

    let (one, u, lo, hi) = (Z::u(1), umax(), smin(), smax());
    let mut v = Vec::new();
    let mut around: Vec<Z> = Vec::new();
    for b in [Z::u(0), u, lo, hi, u.neg(), Z::pow2(64), Z::pow2(128), Z::pow2(BITS / 2)] {
        for k in if tiny { 0..=1 } else { 0..=40u128 } {
            around.push(b.add(&Z::u(k)));
            around.push(b.sub(&Z::u(k)));
        }
    }
    for &r in &radices {
        for x in &around {
            v.push((numeral(x, r), r));
            if !tiny {
                v.push((numeral(x, r).to_uppercase(), r));
            }
        }
        // one digit too many, with every last digit
        for b in [u, lo, hi] {
            for d in 0..if tiny { 1 } else { r } {
                v.push((format!("{}{}", numeral(&b, r), char::from_digit(d, r).unwrap()), r));
            }
        }
        for b in [Z::u(0), one, one.neg(), u, lo, hi, u.add(&one), lo.sub(&one), hi.add(&one)] {
            let s = numeral(&b, r);
            let (sg, m) = match s.strip_prefix('-') { Some(m) => ("-", m), None => ("", &s[..]) };
            let zeros = if tiny { vec![1] } else { vec![1, 2, 3, 7, 8, 16, 31, 32, 64, 100, BITS as usize, 3000] };
            for z in zeros {
                v.push((format!("{}{}{}", sg, "0".repeat(z), m), r));
            }
            if sg.is_empty() {
                v.push((format!("+{}", m), r));
            }
            v.push((format!("{}{}+", sg, m), r));
            v.push((format!("{}{}-", sg, m), r));
            v.push((format!("+-{}", m), r));
            v.push((format!("-+{}", m), r));
            v.push((format!("--{}", m), r));
            v.push((format!("++{}", m), r));
            v.push((format!(" {}{}", sg, m), r));
            v.push((format!("{}{} ", sg, m), r));
        }
    }
    push("bounds", cases(v, "numerals around the bounds, signs, leading zeros, one digit too many"));

    // numerals of one repeated digit of every length, and r^k - 1, r^k, r^k + 1
    let mut v = Vec::new();
    for &r in &radices {
        let mut max = 1;
        while (r as f64).log2() * ((max - 1) as f64) < BITS as f64 {
            max += 1;
        }
        let ds: Vec<u32> = if tiny { vec![r - 1] } else if L <= 8 { (0..r).collect() } else { vec![1, r / 2, r - 1] };
        for n in (1..=max + 2).step_by(if tiny { 40 } else { 1 }) {
            for &d in &ds {
                let s: String = char::from_digit(d, r).unwrap().to_string().repeat(n);
                v.push((format!("-{}", s), r));
                v.push((s, r));
            }
            for (a, b, c) in [("1", "0", "0"), ("1", "0", "1"), ("-1", "0", "0"), ("-1", "0", "1"), ("+1", "0", "1")] {
                v.push((format!("{}{}{}", a, b.repeat(n), c), r));
            }
        }
    }
    push("lengths", cases(v, "one repeated digit, and next to a power of the radix, of every length"));

    // a bad or different character at every position
    let mut v = Vec::new();
    let bad: Vec<char> = "/:@[`{ +-_.\0\u{7f}\u{e9}0".chars().collect();
    for &r in &radices {
        if tiny && r != 10 {
            continue;
        }
        let mut bases = vec![hi.add(&Z::u(0)), lo];
        if !tiny {
            bases.extend([u, Z::pow2(BITS / 2 + 5).add(&Z::u(12345)), Z::pow2(100).add(&Z::u(98765)).neg()]);
        }
        for b in bases {
            let s = numeral(&b, r);
            let mut cs = bad.clone();
            cs.push(char::from_digit(r - 1, r).unwrap());
            cs.push(b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ["[r as usize] as char);
            for k in (0..s.len()).step_by(if tiny { 9 } else { 1 }) {
                for c in &cs {
                    if !tiny && L > 8 && k % 4 != 0 && k + 3 < s.len() {
                        continue;
                    }
                    let mut x = s[..k].to_string();
                    x.push(*c);
                    x.push_str(&s[k + 1..]);
                    v.push((x, r));
                }
            }
        }
    }
    push("substitutions", cases(v, "one character replaced at every position"));

    // numerals of structured values
    let mut v = Vec::new();
    let vals = space::lean(L, t.min(Tier::Quick));
    for &r in &radices {
        for x in vals.iter().step_by(if tiny { 2 } else if t <= Tier::Quick { 3 } else { 1 }) {
            let x: R = low(x);
            v.push((numeral(&Z::from_u(&x), r), r));
            v.push((numeral(&Z::from_s(&x), r), r));
        }
    }
    push("values", cases(v, "numerals of structured values"));
    let v: Vec<(String, u32)> = ["", "0", "1", "-1", "10", "z"].iter()
        .flat_map(|x| [0, 1, 37, 38, 64, 255, 256 + 10, u32::MAX].map(|r| (x.to_string(), r))).collect();
    out.push(suite(format!("P13/{}/bad-radix", UN), cases(v, "radices outside 2 to 36"), bad_radix, &[]));
}

//! The reference model: mathematical integers, held as two's complement numbers that are wide
//! enough (twice the width of the type under test, plus a digit) for every sum, difference,
//! product and quotient that occurs. Base 2^64 digits, schoolbook algorithms, nothing from the
//! crate under test.

use std::cmp::Ordering;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Z<const W: usize>(pub [u64; W]);

impl<const W: usize> Z<W> {
    pub const ZERO: Self = Z([0; W]);

    pub fn u(v: u128) -> Self {
        let mut r = [0; W];
        r[0] = v as u64;
        r[1] = (v >> 64) as u64;
        Z(r)
    }
    pub fn i(v: i128) -> Self {
        let mut r = [if v < 0 { u64::MAX } else { 0 }; W];
        r[0] = v as u64;
        r[1] = (v >> 64) as u64;
        Z(r)
    }
    #[inline]
    pub fn from_u<const L: usize>(v: &[u64; L]) -> Self {
        let mut r = [0; W];
        r[..L].copy_from_slice(v);
        Z(r)
    }
    #[inline]
    pub fn from_s<const L: usize>(v: &[u64; L]) -> Self {
        let mut r = [if v[L - 1] >> 63 == 1 { u64::MAX } else { 0 }; W];
        r[..L].copy_from_slice(v);
        Z(r)
    }
    /// The low digits: the value modulo 2^(64 L).
    #[inline]
    pub fn lo<const L: usize>(&self) -> [u64; L] {
        let mut r = [0; L];
        r.copy_from_slice(&self.0[..L]);
        r
    }
    #[inline]
    pub fn is_neg(&self) -> bool {
        self.0[W - 1] >> 63 == 1
    }
    pub fn is_zero(&self) -> bool {
        self.0.iter().all(|&d| d == 0)
    }
    #[inline]
    pub fn add(&self, o: &Self) -> Self {
        let mut r = [0; W];
        let mut c = 0u128;
        for i in 0..W {
            let t = self.0[i] as u128 + o.0[i] as u128 + c;
            r[i] = t as u64;
            c = t >> 64;
        }
        Z(r)
    }
    #[inline]
    pub fn not(&self) -> Self {
        let mut r = [0; W];
        for i in 0..W {
            r[i] = !self.0[i];
        }
        Z(r)
    }
    pub fn neg(&self) -> Self {
        self.not().add(&Z::u(1))
    }
    #[inline]
    pub fn sub(&self, o: &Self) -> Self {
        let mut r = [0; W];
        let mut b = 0u64;
        for i in 0..W {
            let t = (self.0[i] as u128).wrapping_sub(o.0[i] as u128).wrapping_sub(b as u128);
            r[i] = t as u64;
            b = ((t >> 64) as u64) & 1;
        }
        Z(r)
    }
    pub fn mul(&self, o: &Self) -> Self {
        let (n, a) = (self.is_neg(), self.abs());
        let (m, b) = (o.is_neg(), o.abs());
        let mut r = [0u64; W];
        let bl = b.digits();
        for i in 0..a.digits() {
            if a.0[i] == 0 {
                continue;
            }
            let mut c = 0u128;
            let mut j = 0;
            while i + j < W && (j < bl || c != 0) {
                let bj = if j < bl { b.0[j] } else { 0 };
                let t = a.0[i] as u128 * bj as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
                j += 1;
            }
        }
        if n != m {
            Z(r).neg()
        } else {
            Z(r)
        }
    }
    /// Number of digits up to the last non-zero one (of a non-negative number).
    pub fn digits(&self) -> usize {
        let mut n = W;
        while n > 0 && self.0[n - 1] == 0 {
            n -= 1;
        }
        n
    }
    /// Number of significant bits of a non-negative number.
    pub fn bits(&self) -> u32 {
        let n = self.digits();
        if n == 0 {
            0
        } else {
            64 * n as u32 - self.0[n - 1].leading_zeros()
        }
    }
    #[inline]
    pub fn abs(&self) -> Self {
        if self.is_neg() {
            self.neg()
        } else {
            *self
        }
    }
    pub fn bit(&self, i: u32) -> bool {
        self.0[(i / 64) as usize] >> (i % 64) & 1 == 1
    }
    pub fn set(&mut self, i: u32) {
        self.0[(i / 64) as usize] |= 1 << (i % 64);
    }
    pub fn pow2(k: u32) -> Self {
        let mut r = Self::ZERO;
        r.set(k);
        r
    }
    pub fn shl(&self, k: u32) -> Self {
        let (q, b) = ((k / 64) as usize, k % 64);
        let mut r = [0; W];
        for i in (q..W).rev() {
            r[i] = self.0[i - q] << b;
            if b > 0 && i > q {
                r[i] |= self.0[i - q - 1] >> (64 - b);
            }
        }
        Z(r)
    }
    /// Arithmetic shift right, i.e. floor division by 2^k.
    pub fn shr(&self, k: u32) -> Self {
        let fill = if self.is_neg() { u64::MAX } else { 0 };
        let (q, b) = ((k / 64) as usize, k % 64);
        let d = |i: usize| if i < W { self.0[i] } else { fill };
        let mut r = [0; W];
        for i in 0..W {
            r[i] = d(i + q) >> b;
            if b > 0 {
                r[i] |= d(i + q + 1) << (64 - b);
            }
        }
        Z(r)
    }
    #[inline]
    pub fn cmp(&self, o: &Self) -> Ordering {
        match (self.0[W - 1] as i64).cmp(&(o.0[W - 1] as i64)) {
            Ordering::Equal => {
                for i in (0..W - 1).rev() {
                    match self.0[i].cmp(&o.0[i]) {
                        Ordering::Equal => {},
                        x => return x,
                    }
                }
                Ordering::Equal
            },
            x => x,
        }
    }
    pub fn lt(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Less
    }
    pub fn le(&self, o: &Self) -> bool {
        self.cmp(o) != Ordering::Greater
    }
    /// Representable as an unsigned number of `64 l` bits.
    #[inline]
    pub fn fits_u(&self, l: usize) -> bool {
        self.0[l..].iter().all(|&d| d == 0)
    }
    /// Representable as a signed number of `64 l` bits.
    #[inline]
    pub fn fits_s(&self, l: usize) -> bool {
        let f = if self.0[l - 1] >> 63 == 1 { u64::MAX } else { 0 };
        self.0[l..].iter().all(|&d| d == f)
    }
    /// Divide a non-negative number by a small one.
    pub fn divrem_small(&self, d: u64) -> (Self, u64) {
        debug_assert!(!self.is_neg());
        let mut r = [0; W];
        let mut c = 0u128;
        for i in (0..W).rev() {
            let t = c << 64 | self.0[i] as u128;
            r[i] = (t / d as u128) as u64;
            c = t % d as u128;
        }
        (Z(r), c as u64)
    }
    /// Truncating division, bit by bit (used to build inputs, not to judge results).
    pub fn divrem(&self, d: &Self) -> (Self, Self) {
        let (n, m) = (self.abs(), d.abs());
        let (mut q, mut r) = (Self::ZERO, Self::ZERO);
        if m.0[1..].iter().all(|&x| x == 0) {
            let (a, b) = n.divrem_small(m.0[0]);
            q = a;
            r = Z::u(b as u128);
        } else {
            let mut i = n.bits();
            while i > 0 {
                i -= 1;
                r = r.shl(1);
                if n.bit(i) {
                    r.0[0] |= 1;
                }
                if m.le(&r) {
                    r = r.sub(&m);
                    q.set(i);
                }
            }
        }
        if self.is_neg() {
            r = r.neg();
        }
        if self.is_neg() != d.is_neg() {
            q = q.neg();
        }
        (q, r)
    }
    /// Canonical numeral with lower case digits.
    pub fn to_radix(&self, radix: u32) -> String {
        // the largest power of the radix that fits a digit
        let (mut big, mut n) = (radix as u64, 1);
        while let Some(x) = big.checked_mul(radix as u64) {
            big = x;
            n += 1;
        }
        let mut out: Vec<u8> = Vec::new();
        let mut v = self.abs();
        while !v.is_zero() {
            let (q, mut r) = v.divrem_small(big);
            for _ in 0..n {
                out.push(std::char::from_digit((r % radix as u64) as u32, radix).unwrap() as u8);
                r /= radix as u64;
            }
            v = q;
        }
        while out.last() == Some(&b'0') {
            out.pop();
        }
        if out.is_empty() {
            out.push(b'0');
        }
        if self.is_neg() {
            out.push(b'-');
        }
        out.reverse();
        String::from_utf8(out).unwrap()
    }
    /// self^e if it stays below 2^(64 l), in magnitude.
    pub fn pow_capped(&self, e: u32, l: usize) -> Option<Self> {
        let mut r = Z::u(1);
        // |base| <= 1 would loop for long
        if self.is_zero() {
            return Some(if e == 0 { r } else { Self::ZERO });
        }
        if self.abs() == Z::u(1) {
            return Some(if self.is_neg() && e % 2 == 1 { Z::i(-1) } else { r });
        }
        for _ in 0..e {
            r = r.mul(self);
            if !r.abs().fits_u(l) {
                return None;
            }
        }
        Some(r)
    }
    /// self^e modulo 2^(64 l), as a non-negative number, by plain square and multiply.
    pub fn pow_mod(&self, e: u32, l: usize) -> Self {
        let cut = |z: Self| {
            let mut z = z;
            for d in &mut z.0[l..] {
                *d = 0;
            }
            z
        };
        let b = cut(*self);
        let mut r = Z::u(1);
        for i in (0..32).rev() {
            r = cut(r.mul(&r));
            if e >> i & 1 == 1 {
                r = cut(r.mul(&b));
            }
        }
        r
    }
}

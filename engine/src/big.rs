//! Minimal signed big integer used by the engine (and by the native replay runtime).
//! Independent of the library under verification.
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Big {
    neg: bool,
    mag: Vec<u32>, // little endian, no leading zeros
}

fn trim(v: &mut Vec<u32>) {
    while let Some(&0) = v.last() {
        v.pop();
    }
}
fn cmp_mag(a: &[u32], b: &[u32]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}
fn add_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u64;
    for i in 0..a.len() {
        let s = a[i] as u64 + if i < b.len() { b[i] as u64 } else { 0 } + c;
        r.push(s as u32);
        c = s >> 32;
    }
    if c != 0 {
        r.push(c as u32);
    }
    r
}
fn sub_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len());
    let mut br = 0i64;
    for i in 0..a.len() {
        let mut d = a[i] as i64 - br - if i < b.len() { b[i] as i64 } else { 0 };
        if d < 0 {
            d += 1 << 32;
            br = 1;
        } else {
            br = 0;
        }
        r.push(d as u32);
    }
    assert!(br == 0);
    trim(&mut r);
    r
}
fn mul_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![0u32; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u64;
        for j in 0..b.len() {
            let t = a[i] as u64 * b[j] as u64 + r[i + j] as u64 + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        r[i + b.len()] = c as u32;
    }
    trim(&mut r);
    r
}
/// schoolbook bitwise-free long division (base 2^32, Knuth via u64/u128 with simple estimate)
fn divrem_mag(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
    assert!(!b.is_empty());
    if cmp_mag(a, b) == Ordering::Less {
        return (vec![], a.to_vec());
    }
    if b.len() == 1 {
        let d = b[0] as u64;
        let mut q = vec![0u32; a.len()];
        let mut r = 0u64;
        for i in (0..a.len()).rev() {
            let cur = (r << 32) | a[i] as u64;
            q[i] = (cur / d) as u32;
            r = cur % d;
        }
        trim(&mut q);
        let mut rv = vec![r as u32];
        trim(&mut rv);
        return (q, rv);
    }
    // bit by bit on the top: shift-subtract per bit, simple and obviously right
    let mut q = vec![0u32; a.len()];
    let mut r: Vec<u32> = vec![];
    for i in (0..a.len()).rev() {
        for bit in (0..32).rev() {
            // r = 2r + bit
            let mut c = (a[i] >> bit) & 1;
            for w in r.iter_mut() {
                let n = *w >> 31;
                *w = (*w << 1) | c;
                c = n;
            }
            if c != 0 {
                r.push(c);
            }
            if cmp_mag(&r, b) != Ordering::Less {
                r = sub_mag(&r, b);
                q[i] |= 1 << bit;
            }
        }
    }
    trim(&mut q);
    (q, r)
}

impl Big {
    fn mk(neg: bool, mut mag: Vec<u32>) -> Big {
        trim(&mut mag);
        let neg = neg && !mag.is_empty();
        Big { neg, mag }
    }
    pub fn zero() -> Big {
        Big { neg: false, mag: vec![] }
    }
    pub fn one() -> Big {
        Big::from_u128(1)
    }
    pub fn from_u128(mut x: u128) -> Big {
        let mut m = vec![];
        while x != 0 {
            m.push(x as u32);
            x >>= 32;
        }
        Big { neg: false, mag: m }
    }
    pub fn from_i128(x: i128) -> Big {
        let b = Big::from_u128(x.unsigned_abs());
        if x < 0 {
            b.neg()
        } else {
            b
        }
    }
    pub fn from_u64s(w: &[u64]) -> Big {
        let mut m = vec![];
        for &x in w {
            m.push(x as u32);
            m.push((x >> 32) as u32);
        }
        Big::mk(false, m)
    }
    pub fn pow2(k: usize) -> Big {
        let mut m = vec![0u32; k / 32 + 1];
        m[k / 32] = 1 << (k % 32);
        Big { neg: false, mag: m }
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
    pub fn is_neg(&self) -> bool {
        self.neg
    }
    pub fn is_one(&self) -> bool {
        !self.neg && self.mag.len() == 1 && self.mag[0] == 1
    }
    pub fn signum(&self) -> i32 {
        if self.mag.is_empty() {
            0
        } else if self.neg {
            -1
        } else {
            1
        }
    }
    pub fn neg(&self) -> Big {
        Big::mk(!self.neg, self.mag.clone())
    }
    pub fn abs(&self) -> Big {
        Big { neg: false, mag: self.mag.clone() }
    }
    pub fn add(&self, o: &Big) -> Big {
        if self.neg == o.neg {
            Big::mk(self.neg, add_mag(&self.mag, &o.mag))
        } else {
            match cmp_mag(&self.mag, &o.mag) {
                Ordering::Equal => Big::zero(),
                Ordering::Greater => Big::mk(self.neg, sub_mag(&self.mag, &o.mag)),
                Ordering::Less => Big::mk(o.neg, sub_mag(&o.mag, &self.mag)),
            }
        }
    }
    pub fn sub(&self, o: &Big) -> Big {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Big) -> Big {
        Big::mk(self.neg != o.neg, mul_mag(&self.mag, &o.mag))
    }
    /// floor division and non-negative remainder for o > 0
    pub fn divmod_floor(&self, o: &Big) -> (Big, Big) {
        assert!(!o.neg && !o.is_zero());
        if o.is_one() {
            return (self.clone(), Big::zero());
        }
        let (q, r) = divrem_mag(&self.mag, &o.mag);
        let q = Big::mk(false, q);
        let r = Big::mk(false, r);
        if !self.neg {
            (q, r)
        } else if r.is_zero() {
            (q.neg(), r)
        } else {
            (q.neg().sub(&Big::one()), o.sub(&r))
        }
    }
    /// truncated division
    pub fn divrem_trunc(&self, o: &Big) -> (Big, Big) {
        let (q, r) = divrem_mag(&self.mag, &o.mag);
        (Big::mk(self.neg != o.neg, q), Big::mk(self.neg, r))
    }
    pub fn shl(&self, k: usize) -> Big {
        if self.is_zero() {
            return Big::zero();
        }
        let mut m = vec![0u32; k / 32];
        let s = k % 32;
        let mut c = 0u32;
        for &w in &self.mag {
            if s == 0 {
                m.push(w);
            } else {
                m.push((w << s) | c);
                c = w >> (32 - s);
            }
        }
        if c != 0 {
            m.push(c);
        }
        Big::mk(self.neg, m)
    }
    pub fn shr_floor(&self, k: usize) -> Big {
        if !self.neg {
            let s = k % 32;
            let ws = k / 32;
            if ws >= self.mag.len() {
                return Big::zero();
            }
            let mut m = vec![];
            for i in ws..self.mag.len() {
                let lo = self.mag[i] >> s;
                let hi = if s > 0 && i + 1 < self.mag.len() { self.mag[i + 1] << (32 - s) } else { 0 };
                m.push(lo | hi);
            }
            Big::mk(false, m)
        } else {
            // floor(-x / 2^k) = -ceil(x/2^k) = -((x + 2^k - 1) >> k)
            self.neg().add(&Big::pow2(k)).sub(&Big::one()).shr_floor(k).neg()
        }
    }
    pub fn bits(&self) -> usize {
        match self.mag.last() {
            None => 0,
            Some(t) => self.mag.len() * 32 - t.leading_zeros() as usize,
        }
    }
    pub fn to_u128(&self) -> Option<u128> {
        if self.neg || self.mag.len() > 4 {
            return None;
        }
        let mut r = 0u128;
        for &w in self.mag.iter().rev() {
            r = (r << 32) | w as u128;
        }
        Some(r)
    }
    pub fn low_u128(&self) -> u128 {
        // value mod 2^128 (two's complement for negatives)
        let mut r = 0u128;
        for &w in self.mag.iter().take(4).rev() {
            r = (r << 32) | w as u128;
        }
        if self.neg {
            r.wrapping_neg()
        } else {
            r
        }
    }
    pub fn words64(&self) -> Vec<u64> {
        let mut r = vec![];
        for c in self.mag.chunks(2) {
            r.push(c[0] as u64 | ((*c.get(1).unwrap_or(&0) as u64) << 32));
        }
        r
    }
    pub fn parse_dec(s: &str) -> Option<Big> {
        let (neg, d) = match s.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, s),
        };
        if d.is_empty() {
            return None;
        }
        let mut m: Vec<u32> = vec![];
        let by = d.as_bytes();
        let mut i = 0;
        while i < by.len() {
            let mut chunk = 0u64;
            let mut mulv = 1u64;
            while i < by.len() && mulv < 1_000_000_000 {
                if !by[i].is_ascii_digit() {
                    return None;
                }
                chunk = chunk * 10 + (by[i] - b'0') as u64;
                mulv *= 10;
                i += 1;
            }
            let mut c = chunk;
            for w in m.iter_mut() {
                let t = *w as u64 * mulv + c;
                *w = t as u32;
                c = t >> 32;
            }
            if c != 0 {
                m.push(c as u32);
            }
        }
        Some(Big::mk(neg, m))
    }
    pub fn dec(&self) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut parts = vec![];
        let mut m = self.mag.clone();
        while !m.is_empty() {
            let mut r = 0u64;
            for w in m.iter_mut().rev() {
                let cur = (r << 32) | *w as u64;
                *w = (cur / 1_000_000_000) as u32;
                r = cur % 1_000_000_000;
            }
            trim(&mut m);
            parts.push(r);
        }
        let mut s = String::new();
        if self.neg {
            s.push('-');
        }
        s.push_str(&format!("{}", parts.pop().unwrap()));
        while let Some(p) = parts.pop() {
            s.push_str(&format!("{:09}", p));
        }
        s
    }
    pub fn smt(&self) -> String {
        if self.neg {
            format!("(- {})", self.abs().dec())
        } else {
            self.dec()
        }
    }
}
impl PartialOrd for Big {
    fn partial_cmp(&self, o: &Big) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Big {
    fn cmp(&self, o: &Big) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => cmp_mag(&self.mag, &o.mag),
            (true, true) => cmp_mag(&o.mag, &self.mag),
        }
    }
}

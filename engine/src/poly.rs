//! Integer encoding. Machine words become polynomials over integer atoms; every wrap-around, truncation, shift and
//! comparison introduces an explicit quotient (carry/borrow) atom with its defining inequalities, so the encoding
//! keeps the mod 2^k semantics exactly. Products stay monomials; the solver sees them linearised with McCormick
//! bounds (an over-approximation: unsat is conclusive, sat is only a candidate).
use crate::big::Big;
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write;
use std::sync::Arc as Rc;

pub type A = u32;
pub type Mono = Vec<A>;
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Poly(pub Vec<(Mono, Big)>); // sorted by monomial, no zero coefficients

#[derive(Clone, Debug)]
pub enum Fact {
    Ge0(Poly),
    Or(Vec<Poly>), // one of them >= 0
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Key {
    Sym(u32),
    Quot(Poly, Big),
    Eq(Poly),
    Div(Poly, Poly),
    Opaque(T),
}
pub struct Atom {
    key: Key,
    pub lo: Big,
    pub hi: Big,
    pub facts: Vec<Fact>,
    pub boolean: bool,
    pub off: Big, // the represented quantity is atom + off
}
/// den * value = sum(c * monomial) + e with e in [lo, hi]; the monomials are inputs (never quotients)
#[derive(Clone, Debug)]
pub struct Aff {
    den: Big,
    c: BTreeMap<Mono, Big>,
    lo: Big,
    hi: Big,
}
pub struct Ctx {
    pub atoms: Vec<Atom>,
    map: HashMap<Key, Poly>,
    memo: HashMap<T, Rc<Poly>>,
    pub limit: usize,
    pub opaque: bool,
    affs: HashMap<A, Option<Rc<Aff>>>,
    pub comments: bool,
    pub tried: u64,
    pub reduced: u64,
}
pub type E<X> = Result<X, String>;

impl Poly {
    pub fn zero() -> Poly {
        Poly(vec![])
    }
    pub fn c(b: Big) -> Poly {
        if b.is_zero() {
            Poly(vec![])
        } else {
            Poly(vec![(vec![], b)])
        }
    }
    pub fn atom(a: A) -> Poly {
        Poly(vec![(vec![a], Big::one())])
    }
    pub fn as_const(&self) -> Option<Big> {
        match self.0.len() {
            0 => Some(Big::zero()),
            1 if self.0[0].0.is_empty() => Some(self.0[0].1.clone()),
            _ => None,
        }
    }
    pub fn constant(&self) -> Big {
        match self.0.first() {
            Some((m, c)) if m.is_empty() => c.clone(),
            _ => Big::zero(),
        }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let mut r = Vec::with_capacity(self.0.len() + o.0.len());
        let (mut i, mut j) = (0, 0);
        while i < self.0.len() && j < o.0.len() {
            match self.0[i].0.cmp(&o.0[j].0) {
                std::cmp::Ordering::Less => {
                    r.push(self.0[i].clone());
                    i += 1;
                }
                std::cmp::Ordering::Greater => {
                    r.push(o.0[j].clone());
                    j += 1;
                }
                _ => {
                    let s = self.0[i].1.add(&o.0[j].1);
                    if !s.is_zero() {
                        r.push((self.0[i].0.clone(), s));
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
        r.extend_from_slice(&self.0[i..]);
        r.extend_from_slice(&o.0[j..]);
        Poly(r)
    }
    pub fn scale(&self, k: &Big) -> Poly {
        if k.is_zero() {
            return Poly::zero();
        }
        Poly(self.0.iter().map(|(m, c)| (m.clone(), c.mul(k))).collect())
    }
    pub fn neg(&self) -> Poly {
        Poly(self.0.iter().map(|(m, c)| (m.clone(), c.neg())).collect())
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.add(&o.neg())
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx { atoms: vec![], map: HashMap::new(), memo: HashMap::new(), limit: 60000, opaque: false, affs: HashMap::new(), comments: std::env::var("VSYM_DUMP").is_ok(), tried: 0, reduced: 0 }
    }
    fn mk_atom(&mut self, key: Key, lo: Big, hi: Big, mkfacts: impl FnOnce(&Poly) -> Vec<Fact>) -> Poly {
        if let Some(p) = self.map.get(&key) {
            return p.clone();
        }
        if lo == hi {
            let p = Poly::c(lo);
            self.map.insert(key, p.clone());
            return p;
        }
        let a = self.atoms.len() as A;
        // two-valued quantities become lo + boolean
        let boolean = hi.sub(&lo).is_one();
        let (p, alo, ahi, off) = if boolean {
            (Poly::atom(a).add(&Poly::c(lo.clone())), Big::zero(), Big::one(), lo)
        } else {
            (Poly::atom(a), lo, hi, Big::zero())
        };
        self.atoms.push(Atom { key: key.clone(), lo: alo, hi: ahi, facts: vec![], boolean, off });
        let f = mkfacts(&p);
        self.atoms[a as usize].facts = f;
        self.map.insert(key, p.clone());
        p
    }
    pub fn mono_rng(&self, m: &Mono) -> (Big, Big) {
        let mut lo = Big::one();
        let mut hi = Big::one();
        for &a in m {
            let at = &self.atoms[a as usize];
            let v = [lo.mul(&at.lo), lo.mul(&at.hi), hi.mul(&at.lo), hi.mul(&at.hi)];
            lo = v.iter().min().unwrap().clone();
            hi = v.iter().max().unwrap().clone();
        }
        (lo, hi)
    }
    pub fn rng(&self, p: &Poly) -> (Big, Big) {
        let mut lo = Big::zero();
        let mut hi = Big::zero();
        for (m, c) in &p.0 {
            let (l, h) = self.mono_rng(m);
            if c.is_neg() {
                lo = lo.add(&c.mul(&h));
                hi = hi.add(&c.mul(&l));
            } else {
                lo = lo.add(&c.mul(&l));
                hi = hi.add(&c.mul(&h));
            }
        }
        (lo, hi)
    }
    pub fn mul(&self, a: &Poly, b: &Poly) -> E<Poly> {
        if a.0.len() * b.0.len() > self.limit {
            return Err("polynomial too large".into());
        }
        let mut r: BTreeMap<Mono, Big> = BTreeMap::new();
        for (m1, c1) in &a.0 {
            for (m2, c2) in &b.0 {
                let mut m = Vec::with_capacity(m1.len() + m2.len());
                let (mut i, mut j) = (0, 0);
                while i < m1.len() || j < m2.len() {
                    let x = if j >= m2.len() || (i < m1.len() && m1[i] <= m2[j]) {
                        i += 1;
                        m1[i - 1]
                    } else {
                        j += 1;
                        m2[j - 1]
                    };
                    if m.last() == Some(&x) && self.atoms[x as usize].boolean {
                        continue;
                    }
                    m.push(x);
                }
                let c = c1.mul(c2);
                let e = r.entry(m).or_insert_with(Big::zero);
                *e = e.add(&c);
            }
        }
        Ok(Poly(r.into_iter().filter(|(_, c)| !c.is_zero()).collect()))
    }
    /// floor(p / m) for a constant m > 0; (lo, hi) bound the value of p
    pub fn quot(&mut self, p: &Poly, m: &Big, lo: &Big, hi: &Big) -> E<Poly> {
        if m.is_one() {
            return Ok(p.clone());
        }
        let half = m.shr_floor(1);
        let mut p1 = vec![];
        let mut p0 = vec![];
        for (mo, c) in &p.0 {
            let (mut q, mut r) = c.divmod_floor(m);
            if !mo.is_empty() && r > half {
                r = r.sub(m);
                q = q.add(&Big::one());
            }
            if !q.is_zero() {
                p1.push((mo.clone(), q));
            }
            if !r.is_zero() {
                p0.push((mo.clone(), r));
            }
        }
        let p1 = Poly(p1);
        let mut p0 = Poly(p0);
        if p0.as_const().is_some() {
            return Ok(p1); // residue constant in [0,m)
        }
        let mut m = m.clone();
        // common content
        let mut g: Option<Big> = Some(m.clone());
        for (mo, c) in &p0.0 {
            if mo.is_empty() {
                continue;
            }
            g = Some(gcd(&g.unwrap(), &c.abs()));
        }
        let g = g.unwrap();
        let (mut lo0, mut hi0) = self.rng(&p0);
        if let Some(k) = p1.as_const() {
            let km = k.mul(&m);
            lo0 = lo0.max(lo.sub(&km));
            hi0 = hi0.min(hi.sub(&km));
        }
        if !g.is_one() {
            p0 = Poly(
                p0.0.iter()
                    .map(|(mo, c)| (mo.clone(), if mo.is_empty() { c.divmod_floor(&g).0 } else { c.divmod_floor(&g).0 }))
                    .filter(|(_, c)| !c.is_zero())
                    .collect(),
            );
            m = m.divmod_floor(&g).0;
            lo0 = lo0.divmod_floor(&g).0;
            hi0 = hi0.divmod_floor(&g).0;
            if m.is_one() {
                return Ok(p1.add(&p0));
            }
            let q0 = self.quot(&p0, &m, &lo0, &hi0)?;
            return Ok(p1.add(&q0));
        }
        // nested floor: p0 = q + c with q = floor(p'/a)
        let nonconst: Vec<&(Mono, Big)> = p0.0.iter().filter(|(mo, _)| !mo.is_empty()).collect();
        if nonconst.len() == 1 && nonconst[0].1.is_one() && nonconst[0].0.len() == 1 {
            let a = nonconst[0].0[0];
            if let Key::Quot(pp, aa) = self.atoms[a as usize].key.clone() {
                if !self.atoms[a as usize].boolean {
                    let c = p0.constant();
                    let np = pp.add(&Poly::c(c.mul(&aa)));
                    let nm = aa.mul(&m);
                    let nlo = lo0.mul(&aa);
                    let nhi = hi0.add(&Big::one()).mul(&aa).sub(&Big::one());
                    let q0 = self.quot(&np, &nm, &nlo, &nhi)?;
                    return Ok(p1.add(&q0));
                }
            }
        }
        let ql = lo0.divmod_floor(&m).0;
        let qh = hi0.divmod_floor(&m).0;
        if ql == qh {
            return Ok(p1.add(&Poly::c(ql)));
        }
        if qh.sub(&ql) > Big::from_u128(2) {
            if let Some((t, r, rl, rh)) = self.reduce(p, &p0, &m, &lo0, &hi0) {
                let ql = rl.divmod_floor(&m).0;
                let qh = rh.divmod_floor(&m).0;
                if ql == qh {
                    return Ok(t.add(&Poly::c(ql)));
                }
                let key = Key::Quot(r.clone(), m.clone());
                let fresh = !self.map.contains_key(&key);
                let q0 = self.mk_atom(key, ql, qh, |q| {
                    let r = r.sub(&q.scale(&m));
                    vec![Fact::Ge0(r.clone()), Fact::Ge0(Poly::c(m.sub(&Big::one())).sub(&r))]
                });
                let res = t.add(&q0);
                if fresh {
                    // link with the coefficient-wise reduced representation of the same quotient
                    let (l1, h1) = (lo0.divmod_floor(&m).0, hi0.divmod_floor(&m).0);
                    let qa = self.mk_atom(Key::Quot(p0.clone(), m.clone()), l1, h1, |q| {
                        let r = p0.sub(&q.scale(&m));
                        vec![Fact::Ge0(r.clone()), Fact::Ge0(Poly::c(m.sub(&Big::one())).sub(&r))]
                    });
                    let d = p1.add(&qa).sub(&res);
                    for x in [&qa, &q0] {
                        if let Some((mo, _)) = x.0.last() {
                            if mo.len() == 1 {
                                let a = mo[0] as usize;
                                self.atoms[a].facts.push(Fact::Ge0(d.clone()));
                                self.atoms[a].facts.push(Fact::Ge0(d.neg()));
                            }
                        }
                    }
                }
                return Ok(res);
            }
        }
        // sign test: canonical smallest power of two modulus
        if lo0.is_neg() && !hi0.is_neg() && ql == Big::from_i128(-1) && qh.is_zero() {
            let k = lo0.abs().sub(&Big::one()).bits().max(hi0.bits());
            let mm = Big::pow2(k);
            if mm < m {
                m = mm;
            }
        }
        let key = Key::Quot(p0.clone(), m.clone());
        let q0 = self.mk_atom(key, ql, qh, |q| {
            let r = p0.sub(&q.scale(&m));
            vec![Fact::Ge0(r.clone()), Fact::Ge0(Poly::c(m.sub(&Big::one())).sub(&r))]
        });
        Ok(p1.add(&q0))
    }
    fn aff_atom(&mut self, a: A) -> Option<Rc<Aff>> {
        if let Some(x) = self.affs.get(&a) {
            return x.clone();
        }
        let r = match self.atoms[a as usize].key.clone() {
            Key::Quot(p, m) => self.aff_poly(&p).and_then(|f| {
                let den = f.den.mul(&m);
                if den.bits() > 1500 {
                    return None;
                }
                let sh = den.mul(&self.atoms[a as usize].off);
                let lo = f.lo.sub(&f.den.mul(&m.sub(&Big::one()))).sub(&sh);
                let hi = f.hi.sub(&sh);
                Some(Rc::new(Aff { den, c: f.c, lo, hi }))
            }),
            _ => {
                let mut c = BTreeMap::new();
                c.insert(vec![a], Big::one());
                Some(Rc::new(Aff { den: Big::one(), c, lo: Big::zero(), hi: Big::zero() }))
            }
        };
        self.affs.insert(a, r.clone());
        r
    }
    fn aff_poly(&mut self, p: &Poly) -> Option<Aff> {
        let mut den = Big::one();
        let mut parts: Vec<(Rc<Aff>, Big)> = vec![];
        let mut lo = Big::zero();
        let mut own: Vec<(Mono, Big)> = vec![];
        for (m, k) in &p.0 {
            match m.len() {
                0 => lo = k.clone(),
                1 => {
                    let f = self.aff_atom(m[0])?;
                    if f.den.is_one() && f.lo.is_zero() && f.hi.is_zero() && f.c.len() == 1 {
                        own.push((m.clone(), k.clone()));
                        continue;
                    }
                    let g = gcd(&den, &f.den);
                    den = den.mul(&f.den.divmod_floor(&g).0);
                    if den.bits() > 1500 {
                        return None;
                    }
                    parts.push((f, k.clone()));
                }
                _ => own.push((m.clone(), k.clone())),
            }
        }
        let mut c: BTreeMap<Mono, Big> = BTreeMap::new();
        lo = lo.mul(&den);
        let mut hi = lo.clone();
        for (m, k) in own {
            let e = c.entry(m).or_insert_with(Big::zero);
            *e = e.add(&k.mul(&den));
        }
        for (f, k) in parts {
            let s = den.divmod_floor(&f.den).0.mul(&k);
            for (m, x) in &f.c {
                let e = c.entry(m.clone()).or_insert_with(Big::zero);
                *e = e.add(&x.mul(&s));
            }
            if s.is_neg() {
                lo = lo.add(&f.hi.mul(&s));
                hi = hi.add(&f.lo.mul(&s));
            } else {
                lo = lo.add(&f.lo.mul(&s));
                hi = hi.add(&f.hi.mul(&s));
            }
        }
        c.retain(|_, x| !x.is_zero());
        Some(Aff { den, c, lo, hi })
    }
    /// sound bounds through the linear approximation of all quotients
    fn aff_rng(&mut self, p: &Poly) -> Option<(Big, Big)> {
        let f = self.aff_poly(p)?;
        let mut lo = f.lo.clone();
        let mut hi = f.hi.clone();
        for (m, c) in &f.c {
            let (l, h) = self.mono_rng(m);
            if c.is_neg() {
                lo = lo.add(&c.mul(&h));
                hi = hi.add(&c.mul(&l));
            } else {
                lo = lo.add(&c.mul(&l));
                hi = hi.add(&c.mul(&h));
            }
        }
        // ceil(lo/den), floor(hi/den)
        let l = lo.neg().divmod_floor(&f.den).0.neg();
        Some((l, hi.divmod_floor(&f.den).0))
    }
    fn closure(&self, p: &Poly, out: &mut Vec<A>, seen: &mut HashSet<A>, cap: usize) -> bool {
        for (m, _) in &p.0 {
            for &a in m {
                if seen.insert(a) {
                    out.push(a);
                    if out.len() > cap {
                        return false;
                    }
                    if let Key::Quot(q, _) = &self.atoms[a as usize].key {
                        if !self.closure(&q.clone(), out, seen, cap) {
                            return false;
                        }
                    }
                }
            }
        }
        true
    }
    /// find r = p - m*t with a much smaller range than p0 (p0 = p mod m, coefficient-wise); t integral
    fn reduce(&mut self, p: &Poly, p0: &Poly, m: &Big, lo0: &Big, hi0: &Big) -> Option<(Poly, Poly, Big, Big)> {
        if p.0.len() > 40 || !p0.0.iter().any(|(mo, _)| mo.len() == 1 && matches!(self.atoms[mo[0] as usize].key, Key::Quot(..))) {
            return None;
        }
        let mut cl = vec![];
        let mut seen = HashSet::new();
        if !self.closure(p, &mut cl, &mut seen, 60) {
            return None;
        }
        self.tried += 1;
        let w0 = hi0.sub(lo0);
        let mf = big_f64(m);
        // candidates: single atoms of the closure plus the nonlinear monomials of p
        let mut cands: Vec<Mono> = cl.iter().map(|&a| vec![a]).collect();
        for (mo, _) in &p.0 {
            if mo.len() >= 2 {
                cands.push(mo.clone());
            }
        }
        let mut base: HashMap<Mono, usize> = HashMap::new();
        let mut width: Vec<f64> = vec![];
        let mut slopes: Vec<(Vec<(usize, f64)>, f64)> = vec![];
        for c in &cands {
            let f = if c.len() == 1 {
                self.aff_atom(c[0])?
            } else {
                let mut k = BTreeMap::new();
                k.insert(c.clone(), Big::one());
                Rc::new(Aff { den: Big::one(), c: k, lo: Big::zero(), hi: Big::zero() })
            };
            let d = big_f64(&f.den);
            let mut v = vec![];
            for (mo, x) in &f.c {
                let n = base.len();
                let i = *base.entry(mo.clone()).or_insert(n);
                if i == n {
                    let (l, h) = self.mono_rng(mo);
                    width.push(big_f64(&h.sub(&l)));
                }
                v.push((i, big_ratio(x, &f.den)));
            }
            slopes.push((v, big_f64(&f.hi.sub(&f.lo)) / d));
        }
        let nb = base.len();
        let cost = |co: &Vec<f64>| -> f64 {
            let mut l = vec![0.0; nb];
            let mut e = 0.0;
            for (i, c) in co.iter().enumerate() {
                if *c != 0.0 {
                    for (b, s) in &slopes[i].0 {
                        l[*b] += c * s;
                    }
                    e += c.abs() * slopes[i].1;
                }
            }
            for b in 0..nb {
                e += l[b].abs() * width[b];
            }
            e
        };
        let mut best: Option<(Poly, Poly, Big, Big)> = None;
        let mut best_w = w0.clone();
        for start in [p, p0] {
            let idx: HashMap<&Mono, usize> = cands.iter().enumerate().map(|(i, c)| (c, i)).collect();
            let mut co = vec![0.0; cands.len()];
            let mut ok = true;
            for (mo, c) in &start.0 {
                if !mo.is_empty() {
                    match idx.get(mo) {
                        Some(&i) => co[i] = big_f64(c),
                        None => ok = false,
                    }
                }
            }
            if !ok {
                continue;
            }
            let mut t: Vec<Big> = vec![Big::zero(); cands.len()];
            let mut cur = cost(&co);
            for _ in 0..24 {
                let mut l = vec![0.0; nb];
                for (i, c) in co.iter().enumerate() {
                    if *c != 0.0 {
                        for (b, s) in &slopes[i].0 {
                            l[*b] += c * s;
                        }
                    }
                }
                let mut mv: Option<(f64, usize, f64)> = None;
                for i in 0..cands.len() {
                    for (b, s) in &slopes[i].0 {
                        if *s == 0.0 {
                            continue;
                        }
                        let k = (l[*b] / (s * mf)).round();
                        if k == 0.0 || !k.is_finite() {
                            continue;
                        }
                        let old = co[i];
                        co[i] = old - k * mf;
                        let c = cost(&co);
                        co[i] = old;
                        if c < cur * 0.999 && mv.map_or(true, |x| c < x.0) {
                            mv = Some((c, i, k));
                        }
                    }
                }
                match mv {
                    Some((c, i, k)) => {
                        co[i] -= k * mf;
                        t[i] = t[i].add(&f64_big(k));
                        cur = c;
                    }
                    None => break,
                }
            }
            let mut tp = Poly::zero();
            for (i, k) in t.iter().enumerate() {
                if !k.is_zero() {
                    tp = tp.add(&Poly(vec![(cands[i].clone(), k.clone())]));
                }
            }
            // constant: keep in [0, m)
            let mut r = start.sub(&tp.scale(m));
            let (k, _) = r.constant().divmod_floor(m);
            if !k.is_zero() {
                r = r.sub(&Poly::c(k.mul(m)));
                tp = tp.add(&Poly::c(k));
            }
            if let Some((l, h)) = self.aff_rng(&r) {
                let (l2, h2) = self.rng(&r);
                let (l, h) = (l.max(l2), h.min(h2));
                let w = h.sub(&l);
                if w.shl(1) < best_w && w < m.shl(4) {
                    best_w = w;
                    // total quotient polynomial: (p - r)/m
                    let tt = div_exact(&p.sub(&r), m)?;
                    best = Some((tt, r, l, h));
                }
            }
        }
        if best.is_some() {
            self.reduced += 1;
        }
        best
    }
    /// 1 iff d < 0
    fn neg_test(&mut self, d: &Poly, lo: &Big, hi: &Big) -> E<Poly> {
        let (l2, h2) = self.rng(d);
        let lo = lo.clone().max(l2);
        let hi = hi.clone().min(h2);
        if hi.is_neg() {
            return Ok(Poly::c(Big::one()));
        }
        if !lo.is_neg() {
            return Ok(Poly::zero());
        }
        let k = lo.abs().sub(&Big::one()).bits().max(hi.bits()).max(1);
        let q = self.quot(d, &Big::pow2(k), &lo, &hi)?;
        Ok(q.neg())
    }
    fn eq_test(&mut self, d: &Poly, lo: &Big, hi: &Big) -> E<Poly> {
        let (l2, h2) = self.rng(d);
        let lo = lo.clone().max(l2);
        let hi = hi.clone().min(h2);
        if lo.signum() > 0 || hi.is_neg() {
            return Ok(Poly::zero());
        }
        if let Some(c) = d.as_const() {
            return Ok(if c.is_zero() { Poly::c(Big::one()) } else { Poly::zero() });
        }
        if lo.is_zero() && hi.is_one() {
            return Ok(Poly::c(Big::one()).sub(d));
        }
        if lo == Big::from_i128(-1) && hi.is_zero() {
            return Ok(Poly::c(Big::one()).add(d));
        }
        // primitive part and sign normalisation
        let mut g: Option<Big> = None;
        for (mo, c) in &d.0 {
            if !mo.is_empty() {
                g = Some(match g {
                    None => c.abs(),
                    Some(x) => gcd(&x, &c.abs()),
                });
            }
        }
        let g = g.unwrap();
        let (_, r) = d.constant().divmod_floor(&g);
        if !r.is_zero() {
            return Ok(Poly::zero());
        }
        let lead_neg = d.0.last().unwrap().1.is_neg();
        let mut e = Poly(d.0.iter().map(|(m, c)| (m.clone(), c.divmod_floor(&g).0)).collect());
        let (mut lo, mut hi) = (lo.divmod_floor(&g).0, hi.divmod_floor(&g).0);
        if lead_neg {
            e = e.neg();
            let t = lo.neg();
            lo = hi.neg();
            hi = t;
        }
        // floor division may have widened by rounding; widen by one for safety
        lo = lo.sub(&Big::one());
        hi = hi.add(&Big::one());
        let key = Key::Eq(e.clone());
        Ok(self.mk_atom(key, Big::zero(), Big::one(), |b| {
            let nb = Poly::c(Big::one()).sub(b);
            let mut f = vec![Fact::Ge0(nb.scale(&hi).sub(&e)), Fact::Ge0(e.sub(&nb.scale(&lo)))];
            let one = Poly::c(Big::one());
            f.push(Fact::Or(vec![b.sub(&one), e.sub(&one), e.neg().sub(&one)]));
            f
        }))
    }
    fn trng(&self, tm: &Terms, t: T) -> (Big, Big) {
        if tm.width(t) == 0 {
            (tm.ilo[&t].clone(), tm.ihi[&t].clone())
        } else {
            let (l, h) = tm.rng(t);
            (Big::from_u128(l), Big::from_u128(h))
        }
    }
    fn wrap(&mut self, p: Poly, w: u32, lo: &Big, hi: &Big) -> E<Poly> {
        let m = Big::pow2(w as usize);
        let q = self.quot(&p, &m, lo, hi)?;
        Ok(p.sub(&q.scale(&m)))
    }
    fn opaque_atom(&mut self, tm: &Terms, t: T) -> Poly {
        let (l, h) = self.trng(tm, t);
        self.opaque = true;
        self.mk_atom(Key::Opaque(t), l, h, |_| vec![])
    }
    pub fn poly(&mut self, tm: &Terms, root: T) -> E<Rc<Poly>> {
        if let Some(p) = self.memo.get(&root) {
            return Ok(p.clone());
        }
        let cone = tm.cone(&[root]);
        for t in cone {
            if !self.memo.contains_key(&t) {
                let p = self.step(tm, t)?;
                if p.0.len() > self.limit {
                    return Err("polynomial too large".into());
                }
                self.memo.insert(t, Rc::new(p));
            }
        }
        Ok(self.memo[&root].clone())
    }
    fn g(&self, t: T) -> Rc<Poly> {
        self.memo[&t].clone()
    }
    fn step(&mut self, tm: &Terms, t: T) -> E<Poly> {
        let w = tm.width(t);
        let one = Poly::c(Big::one());
        Ok(match tm.node(t) {
            N::C(v) => Poly::c(Big::from_u128(*v)),
            N::IC(b) => Poly::c(b.clone()),
            N::Sym(k) => {
                let (_, lo, hi) = tm.syms[*k as usize];
                self.mk_atom(Key::Sym(*k), Big::from_u128(lo), Big::from_u128(hi), |_| vec![])
            }
            N::Add(a, b) => {
                let (al, ah) = self.trng(tm, *a);
                let (bl, bh) = self.trng(tm, *b);
                let p = self.g(*a).add(&self.g(*b));
                // adding a large constant is a subtraction: keep the canonical sign
                self.wrap(p, w, &al.add(&bl), &ah.add(&bh))?
            }
            N::Sub(a, b) => {
                let (al, ah) = self.trng(tm, *a);
                let (bl, bh) = self.trng(tm, *b);
                let p = self.g(*a).sub(&self.g(*b));
                self.wrap(p, w, &al.sub(&bh), &ah.sub(&bl))?
            }
            N::Mul(a, b) => {
                let (al, ah) = self.trng(tm, *a);
                let (bl, bh) = self.trng(tm, *b);
                let p = self.mul(&self.g(*a), &self.g(*b))?;
                self.wrap(p, w, &al.mul(&bl), &ah.mul(&bh))?
            }
            N::Ext(a, hi, lo) => {
                let wa = tm.width(*a);
                let (al, ah) = self.trng(tm, *a);
                let pa = self.g(*a);
                let q = self.quot(&pa, &Big::pow2(*lo as usize), &al, &ah)?;
                if (*hi as u32) + 1 < wa {
                    let k = *hi as usize + 1;
                    let top = self.quot(&pa, &Big::pow2(k), &al, &ah)?;
                    q.sub(&top.scale(&Big::pow2(k - *lo as usize)))
                } else {
                    q
                }
            }
            N::Cat(a, b) => self.g(*a).scale(&Big::pow2(tm.width(*b) as usize)).add(&self.g(*b)),
            N::ZExt(a) | N::IBv(a) => (*self.g(*a)).clone(),
            N::SExt(a) => {
                let wa = tm.width(*a) as usize;
                let (al, ah) = self.trng(tm, *a);
                let pa = self.g(*a);
                let s = self.quot(&pa, &Big::pow2(wa - 1), &al, &ah)?;
                pa.add(&s.scale(&Big::pow2(w as usize).sub(&Big::pow2(wa))))
            }
            N::And(a, b) if w == 1 => self.mul(&self.g(*a), &self.g(*b))?,
            N::Or(a, b) if w == 1 => {
                let p = self.mul(&self.g(*a), &self.g(*b))?;
                self.g(*a).add(&self.g(*b)).sub(&p)
            }
            N::Xor(a, b) if w == 1 => {
                let p = self.mul(&self.g(*a), &self.g(*b))?;
                self.g(*a).add(&self.g(*b)).sub(&p.scale(&Big::from_u128(2)))
            }
            N::And(a, b) | N::Or(a, b) | N::Xor(a, b) => {
                let (mut a, mut b) = (*a, *b);
                let is_mask = |t: T| match tm.node(t) {
                    N::SExt(c) => tm.width(*c) == 1,
                    _ => false,
                };
                if is_mask(a) {
                    std::mem::swap(&mut a, &mut b);
                }
                let kind = match tm.node(t) {
                    N::And(..) => 0,
                    N::Or(..) => 1,
                    _ => 2,
                };
                let andp;
                if kind == 2 && tm.as_c(b) == Some(mask(w)) {
                    return Ok(Poly::c(Big::from_u128(mask(w))).sub(&self.g(a)));
                }
                if is_mask(b) {
                    let c = match tm.node(b) {
                        N::SExt(c) => *c,
                        _ => unreachable!(),
                    };
                    andp = self.mul(&self.g(c), &self.g(a))?;
                } else {
                    // opaque conjunction; or/xor expressed through it
                    let (al, ah) = self.trng(tm, a);
                    let (bl, bh) = self.trng(tm, b);
                    let _ = (al, bl);
                    let (pa, pb) = (self.g(a), self.g(b));
                    self.opaque = true;
                    // key on an And of the operands through a synthetic id: use the pair order
                    let key = Key::Div(
                        Poly(vec![(vec![u32::MAX], Big::from_u128(a.min(b) as u128 + 1))]),
                        Poly(vec![(vec![u32::MAX], Big::from_u128(a.max(b) as u128 + 1))]),
                    );
                    let m = Big::from_u128(mask(w));
                    andp = self.mk_atom(key, Big::zero(), ah.min(bh), |x| {
                        vec![
                            Fact::Ge0(pa.sub(x)),
                            Fact::Ge0(pb.sub(x)),
                            Fact::Ge0(x.sub(&pa).sub(&pb).add(&Poly::c(m))),
                        ]
                    });
                }
                match kind {
                    0 => andp,
                    1 => self.g(a).add(&self.g(b)).sub(&andp),
                    _ => self.g(a).add(&self.g(b)).sub(&andp.scale(&Big::from_u128(2))),
                }
            }
            N::UDiv(a, b) | N::URem(a, b) => {
                let is_div = matches!(tm.node(t), N::UDiv(..));
                let (al, ah) = self.trng(tm, *a);
                let (bl, _bh) = self.trng(tm, *b);
                let (pa, pb) = (self.g(*a), self.g(*b));
                let q = match tm.as_c(*b) {
                    Some(k) if k > 0 => self.quot(&pa, &Big::from_u128(k), &al, &ah)?,
                    _ => {
                        let prod_mask = Big::from_u128(mask(w));
                        let hi = if bl.is_zero() { prod_mask } else { ah.divmod_floor(&bl).0 };
                        let key = Key::Div((*pa).clone(), (*pb).clone());
                        // facts need the product q*b: build after the atom exists
                        if let Some(p) = self.map.get(&key) {
                            p.clone()
                        } else {
                            let q = self.mk_atom(key, Big::zero(), hi, |_| vec![]);
                            if let Some(&(ref mo, _)) = q.0.last() {
                                if !mo.is_empty() {
                                    let id = mo[0];
                                    let qb = self.mul(&q, &pb)?;
                                    let r = pa.sub(&qb);
                                    let f1 = r.clone();
                                    let f2 = pb.sub(&r).sub(&one);
                                    let nz = pb.neg(); // b <= 0
                                    let facts = if bl.is_zero() {
                                        vec![Fact::Or(vec![nz.clone(), f1]), Fact::Or(vec![nz, f2])]
                                    } else {
                                        vec![Fact::Ge0(f1), Fact::Ge0(f2)]
                                    };
                                    self.atoms[id as usize].facts = facts;
                                }
                            }
                            q
                        }
                    }
                };
                if is_div {
                    q
                } else {
                    let qb = self.mul(&q, &pb)?;
                    pa.sub(&qb)
                }
            }
            N::Eq(a, b) => {
                let (al, ah) = self.trng(tm, *a);
                let (bl, bh) = self.trng(tm, *b);
                let d = self.g(*a).sub(&self.g(*b));
                self.eq_test(&d, &al.sub(&bh), &ah.sub(&bl))?
            }
            N::IEq(a, b) => {
                let (al, ah) = self.trng(tm, *a);
                let (bl, bh) = self.trng(tm, *b);
                let d = self.g(*a).sub(&self.g(*b));
                self.eq_test(&d, &al.sub(&bh), &ah.sub(&bl))?
            }
            N::Ult(a, b) => {
                let (al, ah) = self.trng(tm, *a);
                let (bl, bh) = self.trng(tm, *b);
                let d = self.g(*a).sub(&self.g(*b));
                self.neg_test(&d, &al.sub(&bh), &ah.sub(&bl))?
            }
            N::ILe(a, b) => {
                // a <= b  iff not (b - a < 0)
                let (al, ah) = self.trng(tm, *a);
                let (bl, bh) = self.trng(tm, *b);
                let d = self.g(*b).sub(&self.g(*a));
                let n = self.neg_test(&d, &bl.sub(&ah), &bh.sub(&al))?;
                one.sub(&n)
            }
            N::Slt(a, b) => {
                let wa = tm.width(*a) as usize;
                let mut sgn = |me: &mut Self, x: T| -> E<Poly> {
                    let (l, h) = me.trng(tm, x);
                    let p = me.g(x);
                    let s = me.quot(&p, &Big::pow2(wa - 1), &l, &h)?;
                    Ok(p.sub(&s.scale(&Big::pow2(wa))))
                };
                let x = sgn(self, *a)?;
                let y = sgn(self, *b)?;
                let d = x.sub(&y);
                let b = Big::pow2(wa);
                self.neg_test(&d, &b.neg(), &b)?
            }
            N::Ite(c, a, b) | N::IIte(c, a, b) => {
                let d = self.g(*a).sub(&self.g(*b));
                let p = self.mul(&self.g(*c), &d)?;
                self.g(*b).add(&p)
            }
            N::UMulOv(a, b) => {
                let wa = tm.width(*a) as usize;
                let (al, ah) = self.trng(tm, *a);
                let (bl, bh) = self.trng(tm, *b);
                let p = self.mul(&self.g(*a), &self.g(*b))?;
                let d = Poly::c(Big::pow2(wa).sub(&Big::one())).sub(&p);
                let m = Big::pow2(wa).sub(&Big::one());
                self.neg_test(&d, &m.sub(&ah.mul(&bh)), &m.sub(&al.mul(&bl)))?
            }
            N::IAdd(a, b) => self.g(*a).add(&self.g(*b)),
            N::ISub(a, b) => self.g(*a).sub(&self.g(*b)),
            N::IDiv(a, d) => {
                let pa = self.g(*a);
                let (al, ah) = (tm.ilo[a].clone(), tm.ihi[a].clone());
                self.quot(&pa, d, &al, &ah)?
            }
            N::IMul(a, b) => self.mul(&self.g(*a), &self.g(*b))?,
            N::Shl(a, s) | N::LShr(a, s) if tm.rng(*s).1 < 128 && w <= 128 => {
                // case split on the shift amount: sum over k of [s = k] * shifted(k)
                let is_l = matches!(tm.node(t), N::Shl(..));
                let (sl, sh) = tm.rng(*s);
                let sh = sh.min(w as u128 - 1);
                if sh - sl > 16 {
                    return Ok(self.opaque_atom(tm, t));
                }
                let (al, ah) = self.trng(tm, *a);
                let pa = self.g(*a);
                let ps = self.g(*s);
                let mut acc = Poly::zero();
                for k in sl..=sh {
                    let d = ps.sub(&Poly::c(Big::from_u128(k)));
                    let e = self.eq_test(&d, &Big::from_u128(sl).sub(&Big::from_u128(k)), &Big::from_u128(sh - k))?;
                    let v = if is_l {
                        let p = pa.scale(&Big::pow2(k as usize));
                        self.wrap(p, w, &al.shl(k as usize), &ah.shl(k as usize))?
                    } else {
                        self.quot(&pa, &Big::pow2(k as usize), &al, &ah)?
                    };
                    let m = self.mul(&e, &v)?;
                    acc = acc.add(&m);
                }
                acc
            }
            N::SDiv(..) | N::SRem(..) | N::Shl(..) | N::LShr(..) | N::AShr(..) | N::Ctlz(..) | N::Cttz(..) | N::Ctpop(..) => {
                self.opaque_atom(tm, t)
            }
        })
    }
}

fn div_exact(p: &Poly, m: &Big) -> Option<Poly> {
    let mut v = vec![];
    for (mo, c) in &p.0 {
        let (q, r) = c.divmod_floor(m);
        if !r.is_zero() {
            return None;
        }
        v.push((mo.clone(), q));
    }
    Some(Poly(v))
}
fn big_f64(b: &Big) -> f64 {
    let n = b.bits();
    let (v, e) = if n > 100 { (b.abs().shr_floor(n - 100), n - 100) } else { (b.abs(), 0) };
    let x = v.to_u128().unwrap() as f64 * 2f64.powi(e as i32);
    if b.is_neg() {
        -x
    } else {
        x
    }
}
fn big_ratio(a: &Big, b: &Big) -> f64 {
    // avoids overflow for huge numerators
    let n = a.bits().max(b.bits());
    if n > 900 {
        let k = n - 900;
        return big_f64(&a.shr_floor(k)) / big_f64(&b.shr_floor(k));
    }
    big_f64(a) / big_f64(b)
}
fn f64_big(x: f64) -> Big {
    let a = x.abs();
    let bits = a.to_bits();
    let e = ((bits >> 52) & 0x7ff) as i32 - 1075;
    let m = (bits & ((1 << 52) - 1)) | (1 << 52);
    let b = Big::from_u128(m as u128);
    let b = if e >= 0 { b.shl(e as usize) } else { b.shr_floor((-e).min(60) as usize) };
    if x < 0.0 {
        b.neg()
    } else {
        b
    }
}

fn gcd(a: &Big, b: &Big) -> Big {
    let mut a = a.clone();
    let mut b = b.clone();
    while !b.is_zero() {
        let (_, r) = a.divmod_floor(&b);
        a = b;
        b = r;
    }
    a
}

pub struct LiaQuery {
    pub text: String,
    pub syms: Vec<(u32, String, Big)>, // sym index, name, lo offset
    pub nonlinear: String,             // extra asserts defining product variables exactly
    pub trivially_unsat: bool,
    pub nmono: usize,
    pub natoms: usize,
    /// premises were left out
    pub cut: bool,
}

/// assert that all of conj hold
/// relax 1: only small quantities stay integral; 2: all quotients stay integral; 0: exact
/// limit: keep only the neighbourhood of the last conjunct, about that many atoms (fewer premises, so unsat carries over)
pub fn encode(cx: &mut Ctx, tm: &Terms, conj: &[T], level: u8, limit: usize) -> E<LiaQuery> {
    let relax = level > 0;
    let mut cons: Vec<Fact> = vec![];
    let mut stack: Vec<(T, bool)> = conj.iter().map(|&t| (t, true)).collect();
    let mut triv = false;
    let mut nseed = usize::MAX;
    while let Some((t, pol)) = stack.pop() {
        if nseed == usize::MAX && stack.len() + 2 == conj.len() && conj.len() > 1 && t == conj[conj.len() - 2] {
            nseed = cons.len();
        }
        match (tm.node(t).clone(), pol) {
            (N::C(v), _) => {
                if (v == 1) != pol {
                    triv = true;
                }
            }
            (N::And(a, b), true) => {
                stack.push((a, true));
                stack.push((b, true));
            }
            (N::Or(a, b), false) => {
                stack.push((a, false));
                stack.push((b, false));
            }
            (N::Xor(a, k), _) if tm.as_c(k) == Some(1) => stack.push((a, !pol)),
            (N::Eq(a, b), _) | (N::IEq(a, b), _) if tm.width(a) != 1 => {
                let d = cx.poly(tm, a)?.sub(&*cx.poly(tm, b)?);
                if pol {
                    if let Some(c) = d.as_const() {
                        if !c.is_zero() {
                            triv = true;
                        }
                    } else {
                        cons.push(Fact::Ge0(d.clone()));
                        cons.push(Fact::Ge0(d.neg()));
                    }
                } else {
                    let one = Poly::c(Big::one());
                    if let Some(c) = d.as_const() {
                        if c.is_zero() {
                            triv = true;
                        }
                    } else {
                        let (lo, hi) = cx.rng(&d);
                        if !lo.is_neg() {
                            cons.push(Fact::Ge0(d.sub(&one)));
                        } else if hi.signum() <= 0 {
                            cons.push(Fact::Ge0(d.neg().sub(&one)));
                        } else {
                            cons.push(Fact::Or(vec![d.sub(&one), d.neg().sub(&one)]));
                        }
                    }
                }
                let p = cx.poly(tm, t)?;
                push_bool(&mut cons, &p, pol, &mut triv);
            }
            (N::Ult(a, b), _) => {
                let d = cx.poly(tm, a)?.sub(&*cx.poly(tm, b)?);
                cons.push(Fact::Ge0(if pol { d.neg().sub(&Poly::c(Big::one())) } else { d }));
                let p = cx.poly(tm, t)?;
                push_bool(&mut cons, &p, pol, &mut triv);
            }
            (N::ILe(a, b), _) => {
                let d = cx.poly(tm, b)?.sub(&*cx.poly(tm, a)?);
                cons.push(Fact::Ge0(if pol { d } else { d.neg().sub(&Poly::c(Big::one())) }));
                let p = cx.poly(tm, t)?;
                push_bool(&mut cons, &p, pol, &mut triv);
            }
            _ => {
                let p = cx.poly(tm, t)?;
                push_bool(&mut cons, &p, pol, &mut triv);
            }
        }
    }
    for f in &cons {
        if let Fact::Ge0(p) = f {
            if let Some(c) = p.as_const() {
                if c.is_neg() {
                    triv = true;
                }
            }
        }
    }
    if triv {
        return Ok(LiaQuery { text: String::new(), syms: vec![], nonlinear: String::new(), trivially_unsat: true, nmono: 0, natoms: 0, cut: false });
    }
    // closure over atoms
    let mut atoms: HashSet<A> = HashSet::new();
    let mut monos: HashMap<Mono, usize> = HashMap::new();
    let mut order: Vec<Mono> = vec![];
    let nseed = nseed.min(cons.len());
    let mut queue: std::collections::VecDeque<Fact> = if limit < usize::MAX { cons[..nseed].iter().cloned().collect() } else { cons.iter().cloned().collect() };
    let mut all: Vec<Fact> = vec![];
    let mut cut = false;
    let mut rest: Vec<Fact> = if limit < usize::MAX { cons[nseed..].to_vec() } else { vec![] };
    let add_mono = |m: &Mono, monos: &mut HashMap<Mono, usize>, order: &mut Vec<Mono>| {
        // all suffixes
        let mut k = 0;
        while m.len() - k >= 2 {
            let s = m[k..].to_vec();
            if monos.contains_key(&s) {
                break;
            }
            monos.insert(s.clone(), order.len());
            order.push(s);
            k += 1;
        }
    };
    let mut second = false;
    loop {
        let f = match queue.pop_front() {
            Some(f) => f,
            None if !second && limit < usize::MAX => {
                // premises over the atoms collected so far
                second = true;
                queue.extend(rest.drain(..));
                continue;
            }
            None => break,
        };
        let ps: Vec<&Poly> = match &f {
            Fact::Ge0(p) => vec![p],
            Fact::Or(v) => v.iter().collect(),
        };
        if (second || atoms.len() >= limit) && limit < usize::MAX && ps.iter().any(|p| p.0.iter().any(|(m, _)| m.iter().any(|a| !atoms.contains(a)))) {
            cut = true;
            continue;
        }
        for p in ps {
            for (m, _) in &p.0 {
                for &a in m {
                    if atoms.insert(a) {
                        queue.extend(cx.atoms[a as usize].facts.iter().cloned());
                    }
                }
                if m.len() >= 2 {
                    add_mono(m, &mut monos, &mut order);
                }
            }
        }
        all.push(f);
        if all.len() > 20000 {
            return Err("too many facts".into());
        }
    }
    let mut s = String::new();
    let mut syms = vec![];
    let mut av: Vec<A> = atoms.iter().copied().collect();
    av.sort();
    for &a in &av {
        let at = &cx.atoms[a as usize];
        // relaxation: only two-valued quantities stay integral
        let small = at.boolean || (level == 2 && matches!(at.key, Key::Quot(..) | Key::Eq(..))) || at.hi.sub(&at.lo) <= Big::from_u128(8);
        let sort = if relax && !small { "Real" } else { "Int" };
        if cx.comments {
            let ps = |p: &Poly| p.0.iter().map(|(m, c)| format!("{}*{:?}", c.dec(), m)).collect::<Vec<_>>().join(" + ");
            match &at.key {
                Key::Quot(p, m) => writeln!(s, "; a{} + {} = floor([{}] / {})", a, at.off.dec(), ps(p), m.dec()).unwrap(),
                Key::Eq(p) => writeln!(s, "; a{} = [{} == 0]", a, ps(p)).unwrap(),
                Key::Sym(k) => writeln!(s, "; a{} = symbol {}", a, k).unwrap(),
                Key::Div(p, q) => writeln!(s, "; a{} = {} div {}", a, ps(p), ps(q)).unwrap(),
                Key::Opaque(t) => writeln!(s, "; a{} = term {} {:?}", a, t, tm.node(*t)).unwrap(),
            }
        }
        writeln!(s, "(declare-fun a{} () {})", a, sort).unwrap();
        writeln!(s, "(assert (<= {} a{} {}))", at.lo.smt(), a, at.hi.smt()).unwrap();
        if let Key::Sym(k) = at.key {
            let off = if at.boolean { Big::from_u128(tm.syms[k as usize].1) } else { Big::zero() };
            syms.push((k, format!("a{}", a), off));
        }
    }
    let mut nl = String::new();
    let vname = |m: &[A], monos: &HashMap<Mono, usize>| -> String {
        if m.len() == 1 {
            format!("a{}", m[0])
        } else {
            format!("m{}", monos[m])
        }
    };
    for (k, m) in order.iter().enumerate() {
        writeln!(s, "(declare-fun m{} () {})", k, if relax { "Real" } else { "Int" }).unwrap();
    }
    for (k, m) in order.iter().enumerate() {
        let x = m[0];
        let y = &m[1..];
        let (xl, xh) = (cx.atoms[x as usize].lo.clone(), cx.atoms[x as usize].hi.clone());
        let (yl, yh) = cx.mono_rng(&y.to_vec());
        let xn = format!("a{}", x);
        let yn = vname(y, &monos);
        let v = format!("m{}", k);
        // McCormick envelope
        // (x-xl)(y-yl) >= 0 ; (xh-x)(yh-y) >= 0 ; (xh-x)(y-yl) >= 0 ; (x-xl)(yh-y) >= 0
        let lin = |v: &str, a: &Big, b: &Big, c: &Big| -> String {
            // v - a*y - b*x + c
            format!("(+ {} (* {} {}) (* {} {}) {})", v, a.neg().smt(), yn, b.neg().smt(), xn, c.smt())
        };
        writeln!(s, "(assert (>= {} 0))", lin(&v, &xl, &yl, &xl.mul(&yl))).unwrap();
        writeln!(s, "(assert (>= {} 0))", lin(&v, &xh, &yh, &xh.mul(&yh))).unwrap();
        writeln!(s, "(assert (<= {} 0))", lin(&v, &xh, &yl, &xh.mul(&yl))).unwrap();
        writeln!(s, "(assert (<= {} 0))", lin(&v, &xl, &yh, &xl.mul(&yh))).unwrap();
        writeln!(nl, "(assert (= {} (* {} {})))", v, xn, yn).unwrap();
    }
    let pstr = |p: &Poly| -> String {
        if p.0.is_empty() {
            return "0".into();
        }
        let mut parts = vec![];
        for (m, c) in &p.0 {
            if m.is_empty() {
                parts.push(c.smt());
            } else {
                let n = vname(m, &monos);
                if c.is_one() {
                    parts.push(n);
                } else {
                    parts.push(format!("(* {} {})", c.smt(), n));
                }
            }
        }
        if parts.len() == 1 {
            parts.pop().unwrap()
        } else {
            format!("(+ {})", parts.join(" "))
        }
    };
    // integer-valued compound quantities, so that the relaxation may branch on them
    if relax {
        let mut nz = 0;
        let mut zs: Vec<&Poly> = vec![];
        for &a in &av {
            if let Key::Eq(e) = &cx.atoms[a as usize].key {
                zs.push(e);
            }
        }
        for f in &all {
            if let Fact::Or(v) = f {
                for p in v.iter().take(1) {
                    zs.push(p);
                }
            }
        }
        for e in zs {
            if e.0.len() > 2 && e.0.iter().all(|(m, _)| m.iter().all(|a| atoms.contains(a)) && (m.len() < 2 || monos.contains_key(m))) {
                writeln!(s, "(declare-fun z{} () Int)\n(assert (= z{} {}))", nz, nz, pstr(e)).unwrap();
                nz += 1;
            }
        }
    }
    for f in &all {
        match f {
            Fact::Ge0(p) => writeln!(s, "(assert (>= {} 0))", pstr(p)).unwrap(),
            Fact::Or(v) => {
                let parts: Vec<String> = v.iter().map(|p| format!("(>= {} 0)", pstr(p))).collect();
                writeln!(s, "(assert (or {}))", parts.join(" ")).unwrap()
            }
        }
    }
    Ok(LiaQuery { text: s, syms, nonlinear: nl, trivially_unsat: false, nmono: order.len(), natoms: av.len(), cut })
}

fn push_bool(cons: &mut Vec<Fact>, p: &Poly, pol: bool, triv: &mut bool) {
    if let Some(c) = p.as_const() {
        if c.is_one() != pol {
            *triv = true;
        }
        return;
    }
    let one = Poly::c(Big::one());
    if pol {
        cons.push(Fact::Ge0(p.sub(&one)));
    } else {
        cons.push(Fact::Ge0(p.neg()));
    }
}

//! Hash-consed term DAG over bit-vectors (width <= 128), booleans (width 1) and ghost integers (width 0).
use crate::big::Big;
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    C(u128),
    Sym(u32),
    Add(T, T),
    Sub(T, T),
    Mul(T, T),
    UDiv(T, T),
    URem(T, T),
    SDiv(T, T),
    SRem(T, T),
    And(T, T),
    Or(T, T),
    Xor(T, T),
    Shl(T, T),
    LShr(T, T),
    AShr(T, T),
    Ext(T, u8, u8),
    Cat(T, T),
    ZExt(T),
    SExt(T),
    Eq(T, T),
    Ult(T, T),
    Slt(T, T),
    Ite(T, T, T),
    Ctlz(T),
    Cttz(T),
    Ctpop(T),
    UMulOv(T, T),
    IC(Big),
    IBv(T),
    IAdd(T, T),
    ISub(T, T),
    IMul(T, T),
    IIte(T, T, T),
    /// floor division by a positive constant
    IDiv(T, Big),
    ILe(T, T),
    IEq(T, T),
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub struct Terms {
    pub n: Vec<N>,
    pub w: Vec<u16>,
    pub lo: Vec<u128>,
    pub hi: Vec<u128>,
    map: HashMap<(N, u16), T>,
    pub syms: Vec<(u32, u128, u128)>, // width, lo, hi
    pub ilo: HashMap<T, Big>,
    pub ihi: HashMap<T, Big>,
}

impl Terms {
    pub fn new() -> Terms {
        Terms { n: vec![], w: vec![], lo: vec![], hi: vec![], map: HashMap::new(), syms: vec![], ilo: HashMap::new(), ihi: HashMap::new() }
    }
    pub fn width(&self, t: T) -> u32 {
        self.w[t as usize] as u32
    }
    pub fn node(&self, t: T) -> &N {
        &self.n[t as usize]
    }
    pub fn as_c(&self, t: T) -> Option<u128> {
        match self.n[t as usize] {
            N::C(v) => Some(v),
            _ => None,
        }
    }
    pub fn rng(&self, t: T) -> (u128, u128) {
        (self.lo[t as usize], self.hi[t as usize])
    }
    fn intern(&mut self, n: N, w: u32) -> T {
        if let Some(&t) = self.map.get(&(n.clone(), w as u16)) {
            return t;
        }
        let (lo, hi) = if w > 0 { self.range_of(&n, w) } else { (0, 0) };
        if w > 0 && lo == hi && !matches!(n, N::C(_)) {
            let t = self.c(lo, w);
            self.map.insert((n, w as u16), t);
            return t;
        }
        let t = self.n.len() as T;
        self.n.push(n.clone());
        self.w.push(w as u16);
        self.lo.push(lo);
        self.hi.push(hi);
        if w == 0 {
            let (a, b) = self.irange_of(&n);
            self.ilo.insert(t, a);
            self.ihi.insert(t, b);
        }
        self.map.insert((n, w as u16), t);
        t
    }
    fn range_of(&self, n: &N, w: u32) -> (u128, u128) {
        let m = mask(w);
        let full = (0, m);
        let r = |t: &T| self.rng(*t);
        match n {
            N::C(v) => (*v, *v),
            N::Sym(s) => (self.syms[*s as usize].1, self.syms[*s as usize].2),
            N::Add(a, b) => {
                let (al, ah) = r(a);
                let (bl, bh) = r(b);
                match ah.checked_add(bh) {
                    Some(h) if h <= m => (al + bl, h),
                    _ => full,
                }
            }
            N::Sub(a, b) => {
                let (al, ah) = r(a);
                let (bl, bh) = r(b);
                if al >= bh {
                    (al - bh, ah - bl)
                } else {
                    full
                }
            }
            N::Mul(a, b) => {
                let (al, ah) = r(a);
                let (bl, bh) = r(b);
                match ah.checked_mul(bh) {
                    Some(h) if h <= m => (al * bl, h),
                    _ => full,
                }
            }
            N::UDiv(a, b) => {
                let (al, ah) = r(a);
                let (bl, bh) = r(b);
                if bl > 0 {
                    (al / bh, ah / bl)
                } else {
                    full
                }
            }
            N::URem(a, b) => {
                let (_, ah) = r(a);
                let (bl, bh) = r(b);
                if bl > 0 {
                    (0, ah.min(bh - 1))
                } else {
                    (0, ah)
                }
            }
            N::And(a, b) => (0, r(a).1.min(r(b).1)),
            N::Or(a, b) => {
                let (al, ah) = r(a);
                let (bl, bh) = r(b);
                let top = ah | bh;
                let k = 128 - top.leading_zeros();
                (al.max(bl), mask(k).min(m))
            }
            N::Xor(a, b) => {
                let top = r(a).1 | r(b).1;
                let k = 128 - top.leading_zeros();
                (0, mask(k).min(m))
            }
            N::LShr(a, _) => (0, r(a).1),
            N::Ext(a, hi, lo) => {
                let (al, ah) = r(a);
                let wa = self.width(*a);
                if *hi as u32 + 1 == wa || (ah >> lo) <= m {
                    (al >> lo, ah >> lo)
                } else {
                    full
                }
            }
            N::Cat(a, b) => {
                let wb = self.width(*b);
                let (al, ah) = r(a);
                let (bl, bh) = r(b);
                ((al << wb) | bl, (ah << wb) | bh)
            }
            N::ZExt(a) => r(a),
            N::Ite(_, a, b) => {
                let (al, ah) = r(a);
                let (bl, bh) = r(b);
                (al.min(bl), ah.max(bh))
            }
            N::Ctlz(a) => {
                let wa = self.width(*a);
                let (al, ah) = r(a);
                let lz = |v: u128| (v.leading_zeros() - (128 - wa)) as u128;
                (lz(ah), lz(al))
            }
            N::Cttz(a) => {
                let (al, ah) = r(a);
                let wa = self.width(*a) as u128;
                let _ = ah;
                (0, if al > 0 { wa - 1 } else { wa })
            }
            N::Ctpop(a) => (0, self.width(*a) as u128),
            _ => full,
        }
    }
    fn irange_of(&self, n: &N) -> (Big, Big) {
        let g = |t: &T| (self.ilo[t].clone(), self.ihi[t].clone());
        match n {
            N::IC(b) => (b.clone(), b.clone()),
            N::IBv(t) => {
                let (l, h) = self.rng(*t);
                (Big::from_u128(l), Big::from_u128(h))
            }
            N::IAdd(a, b) => {
                let (al, ah) = g(a);
                let (bl, bh) = g(b);
                (al.add(&bl), ah.add(&bh))
            }
            N::ISub(a, b) => {
                let (al, ah) = g(a);
                let (bl, bh) = g(b);
                (al.sub(&bh), ah.sub(&bl))
            }
            N::IMul(a, b) => {
                let (al, ah) = g(a);
                let (bl, bh) = g(b);
                let v = [al.mul(&bl), al.mul(&bh), ah.mul(&bl), ah.mul(&bh)];
                (v.iter().min().unwrap().clone(), v.iter().max().unwrap().clone())
            }
            N::IDiv(a, d) => {
                let (al, ah) = g(a);
                (al.divmod_floor(d).0, ah.divmod_floor(d).0)
            }
            N::IIte(_, a, b) => {
                let (al, ah) = g(a);
                let (bl, bh) = g(b);
                (al.min(bl), ah.max(bh))
            }
            _ => panic!("irange"),
        }
    }
    pub fn c(&mut self, v: u128, w: u32) -> T {
        assert!(w >= 1 && w <= 128);
        self.intern(N::C(v & mask(w)), w)
    }
    pub fn sym(&mut self, w: u32, lo: u128, hi: u128) -> T {
        let k = self.syms.len() as u32;
        self.syms.push((w, lo, hi));
        self.intern(N::Sym(k), w)
    }
    pub fn tt(&mut self) -> T {
        self.c(1, 1)
    }
    pub fn ff(&mut self) -> T {
        self.c(0, 1)
    }
    fn ord(&self, a: T, b: T) -> (T, T) {
        // constants second; otherwise by id
        let ca = self.as_c(a).is_some();
        let cb = self.as_c(b).is_some();
        if ca && !cb {
            (b, a)
        } else if cb && !ca {
            (a, b)
        } else if a <= b {
            (a, b)
        } else {
            (b, a)
        }
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        let (a, b) = self.ord(a, b);
        if w == 1 {
            return self.xor(a, b);
        }
        match (self.as_c(a), self.as_c(b)) {
            (Some(x), Some(y)) => return self.c(x.wrapping_add(y), w),
            (_, Some(0)) => return a,
            (_, Some(y)) => {
                if let N::Add(p, q) = *self.node(a) {
                    if let Some(z) = self.as_c(q) {
                        let k = self.c(z.wrapping_add(y), w);
                        return self.add(p, k);
                    }
                }
            }
            _ => {}
        }
        if let N::Sub(p, q) = *self.node(a) {
            if q == b {
                return p;
            }
        }
        if let N::Sub(p, q) = *self.node(b) {
            if q == a {
                return p;
            }
        }
        if let Some(r) = self.add_lanes(a, b) {
            return r;
        }
        self.intern(N::Add(a, b), w)
    }
    /// bounds of a piece
    fn piece_max(&self, p: &P) -> u128 {
        match *p {
            P::K(v, w) => v & mask(w),
            P::X(t, _) => self.rng(t).1,
        }
    }
    /// upper bound of a sequence of pieces (most significant first)
    fn pieces_max(&self, ps: &[P]) -> u128 {
        let mut v = 0u128;
        for p in ps {
            v = if p.w() >= 128 { self.piece_max(p) } else { (v << p.w()) | self.piece_max(p) };
        }
        v
    }
    /// a sum of concatenations in which no carry crosses a field boundary is the concatenation of the sums of the fields
    fn add_lanes(&mut self, a: T, b: T) -> Option<T> {
        let w = self.width(a);
        if w < 16 {
            return None;
        }
        let structured = |s: &Self, t: T| matches!(s.node(t), N::Cat(..) | N::ZExt(..));
        if !structured(self, a) && !structured(self, b) {
            return None;
        }
        let (mut pa, mut pb) = (vec![], vec![]);
        self.pieces(a, &mut pa);
        self.pieces(b, &mut pb);
        let nx = |ps: &[P]| ps.iter().filter(|p| matches!(p, P::X(..))).count();
        if nx(&pa) + nx(&pb) < 2 && !(self.as_c(b).is_some() && nx(&pa) == 1) {
            return None;
        }
        let mut cuts = vec![0u32];
        for ps in [&pa, &pb] {
            let mut low = 0;
            for p in ps.iter().rev() {
                low += p.w();
                cuts.push(low);
            }
        }
        cuts.sort();
        cuts.dedup();
        let mut segs: Vec<(u32, u32)> = vec![];
        let mut lo = 0;
        for &c in &cuts[1..] {
            if c == w {
                segs.push((w - 1, lo));
                break;
            }
            // only cut at boundaries of both sides (constants can be cut anywhere)
            let at = |ps: &[P]| {
                let mut low = 0;
                for p in ps.iter().rev() {
                    if c == low || (c > low && c < low + p.w() && matches!(p, P::K(..))) {
                        return true;
                    }
                    low += p.w();
                    if c < low {
                        return false;
                    }
                }
                true
            };
            if !at(&pa) || !at(&pb) {
                continue;
            }
            let (x, y) = (self.slice(&pa, c - 1, lo), self.slice(&pb, c - 1, lo));
            if self.pieces_max(&x).checked_add(self.pieces_max(&y))? <= mask(c - lo) {
                segs.push((c - 1, lo));
                lo = c;
            }
        }
        if segs.len() < 2 {
            return None;
        }
        let mut both = 0;
        let mut out = vec![];
        let mut parts = vec![];
        for &(hi, lo) in segs.iter().rev() {
            let (x, y) = (self.slice(&pa, hi, lo), self.slice(&pb, hi, lo));
            if self.pieces_max(&x) != 0 && self.pieces_max(&y) != 0 {
                both += 1;
            }
            parts.push((x, y));
        }
        if both < 2 && self.as_c(b).is_none() {
            return None;
        }
        for (x, y) in parts {
            let x = self.from_pieces(&x);
            let y = self.from_pieces(&y);
            let r = self.add(x, y);
            self.pieces(r, &mut out);
        }
        Some(self.from_pieces(&out))
    }
    /// the same for a product with a constant
    fn mul_lanes(&mut self, a: T, k: u128) -> Option<T> {
        let w = self.width(a);
        let mut pa = vec![];
        self.pieces(a, &mut pa);
        if pa.iter().filter(|p| matches!(p, P::X(..))).count() < 2 || w < 16 || w > 64 {
            return None;
        }
        // fields: a symbolic piece and the constant zeros above it
        let mut out: Vec<P> = vec![];
        let mut rest = pa.clone();
        while let Some(p) = rest.pop() {
            let mut f = vec![p];
            while let Some(P::K(0, _)) = rest.last() {
                f.insert(0, rest.pop().unwrap());
            }
            let fw: u32 = f.iter().map(|p| p.w()).sum();
            if self.pieces_max(&f).checked_mul(k)? > mask(fw) {
                return None;
            }
            let x = self.from_pieces(&f);
            let kk = self.c(k, fw);
            let r = self.mul(x, kk);
            let mut o = vec![];
            self.pieces(r, &mut o);
            o.extend(out);
            out = o;
        }
        Some(self.from_pieces(&out))
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        if w == 1 {
            return self.xor(a, b);
        }
        if a == b {
            return self.c(0, w);
        }
        match (self.as_c(a), self.as_c(b)) {
            (Some(x), Some(y)) => return self.c(x.wrapping_sub(y), w),
            (_, Some(y)) => {
                let k = self.c(y.wrapping_neg(), w);
                return self.add(a, k);
            }
            _ => {}
        }
        if let N::Add(p, q) = *self.node(a) {
            if p == b {
                return q;
            }
            if q == b {
                return p;
            }
        }
        self.intern(N::Sub(a, b), w)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        let (a, b) = self.ord(a, b);
        if w == 1 {
            return self.and(a, b);
        }
        match (self.as_c(a), self.as_c(b)) {
            (Some(x), Some(y)) => return self.c(x.wrapping_mul(y), w),
            (_, Some(0)) => return b,
            (_, Some(1)) => return a,
            (_, Some(y)) if y.is_power_of_two() => {
                let k = self.c(y.trailing_zeros() as u128, w);
                return self.shl(a, k);
            }
            (_, Some(y)) => {
                if let Some(r) = self.mul_lanes(a, y) {
                    return r;
                }
            }
            _ => {}
        }
        self.intern(N::Mul(a, b), w)
    }
    pub fn udiv(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        match (self.as_c(a), self.as_c(b)) {
            (Some(x), Some(y)) if y != 0 => return self.c(x / y, w),
            (_, Some(1)) => return a,
            (_, Some(y)) if y.is_power_of_two() => {
                let k = self.c(y.trailing_zeros() as u128, w);
                return self.lshr(a, k);
            }
            _ => {}
        }
        // narrow when both operands are zero extended
        if let Some((na, nb, nw)) = self.narrow_pair(a, b) {
            let r = self.udiv(na, nb);
            let _ = nw;
            return self.zext(r, w);
        }
        self.intern(N::UDiv(a, b), w)
    }
    pub fn urem(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        match (self.as_c(a), self.as_c(b)) {
            (Some(x), Some(y)) if y != 0 => return self.c(x % y, w),
            (_, Some(1)) => return self.c(0, w),
            (_, Some(y)) if y.is_power_of_two() => {
                let k = self.c(y - 1, w);
                return self.and(a, k);
            }
            _ => {}
        }
        if let Some((na, nb, _)) = self.narrow_pair(a, b) {
            let r = self.urem(na, nb);
            return self.zext(r, w);
        }
        if self.rng(a).1 < self.rng(b).0 {
            return a;
        }
        self.intern(N::URem(a, b), w)
    }
    /// operands that fit a smaller common width (by zero extension)
    fn narrow_pair(&mut self, a: T, b: T) -> Option<(T, T, u32)> {
        let w = self.width(a);
        let need = |s: &Self, t: T| -> u32 {
            match s.node(t) {
                N::ZExt(x) => s.width(*x),
                N::C(v) => (128 - v.leading_zeros()).max(1),
                _ => w,
            }
        };
        let nw = need(self, a).max(need(self, b));
        if nw >= w {
            return None;
        }
        if let (N::C(_), N::C(_)) = (self.node(a), self.node(b)) {
            return None;
        }
        let x = self.ext(a, nw - 1, 0);
        let y = self.ext(b, nw - 1, 0);
        Some((x, y, nw))
    }
    pub fn sdiv(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) {
            if y != 0 {
                return self.c(sx(x, w).wrapping_div(sx(y, w)) as u128, w);
            }
        }
        self.intern(N::SDiv(a, b), w)
    }
    pub fn srem(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) {
            if y != 0 {
                return self.c(sx(x, w).wrapping_rem(sx(y, w)) as u128, w);
            }
        }
        self.intern(N::SRem(a, b), w)
    }
    // ---- pieces (msb first): concatenation normal form
    fn pieces(&self, t: T, out: &mut Vec<P>) {
        match *self.node(t) {
            N::C(v) => out.push(P::K(v, self.width(t))),
            N::Cat(a, b) => {
                self.pieces(a, out);
                self.pieces(b, out);
            }
            N::ZExt(a) => {
                out.push(P::K(0, self.width(t) - self.width(a)));
                self.pieces(a, out);
            }
            _ => out.push(P::X(t, self.width(t))),
        }
    }
    fn slice(&mut self, ps: &[P], hi: u32, lo: u32) -> Vec<P> {
        // ps msb first, total width W; take bits hi..lo
        let mut out = vec![];
        let total: u32 = ps.iter().map(|p| p.w()).sum();
        let mut top = total; // exclusive
        for p in ps {
            let bot = top - p.w();
            let h = (hi + 1).min(top);
            let l = lo.max(bot);
            if h > l {
                let (rh, rl) = (h - 1 - bot, l - bot);
                match *p {
                    P::K(v, _) => out.push(P::K((v >> rl) & mask(rh - rl + 1), rh - rl + 1)),
                    P::X(t, w) => {
                        if rl == 0 && rh == w - 1 {
                            out.push(P::X(t, w))
                        } else {
                            let e = self.ext_leaf(t, rh, rl);
                            self.pieces(e, &mut out);
                        }
                    }
                }
            }
            top = bot;
        }
        out
    }
    fn from_pieces(&mut self, ps: &[P]) -> T {
        // merge neighbours
        let mut m: Vec<P> = vec![];
        for p in ps {
            if p.w() == 0 {
                continue;
            }
            if let Some(l) = m.last().cloned() {
                match (l, p) {
                    (P::K(a, wa), P::K(b, wb)) => {
                        *m.last_mut().unwrap() = P::K(if *wb >= 128 { *b } else { (a << wb) | b }, wa + wb);
                        continue;
                    }
                    (P::X(a, _), P::X(b, _)) => {
                        let (ba, ah, al) = self.ext_view(a);
                        let (bb, bh, bl) = self.ext_view(*b);
                        if ba == bb && al == bh + 1 {
                            let e = self.ext(ba, ah, bl);
                            let we = self.width(e);
                            *m.last_mut().unwrap() = P::X(e, we);
                            continue;
                        }
                    }
                    _ => {}
                }
            }
            m.push(p.clone());
        }
        if m.len() == 1 {
            return match m[0] {
                P::K(v, w) => self.c(v, w),
                P::X(t, _) => t,
            };
        }
        let zero_lead = matches!(m[0], P::K(0, _));
        let st = if zero_lead { 1 } else { 0 };
        let total: u32 = m.iter().map(|p| p.w()).sum();
        let mut acc: Option<T> = None;
        for p in &m[st..] {
            let t = match *p {
                P::K(v, w) => self.c(v, w),
                P::X(t, _) => t,
            };
            acc = Some(match acc {
                None => t,
                Some(a) => {
                    let w = self.width(a) + self.width(t);
                    self.intern(N::Cat(a, t), w)
                }
            });
        }
        let acc = acc.unwrap();
        if zero_lead {
            self.intern(N::ZExt(acc), total)
        } else {
            acc
        }
    }
    fn ext_view(&self, t: T) -> (T, u32, u32) {
        match *self.node(t) {
            N::Ext(a, h, l) => (a, h as u32, l as u32),
            _ => (t, self.width(t) - 1, 0),
        }
    }
    fn mul_wraps(&self, a: T, b: T, w: u32) -> bool {
        match self.rng(a).1.checked_mul(self.rng(b).1) {
            Some(h) => h > mask(w),
            None => true,
        }
    }
    fn ext_leaf(&mut self, t: T, hi: u32, lo: u32) -> T {
        let w = self.width(t);
        if lo == 0 && hi == w - 1 {
            return t;
        }
        // bits above the range are zero
        let (_, rh) = self.rng(t);
        if hi > lo || lo > 0 {
            let top = 128 - rh.leading_zeros(); // number of significant bits
            if lo >= top {
                return self.c(0, hi - lo + 1);
            }
        }
        // high part of a difference of two values below 2^lo: all ones exactly when it borrows
        if lo > 0 && lo < 128 {
            match *self.node(t) {
                N::Sub(a, b) if self.rng(a).1 >> lo == 0 && self.rng(b).1 >> lo == 0 => {
                    let x = self.ext(a, lo - 1, 0);
                    let y = self.ext(b, lo - 1, 0);
                    let c = self.ult(x, y);
                    return self.spread(c, hi - lo + 1);
                }
                N::Add(a, b) if self.rng(a).1 >> lo == 0 && self.as_c(b).is_some() => {
                    let d = self.as_c(b).unwrap().wrapping_neg() & mask(w);
                    if d > 0 && d >> lo == 0 {
                        let x = self.ext(a, lo - 1, 0);
                        let y = self.c(d, lo);
                        let c = self.ult(x, y);
                        return self.spread(c, hi - lo + 1);
                    }
                }
                _ => {}
            }
        }
        match *self.node(t) {
            N::Ext(a, _, l) => self.ext(a, hi + l as u32, lo + l as u32),
            N::Add(a, b) if lo == 0 => {
                let x = self.ext(a, hi, 0);
                let y = self.ext(b, hi, 0);
                self.add(x, y)
            }
            N::Sub(a, b) if lo == 0 => {
                let x = self.ext(a, hi, 0);
                let y = self.ext(b, hi, 0);
                self.sub(x, y)
            }
            N::Mul(a, b) if lo == 0 && self.mul_wraps(a, b, w) => {
                let x = self.ext(a, hi, 0);
                let y = self.ext(b, hi, 0);
                self.mul(x, y)
            }
            N::And(a, b) => {
                let x = self.ext(a, hi, lo);
                let y = self.ext(b, hi, lo);
                self.and(x, y)
            }
            N::Or(a, b) => {
                let x = self.ext(a, hi, lo);
                let y = self.ext(b, hi, lo);
                self.or(x, y)
            }
            N::Xor(a, b) => {
                let x = self.ext(a, hi, lo);
                let y = self.ext(b, hi, lo);
                self.xor(x, y)
            }
            N::Ite(c, a, b) => {
                let x = self.ext(a, hi, lo);
                let y = self.ext(b, hi, lo);
                self.ite(c, x, y)
            }
            N::SExt(a) => {
                let wa = self.width(a);
                if hi < wa {
                    self.ext(a, hi, lo)
                } else if lo < wa {
                    let e = self.ext(a, wa - 1, lo);
                    self.sext(e, hi - lo + 1)
                } else {
                    let e = self.ext(a, wa - 1, wa - 1);
                    self.sext(e, hi - lo + 1)
                }
            }
            _ => self.intern(N::Ext(t, hi as u8, lo as u8), hi - lo + 1),
        }
    }
    pub fn ext(&mut self, t: T, hi: u32, lo: u32) -> T {
        let w = self.width(t);
        debug_assert!(hi < w && lo <= hi);
        if lo == 0 && hi == w - 1 {
            return t;
        }
        if let Some(v) = self.as_c(t) {
            return self.c(v >> lo, hi - lo + 1);
        }
        if matches!(self.node(t), N::Cat(..) | N::ZExt(..)) {
            let mut ps = vec![];
            self.pieces(t, &mut ps);
            let s = self.slice(&ps, hi, lo);
            return self.from_pieces(&s);
        }
        self.ext_leaf(t, hi, lo)
    }
    pub fn cat(&mut self, a: T, b: T) -> T {
        let mut ps = vec![];
        self.pieces(a, &mut ps);
        self.pieces(b, &mut ps);
        self.from_pieces(&ps)
    }
    pub fn zext(&mut self, a: T, w: u32) -> T {
        let wa = self.width(a);
        if wa == w {
            return a;
        }
        if let Some(v) = self.as_c(a) {
            return self.c(v, w);
        }
        if let N::ZExt(x) = *self.node(a) {
            return self.intern(N::ZExt(x), w);
        }
        self.intern(N::ZExt(a), w)
    }
    pub fn sext(&mut self, a: T, w: u32) -> T {
        let wa = self.width(a);
        if wa == w {
            return a;
        }
        if let Some(v) = self.as_c(a) {
            return self.c(sx(v, wa) as u128, w);
        }
        if wa == 1 {
            return self.spread(a, w);
        }
        if self.rng(a).1 < (1u128 << (wa - 1)) {
            return self.zext(a, w);
        }
        if let N::SExt(x) = *self.node(a) {
            return self.intern(N::SExt(x), w);
        }
        self.intern(N::SExt(a), w)
    }
    pub fn not(&mut self, a: T) -> T {
        let w = self.width(a);
        let m = self.c(mask(w), w);
        self.xor(a, m)
    }
    /// all ones if c, else 0
    pub fn spread(&mut self, c: T, w: u32) -> T {
        let m = self.c(mask(w), w);
        let z = self.c(0, w);
        self.ite(c, m, z)
    }
    /// bitwise operation with a 0/all-ones selector
    fn bitwise_mask(&mut self, a: T, b: T, kind: u8) -> Option<T> {
        let w = self.width(a);
        let sel = |s: &Self, t: T| -> Option<(T, bool)> {
            if let N::Ite(c, x, y) = *s.node(t) {
                match (s.as_c(x), s.as_c(y)) {
                    (Some(x), Some(0)) if x == mask(w) => return Some((c, true)),
                    (Some(0), Some(y)) if y == mask(w) => return Some((c, false)),
                    _ => {}
                }
            }
            None
        };
        let (c, pos, x) = if let Some((c, p)) = sel(self, a) {
            (c, p, b)
        } else if let Some((c, p)) = sel(self, b) {
            (c, p, a)
        } else {
            return None;
        };
        let z = self.c(0, w);
        let m = self.c(mask(w), w);
        let (on, off) = match kind {
            0 => (x, z),
            1 => (m, x),
            _ => (self.not(x), x),
        };
        Some(if pos { self.ite(c, on, off) } else { self.ite(c, off, on) })
    }
    fn bitwise_pieces(&mut self, a: T, b: T, kind: u8) -> Option<T> {
        // kind 0 and, 1 or, 2 xor. Align pieces; only if every aligned pair has a constant run side.
        let structured = |s: &Self, t: T| matches!(s.node(t), N::Cat(..) | N::ZExt(..) | N::C(_));
        if !structured(self, a) && !structured(self, b) {
            return None;
        }
        let mut pa = vec![];
        let mut pb = vec![];
        self.pieces(a, &mut pa);
        self.pieces(b, &mut pb);
        // split constant pieces into runs
        fn runs(ps: Vec<P>) -> Vec<P> {
            let mut out = vec![];
            for p in ps {
                match p {
                    P::K(v, w) => {
                        let mut i = w;
                        while i > 0 {
                            let bit = (v >> (i - 1)) & 1;
                            let mut j = i;
                            while j > 0 && (v >> (j - 1)) & 1 == bit {
                                j -= 1;
                            }
                            let l = i - j;
                            out.push(P::K(if bit == 1 { mask(l) } else { 0 }, l));
                            i = j;
                        }
                    }
                    x => out.push(x),
                }
            }
            out
        }
        let pa = runs(pa);
        let pb = runs(pb);
        if (pa.len() > 12 || pb.len() > 12) && !(pa.len() <= 40 && pb.len() <= 40 && (pa.iter().all(|p| matches!(p, P::K(..))) || pb.iter().all(|p| matches!(p, P::K(..))))) {
            return None;
        }
        let w = self.width(a);
        let mut cuts = vec![0u32, w];
        for ps in [&pa, &pb] {
            let mut top = w;
            for p in ps.iter() {
                top -= p.w();
                cuts.push(top);
            }
        }
        cuts.sort();
        cuts.dedup();
        // check feasibility
        let at = |ps: &Vec<P>, bit: u32| -> P {
            let mut top = w;
            for p in ps {
                let bot = top - p.w();
                if bit >= bot && bit < top {
                    return p.clone();
                }
                top = bot;
            }
            unreachable!()
        };
        let mut simple = 0;
        for k in 0..cuts.len() - 1 {
            let x = at(&pa, cuts[k]);
            let y = at(&pb, cuts[k]);
            if matches!(x, P::X(..)) && matches!(y, P::X(..)) {
            } else {
                simple += 1;
            }
        }
        if simple == 0 {
            return None;
        }
        if cuts.len() == 2 {
            return None;
        }
        let mut out = vec![];
        for k in (0..cuts.len() - 1).rev() {
            let (lo, hi) = (cuts[k], cuts[k + 1] - 1);
            let x = self.slice(&pa, hi, lo);
            let y = self.slice(&pb, hi, lo);
            let x = self.from_pieces(&x);
            let y = self.from_pieces(&y);
            let r = match kind {
                0 => self.and(x, y),
                1 => self.or(x, y),
                _ => self.xor(x, y),
            };
            self.pieces(r, &mut out);
        }
        Some(self.from_pieces(&out))
    }
    fn is_not_of(&self, a: T, b: T) -> bool {
        let chk = |x: T, y: T| match *self.node(x) {
            N::Xor(p, q) => p == y && self.as_c(q) == Some(mask(self.width(x))),
            _ => false,
        };
        chk(a, b) || chk(b, a)
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        let (a, b) = self.ord(a, b);
        if a == b {
            return a;
        }
        match (self.as_c(a), self.as_c(b)) {
            (Some(x), Some(y)) => return self.c(x & y, w),
            (_, Some(0)) => return b,
            (_, Some(y)) if y == mask(w) => return a,
            _ => {}
        }
        if self.is_not_of(a, b) {
            return self.c(0, w);
        }
        if w > 1 {
            if let Some(r) = self.bitwise_mask(a, b, 0) {
                return r;
            }
            if let Some(r) = self.bitwise_pieces(a, b, 0) {
                return r;
            }
        } else {
            // absorption
            for (x, y) in [(a, b), (b, a)] {
                match *self.node(x) {
                    N::And(p, q) if p == y || q == y => return x,
                    N::Or(p, q) if p == y || q == y => return y,
                    N::And(p, q) if self.is_not_of(p, y) || self.is_not_of(q, y) => return self.c(0, 1),
                    _ => {}
                }
            }
        }
        self.intern(N::And(a, b), w)
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        let (a, b) = self.ord(a, b);
        if a == b {
            return a;
        }
        match (self.as_c(a), self.as_c(b)) {
            (Some(x), Some(y)) => return self.c(x | y, w),
            (_, Some(0)) => return a,
            (_, Some(y)) if y == mask(w) => return b,
            _ => {}
        }
        if self.is_not_of(a, b) {
            return self.c(mask(w), w);
        }
        if w > 1 {
            if let Some(r) = self.bitwise_mask(a, b, 1) {
                return r;
            }
            if let Some(r) = self.bitwise_pieces(a, b, 1) {
                return r;
            }
        } else {
            for (x, y) in [(a, b), (b, a)] {
                match *self.node(x) {
                    N::Or(p, q) if p == y || q == y => return x,
                    N::And(p, q) if p == y || q == y => return y,
                    N::Or(p, q) if self.is_not_of(p, y) || self.is_not_of(q, y) => return self.c(1, 1),
                    // (p & q) | !p  = q | !p
                    N::And(p, q) if self.is_not_of(p, y) => return self.or(q, y),
                    N::And(p, q) if self.is_not_of(q, y) => return self.or(p, y),
                    _ => {}
                }
            }
            // (p & q) | (p & !q) = p
            if let (N::And(p, q), N::And(r, s)) = (self.node(a).clone(), self.node(b).clone()) {
                for (x, y) in [(p, q), (q, p)] {
                    for (u, v) in [(r, s), (s, r)] {
                        if x == u && self.is_not_of(y, v) {
                            return x;
                        }
                    }
                }
            }
        }
        self.intern(N::Or(a, b), w)
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        let (a, b) = self.ord(a, b);
        if a == b {
            return self.c(0, w);
        }
        match (self.as_c(a), self.as_c(b)) {
            (Some(x), Some(y)) => return self.c(x ^ y, w),
            (_, Some(0)) => return a,
            (_, Some(y)) => {
                if let N::Xor(p, q) = *self.node(a) {
                    if let Some(z) = self.as_c(q) {
                        let k = self.c(z ^ y, w);
                        return self.xor(p, k);
                    }
                }
            }
            _ => {}
        }
        if w > 1 {
            if let Some(r) = self.bitwise_mask(a, b, 2) {
                return r;
            }
            if let Some(r) = self.bitwise_pieces(a, b, 2) {
                return r;
            }
        }
        self.intern(N::Xor(a, b), w)
    }
    pub fn shl(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        if let Some(k) = self.as_c(b) {
            if k >= w as u128 {
                return self.c(0, w);
            }
            let k = k as u32;
            if k == 0 {
                return a;
            }
            let top = self.ext(a, w - 1 - k, 0);
            let z = self.c(0, k);
            return self.cat(top, z);
        }
        if self.as_c(a) == Some(0) {
            return a;
        }
        self.intern(N::Shl(a, b), w)
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        if let Some(k) = self.as_c(b) {
            if k >= w as u128 {
                return self.c(0, w);
            }
            let k = k as u32;
            if k == 0 {
                return a;
            }
            let top = self.ext(a, w - 1, k);
            return self.zext(top, w);
        }
        if self.as_c(a) == Some(0) {
            return a;
        }
        self.intern(N::LShr(a, b), w)
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        if let Some(k) = self.as_c(b) {
            let k = (k.min(w as u128 - 1)) as u32;
            if k == 0 {
                return a;
            }
            let top = self.ext(a, w - 1, k);
            return self.sext(top, w);
        }
        self.intern(N::AShr(a, b), w)
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        if a == b {
            return self.tt();
        }
        let (a, b) = self.ord(a, b);
        if w == 1 {
            let x = self.xor(a, b);
            return self.not(x);
        }
        let (al, ah) = self.rng(a);
        let (bl, bh) = self.rng(b);
        if ah < bl || bh < al {
            return self.ff();
        }
        if let Some(k) = self.as_c(b) {
            match self.node(a).clone() {
                N::C(v) => return self.c((v == k) as u128, 1),
                N::Add(p, q) => {
                    if let Some(z) = self.as_c(q) {
                        let kk = self.c(k.wrapping_sub(z), w);
                        return self.eq(p, kk);
                    }
                }
                N::Xor(p, q) => {
                    if let Some(z) = self.as_c(q) {
                        let kk = self.c(k ^ z, w);
                        return self.eq(p, kk);
                    }
                    if k == 0 {
                        return self.eq(p, q);
                    }
                }
                N::ZExt(x) => {
                    let wx = self.width(x);
                    if k > mask(wx) {
                        return self.ff();
                    }
                    let kk = self.c(k, wx);
                    return self.eq(x, kk);
                }
                N::SExt(x) => {
                    let wx = self.width(x);
                    let kk = self.c(k, wx);
                    if sx(k & mask(wx), wx) as u128 & mask(w) != k {
                        return self.ff();
                    }
                    return self.eq(x, kk);
                }
                N::Cat(x, y) => {
                    let wy = self.width(y);
                    let wx = self.width(x);
                    let kx = self.c(k >> wy, wx);
                    let ky = self.c(k, wy);
                    let e1 = self.eq(x, kx);
                    let e2 = self.eq(y, ky);
                    return self.and(e1, e2);
                }
                N::Or(x, y) if k == 0 => {
                    let e1 = self.eq(x, b);
                    let e2 = self.eq(y, b);
                    return self.and(e1, e2);
                }
                N::Sub(x, y) if k == 0 => return self.eq(x, y),
                N::UDiv(x, d) if k == 0 && w <= 64 => {
                    if self.as_c(d).is_some() {
                        return self.ult(x, d);
                    }
                }
                N::Ite(c, x, y) => {
                    let cx = self.as_c(x).is_some();
                    let cy = self.as_c(y).is_some();
                    if cx || cy {
                        let e1 = self.eq(x, b);
                        let e2 = self.eq(y, b);
                        return self.ite(c, e1, e2);
                    }
                }
                _ => {}
            }
        } else {
            match (self.node(a).clone(), self.node(b).clone()) {
                (N::ZExt(x), N::ZExt(y)) => {
                    let m = self.width(x).max(self.width(y));
                    let x2 = self.zext(x, m);
                    let y2 = self.zext(y, m);
                    if m < w {
                        return self.eq(x2, y2);
                    }
                }
                (N::Cat(x1, x0), N::Cat(y1, y0)) if self.width(x0) == self.width(y0) => {
                    let e1 = self.eq(x1, y1);
                    let e2 = self.eq(x0, y0);
                    return self.and(e1, e2);
                }
                _ => {}
            }
        }
        self.intern(N::Eq(a, b), 1)
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        if a == b {
            return self.ff();
        }
        let (al, ah) = self.rng(a);
        let (bl, bh) = self.rng(b);
        if ah < bl {
            return self.tt();
        }
        if al >= bh {
            return self.ff();
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        if let (N::ZExt(x), N::ZExt(y)) = (self.node(a).clone(), self.node(b).clone()) {
            let m = self.width(x).max(self.width(y));
            if m < w {
                let x2 = self.zext(x, m);
                let y2 = self.zext(y, m);
                return self.ult(x2, y2);
            }
        }
        if let (N::ZExt(x), Some(k)) = (self.node(a).clone(), self.as_c(b)) {
            let wx = self.width(x);
            if k <= mask(wx) {
                let kk = self.c(k, wx);
                return self.ult(x, kk);
            }
        }
        if let (Some(k), N::ZExt(x)) = (self.as_c(a), self.node(b).clone()) {
            let wx = self.width(x);
            if k <= mask(wx) {
                let kk = self.c(k, wx);
                return self.ult(kk, x);
            }
        }
        if w <= 64 {
            // quotient < k, k < quotient
            if let (N::UDiv(x, d), Some(k)) = (self.node(a).clone(), self.as_c(b)) {
                if let Some(d) = self.as_c(d) {
                    if d * k <= mask(w) {
                        let lim = self.c(d * k, w);
                        return self.ult(x, lim);
                    }
                }
            }
            if let (Some(k), N::UDiv(x, d)) = (self.as_c(a), self.node(b).clone()) {
                if let Some(d) = self.as_c(d) {
                    if d * (k + 1) <= mask(w) {
                        let lim = self.c(d * (k + 1), w);
                        let lt = self.ult(x, lim);
                        return self.not(lt);
                    }
                }
            }
        }
        if let Some(k) = self.as_c(b) {
            if k == al + 1 {
                let kk = self.c(al, w);
                return self.eq(a, kk);
            }
            if k == ah {
                let e = self.eq(a, b);
                return self.not(e);
            }
        }
        if let Some(k) = self.as_c(a) {
            if k == bl {
                let e = self.eq(b, a);
                return self.not(e);
            }
            if k + 1 == bh {
                let kk = self.c(bh, w);
                return self.eq(b, kk);
            }
        }
        self.intern(N::Ult(a, b), 1)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        if a == b {
            return self.ff();
        }
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) {
            return self.c((sx(x, w) < sx(y, w)) as u128, 1);
        }
        let half = 1u128 << (w - 1);
        let (al, ah) = self.rng(a);
        let (bl, bh) = self.rng(b);
        let a_nonneg = ah < half;
        let b_nonneg = bh < half;
        if a_nonneg && b_nonneg || (al >= half && bl >= half) {
            return self.ult(a, b);
        }
        if self.as_c(b) == Some(0) {
            return self.ext(a, w - 1, w - 1);
        }
        if self.as_c(a) == Some(mask(w)) {
            let s = self.ext(b, w - 1, w - 1);
            return self.not(s);
        }
        self.intern(N::Slt(a, b), 1)
    }
    pub fn ule(&mut self, a: T, b: T) -> T {
        let t = self.ult(b, a);
        self.not(t)
    }
    pub fn sle(&mut self, a: T, b: T) -> T {
        let t = self.slt(b, a);
        self.not(t)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if a == b {
            return a;
        }
        match self.as_c(c) {
            Some(1) => return a,
            Some(_) => return b,
            None => {}
        }
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        if w == 0 {
            return self.intern(N::IIte(c, a, b), 0);
        }
        // negated condition
        if let N::Xor(p, q) = *self.node(c) {
            if self.as_c(q).is_some() {
                return self.ite(p, b, a);
            }
        }
        if w == 1 {
            match (self.as_c(a), self.as_c(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
            if a == c {
                return self.or(c, b);
            }
            if b == c {
                return self.and(c, a);
            }
        } else {
            match (self.as_c(a), self.as_c(b)) {
                (Some(1), Some(0)) => return self.zext(c, w),
                (Some(0), Some(1)) => {
                    let n = self.not(c);
                    return self.zext(n, w);
                }
                _ => {}
            }
            // common zero extension
            if let (N::ZExt(x), N::ZExt(y)) = (self.node(a).clone(), self.node(b).clone()) {
                let m = self.width(x).max(self.width(y));
                if m < w {
                    let x2 = self.zext(x, m);
                    let y2 = self.zext(y, m);
                    let r = self.ite(c, x2, y2);
                    return self.zext(r, w);
                }
            }
        }
        if let N::Ite(c2, x, _) = *self.node(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let N::Ite(c2, _, y) = *self.node(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        self.intern(N::Ite(c, a, b), w)
    }
    pub fn ctlz(&mut self, a: T) -> T {
        let w = self.width(a);
        if let Some(v) = self.as_c(a) {
            let k = v.leading_zeros() - (128 - w);
            return self.c(k as u128, w);
        }
        // the leading one is at a known place
        let (lo, hi) = self.rng(a);
        let k = |v: u128| v.leading_zeros() - (128 - w);
        if k(lo) == k(hi) {
            return self.c(k(hi) as u128, w);
        }
        self.intern(N::Ctlz(a), w)
    }
    pub fn cttz(&mut self, a: T) -> T {
        let w = self.width(a);
        if let Some(v) = self.as_c(a) {
            let k = v.trailing_zeros().min(w);
            return self.c(k as u128, w);
        }
        self.intern(N::Cttz(a), w)
    }
    pub fn ctpop(&mut self, a: T) -> T {
        let w = self.width(a);
        if let Some(v) = self.as_c(a) {
            return self.c(v.count_ones() as u128, w);
        }
        self.intern(N::Ctpop(a), w)
    }
    pub fn umulov(&mut self, a: T, b: T) -> T {
        let w = self.width(a);
        let (a, b) = self.ord(a, b);
        let (_, ah) = self.rng(a);
        let (_, bh) = self.rng(b);
        match ah.checked_mul(bh) {
            Some(h) if h <= mask(w) => return self.ff(),
            _ => {}
        }
        if let (Some(x), Some(y)) = (self.as_c(a), self.as_c(b)) {
            let o = match x.checked_mul(y) {
                Some(h) => h > mask(w),
                None => true,
            };
            return self.c(o as u128, 1);
        }
        if let Some(k) = self.as_c(b) {
            // overflow iff a > max / k
            let lim = self.c(mask(w) / k, w);
            return self.ult(lim, a);
        }
        self.intern(N::UMulOv(a, b), 1)
    }
    // ---- ghost integers
    pub fn ic(&mut self, b: Big) -> T {
        self.intern(N::IC(b), 0)
    }
    pub fn as_ic(&self, t: T) -> Option<&Big> {
        match self.node(t) {
            N::IC(b) => Some(b),
            _ => None,
        }
    }
    pub fn ibv(&mut self, t: T) -> T {
        if let Some(v) = self.as_c(t) {
            return self.ic(Big::from_u128(v));
        }
        if let N::ZExt(x) = *self.node(t) {
            return self.ibv(x);
        }
        self.intern(N::IBv(t), 0)
    }
    pub fn iadd(&mut self, a: T, b: T) -> T {
        match (self.as_ic(a), self.as_ic(b)) {
            (Some(x), Some(y)) => {
                let r = x.add(y);
                return self.ic(r);
            }
            (Some(x), None) if x.is_zero() => return b,
            (None, Some(y)) if y.is_zero() => return a,
            _ => {}
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.intern(N::IAdd(a, b), 0)
    }
    pub fn isub(&mut self, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.as_ic(a), self.as_ic(b)) {
            let r = x.sub(y);
            return self.ic(r);
        }
        if let Some(y) = self.as_ic(b) {
            if y.is_zero() {
                return a;
            }
        }
        if a == b {
            return self.ic(Big::zero());
        }
        self.intern(N::ISub(a, b), 0)
    }
    pub fn imul(&mut self, a: T, b: T) -> T {
        match (self.as_ic(a), self.as_ic(b)) {
            (Some(x), Some(y)) => {
                let r = x.mul(y);
                return self.ic(r);
            }
            (Some(x), None) if x.is_one() => return b,
            (None, Some(y)) if y.is_one() => return a,
            (Some(x), None) if x.is_zero() => return a,
            (None, Some(y)) if y.is_zero() => return b,
            _ => {}
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.intern(N::IMul(a, b), 0)
    }
    pub fn idiv(&mut self, a: T, d: &Big) -> T {
        if d.is_one() {
            return a;
        }
        if let Some(x) = self.as_ic(a) {
            let r = x.divmod_floor(d).0;
            return self.ic(r);
        }
        let (l, h) = (self.ilo[&a].divmod_floor(d).0, self.ihi[&a].divmod_floor(d).0);
        if l == h {
            return self.ic(l);
        }
        self.intern(N::IDiv(a, d.clone()), 0)
    }
    pub fn ile(&mut self, a: T, b: T) -> T {
        if a == b || self.ihi[&a] <= self.ilo[&b] {
            return self.tt();
        }
        if self.ilo[&a] > self.ihi[&b] {
            return self.ff();
        }
        self.intern(N::ILe(a, b), 1)
    }
    pub fn ieq(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.tt();
        }
        if self.ilo[&a] > self.ihi[&b] || self.ilo[&b] > self.ihi[&a] {
            return self.ff();
        }
        if self.as_ic(a).is_some() && self.as_ic(b).is_some() {
            return self.ff();
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.intern(N::IEq(a, b), 1)
    }
    pub fn kids(&self, t: T) -> Vec<T> {
        match *self.node(t) {
            N::C(_) | N::Sym(_) | N::IC(_) => vec![],
            N::Add(a, b) | N::Sub(a, b) | N::Mul(a, b) | N::UDiv(a, b) | N::URem(a, b) | N::SDiv(a, b) | N::SRem(a, b)
            | N::And(a, b) | N::Or(a, b) | N::Xor(a, b) | N::Shl(a, b) | N::LShr(a, b) | N::AShr(a, b) | N::Cat(a, b)
            | N::Eq(a, b) | N::Ult(a, b) | N::Slt(a, b) | N::UMulOv(a, b) | N::IAdd(a, b) | N::ISub(a, b) | N::IMul(a, b)
            | N::ILe(a, b) | N::IEq(a, b) => vec![a, b],
            N::Ext(a, _, _) | N::ZExt(a) | N::SExt(a) | N::Ctlz(a) | N::Cttz(a) | N::Ctpop(a) | N::IBv(a) | N::IDiv(a, _) => vec![a],
            N::Ite(c, a, b) | N::IIte(c, a, b) => vec![c, a, b],
        }
    }
    /// topologically ordered cone of the given roots
    pub fn cone(&self, roots: &[T]) -> Vec<T> {
        let mut seen = std::collections::HashSet::new();
        let mut stack: Vec<T> = roots.to_vec();
        while let Some(t) = stack.pop() {
            if seen.insert(t) {
                stack.extend(self.kids(t));
            }
        }
        let mut v: Vec<T> = seen.into_iter().collect();
        v.sort(); // ids are topologically ordered by construction
        v
    }
}

#[derive(Clone, Debug)]
pub enum P {
    K(u128, u32),
    X(T, u32),
}
impl P {
    pub fn w(&self) -> u32 {
        match self {
            P::K(_, w) | P::X(_, w) => *w,
        }
    }
}

/// Concrete evaluation under a model.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    B(u128),
    I(Big),
}
pub struct Eval<'a> {
    pub tm: &'a Terms,
    pub model: &'a [u128],
    pub memo: HashMap<T, V>,
}
impl<'a> Eval<'a> {
    pub fn new(tm: &'a Terms, model: &'a [u128]) -> Self {
        Eval { tm, model, memo: HashMap::new() }
    }
    pub fn bool(&mut self, t: T) -> bool {
        self.bv(t) == 1
    }
    pub fn bv(&mut self, t: T) -> u128 {
        match self.get(t) {
            V::B(x) => x,
            _ => panic!("bv"),
        }
    }
    pub fn int(&mut self, t: T) -> Big {
        match self.get(t) {
            V::I(x) => x,
            _ => panic!("int"),
        }
    }
    pub fn get(&mut self, root: T) -> V {
        if let Some(v) = self.memo.get(&root) {
            return v.clone();
        }
        let mut st = vec![root];
        while let Some(&t) = st.last() {
            if self.memo.contains_key(&t) {
                st.pop();
                continue;
            }
            let kids = self.tm.kids(t);
            let mut ready = true;
            for k in &kids {
                if !self.memo.contains_key(k) {
                    st.push(*k);
                    ready = false;
                }
            }
            if ready {
                let v = self.step(t);
                self.memo.insert(t, v);
                st.pop();
            }
        }
        self.memo[&root].clone()
    }
    fn g(&self, t: T) -> u128 {
        match &self.memo[&t] {
            V::B(x) => *x,
            _ => panic!(),
        }
    }
    fn gi(&self, t: T) -> &Big {
        match &self.memo[&t] {
            V::I(x) => x,
            _ => panic!(),
        }
    }
    fn step(&self, t: T) -> V {
        let tm = self.tm;
        let w = tm.width(t);
        let m = if w > 0 { mask(w) } else { 0 };
        let r: u128 = match tm.node(t) {
            N::C(v) => *v,
            N::Sym(s) => self.model.get(*s as usize).copied().unwrap_or(0),
            N::Add(a, b) => self.g(*a).wrapping_add(self.g(*b)),
            N::Sub(a, b) => self.g(*a).wrapping_sub(self.g(*b)),
            N::Mul(a, b) => self.g(*a).wrapping_mul(self.g(*b)),
            N::UDiv(a, b) => {
                let y = self.g(*b);
                if y == 0 {
                    m
                } else {
                    self.g(*a) / y
                }
            }
            N::URem(a, b) => {
                let y = self.g(*b);
                if y == 0 {
                    self.g(*a)
                } else {
                    self.g(*a) % y
                }
            }
            N::SDiv(a, b) => {
                let (x, y) = (sx(self.g(*a), w), sx(self.g(*b), w));
                if y == 0 {
                    if x < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    x.wrapping_div(y) as u128
                }
            }
            N::SRem(a, b) => {
                let (x, y) = (sx(self.g(*a), w), sx(self.g(*b), w));
                if y == 0 {
                    x as u128
                } else {
                    x.wrapping_rem(y) as u128
                }
            }
            N::And(a, b) => self.g(*a) & self.g(*b),
            N::Or(a, b) => self.g(*a) | self.g(*b),
            N::Xor(a, b) => self.g(*a) ^ self.g(*b),
            N::Shl(a, b) => {
                let k = self.g(*b);
                if k >= w as u128 {
                    0
                } else {
                    self.g(*a) << k
                }
            }
            N::LShr(a, b) => {
                let k = self.g(*b);
                if k >= w as u128 {
                    0
                } else {
                    self.g(*a) >> k
                }
            }
            N::AShr(a, b) => {
                let k = self.g(*b).min(w as u128 - 1);
                (sx(self.g(*a), w) >> k) as u128
            }
            N::Ext(a, _, lo) => self.g(*a) >> lo,
            N::Cat(a, b) => {
                let wb = tm.width(*b);
                (self.g(*a) << wb) | self.g(*b)
            }
            N::ZExt(a) => self.g(*a),
            N::SExt(a) => sx(self.g(*a), tm.width(*a)) as u128,
            N::Eq(a, b) => (self.g(*a) == self.g(*b)) as u128,
            N::Ult(a, b) => (self.g(*a) < self.g(*b)) as u128,
            N::Slt(a, b) => {
                let wa = tm.width(*a);
                (sx(self.g(*a), wa) < sx(self.g(*b), wa)) as u128
            }
            N::Ite(c, a, b) => {
                if self.g(*c) == 1 {
                    self.g(*a)
                } else {
                    self.g(*b)
                }
            }
            N::Ctlz(a) => (self.g(*a).leading_zeros() - (128 - w)) as u128,
            N::Cttz(a) => self.g(*a).trailing_zeros().min(w) as u128,
            N::Ctpop(a) => self.g(*a).count_ones() as u128,
            N::UMulOv(a, b) => {
                let wa = tm.width(*a);
                match self.g(*a).checked_mul(self.g(*b)) {
                    Some(h) => (h > mask(wa)) as u128,
                    None => 1,
                }
            }
            N::IC(b) => return V::I(b.clone()),
            N::IBv(a) => return V::I(Big::from_u128(self.g(*a))),
            N::IAdd(a, b) => return V::I(self.gi(*a).add(self.gi(*b))),
            N::ISub(a, b) => return V::I(self.gi(*a).sub(self.gi(*b))),
            N::IMul(a, b) => return V::I(self.gi(*a).mul(self.gi(*b))),
            N::IDiv(a, d) => return V::I(self.gi(*a).divmod_floor(d).0),
            N::IIte(c, a, b) => return V::I(if self.g(*c) == 1 { self.gi(*a).clone() } else { self.gi(*b).clone() }),
            N::ILe(a, b) => (self.gi(*a) <= self.gi(*b)) as u128,
            N::IEq(a, b) => (self.gi(*a) == self.gi(*b)) as u128,
        };
        V::B(r & m)
    }
}

//! uniform sampling
use crate::vf::*;
use ibig::verif::{self, Word};
use ibig::{IBig, UBig};
use rand::distributions::uniform::{SampleUniform, UniformSampler};
use rand::{Error, Rng, RngCore};

/// a source of random words of which each is any value; at most MAX of them
const MAX: usize = 12;
struct Source {
    w: [u64; MAX],
    n: usize,
}
impl Source {
    /// k words, all different symbols
    fn new(k: usize) -> Source {
        let mut w = [0; MAX];
        for i in 0..k {
            w[i] = su64();
        }
        Source { w, n: 0 }
    }
}
impl RngCore for Source {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let x = self.w[self.n];
        self.n += 1;
        x
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        let mut k = 0;
        while k < d.len() {
            let b = self.next_u64().to_le_bytes();
            for j in 0..8 {
                if k < d.len() {
                    d[k] = b[j];
                    k += 1;
                }
            }
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
type US = <UBig as SampleUniform>::Sampler;
type IS = <IBig as SampleUniform>::Sampler;
fn full(n: usize, t: Word) -> [Word; 8] {
    let mut w = [0; 8];
    for k in 0..n {
        w[k] = sword();
    }
    w[n - 1] = t;
    w
}
/// range [0, r) where the top word of r is all ones: the sample is the source words themselves (top word first, then the lower
/// words), as long as they are below r
fn direct(n: usize) {
    let r = full(n, Word::MAX);
    let low = sibig(choose(3) as usize);
    let mut s = Source::new(n);
    // source word 0 is the top word of the sample
    let mut x = [0 as Word; 8];
    x[n - 1] = s.w[0] as Word;
    for k in 0..n - 1 {
        x[k] = s.w[1 + k] as Word;
    }
    // the case where the top word does not decide is drawn word by word: see tie()
    assume(x[n - 1] != Word::MAX);
    let range = cnum(&r[..n]);
    let high = &low + IBig::from(range.clone());
    reach(1);
    if choose(2) == 0 {
        let d = IS::new(&low, &high);
        let v = d.sample(&mut s);
        iis(&v, ival(&low) + Int::words(&x[..n]), 1);
    } else {
        assume(!isneg(&low));
        let l = imag(&low).clone();
        let h = &l + &range;
        let v = US::new(&l, &h).sample(&mut s);
        is(&v, val(&l) + Int::words(&x[..n]), 3);
    }
    check(s.n == n, 5);
}
/// as direct(), when the top `t` words drawn equal those of the range
fn tie(n: usize, t: usize) {
    let r = full(n, Word::MAX);
    let mut s = Source::new(n);
    let mut x = [0 as Word; 8];
    for k in 0..t {
        s.w[k] = r[n - 1 - k] as u64;
        x[n - 1 - k] = r[n - 1 - k];
    }
    // the next word is below
    x[n - 1 - t] = s.w[t] as Word;
    assume(x[n - 1 - t] < r[n - 1 - t]);
    for k in 0..n - 1 - t {
        x[k] = s.w[t + 1 + k] as Word;
    }
    let range = cnum(&r[..n]);
    reach(1);
    let v = US::new(UBig::from(0u8), &range).sample(&mut s);
    is(&v, Int::words(&x[..n]), 1);
    check(s.n == n, 3);
}
/// a draw that is not below the range is dropped and the next one is used
fn rejected(n: usize, t: usize) {
    let r = full(n, Word::MAX);
    let mut s = Source::new(t + 1 + n);
    for k in 0..t {
        s.w[k] = r[n - 1 - k] as u64;
    }
    let last = s.w[t] as Word;
    if t + 1 == n {
        assume(last >= r[0]);
    } else {
        assume(last > r[n - 1 - t]);
    }
    let mut x = [0 as Word; 8];
    let o = t + 1;
    x[n - 1] = s.w[o] as Word;
    assume(x[n - 1] < r[n - 1]);
    for k in 0..n - 1 {
        x[k] = s.w[o + 1 + k] as Word;
    }
    let range = cnum(&r[..n]);
    reach(1);
    let v = US::new_inclusive(UBig::from(0u8), range - UBig::from(1u8)).sample(&mut s);
    is(&v, Int::words(&x[..n]), 1);
    check(s.n == o + n, 3);
}
/// the same for ranges whose top word is a small constant: every value below the range is drawn, and for every source the sample
/// is in the range
fn reachable(n: usize, top: u64) {
    let r = full(n, top as Word);
    // any value below
    let mut x = [0 as Word; 8];
    for k in 0..n {
        x[k] = sword();
    }
    let mut s = Source::new(0);
    if n == 1 {
        assume(x[0] < top as Word);
        let q = (1u128 << 64) / top as u128;
        // a source word that is mapped to x: x * 2^64 / top, rounded up
        s.w[0] = ((x[0] as u128 * (1u128 << 64) + top as u128 - 1) / top as u128) as u64;
        let _ = q;
    } else {
        assume(x[n - 1] < top as Word);
        s.w[0] = ((x[n - 1] as u128 * (1u128 << 64) + top as u128) / (top as u128 + 1)) as u64;
        for k in 0..n - 1 {
            s.w[1 + k] = x[k] as u64;
        }
    }
    let range = cnum(&r[..n]);
    reach(1);
    let v = US::new(UBig::from(0u8), &range).sample(&mut s);
    is(&v, Int::words(&x[..n]), 1);
}
/// whatever the source gives, a sample lies in the range
fn inside(n: usize, top: u64) {
    let r = full(n, top as Word);
    let low = sibig(choose(3) as usize);
    let range = cnum(&r[..n]);
    // two tries at most
    let mut s = Source::new(n);
    // one word of the sample is enough to decide
    if n > 1 {
        let c = (s.w[0] as u128 * (top as u128 + 1)) >> 64;
        let lo = (s.w[0] as u128 * (top as u128 + 1)) as u64;
        let zone = ((top + 1) << (top + 1).leading_zeros()) - 1;
        assume(lo <= zone);
        assume(c < top as u128);
    } else {
        let lo = (s.w[0] as u128 * top as u128) as u64;
        let zone = (top << top.leading_zeros()) - 1;
        assume(lo <= zone);
    }
    let high = &low + IBig::from(range.clone());
    reach(1);
    let v = IS::new(&low, &high).sample(&mut s);
    check(ival(&low).le(ival(&v)), 1);
    check(ival(&v).lt(ival(&high)), 2);
}
fn empty() {
    let n = choose(3) as usize;
    let m = choose(3) as usize;
    match choose(4) {
        0 => {
            let (a, b) = (snum(n), snum(m));
            let ok = val(&a).lt(val(&b));
            reach(1);
            allow_panic(!ok);
            let _ = US::new(&a, &b);
            check(ok, 1);
        }
        1 => {
            let (a, b) = (snum(n), snum(m));
            let ok = val(&a).le(val(&b));
            reach(2);
            allow_panic(!ok);
            let _ = US::new_inclusive(&a, &b);
            check(ok, 2);
        }
        2 => {
            let (a, b) = (sibig(n), sibig(m));
            let ok = ival(&a).lt(ival(&b));
            reach(3);
            allow_panic(!ok);
            let _ = IS::new(&a, &b);
            check(ok, 3);
        }
        _ => {
            let (a, b) = (sibig(n), sibig(m));
            let ok = ival(&a).le(ival(&b));
            reach(4);
            allow_panic(!ok);
            let _ = IS::new_inclusive(&a, &b);
            check(ok, 4);
        }
    }
}
/// a range of one value gives that value
fn single() {
    let a = sibig(choose(4) as usize);
    let mut s = Source::new(2);
    reach(1);
    match choose(4) {
        0 => isame(&IS::new_inclusive(&a, &a).sample(&mut s), &a, 1),
        1 => isame(&IS::new(&a, &a + IBig::from(1u8)).sample(&mut s), &a, 3),
        2 => isame(&s.gen_range(a.clone()..=a.clone()), &a, 5),
        _ => {
            let u = imag(&a).clone();
            let v = s.gen_range(u.clone()..&u + UBig::from(1u8));
            same(&u, &v, 7)
        }
    }
}
h! {
    h_rand_direct_2 { direct(2) }
    h_rand_direct_3 { direct(3) }
    h_rand_direct_5 { direct(5) }
    h_rand_tie_2_1 { tie(2, 1) }
    h_rand_tie_3_1 { tie(3, 1) }
    h_rand_tie_3_2 { tie(3, 2) }
    h_rand_tie_5_3 { tie(5, 3) }
    h_rand_rej_2_1 { rejected(2, 1) }
    h_rand_rej_3_1 { rejected(3, 1) }
    h_rand_rej_3_2 { rejected(3, 2) }
    h_rand_reach_1_1 { reachable(1, 1) }
    h_rand_reach_1_2 { reachable(1, 2) }
    h_rand_reach_1_3 { reachable(1, 3) }
    h_rand_reach_1_6 { reachable(1, 6) }
    h_rand_reach_1_10 { reachable(1, 10) }
    h_rand_reach_1_100 { reachable(1, 100) }
    h_rand_reach_1_big { reachable(1, 0xfffffffffffffffb) }
    h_rand_reach_2_1 { reachable(2, 1) }
    h_rand_reach_2_2 { reachable(2, 2) }
    h_rand_reach_2_5 { reachable(2, 5) }
    h_rand_reach_2_9 { reachable(2, 9) }
    h_rand_reach_3_1 { reachable(3, 1) }
    h_rand_reach_3_6 { reachable(3, 6) }
    h_rand_reach_2_big { reachable(2, 0xfffffffffffffffb) }
    h_rand_in_1_1 { inside(1, 1) }
    h_rand_in_1_3 { inside(1, 3) }
    h_rand_in_1_10 { inside(1, 10) }
    h_rand_in_2_1 { inside(2, 1) }
    h_rand_in_2_5 { inside(2, 5) }
    h_rand_in_3_2 { inside(3, 2) }
    h_rand_empty { empty() }
    h_rand_single { single() }
}

//! Ghost interface. In the symbolic build these are interpreted by the symbolic executor; in the native build
//! (counterexample replay) they are ordinary functions (src/bin/replay.rs).
use ibig::verif;
use ibig::{IBig, UBig};

extern "C-unwind" {
    fn vf_sym(bits: u64) -> u64;
    fn vf_assume(c: bool);
    fn vf_check(c: bool, id: u32);
    fn vf_allow_panic(c: bool);
    fn vf_reach(id: u32);
    fn vf_split(n: u64);
    fn vf_merge(on: u32);
    fn vf_choose(n: u64) -> u64;
    fn vf_concretize(x: u64) -> u64;
    fn vf_observe(x: u64);
    fn vf_int_words(p: *const u8, len: usize, word_bytes: usize) -> u32;
    fn vf_int_u64(x: u64) -> u32;
    fn vf_int_add(a: u32, b: u32) -> u32;
    fn vf_int_sub(a: u32, b: u32) -> u32;
    fn vf_int_div(a: u32, b: u32) -> u32;
    fn vf_int_mul(a: u32, b: u32) -> u32;
    fn vf_int_shl(a: u32, k: u64) -> u32;
    fn vf_int_ite(c: bool, a: u32, b: u32) -> u32;
    fn vf_int_le(a: u32, b: u32) -> bool;
    fn vf_int_eq(a: u32, b: u32) -> bool;
}

pub const WB: u32 = Word::BITS;
pub const WBU: usize = Word::BITS as usize;

#[inline(always)]
pub fn sym(bits: u32) -> u64 {
    unsafe { vf_sym(bits as u64) }
}
#[inline(always)]
pub fn sword() -> Word {
    unsafe { vf_sym(WB as u64) as Word }
}
#[inline(always)]
pub fn su8() -> u8 {
    sym(8) as u8
}
#[inline(always)]
pub fn su16() -> u16 {
    sym(16) as u16
}
#[inline(always)]
pub fn su32() -> u32 {
    sym(32) as u32
}
#[inline(always)]
pub fn su64() -> u64 {
    sym(64)
}
#[inline(always)]
pub fn su128() -> u128 {
    let lo = sym(64) as u128;
    let hi = sym(64) as u128;
    lo | (hi << 64)
}
#[inline(always)]
pub fn sbool() -> bool {
    sym(1) != 0
}
/// concrete non-deterministic choice in 0..n (the executor explores every value)
#[inline(always)]
pub fn choose(n: u64) -> u64 {
    unsafe { vf_choose(n) }
}
#[inline(always)]
pub fn conc(x: u64) -> u64 {
    unsafe { vf_concretize(x) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { vf_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, id: u32) {
    unsafe { vf_check(c, id) }
}
/// from here on the code under test may panic exactly when c holds (checked by `check(!c)` after the call)
#[inline(always)]
pub fn allow_panic(c: bool) {
    unsafe { vf_allow_panic(c) }
}
#[inline(always)]
pub fn reach(id: u32) {
    unsafe { vf_reach(id) }
}
/// case-split quotients and remainders by constants that take at most n values (affects only how the question is decided)
#[inline(always)]
pub fn split(n: u64) {
    unsafe { vf_split(n) }
}
#[inline(always)]
pub fn merge(on: bool) {
    unsafe { vf_merge(on as u32) }
}
#[inline(always)]
pub fn observe(x: u64) {
    unsafe { vf_observe(x) }
}

/// Ghost mathematical integer.
#[derive(Clone, Copy)]
pub struct Int(u32);
impl Int {
    #[inline(always)]
    pub fn u(x: u64) -> Int {
        Int(unsafe { vf_int_u64(x) })
    }
    #[inline(always)]
    pub fn i(x: i64) -> Int {
        Int::signed(x < 0, Int::u(x.unsigned_abs()))
    }
    #[inline(always)]
    pub fn u128(x: u128) -> Int {
        Int::u(x as u64) + Int::u((x >> 64) as u64).shl(64)
    }
    #[inline(always)]
    pub fn i128(x: i128) -> Int {
        Int::signed(x < 0, Int::u128(x.unsigned_abs()))
    }
    #[inline(always)]
    pub fn signed(neg: bool, m: Int) -> Int {
        let n = Int::u(0) - m;
        n.or(neg, m)
    }
    #[inline(always)]
    pub fn words(w: &[Word]) -> Int {
        Int(unsafe { vf_int_words(w.as_ptr() as *const u8, w.len(), (WB / 8) as usize) })
    }
    #[inline(always)]
    pub fn bytes_le(w: &[u8]) -> Int {
        Int(unsafe { vf_int_words(w.as_ptr(), w.len(), 1) })
    }
    #[inline(always)]
    /// floor of the quotient by a positive constant
    pub fn div(self, d: Int) -> Int {
        Int(unsafe { vf_int_div(self.0, d.0) })
    }
    /// least non-negative residue modulo a positive constant
    pub fn rem(self, d: Int) -> Int {
        self - self.div(d) * d
    }
    pub fn shl(self, k: u64) -> Int {
        Int(unsafe { vf_int_shl(self.0, k) })
    }
    /// if c { self } else { o }
    #[inline(always)]
    pub fn or(self, c: bool, o: Int) -> Int {
        Int(unsafe { vf_int_ite(c, self.0, o.0) })
    }
    #[inline(always)]
    pub fn le(self, o: Int) -> bool {
        unsafe { vf_int_le(self.0, o.0) }
    }
    #[inline(always)]
    pub fn lt(self, o: Int) -> bool {
        unsafe { !vf_int_le(o.0, self.0) }
    }
    #[inline(always)]
    pub fn eq(self, o: Int) -> bool {
        unsafe { vf_int_eq(self.0, o.0) }
    }
}
impl core::ops::Add for Int {
    type Output = Int;
    #[inline(always)]
    fn add(self, o: Int) -> Int {
        Int(unsafe { vf_int_add(self.0, o.0) })
    }
}
impl core::ops::Sub for Int {
    type Output = Int;
    #[inline(always)]
    fn sub(self, o: Int) -> Int {
        Int(unsafe { vf_int_sub(self.0, o.0) })
    }
}
impl core::ops::Mul for Int {
    type Output = Int;
    #[inline(always)]
    fn mul(self, o: Int) -> Int {
        Int(unsafe { vf_int_mul(self.0, o.0) })
    }
}

// ------------------------------------------------------------------------------------------------ numbers
/// Any number of exactly n words (most significant word nonzero); 0 for n = 0.
pub fn snum(n: usize) -> UBig {
    let mut w = [0 as Word; 80];
    for k in 0..n {
        w[k] = sword();
    }
    if n > 0 {
        assume(w[n - 1] != 0);
    }
    verif::ubig_from_words(&w[..n])
}
/// Any number of at most n words, with any words (the real normalisation decides the length).
pub fn sany(n: usize) -> UBig {
    let mut w = [0 as Word; 80];
    for k in 0..n {
        w[k] = sword();
    }
    verif::ubig_from_words(&w[..n])
}
pub fn sint(n: usize, neg: bool) -> IBig {
    verif::ibig_from_parts(neg, snum(n))
}
pub fn val(x: &UBig) -> Int {
    Int::words(verif::ubig_words(x))
}
pub fn ival(x: &IBig) -> Int {
    let m = val(verif::ibig_magnitude(x));
    if verif::ibig_is_negative(x) {
        Int::u(0) - m
    } else {
        m
    }
}
/// The representation invariant every public value must satisfy (equality and hashing are structural).
pub fn canon(x: &UBig, id: u32) {
    let w = verif::ubig_words(x);
    let cap = verif::ubig_capacity(x);
    if cap == 0 {
        check(w.len() <= 1, id);
        if w.len() == 1 {
            check(w[0] != 0, id);
        }
    } else {
        check(w.len() >= 2, id);
        check(w[w.len() - 1] != 0, id);
        check(cap >= w.len(), id);
        // documented: at most about 25% + 4 words of slack
        check(cap <= w.len() + w.len() / 4 + 4, id);
    }
}
pub fn icanon(x: &IBig, id: u32) {
    canon(verif::ibig_magnitude(x), id);
    if verif::ibig_is_negative(x) {
        check(!verif::ubig_words(verif::ibig_magnitude(x)).is_empty(), id);
    }
}
/// canonical and equal to v
pub fn is(x: &UBig, v: Int, id: u32) {
    canon(x, id);
    check(val(x).eq(v), id);
}
pub fn iis(x: &IBig, v: Int, id: u32) {
    icanon(x, id);
    check(ival(x).eq(v), id);
}

// ------------------------------------------------------------------------------------------------ more helpers
pub fn neg_int(x: Int) -> Int {
    Int::u(0) - x
}
/// word k of a magnitude (0 beyond its end)
pub fn wk(x: &UBig, k: usize) -> Word {
    let w = verif::ubig_words(x);
    if k < w.len() {
        w[k]
    } else {
        0
    }
}
/// low n words of the two's complement representation
pub fn twos(x: &IBig, n: usize) -> [Word; 12] {
    let mut r = [0 as Word; 12];
    let m = verif::ibig_magnitude(x);
    if verif::ibig_is_negative(x) {
        let mut borrow: Word = 1;
        for k in 0..n {
            let w = wk(m, k);
            let d = w.wrapping_sub(borrow);
            borrow = ((w < borrow) as u8) as Word;
            r[k] = !d;
        }
    } else {
        for k in 0..n {
            r[k] = wk(m, k);
        }
    }
    r
}
pub fn isneg(x: &IBig) -> bool {
    verif::ibig_is_negative(x)
}
pub fn imag(x: &IBig) -> &UBig {
    verif::ibig_magnitude(x)
}
/// same representation
pub fn same(x: &UBig, y: &UBig, id: u32) {
    let (a, b) = (verif::ubig_words(x), verif::ubig_words(y));
    check(a.len() == b.len(), id);
    for k in 0..a.len() {
        check(a[k] == b[k], id);
    }
}
pub fn isame(x: &IBig, y: &IBig, id: u32) {
    check(isneg(x) == isneg(y), id);
    same(imag(x), imag(y), id);
}
/// any signed number of exactly n words; sign chosen by the executor
pub fn sibig(n: usize) -> IBig {
    let neg = if n == 0 { false } else { choose(2) == 1 };
    sint(n, neg)
}
/// concrete number from words
pub fn cnum(w: &[Word]) -> UBig {
    verif::ubig_from_words(w)
}
/// number of words
pub fn ubig_len(x: &UBig) -> usize {
    verif::ubig_words(x).len()
}
/// sign of an n-word number
pub fn sgn(n: usize) -> bool {
    n != 0 && choose(2) == 1
}
pub use ibig::verif::Word;

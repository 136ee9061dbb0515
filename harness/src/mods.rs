//! modular arithmetic
use crate::muls::pattern;
use crate::vf::*;
use ibig::{Modulo, ModuloRing};
use ibig::verif::Word;
use ibig::{IBig, UBig};

/// moduli of one word
fn m1(k: u64) -> Word {
    match k {
        0 => 1,
        1 => 2,
        2 => 10,
        3 => Word::MAX,
        4 => 1 << (WB - 1),
        5 => (1 << (WB - 1)) | 1,
        6 => (0x5bu64.wrapping_mul(0x0102_0408_1020_4081)) as Word,
        7 => (0xc3u64.wrapping_mul(0x0101_0301_0105_0101)) as Word,
        8 => 3,
        _ => Word::MAX >> 1,
    }
}
fn one(w: Word) -> UBig {
    cnum(&[w])
}
/// the residue is v modulo n, canonical, and in range
fn res(x: &Modulo, v: Int, n: Int, id: u32) {
    let r = x.residue();
    canon(&r, id);
    check(val(&r).eq(v.rem(n)), id);
}
/// the residue equals v, already reduced
fn rese(x: &Modulo, v: Int, id: u32) {
    let r = x.residue();
    canon(&r, id);
    check(val(&r).eq(v), id);
}
/// a symbolic residue: a number below n, n of the given length
fn below(n: &UBig, len: usize) -> UBig {
    let a = sany(len);
    assume(val(&a).lt(val(n)));
    a
}
fn conv(nn: UBig, x: usize) {
    let n = val(&nn);
    let ring = ModuloRing::new(&nn);
    same(&ring.modulus(), &nn, 1);
    let a = snum(x);
    reach(1);
    match choose(4) {
        0 => res(&ring.from(&a), val(&a), n, 2),
        1 => {
            let v = val(&a);
            res(&ring.from(a), v, n, 3)
        }
        2 => {
            let s = sgn(x);
            let a = ibig::verif::ibig_from_parts(s, a);
            res(&ring.from(&a), ival(&a), n, 4)
        }
        _ => {
            let s = sgn(x);
            let a = ibig::verif::ibig_from_parts(s, a);
            let v = ival(&a);
            res(&ring.from(a), v, n, 5)
        }
    }
}
/// two symbolic elements of the ring, which must not be longer than the modulus
fn ops(nn: UBig, la: usize, lb: usize, f0: u64, nf: u64) {
    let n = val(&nn);
    let ring = ModuloRing::new(&nn);
    let a = snum(la);
    let b = snum(lb);
    assume(val(&a).lt(n));
    assume(val(&b).lt(n));
    let x = ring.from(&a);
    let y = ring.from(&b);
    reach(1);
    let (a, b) = (val(&a), val(&b));
    match f0 + choose(nf) {
        0 => rese(&(&x + &y), red(a + b, n), 1),
        1 => rese(&(x + &y), red(a + b, n), 1),
        2 => rese(&(&x + y), red(a + b, n), 1),
        3 => rese(&(x + y), red(a + b, n), 1),
        4 => {
            let mut x = x;
            x += &y;
            rese(&x, red(a + b, n), 1)
        }
        5 => {
            let mut x = x;
            x += y;
            rese(&x, red(a + b, n), 1)
        }
        6 => rese(&(&x - &y), red(a - b, n), 2),
        7 => rese(&(x - &y), red(a - b, n), 2),
        8 => rese(&(&x - y), red(a - b, n), 2),
        9 => rese(&(x - y), red(a - b, n), 2),
        10 => {
            let mut x = x;
            x -= &y;
            rese(&x, red(a - b, n), 2)
        }
        11 => {
            let mut x = x;
            x -= y;
            rese(&x, red(a - b, n), 2)
        }
        12 => rese(&-&x, red(Int::u(0) - a, n), 3),
        13 => rese(&-x, red(Int::u(0) - a, n), 3),
        14 => {
            rese(&x, a, 4);
            let c = x.clone();
            rese(&c, a, 4);
            let mut d = y;
            d.clone_from(&x);
            rese(&d, a, 4)
        }
        _ => {
            let e = x == y;
            check(e == a.eq(b), 5);
            check((x != y) == !e, 5);
            same(&ring.modulus(), &nn, 6);
        }
    }
}
/// reduction of a value in (-n, 2n)
fn red(v: Int, n: Int) -> Int {
    let v = (v - n).or(n.le(v), v);
    (v + n).or(v.lt(Int::u(0)), v)
}
fn mulop(nn: UBig, a: UBig, b: UBig) {
    let n = val(&nn);
    let ring = ModuloRing::new(&nn);
    let x = ring.from(&a);
    let y = ring.from(&b);
    reach(1);
    let v = val(&a) * val(&b);
    match choose(6) {
        0 => res(&(&x * &y), v, n, 1),
        1 => res(&(x * &y), v, n, 1),
        2 => res(&(&x * y), v, n, 1),
        3 => res(&(x * y), v, n, 1),
        4 => {
            let mut x = x;
            x *= &y;
            res(&x, v, n, 1)
        }
        _ => {
            let mut x = x;
            x *= y;
            res(&x, v, n, 1)
        }
    }
}
fn mul1(k: u64) {
    let nn = one(m1(k));
    let n = val(&nn);
    let ring = ModuloRing::new(&nn);
    let a = below(&nn, 1);
    let b = below(&nn, 1);
    let x = ring.from(&a);
    let y = ring.from(&b);
    reach(1);
    res(&(&x * &y), val(&a) * val(&b), n, 1)
}
fn mulforms() {
    let nn = one(10);
    let a = below(&nn, 1);
    let b = below(&nn, 1);
    mulop(nn, a, b)
}

/// a product in a ring of several words: modulus a pattern, one operand symbolic, the other a pattern
fn mulc(len: usize, pn: u64, pb: u64) {
    let w = pattern(len, pn);
    let nn = cnum(&w[..len]);
    let a = below(&nn, len);
    let v = pattern(len, pb);
    mulop(nn, a, cnum(&v[..len]))
}
fn mulw(len: usize, pn: u64) {
    let w = pattern(len, pn);
    let nn = cnum(&w[..len]);
    mulop(nn, one(sword()), one(sword()))
}
fn prims() {
    let nn = if choose(2) == 0 { one(m1(choose(3) * 2 + 1)) } else { cnum(&[7, 0, 1 << 3]) };
    let n = val(&nn);
    let ring = ModuloRing::new(&nn);
    macro_rules! u {
        ($t:ty, $g:ident) => {{
            let x = $g() as $t;
            res(&ring.from(x), Int::u128(x as u128), n, 1)
        }};
    }
    macro_rules! i {
        ($t:ty, $g:ident) => {{
            let x = $g() as $t;
            res(&ring.from(x), Int::i128(x as i128), n, 1)
        }};
    }
    reach(1);
    match choose(13) {
        0 => u!(u8, su8),
        1 => u!(u16, su16),
        2 => u!(u32, su32),
        3 => u!(u64, su64),
        4 => u!(usize, su64),
        5 => u!(u128, su128),
        6 => i!(i8, su8),
        7 => i!(i16, su16),
        8 => i!(i32, su32),
        9 => i!(i64, su64),
        10 => i!(isize, su64),
        11 => i!(i128, su128),
        _ => {
            let x = sbool();
            res(&ring.from(x), Int::u(x as u64), n, 1)
        }
    }
}
/// powers with a concrete exponent, base any element
fn pow(nn: UBig, len: usize, e: u64) {
    let n = val(&nn);
    let ring = ModuloRing::new(&nn);
    let a = below(&nn, len);
    let x = ring.from(&a);
    reach(1);
    let y = x.pow(&UBig::from(e));
    let mut v = Int::u(1);
    let mut k = 0;
    while k < e {
        v = (v * val(&a)).rem(n);
        k += 1;
    }
    res(&y, v, n, 1);
}
fn inv(nn: UBig, len: usize) {
    let n = val(&nn);
    let ring = ModuloRing::new(&nn);
    let a = below(&nn, len);
    let x = ring.from(&a);
    reach(1);
    match x.inverse() {
        Some(y) => {
            let r = y.residue();
            canon(&r, 1);
            check(val(&r).lt(n), 2);
            check((val(&r) * val(&a)).rem(n).eq(Int::u(1).rem(n)), 3);
        }
        None => {
            // a nontrivial common divisor exists: the modulus is prime unless told otherwise
            check(val(&a).eq(Int::u(0)), 4);
        }
    }
}
/// mixing rings panics
fn mix() {
    let k = choose(4);
    let (p, q) = match k {
        0 => (one(10), one(10)),
        1 => (one(10), one(7)),
        2 => (cnum(&[3, 1]), cnum(&[3, 1])),
        _ => (one(10), cnum(&[3, 1])),
    };
    let (r1, r2) = (ModuloRing::new(&p), ModuloRing::new(&q));
    let x = r1.from(one(sword() & 7));
    let y = r2.from(one(sword() & 3));
    reach(1);
    allow_panic(true);
    let (x, y) = if choose(2) == 0 { (x, y) } else { (y, x) };
    match choose(14) {
        0 => drop(x == y),
        1 => drop(&x + &y),
        2 => drop(x + y),
        3 => drop(&x - &y),
        4 => drop(x - y),
        5 => drop(&x * &y),
        6 => drop(x * y),
        7 => drop(&x + y),
        8 => drop(&x - y),
        9 => drop(&x * y),
        10 => {
            let mut x = x;
            x += &y
        }
        11 => {
            let mut x = x;
            x -= &y
        }
        12 => {
            let mut x = x;
            x *= y
        }
        _ => drop(x != y),
    }
    check(false, 1)
}
h! {
    h_mod_zero { reach(1); allow_panic(true); let _ = ModuloRing::new(&UBig::from(0u8)); check(false, 1) }
    h_mod_modulus { let n = 1 + choose(4) as usize; let a = snum(n); let r = ModuloRing::new(&a); reach(1); same(&r.modulus(), &a, 1) }
    h_mod_mix { mix() }
    h_mod_prims { prims() }
    h_mod_conv1 { let k = choose(10); let n = choose(3) as usize; conv(one(m1(k)), n) }
    h_mod_conv1_3 { let k = choose(10); conv(one(m1(k)), 3) }
    h_mod_conv2_short { let n = choose(3) as usize; conv(cnum(&[7, 1 << (WB - 1)]), n) }
    h_mod_conv2_3a { let n = choose(3) as usize + 1; conv(cnum(&[0, 1]), n) }
    h_mod_conv2_3b { let n = choose(3) as usize + 1; conv(cnum(&[Word::MAX, Word::MAX]), n) }
    h_mod_conv2_3c { let n = choose(3) as usize + 1; conv(cnum(&[m1(6), m1(6)]), n) }
    h_mod_conv3_4 { let n = choose(4) as usize + 1; conv(cnum(&[1, 0, m1(5)]), n) }
    h_mod_ops1 { let k = choose(10); let la = choose(2); let lb = choose(2); ops(one(m1(k)), la as usize, lb as usize, 0, 16) }
    h_mod_mulforms { mulforms() }
    h_mod_ops2_0 { let nn = snum(2); assume(wk(&nn, 1) >> (WB - 1) == 1); ops(nn, 2, 2, 0, 1) }
    h_mod_ops2_1 { let nn = snum(2); assume(wk(&nn, 1) >> (WB - 1) == 1); ops(nn, 2, 2, 1, 1) }
    h_mod_ops2_2 { let nn = snum(2); assume(wk(&nn, 1) >> (WB - 1) == 1); ops(nn, 2, 2, 2, 1) }
    h_mod_ops2_3 { let nn = snum(2); assume(wk(&nn, 1) >> (WB - 1) == 1); ops(nn, 2, 2, 3, 1) }
    h_mod_ops2_4 { let nn = snum(2); assume(wk(&nn, 1) >> (WB - 1) == 1); ops(nn, 2, 2, 4, 1) }
    h_mod_ops2_5 { let nn = snum(2); assume(wk(&nn, 1) >> (WB - 1) == 1); ops(nn, 2, 2, 5, 1) }
    h_mod_ops2_6 { let nn = snum(2); assume(wk(&nn, 1) >> (WB - 1) == 1); ops(nn, 2, 2, 6, 1) }
    h_mod_ops2_7 { let nn = snum(2); assume(wk(&nn, 1) >> (WB - 1) == 1); ops(nn, 2, 2, 7, 1) }
    h_mod_ops2_8 { let nn = snum(2); assume(wk(&nn, 1) >> (WB - 1) == 1); ops(nn, 2, 2, 8, 1) }
    h_mod_ops2_9 { let nn = snum(2); assume(wk(&nn, 1) >> (WB - 1) == 1); ops(nn, 2, 2, 9, 1) }
    h_mod_ops2_10 { let nn = snum(2); assume(wk(&nn, 1) >> (WB - 1) == 1); ops(nn, 2, 2, 10, 1) }
    h_mod_ops2_11 { let nn = snum(2); assume(wk(&nn, 1) >> (WB - 1) == 1); ops(nn, 2, 2, 11, 1) }
    h_mod_ops2_12 { let nn = snum(2); assume(wk(&nn, 1) >> (WB - 1) == 1); ops(nn, 2, 2, 12, 2) }
    h_mod_ops2_14 { let nn = snum(2); assume(wk(&nn, 1) >> (WB - 1) == 1); ops(nn, 2, 2, 14, 1) }
    h_mod_ops2_15 { let nn = snum(2); assume(wk(&nn, 1) >> (WB - 1) == 1); ops(nn, 2, 2, 15, 1) }
    h_mod_ops2_short_a { let nn = snum(2); assume(wk(&nn, 1) >> (WB - 1) == 1); let la = choose(3) as usize; let lb = choose(3) as usize; if la + lb < 4 { ops(nn, la, lb, 0, 1) } }
    h_mod_ops2_short_s { let nn = snum(2); assume(wk(&nn, 1) >> (WB - 1) == 1); let la = choose(3) as usize; let lb = choose(3) as usize; if la + lb < 4 { ops(nn, la, lb, 6, 1) } }
    h_mod_ops2_short_n { let nn = snum(2); assume(wk(&nn, 1) >> (WB - 1) == 1); let la = choose(3) as usize; let lb = choose(3) as usize; if la + lb < 4 { ops(nn, la, lb, 12, 1) } }
    h_mod_ops3_1 { let nn = snum(3); assume(wk(&nn, 2) >> (WB - 1) == 1); ops(nn, 3, 3, 1, 1) }
    h_mod_ops3_7 { let nn = snum(3); assume(wk(&nn, 2) >> (WB - 1) == 1); ops(nn, 3, 3, 7, 1) }
    h_mod_ops3_12 { let nn = snum(3); assume(wk(&nn, 2) >> (WB - 1) == 1); ops(nn, 3, 3, 12, 2) }
    h_mod_ops3_14 { let nn = snum(3); assume(wk(&nn, 2) >> (WB - 1) == 1); ops(nn, 3, 3, 14, 1) }
    h_mod_ops3_15 { let nn = snum(3); assume(wk(&nn, 2) >> (WB - 1) == 1); ops(nn, 3, 3, 15, 1) }
    h_mod_ops3_short_a { let nn = snum(3); assume(wk(&nn, 2) >> (WB - 1) == 1); let la = choose(4) as usize; let lb = choose(4) as usize; if la + lb < 6 { ops(nn, la, lb, 0, 1) } }
    h_mod_ops3_short_s { let nn = snum(3); assume(wk(&nn, 2) >> (WB - 1) == 1); let la = choose(4) as usize; let lb = choose(4) as usize; if la + lb < 6 { ops(nn, la, lb, 6, 1) } }
    h_mod_ops3_short_n { let nn = snum(3); assume(wk(&nn, 2) >> (WB - 1) == 1); let la = choose(4) as usize; let lb = choose(4) as usize; if la + lb < 6 { ops(nn, la, lb, 12, 1) } }
    h_mod_ops2c_0 { let nn = if choose(2) == 0 { cnum(&[7, 1]) } else { cnum(&[Word::MAX, m1(6)]) }; ops(nn, 2, 2, 0, 1) }
    h_mod_ops2c_1 { let nn = if choose(2) == 0 { cnum(&[7, 1]) } else { cnum(&[Word::MAX, m1(6)]) }; ops(nn, 2, 2, 1, 1) }
    h_mod_ops2c_2 { let nn = if choose(2) == 0 { cnum(&[7, 1]) } else { cnum(&[Word::MAX, m1(6)]) }; ops(nn, 2, 2, 2, 1) }
    h_mod_ops2c_3 { let nn = if choose(2) == 0 { cnum(&[7, 1]) } else { cnum(&[Word::MAX, m1(6)]) }; ops(nn, 2, 2, 3, 1) }
    h_mod_ops2c_4 { let nn = if choose(2) == 0 { cnum(&[7, 1]) } else { cnum(&[Word::MAX, m1(6)]) }; ops(nn, 2, 2, 4, 1) }
    h_mod_ops2c_5 { let nn = if choose(2) == 0 { cnum(&[7, 1]) } else { cnum(&[Word::MAX, m1(6)]) }; ops(nn, 2, 2, 5, 1) }
    h_mod_ops2c_6 { let nn = if choose(2) == 0 { cnum(&[7, 1]) } else { cnum(&[Word::MAX, m1(6)]) }; ops(nn, 2, 2, 6, 1) }
    h_mod_ops2c_7 { let nn = if choose(2) == 0 { cnum(&[7, 1]) } else { cnum(&[Word::MAX, m1(6)]) }; ops(nn, 2, 2, 7, 1) }
    h_mod_ops2c_8 { let nn = if choose(2) == 0 { cnum(&[7, 1]) } else { cnum(&[Word::MAX, m1(6)]) }; ops(nn, 2, 2, 8, 1) }
    h_mod_ops2c_9 { let nn = if choose(2) == 0 { cnum(&[7, 1]) } else { cnum(&[Word::MAX, m1(6)]) }; ops(nn, 2, 2, 9, 1) }
    h_mod_ops2c_10 { let nn = if choose(2) == 0 { cnum(&[7, 1]) } else { cnum(&[Word::MAX, m1(6)]) }; ops(nn, 2, 2, 10, 1) }
    h_mod_ops2c_11 { let nn = if choose(2) == 0 { cnum(&[7, 1]) } else { cnum(&[Word::MAX, m1(6)]) }; ops(nn, 2, 2, 11, 1) }
    h_mod_ops2c_12 { let nn = if choose(2) == 0 { cnum(&[7, 1]) } else { cnum(&[Word::MAX, m1(6)]) }; ops(nn, 2, 2, 12, 2) }
    h_mod_ops2c_14 { let nn = if choose(2) == 0 { cnum(&[7, 1]) } else { cnum(&[Word::MAX, m1(6)]) }; ops(nn, 2, 2, 14, 1) }
    h_mod_ops2c_15 { let nn = if choose(2) == 0 { cnum(&[7, 1]) } else { cnum(&[Word::MAX, m1(6)]) }; ops(nn, 2, 2, 15, 1) }
    h_mod_ops2c_short_a { let nn = if choose(2) == 0 { cnum(&[7, 1]) } else { cnum(&[Word::MAX, m1(6)]) }; let la = choose(3) as usize; let lb = choose(3) as usize; if la + lb < 4 { ops(nn, la, lb, 0, 1) } }
    h_mod_ops2c_short_s { let nn = if choose(2) == 0 { cnum(&[7, 1]) } else { cnum(&[Word::MAX, m1(6)]) }; let la = choose(3) as usize; let lb = choose(3) as usize; if la + lb < 4 { ops(nn, la, lb, 6, 1) } }
    h_mod_ops2c_short_n { let nn = if choose(2) == 0 { cnum(&[7, 1]) } else { cnum(&[Word::MAX, m1(6)]) }; let la = choose(3) as usize; let lb = choose(3) as usize; if la + lb < 4 { ops(nn, la, lb, 12, 1) } }
    h_mod_ops2s_0 { let nn = snum(2); assume(wk(&nn, 1) >> 5 == 1); ops(nn, 2, 2, 0, 1) }
    h_mod_ops2s_1 { let nn = snum(2); assume(wk(&nn, 1) >> 5 == 1); ops(nn, 2, 2, 1, 1) }
    h_mod_ops2s_2 { let nn = snum(2); assume(wk(&nn, 1) >> 5 == 1); ops(nn, 2, 2, 2, 1) }
    h_mod_ops2s_3 { let nn = snum(2); assume(wk(&nn, 1) >> 5 == 1); ops(nn, 2, 2, 3, 1) }
    h_mod_ops2s_4 { let nn = snum(2); assume(wk(&nn, 1) >> 5 == 1); ops(nn, 2, 2, 4, 1) }
    h_mod_ops2s_5 { let nn = snum(2); assume(wk(&nn, 1) >> 5 == 1); ops(nn, 2, 2, 5, 1) }
    h_mod_ops2s_6 { let nn = snum(2); assume(wk(&nn, 1) >> 5 == 1); ops(nn, 2, 2, 6, 1) }
    h_mod_ops2s_7 { let nn = snum(2); assume(wk(&nn, 1) >> 5 == 1); ops(nn, 2, 2, 7, 1) }
    h_mod_ops2s_8 { let nn = snum(2); assume(wk(&nn, 1) >> 5 == 1); ops(nn, 2, 2, 8, 1) }
    h_mod_ops2s_9 { let nn = snum(2); assume(wk(&nn, 1) >> 5 == 1); ops(nn, 2, 2, 9, 1) }
    h_mod_ops2s_10 { let nn = snum(2); assume(wk(&nn, 1) >> 5 == 1); ops(nn, 2, 2, 10, 1) }
    h_mod_ops2s_11 { let nn = snum(2); assume(wk(&nn, 1) >> 5 == 1); ops(nn, 2, 2, 11, 1) }
    h_mod_ops2s_12 { let nn = snum(2); assume(wk(&nn, 1) >> 5 == 1); ops(nn, 2, 2, 12, 2) }
    h_mod_ops2s_14 { let nn = snum(2); assume(wk(&nn, 1) >> 5 == 1); ops(nn, 2, 2, 14, 1) }
    h_mod_ops2s_15 { let nn = snum(2); assume(wk(&nn, 1) >> 5 == 1); ops(nn, 2, 2, 15, 1) }
    h_mod_ops2s_short_a { let nn = snum(2); assume(wk(&nn, 1) >> 5 == 1); let la = choose(3) as usize; let lb = choose(3) as usize; if la + lb < 4 { ops(nn, la, lb, 0, 1) } }
    h_mod_ops2s_short_s { let nn = snum(2); assume(wk(&nn, 1) >> 5 == 1); let la = choose(3) as usize; let lb = choose(3) as usize; if la + lb < 4 { ops(nn, la, lb, 6, 1) } }
    h_mod_ops2s_short_n { let nn = snum(2); assume(wk(&nn, 1) >> 5 == 1); let la = choose(3) as usize; let lb = choose(3) as usize; if la + lb < 4 { ops(nn, la, lb, 12, 1) } }
    h_mod_mul1_0 { mul1(0) }
    h_mod_mul1_1 { mul1(1) }
    h_mod_mul1_2 { mul1(2) }
    h_mod_mul1_3 { mul1(3) }
    h_mod_mul1_4 { mul1(4) }
    h_mod_mul1_5 { mul1(5) }
    h_mod_mul1_6 { mul1(6) }
    h_mod_mul1_7 { mul1(7) }
    h_mod_mul1_8 { mul1(8) }
    h_mod_mul1_9 { mul1(9) }
    h_mod_pow1_0_2 { pow(one(m1(0)), 1, 2) }
    h_mod_pow1_0_3 { pow(one(m1(0)), 1, 3) }
    h_mod_pow1_0_5 { pow(one(m1(0)), 1, 5) }
    h_mod_pow1_0_8 { pow(one(m1(0)), 1, 8) }
    h_mod_pow1_1_2 { pow(one(m1(1)), 1, 2) }
    h_mod_pow1_1_3 { pow(one(m1(1)), 1, 3) }
    h_mod_pow1_1_5 { pow(one(m1(1)), 1, 5) }
    h_mod_pow1_1_8 { pow(one(m1(1)), 1, 8) }
    h_mod_pow1_2_2 { pow(one(m1(2)), 1, 2) }
    h_mod_pow1_2_3 { pow(one(m1(2)), 1, 3) }
    h_mod_pow1_2_5 { pow(one(m1(2)), 1, 5) }
    h_mod_pow1_2_8 { pow(one(m1(2)), 1, 8) }
    h_mod_pow1_3_2 { pow(one(m1(3)), 1, 2) }
    h_mod_pow1_3_3 { pow(one(m1(3)), 1, 3) }
    h_mod_pow1_3_5 { pow(one(m1(3)), 1, 5) }
    h_mod_pow1_3_8 { pow(one(m1(3)), 1, 8) }
    h_mod_pow1_4_2 { pow(one(m1(4)), 1, 2) }
    h_mod_pow1_4_3 { pow(one(m1(4)), 1, 3) }
    h_mod_pow1_4_5 { pow(one(m1(4)), 1, 5) }
    h_mod_pow1_4_8 { pow(one(m1(4)), 1, 8) }
    h_mod_pow1_5_2 { pow(one(m1(5)), 1, 2) }
    h_mod_pow1_5_3 { pow(one(m1(5)), 1, 3) }
    h_mod_pow1_5_5 { pow(one(m1(5)), 1, 5) }
    h_mod_pow1_5_8 { pow(one(m1(5)), 1, 8) }
    h_mod_pow1_6_2 { pow(one(m1(6)), 1, 2) }
    h_mod_pow1_6_3 { pow(one(m1(6)), 1, 3) }
    h_mod_pow1_6_5 { pow(one(m1(6)), 1, 5) }
    h_mod_pow1_6_8 { pow(one(m1(6)), 1, 8) }
    h_mod_pow1_7_2 { pow(one(m1(7)), 1, 2) }
    h_mod_pow1_7_3 { pow(one(m1(7)), 1, 3) }
    h_mod_pow1_7_5 { pow(one(m1(7)), 1, 5) }
    h_mod_pow1_7_8 { pow(one(m1(7)), 1, 8) }
    h_mod_pow1_8_2 { pow(one(m1(8)), 1, 2) }
    h_mod_pow1_8_3 { pow(one(m1(8)), 1, 3) }
    h_mod_pow1_8_5 { pow(one(m1(8)), 1, 5) }
    h_mod_pow1_8_8 { pow(one(m1(8)), 1, 8) }
    h_mod_pow1_9_2 { pow(one(m1(9)), 1, 2) }
    h_mod_pow1_9_3 { pow(one(m1(9)), 1, 3) }
    h_mod_pow1_9_5 { pow(one(m1(9)), 1, 5) }
    h_mod_pow1_9_8 { pow(one(m1(9)), 1, 8) }
    h_mod_inv_1 { split(65); inv(one(1), 1) }
    h_mod_inv_2 { split(65); inv(one(2), 1) }
    h_mod_inv_3 { split(65); inv(one(3), 1) }
    h_mod_inv_5 { split(65); inv(one(5), 1) }
    h_mod_inv_7 { split(65); inv(one(7), 1) }
    h_mod_inv_13 { split(65); inv(one(13), 1) }
    h_mod_inv_31 { split(65); inv(one(31), 1) }
    h_mod_mulc_2_0_7 { mulc(2, 0, 7) }
    h_mod_mulc_2_4_7 { mulc(2, 4, 7) }
    h_mod_mulc_2_7_7 { mulc(2, 7, 7) }
    h_mod_mulw_2_7 { mulw(2, 7) }
    h_mod_mulw_2_4 { mulw(2, 4) }
    h_mod_mulw_3_7 { mulw(3, 7) }
    h_mod_pow1_a { let k = choose(10); let e = choose(6); pow(one(m1(k)), 1, e) }
    h_mod_pow1_b { let k = choose(3) + 5; let e = 6 + choose(10); pow(one(m1(k)), 1, e) }
    h_mod_pow2 { let e = choose(6); pow(cnum(&[0, 1 << 3]), 2, e) }
}

//! division
use crate::muls::{partial, pattern};
use crate::vf::*;
use ibig::ops::{DivEuclid, DivRem, DivRemEuclid, RemEuclid};
use ibig::{IBig, UBig};

fn qr(a: &UBig, b: &UBig, q: &UBig, r: &UBig) {
    canon(q, 1);
    canon(r, 2);
    check((val(q) * val(b) + val(r)).eq(val(a)), 3);
    check(val(r).lt(val(b)), 4);
}
fn div(n: usize, m: usize) {
    let a = snum(n);
    let b = snum(m);
    let (q, r) = (&a).div_rem(&b);
    reach(1);
    qr(&a, &b, &q, &r);
}
/// concrete divisor, symbolic dividend
fn divc(n: usize, m: usize, p: u64) {
    let a = snum(n);
    let w = pattern(m, p);
    let b = cnum(&w[..m]);
    let (q, r) = (&a).div_rem(&b);
    reach(1);
    qr(&a, &b, &q, &r);
}
/// concrete divisor, dividend a pattern with symbolic words at two positions
fn divx(n: usize, m: usize, pa: u64, pb: u64, k0: usize, k1: usize) {
    let a = partial(n, pa, k0, k1);
    let w = pattern(m, pb);
    let b = cnum(&w[..m]);
    let (q, r) = (&a).div_rem(&b);
    reach(1);
    qr(&a, &b, &q, &r);
}
/// the interesting values of a word
fn wordset(k: u64) -> Word {
    match k {
        0 => 0,
        1 => 1,
        2 => 1 << (WB - 1),
        3 => Word::MAX - 1,
        4 => Word::MAX,
        5 => (0x5bu64.wrapping_mul(0x0102_0408_1020_4081)) as Word,
        6 => Word::MAX >> 1,
        7 => (1 << (WB - 1)) | 1,
        8 => (0xc3u64.wrapping_mul(0x0101_0301_0105_0101)) as Word,
        _ => 3,
    }
}
/// two-word divisor from a set, symbolic dividend of n words
fn div2set(n: usize, tops: &[u64], lows: &[u64]) {
    let t = tops[choose(tops.len() as u64) as usize];
    let l = lows[choose(lows.len() as u64) as usize];
    let b = cnum(&[wordset(l), wordset(t)]);
    let a = snum(n);
    let (q, r) = (&a).div_rem(&b);
    reach(1);
    qr(&a, &b, &q, &r);
}
/// one-word divisor from a set
fn div1set(n: usize, set: &[u64]) {
    let t = set[choose(set.len() as u64) as usize];
    let b = cnum(&[wordset(t)]);
    let a = snum(n);
    let (q, r) = (&a).div_rem(&b);
    reach(1);
    qr(&a, &b, &q, &r);
}
/// every operator form agrees with div_rem by reference
fn uforms(a: UBig, b: UBig) {
    let (q, r) = (&a).div_rem(&b);
    reach(1);
    qr(&a, &b, &q, &r);
    let f = choose(24);
    let (mut q2, mut r2) = (None, None);
    match f {
        0 => q2 = Some(&a / &b),
        1 => q2 = Some(a / &b),
        2 => q2 = Some(&a / b),
        3 => q2 = Some(a / b),
        4 => {
            let mut c = a;
            c /= &b;
            q2 = Some(c)
        }
        5 => {
            let mut c = a;
            c /= b;
            q2 = Some(c)
        }
        6 => r2 = Some(&a % &b),
        7 => r2 = Some(a % &b),
        8 => r2 = Some(&a % b),
        9 => r2 = Some(a % b),
        10 => {
            let mut c = a;
            c %= &b;
            r2 = Some(c)
        }
        11 => {
            let mut c = a;
            c %= b;
            r2 = Some(c)
        }
        12 => {
            let (x, y) = a.div_rem(&b);
            q2 = Some(x);
            r2 = Some(y)
        }
        13 => {
            let (x, y) = (&a).div_rem(b);
            q2 = Some(x);
            r2 = Some(y)
        }
        14 => {
            let (x, y) = a.div_rem(b);
            q2 = Some(x);
            r2 = Some(y)
        }
        15 => q2 = Some((&a).div_euclid(&b)),
        16 => q2 = Some(a.div_euclid(&b)),
        17 => q2 = Some((&a).div_euclid(b)),
        18 => q2 = Some(a.div_euclid(b)),
        19 => r2 = Some((&a).rem_euclid(&b)),
        20 => r2 = Some(a.rem_euclid(b)),
        21 => r2 = Some((&a).rem_euclid(b)),
        22 => r2 = Some(a.rem_euclid(&b)),
        _ => {
            let (x, y) = match choose(4) {
                0 => (&a).div_rem_euclid(&b),
                1 => a.div_rem_euclid(&b),
                2 => (&a).div_rem_euclid(b),
                _ => a.div_rem_euclid(b),
            };
            q2 = Some(x);
            r2 = Some(y)
        }
    }
    if let Some(q2) = q2 {
        canon(&q2, 5);
        same(&q2, &q, 5);
    }
    if let Some(r2) = r2 {
        canon(&r2, 6);
        same(&r2, &r, 6);
    }
}
/// signed division: truncating and Euclidean
fn trunc(a: &IBig, b: &IBig, q: &IBig, r: &IBig) {
    icanon(q, 1);
    icanon(r, 2);
    check((ival(q) * ival(b) + ival(r)).eq(ival(a)), 3);
    check(val(imag(r)).lt(val(imag(b))), 4);
    if isneg(r) {
        check(isneg(a), 5);
    } else if ubig_len(imag(r)) != 0 {
        check(!isneg(a), 6);
    }
}
fn eucl(a: &IBig, b: &IBig, q: &IBig, r: &IBig) {
    icanon(q, 7);
    icanon(r, 8);
    check((ival(q) * ival(b) + ival(r)).eq(ival(a)), 9);
    check(!isneg(r), 10);
    check(val(imag(r)).lt(val(imag(b))), 11);
}
fn idiv(a: IBig, b: IBig) {
    let (q, r) = (&a).div_rem(&b);
    reach(1);
    trunc(&a, &b, &q, &r);
    let (x, y) = match choose(9) {
        0 => (&a / &b, &a % &b),
        1 => (a.clone() / &b, a % &b),
        2 => (&a / b.clone(), &a % b),
        3 => (a.clone() / b.clone(), a % b),
        4 => {
            let mut c = a.clone();
            let mut d = a;
            c /= &b;
            d %= &b;
            (c, d)
        }
        5 => {
            let mut c = a.clone();
            let mut d = a;
            c /= b.clone();
            d %= b;
            (c, d)
        }
        6 => a.div_rem(&b),
        7 => (&a).div_rem(b),
        _ => a.div_rem(b),
    };
    icanon(&x, 12);
    icanon(&y, 13);
    isame(&x, &q, 12);
    isame(&y, &r, 13);
}
fn ieucl(a: IBig, b: IBig) {
    let (q, r) = (&a).div_rem_euclid(&b);
    reach(1);
    eucl(&a, &b, &q, &r);
    let (x, y) = match choose(7) {
        0 => ((&a).div_euclid(&b), (&a).rem_euclid(&b)),
        1 => (a.clone().div_euclid(&b), a.rem_euclid(&b)),
        2 => ((&a).div_euclid(b.clone()), (&a).rem_euclid(b)),
        3 => (a.clone().div_euclid(b.clone()), a.rem_euclid(b)),
        4 => a.div_rem_euclid(&b),
        5 => (&a).div_rem_euclid(b),
        _ => a.div_rem_euclid(b),
    };
    icanon(&x, 12);
    icanon(&y, 13);
    isame(&x, &q, 12);
    isame(&y, &r, 13);
}
/// dividends shorter than the divisor never enter the division algorithms
fn ushort(n: usize, m: usize) {
    let a = snum(n);
    let b = snum(m);
    assume(val(&a).lt(val(&b)));
    uforms(a, b)
}
use ibig::verif::Word;
fn onew(w: Word) -> UBig {
    cnum(&[w])
}
/// divisors for the sign conventions: powers of two, small and large words, and multi-word values
fn divisor(k: u64) -> UBig {
    match k {
        0 => onew(1),
        1 => onew(Word::MAX),
        2 => onew(10),
        3 => onew(1 << (WB - 1)),
        _ => cnum(&[5, 1]),
    }
}
fn zero_div(f: u64) {
    let n = choose(3) as usize;
    let z = UBig::from(0u8);
    if choose(2) == 0 {
        let a = snum(n);
        allow_panic(true);
        match f {
            0 => { let _ = &a / &z; }
            1 => { let _ = &a % &z; }
            2 => { let _ = (&a).div_rem(&z); }
            3 => { let _ = a / z; }
            4 => { let _ = a % z; }
            5 => { let _ = a.div_rem(z); }
            6 => { let _ = &a / z; }
            7 => { let _ = a % &z; }
            8 => { let _ = a.div_euclid(&z); }
            9 => { let _ = (&a).rem_euclid(z); }
            10 => { let _ = a.div_rem_euclid(z); }
            _ => { let mut a = a; a /= z; }
        }
    } else {
        let a = sint(n, sgn(n));
        let z = IBig::from(0u8);
        allow_panic(true);
        match f {
            0 => { let _ = &a / &z; }
            1 => { let _ = &a % &z; }
            2 => { let _ = (&a).div_rem(&z); }
            3 => { let _ = a / z; }
            4 => { let _ = a % z; }
            5 => { let _ = a.div_rem(z); }
            6 => { let _ = &a / z; }
            7 => { let _ = a % &z; }
            8 => { let _ = a.div_euclid(&z); }
            9 => { let _ = (&a).rem_euclid(z); }
            10 => { let _ = a.div_rem_euclid(z); }
            _ => { let mut a = a; a /= z; }
        }
    }
    check(false, 1);
}
h! {
    h_div_zero { let f = choose(12); zero_div(f) }
    h_div_forms_2 { let a = snum(2); let k = [2, 4, 5][choose(3) as usize]; uforms(a, onew(wordset(k))) }
    h_div_forms_3 { let a = snum(3); let b = if choose(2) == 0 { onew(wordset(8)) } else { cnum(&[wordset(4), wordset(5)]) }; uforms(a, b) }
    h_div_short { let m = 1 + choose(3); let n = choose(m + 1); ushort(n as usize, m as usize) }
    h_idiv_1 { let a = sibig(1); let b = sint(1, choose(2) == 1); idiv(a, b) }
    h_ieucl_1 { let a = sibig(1); let b = sint(1, choose(2) == 1); ieucl(a, b) }
    h_idiv_s0_1 { let a = sibig(1); let s = choose(2) == 1; idiv(a, ibig::verif::ibig_from_parts(s, divisor(0))) }
    h_ieucl_s0_1 { let a = sibig(1); let s = choose(2) == 1; ieucl(a, ibig::verif::ibig_from_parts(s, divisor(0))) }
    h_idiv_s0_2 { let a = sibig(2); let s = choose(2) == 1; idiv(a, ibig::verif::ibig_from_parts(s, divisor(0))) }
    h_ieucl_s0_2 { let a = sibig(2); let s = choose(2) == 1; ieucl(a, ibig::verif::ibig_from_parts(s, divisor(0))) }
    h_idiv_s0_3 { let a = sibig(3); let s = choose(2) == 1; idiv(a, ibig::verif::ibig_from_parts(s, divisor(0))) }
    h_ieucl_s0_3 { let a = sibig(3); let s = choose(2) == 1; ieucl(a, ibig::verif::ibig_from_parts(s, divisor(0))) }
    h_idiv_s1_1 { let a = sibig(1); let s = choose(2) == 1; idiv(a, ibig::verif::ibig_from_parts(s, divisor(1))) }
    h_ieucl_s1_1 { let a = sibig(1); let s = choose(2) == 1; ieucl(a, ibig::verif::ibig_from_parts(s, divisor(1))) }
    h_idiv_s1_2 { let a = sibig(2); let s = choose(2) == 1; idiv(a, ibig::verif::ibig_from_parts(s, divisor(1))) }
    h_ieucl_s1_2 { let a = sibig(2); let s = choose(2) == 1; ieucl(a, ibig::verif::ibig_from_parts(s, divisor(1))) }
    h_idiv_s1_3 { let a = sibig(3); let s = choose(2) == 1; idiv(a, ibig::verif::ibig_from_parts(s, divisor(1))) }
    h_ieucl_s1_3 { let a = sibig(3); let s = choose(2) == 1; ieucl(a, ibig::verif::ibig_from_parts(s, divisor(1))) }
    h_idiv_s2_1 { let a = sibig(1); let s = choose(2) == 1; idiv(a, ibig::verif::ibig_from_parts(s, divisor(2))) }
    h_ieucl_s2_1 { let a = sibig(1); let s = choose(2) == 1; ieucl(a, ibig::verif::ibig_from_parts(s, divisor(2))) }
    h_idiv_s2_2 { let a = sibig(2); let s = choose(2) == 1; idiv(a, ibig::verif::ibig_from_parts(s, divisor(2))) }
    h_ieucl_s2_2 { let a = sibig(2); let s = choose(2) == 1; ieucl(a, ibig::verif::ibig_from_parts(s, divisor(2))) }
    h_idiv_s2_3 { let a = sibig(3); let s = choose(2) == 1; idiv(a, ibig::verif::ibig_from_parts(s, divisor(2))) }
    h_ieucl_s2_3 { let a = sibig(3); let s = choose(2) == 1; ieucl(a, ibig::verif::ibig_from_parts(s, divisor(2))) }
    h_idiv_s3_1 { let a = sibig(1); let s = choose(2) == 1; idiv(a, ibig::verif::ibig_from_parts(s, divisor(3))) }
    h_ieucl_s3_1 { let a = sibig(1); let s = choose(2) == 1; ieucl(a, ibig::verif::ibig_from_parts(s, divisor(3))) }
    h_idiv_s3_2 { let a = sibig(2); let s = choose(2) == 1; idiv(a, ibig::verif::ibig_from_parts(s, divisor(3))) }
    h_ieucl_s3_2 { let a = sibig(2); let s = choose(2) == 1; ieucl(a, ibig::verif::ibig_from_parts(s, divisor(3))) }
    h_idiv_s3_3 { let a = sibig(3); let s = choose(2) == 1; idiv(a, ibig::verif::ibig_from_parts(s, divisor(3))) }
    h_ieucl_s3_3 { let a = sibig(3); let s = choose(2) == 1; ieucl(a, ibig::verif::ibig_from_parts(s, divisor(3))) }
    h_idiv_s4_1 { let a = sibig(1); let s = choose(2) == 1; idiv(a, ibig::verif::ibig_from_parts(s, divisor(4))) }
    h_ieucl_s4_1 { let a = sibig(1); let s = choose(2) == 1; ieucl(a, ibig::verif::ibig_from_parts(s, divisor(4))) }
    h_idiv_s4_2 { let a = sibig(2); let s = choose(2) == 1; idiv(a, ibig::verif::ibig_from_parts(s, divisor(4))) }
    h_ieucl_s4_2 { let a = sibig(2); let s = choose(2) == 1; ieucl(a, ibig::verif::ibig_from_parts(s, divisor(4))) }
    h_idiv_s4_3 { let a = sibig(3); let s = choose(2) == 1; idiv(a, ibig::verif::ibig_from_parts(s, divisor(4))) }
    h_ieucl_s4_3 { let a = sibig(3); let s = choose(2) == 1; ieucl(a, ibig::verif::ibig_from_parts(s, divisor(4))) }
    h_idiv_short_1_0 { let a = sibig(0); let b = sint(1, choose(2) == 1); assume(val(imag(&a)).lt(val(imag(&b)))); idiv(a, b) }
    h_idiv_short_1_1 { let a = sibig(1); let b = sint(1, choose(2) == 1); assume(val(imag(&a)).lt(val(imag(&b)))); idiv(a, b) }
    h_idiv_short_2_0 { let a = sibig(0); let b = sint(2, choose(2) == 1); assume(val(imag(&a)).lt(val(imag(&b)))); idiv(a, b) }
    h_idiv_short_2_1 { let a = sibig(1); let b = sint(2, choose(2) == 1); assume(val(imag(&a)).lt(val(imag(&b)))); idiv(a, b) }
    h_idiv_short_2_2 { let a = sibig(2); let b = sint(2, choose(2) == 1); assume(val(imag(&a)).lt(val(imag(&b)))); idiv(a, b) }
    h_idiv_short_3_0 { let a = sibig(0); let b = sint(3, choose(2) == 1); assume(val(imag(&a)).lt(val(imag(&b)))); idiv(a, b) }
    h_idiv_short_3_1 { let a = sibig(1); let b = sint(3, choose(2) == 1); assume(val(imag(&a)).lt(val(imag(&b)))); idiv(a, b) }
    h_idiv_short_3_2 { let a = sibig(2); let b = sint(3, choose(2) == 1); assume(val(imag(&a)).lt(val(imag(&b)))); idiv(a, b) }
    h_idiv_short_3_3 { let a = sibig(3); let b = sint(3, choose(2) == 1); assume(val(imag(&a)).lt(val(imag(&b)))); idiv(a, b) }
    h_ieucl_short_1_0 { let a = sibig(0); let b = sint(1, choose(2) == 1); assume(val(imag(&a)).lt(val(imag(&b)))); ieucl(a, b) }
    h_ieucl_short_1_1 { let a = sibig(1); let b = sint(1, choose(2) == 1); assume(val(imag(&a)).lt(val(imag(&b)))); ieucl(a, b) }
    h_ieucl_short_2_0 { let a = sibig(0); let b = sint(2, choose(2) == 1); assume(val(imag(&a)).lt(val(imag(&b)))); ieucl(a, b) }
    h_ieucl_short_2_1 { let a = sibig(1); let b = sint(2, choose(2) == 1); assume(val(imag(&a)).lt(val(imag(&b)))); ieucl(a, b) }
    h_ieucl_short_2_2 { let a = sibig(2); let b = sint(2, choose(2) == 1); assume(val(imag(&a)).lt(val(imag(&b)))); ieucl(a, b) }
    h_ieucl_short_3_0 { let a = sibig(0); let b = sint(3, choose(2) == 1); assume(val(imag(&a)).lt(val(imag(&b)))); ieucl(a, b) }
    h_ieucl_short_3_1 { let a = sibig(1); let b = sint(3, choose(2) == 1); assume(val(imag(&a)).lt(val(imag(&b)))); ieucl(a, b) }
    h_ieucl_short_3_2 { let a = sibig(2); let b = sint(3, choose(2) == 1); assume(val(imag(&a)).lt(val(imag(&b)))); ieucl(a, b) }
    h_ieucl_short_3_3 { let a = sibig(3); let b = sint(3, choose(2) == 1); assume(val(imag(&a)).lt(val(imag(&b)))); ieucl(a, b) }
    h_div8_2 { let a = snum(2); let d = choose(255) + 1; let b = onew(d as Word); let (q, r) = (&a).div_rem(&b); reach(1); qr(&a, &b, &q, &r) }
    h_div8_3 { let a = snum(3); let d = choose(255) + 1; let b = onew(d as Word); let (q, r) = (&a).div_rem(&b); reach(1); qr(&a, &b, &q, &r) }
    h_div1s_2 { div1set(2, &[2, 3, 4, 5, 6, 7, 8, 9]) }
    h_div1s_3 { div1set(3, &[2, 3, 4, 5, 6, 7, 8, 9]) }
    h_div1s_4_2 { div1set(4, &[2]) }
    h_div1s_4_4 { div1set(4, &[4]) }
    h_div1s_4_5 { div1set(4, &[5]) }
    h_div1s_4_8 { div1set(4, &[8]) }
    h_div1s_4_9 { div1set(4, &[9]) }
    h_div2s_2 { div2set(2, &[1, 2, 4, 5, 6, 7], &[0, 1, 2, 4, 5]) }
    h_div2s_3a { div2set(3, &[2], &[0, 1, 2, 4, 5]) }
    h_div2s_3b { div2set(3, &[4], &[0, 1, 2, 4, 5]) }
    h_div2s_3c { div2set(3, &[1, 5], &[0, 4, 5]) }
    h_div2s_3d { div2set(3, &[7, 6, 8], &[0, 4, 3]) }
    h_div2s_4 { div2set(4, &[2, 4, 5], &[4, 5]) }
    h_div_1_1 { div(1, 1) }
    h_div_2_1 { div(2, 1) }
    h_div_3_1 { div(3, 1) }
    h_div_1_2 { div(1, 2) }
    h_div_2_2 { div(2, 2) }
    h_div_3_2 { div(3, 2) }
    h_div_4_2 { div(4, 2) }
    h_div_4_3 { div(4, 3) }
    h_div_8_4 { div(8, 4) }
    h_divc_2_1_0 { divc(2, 1, 0) }
    h_divc_2_1_7 { divc(2, 1, 7) }
    h_divc_3_1_7 { divc(3, 1, 7) }
    h_divc_3_2_0 { divc(3, 2, 0) }
    h_divc_3_2_7 { divc(3, 2, 7) }
    h_divc_4_2_7 { divc(4, 2, 7) }
    h_divc_4_3_0 { divc(4, 3, 0) }
    h_divc_4_3_5 { divc(4, 3, 5) }
    h_divc_4_3_4 { divc(4, 3, 4) }
    h_divc_5_3_7 { divc(5, 3, 7) }
    h_divc_8_4_7 { divc(8, 4, 7) }
    h_divc_8_4_0 { divc(8, 4, 0) }
    h_divx_8_4_0_0 { divx(8, 4, 0, 0, 3, 7) }
    h_divx_8_4_5_4 { divx(8, 4, 5, 4, 3, 7) }
    h_divx_8_4_7_8 { divx(8, 4, 7, 8, 3, 7) }
    h_divx_8_4_7_9 { divx(8, 4, 7, 9, 2, 3) }
    h_divx_9_5_7_9 { divx(9, 5, 7, 9, 3, 5) }
    h_divx_70_35_7_9 { divx(70, 35, 7, 9, 34, 35) }
}

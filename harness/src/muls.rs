//! multiplication
use crate::vf::*;
use ibig::verif::Word;
use ibig::{IBig, UBig};

fn mul(n: usize, m: usize) {
    let a = snum(n);
    let b = snum(m);
    let s = val(&a) * val(&b);
    reach(1);
    is(&(&a * &b), s, 1);
}
fn mulforms(n: usize, m: usize) {
    let form = choose(6);
    let a = snum(n);
    let b = snum(m);
    let s = val(&a) * val(&b);
    reach(1);
    let c = match form {
        0 => &a * &b,
        1 => a * &b,
        2 => &a * b,
        3 => a * b,
        4 => {
            let mut c = a;
            c *= &b;
            c
        }
        _ => {
            let mut c = a;
            c *= b;
            c
        }
    };
    is(&c, s, 1);
}
fn imul(n: usize, m: usize) {
    let form = choose(6);
    let a = sibig(n);
    let b = sibig(m);
    let s = ival(&a) * ival(&b);
    reach(1);
    let c = match form {
        0 => &a * &b,
        1 => a * &b,
        2 => &a * b,
        3 => a * b,
        4 => {
            let mut c = a;
            c *= &b;
            c
        }
        _ => {
            let mut c = a;
            c *= b;
            c
        }
    };
    iis(&c, s, 1);
}
fn mulm(n: usize, m: usize) {
    let a = snum(n);
    let b = snum(m);
    let s = val(&a) * val(&b);
    reach(1);
    merge(true);
    let c = &a * &b;
    merge(false);
    is(&c, s, 1);
}
const PL: usize = 220;
/// second operand one of a family of concrete patterns
pub fn pattern(m: usize, p: u64) -> [Word; PL] {
    let mut w = [0 as Word; PL];
    let mut s: u64 = 0x9e37_79b9_7f4a_7c15 ^ p;
    for k in 0..m {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let r = (s >> 11) ^ (s << 31);
        w[k] = match p {
            0 => Word::MAX,
            1 => 0,
            2 => {
                if k % 2 == 0 {
                    Word::MAX
                } else {
                    0
                }
            }
            3 => {
                if k % 2 == 0 {
                    0
                } else {
                    Word::MAX
                }
            }
            4 => {
                if k * 2 < m {
                    Word::MAX
                } else {
                    0
                }
            }
            5 => {
                if k * 2 < m {
                    0
                } else {
                    Word::MAX
                }
            }
            6 => 1 << (WB - 1),
            _ => r as Word,
        };
    }
    if m > 0 && w[m - 1] == 0 {
        w[m - 1] = 1;
    }
    w
}
fn mulc(n: usize, m: usize, p: u64) {
    let a = snum(n);
    let w = pattern(m, p);
    let b = cnum(&w[..m]);
    let s = val(&a) * val(&b);
    reach(1);
    is(&(&a * &b), s, 1);
    is(&(&b * &a), s, 2);
}
/// pattern p with symbolic words at the given positions
pub fn partial(n: usize, p: u64, k0: usize, k1: usize) -> UBig {
    let mut w = pattern(n, p);
    w[k0] = sword();
    if k1 != k0 {
        w[k1] = sword();
    }
    assume(w[n - 1] != 0);
    cnum(&w[..n])
}
/// one symbolic word in each operand
fn mulx(n: usize, m: usize, pa: u64, pb: u64, ka: usize, kb: usize) {
    let a = partial(n, pa, ka, ka);
    let b = partial(m, pb, kb, kb);
    let s = val(&a) * val(&b);
    reach(1);
    is(&(&a * &b), s, 1);
}
/// two symbolic words in one operand, the other concrete
fn muly(n: usize, m: usize, pa: u64, pb: u64, k0: usize, k1: usize) {
    let a = partial(n, pa, k0, k1);
    let w = pattern(m, pb);
    let b = cnum(&w[..m]);
    let s = val(&a) * val(&b);
    reach(1);
    is(&(&a * &b), s, 1);
}
h! {
    h_mulx_26_26_0_0 { mulx(26, 26, 0, 0, 0, 25) }
    h_mulx_26_26_7_8 { mulx(26, 26, 7, 8, 3, 17) }
    h_mulx_27_40_7_0 { mulx(27, 40, 7, 0, 3, 17) }
    h_mulx_200_200_7_8 { mulx(200, 200, 7, 8, 3, 17) }
    h_mulx_200_200_0_0 { mulx(200, 200, 0, 0, 199, 17) }
    h_mulx_3_3_4_5 { let ka = choose(3) as usize; let kb = choose(3) as usize; mulx(3, 3, 4, 5, ka, kb) }
    h_mulx_3_3_6_0 { let ka = choose(3) as usize; let kb = choose(3) as usize; mulx(3, 3, 6, 0, ka, kb) }
    h_mulx_5_4_0_2 { let ka = choose(5) as usize; let kb = choose(4) as usize; mulx(5, 4, 0, 2, ka, kb) }
    h_mulx_7_3_0_3 { let ka = choose(7) as usize; let kb = choose(3) as usize; mulx(7, 3, 0, 3, ka, kb) }
    h_mulx_16_16_4_5 { mulx(16, 16, 4, 5, 0, 15) }
    h_mulx_16_16_6_6 { mulx(16, 16, 6, 6, 0, 15) }
    h_mulx_3_3_0_0 { let ka = choose(3) as usize; let kb = choose(3) as usize; mulx(3, 3, 0, 0, ka, kb) }
    h_mulx_3_3_7_8 { let ka = choose(3) as usize; let kb = choose(3) as usize; mulx(3, 3, 7, 8, ka, kb) }
    h_mulx_4_4_4_5 { let ka = choose(4) as usize; let kb = choose(4) as usize; mulx(4, 4, 4, 5, ka, kb) }
    h_mulx_16_16_7_8 { mulx(16, 16, 7, 8, 3, 7) }
    h_mulx_16_16_0_0 { mulx(16, 16, 0, 0, 0, 15) }
    h_muly_16_16_0_0 { muly(16, 16, 0, 0, 0, 15) }
    h_muly_3_3_0_0 { muly(3, 3, 0, 0, 0, 2) }
    h_mul_small { let n = choose(3) as usize; let m = choose(3) as usize; mulforms(n, m) }
    h_mul_3_1 { mulforms(3, 1) }
    h_mul_1_3 { mulforms(1, 3) }
    h_mul_3_2 { mul(3, 2) }
    h_mul_2_3 { mul(2, 3) }
    h_mul_3_3 { mul(3, 3) }
    h_mul_4_4 { mul(4, 4) }
    h_mul_5_5 { mul(5, 5) }
    h_mul_6_6 { mul(6, 6) }
    h_mul_6_3 { mul(6, 3) }
    h_mul_8_2 { mul(8, 2) }
    h_mul_9_4 { mul(9, 4) }
    h_imul_small { let n = choose(3) as usize; let m = choose(3) as usize; imul(n, m) }
    h_mulm_3_3 { mulm(3, 3) }
    h_mulm_4_4 { mulm(4, 4) }
    h_mulm_5_5 { mulm(5, 5) }
    h_mulc_3_0 { mulc(3, 3, 0) }
    h_mulc_4_0 { mulc(4, 4, 0) }
    h_mulc_4_7 { mulc(4, 4, 7) }
    h_mulc_6_0 { mulc(6, 6, 0) }
    h_mulc_16_0 { mulc(16, 16, 0) }
    h_mulc_16_7 { mulc(16, 16, 7) }
}

//! conversion to floating point
use crate::vf::*;
use ibig::verif::{self, Word};
use ibig::{IBig, UBig};

/// words of any number of exactly n bits
fn of_bits(n: u32) -> ([Word; 70], usize) {
    let mut w = [0 as Word; 70];
    let top = (n - 1) / WB;
    for k in 0..top as usize {
        w[k] = sword();
    }
    let b = (n - 1) % WB;
    let one: Word = 1;
    w[top as usize] = if b == 0 { 1 } else { (sword() & ((one << b) - 1)) | (one << b) };
    (w, top as usize + 1)
}
fn bit(w: &[Word], k: u32) -> u64 {
    (w[(k / WB) as usize] >> (k % WB)) as u64 & 1
}
/// bits of the floating point number nearest to a number of n bits, ties to even; p bits of precision
fn nearest(w: &[Word], n: u32, p: u32, bias: u64) -> u64 {
    // the p leading bits
    let mut m = 0u64;
    let s = n as i32 - p as i32;
    let mut k = 0;
    for &x in w {
        // word k covers bits k*WB ..
        let at = (k * WB) as i32 - s;
        if at > -(WB as i32) && at < 64 {
            let x = x as u128;
            m |= if at >= 0 { (x << at) as u64 } else { (x >> -at) as u64 };
        }
        k += 1;
    }
    if n > bias as u32 + 1 {
        return (2 * bias + 1) << (p - 1);
    }
    let mut up = 0;
    if s > 0 {
        let half = bit(w, s as u32 - 1);
        let mut below: Word = 0;
        let c = s as u32 - 1; // bits below the half bit
        for k in 0..w.len() as u32 {
            let lo = k * WB;
            if lo + WB <= c {
                below |= w[k as usize];
            } else if lo < c {
                let one: Word = 1;
                below |= w[k as usize] & ((one << (c - lo)) - 1);
            }
        }
        up = half & ((below != 0) as u64 | (m & 1));
    }
    // m has its leading one: adding it raises the exponent field by one
    ((n as u64 - 1 + bias - 1) << (p - 1)) + m + up
}
fn float(n: u32, neg: bool) {
    let (w, l) = of_bits(n);
    let a = cnum(&w[..l]);
    let f32e = nearest(&w[..l], n, 24, 127);
    let f64e = nearest(&w[..l], n, 53, 1023);
    reach(1);
    if neg {
        let i = verif::ibig_from_parts(true, a);
        check(i.to_f32().to_bits() as u64 == f32e | 1 << 31, 1);
        check(i.to_f64().to_bits() == f64e | 1 << 63, 2);
    } else {
        check(a.to_f32().to_bits() as u64 == f32e, 3);
        check(a.to_f64().to_bits() == f64e, 4);
        let i = IBig::from(a);
        check(i.to_f32().to_bits() as u64 == f32e, 5);
        check(i.to_f64().to_bits() == f64e, 6);
    }
}
fn floats(from: u32, to: u32) {
    let neg = choose(2) == 1;
    let n = from + choose((to - from + 1) as u64) as u32;
    float(n, neg)
}
fn zero() {
    let u = UBig::from(0u8);
    let i = IBig::from(0u8);
    reach(1);
    check(u.to_f32().to_bits() == 0, 1);
    check(u.to_f64().to_bits() == 0, 2);
    check(i.to_f32().to_bits() == 0, 3);
    check(i.to_f64().to_bits() == 0, 4);
}
h! {
    h_float_zero { zero() }
    h_float_1_32 { floats(1, 32) }
    h_float_33_64 { floats(33, 64) }
    h_float_65_96 { floats(65, 96) }
    h_float_97_128 { floats(97, 128) }
    h_float_129_160 { floats(129, 160) }
    h_float_161_192 { floats(161, 192) }
    h_float_193_256 { floats(193, 256) }
    h_float_257_320 { floats(257, 320) }
    h_float_511_514 { floats(511, 514) }
    h_float_1000_1030 { floats(1000, 1030) }
    h_float_1088_1089 { floats(1088, 1089) }
}

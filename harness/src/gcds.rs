//! greatest common divisors and powers
use crate::vf::*;
use ibig::verif::Word;
use ibig::{IBig, UBig};

fn one(w: Word) -> UBig {
    cnum(&[w])
}
/// everything about gcd(a, b), where b is concrete
/// a number of n words whose lowest word has exactly z trailing zeros
fn tz(n: usize, z: u32) -> UBig {
    let a = snum(n);
    assume(wk(&a, 0).trailing_zeros() == z);
    a
}
fn both(a: UBig, b: UBig) {
    split(65);
    let a = if ubig_len(&a) <= 1 && ubig_len(&b) == 1 && val(&a).le(val(&b)) { concnum(&a) } else { a };
    reach(1);
    let f = choose(2);
    let (g, x, y) = match f {
        0 => (&a).extended_gcd(&b),
        _ => {
            let (g, y, x) = (&b).extended_gcd(&a);
            (g, x, y)
        }
    };
    canon(&g, 1);
    icanon(&x, 2);
    icanon(&y, 3);
    // the coefficients make every common divisor a divisor of g
    check((val(&a) * ival(&x) + val(&b) * ival(&y)).eq(val(&g)), 4);
    check(!val(&g).eq(Int::u(0)), 5);
    let gc = concnum(&g);
    let gv = val(&gc);
    check(val(&a).rem(gv).eq(Int::u(0)), 6);
    check(val(&b).rem(gv).eq(Int::u(0)), 7);
    let g2 = match f {
        0 => (&a).gcd(&b),
        _ => (&b).gcd(&a),
    };
    canon(&g2, 8);
    same(&g2, &g, 8);
}
/// the same number with concrete words (one path per value)
fn concnum(x: &UBig) -> UBig {
    let mut w = [0 as Word; 8];
    let n = ubig_len(x);
    for k in 0..n {
        w[k] = conc(wk(x, k) as u64) as Word;
    }
    cnum(&w[..n])
}
fn igcd(n: usize, b: u64) {
    split(65);
    let s = sgn(n);
    let a = sint(n, s);
    let t = b != 0 && choose(2) == 1;
    let b = ibig::verif::ibig_from_parts(t, one(b as Word));
    reach(1);
    let g = a.gcd(&b);
    icanon(&g, 1);
    check(!isneg(&g), 2);
    let (h, x, y) = a.extended_gcd(&b);
    icanon(&h, 3);
    icanon(&x, 3);
    icanon(&y, 3);
    isame(&g, &h, 4);
    check((ival(&a) * ival(&x) + ival(&b) * ival(&y)).eq(ival(&g)), 5);
    let g = concnum(imag(&g));
    check(ival(&a).rem(val(&g)).eq(Int::u(0)), 6);
    check(ival(&b).rem(val(&g)).eq(Int::u(0)), 7);
}
fn zero(n: usize) {
    let a = snum(n);
    let z = UBig::from(0u8);
    reach(1);
    allow_panic(n == 0);
    match choose(4) {
        0 => same(&a.gcd(&z), &a, 1),
        1 => same(&z.gcd(&a), &a, 2),
        2 => {
            let (g, x, y) = a.extended_gcd(&z);
            same(&g, &a, 3);
            check((val(&a) * ival(&x)).eq(val(&a)), 3);
            icanon(&x, 3);
            icanon(&y, 3);
        }
        _ => {
            let (g, x, y) = z.extended_gcd(&a);
            same(&g, &a, 4);
            check((val(&a) * ival(&y)).eq(val(&a)), 4);
            icanon(&x, 4);
            icanon(&y, 4);
        }
    }
    check(n != 0, 5);
}
fn pw(x: Int, e: u64) -> Int {
    let mut v = Int::u(1);
    let mut k = 0;
    while k < e {
        v = v * x;
        k += 1;
    }
    v
}
fn pow(n: usize, e: u64) {
    let a = snum(n);
    reach(1);
    is(&a.pow(e as usize), pw(val(&a), e), 1);
}
fn ipow(n: usize, e: u64) {
    let a = sibig(n);
    reach(1);
    iis(&a.pow(e as usize), pw(ival(&a), e), 1);
}
h! {
    h_gcd_zero { let n = choose(4) as usize; zero(n) }
    h_gcd_1_1_z0 { both(tz(1, 0), one(1)) }
    h_gcd_1_1_z1 { both(tz(1, 1), one(1)) }
    h_gcd_1_1_z2 { both(tz(1, 2), one(1)) }
    h_gcd_1_1_z3 { both(tz(1, 3), one(1)) }
    h_gcd_1_2_z0 { both(tz(2, 0), one(1)) }
    h_gcd_1_2_z1 { both(tz(2, 1), one(1)) }
    h_gcd_1_2_z2 { both(tz(2, 2), one(1)) }
    h_gcd_1_2_z3 { both(tz(2, 3), one(1)) }
    h_gcd_1_3_z0 { both(tz(3, 0), one(1)) }
    h_gcd_1_3_z1 { both(tz(3, 1), one(1)) }
    h_gcd_1_3_z2 { both(tz(3, 2), one(1)) }
    h_gcd_1_3_z3 { both(tz(3, 3), one(1)) }
    h_gcd_2_1_z0 { both(tz(1, 0), one(2)) }
    h_gcd_2_1_z1 { both(tz(1, 1), one(2)) }
    h_gcd_2_1_z2 { both(tz(1, 2), one(2)) }
    h_gcd_2_1_z3 { both(tz(1, 3), one(2)) }
    h_gcd_2_2_z0 { both(tz(2, 0), one(2)) }
    h_gcd_2_2_z1 { both(tz(2, 1), one(2)) }
    h_gcd_2_2_z2 { both(tz(2, 2), one(2)) }
    h_gcd_2_2_z3 { both(tz(2, 3), one(2)) }
    h_gcd_2_3_z0 { both(tz(3, 0), one(2)) }
    h_gcd_2_3_z1 { both(tz(3, 1), one(2)) }
    h_gcd_2_3_z2 { both(tz(3, 2), one(2)) }
    h_gcd_2_3_z3 { both(tz(3, 3), one(2)) }
    h_gcd_3_1_z0 { both(tz(1, 0), one(3)) }
    h_gcd_3_1_z1 { both(tz(1, 1), one(3)) }
    h_gcd_3_1_z2 { both(tz(1, 2), one(3)) }
    h_gcd_3_1_z3 { both(tz(1, 3), one(3)) }
    h_gcd_3_2_z0 { both(tz(2, 0), one(3)) }
    h_gcd_3_2_z1 { both(tz(2, 1), one(3)) }
    h_gcd_3_2_z2 { both(tz(2, 2), one(3)) }
    h_gcd_3_2_z3 { both(tz(2, 3), one(3)) }
    h_gcd_3_3_z0 { both(tz(3, 0), one(3)) }
    h_gcd_3_3_z1 { both(tz(3, 1), one(3)) }
    h_gcd_3_3_z2 { both(tz(3, 2), one(3)) }
    h_gcd_3_3_z3 { both(tz(3, 3), one(3)) }
    h_gcd_4_1_z0 { both(tz(1, 0), one(4)) }
    h_gcd_4_1_z1 { both(tz(1, 1), one(4)) }
    h_gcd_4_1_z2 { both(tz(1, 2), one(4)) }
    h_gcd_4_1_z3 { both(tz(1, 3), one(4)) }
    h_gcd_4_2_z0 { both(tz(2, 0), one(4)) }
    h_gcd_4_2_z1 { both(tz(2, 1), one(4)) }
    h_gcd_4_2_z2 { both(tz(2, 2), one(4)) }
    h_gcd_4_2_z3 { both(tz(2, 3), one(4)) }
    h_gcd_4_3_z0 { both(tz(3, 0), one(4)) }
    h_gcd_4_3_z1 { both(tz(3, 1), one(4)) }
    h_gcd_4_3_z2 { both(tz(3, 2), one(4)) }
    h_gcd_4_3_z3 { both(tz(3, 3), one(4)) }
    h_gcd_5_1_z0 { both(tz(1, 0), one(5)) }
    h_gcd_5_1_z1 { both(tz(1, 1), one(5)) }
    h_gcd_5_1_z2 { both(tz(1, 2), one(5)) }
    h_gcd_5_1_z3 { both(tz(1, 3), one(5)) }
    h_gcd_5_2_z0 { both(tz(2, 0), one(5)) }
    h_gcd_5_2_z1 { both(tz(2, 1), one(5)) }
    h_gcd_5_2_z2 { both(tz(2, 2), one(5)) }
    h_gcd_5_2_z3 { both(tz(2, 3), one(5)) }
    h_gcd_5_3_z0 { both(tz(3, 0), one(5)) }
    h_gcd_5_3_z1 { both(tz(3, 1), one(5)) }
    h_gcd_5_3_z2 { both(tz(3, 2), one(5)) }
    h_gcd_5_3_z3 { both(tz(3, 3), one(5)) }
    h_gcd_6_1_z0 { both(tz(1, 0), one(6)) }
    h_gcd_6_1_z1 { both(tz(1, 1), one(6)) }
    h_gcd_6_1_z2 { both(tz(1, 2), one(6)) }
    h_gcd_6_1_z3 { both(tz(1, 3), one(6)) }
    h_gcd_6_2_z0 { both(tz(2, 0), one(6)) }
    h_gcd_6_2_z1 { both(tz(2, 1), one(6)) }
    h_gcd_6_2_z2 { both(tz(2, 2), one(6)) }
    h_gcd_6_2_z3 { both(tz(2, 3), one(6)) }
    h_gcd_6_3_z0 { both(tz(3, 0), one(6)) }
    h_gcd_6_3_z1 { both(tz(3, 1), one(6)) }
    h_gcd_6_3_z2 { both(tz(3, 2), one(6)) }
    h_gcd_6_3_z3 { both(tz(3, 3), one(6)) }
    h_gcd_7_1_z0 { both(tz(1, 0), one(7)) }
    h_gcd_7_1_z1 { both(tz(1, 1), one(7)) }
    h_gcd_7_1_z2 { both(tz(1, 2), one(7)) }
    h_gcd_7_1_z3 { both(tz(1, 3), one(7)) }
    h_gcd_7_2_z0 { both(tz(2, 0), one(7)) }
    h_gcd_7_2_z1 { both(tz(2, 1), one(7)) }
    h_gcd_7_2_z2 { both(tz(2, 2), one(7)) }
    h_gcd_7_2_z3 { both(tz(2, 3), one(7)) }
    h_gcd_7_3_z0 { both(tz(3, 0), one(7)) }
    h_gcd_7_3_z1 { both(tz(3, 1), one(7)) }
    h_gcd_7_3_z2 { both(tz(3, 2), one(7)) }
    h_gcd_7_3_z3 { both(tz(3, 3), one(7)) }
    h_gcd_8_1_z0 { both(tz(1, 0), one(8)) }
    h_gcd_8_1_z1 { both(tz(1, 1), one(8)) }
    h_gcd_8_1_z2 { both(tz(1, 2), one(8)) }
    h_gcd_8_1_z3 { both(tz(1, 3), one(8)) }
    h_gcd_8_2_z0 { both(tz(2, 0), one(8)) }
    h_gcd_8_2_z1 { both(tz(2, 1), one(8)) }
    h_gcd_8_2_z2 { both(tz(2, 2), one(8)) }
    h_gcd_8_2_z3 { both(tz(2, 3), one(8)) }
    h_gcd_8_3_z0 { both(tz(3, 0), one(8)) }
    h_gcd_8_3_z1 { both(tz(3, 1), one(8)) }
    h_gcd_8_3_z2 { both(tz(3, 2), one(8)) }
    h_gcd_8_3_z3 { both(tz(3, 3), one(8)) }
    h_gcd_9_1_z0 { both(tz(1, 0), one(9)) }
    h_gcd_9_1_z1 { both(tz(1, 1), one(9)) }
    h_gcd_9_1_z2 { both(tz(1, 2), one(9)) }
    h_gcd_9_1_z3 { both(tz(1, 3), one(9)) }
    h_gcd_9_2_z0 { both(tz(2, 0), one(9)) }
    h_gcd_9_2_z1 { both(tz(2, 1), one(9)) }
    h_gcd_9_2_z2 { both(tz(2, 2), one(9)) }
    h_gcd_9_2_z3 { both(tz(2, 3), one(9)) }
    h_gcd_9_3_z0 { both(tz(3, 0), one(9)) }
    h_gcd_9_3_z1 { both(tz(3, 1), one(9)) }
    h_gcd_9_3_z2 { both(tz(3, 2), one(9)) }
    h_gcd_9_3_z3 { both(tz(3, 3), one(9)) }
    h_gcd_10_1_z0 { both(tz(1, 0), one(10)) }
    h_gcd_10_1_z1 { both(tz(1, 1), one(10)) }
    h_gcd_10_1_z2 { both(tz(1, 2), one(10)) }
    h_gcd_10_1_z3 { both(tz(1, 3), one(10)) }
    h_gcd_10_2_z0 { both(tz(2, 0), one(10)) }
    h_gcd_10_2_z1 { both(tz(2, 1), one(10)) }
    h_gcd_10_2_z2 { both(tz(2, 2), one(10)) }
    h_gcd_10_2_z3 { both(tz(2, 3), one(10)) }
    h_gcd_10_3_z0 { both(tz(3, 0), one(10)) }
    h_gcd_10_3_z1 { both(tz(3, 1), one(10)) }
    h_gcd_10_3_z2 { both(tz(3, 2), one(10)) }
    h_gcd_10_3_z3 { both(tz(3, 3), one(10)) }
    h_gcd_12_1_z0 { both(tz(1, 0), one(12)) }
    h_gcd_12_1_z1 { both(tz(1, 1), one(12)) }
    h_gcd_12_1_z2 { both(tz(1, 2), one(12)) }
    h_gcd_12_1_z3 { both(tz(1, 3), one(12)) }
    h_gcd_12_2_z0 { both(tz(2, 0), one(12)) }
    h_gcd_12_2_z1 { both(tz(2, 1), one(12)) }
    h_gcd_12_2_z2 { both(tz(2, 2), one(12)) }
    h_gcd_12_2_z3 { both(tz(2, 3), one(12)) }
    h_gcd_12_3_z0 { both(tz(3, 0), one(12)) }
    h_gcd_12_3_z1 { both(tz(3, 1), one(12)) }
    h_gcd_12_3_z2 { both(tz(3, 2), one(12)) }
    h_gcd_12_3_z3 { both(tz(3, 3), one(12)) }
    h_gcd_15_1_z0 { both(tz(1, 0), one(15)) }
    h_gcd_15_1_z1 { both(tz(1, 1), one(15)) }
    h_gcd_15_1_z2 { both(tz(1, 2), one(15)) }
    h_gcd_15_1_z3 { both(tz(1, 3), one(15)) }
    h_gcd_15_2_z0 { both(tz(2, 0), one(15)) }
    h_gcd_15_2_z1 { both(tz(2, 1), one(15)) }
    h_gcd_15_2_z2 { both(tz(2, 2), one(15)) }
    h_gcd_15_2_z3 { both(tz(2, 3), one(15)) }
    h_gcd_15_3_z0 { both(tz(3, 0), one(15)) }
    h_gcd_15_3_z1 { both(tz(3, 1), one(15)) }
    h_gcd_15_3_z2 { both(tz(3, 2), one(15)) }
    h_gcd_15_3_z3 { both(tz(3, 3), one(15)) }
    h_gcd_16_1_z0 { both(tz(1, 0), one(16)) }
    h_gcd_16_1_z1 { both(tz(1, 1), one(16)) }
    h_gcd_16_1_z2 { both(tz(1, 2), one(16)) }
    h_gcd_16_1_z3 { both(tz(1, 3), one(16)) }
    h_gcd_16_2_z0 { both(tz(2, 0), one(16)) }
    h_gcd_16_2_z1 { both(tz(2, 1), one(16)) }
    h_gcd_16_2_z2 { both(tz(2, 2), one(16)) }
    h_gcd_16_2_z3 { both(tz(2, 3), one(16)) }
    h_gcd_16_3_z0 { both(tz(3, 0), one(16)) }
    h_gcd_16_3_z1 { both(tz(3, 1), one(16)) }
    h_gcd_16_3_z2 { both(tz(3, 2), one(16)) }
    h_gcd_16_3_z3 { both(tz(3, 3), one(16)) }
    h_gcd_24_1_z0 { both(tz(1, 0), one(24)) }
    h_gcd_24_1_z1 { both(tz(1, 1), one(24)) }
    h_gcd_24_1_z2 { both(tz(1, 2), one(24)) }
    h_gcd_24_1_z3 { both(tz(1, 3), one(24)) }
    h_gcd_24_2_z0 { both(tz(2, 0), one(24)) }
    h_gcd_24_2_z1 { both(tz(2, 1), one(24)) }
    h_gcd_24_2_z2 { both(tz(2, 2), one(24)) }
    h_gcd_24_2_z3 { both(tz(2, 3), one(24)) }
    h_gcd_24_3_z0 { both(tz(3, 0), one(24)) }
    h_gcd_24_3_z1 { both(tz(3, 1), one(24)) }
    h_gcd_24_3_z2 { both(tz(3, 2), one(24)) }
    h_gcd_24_3_z3 { both(tz(3, 3), one(24)) }
    h_gcd_2wa_1_z0 { both(tz(1, 0), cnum(&[0, 1])) }
    h_gcd_2wb_1_z0 { both(tz(1, 0), cnum(&[0, 12])) }
    h_gcd_2wa_1_z7 { both(tz(1, 7), cnum(&[0, 1])) }
    h_gcd_2wb_1_z7 { both(tz(1, 7), cnum(&[0, 12])) }
    h_gcd_2wa_1_z14 { both(tz(1, 14), cnum(&[0, 1])) }
    h_gcd_2wb_1_z14 { both(tz(1, 14), cnum(&[0, 12])) }
    h_gcd_2wa_2_z0 { both(tz(2, 0), cnum(&[0, 1])) }
    h_gcd_2wb_2_z0 { both(tz(2, 0), cnum(&[0, 12])) }
    h_gcd_2wa_2_z7 { both(tz(2, 7), cnum(&[0, 1])) }
    h_gcd_2wb_2_z7 { both(tz(2, 7), cnum(&[0, 12])) }
    h_gcd_2wa_2_z14 { both(tz(2, 14), cnum(&[0, 1])) }
    h_gcd_2wb_2_z14 { both(tz(2, 14), cnum(&[0, 12])) }
    h_gcd_2wa_3_z0 { both(tz(3, 0), cnum(&[0, 1])) }
    h_gcd_2wb_3_z0 { both(tz(3, 0), cnum(&[0, 12])) }
    h_gcd_2wa_3_z7 { both(tz(3, 7), cnum(&[0, 1])) }
    h_gcd_2wb_3_z7 { both(tz(3, 7), cnum(&[0, 12])) }
    h_gcd_2wa_3_z14 { both(tz(3, 14), cnum(&[0, 1])) }
    h_gcd_2wb_3_z14 { both(tz(3, 14), cnum(&[0, 12])) }
    h_gcd_eq { let a = snum(1); let g = a.gcd(&a); reach(1); same(&g, &a, 1) }
    h_gcd_11 { both(snum(1), snum(1)) }
    h_gcd_n1 { let b = sword() as u64 & 15; assume(b != 0); both(snum(1), one(b as Word)) }
    h_igcd_0_1 { igcd(0, 1) }
    h_igcd_0_2 { igcd(0, 2) }
    h_igcd_0_3 { igcd(0, 3) }
    h_igcd_0_4 { igcd(0, 4) }
    h_igcd_0_6 { igcd(0, 6) }
    h_igcd_1_1 { igcd(1, 1) }
    h_igcd_1_2 { igcd(1, 2) }
    h_igcd_1_3 { igcd(1, 3) }
    h_igcd_1_4 { igcd(1, 4) }
    h_igcd_1_6 { igcd(1, 6) }
    h_igcd_2_1 { igcd(2, 1) }
    h_igcd_2_2 { igcd(2, 2) }
    h_igcd_2_3 { igcd(2, 3) }
    h_igcd_2_4 { igcd(2, 4) }
    h_igcd_2_6 { igcd(2, 6) }
    h_pow_0 { let n = choose(4); pow(n as usize, 0) }
    h_pow_1 { let n = choose(4); pow(n as usize, 1) }
    h_pow_2 { let n = choose(4); pow(n as usize, 2) }
    h_pow_1_3 { pow(1, 3) }
    h_pow_1_4 { pow(1, 4) }
    h_pow_1_5 { pow(1, 5) }
    h_pow_1_6 { pow(1, 6) }
    h_pow_1_7 { pow(1, 7) }
    h_pow_1_8 { pow(1, 8) }
    h_pow_1_13 { pow(1, 13) }
    h_pow_2_3 { pow(2, 3) }
    h_pow_2_4 { pow(2, 4) }
    h_pow_2_5 { pow(2, 5) }
    h_pow_3_3 { pow(3, 3) }
    h_ipow_0 { let n = choose(3); let e = choose(3); ipow(n as usize, e) }
    h_ipow_3 { let n = choose(2); let e = 3 + choose(3); ipow(n as usize, e) }
    h_pow_base01 { let e = su64() as usize; reach(1); let z = UBig::from(0u8).pow(e); let o = UBig::from(1u8).pow(e);
        canon(&z, 1); canon(&o, 2); check(val(&z).eq(Int::u((e == 0) as u64)), 1); check(val(&o).eq(Int::u(1)), 2);
        let m = IBig::from(-1).pow(e); icanon(&m, 3); check(isneg(&m) == (e % 2 == 1), 3); check(val(imag(&m)).eq(Int::u(1)), 3) }
    h_pow_base2 { let e = choose(200); reach(1); is(&UBig::from(2u8).pow(e as usize), Int::u(1).shl(e), 1);
        let s = IBig::from(-2).pow(e as usize); check(isneg(&s) == (e % 2 == 1), 2); is(imag(&s), Int::u(1).shl(e), 2) }
}

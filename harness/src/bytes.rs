//! byte-string conversions
use crate::vf::*;
use ibig::UBig;

fn from_le(n: usize) {
    let mut b = [0u8; 40];
    for k in 0..n {
        b[k] = su8();
    }
    reach(1);
    let x = UBig::from_le_bytes(&b[..n]);
    is(&x, Int::bytes_le(&b[..n]), 1);
}
fn from_be(n: usize) {
    let mut b = [0u8; 40];
    let mut r = [0u8; 40];
    for k in 0..n {
        b[k] = su8();
        r[n - 1 - k] = b[k];
    }
    reach(1);
    let x = UBig::from_be_bytes(&b[..n]);
    is(&x, Int::bytes_le(&r[..n]), 1);
}
fn to(n: usize) {
    let a = snum(n);
    let v = val(&a);
    let form = choose(2);
    reach(1);
    if form == 0 {
        let b = a.to_le_bytes();
        check(Int::bytes_le(&b).eq(v), 1);
        // no redundant bytes
        if n == 0 {
            check(b.is_empty(), 2);
        } else {
            check(b[b.len() - 1] != 0, 3);
        }
        same(&UBig::from_le_bytes(&b), &a, 4);
    } else {
        let b = a.to_be_bytes();
        let mut r = [0u8; 80];
        for k in 0..b.len() {
            r[b.len() - 1 - k] = b[k];
        }
        check(Int::bytes_le(&r[..b.len()]).eq(v), 5);
        if n == 0 {
            check(b.is_empty(), 6);
        } else {
            check(b[0] != 0, 7);
        }
        same(&UBig::from_be_bytes(&b), &a, 8);
    }
}
h! {
    h_from_le { let n = choose(19) as usize; from_le(n) }
    h_from_be { let n = choose(19) as usize; from_be(n) }
    h_from_le_long { let n = [23, 24, 25, 31, 32, 33, 39][choose(7) as usize]; from_le(n) }
    h_from_be_long { let n = [23, 24, 25, 31, 32, 33, 39][choose(7) as usize]; from_be(n) }
    h_to_bytes { let n = choose(4) as usize; to(n) }
    h_to_bytes_4 { to(4) }
    h_to_bytes_6 { to(6) }
}

//! histories of operations on the same numbers, and operand lengths that need the most scratch memory; besides the assertions, every
//! access of the executed code is checked against the object it belongs to
use crate::muls::pattern;
use crate::vf::*;
use ibig::verif::{self, Word};
use ibig::{IBig, UBig};

fn shape(x: &UBig, id: u32) {
    let c = verif::ubig_capacity(x);
    let n = ubig_len(x);
    canon(x, id);
    check(c == 0 || c >= n, id + 1);
}
/// one step of a history; the buffer of `a` is reused, grown, shrunk or replaced
fn step(a: &mut UBig, b: &mut UBig, op: u64) {
    match op {
        0 => *a += &*b,
        1 => {
            if *a >= *b {
                *a -= &*b
            } else {
                *a = &*b - &*a
            }
        }
        2 => *a <<= WB as usize + 1,
        3 => *a >>= WB as usize - 1,
        4 => a.clone_from(b),
        5 => core::mem::swap(a, b),
        6 => *a = core::mem::take(a) + core::mem::take(b),
        7 => a.set_bit(3 * WB as usize + 2),
        8 => a.clear_bit(0),
        9 => *a &= &*b,
        10 => *a |= &*b,
        11 => *a ^= core::mem::take(b),
        12 => *a *= 3u8,
        13 => {
            let c = a.clone();
            *b = c;
        }
        14 => *a = core::mem::take(a) >> (2 * WB as usize),
        15 => *a += 1u8,
        16 => *a /= 2u8,
        17 => *a = UBig::from_le_bytes(&a.to_le_bytes()),
        _ => *a <<= 3,
    }
}
const OPS: u64 = 19;
fn history(n: usize, m: usize, steps: usize) {
    let mut a = snum(n);
    let mut b = snum(m);
    for _ in 0..steps {
        step(&mut a, &mut b, choose(OPS));
    }
    reach(1);
    shape(&a, 1);
    shape(&b, 4);
}
/// the steps that move the buffers, one after the other
fn moving(n: usize, m: usize) {
    let mut a = snum(n);
    let mut b = snum(m);
    for _ in 0..3 {
        let op = [2, 3, 4, 5, 7, 13, 14][choose(7) as usize];
        step(&mut a, &mut b, op);
    }
    reach(1);
    shape(&a, 1);
    shape(&b, 4);
}
fn ihistory(n: usize, m: usize) {
    let mut a = sibig(n);
    let mut b = sibig(m);
    for _ in 0..2 {
        match choose(12) {
            0 => a += &b,
            1 => a -= &b,
            2 => a = -a,
            3 => a.clone_from(&b),
            4 => a <<= WB as usize + 1,
            5 => a >>= WB as usize - 1,
            6 => a = !a,
            7 => a &= &b,
            8 => a |= core::mem::take(&mut b),
            9 => a ^= &b,
            10 => core::mem::swap(&mut a, &mut b),
            _ => a -= 1u8,
        }
    }
    reach(1);
    icanon(&a, 1);
    icanon(&b, 4);
}
fn one(n: usize, p: u64, k: usize) -> UBig {
    let mut w = pattern(n, p);
    w[k] = sword();
    assume(w[n - 1] != 0);
    cnum(&w[..n])
}
/// lengths n (fixed) by every m of a range: scratch space of multiplication
fn scratch_mul(n: usize, from: u64, to: u64) {
    let m = (from + choose(to - from + 1)) as usize;
    let a = one(n, 0, 0);
    let w = pattern(m, 9);
    let b = cnum(&w[..m]);
    reach(1);
    let c = &a * &b;
    let l = ubig_len(&c);
    check(l == n + m || l == n + m - 1, 1);
    shape(&c, 2);
}
fn scratch_sqr(from: u64, to: u64) {
    let n = (from + choose(to - from + 1)) as usize;
    let a = one(n, 5, 0);
    reach(1);
    let c = &a * &a;
    let l = ubig_len(&c);
    check(l == 2 * n || l == 2 * n - 1, 1);
    shape(&c, 2);
}
fn scratch_div(n: usize, from: u64, to: u64) {
    let m = (from + choose(to - from + 1)) as usize;
    let a = one(n, 7, 0);
    let mut w = [0 as Word; 80];
    let p = pattern(m, 9);
    w[..m].copy_from_slice(&p[..m]);
    let b = cnum(&w[..m]);
    reach(1);
    let q = &a / &b;
    let r = &a % &b;
    let l = ubig_len(&q);
    check(l == n - m || l == n - m + 1, 1);
    check(r < b, 2);
    shape(&q, 3);
    shape(&r, 5);
}
fn values(n: usize) {
    // dropping, moving and overwriting numbers of every length
    let a = snum(n);
    let b = a.clone();
    let i = IBig::from(a);
    let (s, m) = (isneg(&i), imag(&i).clone());
    reach(1);
    check(!s, 1);
    same(&m, &b, 2);
    let mut v = [UBig::from(1u8), b, m];
    v.swap(0, 2);
    v[1] = core::mem::take(&mut v[2]);
    same(&v[0], imag(&i), 4);
    is(&v[2], Int::u(0), 6);
}
h! {
    h_hist_0_1 { history(0, 1, 2) }
    h_hist_0_2 { history(0, 2, 2) }
    h_hist_1_0 { history(1, 0, 2) }
    h_hist_1_1 { history(1, 1, 2) }
    h_hist_1_2 { history(1, 2, 2) }
    h_hist_1_3 { history(1, 3, 2) }
    h_hist_2_0 { history(2, 0, 2) }
    h_hist_2_1 { history(2, 1, 2) }
    h_hist_2_2 { history(2, 2, 2) }
    h_hist_2_3 { history(2, 3, 2) }
    h_hist_3_1 { history(3, 1, 2) }
    h_hist_3_2 { history(3, 2, 2) }
    h_hist_3_3 { history(3, 3, 2) }
    h_hist_6_2 { history(6, 2, 2) }
    h_hist_2_9 { history(2, 9, 2) }
    h_mov_1_2 { moving(1, 2) }
    h_mov_2_3 { moving(2, 3) }
    h_mov_3_1 { moving(3, 1) }
    h_mov_2_9 { moving(2, 9) }
    h_ihist_1_1 { ihistory(1, 1) }
    h_ihist_1_2 { ihistory(1, 2) }
    h_ihist_2_1 { ihistory(2, 1) }
    h_ihist_2_2 { ihistory(2, 2) }
    h_ihist_3_2 { ihistory(3, 2) }
    h_scr_mul_8 { scratch_mul(8, 1, 8) }
    h_scr_mul_16 { scratch_mul(16, 1, 16) }
    h_scr_mul_17 { scratch_mul(17, 12, 17) }
    h_scr_mul_20 { scratch_mul(20, 15, 20) }
    h_scr_mul_33 { scratch_mul(33, 30, 33) }
    h_scr_mul_40 { scratch_mul(40, 16, 18) }
    h_scr_mul_49 { scratch_mul(49, 48, 49) }
    h_scr_mul_30 { scratch_mul(30, 24, 26) }
    h_scr_sqr_1 { scratch_sqr(1, 12) }
    h_scr_sqr_13 { scratch_sqr(13, 20) }
    h_scr_div_8 { scratch_div(8, 1, 8) }
    h_scr_div_9 { scratch_div(9, 1, 8) }
    h_scr_div_12 { scratch_div(12, 1, 11) }
    h_scr_div_16 { scratch_div(16, 3, 12) }
    h_scr_div_24 { scratch_div(24, 8, 12) }
    h_val_0 { values(0) }
    h_val_1 { values(1) }
    h_val_2 { values(2) }
    h_val_5 { values(5) }
}

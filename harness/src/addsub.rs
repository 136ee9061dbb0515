//! addition and subtraction
use crate::vf::*;
use ibig::{IBig, UBig};

/// all operand forms of an operator give the mathematical result
fn add(n: usize, m: usize) {
    let a = snum(n);
    let b = snum(m);
    let s = val(&a) + val(&b);
    reach(1);
    is(&(&a + &b), s, 1);
    is(&(a.clone() + &b), s, 2);
    is(&(&a + b.clone()), s, 3);
    let mut c = a.clone();
    c += &b;
    is(&c, s, 4);
    let mut c = a.clone();
    c += b.clone();
    is(&c, s, 5);
    is(&(a + b), s, 6);
}
fn sub(n: usize, m: usize) {
    let form = choose(5);
    let a = snum(n);
    let b = snum(m);
    let (x, y) = (val(&a), val(&b));
    allow_panic(x.lt(y));
    let d = match form {
        0 => &a - &b,
        1 => a - &b,
        2 => &a - b,
        3 => a - b,
        _ => {
            let mut c = a;
            c -= &b;
            c
        }
    };
    check(y.le(x), 1);
    reach(1);
    is(&d, x - y, 2);
}
fn iadd(n: usize, m: usize) {
    let form = choose(6);
    let a = sibig(n);
    let b = sibig(m);
    let s = ival(&a) + ival(&b);
    reach(1);
    let c = match form {
        0 => &a + &b,
        1 => a + &b,
        2 => &a + b,
        3 => a + b,
        4 => {
            let mut c = a;
            c += &b;
            c
        }
        _ => {
            let mut c = a;
            c += b;
            c
        }
    };
    iis(&c, s, 1);
}
fn isub(n: usize, m: usize) {
    let form = choose(6);
    let a = sibig(n);
    let b = sibig(m);
    let s = ival(&a) - ival(&b);
    reach(1);
    let c = match form {
        0 => &a - &b,
        1 => a - &b,
        2 => &a - b,
        3 => a - b,
        4 => {
            let mut c = a;
            c -= &b;
            c
        }
        _ => {
            let mut c = a;
            c -= b;
            c
        }
    };
    iis(&c, s, 1);
}
fn pick(max: usize) -> (usize, usize) {
    let n = choose(max as u64 + 1) as usize;
    let m = choose(max as u64 + 1) as usize;
    (n, m)
}
/// operands whose buffer has spare capacity, built by shrinking a longer result
fn spare(n: usize) -> UBig {
    let a = snum(n + 2);
    let s = choose(2);
    if s == 0 {
        a >> (2 * WBU)
    } else {
        a >> WBU
    }
}
h! {
    h_add_small { let (n, m) = pick(3); add(n, m) }
    h_add_4_4 { add(4, 4) }
    h_add_6_3 { add(6, 3) }
    h_add_3_6 { add(3, 6) }
    h_add_8_8 { add(8, 8) }
    h_sub_small { let (n, m) = pick(3); sub(n, m) }
    h_sub_4_4 { sub(4, 4) }
    h_sub_6_3 { sub(6, 3) }
    h_sub_8_8 { sub(8, 8) }
    h_sub_3_6 { sub(3, 6) }
    h_iadd_small { let (n, m) = pick(2); iadd(n, m) }
    h_iadd_3_3 { iadd(3, 3) }
    h_iadd_4_2 { iadd(4, 2) }
    h_iadd_2_4 { iadd(2, 4) }
    h_isub_small { let (n, m) = pick(2); isub(n, m) }
    h_isub_3_3 { isub(3, 3) }
    h_isub_4_2 { isub(4, 2) }
    h_isub_2_4 { isub(2, 4) }
    h_add_chain {
        // (a + b) - b == a, sums of sums, through buffers with spare capacity
        let a = spare(3);
        let b = snum(3);
        let (x, y) = (val(&a), val(&b));
        reach(1);
        let s = a.clone() + &b;
        is(&s, x + y, 1);
        let t = s.clone() + &s;
        is(&t, x + y + x + y, 2);
        let u = t - &s;
        is(&u, x + y, 3);
        let v = u - b;
        same(&v, &a, 4);
    }
    h_sub_self {
        let n = choose(4) as usize;
        let a = snum(n);
        reach(1);
        is(&(&a - &a), Int::u(0), 1);
        let i = IBig::from(a.clone());
        iis(&(&i - &i), Int::u(0), 2);
        iis(&(i.clone() + (-i)), Int::u(0), 3);
    }
}

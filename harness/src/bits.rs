//! bitwise operators follow infinite two's complement
use crate::vf::*;
use ibig::{ops::AndNot, IBig, UBig};

macro_rules! forms {
    ($form:expr, $a:expr, $b:expr, $op:tt, $opa:tt) => {
        match $form {
            0 => &$a $op &$b,
            1 => $a $op &$b,
            2 => &$a $op $b,
            3 => $a $op $b,
            4 => {
                let mut c = $a;
                c $opa &$b;
                c
            }
            _ => {
                let mut c = $a;
                c $opa $b;
                c
            }
        }
    };
}
fn f(op: u64, a: Word, b: Word) -> Word {
    match op {
        0 => a & b,
        1 => a | b,
        2 => a ^ b,
        _ => a & !b,
    }
}
fn u_one(n: usize, m: usize, op: u64, form: u64) {
    let a = snum(n);
    let b = snum(m);
    let l = n.max(m);
    let mut e = [0 as Word; 12];
    for k in 0..l {
        e[k] = f(op, wk(&a, k), wk(&b, k));
    }
    reach(1);
    let c: UBig = match op {
        0 => forms!(form, a, b, &, &=),
        1 => forms!(form, a, b, |, |=),
        2 => forms!(form, a, b, ^, ^=),
        _ => match form {
            0 => (&a).and_not(&b),
            1 => a.and_not(&b),
            2 => (&a).and_not(b),
            _ => a.and_not(b),
        },
    };
    canon(&c, 1);
    check(ubig_len(&c) <= l, 2);
    for k in 0..l {
        check(wk(&c, k) == e[k], 3);
    }
}
fn i_one(n: usize, m: usize, op: u64, form: u64) {
    let (na, nb) = (sgn(n), sgn(m));
    let a = sint(n, na);
    let b = sint(m, nb);
    let l = n.max(m) + 1;
    let (ta, tb) = (twos(&a, l), twos(&b, l));
    reach(1);
    let c: IBig = match op {
        0 => forms!(form, a, b, &, &=),
        1 => forms!(form, a, b, |, |=),
        2 => forms!(form, a, b, ^, ^=),
        _ => match form {
            0 => (&a).and_not(&b),
            1 => a.and_not(&b),
            2 => (&a).and_not(b),
            _ => a.and_not(b),
        },
    };
    icanon(&c, 1);
    check(ubig_len(imag(&c)) <= l, 2);
    let s = f(op, if na { Word::MAX } else { 0 }, if nb { Word::MAX } else { 0 });
    check(isneg(&c) == (s != 0), 3);
    let tc = twos(&c, l);
    for k in 0..l {
        check(tc[k] == f(op, ta[k], tb[k]), 4);
    }
}
fn u(max: usize, op: u64) {
    let n = choose(max as u64 + 1) as usize;
    let m = choose(max as u64 + 1) as usize;
    let form = choose(if op == 3 { 4 } else { 6 });
    u_one(n, m, op, form)
}
fn i(n: usize, m: usize, op: u64) {
    let form = choose(if op == 3 { 4 } else { 6 });
    i_one(n, m, op, form)
}
fn ipick(max: usize, op: u64) {
    let n = choose(max as u64 + 1) as usize;
    let m = choose(max as u64 + 1) as usize;
    i(n, m, op)
}
h! {
    h_uand { u(3, 0) }
    h_uor { u(3, 1) }
    h_uxor { u(3, 2) }
    h_uandnot { u(3, 3) }
    h_uand_6_4 { u_one(6, 4, 0, 0) }
    h_uor_4_6 { u_one(4, 6, 1, 1) }
    h_uxor_6_6 { u_one(6, 6, 2, 4) }
    h_uandnot_6_6 { u_one(6, 6, 3, 1) }
    h_iand_s { ipick(2, 0) }
    h_ior_s { ipick(2, 1) }
    h_ixor_s { ipick(2, 2) }
    h_iandnot_s { ipick(2, 3) }
    h_iand_3_3 { i(3, 3, 0) }
    h_ior_3_3 { i(3, 3, 1) }
    h_ixor_3_3 { i(3, 3, 2) }
    h_iandnot_3_3 { i(3, 3, 3) }
    h_iand_2_4 { i(2, 4, 0) }
    h_ior_4_2 { i(4, 2, 1) }
    h_ixor_4_2 { i(4, 2, 2) }
    h_iandnot_2_4 { i(2, 4, 3) }
    h_inot {
        // !x == -x - 1
        let n = choose(5) as usize;
        let form = choose(2);
        let x = sibig(n);
        let v = ival(&x);
        reach(1);
        let y = if form == 0 { !&x } else { !x };
        iis(&y, neg_int(v) - Int::u(1), 1);
        iis(&!&y, v, 2);
    }
}

//! shifts: left multiplies by a power of two, right is floor division by one
use crate::vf::*;
use ibig::{IBig, UBig};

macro_rules! forms {
    ($form:expr, $a:expr, $k:expr, $op:tt, $opa:tt) => {
        match $form {
            0 => &$a $op $k,
            1 => $a $op $k,
            2 => &$a $op &$k,
            3 => $a $op &$k,
            4 => {
                let mut c = $a;
                c $opa $k;
                c
            }
            _ => {
                let mut c = $a;
                c $opa &$k;
                c
            }
        }
    };
}
fn shl_(n: usize, k: usize, form: u64) {
    let a = snum(n);
    let v = val(&a).shl(k as u64);
    reach(1);
    let c: UBig = forms!(form, a, k, <<, <<=);
    is(&c, v, 1);
}
fn shr_(n: usize, k: usize, form: u64) {
    let a = snum(n);
    let v = val(&a);
    reach(1);
    let c: UBig = forms!(form, a, k, >>, >>=);
    canon(&c, 1);
    let q = val(&c).shl(k as u64);
    check(q.le(v), 2);
    check(v.lt(q + Int::u(1).shl(k as u64)), 3);
}
fn ishl_(n: usize, k: usize, form: u64) {
    let a = sibig(n);
    let v = ival(&a).shl(k as u64);
    reach(1);
    let c: IBig = forms!(form, a, k, <<, <<=);
    iis(&c, v, 1);
}
fn ishr_(n: usize, k: usize, form: u64) {
    let a = sibig(n);
    let v = ival(&a);
    reach(1);
    let c: IBig = forms!(form, a, k, >>, >>=);
    icanon(&c, 1);
    let q = ival(&c).shl(k as u64);
    check(q.le(v), 2);
    check(v.lt(q + Int::u(1).shl(k as u64)), 3);
}
/// a shift count: everything around word boundaries
fn count() -> usize {
    let w = choose(4) as usize;
    let b = match choose(5) {
        0 => 0,
        1 => 1,
        2 => WBU / 2 - 1,
        3 => WBU - 3,
        _ => WBU - 1,
    };
    w * WBU + b
}
/// every shift count 0..=4 words
fn every(n: u64) -> usize {
    choose(n * WB as u64 + 2) as usize
}
h! {
    h_shl { let n = choose(4) as usize; let k = count(); shl_(n, k, 0) }
    h_shr { let n = choose(4) as usize; let k = count(); shr_(n, k, 0) }
    h_ishl { let n = choose(4) as usize; let k = count(); ishl_(n, k, 0) }
    h_ishr { let n = choose(4) as usize; let k = count(); ishr_(n, k, 0) }
    h_shl_forms { let n = choose(4) as usize; let f = choose(6); let k = [0, 1, WBU - 1, WBU, WBU + 5][choose(5) as usize]; shl_(n, k, f) }
    h_shr_forms { let n = choose(4) as usize; let f = choose(6); let k = [0, 1, WBU - 1, WBU, WBU + 5][choose(5) as usize]; shr_(n, k, f) }
    h_ishl_forms { let n = choose(3) as usize; let f = choose(6); let k = [0, 1, WBU - 1, WBU, WBU + 5][choose(5) as usize]; ishl_(n, k, f) }
    h_ishr_forms { let n = choose(3) as usize; let f = choose(6); let k = [0, 1, WBU - 1, WBU, WBU + 5][choose(5) as usize]; ishr_(n, k, f) }
    h_shl_every { let n = choose(4) as usize; let k = every(3); shl_(n, k, 1) }
    h_shr_every { let n = choose(4) as usize; let k = every(3); shr_(n, k, 1) }
    h_ishr_every1 { let k = every(3); ishr_(1, k, 1) }
    h_ishr_every2 { let k = every(3); ishr_(2, k, 1) }
    h_ishr_every3 { let k = every(3); ishr_(3, k, 1) }
    h_shl_spare {
        // a buffer that already has room for the result, reused in place
        let k = count();
        let s = count();
        let a = snum(4) >> s;
        let v = val(&a).shl(k as u64);
        reach(1);
        is(&(a << k), v, 1);
    }
    h_shr_huge {
        // counts far beyond the length
        let n = choose(4) as usize;
        let a = sibig(n);
        let neg = isneg(&a);
        let m = imag(&a).clone();
        let k = [usize::MAX, usize::MAX - WBU + 1, 1 << 40, WBU * 64][choose(4) as usize];
        reach(1);
        is(&(&m >> k), Int::u(0), 1);
        is(&(m >> k), Int::u(0), 1);
        let e = if neg { Int::i(-1) } else { Int::u(0) };
        iis(&(&a >> k), e, 2);
        iis(&(a >> k), e, 3);
    }
    h_shl_zero_huge {
        let k = [usize::MAX, usize::MAX - 1, 1 << 62][choose(3) as usize];
        reach(1);
        is(&(UBig::from(0u8) << k), Int::u(0), 1);
        is(&(&UBig::from(0u8) << k), Int::u(0), 2);
        iis(&(IBig::from(0u8) << k), Int::u(0), 3);
    }
    h_shl_shr {
        let n = choose(4) as usize;
        let k = count();
        let a = sibig(n);
        reach(1);
        isame(&((&a << k) >> k), &a, 1);
    }
}

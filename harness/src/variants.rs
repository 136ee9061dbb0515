//! operators with one primitive operand agree with the same operator on converted operands
use crate::vf::*;
use ibig::ops::{AndNot, DivEuclid, DivRem, DivRemEuclid, RemEuclid};
use ibig::{IBig, UBig};

macro_rules! prim {
    (u128) => { su128() };
    (i128) => { su128() as i128 };
    ($t:ident) => { sym($t::BITS) as $t };
}
macro_rules! forms {
    ($op:tt, $opa:tt, $a:ident, $p:ident) => {
        match choose(6) {
            0 => R::from(&$a $op $p),
            1 => R::from(&$a $op &$p),
            2 => R::from($a $op $p),
            3 => R::from($a $op &$p),
            4 => { let mut x = $a; x $opa $p; R::from(x) }
            _ => { let mut x = $a; x $opa &$p; R::from(x) }
        }
    };
}
macro_rules! forms_com {
    ($op:tt, $opa:tt, $a:ident, $p:ident) => {
        match choose(10) {
            0 => R::from(&$a $op $p),
            1 => R::from(&$a $op &$p),
            2 => R::from($a $op $p),
            3 => R::from($a $op &$p),
            4 => { let mut x = $a; x $opa $p; R::from(x) }
            5 => { let mut x = $a; x $opa &$p; R::from(x) }
            6 => R::from($p $op $a),
            7 => R::from($p $op &$a),
            8 => R::from(&$p $op $a),
            _ => R::from(&$p $op &$a),
        }
    };
}
macro_rules! forms_m {
    ($f:ident, $a:ident, $p:ident) => {
        match choose(4) {
            0 => R::from((&$a).$f($p)),
            1 => R::from((&$a).$f(&$p)),
            2 => R::from($a.$f($p)),
            _ => R::from($a.$f(&$p)),
        }
    };
}
macro_rules! forms_m2 {
    ($f:ident, $a:ident, $p:ident) => {{
        let (q, r) = match choose(4) {
            0 => (&$a).$f($p),
            1 => (&$a).$f(&$p),
            2 => $a.$f($p),
            _ => $a.$f(&$p),
        };
        (R::from(q), R::from(r))
    }};
}
type R = IBig;
/// unsigned big operand: the mathematical result e, or a panic exactly when e is negative
macro_rules! ub {
    ($n:expr, $t:ident, |$a:ident, $p:ident, $b:ident| $e:expr, $m:expr) => {{
        let $a = snum($n);
        let $p = prim!($t);
        let $b = IBig::from($p);
        let e: IBig = { let $a = IBig::from(&$a); $e };
        let neg = isneg(&e);
        reach(1);
        allow_panic(neg);
        let r: IBig = $m;
        check(!neg, 1);
        icanon(&r, 2);
        isame(&r, &e, 3);
    }};
}
macro_rules! ib {
    ($n:expr, $t:ident, |$a:ident, $p:ident, $b:ident| $e:expr, $m:expr) => {{
        let n = $n;
        let $a = sint(n, sgn(n));
        let $p = prim!($t);
        let $b = IBig::from($p);
        let e: IBig = { let $a = $a.clone(); $e };
        reach(1);
        let r: IBig = $m;
        icanon(&r, 2);
        isame(&r, &e, 3);
    }};
}
/// division family: operands drawn by the caller; zero divisor must panic
macro_rules! dv {
    ($signed_result:expr, $a:ident, $ia:expr, $p:ident) => {{
        let ia: IBig = $ia;
        let b = IBig::from($p);
        let zero = $p == 0;
        let op = choose(6);
        reach(1);
        // reference on big operands
        let (q, r) = if zero {
            (IBig::from(0u8), IBig::from(0u8))
        } else if op < 3 {
            (&ia).div_rem(&b)
        } else {
            (&ia).div_rem_euclid(&b)
        };
        let neg = !$signed_result && op % 3 != 1 && isneg(&q);
        allow_panic(zero || neg);
        match op {
            0 => { let x = forms!(/, /=, $a, $p); check(!zero && !neg, 1); isame(&x, &q, 3); icanon(&x, 2); }
            1 => { let x = forms!(%, %=, $a, $p); check(!zero, 1); isame(&x, &r, 3); icanon(&x, 2); }
            2 => { let (x, y) = forms_m2!(div_rem, $a, $p); check(!zero && !neg, 1); isame(&x, &q, 3); isame(&y, &r, 4); icanon(&x, 2); }
            3 => { let x = forms_m!(div_euclid, $a, $p); check(!zero && !neg, 1); isame(&x, &q, 3); icanon(&x, 2); }
            4 => { let x = forms_m!(rem_euclid, $a, $p); check(!zero, 1); isame(&x, &r, 3); icanon(&x, 2); }
            _ => { let (x, y) = forms_m2!(div_rem_euclid, $a, $p); check(!zero && !neg, 1); isame(&x, &q, 3); isame(&y, &r, 4); icanon(&x, 2); }
        }
    }};
}
h! {
    h_vu_add_u8 { let n = choose(3) as usize; ub!(n, u8, |a, p, b| a + b, forms_com!(+, +=, a, p)) }
    h_vu_sub_u8 { let n = choose(3) as usize; ub!(n, u8, |a, p, b| a - b, forms!(-, -=, a, p)) }
    h_vu_mul_u8 { let n = choose(3) as usize; ub!(n, u8, |a, p, b| a * b, forms_com!(*, *=, a, p)) }
    h_vu_and_u8 { let n = choose(3) as usize; ub!(n, u8, |a, p, b| a & b, forms_com!(&, &=, a, p)) }
    h_vu_or_u8 { let n = choose(3) as usize; ub!(n, u8, |a, p, b| a | b, forms_com!(|, |=, a, p)) }
    h_vu_xor_u8 { let n = choose(3) as usize; ub!(n, u8, |a, p, b| a ^ b, forms_com!(^, ^=, a, p)) }
    h_vu_andnot_u8 { let n = choose(3) as usize; ub!(n, u8, |a, p, b| a.and_not(b), forms_m!(and_not, a, p)) }
    h_vu_div_u8 { let n = choose(2) as usize; let a = snum(n); let p = prim!(u8); dv!(false, a, IBig::from(&a), p) }
    h_vi_add_u8 { let n = choose(3) as usize; ib!(n, u8, |a, p, b| a + b, forms_com!(+, +=, a, p)) }
    h_vi_sub_u8 { let n = choose(3) as usize; ib!(n, u8, |a, p, b| a - b, forms!(-, -=, a, p)) }
    h_vi_rsub_u8 { let n = choose(3) as usize; ib!(n, u8, |a, p, b| b - a, match choose(4) { 0 => p - a, 1 => p - &a, 2 => &p - a, _ => &p - &a }) }
    h_vi_mul_u8 { let n = choose(3) as usize; ib!(n, u8, |a, p, b| a * b, forms_com!(*, *=, a, p)) }
    h_vi_and_u8 { let n = choose(3) as usize; ib!(n, u8, |a, p, b| a & b, forms_com!(&, &=, a, p)) }
    h_vi_or_u8 { let n = choose(3) as usize; ib!(n, u8, |a, p, b| a | b, forms_com!(|, |=, a, p)) }
    h_vi_xor_u8 { let n = choose(3) as usize; ib!(n, u8, |a, p, b| a ^ b, forms_com!(^, ^=, a, p)) }
    h_vi_andnot_u8 { let n = choose(3) as usize; ib!(n, u8, |a, p, b| a.and_not(b), forms_m!(and_not, a, p)) }
    h_vi_div_u8 { let n = choose(2) as usize; let a = sint(n, sgn(n)); let p = prim!(u8); dv!(true, a, a.clone(), p) }
    h_vu_add_u16 { let n = choose(3) as usize; ub!(n, u16, |a, p, b| a + b, forms_com!(+, +=, a, p)) }
    h_vu_sub_u16 { let n = choose(3) as usize; ub!(n, u16, |a, p, b| a - b, forms!(-, -=, a, p)) }
    h_vu_mul_u16 { let n = choose(3) as usize; ub!(n, u16, |a, p, b| a * b, forms_com!(*, *=, a, p)) }
    h_vu_and_u16 { let n = choose(3) as usize; ub!(n, u16, |a, p, b| a & b, forms_com!(&, &=, a, p)) }
    h_vu_or_u16 { let n = choose(3) as usize; ub!(n, u16, |a, p, b| a | b, forms_com!(|, |=, a, p)) }
    h_vu_xor_u16 { let n = choose(3) as usize; ub!(n, u16, |a, p, b| a ^ b, forms_com!(^, ^=, a, p)) }
    h_vu_andnot_u16 { let n = choose(3) as usize; ub!(n, u16, |a, p, b| a.and_not(b), forms_m!(and_not, a, p)) }
    h_vu_div_u16 { let n = choose(2) as usize; let a = snum(n); let p = prim!(u16); dv!(false, a, IBig::from(&a), p) }
    h_vi_add_u16 { let n = choose(3) as usize; ib!(n, u16, |a, p, b| a + b, forms_com!(+, +=, a, p)) }
    h_vi_sub_u16 { let n = choose(3) as usize; ib!(n, u16, |a, p, b| a - b, forms!(-, -=, a, p)) }
    h_vi_rsub_u16 { let n = choose(3) as usize; ib!(n, u16, |a, p, b| b - a, match choose(4) { 0 => p - a, 1 => p - &a, 2 => &p - a, _ => &p - &a }) }
    h_vi_mul_u16 { let n = choose(3) as usize; ib!(n, u16, |a, p, b| a * b, forms_com!(*, *=, a, p)) }
    h_vi_and_u16 { let n = choose(3) as usize; ib!(n, u16, |a, p, b| a & b, forms_com!(&, &=, a, p)) }
    h_vi_or_u16 { let n = choose(3) as usize; ib!(n, u16, |a, p, b| a | b, forms_com!(|, |=, a, p)) }
    h_vi_xor_u16 { let n = choose(3) as usize; ib!(n, u16, |a, p, b| a ^ b, forms_com!(^, ^=, a, p)) }
    h_vi_andnot_u16 { let n = choose(3) as usize; ib!(n, u16, |a, p, b| a.and_not(b), forms_m!(and_not, a, p)) }
    h_vi_div_u16 { let n = choose(2) as usize; let a = sint(n, sgn(n)); let p = prim!(u16); dv!(true, a, a.clone(), p) }
    h_vu_add_u32 { let n = choose(3) as usize; ub!(n, u32, |a, p, b| a + b, forms_com!(+, +=, a, p)) }
    h_vu_sub_u32 { let n = choose(3) as usize; ub!(n, u32, |a, p, b| a - b, forms!(-, -=, a, p)) }
    h_vu_mul_u32 { let n = choose(3) as usize; ub!(n, u32, |a, p, b| a * b, forms_com!(*, *=, a, p)) }
    h_vu_and_u32 { let n = choose(3) as usize; ub!(n, u32, |a, p, b| a & b, forms_com!(&, &=, a, p)) }
    h_vu_or_u32 { let n = choose(3) as usize; ub!(n, u32, |a, p, b| a | b, forms_com!(|, |=, a, p)) }
    h_vu_xor_u32 { let n = choose(3) as usize; ub!(n, u32, |a, p, b| a ^ b, forms_com!(^, ^=, a, p)) }
    h_vu_andnot_u32 { let n = choose(3) as usize; ub!(n, u32, |a, p, b| a.and_not(b), forms_m!(and_not, a, p)) }
    h_vu_div_u32 { let n = choose(2) as usize; let a = snum(n); let p = prim!(u32); dv!(false, a, IBig::from(&a), p) }
    h_vi_add_u32 { let n = choose(3) as usize; ib!(n, u32, |a, p, b| a + b, forms_com!(+, +=, a, p)) }
    h_vi_sub_u32 { let n = choose(3) as usize; ib!(n, u32, |a, p, b| a - b, forms!(-, -=, a, p)) }
    h_vi_rsub_u32 { let n = choose(3) as usize; ib!(n, u32, |a, p, b| b - a, match choose(4) { 0 => p - a, 1 => p - &a, 2 => &p - a, _ => &p - &a }) }
    h_vi_mul_u32 { let n = choose(3) as usize; ib!(n, u32, |a, p, b| a * b, forms_com!(*, *=, a, p)) }
    h_vi_and_u32 { let n = choose(3) as usize; ib!(n, u32, |a, p, b| a & b, forms_com!(&, &=, a, p)) }
    h_vi_or_u32 { let n = choose(3) as usize; ib!(n, u32, |a, p, b| a | b, forms_com!(|, |=, a, p)) }
    h_vi_xor_u32 { let n = choose(3) as usize; ib!(n, u32, |a, p, b| a ^ b, forms_com!(^, ^=, a, p)) }
    h_vi_andnot_u32 { let n = choose(3) as usize; ib!(n, u32, |a, p, b| a.and_not(b), forms_m!(and_not, a, p)) }
    h_vi_div_u32 { let n = choose(2) as usize; let a = sint(n, sgn(n)); let p = prim!(u32); dv!(true, a, a.clone(), p) }
    h_vu_add_u64 { let n = choose(3) as usize; ub!(n, u64, |a, p, b| a + b, forms_com!(+, +=, a, p)) }
    h_vu_sub_u64 { let n = choose(3) as usize; ub!(n, u64, |a, p, b| a - b, forms!(-, -=, a, p)) }
    h_vu_mul_u64 { let n = choose(3) as usize; ub!(n, u64, |a, p, b| a * b, forms_com!(*, *=, a, p)) }
    h_vu_and_u64 { let n = choose(3) as usize; ub!(n, u64, |a, p, b| a & b, forms_com!(&, &=, a, p)) }
    h_vu_or_u64 { let n = choose(3) as usize; ub!(n, u64, |a, p, b| a | b, forms_com!(|, |=, a, p)) }
    h_vu_xor_u64 { let n = choose(3) as usize; ub!(n, u64, |a, p, b| a ^ b, forms_com!(^, ^=, a, p)) }
    h_vu_andnot_u64 { let n = choose(3) as usize; ub!(n, u64, |a, p, b| a.and_not(b), forms_m!(and_not, a, p)) }
    h_vu_div_u64 { let n = choose(2) as usize; let a = snum(n); let p = prim!(u64); dv!(false, a, IBig::from(&a), p) }
    h_vi_add_u64 { let n = choose(3) as usize; ib!(n, u64, |a, p, b| a + b, forms_com!(+, +=, a, p)) }
    h_vi_sub_u64 { let n = choose(3) as usize; ib!(n, u64, |a, p, b| a - b, forms!(-, -=, a, p)) }
    h_vi_rsub_u64 { let n = choose(3) as usize; ib!(n, u64, |a, p, b| b - a, match choose(4) { 0 => p - a, 1 => p - &a, 2 => &p - a, _ => &p - &a }) }
    h_vi_mul_u64 { let n = choose(3) as usize; ib!(n, u64, |a, p, b| a * b, forms_com!(*, *=, a, p)) }
    h_vi_and_u64 { let n = choose(3) as usize; ib!(n, u64, |a, p, b| a & b, forms_com!(&, &=, a, p)) }
    h_vi_or_u64 { let n = choose(3) as usize; ib!(n, u64, |a, p, b| a | b, forms_com!(|, |=, a, p)) }
    h_vi_xor_u64 { let n = choose(3) as usize; ib!(n, u64, |a, p, b| a ^ b, forms_com!(^, ^=, a, p)) }
    h_vi_andnot_u64 { let n = choose(3) as usize; ib!(n, u64, |a, p, b| a.and_not(b), forms_m!(and_not, a, p)) }
    h_vi_div_u64 { let n = choose(2) as usize; let a = sint(n, sgn(n)); let p = prim!(u64); dv!(true, a, a.clone(), p) }
    h_vu_add_u128 { let n = choose(3) as usize; ub!(n, u128, |a, p, b| a + b, forms_com!(+, +=, a, p)) }
    h_vu_sub_u128 { let n = choose(3) as usize; ub!(n, u128, |a, p, b| a - b, forms!(-, -=, a, p)) }
    h_vu_mul_u128 { let n = choose(3) as usize; ub!(n, u128, |a, p, b| a * b, forms_com!(*, *=, a, p)) }
    h_vu_and_u128 { let n = choose(3) as usize; ub!(n, u128, |a, p, b| a & b, forms_com!(&, &=, a, p)) }
    h_vu_or_u128 { let n = choose(3) as usize; ub!(n, u128, |a, p, b| a | b, forms_com!(|, |=, a, p)) }
    h_vu_xor_u128 { let n = choose(3) as usize; ub!(n, u128, |a, p, b| a ^ b, forms_com!(^, ^=, a, p)) }
    h_vu_andnot_u128 { let n = choose(3) as usize; ub!(n, u128, |a, p, b| a.and_not(b), forms_m!(and_not, a, p)) }
    h_vu_div_u128 { let n = choose(2) as usize; let a = snum(n); let p = prim!(u128); dv!(false, a, IBig::from(&a), p) }
    h_vi_add_u128 { let n = choose(3) as usize; ib!(n, u128, |a, p, b| a + b, forms_com!(+, +=, a, p)) }
    h_vi_sub_u128 { let n = choose(3) as usize; ib!(n, u128, |a, p, b| a - b, forms!(-, -=, a, p)) }
    h_vi_rsub_u128 { let n = choose(3) as usize; ib!(n, u128, |a, p, b| b - a, match choose(4) { 0 => p - a, 1 => p - &a, 2 => &p - a, _ => &p - &a }) }
    h_vi_mul_u128 { let n = choose(3) as usize; ib!(n, u128, |a, p, b| a * b, forms_com!(*, *=, a, p)) }
    h_vi_and_u128 { let n = choose(3) as usize; ib!(n, u128, |a, p, b| a & b, forms_com!(&, &=, a, p)) }
    h_vi_or_u128 { let n = choose(3) as usize; ib!(n, u128, |a, p, b| a | b, forms_com!(|, |=, a, p)) }
    h_vi_xor_u128 { let n = choose(3) as usize; ib!(n, u128, |a, p, b| a ^ b, forms_com!(^, ^=, a, p)) }
    h_vi_andnot_u128 { let n = choose(3) as usize; ib!(n, u128, |a, p, b| a.and_not(b), forms_m!(and_not, a, p)) }
    h_vi_div_u128 { let n = choose(2) as usize; let a = sint(n, sgn(n)); let p = prim!(u128); dv!(true, a, a.clone(), p) }
    h_vu_add_usize { let n = choose(3) as usize; ub!(n, usize, |a, p, b| a + b, forms_com!(+, +=, a, p)) }
    h_vu_sub_usize { let n = choose(3) as usize; ub!(n, usize, |a, p, b| a - b, forms!(-, -=, a, p)) }
    h_vu_mul_usize { let n = choose(3) as usize; ub!(n, usize, |a, p, b| a * b, forms_com!(*, *=, a, p)) }
    h_vu_and_usize { let n = choose(3) as usize; ub!(n, usize, |a, p, b| a & b, forms_com!(&, &=, a, p)) }
    h_vu_or_usize { let n = choose(3) as usize; ub!(n, usize, |a, p, b| a | b, forms_com!(|, |=, a, p)) }
    h_vu_xor_usize { let n = choose(3) as usize; ub!(n, usize, |a, p, b| a ^ b, forms_com!(^, ^=, a, p)) }
    h_vu_andnot_usize { let n = choose(3) as usize; ub!(n, usize, |a, p, b| a.and_not(b), forms_m!(and_not, a, p)) }
    h_vu_div_usize { let n = choose(2) as usize; let a = snum(n); let p = prim!(usize); dv!(false, a, IBig::from(&a), p) }
    h_vi_add_usize { let n = choose(3) as usize; ib!(n, usize, |a, p, b| a + b, forms_com!(+, +=, a, p)) }
    h_vi_sub_usize { let n = choose(3) as usize; ib!(n, usize, |a, p, b| a - b, forms!(-, -=, a, p)) }
    h_vi_rsub_usize { let n = choose(3) as usize; ib!(n, usize, |a, p, b| b - a, match choose(4) { 0 => p - a, 1 => p - &a, 2 => &p - a, _ => &p - &a }) }
    h_vi_mul_usize { let n = choose(3) as usize; ib!(n, usize, |a, p, b| a * b, forms_com!(*, *=, a, p)) }
    h_vi_and_usize { let n = choose(3) as usize; ib!(n, usize, |a, p, b| a & b, forms_com!(&, &=, a, p)) }
    h_vi_or_usize { let n = choose(3) as usize; ib!(n, usize, |a, p, b| a | b, forms_com!(|, |=, a, p)) }
    h_vi_xor_usize { let n = choose(3) as usize; ib!(n, usize, |a, p, b| a ^ b, forms_com!(^, ^=, a, p)) }
    h_vi_andnot_usize { let n = choose(3) as usize; ib!(n, usize, |a, p, b| a.and_not(b), forms_m!(and_not, a, p)) }
    h_vi_div_usize { let n = choose(2) as usize; let a = sint(n, sgn(n)); let p = prim!(usize); dv!(true, a, a.clone(), p) }
    h_vu_add_i8 { let n = choose(3) as usize; ub!(n, i8, |a, p, b| a + b, forms_com!(+, +=, a, p)) }
    h_vu_sub_i8 { let n = choose(3) as usize; ub!(n, i8, |a, p, b| a - b, forms!(-, -=, a, p)) }
    h_vu_mul_i8 { let n = choose(3) as usize; ub!(n, i8, |a, p, b| a * b, forms_com!(*, *=, a, p)) }
    h_vu_and_i8 { let n = choose(3) as usize; ub!(n, i8, |a, p, b| a & b, forms_com!(&, &=, a, p)) }
    h_vu_or_i8 { let n = choose(3) as usize; ub!(n, i8, |a, p, b| a | b, forms_com!(|, |=, a, p)) }
    h_vu_xor_i8 { let n = choose(3) as usize; ub!(n, i8, |a, p, b| a ^ b, forms_com!(^, ^=, a, p)) }
    h_vu_andnot_i8 { let n = choose(3) as usize; ub!(n, i8, |a, p, b| a.and_not(b), forms_m!(and_not, a, p)) }
    h_vu_div_i8 { let n = choose(2) as usize; let a = snum(n); let p = prim!(i8); dv!(false, a, IBig::from(&a), p) }
    h_vi_add_i8 { let n = choose(3) as usize; ib!(n, i8, |a, p, b| a + b, forms_com!(+, +=, a, p)) }
    h_vi_sub_i8 { let n = choose(3) as usize; ib!(n, i8, |a, p, b| a - b, forms!(-, -=, a, p)) }
    h_vi_rsub_i8 { let n = choose(3) as usize; ib!(n, i8, |a, p, b| b - a, match choose(4) { 0 => p - a, 1 => p - &a, 2 => &p - a, _ => &p - &a }) }
    h_vi_mul_i8 { let n = choose(3) as usize; ib!(n, i8, |a, p, b| a * b, forms_com!(*, *=, a, p)) }
    h_vi_and_i8 { let n = choose(3) as usize; ib!(n, i8, |a, p, b| a & b, forms_com!(&, &=, a, p)) }
    h_vi_or_i8 { let n = choose(3) as usize; ib!(n, i8, |a, p, b| a | b, forms_com!(|, |=, a, p)) }
    h_vi_xor_i8 { let n = choose(3) as usize; ib!(n, i8, |a, p, b| a ^ b, forms_com!(^, ^=, a, p)) }
    h_vi_andnot_i8 { let n = choose(3) as usize; ib!(n, i8, |a, p, b| a.and_not(b), forms_m!(and_not, a, p)) }
    h_vi_div_i8 { let n = choose(2) as usize; let a = sint(n, sgn(n)); let p = prim!(i8); dv!(true, a, a.clone(), p) }
    h_vu_add_i16 { let n = choose(3) as usize; ub!(n, i16, |a, p, b| a + b, forms_com!(+, +=, a, p)) }
    h_vu_sub_i16 { let n = choose(3) as usize; ub!(n, i16, |a, p, b| a - b, forms!(-, -=, a, p)) }
    h_vu_mul_i16 { let n = choose(3) as usize; ub!(n, i16, |a, p, b| a * b, forms_com!(*, *=, a, p)) }
    h_vu_and_i16 { let n = choose(3) as usize; ub!(n, i16, |a, p, b| a & b, forms_com!(&, &=, a, p)) }
    h_vu_or_i16 { let n = choose(3) as usize; ub!(n, i16, |a, p, b| a | b, forms_com!(|, |=, a, p)) }
    h_vu_xor_i16 { let n = choose(3) as usize; ub!(n, i16, |a, p, b| a ^ b, forms_com!(^, ^=, a, p)) }
    h_vu_andnot_i16 { let n = choose(3) as usize; ub!(n, i16, |a, p, b| a.and_not(b), forms_m!(and_not, a, p)) }
    h_vu_div_i16 { let n = choose(2) as usize; let a = snum(n); let p = prim!(i16); dv!(false, a, IBig::from(&a), p) }
    h_vi_add_i16 { let n = choose(3) as usize; ib!(n, i16, |a, p, b| a + b, forms_com!(+, +=, a, p)) }
    h_vi_sub_i16 { let n = choose(3) as usize; ib!(n, i16, |a, p, b| a - b, forms!(-, -=, a, p)) }
    h_vi_rsub_i16 { let n = choose(3) as usize; ib!(n, i16, |a, p, b| b - a, match choose(4) { 0 => p - a, 1 => p - &a, 2 => &p - a, _ => &p - &a }) }
    h_vi_mul_i16 { let n = choose(3) as usize; ib!(n, i16, |a, p, b| a * b, forms_com!(*, *=, a, p)) }
    h_vi_and_i16 { let n = choose(3) as usize; ib!(n, i16, |a, p, b| a & b, forms_com!(&, &=, a, p)) }
    h_vi_or_i16 { let n = choose(3) as usize; ib!(n, i16, |a, p, b| a | b, forms_com!(|, |=, a, p)) }
    h_vi_xor_i16 { let n = choose(3) as usize; ib!(n, i16, |a, p, b| a ^ b, forms_com!(^, ^=, a, p)) }
    h_vi_andnot_i16 { let n = choose(3) as usize; ib!(n, i16, |a, p, b| a.and_not(b), forms_m!(and_not, a, p)) }
    h_vi_div_i16 { let n = choose(2) as usize; let a = sint(n, sgn(n)); let p = prim!(i16); dv!(true, a, a.clone(), p) }
    h_vu_add_i32 { let n = choose(3) as usize; ub!(n, i32, |a, p, b| a + b, forms_com!(+, +=, a, p)) }
    h_vu_sub_i32 { let n = choose(3) as usize; ub!(n, i32, |a, p, b| a - b, forms!(-, -=, a, p)) }
    h_vu_mul_i32 { let n = choose(3) as usize; ub!(n, i32, |a, p, b| a * b, forms_com!(*, *=, a, p)) }
    h_vu_and_i32 { let n = choose(3) as usize; ub!(n, i32, |a, p, b| a & b, forms_com!(&, &=, a, p)) }
    h_vu_or_i32 { let n = choose(3) as usize; ub!(n, i32, |a, p, b| a | b, forms_com!(|, |=, a, p)) }
    h_vu_xor_i32 { let n = choose(3) as usize; ub!(n, i32, |a, p, b| a ^ b, forms_com!(^, ^=, a, p)) }
    h_vu_andnot_i32 { let n = choose(3) as usize; ub!(n, i32, |a, p, b| a.and_not(b), forms_m!(and_not, a, p)) }
    h_vu_div_i32 { let n = choose(2) as usize; let a = snum(n); let p = prim!(i32); dv!(false, a, IBig::from(&a), p) }
    h_vi_add_i32 { let n = choose(3) as usize; ib!(n, i32, |a, p, b| a + b, forms_com!(+, +=, a, p)) }
    h_vi_sub_i32 { let n = choose(3) as usize; ib!(n, i32, |a, p, b| a - b, forms!(-, -=, a, p)) }
    h_vi_rsub_i32 { let n = choose(3) as usize; ib!(n, i32, |a, p, b| b - a, match choose(4) { 0 => p - a, 1 => p - &a, 2 => &p - a, _ => &p - &a }) }
    h_vi_mul_i32 { let n = choose(3) as usize; ib!(n, i32, |a, p, b| a * b, forms_com!(*, *=, a, p)) }
    h_vi_and_i32 { let n = choose(3) as usize; ib!(n, i32, |a, p, b| a & b, forms_com!(&, &=, a, p)) }
    h_vi_or_i32 { let n = choose(3) as usize; ib!(n, i32, |a, p, b| a | b, forms_com!(|, |=, a, p)) }
    h_vi_xor_i32 { let n = choose(3) as usize; ib!(n, i32, |a, p, b| a ^ b, forms_com!(^, ^=, a, p)) }
    h_vi_andnot_i32 { let n = choose(3) as usize; ib!(n, i32, |a, p, b| a.and_not(b), forms_m!(and_not, a, p)) }
    h_vi_div_i32 { let n = choose(2) as usize; let a = sint(n, sgn(n)); let p = prim!(i32); dv!(true, a, a.clone(), p) }
    h_vu_add_i64 { let n = choose(3) as usize; ub!(n, i64, |a, p, b| a + b, forms_com!(+, +=, a, p)) }
    h_vu_sub_i64 { let n = choose(3) as usize; ub!(n, i64, |a, p, b| a - b, forms!(-, -=, a, p)) }
    h_vu_mul_i64 { let n = choose(3) as usize; ub!(n, i64, |a, p, b| a * b, forms_com!(*, *=, a, p)) }
    h_vu_and_i64 { let n = choose(3) as usize; ub!(n, i64, |a, p, b| a & b, forms_com!(&, &=, a, p)) }
    h_vu_or_i64 { let n = choose(3) as usize; ub!(n, i64, |a, p, b| a | b, forms_com!(|, |=, a, p)) }
    h_vu_xor_i64 { let n = choose(3) as usize; ub!(n, i64, |a, p, b| a ^ b, forms_com!(^, ^=, a, p)) }
    h_vu_andnot_i64 { let n = choose(3) as usize; ub!(n, i64, |a, p, b| a.and_not(b), forms_m!(and_not, a, p)) }
    h_vu_div_i64 { let n = choose(2) as usize; let a = snum(n); let p = prim!(i64); dv!(false, a, IBig::from(&a), p) }
    h_vi_add_i64 { let n = choose(3) as usize; ib!(n, i64, |a, p, b| a + b, forms_com!(+, +=, a, p)) }
    h_vi_sub_i64 { let n = choose(3) as usize; ib!(n, i64, |a, p, b| a - b, forms!(-, -=, a, p)) }
    h_vi_rsub_i64 { let n = choose(3) as usize; ib!(n, i64, |a, p, b| b - a, match choose(4) { 0 => p - a, 1 => p - &a, 2 => &p - a, _ => &p - &a }) }
    h_vi_mul_i64 { let n = choose(3) as usize; ib!(n, i64, |a, p, b| a * b, forms_com!(*, *=, a, p)) }
    h_vi_and_i64 { let n = choose(3) as usize; ib!(n, i64, |a, p, b| a & b, forms_com!(&, &=, a, p)) }
    h_vi_or_i64 { let n = choose(3) as usize; ib!(n, i64, |a, p, b| a | b, forms_com!(|, |=, a, p)) }
    h_vi_xor_i64 { let n = choose(3) as usize; ib!(n, i64, |a, p, b| a ^ b, forms_com!(^, ^=, a, p)) }
    h_vi_andnot_i64 { let n = choose(3) as usize; ib!(n, i64, |a, p, b| a.and_not(b), forms_m!(and_not, a, p)) }
    h_vi_div_i64 { let n = choose(2) as usize; let a = sint(n, sgn(n)); let p = prim!(i64); dv!(true, a, a.clone(), p) }
    h_vu_add_i128 { let n = choose(3) as usize; ub!(n, i128, |a, p, b| a + b, forms_com!(+, +=, a, p)) }
    h_vu_sub_i128 { let n = choose(3) as usize; ub!(n, i128, |a, p, b| a - b, forms!(-, -=, a, p)) }
    h_vu_mul_i128 { let n = choose(3) as usize; ub!(n, i128, |a, p, b| a * b, forms_com!(*, *=, a, p)) }
    h_vu_and_i128 { let n = choose(3) as usize; ub!(n, i128, |a, p, b| a & b, forms_com!(&, &=, a, p)) }
    h_vu_or_i128 { let n = choose(3) as usize; ub!(n, i128, |a, p, b| a | b, forms_com!(|, |=, a, p)) }
    h_vu_xor_i128 { let n = choose(3) as usize; ub!(n, i128, |a, p, b| a ^ b, forms_com!(^, ^=, a, p)) }
    h_vu_andnot_i128 { let n = choose(3) as usize; ub!(n, i128, |a, p, b| a.and_not(b), forms_m!(and_not, a, p)) }
    h_vu_div_i128 { let n = choose(2) as usize; let a = snum(n); let p = prim!(i128); dv!(false, a, IBig::from(&a), p) }
    h_vi_add_i128 { let n = choose(3) as usize; ib!(n, i128, |a, p, b| a + b, forms_com!(+, +=, a, p)) }
    h_vi_sub_i128 { let n = choose(3) as usize; ib!(n, i128, |a, p, b| a - b, forms!(-, -=, a, p)) }
    h_vi_rsub_i128 { let n = choose(3) as usize; ib!(n, i128, |a, p, b| b - a, match choose(4) { 0 => p - a, 1 => p - &a, 2 => &p - a, _ => &p - &a }) }
    h_vi_mul_i128 { let n = choose(3) as usize; ib!(n, i128, |a, p, b| a * b, forms_com!(*, *=, a, p)) }
    h_vi_and_i128 { let n = choose(3) as usize; ib!(n, i128, |a, p, b| a & b, forms_com!(&, &=, a, p)) }
    h_vi_or_i128 { let n = choose(3) as usize; ib!(n, i128, |a, p, b| a | b, forms_com!(|, |=, a, p)) }
    h_vi_xor_i128 { let n = choose(3) as usize; ib!(n, i128, |a, p, b| a ^ b, forms_com!(^, ^=, a, p)) }
    h_vi_andnot_i128 { let n = choose(3) as usize; ib!(n, i128, |a, p, b| a.and_not(b), forms_m!(and_not, a, p)) }
    h_vi_div_i128 { let n = choose(2) as usize; let a = sint(n, sgn(n)); let p = prim!(i128); dv!(true, a, a.clone(), p) }
    h_vu_add_isize { let n = choose(3) as usize; ub!(n, isize, |a, p, b| a + b, forms_com!(+, +=, a, p)) }
    h_vu_sub_isize { let n = choose(3) as usize; ub!(n, isize, |a, p, b| a - b, forms!(-, -=, a, p)) }
    h_vu_mul_isize { let n = choose(3) as usize; ub!(n, isize, |a, p, b| a * b, forms_com!(*, *=, a, p)) }
    h_vu_and_isize { let n = choose(3) as usize; ub!(n, isize, |a, p, b| a & b, forms_com!(&, &=, a, p)) }
    h_vu_or_isize { let n = choose(3) as usize; ub!(n, isize, |a, p, b| a | b, forms_com!(|, |=, a, p)) }
    h_vu_xor_isize { let n = choose(3) as usize; ub!(n, isize, |a, p, b| a ^ b, forms_com!(^, ^=, a, p)) }
    h_vu_andnot_isize { let n = choose(3) as usize; ub!(n, isize, |a, p, b| a.and_not(b), forms_m!(and_not, a, p)) }
    h_vu_div_isize { let n = choose(2) as usize; let a = snum(n); let p = prim!(isize); dv!(false, a, IBig::from(&a), p) }
    h_vi_add_isize { let n = choose(3) as usize; ib!(n, isize, |a, p, b| a + b, forms_com!(+, +=, a, p)) }
    h_vi_sub_isize { let n = choose(3) as usize; ib!(n, isize, |a, p, b| a - b, forms!(-, -=, a, p)) }
    h_vi_rsub_isize { let n = choose(3) as usize; ib!(n, isize, |a, p, b| b - a, match choose(4) { 0 => p - a, 1 => p - &a, 2 => &p - a, _ => &p - &a }) }
    h_vi_mul_isize { let n = choose(3) as usize; ib!(n, isize, |a, p, b| a * b, forms_com!(*, *=, a, p)) }
    h_vi_and_isize { let n = choose(3) as usize; ib!(n, isize, |a, p, b| a & b, forms_com!(&, &=, a, p)) }
    h_vi_or_isize { let n = choose(3) as usize; ib!(n, isize, |a, p, b| a | b, forms_com!(|, |=, a, p)) }
    h_vi_xor_isize { let n = choose(3) as usize; ib!(n, isize, |a, p, b| a ^ b, forms_com!(^, ^=, a, p)) }
    h_vi_andnot_isize { let n = choose(3) as usize; ib!(n, isize, |a, p, b| a.and_not(b), forms_m!(and_not, a, p)) }
    h_vi_div_isize { let n = choose(2) as usize; let a = sint(n, sgn(n)); let p = prim!(isize); dv!(true, a, a.clone(), p) }
}

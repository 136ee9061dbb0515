//! conversions to and from primitive integers and between the two kinds of numbers
use crate::vf::*;
use core::convert::TryFrom;
use ibig::{IBig, UBig};

macro_rules! conv {
    ($from:ident, $to:ident, $t:ty, $draw:expr, $int:path, $wide:ty, $signed:expr) => {
        pub fn $from() {
            let x: $t = $draw as $t;
            let v = $int(x as $wide);
            let neg = v.lt(Int::u(0));
            reach(1);
            iis(&IBig::from(x), v, 1);
            match UBig::try_from(IBig::from(x)) {
                Ok(u) => {
                    check(!neg, 3);
                    is(&u, v, 4);
                }
                Err(_) => check(neg, 5),
            }
            // round trip
            let y = <$t>::try_from(IBig::from(x));
            check(y == Ok(x), 6);
            let z = <$t>::try_from(&IBig::from(x));
            check(z == Ok(x), 7);
        }
        pub fn $to() {
            let n = choose(4) as usize;
            let neg = sgn(n);
            let a = sint(n, neg);
            let v = ival(&a);
            let lo = $int(<$t>::MIN as $wide);
            let hi = $int(<$t>::MAX as $wide);
            let fits = lo.le(v) & v.le(hi);
            reach(1);
            match <$t>::try_from(&a) {
                Ok(x) => {
                    check(fits, 1);
                    check($int(x as $wide).eq(v), 2);
                }
                Err(_) => check(!fits, 3),
            }
            if !neg {
                let u = imag(&a).clone();
                match <$t>::try_from(&u) {
                    Ok(x) => {
                        check(fits, 4);
                        check($int(x as $wide).eq(v), 5);
                    }
                    Err(_) => check(!fits, 6),
                }
                match <$t>::try_from(u) {
                    Ok(x) => {
                        check(fits, 7);
                        check($int(x as $wide).eq(v), 8);
                    }
                    Err(_) => check(!fits, 9),
                }
            }
            match <$t>::try_from(a) {
                Ok(x) => {
                    check(fits, 10);
                    check($int(x as $wide).eq(v), 11);
                }
                Err(_) => check(!fits, 12),
            }
        }
    };
}
macro_rules! ufrom {
    ($f:ident, $t:ty, $draw:expr) => {
        fn $f() {
            let x: $t = $draw as $t;
            reach(1);
            is(&UBig::from(x), Int::u128(x as u128), 1);
        }
    };
}
macro_rules! itry {
    ($f:ident, $t:ty, $draw:expr) => {
        fn $f() {
            let x: $t = $draw as $t;
            reach(1);
            match UBig::try_from(x) {
                Ok(u) => {
                    check(x >= 0, 1);
                    is(&u, Int::i128(x as i128), 2);
                }
                Err(_) => check(x < 0, 3),
            }
        }
    };
}
conv!(f_u8, t_u8, u8, sym(8), Int::u128, u128, false);
conv!(f_u16, t_u16, u16, sym(16), Int::u128, u128, false);
conv!(f_u32, t_u32, u32, sym(32), Int::u128, u128, false);
conv!(f_u64, t_u64, u64, sym(64), Int::u128, u128, false);
conv!(f_us, t_us, usize, sym(64), Int::u128, u128, false);
conv!(f_u128, t_u128, u128, su128(), Int::u128, u128, false);
conv!(f_i8, t_i8, i8, sym(8), Int::i128, i128, true);
conv!(f_i16, t_i16, i16, sym(16), Int::i128, i128, true);
conv!(f_i32, t_i32, i32, sym(32), Int::i128, i128, true);
conv!(f_i64, t_i64, i64, sym(64), Int::i128, i128, true);
conv!(f_is, t_is, isize, sym(64), Int::i128, i128, true);
conv!(f_i128, t_i128, i128, su128(), Int::i128, i128, true);
ufrom!(uf_u8, u8, sym(8));
ufrom!(uf_u16, u16, sym(16));
ufrom!(uf_u32, u32, sym(32));
ufrom!(uf_u64, u64, sym(64));
ufrom!(uf_us, usize, sym(64));
ufrom!(uf_u128, u128, su128());
itry!(ut_i8, i8, sym(8));
itry!(ut_i16, i16, sym(16));
itry!(ut_i32, i32, sym(32));
itry!(ut_i64, i64, sym(64));
itry!(ut_is, isize, sym(64));
itry!(ut_i128, i128, su128());
h! {
    h_from_u { match choose(6) { 0 => uf_u8(), 1 => uf_u16(), 2 => uf_u32(), 3 => uf_u64(), 4 => uf_us(), _ => uf_u128() } }
    h_utry_i { match choose(6) { 0 => ut_i8(), 1 => ut_i16(), 2 => ut_i32(), 3 => ut_i64(), 4 => ut_is(), _ => ut_i128() } }
    h_ifrom_u { match choose(6) { 0 => f_u8(), 1 => f_u16(), 2 => f_u32(), 3 => f_u64(), 4 => f_us(), _ => f_u128() } }
    h_ifrom_i { match choose(6) { 0 => f_i8(), 1 => f_i16(), 2 => f_i32(), 3 => f_i64(), 4 => f_is(), _ => f_i128() } }
    h_to_u8 { t_u8() }
    h_to_u16 { t_u16() }
    h_to_u32 { t_u32() }
    h_to_u64 { t_u64() }
    h_to_usize { t_us() }
    h_to_u128 { t_u128() }
    h_to_i8 { t_i8() }
    h_to_i16 { t_i16() }
    h_to_i32 { t_i32() }
    h_to_i64 { t_i64() }
    h_to_isize { t_is() }
    h_to_i128 { t_i128() }
    h_from_bool {
        let b = sbool();
        reach(1);
        is(&UBig::from(b), Int::u(b as u64), 1);
        iis(&IBig::from(b), Int::u(b as u64), 2);
    }
    h_ubig_ibig {
        let n = choose(4) as usize;
        let neg = sgn(n);
        let a = sint(n, neg);
        let m = imag(&a).clone();
        let v = val(&m);
        reach(1);
        iis(&IBig::from(&m), v, 1);
        iis(&IBig::from(m.clone()), v, 2);
        match UBig::try_from(&a) {
            Ok(u) => { check(!neg, 3); same(&u, &m, 4); }
            Err(_) => check(neg, 5),
        }
        match UBig::try_from(a) {
            Ok(u) => { check(!neg, 6); same(&u, &m, 7); }
            Err(_) => check(neg, 8),
        }
    }
}

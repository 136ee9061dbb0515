//! sign functions and the num-traits interface
use crate::vf::*;
use ibig::ops::{Abs, UnsignedAbs};
use ibig::{IBig, UBig};
use num_traits::{Num, One, Pow, Signed, Unsigned, Zero};

fn is_unsigned<T: Unsigned>(_: &T) {}
h! {
    h_neg_abs {
        let n = choose(4) as usize;
        let neg = sgn(n);
        let a = sint(n, neg);
        let v = ival(&a);
        let m = val(imag(&a));
        reach(1);
        iis(&-&a, neg_int(v), 1);
        iis(&-a.clone(), neg_int(v), 2);
        iis(&Abs::abs(&a), m, 3);
        iis(&Abs::abs(a.clone()), m, 4);
        is(&(&a).unsigned_abs(), m, 5);
        is(&a.clone().unsigned_abs(), m, 6);
        let s = if n == 0 { 0 } else if neg { -1 } else { 1 };
        iis(&a.signum(), Int::i(s), 7);
        isame(&-(-&a), &a, 8);
    }
    h_signed {
        let n = choose(4) as usize;
        let neg = sgn(n);
        let a = sint(n, neg);
        let m = val(imag(&a));
        reach(1);
        iis(&Signed::abs(&a), m, 1);
        let s = if n == 0 { 0 } else if neg { -1 } else { 1 };
        iis(&Signed::signum(&a), Int::i(s), 2);
        check(Signed::is_positive(&a) == (s > 0), 3);
        check(Signed::is_negative(&a) == (s < 0), 4);
    }
    h_abs_sub {
        let n = choose(3) as usize;
        let m = choose(3) as usize;
        let a = sibig(n);
        let b = sibig(m);
        let (x, y) = (ival(&a), ival(&b));
        reach(1);
        let d = Signed::abs_sub(&a, &b);
        icanon(&d, 1);
        if x.le(y) {
            check(ival(&d).eq(Int::u(0)), 2);
        } else {
            check(ival(&d).eq(x - y), 3);
        }
    }
    h_zero_one {
        let n = choose(4) as usize;
        let a = sibig(n);
        let v = ival(&a);
        let m = val(imag(&a));
        reach(1);
        check(Zero::is_zero(&a) == (n == 0), 1);
        check(Zero::is_zero(imag(&a)) == (n == 0), 2);
        iis(&<IBig as Zero>::zero(), Int::u(0), 3);
        is(&<UBig as Zero>::zero(), Int::u(0), 4);
        iis(&<IBig as One>::one(), Int::u(1), 5);
        is(&<UBig as One>::one(), Int::u(1), 6);
        check(One::is_one(&a) == v.eq(Int::u(1)), 7);
        check(One::is_one(imag(&a)) == m.eq(Int::u(1)), 8);
        is_unsigned(imag(&a));
    }
    h_nt_pow {
        let neg = choose(2) == 1;
        let e = choose(4) as usize;
        let a = sint(1, neg);
        let v = ival(&a);
        let m = val(imag(&a));
        let (mut p, mut q) = (Int::u(1), Int::u(1));
        for _ in 0..e {
            p = p * v;
            q = q * m;
        }
        reach(1);
        iis(&Pow::pow(&a, e), p, 1);
        iis(&Pow::pow(a.clone(), e), p, 2);
        is(&Pow::pow(imag(&a), e), q, 3);
        is(&Pow::pow(imag(&a).clone(), e), q, 4);
    }
    h_nt_parse {
        // the trait method is the inherent one
        let r = [2u32, 10, 16][choose(3) as usize];
        let mut b = [0u8; 3];
        for k in 0..3 {
            b[k] = su8() & 0x7f;
        }
        reach(1);
        let s = match core::str::from_utf8(&b) { Ok(s) => s, Err(_) => return };
        let x = <IBig as Num>::from_str_radix(s, r);
        let y = IBig::from_str_radix(s, r);
        match (x, y) {
            (Ok(x), Ok(y)) => isame(&x, &y, 1),
            (Err(x), Err(y)) => check(x == y, 2),
            _ => check(false, 3),
        }
    }
}

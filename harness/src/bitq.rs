//! bit queries and single-bit updates
use crate::vf::*;
use ibig::ops::NextPowerOfTwo;
use ibig::IBig;

fn wbit(w: Word, k: usize) -> bool {
    (w >> k) & 1 != 0
}
h! {
    h_bit {
        let n = choose(4) as usize;
        let i = choose(4) as usize * WBU + [0, 1, WBU / 2, WBU - 1][choose(4) as usize];
        let a = snum(n);
        reach(1);
        check(a.bit(i) == wbit(wk(&a, i / WBU), i % WBU), 1);
    }
    h_bit_sym {
        // any position
        let n = choose(4) as usize;
        let a = snum(n);
        let i = sym(64) as usize;
        reach(1);
        let r = a.bit(i);
        if i >= n * WBU {
            check(!r, 1);
        } else {
            let mut e = false;
            for k in 0..n {
                if i / WBU == k {
                    e = wbit(wk(&a, k), i % WBU);
                }
            }
            check(r == e, 2);
        }
    }
    h_set_bit {
        let n = choose(4) as usize;
        let i = choose(5) as usize * WBU + [0, 1, WBU / 2, WBU - 1][choose(4) as usize];
        let a = snum(n);
        reach(1);
        let mut b = a.clone();
        b.set_bit(i);
        canon(&b, 1);
        let l = n.max(i / WBU + 1);
        check(ubig_len(&b) == l, 2);
        for k in 0..l {
            let e = if k == i / WBU { (1 as Word) << (i % WBU) } else { 0 };
            check(wk(&b, k) == wk(&a, k) | e, 3);
        }
    }
    h_clear_bit {
        let n = choose(4) as usize;
        let i = choose(5) as usize * WBU + [0, 1, WBU / 2, WBU - 1][choose(4) as usize];
        let a = snum(n);
        reach(1);
        let mut b = a.clone();
        b.clear_bit(i);
        canon(&b, 1);
        check(ubig_len(&b) <= n, 2);
        for k in 0..n {
            let e = if k == i / WBU { (1 as Word) << (i % WBU) } else { 0 };
            check(wk(&b, k) == wk(&a, k) & !e, 3);
        }
    }
    h_clear_bit_huge {
        let n = choose(4) as usize;
        let a = snum(n);
        let mut b = a.clone();
        reach(1);
        b.clear_bit(usize::MAX - choose(2) as usize);
        same(&b, &a, 1);
    }
    h_trailing_zeros {
        let n = choose(5) as usize;
        let neg = sgn(n);
        let a = sint(n, neg);
        reach(1);
        let m = imag(&a).clone();
        let r = m.trailing_zeros();
        check(r == a.trailing_zeros(), 1);
        match r {
            None => check(n == 0, 2),
            Some(t) => {
                check(t < n * WBU, 3);
                // bit t is set and everything below is clear
                for k in 0..n {
                    let w = wk(&m, k);
                    if t >= (k + 1) * WBU {
                        check(w == 0, 4);
                    } else if t >= k * WBU {
                        let s = t - k * WBU;
                        check((w >> s) & 1 == 1, 5);
                        check(w & (((1 as Word) << s) - 1) == 0, 6);
                    }
                }
            }
        }
    }
    h_bit_len {
        let n = choose(5) as usize;
        let a = snum(n);
        reach(1);
        let l = a.bit_len();
        if n == 0 {
            check(l == 0, 1);
        } else {
            check(l > (n - 1) * WBU, 2);
            check(l <= n * WBU, 3);
            let s = l - (n - 1) * WBU - 1;
            check(wk(&a, n - 1) >> s == 1, 4);
        }
    }
    h_is_pow2 {
        let n = choose(5) as usize;
        let a = snum(n);
        reach(1);
        let mut e = n > 0;
        if n > 0 {
            for k in 0..n - 1 {
                e = e & (wk(&a, k) == 0);
            }
            let t = wk(&a, n - 1);
            e = e & (t & t.wrapping_sub(1) == 0);
        }
        check(a.is_power_of_two() == e, 1);
    }
    h_next_pow2 {
        let n = choose(4) as usize;
        let form = choose(2);
        let a = snum(n);
        let v = val(&a);
        reach(1);
        let p = if form == 0 { (&a).next_power_of_two() } else { a.clone().next_power_of_two() };
        canon(&p, 1);
        // p is a power of two
        let l = ubig_len(&p);
        check(l >= 1 && l <= n + 1, 2);
        for k in 0..l - 1 {
            check(wk(&p, k) == 0, 3);
        }
        let t = wk(&p, l - 1);
        check(t & t.wrapping_sub(1) == 0, 4);
        // the smallest one not below a
        check(v.le(val(&p)), 5);
        check((n == 0) | (l == 1 && t == 1) | val(&p).lt(v + v), 6);
    }
    h_next_pow2_spare {
        // in a buffer without room for one more word
        let a = snum(4) >> WBU;
        let v = val(&a);
        reach(1);
        let p = a.next_power_of_two();
        canon(&p, 1);
        check(v.le(val(&p)), 2);
        check(val(&p).lt(v + v), 3);
    }
    h_set_clear {
        let n = choose(4) as usize;
        let i = choose(5) as usize * WBU + 3;
        let a = snum(n);
        reach(1);
        let mut b = a.clone();
        b.set_bit(i);
        check(b.bit(i), 1);
        if !a.bit(i) {
            b.clear_bit(i);
            same(&b, &a, 2);
        }
        let _ = IBig::from(b);
    }
}

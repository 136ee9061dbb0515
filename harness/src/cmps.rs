//! canonical form, equality, order, hash
use crate::vf::*;
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
use ibig::{IBig, UBig};

fn ord_ok(o: Ordering, x: Int, y: Int, id: u32) {
    match o {
        Ordering::Less => check(x.lt(y), id),
        Ordering::Equal => check(x.eq(y), id),
        Ordering::Greater => check(y.lt(x), id),
    }
}
/// records everything the code feeds to it
struct H {
    s: [u64; 64],
    n: usize,
}
impl H {
    fn put(&mut self, x: u64) {
        if self.n < 64 {
            self.s[self.n] = x;
        }
        self.n += 1;
    }
}
impl Hasher for H {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.put(b.len() as u64 | 1 << 63);
        let mut k = 0;
        while k + 8 <= b.len() {
            let mut x = [0u8; 8];
            for j in 0..8 {
                x[j] = b[k + j];
            }
            self.put(u64::from_le_bytes(x));
            k += 8;
        }
        while k < b.len() {
            self.put(b[k] as u64);
            k += 1;
        }
    }
    fn write_u8(&mut self, x: u8) { self.put(x as u64) }
    fn write_u16(&mut self, x: u16) { self.put(x as u64) }
    fn write_u32(&mut self, x: u32) { self.put(x as u64) }
    fn write_u64(&mut self, x: u64) { self.put(x) }
    fn write_usize(&mut self, x: usize) { self.put(x as u64) }
}
fn hash_same<T: Hash>(x: &T, y: &T, id: u32) {
    let mut a = H { s: [0; 64], n: 0 };
    let mut b = H { s: [0; 64], n: 0 };
    x.hash(&mut a);
    y.hash(&mut b);
    check(a.n == b.n, id);
    check(a.n < 64, id);
    for k in 0..a.n {
        check(a.s[k] == b.s[k], id);
    }
}
fn ucmp(n: usize, m: usize) {
    let a = snum(n);
    let b = snum(m);
    let (x, y) = (val(&a), val(&b));
    reach(1);
    ord_ok(a.cmp(&b), x, y, 1);
    match a.partial_cmp(&b) {
        None => check(false, 2),
        Some(o) => ord_ok(o, x, y, 2),
    }
    check((a == b) == x.eq(y), 3);
    check((a != b) == !x.eq(y), 4);
    check((a < b) == x.lt(y), 5);
    check((a <= b) == x.le(y), 6);
    check((a > b) == y.lt(x), 7);
    check((a >= b) == y.le(x), 8);
}
fn icmp(n: usize, m: usize) {
    let a = sibig(n);
    let b = sibig(m);
    let (x, y) = (ival(&a), ival(&b));
    reach(1);
    ord_ok(a.cmp(&b), x, y, 1);
    match a.partial_cmp(&b) {
        None => check(false, 2),
        Some(o) => ord_ok(o, x, y, 2),
    }
    check((a == b) == x.eq(y), 3);
    check((a != b) == !x.eq(y), 4);
}
h! {
    h_ucmp { let n = choose(4) as usize; let m = choose(4) as usize; ucmp(n, m) }
    h_ucmp_6_6 { ucmp(6, 6) }
    h_icmp { let n = choose(4) as usize; let m = choose(4) as usize; icmp(n, m) }
    h_iord_ops {
        let n = choose(3) as usize;
        let m = choose(3) as usize;
        let a = sibig(n);
        let b = sibig(m);
        let (x, y) = (ival(&a), ival(&b));
        reach(1);
        check((a < b) == x.lt(y), 5);
        check((a <= b) == x.le(y), 6);
        check((a > b) == y.lt(x), 7);
        check((a >= b) == y.le(x), 8);
    }
    h_normalize {
        // numbers built from words with any leading zeros are canonical and keep their value
        let n = choose(6) as usize;
        let mut w = [0 as Word; 5];
        for k in 0..n {
            w[k] = sword();
        }
        reach(1);
        let a = cnum(&w[..n]);
        is(&a, Int::words(&w[..n]), 1);
        let b = a.clone();
        same(&a, &b, 2);
        check(a == b, 3);
    }
    h_clone {
        let n = choose(5) as usize;
        let a = sibig(n);
        reach(1);
        let b = a.clone();
        isame(&a, &b, 1);
        icanon(&b, 2);
        let u: UBig = imag(&a).clone();
        same(&u, imag(&a), 3);
        hash_same(&a, &b, 4);
        hash_same(&u, imag(&a), 5);
    }
    h_clone_from {
        // reuse of the destination buffer, growing and shrinking
        let n = choose(6) as usize;
        let m = choose(6) as usize;
        let a = sibig(n);
        let mut b = sibig(m);
        reach(1);
        b.clone_from(&a);
        isame(&a, &b, 1);
        icanon(&b, 2);
        let mut c = snum(m);
        c.clone_from(imag(&a));
        same(&c, imag(&a), 3);
        canon(&c, 4);
    }
    h_hash_eq {
        // the same value reached through different computations is equal and hashes equally
        let n = choose(3) as usize;
        let m = choose(4) as usize;
        let a = sibig(n);
        let b = sibig(m);
        reach(1);
        let c = (&a + &b) - &b;
        check(c == a, 1);
        check(a == c, 2);
        check(a.cmp(&c) == Ordering::Equal, 3);
        hash_same(&a, &c, 4);
        let u = (imag(&a) << (2 * WBU + 3)) >> (2 * WBU + 3);
        check(u == *imag(&a), 5);
        hash_same(&u, imag(&a), 6);
    }
    h_zero_unique {
        // every zero is the same value, whatever produced it
        let n = choose(4) as usize;
        let a = sibig(n);
        reach(1);
        let z = &a - &a;
        let z0 = IBig::from(0u8);
        check(z == z0, 1);
        icanon(&z, 2);
        check(-&z == z0, 3);
        icanon(&-&z, 4);
        icanon(&(-z), 5);
        hash_same(&(&a ^ &a), &z0, 6);
        let u = imag(&a).clone();
        check(&u ^ &u == UBig::from(0u8), 7);
        icanon(&(IBig::from(&u ^ &u)), 8);
        check(IBig::default() == z0, 9);
        check(UBig::default() == UBig::from(0u8), 10);
    }
}

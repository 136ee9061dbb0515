//! printing and parsing
use crate::vf::*;
use core::fmt::Write;
use ibig::verif::Word;
use ibig::{IBig, UBig};

/// text sink
struct W {
    b: [u8; 400],
    n: usize,
}
impl W {
    fn new() -> W {
        W { b: [0; 400], n: 0 }
    }
    fn s(&self) -> &str {
        unsafe { core::str::from_utf8_unchecked(&self.b[..self.n]) }
    }
}
impl Write for W {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let t = s.as_bytes();
        self.b[self.n..self.n + t.len()].copy_from_slice(t);
        self.n += t.len();
        Ok(())
    }
}
/// the value of a digit character, branch-free
fn dc(c: u8, upper: bool) -> u8 {
    let base = if upper { b'A' } else { b'a' };
    let d = c.wrapping_sub(b'0');
    let l = c.wrapping_sub(base).wrapping_add(10);
    let m = ((c > b'9') as u8).wrapping_neg();
    (d & !m) | (l & m)
}
/// the text of a magnitude: its exact digits, no leading zero
fn digits(t: &[u8], x: &UBig, r: u64, upper: bool, id: u32) {
    check(t.len() != 0, id);
    let last = if r <= 10 { b'0' + r as u8 - 1 } else { b'9' };
    let (lo, hi) = if upper { (b'A', b'A' + (r as u8).max(10) - 10) } else { (b'a', b'a' + (r as u8).max(10) - 10) };
    let mut ok = true;
    for &c in t {
        ok &= (c >= b'0') & (c <= last) | (c >= lo) & (c < hi);
    }
    check(ok, id + 1);
    if t.len() > 1 {
        check(t[0] != b'0', id + 2);
    }
    if r & (r - 1) == 0 {
        // bits of each digit in their place
        let log = r.trailing_zeros();
        let mut w = [0 as Word; 20];
        let mut pos = 0;
        for &c in t.iter().rev() {
            let d = dc(c, upper) as Word;
            let (k, s) = ((pos / WB) as usize, pos % WB);
            w[k] |= d << s;
            if s + log > WB {
                w[k + 1] |= d >> (WB - s);
            }
            pos += log;
        }
        for k in 0..20 {
            check(w[k] == if k < ubig_len(x) { wk(x, k) } else { 0 }, id + 3);
        }
    } else {
        let mut s = Int::u(0);
        for &c in t {
            s = s * Int::u(r) + Int::u(if r <= 10 { c.wrapping_sub(b'0') } else { dc(c, upper) } as u64);
        }
        check(s.eq(val(x)), id + 3);
    }
}
fn radix(n: usize, r: u64) {
    if r & (r - 1) == 0 {
        split(65);
    }
    let a = snum(n);
    let mut w = W::new();
    let ok = write!(w, "{}", a.in_radix(r as u32));
    reach(1);
    check(ok.is_ok(), 1);
    digits(&w.b[..w.n], &a, r, false, 2);
}
fn radix_part(n: usize, r: u64, p: u64, k: usize) {
    let a = crate::muls::partial(n, p, k, k);
    let mut w = W::new();
    let ok = write!(w, "{}", a.in_radix(r as u32));
    reach(1);
    check(ok.is_ok(), 1);
    digits(&w.b[..w.n], &a, r, false, 2);
}
fn radix_upper(n: usize, r: u64) {
    if r & (r - 1) == 0 {
        split(65);
    }
    let a = snum(n);
    let mut w = W::new();
    let ok = write!(w, "{:#}", a.in_radix(r as u32));
    reach(1);
    check(ok.is_ok(), 1);
    digits(&w.b[..w.n], &a, r, true, 2);
}
fn round(n: usize, r: u64) {
    if r & (r - 1) == 0 {
        split(65);
    }
    let a = snum(n);
    let mut w = W::new();
    let _ = write!(w, "{}", a.in_radix(r as u32));
    reach(1);
    match UBig::from_str_radix(w.s(), r as u32) {
        Ok(b) => same(&a, &b, 1),
        Err(_) => check(false, 2),
    }
}
/// signed numbers and the prefixed forms
fn iround(n: usize, kind: u64) {
    if kind != 0 {
        split(65);
    }
    let a = sibig(n);
    let mut w = W::new();
    let _ = match kind {
        0 => write!(w, "{}", a),
        1 => write!(w, "{:#x}", a),
        2 => write!(w, "{:#X}", a),
        3 => write!(w, "{:#o}", a),
        _ => write!(w, "{:#b}", a),
    };
    reach(1);
    let b = if kind == 0 { w.s().parse::<IBig>() } else { IBig::from_str_with_radix_prefix(w.s()) };
    match b {
        Ok(b) => isame(&a, &b, 1),
        Err(_) => check(false, 2),
    }
}
/// the text with sign, prefix and padding that the flags ask for
struct Lay {
    plus: bool,
    zero: bool,
    align: u8, // 0 default, 1 left, 2 centre, 3 right
    fill: &'static str,
    prefix: &'static str,
}
fn layout(out: &W, d: &W, neg: bool, l: Lay, width: usize) {
    let mut e = W::new();
    let sign = if neg { "-" } else if l.plus { "+" } else { "" };
    let len = d.n + sign.len() + l.prefix.len();
    let pad = if width > len { width - len } else { 0 };
    let left = if l.zero { 0 } else { match l.align { 1 => 0, 2 => pad / 2, _ => pad } };
    for _ in 0..left {
        let _ = e.write_str(l.fill);
    }
    let _ = e.write_str(sign);
    let _ = e.write_str(l.prefix);
    if l.zero {
        for _ in 0..pad {
            let _ = e.write_str("0");
        }
    }
    let _ = e.write_str(d.s());
    if !l.zero {
        for _ in left..pad {
            let _ = e.write_str(l.fill);
        }
    }
    check(out.n == e.n, 20);
    for k in 0..e.n {
        check(out.b[k] == e.b[k], 21);
    }
}
macro_rules! flags {
    ($x:ident, $r:expr, $up:expr, $neg:expr, $mag:expr, $($lit:literal $plus:literal $zero:literal $align:literal $fill:literal $prefix:literal,)*) => {{
        let width = [0usize, 1, 2, 4, 5, 6, 7, 9, 24][choose(9) as usize];
        let mut d = W::new();
        let _ = if $up { write!(d, "{:#}", $mag.in_radix($r)) } else { write!(d, "{}", $mag.in_radix($r)) };
        let mut k = 0u64;
        $( k += 1; let _ = $lit; )*
        let c = choose(k);
        let mut k = 0u64;
        reach(1);
        $( if c == k {
            let mut w = W::new();
            let ok = write!(w, $lit, $x, w = width);
            check(ok.is_ok(), 10);
            layout(&w, &d, $neg, Lay { plus: $plus, zero: $zero, align: $align, fill: $fill, prefix: $prefix }, width);
        } k += 1; )*
        let _ = k;
    }};
}
macro_rules! dec { ($x:ident, $neg:expr, $mag:expr) => { flags!($x, 10, false, $neg, $mag,
    "{:w$}" false false 0 " " "",
    "{:<w$}" false false 1 " " "",
    "{:^w$}" false false 2 " " "",
    "{:>w$}" false false 3 " " "",
    "{:+w$}" true false 0 " " "",
    "{:*^+w$}" true false 2 "*" "",
    "{:é<w$}" false false 1 "é" "",
    "{:0w$}" false true 0 " " "",
    "{:+0w$}" true true 0 " " "",
    "{:<0w$}" false true 1 " " "",
    "{:^#w$}" false false 2 " " "",
    "{:w$?}" false false 0 " " "",
    "{:0<+w$?}" true false 1 "0" "",
) } }
macro_rules! hex { ($x:ident, $neg:expr, $mag:expr) => { flags!($x, 16, false, $neg, $mag,
    "{:w$x}" false false 0 " " "",
    "{:#w$x}" false false 0 " " "0x",
    "{:#0w$x}" false true 0 " " "0x",
    "{:_^+#w$x}" true false 2 "_" "0x",
    "{:<+#w$x}" true false 1 " " "0x",
    "{:+0w$x}" true true 0 " " "",
) } }
macro_rules! upp { ($x:ident, $neg:expr, $mag:expr) => { flags!($x, 16, true, $neg, $mag,
    "{:w$X}" false false 0 " " "",
    "{:#w$X}" false false 0 " " "0x",
    "{:#0w$X}" false true 0 " " "0x",
    "{:0^+#w$X}" true false 2 "0" "0x",
) } }
macro_rules! oct { ($x:ident, $neg:expr, $mag:expr) => { flags!($x, 8, false, $neg, $mag,
    "{:w$o}" false false 0 " " "",
    "{:#w$o}" false false 0 " " "0o",
    "{:+#0w$o}" true true 0 " " "0o",
    "{:z^#w$o}" false false 2 "z" "0o",
) } }
macro_rules! bin { ($x:ident, $neg:expr, $mag:expr) => { flags!($x, 2, false, $neg, $mag,
    "{:w$b}" false false 0 " " "",
    "{:#w$b}" false false 0 " " "0b",
    "{:+#0w$b}" true true 0 " " "0b",
    "{:é^#w$b}" false false 2 "é" "0b",
) } }
macro_rules! rad { ($x:ident, $r:expr, $neg:expr, $mag:expr) => {{ let x = $x.in_radix($r); flags!(x, $r, false, $neg, $mag,
    "{:w$}" false false 0 " " "",
    "{:+0w$}" true true 0 " " "",
    "{:^w$}" false false 2 " " "",
) }} }
macro_rules! radup { ($x:ident, $r:expr, $neg:expr, $mag:expr) => {{ let x = $x.in_radix($r); flags!(x, $r, true, $neg, $mag,
    "{:#w$}" false false 0 " " "",
    "{:+#0w$}" true true 0 " " "",
    "{:?<#w$}" false false 1 "?" "",
) }} }
fn fl(kind: u64, n: usize) {
    if [1, 2, 3, 4, 8].contains(&kind) {
        split(65);
    }
    let x = sibig(n);
    let neg = isneg(&x);
    let m = imag(&x);
    if choose(2) == 0 {
        match kind {
            0 => dec!(x, neg, m),
            1 => hex!(x, neg, m),
            2 => upp!(x, neg, m),
            3 => oct!(x, neg, m),
            4 => bin!(x, neg, m),
            5 => rad!(x, 7, neg, m),
            6 => rad!(x, 36, neg, m),
            7 => radup!(x, 36, neg, m),
            _ => radup!(x, 32, neg, m),
        }
    } else {
        assume(!neg);
        match kind {
            0 => dec!(m, false, m),
            1 => hex!(m, false, m),
            2 => upp!(m, false, m),
            3 => oct!(m, false, m),
            4 => bin!(m, false, m),
            5 => rad!(m, 7, false, m),
            6 => rad!(m, 36, false, m),
            7 => radup!(m, 36, false, m),
            _ => radup!(m, 32, false, m),
        }
    }
}
fn invalid_radix() {
    let r = su32();
    let valid = (r >= 2) & (r <= 36);
    reach(1);
    allow_panic(!valid);
    let u = UBig::from(5u8);
    let i = IBig::from(-5);
    match choose(5) {
        0 => { let _ = u.in_radix(r); }
        1 => { let _ = i.in_radix(r); }
        2 => { let _ = UBig::from_str_radix("", r); }
        3 => { let _ = IBig::from_str_radix("", r); }
        _ => { let _ = IBig::from_str_radix("-", r); }
    }
    check(valid, 1);
}
/// value of an unsigned numeral; None if it is not one
fn numeral(s: &[u8], r: u64) -> Option<Int> {
    if s.len() == 0 {
        return None;
    }
    let mut v = Int::u(0);
    for &c in s {
        let d = if c >= b'0' && c <= b'9' {
            c - b'0'
        } else if c >= b'a' && c <= b'z' {
            c - b'a' + 10
        } else if c >= b'A' && c <= b'Z' {
            c - b'A' + 10
        } else {
            255
        };
        if d as u64 >= r {
            return None;
        }
        v = v * Int::u(r) + Int::u(d as u64);
    }
    Some(v)
}
fn uis<E>(x: Result<UBig, E>, v: Option<Int>, id: u32) {
    match (x, v) {
        (Ok(x), Some(v)) => is(&x, v, id),
        (Err(_), None) => {}
        (Ok(_), None) => check(false, id + 1),
        (Err(_), Some(_)) => check(false, id + 2),
    }
}
fn iis2<E>(x: Result<IBig, E>, neg: bool, v: Option<Int>, id: u32) {
    match (x, v) {
        (Ok(x), Some(v)) => iis(&x, Int::signed(neg, v), id),
        (Err(_), None) => {}
        (Ok(_), None) => check(false, id + 1),
        (Err(_), Some(_)) => check(false, id + 2),
    }
}
fn st(b: &[u8]) -> &str {
    unsafe { core::str::from_utf8_unchecked(b) }
}
fn unsigned<'a>(b: &'a [u8]) -> &'a [u8] {
    if b.len() > 0 && b[0] == b'+' { &b[1..] } else { b }
}
fn signed<'a>(b: &'a [u8]) -> (bool, &'a [u8]) {
    if b.len() > 0 && b[0] == b'-' { (true, &b[1..]) } else { (false, unsigned(b)) }
}
/// every string of n ASCII characters
fn ascii<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    for k in 0..N {
        b[k] = su8();
        assume(b[k] < 128);
    }
    b
}
fn anystr(b: &[u8], r: u32) {
    reach(1);
    if choose(2) == 0 {
        let v = numeral(unsigned(b), r as u64);
        uis(UBig::from_str_radix(st(b), r), v, 1);
    } else {
        let (neg, t) = signed(b);
        let v = numeral(t, r as u64);
        iis2(IBig::from_str_radix(st(b), r), neg, v, 5);
    }
}
fn prefixed(b: &[u8]) -> Option<Int> {
    if b.len() >= 2 && b[0] == b'0' && b[1] == b'x' {
        numeral(&b[2..], 16)
    } else if b.len() >= 2 && b[0] == b'0' && b[1] == b'o' {
        numeral(&b[2..], 8)
    } else if b.len() >= 2 && b[0] == b'0' && b[1] == b'b' {
        numeral(&b[2..], 2)
    } else {
        numeral(b, 10)
    }
}
fn anyprefix(b: &[u8]) {
    reach(1);
    match choose(4) {
        0 => uis(UBig::from_str_with_radix_prefix(st(b)), prefixed(unsigned(b)), 1),
        1 => {
            let (neg, t) = signed(b);
            iis2(IBig::from_str_with_radix_prefix(st(b)), neg, prefixed(t), 5)
        }
        2 => uis(st(b).parse::<UBig>(), numeral(unsigned(b), 10), 1),
        _ => {
            let (neg, t) = signed(b);
            iis2(st(b).parse::<IBig>(), neg, numeral(t, 10), 5)
        }
    }
}
/// n digits '0'..='9' (those below the radix), the first z of them zeros
fn digs<const N: usize>(r: u32, z: usize) -> [u8; N] {
    let mut b = [b'0'; N];
    for k in z..N {
        b[k] = su8();
        assume((b[k] >= b'0') & (b[k] <= b'9') & (b[k] < b'0' + r as u8));
    }
    assume(b[z] != b'0');
    b
}
fn longstr<const N: usize>(r: u32, z: usize) {
    let b = digs::<N>(r, z);
    let mut v = Int::u(0);
    for &c in &b[z..] {
        v = v * Int::u(r as u64) + Int::u((c - b'0') as u64);
    }
    reach(1);
    uis(UBig::from_str_radix(st(&b), r), Some(v), 1);
}
/// letters: digits 10.. in lower or upper case
fn longlet<const N: usize>(r: u32) {
    let up = choose(2) == 1;
    let base = if up { b'A' } else { b'a' };
    let mut b = [0u8; N];
    let mut v = Int::u(0);
    for k in 0..N {
        b[k] = su8();
        assume((b[k] >= base) & (b[k] < base + (r as u8 - 10)));
        v = v * Int::u(r as u64) + Int::u((b[k] - base) as u64 + 10);
    }
    reach(1);
    uis(UBig::from_str_radix(st(&b), r), Some(v), 1);
}
/// one bad character anywhere in a long string
fn badstr<const N: usize>(r: u32) {
    let mut b = [b'1'; N];
    let k = choose(N as u64) as usize;
    let c = su8();
    assume(c < 128);
    assume(numeral(&[c], r as u64).is_none());
    if k == 0 {
        assume((c != b'+') & (c != b'-'));
    }
    b[k] = c;
    reach(1);
    check(UBig::from_str_radix(st(&b), r).is_err(), 1);
    check(IBig::from_str_radix(st(&b), r).is_err(), 2);
}
/// characters outside ASCII are never digits
fn utf8() {
    let r = [2, 10, 16, 36][choose(4) as usize];
    let s = ["é", "1é", "é1", "٣", "1٣", "𝟙", "-é", "0xé"][choose(8) as usize];
    reach(1);
    check(UBig::from_str_radix(s, r).is_err(), 1);
    check(IBig::from_str_radix(s, r).is_err(), 2);
    check(UBig::from_str_with_radix_prefix(s).is_err(), 3);
    check(IBig::from_str_with_radix_prefix(s).is_err(), 4);
}
h! {
    h_fmt_2_1 { radix(1, 2) }
    h_fmt_3_1 { radix(1, 3) }
    h_fmt_4_1 { radix(1, 4) }
    h_fmt_5_1 { radix(1, 5) }
    h_fmt_6_1 { radix(1, 6) }
    h_fmt_7_1 { radix(1, 7) }
    h_fmt_8_1 { radix(1, 8) }
    h_fmt_9_1 { radix(1, 9) }
    h_fmt_10_1 { radix(1, 10) }
    h_fmt_11_1 { radix(1, 11) }
    h_fmt_12_1 { radix(1, 12) }
    h_fmt_13_1 { radix(1, 13) }
    h_fmt_14_1 { radix(1, 14) }
    h_fmt_15_1 { radix(1, 15) }
    h_fmt_16_1 { radix(1, 16) }
    h_fmt_17_1 { radix(1, 17) }
    h_fmt_18_1 { radix(1, 18) }
    h_fmt_19_1 { radix(1, 19) }
    h_fmt_20_1 { radix(1, 20) }
    h_fmt_21_1 { radix(1, 21) }
    h_fmt_22_1 { radix(1, 22) }
    h_fmt_23_1 { radix(1, 23) }
    h_fmt_24_1 { radix(1, 24) }
    h_fmt_25_1 { radix(1, 25) }
    h_fmt_26_1 { radix(1, 26) }
    h_fmt_27_1 { radix(1, 27) }
    h_fmt_28_1 { radix(1, 28) }
    h_fmt_29_1 { radix(1, 29) }
    h_fmt_30_1 { radix(1, 30) }
    h_fmt_31_1 { radix(1, 31) }
    h_fmt_32_1 { radix(1, 32) }
    h_fmt_33_1 { radix(1, 33) }
    h_fmt_34_1 { radix(1, 34) }
    h_fmt_35_1 { radix(1, 35) }
    h_fmt_36_1 { radix(1, 36) }
    h_fmt_2_2 { radix(2, 2) }
    h_fmt_3_2 { radix(2, 3) }
    h_fmt_4_2 { radix(2, 4) }
    h_fmt_5_2 { radix(2, 5) }
    h_fmt_6_2 { radix(2, 6) }
    h_fmt_7_2 { radix(2, 7) }
    h_fmt_8_2 { radix(2, 8) }
    h_fmt_9_2 { radix(2, 9) }
    h_fmt_10_2 { radix(2, 10) }
    h_fmt_12_2 { radix(2, 12) }
    h_fmt_16_2 { radix(2, 16) }
    h_fmt_20_2 { radix(2, 20) }
    h_fmt_26_2 { radix(2, 26) }
    h_fmt_32_2 { radix(2, 32) }
    h_fmt_36_2 { radix(2, 36) }
    h_fmt_2_3 { radix(3, 2) }
    h_fmt_3_3 { radix(3, 3) }
    h_fmt_4_3 { radix(3, 4) }
    h_fmt_5_3 { radix(3, 5) }
    h_fmt_6_3 { radix(3, 6) }
    h_fmt_7_3 { radix(3, 7) }
    h_fmt_8_3 { radix(3, 8) }
    h_fmt_9_3 { radix(3, 9) }
    h_fmt_10_3 { radix(3, 10) }
    h_fmt_16_3 { radix(3, 16) }
    h_fmt_32_3 { radix(3, 32) }
    h_fmt_2_4 { radix(4, 2) }
    h_fmt_2_6 { radix(6, 2) }
    h_fmt_8_4 { radix(4, 8) }
    h_fmt_8_6 { radix(6, 8) }
    h_fmt_16_4 { radix(4, 16) }
    h_fmt_16_6 { radix(6, 16) }
    h_fmt_32_4 { radix(4, 32) }
    h_fmt_32_6 { radix(6, 32) }
    h_fmt_zero { let r = choose(35) + 2; let mut w = W::new(); let a = UBig::from(0u8); let b = IBig::from(0u8); let i = choose(2) == 0; reach(1); let ok = if i { write!(w, "{}", a.in_radix(r as u32)) } else { write!(w, "{}", b.in_radix(r as u32)) }; check(ok.is_ok(), 1); check(w.s() == "0", 2); }
    h_flags_0_0 { fl(0, 0) }
    h_flags_0_1 { fl(0, 1) }
    h_flags_1_0 { fl(1, 0) }
    h_flags_1_1 { fl(1, 1) }
    h_flags_2_0 { fl(2, 0) }
    h_flags_2_1 { fl(2, 1) }
    h_flags_3_0 { fl(3, 0) }
    h_flags_3_1 { fl(3, 1) }
    h_flags_4_0 { fl(4, 0) }
    h_flags_4_1 { fl(4, 1) }
    h_flags_5_0 { fl(5, 0) }
    h_flags_5_1 { fl(5, 1) }
    h_flags_6_0 { fl(6, 0) }
    h_flags_6_1 { fl(6, 1) }
    h_flags_7_0 { fl(7, 0) }
    h_flags_7_1 { fl(7, 1) }
    h_flags_8_0 { fl(8, 0) }
    h_flags_8_1 { fl(8, 1) }
    h_fmtup_16_1 { radix_upper(1, 16) }
    h_fmtup_16_2 { radix_upper(2, 16) }
    h_fmtup_16_3 { radix_upper(3, 16) }
    h_fmtup_36_1 { radix_upper(1, 36) }
    h_fmtup_36_2 { radix_upper(2, 36) }
    h_fmtup_36_3 { radix_upper(3, 36) }
    h_fmtup_32_1 { radix_upper(1, 32) }
    h_fmtup_32_2 { radix_upper(2, 32) }
    h_fmtup_32_3 { radix_upper(3, 32) }
    h_fmtup_13_1 { radix_upper(1, 13) }
    h_fmtup_13_2 { radix_upper(2, 13) }
    h_fmtup_13_3 { radix_upper(3, 13) }
    h_fmtup_10_1 { radix_upper(1, 10) }
    h_fmtup_10_2 { radix_upper(2, 10) }
    h_fmtup_10_3 { radix_upper(3, 10) }
    h_fmtx_10_5_0_0 { radix_part(5, 10, 0, 0) }
    h_fmtx_10_5_0_2 { radix_part(5, 10, 0, 2) }
    h_fmtx_10_5_7_0 { radix_part(5, 10, 7, 0) }
    h_fmtx_10_5_7_2 { radix_part(5, 10, 7, 2) }
    h_fmtx_10_6_0_0 { radix_part(6, 10, 0, 0) }
    h_fmtx_10_6_0_2 { radix_part(6, 10, 0, 2) }
    h_fmtx_10_6_7_0 { radix_part(6, 10, 7, 0) }
    h_fmtx_10_6_7_2 { radix_part(6, 10, 7, 2) }
    h_fmtx_10_8_0_0 { radix_part(8, 10, 0, 0) }
    h_fmtx_10_8_0_2 { radix_part(8, 10, 0, 2) }
    h_fmtx_10_8_7_0 { radix_part(8, 10, 7, 0) }
    h_fmtx_10_8_7_2 { radix_part(8, 10, 7, 2) }
    h_fmtx_10_12_0_0 { radix_part(12, 10, 0, 0) }
    h_fmtx_10_12_0_2 { radix_part(12, 10, 0, 2) }
    h_fmtx_10_12_7_0 { radix_part(12, 10, 7, 0) }
    h_fmtx_10_12_7_2 { radix_part(12, 10, 7, 2) }
    h_round_2_1 { round(1, 2) }
    h_round_3_1 { round(1, 3) }
    h_round_4_1 { round(1, 4) }
    h_round_5_1 { round(1, 5) }
    h_round_6_1 { round(1, 6) }
    h_round_7_1 { round(1, 7) }
    h_round_8_1 { round(1, 8) }
    h_round_9_1 { round(1, 9) }
    h_round_10_1 { round(1, 10) }
    h_round_11_1 { round(1, 11) }
    h_round_12_1 { round(1, 12) }
    h_round_13_1 { round(1, 13) }
    h_round_14_1 { round(1, 14) }
    h_round_15_1 { round(1, 15) }
    h_round_16_1 { round(1, 16) }
    h_round_17_1 { round(1, 17) }
    h_round_18_1 { round(1, 18) }
    h_round_19_1 { round(1, 19) }
    h_round_20_1 { round(1, 20) }
    h_round_21_1 { round(1, 21) }
    h_round_22_1 { round(1, 22) }
    h_round_23_1 { round(1, 23) }
    h_round_24_1 { round(1, 24) }
    h_round_25_1 { round(1, 25) }
    h_round_26_1 { round(1, 26) }
    h_round_27_1 { round(1, 27) }
    h_round_28_1 { round(1, 28) }
    h_round_29_1 { round(1, 29) }
    h_round_30_1 { round(1, 30) }
    h_round_31_1 { round(1, 31) }
    h_round_32_1 { round(1, 32) }
    h_round_33_1 { round(1, 33) }
    h_round_34_1 { round(1, 34) }
    h_round_35_1 { round(1, 35) }
    h_round_36_1 { round(1, 36) }
    h_round_2_2 { round(2, 2) }
    h_round_3_2 { round(2, 3) }
    h_round_4_2 { round(2, 4) }
    h_round_7_2 { round(2, 7) }
    h_round_8_2 { round(2, 8) }
    h_round_10_2 { round(2, 10) }
    h_round_16_2 { round(2, 16) }
    h_round_32_2 { round(2, 32) }
    h_round_36_2 { round(2, 36) }
    h_round_2_3 { round(3, 2) }
    h_round_4_3 { round(3, 4) }
    h_round_8_3 { round(3, 8) }
    h_round_10_3 { round(3, 10) }
    h_round_16_3 { round(3, 16) }
    h_round_32_3 { round(3, 32) }
    h_radix_invalid { invalid_radix() }
    h_parse_utf8 { utf8() }
    h_ppre_0 { let b = ascii::<0>(); anyprefix(&b) }
    h_ppre_1 { let b = ascii::<1>(); anyprefix(&b) }
    h_ppre_2 { let b = ascii::<2>(); anyprefix(&b) }
    h_ppre_3 { let b = ascii::<3>(); anyprefix(&b) }
    h_ppre_4 { let b = ascii::<4>(); anyprefix(&b) }
    h_pany_2_1 { let b = ascii::<1>(); anystr(&b, 2) }
    h_pany_2_2 { let b = ascii::<2>(); anystr(&b, 2) }
    h_pany_3_1 { let b = ascii::<1>(); anystr(&b, 3) }
    h_pany_3_2 { let b = ascii::<2>(); anystr(&b, 3) }
    h_pany_4_1 { let b = ascii::<1>(); anystr(&b, 4) }
    h_pany_4_2 { let b = ascii::<2>(); anystr(&b, 4) }
    h_pany_5_1 { let b = ascii::<1>(); anystr(&b, 5) }
    h_pany_5_2 { let b = ascii::<2>(); anystr(&b, 5) }
    h_pany_6_1 { let b = ascii::<1>(); anystr(&b, 6) }
    h_pany_6_2 { let b = ascii::<2>(); anystr(&b, 6) }
    h_pany_7_1 { let b = ascii::<1>(); anystr(&b, 7) }
    h_pany_7_2 { let b = ascii::<2>(); anystr(&b, 7) }
    h_pany_8_1 { let b = ascii::<1>(); anystr(&b, 8) }
    h_pany_8_2 { let b = ascii::<2>(); anystr(&b, 8) }
    h_pany_9_1 { let b = ascii::<1>(); anystr(&b, 9) }
    h_pany_9_2 { let b = ascii::<2>(); anystr(&b, 9) }
    h_pany_10_1 { let b = ascii::<1>(); anystr(&b, 10) }
    h_pany_10_2 { let b = ascii::<2>(); anystr(&b, 10) }
    h_pany_11_1 { let b = ascii::<1>(); anystr(&b, 11) }
    h_pany_11_2 { let b = ascii::<2>(); anystr(&b, 11) }
    h_pany_12_1 { let b = ascii::<1>(); anystr(&b, 12) }
    h_pany_12_2 { let b = ascii::<2>(); anystr(&b, 12) }
    h_pany_13_1 { let b = ascii::<1>(); anystr(&b, 13) }
    h_pany_13_2 { let b = ascii::<2>(); anystr(&b, 13) }
    h_pany_14_1 { let b = ascii::<1>(); anystr(&b, 14) }
    h_pany_14_2 { let b = ascii::<2>(); anystr(&b, 14) }
    h_pany_15_1 { let b = ascii::<1>(); anystr(&b, 15) }
    h_pany_15_2 { let b = ascii::<2>(); anystr(&b, 15) }
    h_pany_16_1 { let b = ascii::<1>(); anystr(&b, 16) }
    h_pany_16_2 { let b = ascii::<2>(); anystr(&b, 16) }
    h_pany_17_1 { let b = ascii::<1>(); anystr(&b, 17) }
    h_pany_17_2 { let b = ascii::<2>(); anystr(&b, 17) }
    h_pany_18_1 { let b = ascii::<1>(); anystr(&b, 18) }
    h_pany_18_2 { let b = ascii::<2>(); anystr(&b, 18) }
    h_pany_19_1 { let b = ascii::<1>(); anystr(&b, 19) }
    h_pany_19_2 { let b = ascii::<2>(); anystr(&b, 19) }
    h_pany_20_1 { let b = ascii::<1>(); anystr(&b, 20) }
    h_pany_20_2 { let b = ascii::<2>(); anystr(&b, 20) }
    h_pany_21_1 { let b = ascii::<1>(); anystr(&b, 21) }
    h_pany_21_2 { let b = ascii::<2>(); anystr(&b, 21) }
    h_pany_22_1 { let b = ascii::<1>(); anystr(&b, 22) }
    h_pany_22_2 { let b = ascii::<2>(); anystr(&b, 22) }
    h_pany_23_1 { let b = ascii::<1>(); anystr(&b, 23) }
    h_pany_23_2 { let b = ascii::<2>(); anystr(&b, 23) }
    h_pany_24_1 { let b = ascii::<1>(); anystr(&b, 24) }
    h_pany_24_2 { let b = ascii::<2>(); anystr(&b, 24) }
    h_pany_25_1 { let b = ascii::<1>(); anystr(&b, 25) }
    h_pany_25_2 { let b = ascii::<2>(); anystr(&b, 25) }
    h_pany_26_1 { let b = ascii::<1>(); anystr(&b, 26) }
    h_pany_26_2 { let b = ascii::<2>(); anystr(&b, 26) }
    h_pany_27_1 { let b = ascii::<1>(); anystr(&b, 27) }
    h_pany_27_2 { let b = ascii::<2>(); anystr(&b, 27) }
    h_pany_28_1 { let b = ascii::<1>(); anystr(&b, 28) }
    h_pany_28_2 { let b = ascii::<2>(); anystr(&b, 28) }
    h_pany_29_1 { let b = ascii::<1>(); anystr(&b, 29) }
    h_pany_29_2 { let b = ascii::<2>(); anystr(&b, 29) }
    h_pany_30_1 { let b = ascii::<1>(); anystr(&b, 30) }
    h_pany_30_2 { let b = ascii::<2>(); anystr(&b, 30) }
    h_pany_31_1 { let b = ascii::<1>(); anystr(&b, 31) }
    h_pany_31_2 { let b = ascii::<2>(); anystr(&b, 31) }
    h_pany_32_1 { let b = ascii::<1>(); anystr(&b, 32) }
    h_pany_32_2 { let b = ascii::<2>(); anystr(&b, 32) }
    h_pany_33_1 { let b = ascii::<1>(); anystr(&b, 33) }
    h_pany_33_2 { let b = ascii::<2>(); anystr(&b, 33) }
    h_pany_34_1 { let b = ascii::<1>(); anystr(&b, 34) }
    h_pany_34_2 { let b = ascii::<2>(); anystr(&b, 34) }
    h_pany_35_1 { let b = ascii::<1>(); anystr(&b, 35) }
    h_pany_35_2 { let b = ascii::<2>(); anystr(&b, 35) }
    h_pany_36_1 { let b = ascii::<1>(); anystr(&b, 36) }
    h_pany_36_2 { let b = ascii::<2>(); anystr(&b, 36) }
    h_pany_2_0 { let b = ascii::<0>(); anystr(&b, 2) }
    h_pany_3_0 { let b = ascii::<0>(); anystr(&b, 3) }
    h_pany_8_0 { let b = ascii::<0>(); anystr(&b, 8) }
    h_pany_10_0 { let b = ascii::<0>(); anystr(&b, 10) }
    h_pany_16_0 { let b = ascii::<0>(); anystr(&b, 16) }
    h_pany_36_0 { let b = ascii::<0>(); anystr(&b, 36) }
    h_pany_2_3 { let b = ascii::<3>(); anystr(&b, 2) }
    h_pany_3_3 { let b = ascii::<3>(); anystr(&b, 3) }
    h_pany_8_3 { let b = ascii::<3>(); anystr(&b, 8) }
    h_pany_10_3 { let b = ascii::<3>(); anystr(&b, 10) }
    h_pany_16_3 { let b = ascii::<3>(); anystr(&b, 16) }
    h_pany_36_3 { let b = ascii::<3>(); anystr(&b, 36) }
    h_plong_2_8 { longstr::<8>(2, 0) }
    h_plong_2_17 { longstr::<17>(2, 0) }
    h_plong_2_33 { longstr::<33>(2, 0) }
    h_plong_2_60 { longstr::<60>(2, 0) }
    h_plong_3_5 { longstr::<5>(3, 0) }
    h_plong_3_8 { longstr::<8>(3, 0) }
    h_plong_3_12 { longstr::<12>(3, 0) }
    h_plong_3_17 { longstr::<17>(3, 0) }
    h_plong_8_8 { longstr::<8>(8, 0) }
    h_plong_8_21 { longstr::<21>(8, 0) }
    h_plong_8_41 { longstr::<41>(8, 0) }
    h_plong_10_5 { longstr::<5>(10, 0) }
    h_plong_10_8 { longstr::<8>(10, 0) }
    h_plong_10_12 { longstr::<12>(10, 0) }
    h_plong_16_5 { longstr::<5>(16, 0) }
    h_plong_16_8 { longstr::<8>(16, 0) }
    h_plong_16_16 { longstr::<16>(16, 0) }
    h_plong_16_17 { longstr::<17>(16, 0) }
    h_plong_16_33 { longstr::<33>(16, 0) }
    h_plong_16_40 { longstr::<40>(16, 0) }
    h_plong_36_5 { longstr::<5>(36, 0) }
    h_plong_36_12 { longstr::<12>(36, 0) }
    h_plong_36_17 { longstr::<17>(36, 0) }
    h_plong_36_40 { longstr::<40>(36, 0) }
    h_plz_2_8 { longstr::<8>(2, 2) }
    h_plz_3_5 { longstr::<5>(3, 2) }
    h_plz_3_8 { longstr::<8>(3, 2) }
    h_plz_3_12 { longstr::<12>(3, 2) }
    h_plz_3_17 { longstr::<17>(3, 2) }
    h_plz_3_21 { longstr::<21>(3, 2) }
    h_plz_8_8 { longstr::<8>(8, 2) }
    h_plz_8_21 { longstr::<21>(8, 2) }
    h_plz_10_5 { longstr::<5>(10, 2) }
    h_plz_10_8 { longstr::<8>(10, 2) }
    h_plz_10_12 { longstr::<12>(10, 2) }
    h_plz_16_8 { longstr::<8>(16, 2) }
    h_plz_16_16 { longstr::<16>(16, 2) }
    h_plz_16_17 { longstr::<17>(16, 2) }
    h_plz_16_40 { longstr::<40>(16, 2) }
    h_plz_36_5 { longstr::<5>(36, 2) }
    h_plz_36_8 { longstr::<8>(36, 2) }
    h_plz_36_12 { longstr::<12>(36, 2) }
    h_plz_36_17 { longstr::<17>(36, 2) }
    h_plz_36_24 { longstr::<24>(36, 2) }
    h_plz_36_40 { longstr::<40>(36, 2) }
    h_plet_16_5 { longlet::<5>(16) }
    h_plet_16_8 { longlet::<8>(16) }
    h_plet_16_16 { longlet::<16>(16) }
    h_plet_16_17 { longlet::<17>(16) }
    h_plet_16_33 { longlet::<33>(16) }
    h_plet_16_40 { longlet::<40>(16) }
    h_plet_36_5 { longlet::<5>(36) }
    h_pbad_2_8 { badstr::<8>(2) }
    h_pbad_2_60 { badstr::<60>(2) }
    h_pbad_3_12 { badstr::<12>(3) }
    h_pbad_8_21 { badstr::<21>(8) }
    h_pbad_8_41 { badstr::<41>(8) }
    h_pbad_10_5 { badstr::<5>(10) }
    h_pbad_10_20 { badstr::<20>(10) }
    h_pbad_10_40 { badstr::<40>(10) }
    h_pbad_10_60 { badstr::<60>(10) }
    h_pbad_16_16 { badstr::<16>(16) }
    h_pbad_16_17 { badstr::<17>(16) }
    h_pbad_16_40 { badstr::<40>(16) }
    h_pbad_36_12 { badstr::<12>(36) }
    h_pbad_36_17 { badstr::<17>(36) }
    h_pbad_36_60 { badstr::<60>(36) }
    h_iround_0_1 { iround(1, 0) }
    h_iround_0_2 { iround(2, 0) }
    h_iround_1_1 { iround(1, 1) }
    h_iround_1_2 { iround(2, 1) }
    h_iround_2_1 { iround(1, 2) }
    h_iround_2_2 { iround(2, 2) }
    h_iround_3_1 { iround(1, 3) }
    h_iround_3_2 { iround(2, 3) }
    h_iround_4_1 { iround(1, 4) }
    h_iround_4_2 { iround(2, 4) }
}

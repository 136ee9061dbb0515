//! Native execution of a harness on concrete values: `replay HARNESS v1,v2,...`
//! Prints one JSON line: result is "ok", "assume" (the values do not satisfy an assumption), "violation" with the reason.
//! The ghost integers are computed by an independent arithmetic (engine/src/big.rs), not by the library under test.
#![allow(dead_code)]
#[path = "../../../engine/src/big.rs"]
mod big;
use big::Big;
use std::cell::RefCell;
use std::panic;

#[derive(Default)]
struct S {
    vals: Vec<u128>,
    next: usize,
    ints: Vec<Big>,
    allow: bool,
    observed: Vec<u128>,
    bad: Option<u32>,
    reach: Vec<u32>,
}
thread_local!(static ST: RefCell<S> = RefCell::new(S::default()));
struct Assume;
struct Bad;

fn mask(w: u64) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
fn next() -> u128 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let k = s.next;
        s.next += 1;
        s.vals.get(k).copied().unwrap_or(0)
    })
}
fn push(x: Big) -> u32 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.ints.push(x);
        s.ints.len() as u32 - 1
    })
}
fn get(k: u32) -> Big {
    ST.with(|s| s.borrow().ints[k as usize].clone())
}
#[no_mangle]
pub extern "C-unwind" fn vf_sym(bits: u64) -> u64 {
    (next() & mask(bits)) as u64
}
#[no_mangle]
pub extern "C-unwind" fn vf_assume(c: bool) {
    if !c {
        panic::panic_any(Assume)
    }
}
#[no_mangle]
pub extern "C-unwind" fn vf_check(c: bool, id: u32) {
    if !c {
        ST.with(|s| s.borrow_mut().bad = Some(id));
        panic::panic_any(Bad)
    }
}
#[no_mangle]
pub extern "C-unwind" fn vf_allow_panic(c: bool) {
    ST.with(|s| s.borrow_mut().allow = c)
}
#[no_mangle]
pub extern "C-unwind" fn vf_reach(id: u32) {
    ST.with(|s| s.borrow_mut().reach.push(id))
}
#[no_mangle]
pub extern "C-unwind" fn vf_split(_: u64) {}
#[no_mangle]
pub extern "C-unwind" fn vf_merge(_: u32) {}
#[no_mangle]
pub extern "C-unwind" fn vf_choose(n: u64) -> u64 {
    (next() % n.max(1) as u128) as u64
}
#[no_mangle]
pub extern "C-unwind" fn vf_concretize(x: u64) -> u64 {
    x
}
#[no_mangle]
pub extern "C-unwind" fn vf_observe(x: u64) {
    ST.with(|s| s.borrow_mut().observed.push(x as u128))
}
#[no_mangle]
pub unsafe extern "C-unwind" fn vf_int_words(p: *const u8, len: usize, wb: usize) -> u32 {
    let mut acc = Big::zero();
    for k in 0..len {
        let mut w = 0u128;
        for j in 0..wb {
            w |= (*p.add(k * wb + j) as u128) << (8 * j);
        }
        ST.with(|s| s.borrow_mut().observed.push(w));
        acc = acc.add(&Big::from_u128(w).shl(8 * wb * k));
    }
    push(acc)
}
#[no_mangle]
pub extern "C-unwind" fn vf_int_u64(x: u64) -> u32 {
    push(Big::from_u128(x as u128))
}
#[no_mangle]
pub extern "C-unwind" fn vf_int_add(a: u32, b: u32) -> u32 {
    push(get(a).add(&get(b)))
}
#[no_mangle]
pub extern "C-unwind" fn vf_int_sub(a: u32, b: u32) -> u32 {
    push(get(a).sub(&get(b)))
}
#[no_mangle]
pub extern "C-unwind" fn vf_int_mul(a: u32, b: u32) -> u32 {
    push(get(a).mul(&get(b)))
}
#[no_mangle]
pub extern "C-unwind" fn vf_int_div(a: u32, b: u32) -> u32 {
    push(get(a).divmod_floor(&get(b)).0)
}
#[no_mangle]
pub extern "C-unwind" fn vf_int_shl(a: u32, k: u64) -> u32 {
    push(get(a).shl(k as usize))
}
#[no_mangle]
pub extern "C-unwind" fn vf_int_ite(c: bool, a: u32, b: u32) -> u32 {
    if c {
        a
    } else {
        b
    }
}
#[no_mangle]
pub extern "C-unwind" fn vf_int_le(a: u32, b: u32) -> bool {
    get(a) <= get(b)
}
#[no_mangle]
pub extern "C-unwind" fn vf_int_eq(a: u32, b: u32) -> bool {
    get(a) == get(b)
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c)
            }
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn one(name: &str, vals: &str) {
    let f = match vharness::all().into_iter().find(|(n, _)| *n == name) {
        Some((_, f)) => f,
        None => {
            println!("{{\"result\":\"error\",\"why\":\"no such harness\"}}");
            return;
        }
    };
    ST.with(|s| {
        *s.borrow_mut() =
            S { vals: vals.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().expect("value")).collect(), ..S::default() }
    });
    let r = panic::catch_unwind(|| f());
    let (mut res, mut why) = ("ok".to_string(), String::new());
    if let Err(e) = r {
        if e.is::<Assume>() {
            res = "assume".into();
        } else if e.is::<Bad>() {
            res = "violation".into();
            why = format!("check {}", ST.with(|s| s.borrow().bad.unwrap()));
        } else {
            let m = e
                .downcast_ref::<&str>()
                .map(|x| x.to_string())
                .or_else(|| e.downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into());
            if ST.with(|s| s.borrow().allow) {
                res = "panic_allowed".into();
            } else {
                res = "violation".into();
                why = format!("panic: {}", m);
            }
        }
    }
    ST.with(|s| {
        let s = s.borrow();
        let o: Vec<String> = s.observed.iter().map(|x| x.to_string()).collect();
        println!("{{\"harness\":{},\"result\":{},\"why\":{},\"observed\":[{}]}}", js(name), js(&res), js(&why), o.join(","));
    });
}

fn main() {
    panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let mut k = 1;
        while k < a.len() {
            one(&a[k], a.get(k + 1).map(|x| x.as_str()).unwrap_or(""));
            k += 2;
        }
    });
    t.unwrap().join().unwrap();
}

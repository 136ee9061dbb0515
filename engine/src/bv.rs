//! Bit-vector encoding (SMT-LIB QF_BV): exact machine semantics; ghost integers become wide signed bit-vectors.
use crate::big::Big;
use crate::term::*;
use std::collections::HashMap;
use std::fmt::Write;

fn bvc(v: u128, w: u32) -> String {
    if w % 4 == 0 {
        format!("#x{:0width$x}", v, width = (w / 4) as usize)
    } else {
        format!("#b{:0width$b}", v, width = w as usize)
    }
}
fn bigc(b: &Big, w: u32) -> String {
    // two's complement of width w
    let v = if b.is_neg() { Big::pow2(w as usize).add(b) } else { b.clone() };
    format!("(_ bv{} {})", v.dec(), w)
}

pub struct BvQuery {
    pub text: String,
    pub syms: Vec<(u32, String)>,
}

pub fn encode(tm: &Terms, conj: &[T]) -> BvQuery {
    let cone = tm.cone(conj);
    let mut s = String::new();
    let mut iw: HashMap<T, u32> = HashMap::new();
    let mut syms = vec![];
    let nm = |t: T| format!("t{}", t);
    // a name or an inline constant
    let r = |t: T| -> String {
        match tm.node(t) {
            N::C(v) => bvc(*v, tm.width(t)),
            _ => format!("t{}", t),
        }
    };
    for &t in &cone {
        let w = tm.width(t);
        if w == 0 {
            let l = &tm.ilo[&t];
            let h = &tm.ihi[&t];
            let k = l.abs().bits().max(h.abs().bits()) as u32 + 1;
            iw.insert(t, k.max(2));
        }
    }
    let ext = |t: T, w: u32, iw: &HashMap<T, u32>| -> String {
        let k = iw[&t];
        let base = match tm.node(t) {
            N::IC(b) => return bigc(b, w),
            _ => nm(t),
        };
        if k == w {
            base
        } else if k < w {
            format!("((_ sign_extend {}) {})", w - k, base)
        } else {
            format!("((_ extract {} 0) {})", w - 1, base)
        }
    };
    let b1 = |c: String| format!("(ite {} #b1 #b0)", c);
    for &t in &cone {
        let w = tm.width(t);
        let body: String = match tm.node(t) {
            N::C(_) | N::IC(_) => continue,
            N::Sym(k) => {
                let (_, lo, hi) = tm.syms[*k as usize];
                writeln!(s, "(declare-fun t{} () (_ BitVec {}))", t, w).unwrap();
                if lo > 0 {
                    writeln!(s, "(assert (bvuge t{} {}))", t, bvc(lo, w)).unwrap();
                }
                if hi < mask(w) {
                    writeln!(s, "(assert (bvule t{} {}))", t, bvc(hi, w)).unwrap();
                }
                syms.push((*k, nm(t)));
                continue;
            }
            N::Add(a, b) => format!("(bvadd {} {})", r(*a), r(*b)),
            N::Sub(a, b) => format!("(bvsub {} {})", r(*a), r(*b)),
            N::Mul(a, b) => format!("(bvmul {} {})", r(*a), r(*b)),
            N::UDiv(a, b) => format!("(bvudiv {} {})", r(*a), r(*b)),
            N::URem(a, b) => format!("(bvurem {} {})", r(*a), r(*b)),
            N::SDiv(a, b) => format!("(bvsdiv {} {})", r(*a), r(*b)),
            N::SRem(a, b) => format!("(bvsrem {} {})", r(*a), r(*b)),
            N::And(a, b) => format!("(bvand {} {})", r(*a), r(*b)),
            N::Or(a, b) => format!("(bvor {} {})", r(*a), r(*b)),
            N::Xor(a, b) => format!("(bvxor {} {})", r(*a), r(*b)),
            N::Shl(a, b) => format!("(bvshl {} {})", r(*a), r(*b)),
            N::LShr(a, b) => format!("(bvlshr {} {})", r(*a), r(*b)),
            N::AShr(a, b) => format!("(bvashr {} {})", r(*a), r(*b)),
            N::Ext(a, h, l) => format!("((_ extract {} {}) {})", h, l, r(*a)),
            N::Cat(a, b) => format!("(concat {} {})", r(*a), r(*b)),
            N::ZExt(a) => format!("((_ zero_extend {}) {})", w - tm.width(*a), r(*a)),
            N::SExt(a) => format!("((_ sign_extend {}) {})", w - tm.width(*a), r(*a)),
            N::Eq(a, b) => b1(format!("(= {} {})", r(*a), r(*b))),
            N::Ult(a, b) => b1(format!("(bvult {} {})", r(*a), r(*b))),
            N::Slt(a, b) => b1(format!("(bvslt {} {})", r(*a), r(*b))),
            N::Ite(c, a, b) => format!("(ite (= {} #b1) {} {})", r(*c), r(*a), r(*b)),
            N::Ctlz(a) => {
                let mut e = bvc(w as u128, w);
                for i in 0..w {
                    e = format!("(ite (= ((_ extract {} {}) {}) #b1) {} {})", i, i, r(*a), bvc((w - 1 - i) as u128, w), e);
                }
                e
            }
            N::Cttz(a) => {
                let mut e = bvc(w as u128, w);
                for i in (0..w).rev() {
                    e = format!("(ite (= ((_ extract {} {}) {}) #b1) {} {})", i, i, r(*a), bvc(i as u128, w), e);
                }
                e
            }
            N::Ctpop(a) => {
                let z = w - 1;
                let mut e = String::new();
                for i in 0..w {
                    let b = if z > 0 {
                        format!("((_ zero_extend {}) ((_ extract {} {}) {}))", z, i, i, r(*a))
                    } else {
                        r(*a)
                    };
                    e = if i == 0 { b } else { format!("(bvadd {} {})", e, b) };
                }
                e
            }
            N::UMulOv(a, b) => {
                let wa = tm.width(*a);
                b1(format!(
                    "(not (= ((_ extract {} {}) (bvmul ((_ zero_extend {}) {}) ((_ zero_extend {}) {}))) (_ bv0 {})))",
                    2 * wa - 1,
                    wa,
                    wa,
                    r(*a),
                    wa,
                    r(*b),
                    wa
                ))
            }
            N::IBv(a) => {
                let k = iw[&t];
                let wa = tm.width(*a);
                if k > wa {
                    format!("((_ zero_extend {}) {})", k - wa, r(*a))
                } else {
                    // value known smaller than the type
                    format!("((_ extract {} 0) {})", k - 1, r(*a))
                }
            }
            N::IAdd(a, b) => format!("(bvadd {} {})", ext(*a, iw[&t], &iw), ext(*b, iw[&t], &iw)),
            N::ISub(a, b) => format!("(bvsub {} {})", ext(*a, iw[&t], &iw), ext(*b, iw[&t], &iw)),
            N::IMul(a, b) => {
                let k = iw[&t];
                let sh = |c: T| match tm.node(c) {
                    N::IC(x) if !x.is_neg() && !x.is_zero() && *x == Big::pow2(x.bits() - 1) => Some(x.bits() - 1),
                    _ => None,
                };
                if let Some(n) = sh(*b) {
                    format!("(bvshl {} (_ bv{} {}))", ext(*a, k, &iw), n, k)
                } else if let Some(n) = sh(*a) {
                    format!("(bvshl {} (_ bv{} {}))", ext(*b, k, &iw), n, k)
                } else {
                    format!("(bvmul {} {})", ext(*a, k, &iw), ext(*b, k, &iw))
                }
            }
            N::IDiv(a, d) => {
                let k = iw[a].max(d.bits() as u32 + 2).max(iw[&t]);
                let (x, y) = (ext(*a, k, &iw), format!("(_ bv{} {})", d.dec(), k));
                let q = if tm.ilo[a].is_neg() {
                    format!("(bvsub (bvsdiv {x} {y}) (ite (bvslt (bvsrem {x} {y}) (_ bv0 {k})) (_ bv1 {k}) (_ bv0 {k})))")
                } else {
                    format!("(bvudiv {} {})", x, y)
                };
                format!("((_ extract {} 0) {})", iw[&t] - 1, q)
            }
            N::IIte(c, a, b) => format!("(ite (= {} #b1) {} {})", r(*c), ext(*a, iw[&t], &iw), ext(*b, iw[&t], &iw)),
            N::ILe(a, b) => {
                let k = iw[a].max(iw[b]);
                b1(format!("(bvsle {} {})", ext(*a, k, &iw), ext(*b, k, &iw)))
            }
            N::IEq(a, b) => {
                let k = iw[a].max(iw[b]);
                b1(format!("(= {} {})", ext(*a, k, &iw), ext(*b, k, &iw)))
            }
        };
        let ww = if w == 0 { iw[&t] } else { w };
        writeln!(s, "(define-fun t{} () (_ BitVec {}) {})", t, ww, body).unwrap();
    }
    for &c in conj {
        match tm.as_c(c) {
            Some(1) => {}
            Some(_) => s.push_str("(assert false)\n"),
            None => writeln!(s, "(assert (= t{} #b1))", c).unwrap(),
        }
    }
    BvQuery { text: s, syms }
}

//! Solver back end: process management, query strategies, counterexample validation on the term DAG.
use crate::big::Big;
use crate::bv;
use crate::poly;
use crate::term::*;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Outcome {
    Unsat,
    Sat(Vec<u128>),
    Unknown(String),
}

struct Proc {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Proc {
    fn start(cmd: &str, args: &[&str]) -> Result<Proc, String> {
        let mut child = Command::new(cmd)
            .args(args)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| format!("cannot start {}: {}", cmd, e))?;
        let stdin = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            let r = BufReader::new(out);
            for l in r.lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        Ok(Proc { child, stdin, rx })
    }
    /// lines up to the sentinel, or None when the deadline passes / the process dies
    fn until_done(&mut self, deadline: Instant) -> Option<Vec<String>> {
        let mut v = vec![];
        loop {
            let now = Instant::now();
            if now >= deadline {
                return None;
            }
            match self.rx.recv_timeout(deadline - now) {
                Ok(l) => {
                    if l.trim_matches('"') == "vf-done" {
                        return Some(v);
                    }
                    v.push(l);
                }
                Err(RecvTimeoutError::Timeout) => return None,
                Err(_) => return None,
            }
        }
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub secs: f64,
    pub by: HashMap<String, u64>,
}
impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.queries += o.queries;
        self.unsat += o.unsat;
        self.sat += o.sat;
        self.unknown += o.unknown;
        self.secs += o.secs;
        for (k, v) in &o.by {
            *self.by.entry(k.clone()).or_insert(0) += v;
        }
    }
}

pub struct Backend {
    z3: Option<Proc>,
    pub stats: Stats,
    pub dump: Option<String>,
    ndump: usize,
}

fn parse_values(txt: &str) -> HashMap<String, Big> {
    // ((name value) ...)
    let mut toks: Vec<String> = vec![];
    let mut cur = String::new();
    for c in txt.chars() {
        match c {
            '(' | ')' => {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
                toks.push(c.to_string());
            }
            c if c.is_whitespace() => {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
            }
            c => cur.push(c),
        }
    }
    let mut out = HashMap::new();
    let mut i = 0;
    while i + 2 < toks.len() {
        if toks[i] == "(" && toks[i + 1] != "(" && toks[i + 1] != ")" {
            let name = toks[i + 1].clone();
            let mut j = i + 2;
            let mut neg = false;
            let mut wrapped = 0;
            while j < toks.len() && (toks[j] == "(" || toks[j] == "-" || toks[j] == "_") {
                if toks[j] == "-" {
                    neg = true;
                }
                if toks[j] == "(" {
                    wrapped += 1;
                }
                j += 1;
            }
            let _ = wrapped;
            if j < toks.len() {
                let v = &toks[j];
                let b = if let Some(h) = v.strip_prefix("#x") {
                    u128::from_str_radix(h, 16).ok().map(Big::from_u128)
                } else if let Some(h) = v.strip_prefix("#b") {
                    u128::from_str_radix(h, 2).ok().map(Big::from_u128)
                } else if let Some(h) = v.strip_prefix("bv") {
                    h.parse::<u128>().ok().map(Big::from_u128)
                } else {
                    Big::parse_dec(v)
                };
                if let Some(b) = b {
                    out.insert(name, if neg { b.neg() } else { b });
                }
            }
            i = j;
        }
        i += 1;
    }
    out
}

pub enum Raw {
    Unsat,
    Sat(HashMap<String, Big>),
    Unknown(String),
}

impl Backend {
    pub fn new() -> Backend {
        Backend { z3: None, stats: Stats::default(), dump: std::env::var("VSYM_DUMP").ok(), ndump: 0 }
    }
    pub fn run_z3(&mut self, kind: &str, logic: &str, text: &str, names: &[String], ms: u64) -> Raw {
        let t0 = Instant::now();
        self.dump_query(kind, logic, text);
        let r = self.run_z3_in(logic, text, names, ms);
        let dt = t0.elapsed().as_secs_f64();
        self.account(kind, &r, dt);
        r
    }
    fn dump_query(&mut self, kind: &str, logic: &str, text: &str) {
        if let Some(d) = &self.dump {
            self.ndump += 1;
            let _ = std::fs::write(
                format!("{}/{}-{}-{:?}.smt2", d, self.ndump, kind, std::thread::current().id()),
                format!("(set-logic {})\n{}(check-sat)\n", logic, text),
            );
        }
    }
    fn account(&mut self, kind: &str, r: &Raw, dt: f64) {
        self.stats.queries += 1;
        self.stats.secs += dt;
        let k = match r {
            Raw::Unsat => {
                self.stats.unsat += 1;
                "unsat"
            }
            Raw::Sat(_) => {
                self.stats.sat += 1;
                "sat"
            }
            Raw::Unknown(_) => {
                self.stats.unknown += 1;
                "unknown"
            }
        };
        *self.stats.by.entry(format!("{}:{}", kind, k)).or_insert(0) += 1;
    }
    fn run_z3_in(&mut self, logic: &str, text: &str, names: &[String], ms: u64) -> Raw {
        if self.z3.is_none() {
            match Proc::start("z3-new", &["-in", "-smt2", "-memory:6000"]) {
                Ok(p) => self.z3 = Some(p),
                Err(e) => return Raw::Unknown(e),
            }
        }
        let deadline = Instant::now() + Duration::from_millis(ms + ms / 2 + 1500);
        let p = self.z3.as_mut().unwrap();
        let mut q = String::with_capacity(text.len() + 300);
        q.push_str("(reset)\n");
        q.push_str(&format!("(set-option :timeout {})\n", ms));
        if !logic.is_empty() {
            q.push_str(&format!("(set-logic {})\n", logic));
        }
        q.push_str(text);
        q.push_str("(check-sat)\n(echo \"vf-done\")\n");
        // write from a helper thread is unnecessary: z3 consumes as it parses
        if p.stdin.write_all(q.as_bytes()).is_err() || p.stdin.flush().is_err() {
            self.z3 = None;
            return Raw::Unknown("solver died".into());
        }
        let lines = match p.until_done(deadline) {
            Some(l) => l,
            None => {
                self.z3 = None;
                return Raw::Unknown("timeout".into());
            }
        };
        let mut ans = "";
        for l in &lines {
            let l = l.trim();
            if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
                ans = if l == "timeout" { "unknown" } else { l };
            } else if l.starts_with("(error") {
                // an error invalidates any verdict
                self.z3 = None;
                return Raw::Unknown(format!("solver error: {}", l));
            }
        }
        match ans {
            "unsat" => Raw::Unsat,
            "sat" => {
                if names.is_empty() {
                    return Raw::Sat(HashMap::new());
                }
                let mut g = String::from("(get-value (");
                for n in names {
                    g.push_str(n);
                    g.push(' ');
                }
                g.push_str("))\n(echo \"vf-done\")\n");
                if p.stdin.write_all(g.as_bytes()).is_err() || p.stdin.flush().is_err() {
                    self.z3 = None;
                    return Raw::Unknown("solver died".into());
                }
                match p.until_done(Instant::now() + Duration::from_secs(20)) {
                    Some(l) => Raw::Sat(parse_values(&l.join(" "))),
                    None => {
                        self.z3 = None;
                        Raw::Unknown("no model".into())
                    }
                }
            }
            _ => Raw::Unknown("unknown".into()),
        }
    }
    /// one-shot run of cvc5 (or another SMT-LIB solver)
    pub fn run_once(&mut self, kind: &str, cmd: &str, args: &[String], logic: &str, text: &str, names: &[String], ms: u64) -> Raw {
        let t0 = Instant::now();
        self.dump_query(kind, logic, text);
        let r = (|| -> Raw {
            let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
            let mut p = match Proc::start(cmd, &a) {
                Ok(p) => p,
                Err(e) => return Raw::Unknown(e),
            };
            let mut q = format!("(set-option :produce-models true)\n(set-logic {})\n{}(check-sat)\n(echo \"vf-done\")\n", logic, text);
            if q.is_empty() {
                q.clear();
            }
            if p.stdin.write_all(q.as_bytes()).is_err() || p.stdin.flush().is_err() {
                return Raw::Unknown("solver died".into());
            }
            let lines = match p.until_done(Instant::now() + Duration::from_millis(ms)) {
                Some(l) => l,
                None => return Raw::Unknown("timeout".into()),
            };
            let mut ans = "";
            for l in &lines {
                let l = l.trim();
                if l == "sat" || l == "unsat" {
                    ans = l;
                } else if l.starts_with("(error") {
                    return Raw::Unknown(format!("solver error: {}", l));
                }
            }
            match ans {
                "unsat" => Raw::Unsat,
                "sat" => {
                    if names.is_empty() {
                        return Raw::Sat(HashMap::new());
                    }
                    let g = format!("(get-value ({}))\n(echo \"vf-done\")\n", names.join(" "));
                    if p.stdin.write_all(g.as_bytes()).is_err() || p.stdin.flush().is_err() {
                        return Raw::Unknown("solver died".into());
                    }
                    match p.until_done(Instant::now() + Duration::from_secs(20)) {
                        Some(l) => Raw::Sat(parse_values(&l.join(" "))),
                        None => Raw::Unknown("no model".into()),
                    }
                }
                _ => Raw::Unknown("unknown".into()),
            }
        })();
        let dt = t0.elapsed().as_secs_f64();
        self.account(kind, &r, dt);
        r
    }
}

pub fn eval_all(tm: &Terms, model: &[u128], conj: &[T]) -> bool {
    let mut ev = Eval::new(tm, model);
    conj.iter().all(|&c| ev.bool(c))
}

/// does the cone contain products/quotients of two non-constant values?
pub fn mulish(tm: &Terms, conj: &[T]) -> bool {
    for t in tm.cone(conj) {
        match tm.node(t) {
            N::Mul(a, b) | N::UDiv(a, b) | N::URem(a, b) | N::IMul(a, b) => {
                let k = |x: T| matches!(tm.node(x), N::C(_) | N::IC(_));
                if !k(*a) && !k(*b) {
                    return true;
                }
                // multiplication by a large odd constant is hard for bit-blasting as well
                if let N::Mul(_, b) | N::UDiv(_, b) | N::URem(_, b) = tm.node(t) {
                    if let Some(v) = tm.as_c(*b) {
                        if v.count_ones() > 3 && tm.width(*b) > 16 {
                            return true;
                        }
                    }
                }
            }
            N::UMulOv(..) => return true,
            _ => {}
        }
    }
    false
}

/// every machine-level product or quotient is at most 16 bits wide: bit-blasting is the better encoding
pub fn narrow_words(tm: &Terms, conj: &[T]) -> bool {
    tm.cone(conj).iter().all(|&t| match tm.node(t) {
        N::Mul(a, _) | N::UDiv(a, _) | N::URem(a, _) | N::UMulOv(a, _) => tm.width(*a) <= 16,
        N::Sym(_) => tm.width(t) <= 8,
        _ => true,
    })
}

fn model_from_bv(tm: &Terms, q: &bv::BvQuery, vals: &HashMap<String, Big>) -> Vec<u128> {
    let mut m: Vec<u128> = tm.syms.iter().map(|s| s.1).collect();
    for (k, n) in &q.syms {
        if let Some(v) = vals.get(n) {
            m[*k as usize] = v.to_u128().unwrap_or(0);
        }
    }
    m
}
fn model_from_lia(tm: &Terms, q: &poly::LiaQuery, vals: &HashMap<String, Big>) -> Vec<u128> {
    let mut m: Vec<u128> = tm.syms.iter().map(|s| s.1).collect();
    for (k, n, off) in &q.syms {
        if let Some(v) = vals.get(n) {
            m[*k as usize] = v.add(off).to_u128().unwrap_or(0) & mask(tm.syms[*k as usize].0);
        }
    }
    m
}

pub fn try_bv(be: &mut Backend, tm: &Terms, conj: &[T], ms: u64) -> Outcome {
    let q = bv::encode(tm, conj);
    let names: Vec<String> = q.syms.iter().map(|x| x.1.clone()).collect();
    match be.run_z3("bv-z3", "QF_BV", &q.text, &names, ms) {
        Raw::Unsat => Outcome::Unsat,
        Raw::Sat(v) => {
            let m = model_from_bv(tm, &q, &v);
            if eval_all(tm, &m, conj) {
                Outcome::Sat(m)
            } else {
                Outcome::Unknown("bv model does not evaluate to true: encoder bug".into())
            }
        }
        Raw::Unknown(e) => Outcome::Unknown(e),
    }
}
pub fn try_bv_cvc5(be: &mut Backend, tm: &Terms, conj: &[T], ms: u64) -> Outcome {
    let q = bv::encode(tm, conj);
    let names: Vec<String> = q.syms.iter().map(|x| x.1.clone()).collect();
    let args: Vec<String> = ["--lang=smt2", "--incremental", "-q"].iter().map(|s| s.to_string()).collect();
    match be.run_once("bv-cvc5", "cvc5", &args, "QF_BV", &q.text, &names, ms) {
        Raw::Unsat => Outcome::Unsat,
        Raw::Sat(v) => {
            let m = model_from_bv(tm, &q, &v);
            if eval_all(tm, &m, conj) {
                Outcome::Sat(m)
            } else {
                Outcome::Unknown("bv model does not evaluate to true: encoder bug".into())
            }
        }
        Raw::Unknown(e) => Outcome::Unknown(e),
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Local(usize),
    Relax,
    Quot,
    Lin,
    Nl,
}
/// integer encoding. Relax: words real, flags integral (unsat only); Lin: products linearised; Nl: exact products
pub fn try_int(be: &mut Backend, cx: &Mutex<poly::Ctx>, tm: &Terms, conj: &[T], ms: u64, mode: Mode) -> Outcome {
    let q = {
        let mut cx = cx.lock().unwrap();
        if let Mode::Local(_) = mode {
            match poly::encode(&mut cx, tm, conj, 1, usize::MAX) {
                Ok(q) if q.natoms >= 150 && !q.trivially_unsat => {}
                _ => return Outcome::Unknown("not applicable".into()),
            }
        }
        match poly::encode(&mut cx, tm, conj, match mode { Mode::Relax | Mode::Local(_) => 1, Mode::Quot => 2, _ => 0 }, if let Mode::Local(n) = mode { n } else { usize::MAX }) {
            Ok(q) => q,
            Err(e) => return Outcome::Unknown(e),
        }
    };
    if q.trivially_unsat {
        // the encoding itself reduced the negated claim to a false constant
        be.stats.queries += 1;
        be.stats.unsat += 1;
        *be.stats.by.entry("int-const:unsat".into()).or_insert(0) += 1;
        return Outcome::Unsat;
    }
    if mode == Mode::Nl && q.nonlinear.is_empty() {
        return Outcome::Unknown("linear".into());
    }
    let names: Vec<String> = q.syms.iter().map(|x| x.1.clone()).collect();
    if mode == Mode::Quot && (q.nmono > 80 || q.natoms > 400) {
        return Outcome::Unknown("not applicable".into());
    }
    if matches!(mode, Mode::Local(_)) && !q.cut {
        return Outcome::Unknown("not applicable".into());
    }
    let r = if matches!(mode, Mode::Relax | Mode::Quot | Mode::Local(_)) {
        let args: Vec<String> = ["--lang=smt2", "-q"].iter().map(|s| s.to_string()).collect();
        match be.run_once(match mode { Mode::Relax => "relax-cvc5", Mode::Quot => "quot-cvc5", _ => "local-cvc5" }, "cvc5", &args, "QF_LIRA", &q.text, &[], ms) {
            Raw::Unsat => Raw::Unsat,
            Raw::Sat(_) => return Outcome::Unknown("candidate".into()),
            r => r,
        }
    } else if mode == Mode::Nl {
        let t = format!("{}{}", q.text, q.nonlinear);
        be.run_z3("nia-z3", "QF_NIA", &t, &names, ms)
    } else {
        let args: Vec<String> = ["--lang=smt2", "--incremental", "-q"].iter().map(|s| s.to_string()).collect();
        match be.run_once("lia-cvc5", "cvc5", &args, "QF_LIA", &q.text, &names, ms / 2) {
            Raw::Unknown(_) => be.run_z3("lia-z3", "QF_LIA", &q.text, &names, ms / 2),
            r => r,
        }
    };
    match r {
        Raw::Unsat => Outcome::Unsat,
        Raw::Sat(v) => {
            let m = model_from_lia(tm, &q, &v);
            if eval_all(tm, &m, conj) {
                Outcome::Sat(m)
            } else {
                Outcome::Unknown("candidate".into())
            }
        }
        Raw::Unknown(e) => Outcome::Unknown(e),
    }
}

pub struct Solver {
    pub be: Backend,
    pub cx: Mutex<poly::Ctx>,
    cache: HashMap<Vec<T>, Outcome>,
    pub deadline: Instant,
    rng: u64,
}
impl Solver {
    pub fn new(deadline: Instant) -> Solver {
        Solver { be: Backend::new(), cx: Mutex::new(poly::Ctx::new()), cache: HashMap::new(), deadline, rng: 0x9e3779b97f4a7c15 }
    }
    /// feasibility query used while exploring (Unknown is treated as feasible by the caller)
    pub fn check(&mut self, tm: &mut Terms, conj: &[T], ms: u64, _quick: bool) -> Outcome {
        let mut key: Vec<T> = conj.iter().copied().filter(|&c| tm.as_c(c) != Some(1)).collect();
        key.sort();
        key.dedup();
        if key.iter().any(|&c| tm.as_c(c) == Some(0)) {
            return Outcome::Unsat;
        }
        if let Some(o) = self.cache.get(&key) {
            return o.clone();
        }
        // cheap witness search
        let tries = 6;
        for k in 0..tries {
            let m = self.guess(tm, k);
            if eval_all(tm, &m, &key) {
                let o = Outcome::Sat(m);
                self.cache.insert(key, o.clone());
                return o;
            }
        }
        let ms = ms.min(self.deadline.saturating_duration_since(Instant::now()).as_millis() as u64).max(50);
        let hard = mulish(tm, &key);
        let o = if hard && !narrow_words(tm, &key) {
            let mut c = key.clone();
            if let Some(g) = conj.last() {
                c.retain(|x| x != g);
                c.push(*g);
            }
            let mut local = Outcome::Unknown(String::new());
            for n in [25, 70] {
                local = try_int(&mut self.be, &self.cx, tm, &c, 700, Mode::Local(n));
                match &local {
                    Outcome::Unsat => break,
                    Outcome::Unknown(e) if e == "not applicable" => break,
                    _ => {}
                }
            }
            if matches!(local, Outcome::Unsat) {
                self.cache.insert(key, local.clone());
                return local;
            }
            match try_int(&mut self.be, &self.cx, tm, &key, ms.min(1500), Mode::Relax) {
                Outcome::Unknown(e) if e == "candidate" => try_int(&mut self.be, &self.cx, tm, &key, ms, Mode::Quot),
                o => o,
            }
        } else {
            match try_bv(&mut self.be, tm, &key, ms) {
                Outcome::Unknown(_) => try_int(&mut self.be, &self.cx, tm, &key, ms, Mode::Relax),
                o => o,
            }
        };
        self.cache.insert(key, o.clone());
        o
    }
    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }
    pub fn guess(&mut self, tm: &Terms, k: u32) -> Vec<u128> {
        let mut v = vec![];
        for &(w, lo, hi) in &tm.syms {
            let m = mask(w);
            let x = match k {
                0 => m,
                1 => lo,
                2 => 1,
                3 => ((self.rnd() as u128) << 64) | self.rnd() as u128,
                _ => match self.rnd() % 8 {
                    0 => 0,
                    1 => m,
                    2 => 1,
                    3 => 1u128 << (w - 1),
                    4 => m - 1,
                    5 => m >> 1,
                    _ => ((self.rnd() as u128) << 64) | self.rnd() as u128,
                },
            } & m;
            v.push(if x < lo || x > hi {
                let span = hi - lo;
                if span == u128::MAX {
                    x
                } else {
                    lo + x % (span + 1)
                }
            } else {
                x
            });
        }
        v
    }
}

/// Decide one obligation: is `pc and not goal` satisfiable? Works through complementary encodings until one answers.
pub fn decide(be: &mut Backend, cx: &Mutex<poly::Ctx>, tm: &Terms, conj: &[T], total_ms: u64, deadline: Instant) -> Outcome {
    if conj.iter().any(|&c| tm.as_c(c) == Some(0)) {
        return Outcome::Unsat;
    }
    let hard = mulish(tm, conj);
    let narrow = narrow_words(tm, conj);
    let mut why = vec![];
    // (method, share of the budget)
    let plan: &[(u8, u64)] = if hard && narrow {
        &[(b'r', 2), (b'q', 8), (b'b', 50), (b'c', 30), (b'l', 10)]
    } else if hard {
        &[(b'1', 1), (b'2', 3), (b'r', 12), (b'q', 10), (b'l', 12), (b'b', 6), (b'n', 10), (b'l', 40), (b'c', 16), (b'b', 16)]
    } else if tm.cone(conj).iter().any(|&t| matches!(tm.node(t), N::IEq(..) | N::ILe(..))) {
        &[(b'r', 3), (b'q', 5), (b'l', 5), (b'b', 5), (b'q', 15), (b'b', 15), (b'l', 10), (b'c', 20), (b'b', 40)]
    } else {
        &[(b'b', 20), (b'r', 6), (b'l', 10), (b'c', 25), (b'b', 40)]
    };
    for (m, share) in plan {
        let left = deadline.saturating_duration_since(Instant::now()).as_millis() as u64;
        if left < 100 {
            why.push("out of time".into());
            break;
        }
        let ms = (total_ms * share / 100).max(500).min(left);
        let o = match m {
            b'1' => try_int(be, cx, tm, conj, ms, Mode::Local(30)),
            b'2' => try_int(be, cx, tm, conj, ms, Mode::Local(90)),
            b'q' => try_int(be, cx, tm, conj, ms, Mode::Quot),
            b'r' => try_int(be, cx, tm, conj, ms, Mode::Relax),
            b'l' => try_int(be, cx, tm, conj, ms, Mode::Lin),
            b'n' => try_int(be, cx, tm, conj, ms, Mode::Nl),
            b'c' => try_bv_cvc5(be, tm, conj, ms),
            _ => try_bv(be, tm, conj, ms),
        };
        match o {
            Outcome::Unknown(e) => why.push(format!("{}: {}", *m as char, e)),
            o => return o,
        }
    }
    Outcome::Unknown(why.join("; "))
}

/// Restricted queries: pin a subset of the inputs (text-level equalities on the bit-vector encoding) so that the
/// remaining query is easy, and let the solver look for a violation of the obligation in that subspace.
pub fn hunt(be: &mut Backend, tm: &Terms, conj: &[T], rounds: u32, seed: u64, deadline: Instant) -> Option<Vec<u128>> {
    let q = bv::encode(tm, conj);
    let names: Vec<String> = q.syms.iter().map(|x| x.1.clone()).collect();
    let mut s = Solver::new(deadline);
    s.rng ^= seed.wrapping_mul(0xD1342543DE82EF95) | 1;
    for r in 0..rounds {
        if Instant::now() > deadline {
            return None;
        }
        let g = s.guess(tm, 2 + r % 6);
        let mut text = q.text.clone();
        let keep = 1 + (s.rnd() % 2) as usize;
        let mut free: Vec<usize> = vec![];
        for _ in 0..keep {
            free.push((s.rnd() as usize) % q.syms.len().max(1));
        }
        for (i, (k, n)) in q.syms.iter().enumerate() {
            if free.contains(&i) {
                continue;
            }
            let w = tm.syms[*k as usize].0;
            text.push_str(&format!("(assert (= {} (_ bv{} {})))\n", n, g[*k as usize], w));
        }
        if let Raw::Sat(v) = be.run_z3("bv-pinned", "QF_BV", &text, &names, 1500) {
            let m = model_from_bv(tm, &q, &v);
            if eval_all(tm, &m, conj) {
                return Some(m);
            }
        }
    }
    None
}

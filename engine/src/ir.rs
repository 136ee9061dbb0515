//! Parser for the textual LLVM IR subset rustc produces (opaque pointers).
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Struct(Vec<Ty>, bool),
    Array(u64, Box<Ty>),
    Vec(u64, Box<Ty>),
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Array(_, t) => t.align(),
            Ty::Vec(n, t) => (n * t.size()).next_power_of_two(),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let s = (*w as u64 + 7) / 8;
                let a = self.align();
                (s + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, packed) => {
                let mut off = 0;
                for t in f {
                    if !packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    off += t.size();
                }
                if !packed {
                    let a = self.align();
                    off = (off + a - 1) / a * a;
                }
                off
            }
            Ty::Array(n, t) => n * t.size(),
            Ty::Vec(n, t) => n * t.size(),
            _ => 0,
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut off = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    if k == i {
                        return off;
                    }
                    off += t.size();
                }
                off
            }
            Ty::Array(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            _ => 0,
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Array(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => Ty::Other,
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Array(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    /// bit width as a scalar
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64)
    }
}

#[derive(Clone, Debug)]
pub enum Cv {
    Int(u128),
    Undef,
    Zero,
    Agg(Vec<(Ty, Cv)>),
    Bytes(Vec<u8>),
    Global(String),
    /// base + offset
    Off(Box<Cv>, i64),
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    C(Cv),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    Bitcast,
    UiToFp,
    SiToFp,
    FNeg,
    Unsupported,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, Ty, Op, Op),
    ICmp(Pred, Ty, Op, Op),
    Cast(CastOp, Ty, Op, Ty),
    Select(Op, Ty, Op, Op),
    Phi(Ty, Vec<(Op, String)>, Vec<(Op, u32)>),
    Load(Ty, Op, u64),
    Store(Ty, Op, Op, u64),
    Alloca(u64, u64),
    Gep(Op, i64, Vec<(Op, u32, i64)>), // base, const offset, (index, width, scale)
    Call(Op, Vec<(Ty, Op)>, Ty),
    Extract(Ty, Op, Vec<usize>),
    Insert(Ty, Op, Ty, Op, Vec<usize>),
    Freeze(Ty, Op),
    Br(String, u32),
    CondBr(Op, String, String, u32, u32),
    Switch(Ty, Op, String, Vec<(u128, String)>, u32, Vec<(u128, u32)>),
    Ret(Ty, Option<Op>),
    Unreachable,
    Nop,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct I {
    pub dst: Option<u32>,
    pub i: Inst,
}
#[derive(Debug)]
pub struct Block {
    pub name: String,
    pub insts: Vec<I>,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<(Ty, u32)>,
    pub ret: Ty,
    pub blocks: Vec<Block>,
    pub nregs: u32,
    pub lines: u32,
}
#[derive(Debug)]
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Cv>,
    pub align: u64,
    pub constant: bool,
}
#[derive(Default)]
pub struct Module {
    pub globals: Vec<Global>,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, usize>,
    pub types: HashMap<String, Ty>,
    pub aliases: HashMap<String, String>,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    W(String),   // word or number
    L(String),   // %local
    G(String),   // @global
    S(Vec<u8>),  // c"..."
    Q(String),   // "..."
    M,           // !metadata
    P(char),
    A, // #n
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' || c == b'+'
}

fn unescape(b: &[u8]) -> Vec<u8> {
    let mut r = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            r.push(b'\\');
            i += 2;
            continue;
        }
        if b[i] == b'\\' && i + 2 < b.len() + 0 && i + 2 <= b.len() - 1 {
            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
            if let Ok(x) = u8::from_str_radix(h, 16) {
                r.push(x);
                i += 3;
                continue;
            }
        }
        r.push(b[i]);
        i += 1;
    }
    r
}

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut v = vec![];
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                i += 1;
                let name;
                if i < b.len() && b[i] == b'"' {
                    let st = i + 1;
                    i += 1;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    name = String::from_utf8_lossy(&b[st..i]).to_string();
                    i += 1;
                } else {
                    let st = i;
                    while i < b.len() && is_word(b[i]) {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                }
                v.push(if c == b'%' { Tok::L(name) } else { Tok::G(name) });
            }
            b'!' => {
                i += 1;
                while i < b.len() && (is_word(b[i])) {
                    i += 1;
                }
                if i < b.len() && b[i] == b'"' {
                    i += 1;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    i += 1;
                }
                v.push(Tok::M);
            }
            b'#' => {
                i += 1;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                v.push(Tok::A);
            }
            b'"' => {
                let st = i + 1;
                i += 1;
                while b[i] != b'"' {
                    i += 1;
                }
                v.push(Tok::Q(s[st..i].to_string()));
                i += 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                i += 2;
                while b[i] != b'"' {
                    i += 1;
                }
                v.push(Tok::S(unescape(&b[st..i])));
                i += 1;
            }
            _ if is_word(c) => {
                let st = i;
                while i < b.len() && is_word(b[i]) {
                    i += 1;
                }
                v.push(Tok::W(s[st..i].to_string()));
            }
            _ => {
                v.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    v
}

struct P<'a> {
    t: Vec<Tok>,
    i: usize,
    types: &'a HashMap<String, Ty>,
    regs: &'a mut HashMap<String, u32>,
    src: &'a str,
}
type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn err<T>(&self, m: &str) -> R<T> {
        Err(format!("{} at token {} in: {}", m, self.i, self.src.chars().take(300).collect::<String>()))
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            self.err(&format!("expected '{}'", c))
        }
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::W(x)) if x == w)
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> R<String> {
        if let Some(Tok::W(x)) = self.peek() {
            let x = x.clone();
            self.i += 1;
            Ok(x)
        } else {
            self.err("expected word")
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn try_ty(&mut self) -> R<Option<Ty>> {
        let save = self.i;
        let t = match self.peek() {
            Some(Tok::W(w)) => {
                let w = w.clone();
                let t = if w == "void" {
                    Ty::Void
                } else if w == "ptr" {
                    Ty::Ptr
                } else if w == "float" {
                    Ty::F32
                } else if w == "double" {
                    Ty::F64
                } else if w == "label" || w == "metadata" || w == "half" || w == "token" || w == "fp128" {
                    Ty::Other
                } else if w.starts_with('i') && w[1..].parse::<u32>().is_ok() {
                    Ty::Int(w[1..].parse().unwrap())
                } else {
                    return Ok(None);
                };
                self.i += 1;
                t
            }
            Some(Tok::P('[')) => {
                self.i += 1;
                let n: u64 = self.word()?.parse().map_err(|_| "array len".to_string())?;
                if !self.eat_w("x") {
                    self.i = save;
                    return Ok(None);
                }
                let t = self.ty()?;
                self.exp_p(']')?;
                Ty::Array(n, Box::new(t))
            }
            Some(Tok::P('{')) => {
                self.i += 1;
                Ty::Struct(self.ty_list('}')?, false)
            }
            Some(Tok::P('<')) => {
                self.i += 1;
                if self.eat_p('{') {
                    let l = self.ty_list('}')?;
                    self.exp_p('>')?;
                    Ty::Struct(l, true)
                } else {
                    let n: u64 = self.word()?.parse().map_err(|_| "vec len".to_string())?;
                    if !self.eat_w("x") {
                        return self.err("vec");
                    }
                    let t = self.ty()?;
                    self.exp_p('>')?;
                    Ty::Vec(n, Box::new(t))
                }
            }
            Some(Tok::L(n)) => {
                if let Some(t) = self.types.get(n) {
                    let t = t.clone();
                    self.i += 1;
                    t
                } else {
                    return Ok(None);
                }
            }
            _ => return Ok(None),
        };
        // function type suffix
        if self.is_p('(') && !matches!(t, Ty::Other) {
            // could be a function type "void (ptr, ...)"; callers that need it handle it
        }
        if self.is_w("addrspace") {
            self.i += 1;
            self.skip_parens();
        }
        Ok(Some(t))
    }
    fn ty_list(&mut self, end: char) -> R<Vec<Ty>> {
        let mut l = vec![];
        if self.eat_p(end) {
            return Ok(l);
        }
        loop {
            l.push(self.ty()?);
            if self.eat_p(end) {
                return Ok(l);
            }
            self.exp_p(',')?;
        }
    }
    fn ty(&mut self) -> R<Ty> {
        match self.try_ty()? {
            Some(t) => Ok(t),
            None => self.err("expected type"),
        }
    }
    fn skip_parens(&mut self) {
        if self.is_p('(') {
            let mut d = 0;
            while let Some(t) = self.peek() {
                match t {
                    Tok::P('(') => d += 1,
                    Tok::P(')') => d -= 1,
                    _ => {}
                }
                self.i += 1;
                if d == 0 {
                    break;
                }
            }
        }
    }
    /// skip attributes that may precede a value / type
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::W(w)) => {
                    let w = w.as_str();
                    match w {
                        "noundef" | "nonnull" | "zeroext" | "signext" | "noalias" | "nocapture" | "readonly" | "readnone"
                        | "writeonly" | "writable" | "immarg" | "returned" | "inreg" | "allocalign" | "allocptr" | "nofree"
                        | "nest" | "noext" | "dead_on_unwind" | "dead_on_return" | "dso_local" | "internal" | "private" | "hidden"
                        | "fastcc" | "coldcc" | "ccc" | "unnamed_addr" | "local_unnamed_addr" | "external" | "weak"
                        | "linkonce_odr" | "weak_odr" | "protected" | "available_externally" | "linkonce" | "swiftself" | "noalias_sidechannel" => {
                            self.i += 1;
                        }
                        "align" => {
                            self.i += 1;
                            if self.is_p('(') {
                                self.skip_parens();
                            } else {
                                self.i += 1;
                            }
                        }
                        "dereferenceable" | "dereferenceable_or_null" | "range" | "captures" | "sret" | "byval" | "initializes"
                        | "nofpclass" | "elementtype" | "cc" | "alignstack" | "preallocated" | "byref" | "inalloca" | "dead_on_return(" => {
                            self.i += 1;
                            if self.is_p('(') {
                                self.skip_parens();
                            }
                        }
                        _ => return,
                    }
                }
                Some(Tok::A) => self.i += 1,
                Some(Tok::Q(_)) => {
                    self.i += 1;
                    if self.eat_p('=') {
                        self.i += 1;
                    }
                }
                Some(Tok::P('(')) => {
                    // only reached after attribute words such as dead_on_return(..)
                    if self.i > 0 && matches!(&self.t[self.i - 1], Tok::W(w) if w == "dead_on_return") {
                        self.skip_parens();
                    } else {
                        return;
                    }
                }
                _ => return,
            }
        }
    }
    fn int_of(&self, w: &str, t: &Ty) -> Option<u128> {
        let bits = t.bits();
        if let Some(h) = w.strip_prefix("0x") {
            // float constants: double hex
            let v = u64::from_str_radix(h, 16).ok()?;
            return Some(match t {
                Ty::F32 => (f64::from_bits(v) as f32).to_bits() as u128,
                _ => v as u128,
            });
        }
        if matches!(t, Ty::F32 | Ty::F64) {
            let f: f64 = w.parse().ok()?;
            return Some(match t {
                Ty::F32 => (f as f32).to_bits() as u128,
                _ => f.to_bits() as u128,
            });
        }
        let v = if let Some(n) = w.strip_prefix('-') {
            (n.parse::<u128>().ok()?).wrapping_neg()
        } else {
            w.parse::<u128>().ok()?
        };
        Some(if bits >= 128 || bits == 0 { v } else { v & ((1u128 << bits) - 1) })
    }
    fn val(&mut self, t: &Ty) -> R<Op> {
        if let Some(Tok::L(n)) = self.peek() {
            let n = n.clone();
            self.i += 1;
            return Ok(Op::Reg(self.reg(&n)));
        }
        Ok(Op::C(self.cv(t)?))
    }
    fn cv(&mut self, t: &Ty) -> R<Cv> {
        match self.peek().cloned() {
            Some(Tok::G(n)) => {
                self.i += 1;
                Ok(Cv::Global(n))
            }
            Some(Tok::S(b)) => {
                self.i += 1;
                Ok(Cv::Bytes(b))
            }
            Some(Tok::M) => {
                self.i += 1;
                // metadata operand; skip any braces/parens
                if self.is_p('{') {
                    while !self.eat_p('}') {
                        self.i += 1;
                    }
                }
                if self.is_p('(') {
                    self.skip_parens();
                }
                Ok(Cv::Undef)
            }
            Some(Tok::P('{')) => {
                self.i += 1;
                Ok(Cv::Agg(self.agg('}')?))
            }
            Some(Tok::P('[')) => {
                self.i += 1;
                Ok(Cv::Agg(self.agg(']')?))
            }
            Some(Tok::P('<')) => {
                self.i += 1;
                if self.eat_p('{') {
                    let a = self.agg('}')?;
                    self.exp_p('>')?;
                    Ok(Cv::Agg(a))
                } else {
                    Ok(Cv::Agg(self.agg('>')?))
                }
            }
            Some(Tok::W(w)) => {
                self.i += 1;
                match w.as_str() {
                    "true" => Ok(Cv::Int(1)),
                    "false" => Ok(Cv::Int(0)),
                    "null" => Ok(Cv::Int(0)),
                    "undef" | "poison" => Ok(Cv::Undef),
                    "zeroinitializer" => Ok(Cv::Zero),
                    "getelementptr" => {
                        while matches!(self.peek(), Some(Tok::W(x)) if matches!(x.as_str(), "inbounds"|"nuw"|"nusw"|"inrange")) {
                            self.i += 1;
                            if self.is_p('(') && matches!(&self.t[self.i-1], Tok::W(x) if x == "inrange") {
                                self.skip_parens();
                            }
                        }
                        self.exp_p('(')?;
                        let et = self.ty()?;
                        self.exp_p(',')?;
                        let bt = self.ty()?;
                        let base = self.cv(&bt)?;
                        let mut off = 0i64;
                        let mut cur = et;
                        let mut first = true;
                        while self.eat_p(',') {
                            let it = self.ty()?;
                            let iv = match self.cv(&it)? {
                                Cv::Int(x) => sext_i64(x, it.bits()),
                                _ => return self.err("gep const index"),
                            };
                            if first {
                                off += iv * cur.size() as i64;
                                first = false;
                            } else {
                                off += cur.field_offset(iv as usize) as i64;
                                cur = cur.field(iv as usize);
                            }
                        }
                        self.exp_p(')')?;
                        Ok(Cv::Off(Box::new(base), off))
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" => {
                        self.exp_p('(')?;
                        let ft = self.ty()?;
                        let v = self.cv(&ft)?;
                        if !self.eat_w("to") {
                            return self.err("expected to");
                        }
                        let _tt = self.ty()?;
                        self.exp_p(')')?;
                        Ok(v)
                    }
                    "asm" => Ok(Cv::Unsupported("asm".into())),
                    _ => match self.int_of(&w, t) {
                        Some(v) => Ok(Cv::Int(v)),
                        None => {
                            if self.is_p('(') {
                                self.skip_parens();
                            }
                            Ok(Cv::Unsupported(w))
                        }
                    },
                }
            }
            _ => self.err("expected value"),
        }
    }
    fn agg(&mut self, end: char) -> R<Vec<(Ty, Cv)>> {
        let mut v = vec![];
        if self.eat_p(end) {
            return Ok(v);
        }
        loop {
            let t = self.ty()?;
            let c = self.cv(&t)?;
            v.push((t, c));
            if self.eat_p(end) {
                return Ok(v);
            }
            self.exp_p(',')?;
        }
    }
    fn label(&mut self) -> R<String> {
        if !self.eat_w("label") {
            return self.err("expected label");
        }
        match self.peek().cloned() {
            Some(Tok::L(n)) => {
                self.i += 1;
                Ok(n)
            }
            _ => self.err("expected label name"),
        }
    }
    fn tail_align(&mut self) -> u64 {
        let mut k = self.i;
        while k + 1 < self.t.len() {
            if let (Tok::W(a), Tok::W(b)) = (&self.t[k], &self.t[k + 1]) {
                if a == "align" {
                    return b.parse().unwrap_or(1);
                }
            }
            k += 1;
        }
        1
    }
    fn call(&mut self) -> R<(Op, Vec<(Ty, Op)>, Ty)> {
        // after 'call' keyword
        while matches!(self.peek(), Some(Tok::W(x)) if matches!(x.as_str(), "fast"|"nnan"|"ninf"|"nsz"|"arcp"|"contract"|"afn"|"reassoc")) {
            self.i += 1;
        }
        self.skip_attrs();
        let rt = self.ty()?;
        if self.is_p('(') {
            self.skip_parens();
        }
        let callee = match self.peek().cloned() {
            Some(Tok::G(n)) => {
                self.i += 1;
                Op::C(Cv::Global(n))
            }
            Some(Tok::L(n)) => {
                self.i += 1;
                Op::Reg(self.reg(&n))
            }
            Some(Tok::W(w)) if w == "asm" => {
                self.i += 1;
                while !self.is_p('(') && self.peek().is_some() {
                    self.i += 1;
                }
                Op::C(Cv::Unsupported("asm".into()))
            }
            _ => return self.err("callee"),
        };
        self.exp_p('(')?;
        let mut args = vec![];
        if !self.eat_p(')') {
            loop {
                let t = self.ty()?;
                self.skip_attrs();
                if self.is_p(')') || self.is_p(',') {
                    args.push((t, Op::C(Cv::Undef)));
                } else {
                    if t == Ty::Other && !matches!(self.peek(), Some(Tok::L(_)) | Some(Tok::M)) {
                        // metadata typed operand, e.g. metadata i64 0
                        let _ = self.try_ty()?;
                    }
                    let v = self.val(&t)?;
                    if t == Ty::Other && self.is_p('(') {
                        self.skip_parens();
                    }
                    args.push((t, v));
                }
                if self.eat_p(')') {
                    break;
                }
                self.exp_p(',')?;
            }
        }
        Ok((callee, args, rt))
    }
    fn inst(&mut self) -> R<I> {
        let mut dst = None;
        if let Some(Tok::L(n)) = self.peek().cloned() {
            if self.t.get(self.i + 1) == Some(&Tok::P('=')) {
                self.i += 2;
                dst = Some(self.reg(&n));
            }
        }
        let op = self.word()?;
        let i = match op.as_str() {
            "tail" | "musttail" | "notail" => {
                self.i += 1;
                let (c, a, r) = self.call()?;
                Inst::Call(c, a, r)
            }
            "call" => {
                let (c, a, r) = self.call()?;
                Inst::Call(c, a, r)
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while matches!(self.peek(), Some(Tok::W(x)) if matches!(x.as_str(), "nuw"|"nsw"|"exact"|"disjoint")) {
                    self.i += 1;
                }
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp_p(',')?;
                let b = self.val(&t)?;
                let o = match op.as_str() {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    _ => BinOp::Xor,
                };
                if !t.is_scalar() {
                    Inst::Unsupported(self.src.to_string())
                } else {
                    Inst::Bin(o, t, a, b)
                }
            }
            "icmp" => {
                while self.eat_w("samesign") {}
                let p = self.word()?;
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp_p(',')?;
                let b = self.val(&t)?;
                let p = match p.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    _ => Pred::Sge,
                };
                if !t.is_scalar() {
                    Inst::Unsupported(self.src.to_string())
                } else {
                    Inst::ICmp(p, t, a, b)
                }
            }
            "uitofp" | "sitofp" => {
                while matches!(self.peek(), Some(Tok::W(x)) if matches!(x.as_str(), "nuw"|"nsw"|"nneg")) {
                    self.i += 1;
                }
                let t = self.ty()?;
                let a = self.val(&t)?;
                if !self.eat_w("to") {
                    return self.err("expected to");
                }
                let tt = self.ty()?;
                if matches!(t, Ty::Int(_)) && matches!(tt, Ty::F32 | Ty::F64) {
                    Inst::Cast(if op == "uitofp" { CastOp::UiToFp } else { CastOp::SiToFp }, t, a, tt)
                } else {
                    Inst::Unsupported(self.src.to_string())
                }
            }
            "fneg" => {
                let t = self.ty()?;
                let a = self.val(&t)?;
                if matches!(t, Ty::F32 | Ty::F64) {
                    Inst::Cast(CastOp::FNeg, t.clone(), a, t)
                } else {
                    Inst::Unsupported(self.src.to_string())
                }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                while matches!(self.peek(), Some(Tok::W(x)) if matches!(x.as_str(), "nuw"|"nsw"|"nneg")) {
                    self.i += 1;
                }
                let t = self.ty()?;
                let a = self.val(&t)?;
                if !self.eat_w("to") {
                    return self.err("expected to");
                }
                let tt = self.ty()?;
                let o = match op.as_str() {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt,
                    "inttoptr" => CastOp::IntToPtr,
                    _ => CastOp::Bitcast,
                };
                if t.is_scalar() && tt.is_scalar() {
                    Inst::Cast(o, t, a, tt)
                } else {
                    Inst::Unsupported(self.src.to_string())
                }
            }
            "select" => {
                let ct = self.ty()?;
                let c = self.val(&ct)?;
                self.exp_p(',')?;
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp_p(',')?;
                let t2 = self.ty()?;
                let b = self.val(&t2)?;
                if ct != Ty::Int(1) {
                    Inst::Unsupported(self.src.to_string())
                } else {
                    Inst::Select(c, t, a, b)
                }
            }
            "freeze" => {
                let t = self.ty()?;
                let a = self.val(&t)?;
                Inst::Freeze(t, a)
            }
            "phi" => {
                let t = self.ty()?;
                let mut v = vec![];
                loop {
                    self.exp_p('[')?;
                    let a = self.val(&t)?;
                    self.exp_p(',')?;
                    match self.peek().cloned() {
                        Some(Tok::L(n)) => {
                            self.i += 1;
                            v.push((a, n));
                        }
                        _ => return self.err("phi label"),
                    }
                    self.exp_p(']')?;
                    if !self.eat_p(',') {
                        break;
                    }
                    if matches!(self.peek(), Some(Tok::M)) {
                        break;
                    }
                }
                Inst::Phi(t, v, vec![])
            }
            "load" => {
                if self.eat_w("atomic") || self.eat_w("volatile") {}
                let t = self.ty()?;
                self.exp_p(',')?;
                let pt = self.ty()?;
                let p = self.val(&pt)?;
                let al = self.tail_align();
                Inst::Load(t, p, al)
            }
            "store" => {
                if self.eat_w("atomic") || self.eat_w("volatile") {}
                let t = self.ty()?;
                let v = self.val(&t)?;
                self.exp_p(',')?;
                let pt = self.ty()?;
                let p = self.val(&pt)?;
                let al = self.tail_align();
                Inst::Store(t, v, p, al)
            }
            "alloca" => {
                self.eat_w("inalloca");
                let t = self.ty()?;
                let al = self.tail_align();
                Inst::Alloca(t.size(), al.max(1))
            }
            "getelementptr" => {
                while matches!(self.peek(), Some(Tok::W(x)) if matches!(x.as_str(), "inbounds"|"nuw"|"nusw")) {
                    self.i += 1;
                }
                let et = self.ty()?;
                self.exp_p(',')?;
                let bt = self.ty()?;
                let base = self.val(&bt)?;
                let mut off = 0i64;
                let mut dynv = vec![];
                let mut cur = et;
                let mut first = true;
                while self.eat_p(',') {
                    if matches!(self.peek(), Some(Tok::M)) {
                        break;
                    }
                    let it = self.ty()?;
                    let iv = self.val(&it)?;
                    let (scale, next) = if first {
                        (cur.size() as i64, None)
                    } else {
                        match &cur {
                            Ty::Struct(..) => match &iv {
                                Op::C(Cv::Int(x)) => {
                                    off += cur.field_offset(*x as usize) as i64;
                                    (0, Some(cur.field(*x as usize)))
                                }
                                _ => return self.err("gep struct idx"),
                            },
                            Ty::Array(_, t) | Ty::Vec(_, t) => (t.size() as i64, Some((**t).clone())),
                            _ => return self.err("gep ty"),
                        }
                    };
                    first = false;
                    if scale != 0 {
                        match iv {
                            Op::C(Cv::Int(x)) => off += sext_i64(x, it.bits()) * scale,
                            o => dynv.push((o, it.bits(), scale)),
                        }
                    }
                    if let Some(n) = next {
                        cur = n;
                    }
                }
                Inst::Gep(base, off, dynv)
            }
            "extractvalue" => {
                let t = self.ty()?;
                let a = self.val(&t)?;
                let mut idx = vec![];
                while self.eat_p(',') {
                    if matches!(self.peek(), Some(Tok::M)) {
                        break;
                    }
                    idx.push(self.word()?.parse().unwrap());
                }
                Inst::Extract(t, a, idx)
            }
            "insertvalue" => {
                let t = self.ty()?;
                let a = self.val(&t)?;
                self.exp_p(',')?;
                let t2 = self.ty()?;
                let b = self.val(&t2)?;
                let mut idx = vec![];
                while self.eat_p(',') {
                    if matches!(self.peek(), Some(Tok::M)) {
                        break;
                    }
                    idx.push(self.word()?.parse().unwrap());
                }
                Inst::Insert(t, a, t2, b, idx)
            }
            "br" => {
                if self.is_w("label") {
                    Inst::Br(self.label()?, 0)
                } else {
                    let t = self.ty()?;
                    let c = self.val(&t)?;
                    self.exp_p(',')?;
                    let a = self.label()?;
                    self.exp_p(',')?;
                    let b = self.label()?;
                    Inst::CondBr(c, a, b, 0, 0)
                }
            }
            "switch" => {
                let t = self.ty()?;
                let v = self.val(&t)?;
                self.exp_p(',')?;
                let d = self.label()?;
                self.exp_p('[')?;
                let mut cases = vec![];
                while !self.eat_p(']') {
                    let ct = self.ty()?;
                    let cvv = match self.cv(&ct)? {
                        Cv::Int(x) => x,
                        _ => return self.err("switch case"),
                    };
                    self.exp_p(',')?;
                    let l = self.label()?;
                    cases.push((cvv, l));
                }
                Inst::Switch(t, v, d, cases, 0, vec![])
            }
            "ret" => {
                let t = self.ty()?;
                if t == Ty::Void {
                    Inst::Ret(t, None)
                } else {
                    let v = self.val(&t)?;
                    Inst::Ret(t, Some(v))
                }
            }
            "unreachable" => Inst::Unreachable,
            "fence" => Inst::Nop,
            _ => Inst::Unsupported(self.src.trim().to_string()),
        };
        Ok(I { dst, i })
    }
}

pub fn sext_i64(x: u128, bits: u32) -> i64 {
    if bits >= 64 {
        x as u64 as i64
    } else {
        let s = 64 - bits;
        (((x as u64) << s) as i64) >> s
    }
}

pub fn parse(text: &str) -> Result<Module, String> {
    let mut m = Module::default();
    let lines: Vec<&str> = text.lines().collect();
    let mut dummy = HashMap::new();
    // named types first
    let type_lines: Vec<&&str> = lines.iter().filter(|l| l.starts_with('%') && l.contains(" = type ")).collect();
    // repeatedly: a definition may use a later one
    for _ in 0..=type_lines.len() {
        for l in &type_lines {
            let t = lex(l);
            let name = match &t[0] {
                Tok::L(n) => n.clone(),
                _ => continue,
            };
            let types = m.types.clone();
            let mut p = P { t, i: 3, types: &types, regs: &mut dummy, src: l };
            if let Ok(ty) = p.ty() {
                m.types.insert(name, ty);
            }
        }
    }
    let types = m.types.clone();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with('@') {
            let t = lex(l);
            let name = match &t[0] {
                Tok::G(n) => n.clone(),
                _ => return Err("global".into()),
            };
            let mut k = 2;
            let mut constant = false;
            let mut external = false;
            let mut alias = false;
            while let Some(Tok::W(w)) = t.get(k) {
                match w.as_str() {
                    "constant" => {
                        constant = true;
                        k += 1;
                        break;
                    }
                    "global" => {
                        k += 1;
                        break;
                    }
                    "alias" => {
                        alias = true;
                        k += 1;
                        break;
                    }
                    "external" | "extern_weak" => {
                        external = true;
                        k += 1;
                    }
                    "thread_local" => {
                        k += 1;
                        if t.get(k) == Some(&Tok::P('(')) {
                            k += 3;
                        }
                    }
                    _ => k += 1,
                }
            }
            let mut p = P { t, i: k, types: &types, regs: &mut dummy, src: l };
            if alias {
                let _ = p.ty()?;
                if p.is_p('(') {
                    p.skip_parens();
                }
                p.exp_p(',')?;
                let _ = p.ty()?;
                if let Ok(Cv::Global(g)) = p.cv(&Ty::Ptr) {
                    m.aliases.insert(name, g);
                }
                i += 1;
                continue;
            }
            let ty = p.ty()?;
            let init = if external { None } else { Some(p.cv(&ty)?) };
            let align = p.tail_align().max(ty.align());
            m.globals.push(Global { name, ty, init, align, constant });
            i += 1;
        } else if l.starts_with("define ") {
            let start = i;
            let t = lex(l);
            let mut regs: HashMap<String, u32> = HashMap::new();
            let (name, params, ret);
            {
                let mut p = P { t, i: 1, types: &types, regs: &mut regs, src: l };
                // linkage etc.
                p.skip_attrs();
                ret = p.ty()?;
                p.skip_attrs();
                name = match p.peek().cloned() {
                    Some(Tok::G(n)) => n,
                    _ => return p.err("fn name"),
                };
                p.i += 1;
                p.exp_p('(')?;
                let mut ps = vec![];
                if !p.eat_p(')') {
                    let mut unn = 0;
                    loop {
                        if p.is_w("...") {
                            p.i += 1;
                        } else {
                            let ty = p.ty()?;
                            p.skip_attrs();
                            let r = match p.peek().cloned() {
                                Some(Tok::L(n)) => {
                                    p.i += 1;
                                    p.reg(&n)
                                }
                                _ => {
                                    let n = format!("{}", unn);
                                    p.reg(&n)
                                }
                            };
                            unn += 1;
                            ps.push((ty, r));
                        }
                        if p.eat_p(')') {
                            break;
                        }
                        p.exp_p(',')?;
                    }
                }
                params = ps;
            }
            i += 1;
            let mut blocks: Vec<Block> = vec![];
            while lines[i] != "}" {
                let mut bl = lines[i].to_string();
                i += 1;
                if bl.is_empty() {
                    continue;
                }
                let tb = bl.trim_start().to_string();
                if tb.starts_with(';') || tb.starts_with("#dbg_") {
                    continue;
                }
                if !bl.starts_with(' ') {
                    // label
                    let nm = if bl.starts_with('"') {
                        bl[1..].split('"').next().unwrap().to_string()
                    } else {
                        bl.split(':').next().unwrap().to_string()
                    };
                    blocks.push(Block { name: nm, insts: vec![] });
                    continue;
                }
                if blocks.is_empty() {
                    let nm = format!("{}", params.len());
                    blocks.push(Block { name: nm, insts: vec![] });
                }
                if tb.starts_with("switch") {
                    while !bl.contains(']') {
                        bl.push(' ');
                        bl.push_str(lines[i].trim());
                        i += 1;
                    }
                }
                if tb.starts_with("invoke") || tb.contains("= invoke ") {
                    bl.push(' ');
                    bl.push_str(lines[i].trim());
                    i += 1;
                    let toks = lex(&bl);
                    let mut p = P { t: toks, i: 0, types: &types, regs: &mut regs, src: &bl };
                    let mut dst = None;
                    if let Some(Tok::L(n)) = p.peek().cloned() {
                        p.i += 2;
                        dst = Some(p.reg(&n));
                    }
                    p.i += 1; // invoke
                    let (c, a, r) = p.call()?;
                    while !p.is_w("to") && p.peek().is_some() {
                        p.i += 1;
                    }
                    p.i += 1;
                    let lab = p.label()?;
                    let b = blocks.last_mut().unwrap();
                    b.insts.push(I { dst, i: Inst::Call(c, a, r) });
                    b.insts.push(I { dst: None, i: Inst::Br(lab, 0) });
                    continue;
                }
                if tb.contains("= landingpad") || tb.starts_with("landingpad") {
                    // consume clause lines
                    while lines[i].trim_start().starts_with("cleanup")
                        || lines[i].trim_start().starts_with("catch")
                        || lines[i].trim_start().starts_with("filter")
                    {
                        i += 1;
                    }
                    blocks.last_mut().unwrap().insts.push(I { dst: None, i: Inst::Unsupported("landingpad".into()) });
                    continue;
                }
                let toks = lex(&bl);
                let mut p = P { t: toks, i: 0, types: &types, regs: &mut regs, src: &bl };
                let ins = match p.inst() {
                    Ok(x) => x,
                    Err(e) => I { dst: None, i: Inst::Unsupported(e) },
                };
                blocks.last_mut().unwrap().insts.push(ins);
            }
            i += 1;
            // resolve labels
            let bi: HashMap<String, u32> = blocks.iter().enumerate().map(|(k, b)| (b.name.clone(), k as u32)).collect();
            let find = |n: &str| -> Result<u32, String> { bi.get(n).copied().ok_or_else(|| format!("label {} in {}", n, name)) };
            for b in blocks.iter_mut() {
                for x in b.insts.iter_mut() {
                    match &mut x.i {
                        Inst::Br(l, k) => *k = find(l)?,
                        Inst::CondBr(_, a, b2, x1, x2) => {
                            *x1 = find(a)?;
                            *x2 = find(b2)?;
                        }
                        Inst::Switch(_, _, d, cs, dk, ck) => {
                            *dk = find(d)?;
                            *ck = cs.iter().map(|(v, l)| find(l).map(|k| (*v, k))).collect::<Result<Vec<_>, _>>()?;
                        }
                        Inst::Phi(_, v, o) => {
                            *o = v.iter().map(|(a, l)| find(l).map(|k| (a.clone(), k))).collect::<Result<Vec<_>, _>>()?;
                        }
                        _ => {}
                    }
                }
            }
            let nregs = regs.len() as u32;
            m.fidx.insert(name.clone(), m.funcs.len());
            m.funcs.push(Func { name, params, ret, blocks, nregs, lines: (i - start) as u32 });
        } else {
            i += 1;
        }
    }
    Ok(m)
}

//! Reader for textual LLVM IR. Functions are decoded on first call.
use crate::expr::{mask, Op};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F64,
    F32,
    Struct(Vec<Ty>, bool),
    Array(u64, Box<Ty>),
    Vect(u64, Box<Ty>),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Array(_, t) => t.align(),
            Ty::Vect(..) => self.size().next_power_of_two(),
            _ => 1,
        }
    }
    /// Allocation size (including tail padding).
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((w + 7) / 8) as u64;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            Ty::Array(n, t) => n * t.size(),
            Ty::Vect(n, t) => match **t {
                Ty::Int(w) => (n * w as u64 + 7) / 8,
                _ => n * t.size(),
            },
            _ => 0,
        }
    }
    /// Bytes a scalar occupies when stored.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((w + 7) / 8) as u64,
            _ => self.size(),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Array(_, t) | Ty::Vect(_, t) => i as u64 * t.size(),
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i],
            Ty::Array(_, t) | Ty::Vect(_, t) => t,
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Array(n, _) | Ty::Vect(n, _) => *n as usize,
            _ => 0,
        }
    }
    /// Width in bits of a scalar type.
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Array(..) | Ty::Vect(..))
    }
}

#[derive(Clone, Debug)]
pub enum Cv {
    S(u128),
    A(Rc<Vec<Cv>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    K(Cv),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit,
    UToF,
    SToF,
    FToU,
    FToS,
    FExt,
    FTrunc,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opd),
    Name(Rc<str>),
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub callee: Callee,
    pub args: Vec<Opd>,
    pub ret: Ty,
    pub atys: Vec<Ty>,
    pub normal: Option<u32>, // invoke: block to continue in
    pub byval: Vec<Option<u64>>,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(Op, Ty, Opd, Opd),
    FRem(Ty, Opd, Opd),
    FNeg(Ty, Opd),
    /// swap operands / negate flags resolved at decode time
    ICmp(Op, bool, bool, Ty, Opd, Opd),
    FCmp(u8, Ty, Opd, Opd),
    Cast(Cast, Ty, Ty, Opd),
    Select(Opd, Ty, Opd, Opd, bool),
    Alloca(u64, Opd),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Opd, i64, Vec<(i64, Opd, u32)>),
    Call(Box<CallI>),
    ExtractValue(Opd, Vec<u32>),
    InsertValue(Opd, Opd, Vec<u32>, Ty),
    ExtractElem(Opd, Opd),
    InsertElem(Opd, Opd, Opd),
    Shuffle(Opd, Opd, Vec<Option<usize>>, usize),
    Rmw(u8, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Nop,
    Copy(Opd),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    Resume,
}

pub struct Inst {
    pub dst: u32, // u32::MAX: none
    pub i: I,
    pub dbg: u32,
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
    pub first: u32, // global number of first instruction
}

pub struct Body {
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}

pub struct Func {
    pub name: Rc<str>,
    pub addr: u128,
    pub lines: Option<(usize, usize)>,
    pub noreturn: bool,
    pub body: Option<Rc<Body>>,
    pub dbg: u32,
}

pub struct Global {
    pub name: String,
    pub addr: u128,
    pub constant: bool,
    pub size: u64,
    pub ty: Ty,
    pub init: Option<String>,
}

pub const BASE_OFF: u128 = 0x10000;

pub struct Module {
    pub src: Rc<Vec<String>>,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub syms: HashMap<String, u128>,
    pub named: HashMap<String, Ty>,
    pub attrs_noreturn: HashMap<u32, bool>,
    pub md: HashMap<u32, usize>,
    pub ninsts: u32,
    pub nids: u64,
}

// ---------- lexer ----------
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    W(String),
    L(String),
    G(String),
    S(Vec<u8>),
    P(char),
    M(String), // !name or !123
    Attr(u32),
}

pub fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                // comment to end of line
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let mut j = i + 1;
                let name;
                if j < b.len() && b[j] == b'"' {
                    let st = j + 1;
                    j += 1;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    name = s[st..j].to_string();
                    j += 1;
                } else {
                    while j < b.len() && idc(b[j]) {
                        j += 1;
                    }
                    name = s[i + 1..j].to_string();
                }
                out.push(if c == b'%' { T::L(name) } else { T::G(name) });
                i = j;
            }
            b'"' => {
                let (v, j) = lex_str(b, i + 1);
                out.push(T::S(v));
                i = j;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let (v, j) = lex_str(b, i + 2);
                out.push(T::S(v));
                i = j;
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                out.push(T::M(s[i + 1..j].to_string()));
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1;
                }
                if j > i + 1 {
                    out.push(T::Attr(s[i + 1..j].parse().unwrap()));
                } else {
                    out.push(T::P('#'));
                }
                i = j;
            }
            _ if idc(c) || c == b'+' => {
                let mut j = i + 1;
                while j < b.len() && (idc(b[j]) || (b[j] == b'+' && (b[j - 1] == b'e'))) {
                    j += 1;
                }
                out.push(T::W(s[i..j].to_string()));
                i = j;
            }
            _ => {
                out.push(T::P(c as char));
                i += 1;
            }
        }
    }
    out
}

fn lex_str(b: &[u8], mut j: usize) -> (Vec<u8>, usize) {
    let mut v = Vec::new();
    while b[j] != b'"' {
        if b[j] == b'\\' {
            if b[j + 1] == b'\\' {
                v.push(b'\\');
                j += 2;
            } else {
                let h = |c: u8| (c as char).to_digit(16).unwrap() as u8;
                v.push(h(b[j + 1]) * 16 + h(b[j + 2]));
                j += 3;
            }
        } else {
            v.push(b[j]);
            j += 1;
        }
    }
    (v, j + 1)
}

// ---------- parser over tokens ----------
pub struct Ps<'a> {
    t: Vec<T>,
    i: usize,
    syms: &'a HashMap<String, u128>,
    named: &'a HashMap<String, Ty>,
    regs: HashMap<String, u32>,
    nregs: u32,
    labels: HashMap<String, u32>,
}

type R<X> = Result<X, String>;

impl<'a> Ps<'a> {
    fn new(t: Vec<T>, syms: &'a HashMap<String, u128>, named: &'a HashMap<String, Ty>) -> Self {
        Ps { t, i: 0, syms, named, regs: HashMap::new(), nregs: 0, labels: HashMap::new() }
    }
    fn peek(&self) -> Option<&T> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<T> {
        let r = self.t.get(self.i).cloned().ok_or("unexpected end")?;
        self.i += 1;
        Ok(r)
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Some(T::P(d)) if *d == c)
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn want_p(&mut self, c: char) -> R<()> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("wanted '{}' at {:?}", c, &self.t[self.i.min(self.t.len())..(self.i + 6).min(self.t.len())]))
        }
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(T::W(x)) if x == w)
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> R<String> {
        match self.next()? {
            T::W(s) => Ok(s),
            t => Err(format!("wanted word, got {:?}", t)),
        }
    }
    fn skip_balanced(&mut self) {
        // at an opening bracket
        let mut d = 0;
        while let Some(t) = self.peek() {
            if let T::P(c) = t {
                match c {
                    '(' | '[' | '{' => d += 1,
                    ')' | ']' | '}' => d -= 1,
                    _ => {}
                }
            }
            self.i += 1;
            if d == 0 {
                return;
            }
        }
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Some(T::W(w)) => is_type_word(w),
            Some(T::P('{')) | Some(T::P('[')) | Some(T::P('<')) => true,
            Some(T::L(n)) => self.named.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = self.next()?;
        let r = match t {
            T::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => Ty::Ptr,
                "double" => Ty::F64,
                "float" => Ty::F32,
                "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80" | "bfloat" => Ty::Other,
                _ if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) => {
                    Ty::Int(w[1..].parse().unwrap())
                }
                _ => return Err(format!("unknown type {}", w)),
            },
            T::L(n) => self.named.get(&n).cloned().ok_or(format!("unknown named type {}", n))?,
            T::P('{') => {
                let f = self.ty_list('}')?;
                Ty::Struct(f, false)
            }
            T::P('[') => {
                let n: u64 = self.word()?.parse().map_err(|_| "array length")?;
                self.word()?; // x
                let e = self.ty()?;
                self.want_p(']')?;
                Ty::Array(n, Box::new(e))
            }
            T::P('<') => {
                if self.eat_p('{') {
                    let f = self.ty_list('}')?;
                    self.want_p('>')?;
                    Ty::Struct(f, true)
                } else {
                    let n: u64 = self.word()?.parse().map_err(|_| "vector length")?;
                    self.word()?;
                    let e = self.ty()?;
                    self.want_p('>')?;
                    Ty::Vect(n, Box::new(e))
                }
            }
            t => return Err(format!("type expected, got {:?}", t)),
        };
        Ok(r)
    }
    fn ty_list(&mut self, end: char) -> R<Vec<Ty>> {
        let mut f = Vec::new();
        if self.eat_p(end) {
            return Ok(f);
        }
        loop {
            f.push(self.ty()?);
            if self.eat_p(end) {
                return Ok(f);
            }
            self.want_p(',')?;
        }
    }
    /// Skip parameter/return attributes; report a byval size if there is one.
    fn attrs(&mut self) -> R<Option<u64>> {
        let mut byval = None;
        loop {
            match self.peek() {
                Some(T::W(w)) => {
                    let w = w.clone();
                    if is_type_word(&w) || is_value_word(&w) {
                        return Ok(byval);
                    }
                    self.i += 1;
                    if self.is_p('(') {
                        if w == "byval" {
                            self.i += 1;
                            let t = self.ty()?;
                            byval = Some(t.size());
                            self.want_p(')')?;
                        } else {
                            self.skip_balanced();
                        }
                    } else if w == "align" || w == "alignstack" {
                        self.i += 1;
                    }
                }
                Some(T::S(_)) if self.t.get(self.i + 1) == Some(&T::P('=')) => self.i += 3,
                Some(T::Attr(_)) => self.i += 1,
                _ => return Ok(byval),
            }
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.regs.get(n) {
            return r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn label(&mut self) -> R<u32> {
        self.eat_w("label");
        match self.next()? {
            T::L(n) => self.labels.get(&n).cloned().ok_or(format!("no block {}", n)),
            t => Err(format!("label expected, got {:?}", t)),
        }
    }
    fn opd(&mut self, ty: &Ty) -> R<Opd> {
        if let Some(T::L(n)) = self.peek() {
            let n = n.clone();
            self.i += 1;
            return Ok(Opd::Reg(self.reg(&n)));
        }
        Ok(Opd::K(self.constant(ty)?))
    }
    fn tyopd(&mut self) -> R<(Ty, Opd)> {
        let t = self.ty()?;
        self.attrs()?;
        let o = self.opd(&t)?;
        Ok((t, o))
    }
    pub fn zero(ty: &Ty) -> Cv {
        if ty.is_agg() {
            Cv::A(Rc::new((0..ty.count()).map(|i| Self::zero(ty.elem(i))).collect()))
        } else {
            Cv::S(0)
        }
    }
    fn constant(&mut self, ty: &Ty) -> R<Cv> {
        let t = self.next()?;
        match t {
            T::G(n) => self.syms.get(&n).map(|a| Cv::S(*a)).ok_or(format!("unknown global {}", n)),
            T::S(v) => Ok(Cv::A(Rc::new(v.into_iter().map(|b| Cv::S(b as u128)).collect()))),
            T::P('{') | T::P('[') => {
                let end = if t == T::P('{') { '}' } else { ']' };
                self.agg(end)
            }
            T::P('<') => {
                if self.eat_p('{') {
                    let r = self.agg('}')?;
                    self.want_p('>')?;
                    Ok(r)
                } else {
                    self.agg('>')
                }
            }
            T::M(_) => Ok(Cv::S(0)),
            T::W(w) => match w.as_str() {
                "zeroinitializer" | "undef" | "poison" | "none" => Ok(Self::zero(ty)),
                "null" | "false" => Ok(Cv::S(0)),
                "true" => Ok(Cv::S(1)),
                "splat" => {
                    self.want_p('(')?;
                    let (_, o) = self.tyopd()?;
                    self.want_p(')')?;
                    let Opd::K(v) = o else { return Err("splat".into()) };
                    Ok(Cv::A(Rc::new(vec![v; ty.count()])))
                }
                "getelementptr" => {
                    while let Some(T::W(x)) = self.peek() {
                        if ["inbounds", "nuw", "nusw", "inrange"].contains(&x.as_str()) {
                            self.i += 1;
                            if self.is_p('(') && x_is(&self.t, self.i - 1, "inrange") {
                                self.skip_balanced();
                            }
                        } else {
                            break;
                        }
                    }
                    self.want_p('(')?;
                    let et = self.ty()?;
                    self.want_p(',')?;
                    let (_, p) = self.tyopd()?;
                    let mut idx = Vec::new();
                    while self.eat_p(',') {
                        idx.push(self.tyopd()?);
                    }
                    self.want_p(')')?;
                    let (off, dynm) = gep_fold(&et, &idx)?;
                    let (Opd::K(Cv::S(b)), true) = (p, dynm.is_empty()) else {
                        return Err("gep constant".into());
                    };
                    Ok(Cv::S(b.wrapping_add(off as i128 as u128) & mask(64)))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" => {
                    self.want_p('(')?;
                    let (_, o) = self.tyopd()?;
                    self.word()?;
                    let t2 = self.ty()?;
                    self.want_p(')')?;
                    match o {
                        Opd::K(Cv::S(v)) => Ok(Cv::S(v & mask(t2.bits()))),
                        _ => Err("constant cast".into()),
                    }
                }
                "sub" | "add" | "xor" => {
                    while let Some(T::W(_)) = self.peek() {
                        self.i += 1;
                    }
                    self.want_p('(')?;
                    let (t1, a) = self.tyopd()?;
                    self.want_p(',')?;
                    let (_, b) = self.tyopd()?;
                    self.want_p(')')?;
                    match (a, b) {
                        (Opd::K(Cv::S(a)), Opd::K(Cv::S(b))) => Ok(Cv::S(
                            (match w.as_str() {
                                "add" => a.wrapping_add(b),
                                "sub" => a.wrapping_sub(b),
                                _ => a ^ b,
                            }) & mask(t1.bits()),
                        )),
                        _ => Err("constant arithmetic".into()),
                    }
                }
                _ => self.number(&w, ty),
            },
            t => Err(format!("constant expected, got {:?}", t)),
        }
    }
    fn number(&mut self, w: &str, ty: &Ty) -> R<Cv> {
        match ty {
            Ty::F64 | Ty::F32 => {
                let f = if let Some(h) = w.strip_prefix("0x") {
                    f64::from_bits(u64::from_str_radix(h, 16).map_err(|_| format!("fp {}", w))?)
                } else if let Some(h) = w.strip_prefix("f0x") {
                    if *ty == Ty::F64 {
                        f64::from_bits(u64::from_str_radix(h, 16).map_err(|_| format!("fp {}", w))?)
                    } else {
                        f32::from_bits(u32::from_str_radix(h, 16).map_err(|_| format!("fp {}", w))?)
                            as f64
                    }
                } else if let Some(n) = w.strip_prefix('+').or(w.strip_prefix('-')).filter(|n| n.ends_with("nan") || *n == "inf") {
                    // +inf, -qnan, +nan(0x1), +snan(0x1)
                    let payload = if self.peek() == Some(&T::P('(')) {
                        self.i += 1;
                        let Some(T::W(h)) = self.peek().cloned() else { return Err(format!("fp {}", w)) };
                        self.i += 1;
                        self.want_p(')')?;
                        u64::from_str_radix(h.trim_start_matches("0x"), 16).map_err(|_| format!("fp {}", w))?
                    } else {
                        0
                    };
                    let neg = w.starts_with('-') as u64;
                    let quiet = (n == "qnan") as u64;
                    return Ok(Cv::S(if *ty == Ty::F64 {
                        neg << 63 | 0x7ff << 52 | quiet << 51 | payload
                    } else {
                        neg << 31 | 0xff << 23 | quiet << 22 | payload
                    } as u128));
                } else {
                    w.parse::<f64>().map_err(|_| format!("fp {}", w))?
                };
                Ok(Cv::S(if *ty == Ty::F64 {
                    f.to_bits() as u128
                } else {
                    (f as f32).to_bits() as u128
                }))
            }
            _ => {
                let m = mask(if ty.is_agg() { return Err(format!("number {} for {:?}", w, ty)) } else { ty.bits() });
                if let Some(n) = w.strip_prefix('-') {
                    let v: u128 = n.parse().map_err(|_| format!("number {}", w))?;
                    Ok(Cv::S(v.wrapping_neg() & m))
                } else {
                    let v: u128 = w.parse().map_err(|_| format!("number {}", w))?;
                    Ok(Cv::S(v & m))
                }
            }
        }
    }
    fn agg(&mut self, end: char) -> R<Cv> {
        let mut v = Vec::new();
        if self.eat_p(end) {
            return Ok(Cv::A(Rc::new(v)));
        }
        loop {
            let (_, o) = self.tyopd()?;
            let Opd::K(c) = o else { return Err("aggregate element".into()) };
            v.push(c);
            if self.eat_p(end) {
                return Ok(Cv::A(Rc::new(v)));
            }
            self.want_p(',')?;
        }
    }
    fn flags(&mut self) {
        while let Some(T::W(w)) = self.peek() {
            if [
                "nuw", "nsw", "exact", "disjoint", "nneg", "inbounds", "nusw", "samesign", "fast", "nnan",
                "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "volatile", "atomic", "weak",
                "tail", "musttail", "notail",
            ]
            .contains(&w.as_str())
            {
                self.i += 1;
            } else {
                break;
            }
        }
    }
}

fn x_is(t: &[T], i: usize, w: &str) -> bool {
    matches!(&t[i], T::W(x) if x == w)
}
fn is_type_word(w: &str) -> bool {
    matches!(w, "void" | "ptr" | "double" | "float" | "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80")
        || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
}
fn is_value_word(w: &str) -> bool {
    matches!(
        w,
        "zeroinitializer" | "undef" | "poison" | "none" | "null" | "false" | "true" | "splat" | "getelementptr"
            | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "add" | "sub" | "xor" | "addrspacecast" | "blockaddress"
            | "asm"
    ) || w.starts_with(|c: char| c.is_ascii_digit() || c == '-' || c == '+')
        || w.starts_with("f0x")
}

fn gep_fold(et: &Ty, idx: &[(Ty, Opd)]) -> R<(i64, Vec<(i64, Opd, u32)>)> {
    let mut off = 0i64;
    let mut dynm = Vec::new();
    let mut cur = et.clone();
    for (k, (it, o)) in idx.iter().enumerate() {
        let w = it.bits();
        if k == 0 {
            let sz = et.size() as i64;
            match o {
                Opd::K(Cv::S(v)) => off = off.wrapping_add((crate::expr::sext(*v, w) as i64).wrapping_mul(sz)),
                _ => dynm.push((sz, o.clone(), w)),
            }
            continue;
        }
        match &cur {
            Ty::Struct(f, _) => {
                let Opd::K(Cv::S(v)) = o else { return Err("struct gep".into()) };
                off = off.wrapping_add(cur.field_off(*v as usize) as i64);
                cur = f[*v as usize].clone();
            }
            Ty::Array(_, e) | Ty::Vect(_, e) => {
                let sz = e.size() as i64;
                match o {
                    Opd::K(Cv::S(v)) => {
                        off = off.wrapping_add((crate::expr::sext(*v, w) as i64).wrapping_mul(sz))
                    }
                    _ => dynm.push((sz, o.clone(), w)),
                }
                cur = (**e).clone();
            }
            _ => return Err("gep into scalar".into()),
        }
    }
    Ok((off, dynm))
}

// ---------- module ----------
impl Module {
    pub fn load(text: &str) -> R<Module> {
        let src: Vec<String> = text.lines().map(|l| l.to_string()).collect();
        let mut m = Module {
            src: Rc::new(Vec::new()),
            funcs: Vec::new(),
            fidx: HashMap::new(),
            globals: Vec::new(),
            syms: HashMap::new(),
            named: HashMap::new(),
            attrs_noreturn: HashMap::new(),
            md: HashMap::new(),
            ninsts: 0,
            nids: 1,
        };
        let mut i = 0;
        let mut aliases = Vec::new();
        // attributes first
        for l in src.iter().rev() {
            if let Some(r) = l.strip_prefix("attributes #") {
                if let Some(sp) = r.find(' ') {
                    if let Ok(n) = r[..sp].parse::<u32>() {
                        m.attrs_noreturn.insert(n, r.contains(" noreturn ") || r.contains(" noreturn}"));
                    }
                }
            }
        }
        while i < src.len() {
            let l = &src[i];
            if l.starts_with('%') {
                // named type
                if let Some(eq) = l.find(" = type ") {
                    let name = l[1..eq].trim_matches('"').to_string();
                    let body = &l[eq + 8..];
                    let named = m.named.clone();
                    let syms = HashMap::new();
                    let mut p = Ps::new(lex(body), &syms, &named);
                    let t = p.ty().unwrap_or(Ty::Other);
                    m.named.insert(name, t);
                }
            } else if l.starts_with('@') {
                let t = lex(l);
                let T::G(name) = t[0].clone() else { return Err(format!("global {}", l)) };
                if t.iter().take(14).any(|x| matches!(x, T::W(w) if w == "alias")) {
                    aliases.push((name, t));
                } else {
                    // skip linkage words up to global/constant
                    let mut k = 2;
                    let mut constant = false;
                    let mut external = false;
                    while k < t.len() {
                        match &t[k] {
                            T::W(w) if w == "global" => break,
                            T::W(w) if w == "constant" => {
                                constant = true;
                                break;
                            }
                            T::W(w) if w == "external" || w == "extern_weak" => {
                                external = true;
                                k += 1;
                            }
                            _ => k += 1,
                        }
                    }
                    let named = m.named.clone();
                    let syms = HashMap::new();
                    let mut p = Ps::new(t[k + 1..].to_vec(), &syms, &named);
                    let ty = p.ty()?;
                    let id = m.nids;
                    m.nids += 1;
                    let addr = ((id as u128) << 32) + BASE_OFF;
                    m.syms.insert(name.clone(), addr);
                    let size = ty.size();
                    m.globals.push(Global {
                        name,
                        addr,
                        constant,
                        size,
                        ty,
                        init: if external { None } else { Some(l.clone()) },
                    });
                }
            } else if l.starts_with("define ") || l.starts_with("declare ") {
                let at = l.find('@').ok_or("no name")?;
                let t = lex(&l[at..]);
                let T::G(name) = t[0].clone() else { return Err(format!("function {}", l)) };
                let noreturn = t
                    .iter()
                    .any(|x| matches!(x, T::Attr(n) if *m.attrs_noreturn.get(n).unwrap_or(&false)));
                let mut dbg = 0;
                for k in 0..t.len() {
                    if let (T::M(a), Some(T::M(b))) = (&t[k], t.get(k + 1)) {
                        if a == "dbg" {
                            dbg = b.parse().unwrap_or(0);
                        }
                    }
                }
                let lines = if l.starts_with("define ") {
                    let st = i;
                    while src[i] != "}" {
                        i += 1;
                    }
                    Some((st, i))
                } else {
                    None
                };
                let id = m.nids;
                m.nids += 1;
                let addr = ((id as u128) << 32) + BASE_OFF;
                m.syms.insert(name.clone(), addr);
                m.fidx.insert(name.clone(), m.funcs.len() as u32);
                m.funcs.push(Func { name: name.as_str().into(), addr, lines, noreturn, body: None, dbg });
            } else if l.starts_with('!') {
                if let Some(sp) = l.find(' ') {
                    if let Ok(n) = l[1..sp].parse::<u32>() {
                        m.md.insert(n, i);
                    }
                }
            }
            i += 1;
        }
        for (name, t) in aliases {
            if let Some(T::G(tgt)) = t.iter().skip(1).find(|x| matches!(x, T::G(_))) {
                if let Some(&a) = m.syms.get(tgt) {
                    m.syms.insert(name.clone(), a);
                    if let Some(&f) = m.fidx.get(tgt) {
                        m.fidx.insert(name, f);
                    }
                }
            }
        }
        m.src = Rc::new(src);
        Ok(m)
    }

    fn addr_map(&self) -> HashMap<u128, u32> {
        self.funcs.iter().enumerate().map(|(i, f)| (f.addr, i as u32)).collect()
    }
    pub fn func_map(&self) -> HashMap<u128, u32> {
        self.addr_map()
    }

    /// The initial bytes of a global.
    pub fn init_bytes(&self, g: &Global) -> R<Vec<u8>> {
        let mut out = vec![0u8; g.size as usize];
        if let Some(l) = &g.init {
            let t = lex(l);
            let k = t
                .iter()
                .position(|x| matches!(x, T::W(w) if w == "global" || w == "constant"))
                .ok_or("global")?;
            let mut p = Ps::new(t[k + 1..].to_vec(), &self.syms, &self.named);
            let ty = p.ty()?;
            let c = p.constant(&ty)?;
            flatten(&ty, &c, &mut out, 0);
        }
        Ok(out)
    }

    pub fn body(&mut self, f: u32) -> R<Rc<Body>> {
        if let Some(b) = &self.funcs[f as usize].body {
            return Ok(b.clone());
        }
        let (a, b) = self.funcs[f as usize].lines.ok_or("no body")?;
        let src = self.src.clone();
        let body = self
            .decode(&src[a..=b])
            .map_err(|e| format!("in {}: {}", self.funcs[f as usize].name, e))?;
        let r = Rc::new(body);
        self.funcs[f as usize].body = Some(r.clone());
        Ok(r)
    }

    fn decode(&mut self, lines: &[String]) -> R<Body> {
        let syms = std::mem::take(&mut self.syms);
        let named = std::mem::take(&mut self.named);
        let mut n = self.ninsts;
        let r = decode_body(lines, &syms, &named, &self.fidx, &mut n);
        self.ninsts = n;
        self.syms = syms;
        self.named = named;
        r
    }
}

pub fn flatten(ty: &Ty, c: &Cv, out: &mut [u8], off: usize) {
    match c {
        Cv::S(v) => {
            let n = ty.store_size() as usize;
            for i in 0..n {
                out[off + i] = (v >> (8 * i)) as u8;
            }
        }
        Cv::A(v) => {
            for (i, x) in v.iter().enumerate() {
                flatten(ty.elem(i), x, out, off + ty.field_off(i) as usize);
            }
        }
    }
}

fn decode_body(
    lines: &[String],
    syms: &HashMap<String, u128>,
    named: &HashMap<String, Ty>,
    fidx: &HashMap<String, u32>,
    ninsts: &mut u32,
) -> R<Body> {
    // header: parameters
    let h = &lines[0];
    let at = h.find('@').unwrap();
    let mut p = Ps::new(lex(&h[at..]), syms, named);
    p.next()?;
    p.want_p('(')?;
    let mut params = Vec::new();
    let mut unnamed = 0;
    if !p.eat_p(')') {
        loop {
            if p.eat_p('.') || matches!(p.peek(), Some(T::W(w)) if w.starts_with("..")) {
                p.i += 1;
            } else {
                let _t = p.ty()?;
                p.attrs()?;
                let r = if let Some(T::L(nm)) = p.peek() {
                    let nm = nm.clone();
                    p.i += 1;
                    p.reg(&nm)
                } else {
                    let nm = unnamed.to_string();
                    p.reg(&nm)
                };
                unnamed += 1;
                params.push(r);
            }
            if p.eat_p(')') {
                break;
            }
            p.want_p(',')?;
        }
    }
    // group physical lines into logical ones and find the labels
    let mut logical: Vec<(bool, String)> = Vec::new(); // (is label, text)
    for l in &lines[1..lines.len() - 1] {
        if l.trim().is_empty() || l.starts_with(';') {
            continue;
        }
        if !l.starts_with(' ') {
            // label
            let c = if let Some(r) = l.strip_prefix('"') {
                r[..r.find('"').unwrap()].to_string()
            } else {
                l[..l.find(':').ok_or(format!("label? {}", l))?].to_string()
            };
            logical.push((true, c));
        } else if l.starts_with("    ") || l.starts_with("  ]") || l.starts_with("          ") {
            if l.trim_start().starts_with("#dbg") {
                continue;
            }
            let last = logical.last_mut().ok_or("continuation")?;
            last.1.push(' ');
            last.1.push_str(l.split(" ; ").next().unwrap_or(l));
        } else {
            if l.trim_start().starts_with("#dbg") {
                continue;
            }
            logical.push((false, l.clone()));
        }
    }
    let mut blocks: Vec<Block> = Vec::new();
    if logical.first().map(|x| !x.0).unwrap_or(false) {
        // entry block without a label: its implicit number is the count of unnamed parameters
        logical.insert(0, (true, unnamed.to_string()));
    }
    let mut nb = 0;
    for (is, t) in &logical {
        if *is {
            p.labels.insert(t.clone(), nb);
            nb += 1;
        }
    }
    for (is, t) in &logical {
        if *is {
            blocks.push(Block { phis: vec![], insts: vec![], first: 0 });
            continue;
        }
        p.t = lex(t);
        p.i = 0;
        let mut dbg = 0;
        for k in 0..p.t.len() {
            if let (T::M(a), Some(T::M(b))) = (&p.t[k], p.t.get(k + 1)) {
                if a == "dbg" {
                    dbg = b.parse().unwrap_or(0);
                }
            }
        }
        let dst = if let (Some(T::L(nm)), Some(T::P('='))) = (p.t.get(0), p.t.get(1)) {
            let nm = nm.clone();
            p.i = 2;
            p.reg(&nm)
        } else {
            u32::MAX
        };
        let b = blocks.last_mut().unwrap();
        if p.is_w("phi") {
            p.i += 1;
            p.flags();
            let ty = p.ty()?;
            let mut inc = Vec::new();
            loop {
                p.want_p('[')?;
                let o = p.opd(&ty)?;
                p.want_p(',')?;
                let l = p.label()?;
                p.want_p(']')?;
                inc.push((l, o));
                if !p.eat_p(',') || !p.is_p('[') {
                    break;
                }
            }
            b.phis.push((dst, inc));
            continue;
        }
        let i = inst(&mut p, fidx).map_err(|e| format!("{} in: {}", e, t))?;
        if !matches!(i, I::Nop) {
            b.insts.push(Inst { dst, i, dbg });
        }
    }
    for b in blocks.iter_mut() {
        b.first = *ninsts;
        *ninsts += b.insts.len() as u32;
    }
    Ok(Body { nregs: p.nregs, params, blocks })
}

fn inst(p: &mut Ps, fidx: &HashMap<String, u32>) -> R<I> {
    p.flags(); // tail
    let op = p.word()?;
    let bin = |o: Op, p: &mut Ps| -> R<I> {
        p.flags();
        let (t, a) = p.tyopd()?;
        p.want_p(',')?;
        let b = p.opd(&t)?;
        Ok(I::Bin(o, t, a, b))
    };
    Ok(match op.as_str() {
        "add" => bin(Op::Add, p)?,
        "sub" => bin(Op::Sub, p)?,
        "mul" => bin(Op::Mul, p)?,
        "udiv" => bin(Op::UDiv, p)?,
        "sdiv" => bin(Op::SDiv, p)?,
        "urem" => bin(Op::URem, p)?,
        "srem" => bin(Op::SRem, p)?,
        "and" => bin(Op::And, p)?,
        "or" => bin(Op::Or, p)?,
        "xor" => bin(Op::Xor, p)?,
        "shl" => bin(Op::Shl, p)?,
        "lshr" => bin(Op::LShr, p)?,
        "ashr" => bin(Op::AShr, p)?,
        "fadd" => bin(Op::FAdd, p)?,
        "fsub" => bin(Op::FSub, p)?,
        "fmul" => bin(Op::FMul, p)?,
        "fdiv" => bin(Op::FDiv, p)?,
        "frem" => {
            let I::Bin(_, t, a, b) = bin(Op::FAdd, p)? else { unreachable!() };
            I::FRem(t, a, b)
        }
        "fneg" => {
            p.flags();
            let (t, a) = p.tyopd()?;
            I::FNeg(t, a)
        }
        "icmp" => {
            p.flags();
            let c = p.word()?;
            let (t, a) = p.tyopd()?;
            p.want_p(',')?;
            let b = p.opd(&t)?;
            let (o, swap, neg) = match c.as_str() {
                "eq" => (Op::Eq, false, false),
                "ne" => (Op::Eq, false, true),
                "ult" => (Op::Ult, false, false),
                "ule" => (Op::Ule, false, false),
                "ugt" => (Op::Ult, true, false),
                "uge" => (Op::Ule, true, false),
                "slt" => (Op::Slt, false, false),
                "sle" => (Op::Sle, false, false),
                "sgt" => (Op::Slt, true, false),
                "sge" => (Op::Sle, true, false),
                _ => return Err(format!("icmp {}", c)),
            };
            I::ICmp(o, swap, neg, t, a, b)
        }
        "fcmp" => {
            p.flags();
            let c = p.word()?;
            let (t, a) = p.tyopd()?;
            p.want_p(',')?;
            let b = p.opd(&t)?;
            let k = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "uno", "ueq", "ugt", "uge", "ult", "ule", "une", "true"]
                .iter()
                .position(|x| *x == c)
                .ok_or("fcmp")?;
            I::FCmp(k as u8, t, a, b)
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "fptoui"
        | "fptosi" | "fpext" | "fptrunc" | "addrspacecast" | "ptrtoaddr" => {
            p.flags();
            let (t, a) = p.tyopd()?;
            if !p.eat_w("to") {
                return Err("cast".into());
            }
            let t2 = p.ty()?;
            let k = match op.as_str() {
                "trunc" => Cast::Trunc,
                "zext" => Cast::ZExt,
                "sext" => Cast::SExt,
                "ptrtoint" | "ptrtoaddr" => {
                    if t2.is_agg() || t2.bits() == 64 {
                        Cast::Bit
                    } else if t2.bits() < 64 {
                        Cast::Trunc
                    } else {
                        Cast::ZExt
                    }
                }
                "inttoptr" => {
                    if t.is_agg() || t.bits() == 64 {
                        Cast::Bit
                    } else if t.bits() < 64 {
                        Cast::ZExt
                    } else {
                        Cast::Trunc
                    }
                }
                "bitcast" | "addrspacecast" => Cast::Bit,
                "uitofp" => Cast::UToF,
                "sitofp" => Cast::SToF,
                "fptoui" => Cast::FToU,
                "fptosi" => Cast::FToS,
                "fpext" => Cast::FExt,
                _ => Cast::FTrunc,
            };
            I::Cast(k, t, t2, a)
        }
        "select" => {
            p.flags();
            let (ct, c) = p.tyopd()?;
            p.want_p(',')?;
            let (t, a) = p.tyopd()?;
            p.want_p(',')?;
            let (_, b) = p.tyopd()?;
            I::Select(c, t, a, b, ct.is_agg())
        }
        "alloca" => {
            p.eat_w("inalloca");
            let t = p.ty()?;
            let mut n = Opd::K(Cv::S(1));
            if p.eat_p(',') && p.at_type() {
                n = p.tyopd()?.1;
            }
            I::Alloca(t.size(), n)
        }
        "load" => {
            p.flags();
            let t = p.ty()?;
            p.want_p(',')?;
            let (_, a) = p.tyopd()?;
            I::Load(t, a)
        }
        "store" => {
            p.flags();
            let (t, v) = p.tyopd()?;
            p.want_p(',')?;
            let (_, a) = p.tyopd()?;
            I::Store(t, v, a)
        }
        "getelementptr" => {
            p.flags();
            let et = p.ty()?;
            p.want_p(',')?;
            let (pt, a) = p.tyopd()?;
            if pt.is_agg() {
                return Err("vector gep".into());
            }
            let mut idx = Vec::new();
            while p.eat_p(',') {
                if !p.at_type() {
                    break;
                }
                idx.push(p.tyopd()?);
            }
            let (off, dynm) = gep_fold(&et, &idx)?;
            I::Gep(a, off, dynm)
        }
        "call" | "invoke" => {
            p.flags();
            // calling convention and return attributes
            loop {
                if p.at_type() {
                    break;
                }
                let _ = p.word()?;
                if p.is_p('(') {
                    p.skip_balanced();
                } else if p.t.get(p.i - 1) == Some(&T::W("align".into())) {
                    p.i += 1;
                }
            }
            let ret = p.ty()?;
            if p.is_p('(') {
                p.skip_balanced(); // full function type
            }
            let callee = match p.next()? {
                T::G(n) => match fidx.get(&n) {
                    Some(&f) => {
                        let _ = &n;
                        Callee::Fn(f)
                    }
                    None => Callee::Name(n.as_str().into()),
                },
                T::L(n) => Callee::Ind(Opd::Reg(p.reg(&n))),
                T::W(w) if w == "asm" => {
                    while !p.is_p('(') {
                        p.i += 1;
                    }
                    Callee::Name("asm".into())
                }
                T::W(w) if w == "inttoptr" || w == "null" => {
                    p.i -= 1;
                    Callee::Ind(p.opd(&Ty::Ptr)?)
                }
                t => return Err(format!("callee {:?}", t)),
            };
            p.want_p('(')?;
            let (mut args, mut atys, mut byval) = (Vec::new(), Vec::new(), Vec::new());
            if !p.eat_p(')') {
                loop {
                    let t = p.ty()?;
                    if t == Ty::Other {
                        // metadata argument
                        while !p.is_p(',') && !p.is_p(')') {
                            if p.is_p('(') {
                                p.skip_balanced();
                            } else {
                                p.i += 1;
                            }
                        }
                        args.push(Opd::K(Cv::S(0)));
                    } else {
                        let bv = p.attrs()?;
                        byval.resize(args.len(), None);
                        byval.push(bv);
                        args.push(p.opd(&t)?);
                    }
                    atys.push(t);
                    if p.eat_p(')') {
                        break;
                    }
                    p.want_p(',')?;
                }
            }
            byval.resize(args.len(), None);
            if op == "call" {
                if let Callee::Name(n) = &callee {
                    let _ = n;
                }
            }
            let mut normal = None;
            if op == "invoke" {
                while !p.is_w("to") {
                    p.i += 1;
                }
                p.i += 1;
                normal = Some(p.label()?);
            }
            I::Call(Box::new(CallI { callee, args, ret, atys, normal, byval }))
        }
        "extractvalue" => {
            let (_, a) = p.tyopd()?;
            let mut ix = Vec::new();
            while p.eat_p(',') {
                match p.peek() {
                    Some(T::W(w)) => {
                        ix.push(w.parse().map_err(|_| "index")?);
                        p.i += 1;
                    }
                    _ => break,
                }
            }
            I::ExtractValue(a, ix)
        }
        "insertvalue" => {
            let (t, a) = p.tyopd()?;
            p.want_p(',')?;
            let (_, b) = p.tyopd()?;
            let mut ix = Vec::new();
            while p.eat_p(',') {
                match p.peek() {
                    Some(T::W(w)) => {
                        ix.push(w.parse().map_err(|_| "index")?);
                        p.i += 1;
                    }
                    _ => break,
                }
            }
            I::InsertValue(a, b, ix, t)
        }
        "extractelement" => {
            let (_, a) = p.tyopd()?;
            p.want_p(',')?;
            let (_, b) = p.tyopd()?;
            I::ExtractElem(a, b)
        }
        "insertelement" => {
            let (_, a) = p.tyopd()?;
            p.want_p(',')?;
            let (_, b) = p.tyopd()?;
            p.want_p(',')?;
            let (_, c) = p.tyopd()?;
            I::InsertElem(a, b, c)
        }
        "shufflevector" => {
            let (t, a) = p.tyopd()?;
            p.want_p(',')?;
            let (_, b) = p.tyopd()?;
            p.want_p(',')?;
            let (_, m) = p.tyopd()?;
            let Opd::K(Cv::A(v)) = m else { return Err("shuffle mask".into()) };
            let ix = v
                .iter()
                .map(|c| match c {
                    Cv::S(k) => Some(*k as usize),
                    _ => None,
                })
                .collect();
            I::Shuffle(a, b, ix, t.count())
        }
        "atomicrmw" => {
            p.flags();
            let o = p.word()?;
            let (_, a) = p.tyopd()?;
            p.want_p(',')?;
            let (t, v) = p.tyopd()?;
            let k = ["xchg", "add", "sub", "and", "or", "xor", "max", "min", "umax", "umin", "nand"]
                .iter()
                .position(|x| *x == o)
                .ok_or(format!("atomicrmw {}", o))?;
            I::Rmw(k as u8, t, a, v)
        }
        "cmpxchg" => {
            p.flags();
            let (_, a) = p.tyopd()?;
            p.want_p(',')?;
            let (t, c) = p.tyopd()?;
            p.want_p(',')?;
            let (_, n) = p.tyopd()?;
            I::CmpXchg(t, a, c, n)
        }
        "fence" => I::Nop,
        "freeze" => {
            let (_, a) = p.tyopd()?;
            I::Copy(a)
        }
        "landingpad" => I::Copy(Opd::K(Cv::A(Rc::new(vec![Cv::S(0), Cv::S(0)])))),
        "br" => {
            if p.is_w("label") {
                I::Br(p.label()?)
            } else {
                let (_, c) = p.tyopd()?;
                p.want_p(',')?;
                let a = p.label()?;
                p.want_p(',')?;
                let b = p.label()?;
                I::CondBr(c, a, b)
            }
        }
        "switch" => {
            let (t, c) = p.tyopd()?;
            p.want_p(',')?;
            let d = p.label()?;
            p.want_p('[')?;
            let mut cs = Vec::new();
            while !p.eat_p(']') {
                let (_, k) = p.tyopd()?;
                p.want_p(',')?;
                let l = p.label()?;
                let Opd::K(Cv::S(k)) = k else { return Err("case".into()) };
                cs.push((k, l));
            }
            I::Switch(t.bits(), c, d, cs)
        }
        "ret" => {
            if p.is_w("void") {
                I::Ret(None)
            } else {
                I::Ret(Some(p.tyopd()?.1))
            }
        }
        "unreachable" => I::Unreachable,
        "resume" => I::Resume,
        "va_arg" => return Err("va_arg".into()),
        _ => return Err(format!("instruction {}", op)),
    })
}

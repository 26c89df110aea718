//! Hash-consed bit-vector expressions. Floats are 64/32-bit patterns with FP operator nodes.
use std::collections::HashMap;

pub type Id = u32;

/// A scalar: a concrete bit pattern (masked to its width) or an expression.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sc {
    C(u128),
    E(Id),
}
use Sc::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat, // a = high, b = low
    Extract, // k = low bit
    ZExt,
    SExt,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FOlt,
    FOle,
    FOeq,
    FUno,
    UToF,
    SToF,
    FToU, // saturating, NaN -> 0; k unused, width = result
    FToS,
    FSqrt,
    FRound, // k: 0 ceil, 1 floor, 2 trunc, 3 round-half-even, 4 round-half-away
    FExt,   // f32 -> f64
    FTrunc, // f64 -> f32
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: Id,
    pub b: Id,
    pub c: Id,
    pub k: u128,
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext(v: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((v << s) as i128) >> s
}

/// One bit of an expression: a constant, or bit `i` of an opaque expression.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Bit {
    K(bool),
    B(Id, u16),
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    table: HashMap<Node, Id>,
    pub support: Vec<u128>,
    range: Vec<(u128, u128)>,
    leaves: Vec<u32>,
    bits: HashMap<Id, Option<std::rc::Rc<Vec<Bit>>>>,
    pub vars: Vec<u32>,
    var_ids: HashMap<(usize, u32), usize>,
}

const MAX_LEAVES: u32 = 128;

pub fn fconc2(op: Op, w: u32, x: u128, y: u128) -> u128 {
    if w == 64 {
        let (a, b) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
        let r = match op {
            Op::FAdd => a + b,
            Op::FSub => a - b,
            Op::FMul => a * b,
            Op::FDiv => a / b,
            _ => unreachable!(),
        };
        r.to_bits() as u128
    } else {
        let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
        let r = match op {
            Op::FAdd => a + b,
            Op::FSub => a - b,
            Op::FMul => a * b,
            Op::FDiv => a / b,
            _ => unreachable!(),
        };
        r.to_bits() as u128
    }
}

fn fcmpc(op: Op, w: u32, x: u128, y: u128) -> bool {
    let (a, b) = if w == 64 {
        (f64::from_bits(x as u64), f64::from_bits(y as u64))
    } else {
        (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
    };
    match op {
        Op::FOlt => a < b,
        Op::FOle => a <= b,
        Op::FOeq => a == b,
        Op::FUno => a.is_nan() || b.is_nan(),
        _ => unreachable!(),
    }
}

/// Concrete semantics of every operator (used for folding and for model evaluation).
pub fn apply(op: Op, w: u32, ow: u32, k: u128, x: u128, y: u128, z: u128) -> u128 {
    // ow: width of the first operand
    let m = mask(w);
    match op {
        Op::Const | Op::Var => unreachable!(),
        Op::Add => x.wrapping_add(y) & m,
        Op::Sub => x.wrapping_sub(y) & m,
        Op::Mul => x.wrapping_mul(y) & m,
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sext(x, w), sext(y, w));
            (if b == 0 {
                if a < 0 {
                    1
                } else {
                    -1
                }
            } else {
                a.wrapping_div(b)
            }) as u128
                & m
        }
        Op::SRem => {
            let (a, b) = (sext(x, w), sext(y, w));
            (if b == 0 { a } else { a.wrapping_rem(b) }) as u128 & m
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << (y as u32)) & m
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> (y as u32)
            }
        }
        Op::AShr => {
            let s = if y >= w as u128 { w - 1 } else { y as u32 };
            ((sext(x, w) >> s) as u128) & m
        }
        Op::Eq => (x == y) as u128,
        Op::Ult => (x < y) as u128,
        Op::Ule => (x <= y) as u128,
        Op::Slt => (sext(x, ow) < sext(y, ow)) as u128,
        Op::Sle => (sext(x, ow) <= sext(y, ow)) as u128,
        Op::Ite => {
            if x != 0 {
                y
            } else {
                z
            }
        }
        Op::Concat => unreachable!(),
        Op::Extract => (x >> (k as u32)) & m,
        Op::ZExt => x,
        Op::SExt => (sext(x, ow) as u128) & m,
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => fconc2(op, w, x, y),
        Op::FOlt | Op::FOle | Op::FOeq | Op::FUno => fcmpc(op, ow, x, y) as u128,
        Op::UToF => {
            if w == 64 {
                (x as f64).to_bits() as u128
            } else {
                (x as f32).to_bits() as u128
            }
        }
        Op::SToF => {
            let v = sext(x, ow);
            if w == 64 {
                (v as f64).to_bits() as u128
            } else {
                (v as f32).to_bits() as u128
            }
        }
        Op::FToU => {
            let f = if ow == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 };
            if f.is_nan() || f <= 0.0 {
                0
            } else {
                let r = f as u128;
                if r > m {
                    m
                } else {
                    r
                }
            }
        }
        Op::FToS => {
            let f = if ow == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 };
            let hi = (m >> 1) as i128;
            let r = f as i128;
            (r.max(-hi - 1).min(hi) as u128) & m
        }
        Op::FSqrt => {
            if w == 64 {
                f64::from_bits(x as u64).sqrt().to_bits() as u128
            } else {
                f32::from_bits(x as u32).sqrt().to_bits() as u128
            }
        }
        Op::FRound => {
            let f = if w == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 };
            let r = match k {
                0 => f.ceil(),
                1 => f.floor(),
                2 => f.trunc(),
                3 => f.round_ties_even(),
                _ => f.round(),
            };
            if w == 64 {
                r.to_bits() as u128
            } else {
                (r as f32).to_bits() as u128
            }
        }
        Op::FExt => (f32::from_bits(x as u32) as f64).to_bits() as u128,
        Op::FTrunc => (f64::from_bits(x as u64) as f32).to_bits() as u128,
    }
}

fn is_cmp(op: Op) -> bool {
    matches!(
        op,
        Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FOlt | Op::FOle | Op::FOeq | Op::FUno
    )
}
fn is_fp(op: Op) -> bool {
    matches!(
        op,
        Op::FAdd
            | Op::FSub
            | Op::FMul
            | Op::FDiv
            | Op::FOlt
            | Op::FOle
            | Op::FOeq
            | Op::FUno
            | Op::UToF
            | Op::SToF
            | Op::FToU
            | Op::FToS
            | Op::FSqrt
            | Op::FRound
            | Op::FExt
            | Op::FTrunc
    )
}

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx {
            nodes: Vec::new(),
            table: HashMap::new(),
            support: Vec::new(),
            range: Vec::new(),
            leaves: Vec::new(),
            bits: HashMap::new(),
            vars: Vec::new(),
            var_ids: HashMap::new(),
        };
        // id 0 is reserved ("concrete")
        c.intern(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 0 });
        c
    }

    fn intern(&mut self, n: Node) -> Id {
        if let Some(&i) = self.table.get(&n) {
            return i;
        }
        let id = self.nodes.len() as Id;
        self.nodes.push(n);
        self.table.insert(n, id);
        let (s, r, l) = match n.op {
            Op::Const => (0, (n.k, n.k), 1),
            Op::Var => (1u128 << n.k, (0, mask(n.w as u32)), 0),
            _ => {
                let mut s = self.support[n.a as usize];
                if n.b != 0 {
                    s |= self.support[n.b as usize];
                }
                if n.c != 0 {
                    s |= self.support[n.c as usize];
                }
                let l = if n.op == Op::Ite {
                    let (x, y) = (self.leaves[n.b as usize], self.leaves[n.c as usize]);
                    if x > 0 && y > 0 && x + y <= MAX_LEAVES {
                        x + y
                    } else {
                        0
                    }
                } else {
                    0
                };
                (s, self.compute_range(&n), l)
            }
        };
        self.support.push(s);
        self.range.push(r);
        self.leaves.push(l);
        id
    }

    fn compute_range(&self, n: &Node) -> (u128, u128) {
        let w = n.w as u32;
        let m = mask(w);
        let ra = self.range[n.a as usize];
        let rb = if n.b != 0 { self.range[n.b as usize] } else { (0, 0) };
        let full = (0, m);
        match n.op {
            Op::Add => match ra.1.checked_add(rb.1) {
                Some(h) if h <= m => (ra.0 + rb.0, h),
                _ => full,
            },
            Op::Sub => {
                if ra.0 >= rb.1 {
                    (ra.0 - rb.1, ra.1 - rb.0)
                } else {
                    full
                }
            }
            Op::Mul => match ra.1.checked_mul(rb.1) {
                Some(h) if h <= m => (ra.0 * rb.0, h),
                _ => full,
            },
            Op::UDiv => {
                if rb.0 > 0 {
                    (ra.0 / rb.1, ra.1 / rb.0)
                } else {
                    full
                }
            }
            Op::URem => {
                if rb.0 > 0 {
                    (0, ra.1.min(rb.1 - 1))
                } else {
                    full
                }
            }
            Op::And => (0, ra.1.min(rb.1)),
            Op::Or | Op::Xor => {
                let h = ra.1 | rb.1;
                let bits = 128 - h.leading_zeros();
                let lo = if n.op == Op::Or { ra.0.max(rb.0) } else { 0 };
                (lo, mask(bits))
            }
            Op::Shl => {
                if rb.0 == rb.1 && rb.0 < w as u128 && ra.1 <= (m >> rb.0) {
                    (ra.0 << rb.0, ra.1 << rb.0)
                } else {
                    full
                }
            }
            Op::LShr => {
                if rb.0 == rb.1 {
                    if rb.0 >= w as u128 {
                        (0, 0)
                    } else {
                        (ra.0 >> rb.0, ra.1 >> rb.0)
                    }
                } else {
                    (0, ra.1)
                }
            }
            Op::Ite => {
                let rc = self.range[n.c as usize];
                (rb.0.min(rc.0), rb.1.max(rc.1))
            }
            Op::Concat => {
                let lw = self.nodes[n.b as usize].w as u32;
                ((ra.0 << lw) | rb.0, (ra.1 << lw) | rb.1)
            }
            Op::Extract => {
                if n.k == 0 && ra.1 <= m {
                    ra
                } else if (ra.1 >> (n.k as u32)) <= m {
                    (ra.0 >> (n.k as u32), ra.1 >> (n.k as u32))
                } else {
                    full
                }
            }
            Op::ZExt => ra,
            _ => full,
        }
    }

    pub fn w(&self, id: Id) -> u32 {
        self.nodes[id as usize].w as u32
    }
    pub fn kid(&mut self, s: Sc, w: u32) -> Id {
        match s {
            E(i) => i,
            C(k) => self.intern(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: k & mask(w) }),
        }
    }
    fn back(&self, id: Id) -> Sc {
        let n = &self.nodes[id as usize];
        if n.op == Op::Const {
            C(n.k)
        } else {
            E(id)
        }
    }
    /// The n-th symbolic input of width `w` on a path; None when there are too many.
    pub fn var(&mut self, n: usize, w: u32) -> Option<(usize, Sc)> {
        let id = match self.var_ids.get(&(n, w)) {
            Some(i) => *i,
            None => {
                let i = self.vars.len();
                if i >= 128 {
                    return None;
                }
                self.vars.push(w);
                self.var_ids.insert((n, w), i);
                i
            }
        };
        let e = E(self.intern(Node { op: Op::Var, w: w as u16, a: 0, b: 0, c: 0, k: id as u128 }));
        Some((id, e))
    }
    pub fn sup(&self, s: Sc) -> u128 {
        match s {
            C(_) => 0,
            E(i) => self.support[i as usize],
        }
    }
    pub fn rng(&self, s: Sc) -> (u128, u128) {
        match s {
            C(k) => (k, k),
            E(i) => self.range[i as usize],
        }
    }
    fn raw(&mut self, op: Op, w: u32, k: u128, a: Id, b: Id, c: Id) -> Sc {
        E(self.intern(Node { op, w: w as u16, a, b, c, k }))
    }

    pub fn ite_leaf_count(&self, s: Sc) -> u32 {
        match s {
            C(_) => 1,
            E(i) => self.leaves[i as usize],
        }
    }
    /// Leaves of an ite tree over constants.
    pub fn ite_leaves(&self, s: Sc, out: &mut Vec<u128>) {
        match s {
            C(k) => {
                if !out.contains(&k) {
                    out.push(k)
                }
            }
            E(i) => {
                let n = self.nodes[i as usize];
                self.ite_leaves(self.back(n.b), out);
                self.ite_leaves(self.back(n.c), out);
            }
        }
    }
    /// Rebuild an ite tree with every constant leaf mapped.
    pub fn map_leaves(&mut self, s: Sc, w: u32, f: &mut dyn FnMut(&mut Ctx, u128) -> Sc) -> Sc {
        match s {
            C(k) => f(self, k),
            E(i) => {
                let n = self.nodes[i as usize];
                let (b, c) = (self.back(n.b), self.back(n.c));
                let x = self.map_leaves(b, w, f);
                let y = self.map_leaves(c, w, f);
                let cond = self.back(n.a);
                self.ite(cond, x, y, w)
            }
        }
    }

    // ---- bit provenance ----
    fn bits_of(&mut self, s: Sc, w: u32) -> Option<std::rc::Rc<Vec<Bit>>> {
        match s {
            C(k) => Some(std::rc::Rc::new((0..w).map(|i| Bit::K((k >> i) & 1 == 1)).collect())),
            E(id) => {
                if let Some(b) = self.bits.get(&id) {
                    return b.clone();
                }
                let n = self.nodes[id as usize];
                let r: Vec<Bit> = match n.op {
                    Op::Concat => {
                        let (lw, hw) = (self.w(n.b), self.w(n.a));
                        let (lo, hi) = (self.back(n.b), self.back(n.a));
                        let mut v = (*self.bits_of(lo, lw).unwrap()).clone();
                        v.extend(self.bits_of(hi, hw).unwrap().iter().cloned());
                        v
                    }
                    Op::ZExt => {
                        let aw = self.w(n.a);
                        let a = self.back(n.a);
                        let mut v = (*self.bits_of(a, aw).unwrap()).clone();
                        v.resize(n.w as usize, Bit::K(false));
                        v
                    }
                    Op::Extract => {
                        let aw = self.w(n.a);
                        let a = self.back(n.a);
                        let b = self.bits_of(a, aw).unwrap();
                        b[n.k as usize..n.k as usize + n.w as usize].to_vec()
                    }
                    _ => (0..n.w).map(|i| Bit::B(id, i)).collect(),
                };
                let r = Some(std::rc::Rc::new(r));
                self.bits.insert(id, r.clone());
                r
            }
        }
    }

    fn from_bits(&mut self, v: &[Bit]) -> Sc {
        // maximal runs, from low to high
        let mut acc: Option<(Sc, u32)> = None;
        let mut i = 0;
        let w = v.len();
        while i < w {
            let (piece, len) = match v[i] {
                Bit::K(_) => {
                    let mut j = i;
                    let mut k = 0u128;
                    while j < w {
                        if let Bit::K(b) = v[j] {
                            if b {
                                k |= 1 << (j - i);
                            }
                            j += 1;
                        } else {
                            break;
                        }
                    }
                    (C(k), j - i)
                }
                Bit::B(id, s) => {
                    let mut j = i;
                    while j < w {
                        if v[j] == Bit::B(id, s + (j - i) as u16) {
                            j += 1;
                        } else {
                            break;
                        }
                    }
                    let iw = self.w(id);
                    let len = (j - i) as u32;
                    if s == 0 && len == iw {
                        (E(id), j - i)
                    } else {
                        (self.raw(Op::Extract, len, s as u128, id, 0, 0), j - i)
                    }
                }
            };
            acc = Some(match acc {
                None => (piece, len as u32),
                Some((lo, lw)) => {
                    if i + len == w && piece == C(0) {
                        // high zeros
                        match lo {
                            C(k) => (C(k), w as u32),
                            E(l) => (self.raw(Op::ZExt, w as u32, 0, l, 0, 0), w as u32),
                        }
                    } else {
                        let nw = lw + len as u32;
                        match (piece, lo) {
                            (C(h), C(l)) => (C((h << lw) | l), nw),
                            _ => {
                                let (h, l) = (self.kid(piece, len as u32), self.kid(lo, lw));
                                (self.raw(Op::Concat, nw, 0, h, l, 0), nw)
                            }
                        }
                    }
                }
            });
            i += len;
        }
        acc.unwrap().0
    }

    /// Is the expression a wiring of bits (constants, slices) rather than one opaque value?
    fn wired(&self, s: Sc) -> bool {
        match s {
            C(_) => true,
            E(i) => matches!(self.nodes[i as usize].op, Op::Concat | Op::ZExt | Op::Extract | Op::Var),
        }
    }

    fn bitwise(&mut self, op: Op, x: Sc, y: Sc, w: u32) -> Option<Sc> {
        let bx = self.bits_of(x, w)?;
        let by = self.bits_of(y, w)?;
        let mut out = Vec::with_capacity(w as usize);
        for i in 0..w as usize {
            out.push(match (op, bx[i], by[i]) {
                (Op::And, Bit::K(false), _) | (Op::And, _, Bit::K(false)) => Bit::K(false),
                (Op::And, Bit::K(true), b) | (Op::And, b, Bit::K(true)) => b,
                (Op::Or, Bit::K(true), _) | (Op::Or, _, Bit::K(true)) => Bit::K(true),
                (Op::Or, Bit::K(false), b) | (Op::Or, b, Bit::K(false)) => b,
                (Op::Xor, Bit::K(false), b) | (Op::Xor, b, Bit::K(false)) => b,
                (Op::Xor, Bit::K(true), Bit::K(true)) => Bit::K(false),
                (Op::And, a, b) | (Op::Or, a, b) if a == b => a,
                (Op::Xor, a, b) if a == b => Bit::K(false),
                _ => return None,
            });
        }
        Some(self.from_bits(&out))
    }

    // ---- constructors ----
    pub fn not(&mut self, a: Sc) -> Sc {
        self.bin(Op::Xor, a, C(1), 1)
    }
    pub fn and1(&mut self, a: Sc, b: Sc) -> Sc {
        self.bin(Op::And, a, b, 1)
    }
    pub fn or1(&mut self, a: Sc, b: Sc) -> Sc {
        self.bin(Op::Or, a, b, 1)
    }

    /// Binary operator on two `w`-bit operands; comparisons yield one bit.
    /// Equality without rewriting, except between constants.
    pub fn eq_for_solver(&mut self, x: Sc, y: Sc, w: u32) -> Sc {
        if let (C(a), C(b)) = (x, y) {
            return C((a == b) as u128);
        }
        let (a, b) = (self.kid(x, w), self.kid(y, w));
        self.raw(Op::Eq, 1, 0, a, b, 0)
    }

    pub fn bin(&mut self, op: Op, x: Sc, y: Sc, w: u32) -> Sc {
        let rw = if is_cmp(op) { 1 } else { w };
        if let (C(a), C(b)) = (x, y) {
            return C(apply(op, rw, w, 0, a, b, 0));
        }
        let (mut x, mut y) = (x, y);
        // canonical order for commutative operators: constant on the right
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            let swap = match (x, y) {
                (C(_), E(_)) => true,
                (E(a), E(b)) => a > b,
                _ => false,
            };
            if swap {
                std::mem::swap(&mut x, &mut y);
            }
        }
        let m = mask(w);
        match (op, x, y) {
            (Op::Add, _, C(0))
            | (Op::Sub, _, C(0))
            | (Op::Or, _, C(0))
            | (Op::Xor, _, C(0))
            | (Op::Shl, _, C(0))
            | (Op::LShr, _, C(0))
            | (Op::AShr, _, C(0))
            | (Op::Mul, _, C(1))
            | (Op::UDiv, _, C(1)) => return x,
            (Op::And, _, C(0)) | (Op::Mul, _, C(0)) | (Op::Shl, C(0), _) | (Op::LShr, C(0), _) => {
                return C(0)
            }
            (Op::And, _, C(k)) if k == m => return x,
            (Op::Or, _, C(k)) if k == m => return C(m),
            _ => {}
        }
        if x == y {
            match op {
                Op::Sub | Op::Xor | Op::URem => return C(0),
                Op::And | Op::Or => return x,
                Op::Eq | Op::Ule | Op::Sle => return C(1),
                Op::Ult | Op::Slt => return C(0),
                _ => {}
            }
        }
        // ranges
        let (rx, ry) = (self.rng(x), self.rng(y));
        match op {
            Op::Eq => {
                if rx.1 < ry.0 || ry.1 < rx.0 {
                    return C(0);
                }
            }
            Op::Ult => {
                if rx.1 < ry.0 {
                    return C(1);
                }
                if rx.0 >= ry.1 {
                    return C(0);
                }
            }
            Op::Ule => {
                if rx.1 <= ry.0 {
                    return C(1);
                }
                if rx.0 > ry.1 {
                    return C(0);
                }
            }
            Op::Slt | Op::Sle => {
                let half = m >> 1;
                if rx.1 <= half && ry.1 <= half {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, x, y, w);
                }
            }
            _ => {}
        }
        // shifts by constants, multiplication/division by powers of two, masks: pure wiring
        match (op, y) {
            (Op::Shl, C(k)) | (Op::LShr, C(k)) => {
                if k >= w as u128 {
                    return C(0);
                }
                let b = self.bits_of(x, w).unwrap();
                let k = k as usize;
                let wu = w as usize;
                let out: Vec<Bit> = if op == Op::Shl {
                    (0..wu).map(|i| if i < k { Bit::K(false) } else { b[i - k] }).collect()
                } else {
                    (0..wu).map(|i| if i + k < wu { b[i + k] } else { Bit::K(false) }).collect()
                };
                return self.from_bits(&out);
            }
            (Op::Mul, C(k)) if k.is_power_of_two() => {
                return self.bin(Op::Shl, x, C(k.trailing_zeros() as u128), w)
            }
            (Op::UDiv, C(k)) if k.is_power_of_two() => {
                return self.bin(Op::LShr, x, C(k.trailing_zeros() as u128), w)
            }
            (Op::URem, C(k)) if k.is_power_of_two() => {
                return self.bin(Op::And, x, C(k - 1), w)
            }
            (Op::And, _) | (Op::Or, _) | (Op::Xor, _) if w > 1 => {
                if self.wired(x) && self.wired(y) || matches!((op, y), (Op::And, C(_))) {
                    if let Some(r) = self.bitwise(op, x, y, w) {
                        return r;
                    }
                }
            }
            _ => {}
        }
        // ite-of-constants against a constant (or any fp operator over small finite domains)
        let (lx, ly) = (self.ite_leaf_count(x), self.ite_leaf_count(y));
        if let C(k) = y {
            if lx > 0 && (is_cmp(op) || is_fp(op) || lx <= 8) {
                return self
                    .map_leaves(x, rw, &mut |_, l| C(apply(op, rw, w, 0, l, k, 0)));
            }
        } else if let C(k) = x {
            if ly > 0 && (is_cmp(op) || is_fp(op) || ly <= 8) {
                return self
                    .map_leaves(y, rw, &mut |_, l| C(apply(op, rw, w, 0, k, l, 0)));
            }
        } else if is_fp(op) && lx > 0 && ly > 0 && lx * ly <= 64 {
            return self.map_leaves(x, rw, &mut |c, a| {
                c.map_leaves(y, rw, &mut |_, b| C(apply(op, rw, w, 0, a, b, 0)))
            });
        }
        match op {
            Op::Eq => {
                if w == 1 {
                    return match y {
                        C(1) => x,
                        C(_) => self.not(x),
                        _ => {
                            let t = self.bin(Op::Xor, x, y, 1);
                            self.not(t)
                        }
                    };
                }
                if let (E(i), C(k)) = (x, y) {
                    let n = self.nodes[i as usize];
                    match n.op {
                        Op::ZExt => {
                            let aw = self.w(n.a);
                            if k > mask(aw) {
                                return C(0);
                            }
                            let a = self.back(n.a);
                            return self.bin(Op::Eq, a, C(k), aw);
                        }
                        Op::Concat => {
                            let (hw, lw) = (self.w(n.a), self.w(n.b));
                            let (h, l) = (self.back(n.a), self.back(n.b));
                            let p = self.bin(Op::Eq, h, C(k >> lw), hw);
                            if p == C(0) {
                                return C(0);
                            }
                            let q = self.bin(Op::Eq, l, C(k & mask(lw)), lw);
                            return self.and1(p, q);
                        }
                        Op::Add => {
                            if let C(k2) = self.back(n.b) {
                                let a = self.back(n.a);
                                return self.bin(Op::Eq, a, C(k.wrapping_sub(k2) & m), w);
                            }
                        }
                        Op::Xor => {
                            if let C(k2) = self.back(n.b) {
                                let a = self.back(n.a);
                                return self.bin(Op::Eq, a, C(k ^ k2), w);
                            }
                        }
                        _ => {}
                    }
                }
                if let (E(i), E(j)) = (x, y) {
                    let (n, o) = (self.nodes[i as usize], self.nodes[j as usize]);
                    if n.op == Op::ZExt && o.op == Op::ZExt && self.w(n.a) == self.w(o.a) {
                        let (a, b, aw) = (self.back(n.a), self.back(o.a), self.w(n.a));
                        return self.bin(Op::Eq, a, b, aw);
                    }
                    if n.op == Op::Concat && o.op == Op::Concat && self.w(n.b) == self.w(o.b) {
                        let (hw, lw) = (self.w(n.a), self.w(n.b));
                        let (a, b) = (self.back(n.a), self.back(o.a));
                        let p = self.bin(Op::Eq, a, b, hw);
                        let (a, b) = (self.back(n.b), self.back(o.b));
                        let q = self.bin(Op::Eq, a, b, lw);
                        return self.and1(p, q);
                    }
                }
            }
            Op::Ult | Op::Ule => {
                if let (E(i), E(j)) = (x, y) {
                    let (n, o) = (self.nodes[i as usize], self.nodes[j as usize]);
                    if n.op == Op::ZExt && o.op == Op::ZExt && self.w(n.a) == self.w(o.a) {
                        let (a, b, aw) = (self.back(n.a), self.back(o.a), self.w(n.a));
                        return self.bin(op, a, b, aw);
                    }
                }
                if let (E(i), C(k)) = (x, y) {
                    let n = self.nodes[i as usize];
                    if n.op == Op::ZExt {
                        let aw = self.w(n.a);
                        let a = self.back(n.a);
                        if k > mask(aw) {
                            return C(1);
                        }
                        return self.bin(op, a, C(k), aw);
                    }
                    if op == Op::Ult && k == 1 {
                        return self.bin(Op::Eq, x, C(0), w);
                    }
                    if op == Op::Ule && k == 0 {
                        return self.bin(Op::Eq, x, C(0), w);
                    }
                    if op == Op::Ule && k < m {
                        return self.bin(Op::Ult, x, C(k + 1), w);
                    }
                }
                if let (C(k), E(j)) = (x, y) {
                    let n = self.nodes[j as usize];
                    if n.op == Op::ZExt {
                        let aw = self.w(n.a);
                        let a = self.back(n.a);
                        if k > mask(aw) {
                            return C(0);
                        }
                        return self.bin(op, C(k), a, aw);
                    }
                    if op == Op::Ule && k > 0 {
                        return self.bin(Op::Ult, C(k - 1), y, w);
                    }
                }
            }
            Op::Slt => {
                // sign test of a sign/zero-structured value
                if y == C(0) {
                    let s = self.extract(x, w, w - 1, 1);
                    return s;
                }
            }
            Op::Add => {
                if let (E(i), C(k)) = (x, y) {
                    let n = self.nodes[i as usize];
                    if n.op == Op::Add {
                        if let C(k2) = self.back(n.b) {
                            let a = self.back(n.a);
                            return self.bin(Op::Add, a, C(k.wrapping_add(k2) & m), w);
                        }
                    }
                }
            }
            Op::Sub => {
                if let C(k) = y {
                    return self.bin(Op::Add, x, C(k.wrapping_neg() & m), w);
                }
            }
            Op::And | Op::Or if w == 1 => {
                // x & !x
                if let (E(i), E(j)) = (x, y) {
                    let (n, o) = (self.nodes[i as usize], self.nodes[j as usize]);
                    let neg = (n.op == Op::Xor && n.a == j && self.back(n.b) == C(1))
                        || (o.op == Op::Xor && o.a == i && self.back(o.b) == C(1));
                    if neg {
                        return C((op == Op::Or) as u128);
                    }
                }
            }
            Op::Xor => {
                if let (E(i), C(k)) = (x, y) {
                    let n = self.nodes[i as usize];
                    if n.op == Op::Xor {
                        if let C(k2) = self.back(n.b) {
                            let a = self.back(n.a);
                            return self.bin(Op::Xor, a, C(k ^ k2), w);
                        }
                    }
                    if w == 1 && k == 1 {
                        match n.op {
                            Op::Ult => {
                                let aw = self.w(n.a);
                                let (a, b) = (self.back(n.a), self.back(n.b));
                                return self.bin(Op::Ule, b, a, aw);
                            }
                            Op::Ule => {
                                let aw = self.w(n.a);
                                let (a, b) = (self.back(n.a), self.back(n.b));
                                return self.bin(Op::Ult, b, a, aw);
                            }
                            _ => {}
                        }
                    }
                }
            }
            // exact: every integer below 2^53 is a double, and the conversion is monotone
            Op::FOlt | Op::FOle | Op::FOeq if w == 64 => {
                if let Some(r) = self.fcmp_ints(op, x, y) {
                    return r;
                }
            }
            Op::FUno => {
                if self.never_nan(x) && self.never_nan(y) {
                    return C(0);
                }
            }
            _ => {}
        }
        let (a, b) = (self.kid(x, w), self.kid(y, w));
        self.raw(op, rw, 0, a, b, 0)
    }

    fn never_nan(&self, s: Sc) -> bool {
        match s {
            C(k) => k == 0 || k >> 32 != 0 && !f64::from_bits(k as u64).is_nan(),
            E(i) => matches!(self.nodes[i as usize].op, Op::UToF | Op::SToF),
        }
    }

    fn as_small_int(&self, s: Sc) -> Option<(Sc, u32)> {
        match s {
            C(k) => {
                let f = f64::from_bits(k as u64);
                if f >= 0.0 && f.fract() == 0.0 && f < 9e15 {
                    Some((C(f as u128), 53))
                } else {
                    None
                }
            }
            E(i) => {
                let n = self.nodes[i as usize];
                if n.op == Op::UToF {
                    let (_, hi) = self.range[n.a as usize];
                    if hi < (1 << 53) {
                        return Some((self.back(n.a), self.w(n.a)));
                    }
                }
                None
            }
        }
    }
    fn fcmp_ints(&mut self, op: Op, x: Sc, y: Sc) -> Option<Sc> {
        let (a, aw) = self.as_small_int(x)?;
        let (b, bw) = self.as_small_int(y)?;
        let w = aw.max(bw).max(64);
        let wa = if let C(_) = a { w } else { aw };
        let wb = if let C(_) = b { w } else { bw };
        let a = self.zext(a, wa, w);
        let b = self.zext(b, wb, w);
        Some(match op {
            Op::FOlt => self.bin(Op::Ult, a, b, w),
            Op::FOle => self.bin(Op::Ule, a, b, w),
            _ => self.bin(Op::Eq, a, b, w),
        })
    }

    /// Unary operators (casts between float and int, rounding, square root).
    pub fn un(&mut self, op: Op, x: Sc, ow: u32, w: u32, k: u128) -> Sc {
        match x {
            C(a) => C(apply(op, w, ow, k, a, 0, 0)),
            E(i) => {
                if self.leaves[i as usize] > 0 {
                    return self.map_leaves(x, w, &mut |_, l| C(apply(op, w, ow, k, l, 0, 0)));
                }
                // whole numbers below 2^53 survive the trip through a double
                match op {
                    Op::SToF if self.rng(x).1 <= mask(ow) >> 1 => return self.un(Op::UToF, x, ow, w, k),
                    Op::FRound if w == 64 && self.as_small_int(x).is_some() => return x,
                    Op::FToU | Op::FToS if ow == 64 => {
                        if let Some((a, aw)) = self.as_small_int(x) {
                            let top = if op == Op::FToU { mask(w) } else { mask(w) >> 1 };
                            let hi = self.rng(a).1;
                            let fit = if aw >= w { self.extract(a, aw, 0, w) } else { self.zext(a, aw, w) };
                            if hi <= top {
                                return fit;
                            }
                            // then top < hi <= mask(aw)
                            let le = self.bin(Op::Ule, a, C(top), aw);
                            return self.ite(le, fit, C(top), w);
                        }
                    }
                    _ => {}
                }
                self.raw(op, w, k, i, 0, 0)
            }
        }
    }

    pub fn ite(&mut self, c: Sc, x: Sc, y: Sc, w: u32) -> Sc {
        match c {
            C(0) => return y,
            C(_) => return x,
            _ => {}
        }
        if x == y {
            return x;
        }
        if w == 1 {
            match (x, y) {
                (C(1), C(0)) => return c,
                (C(0), C(1)) => return self.not(c),
                (C(1), _) => return self.or1(c, y),
                (C(0), _) => {
                    let n = self.not(c);
                    return self.and1(n, y);
                }
                (_, C(0)) => return self.and1(c, x),
                (_, C(1)) => {
                    let n = self.not(c);
                    return self.or1(n, x);
                }
                _ => {}
            }
        }
        let E(ci) = c else { unreachable!() };
        // strip negation
        let n = self.nodes[ci as usize];
        if n.op == Op::Xor && self.back(n.b) == C(1) {
            let a = self.back(n.a);
            return self.ite(a, y, x, w);
        }
        // ite(c, ite(c, a, b), y) = ite(c, a, y)
        if let E(i) = x {
            let n = self.nodes[i as usize];
            if n.op == Op::Ite && n.a == ci {
                let b = self.back(n.b);
                return self.ite(c, b, y, w);
            }
        }
        if let E(i) = y {
            let n = self.nodes[i as usize];
            if n.op == Op::Ite && n.a == ci {
                let b = self.back(n.c);
                return self.ite(c, x, b, w);
            }
        }
        let (a, b) = (self.kid(x, w), self.kid(y, w));
        self.raw(Op::Ite, w, 0, ci, a, b)
    }

    pub fn zext(&mut self, x: Sc, ow: u32, w: u32) -> Sc {
        if ow == w {
            return x;
        }
        match x {
            C(_) => x,
            E(i) => {
                if self.leaves[i as usize] > 0 {
                    return self.map_leaves(x, w, &mut |_, l| C(l));
                }
                let mut b = (*self.bits_of(x, ow).unwrap()).clone();
                b.resize(w as usize, Bit::K(false));
                self.from_bits(&b)
            }
        }
    }
    pub fn sext(&mut self, x: Sc, ow: u32, w: u32) -> Sc {
        if ow == w {
            return x;
        }
        match x {
            C(k) => C((sext(k, ow) as u128) & mask(w)),
            E(i) => {
                if self.leaves[i as usize] > 0 {
                    return self.map_leaves(x, w, &mut |_, l| C((sext(l, ow) as u128) & mask(w)));
                }
                if self.rng(x).1 <= mask(ow) >> 1 {
                    return self.zext(x, ow, w);
                }
                if ow == 1 {
                    return self.ite(x, C(mask(w)), C(0), w);
                }
                self.raw(Op::SExt, w, 0, i, 0, 0)
            }
        }
    }
    /// `w` bits of `x` (of width `ow`) starting at bit `lo`.
    pub fn extract(&mut self, x: Sc, ow: u32, lo: u32, w: u32) -> Sc {
        if lo == 0 && ow == w {
            return x;
        }
        match x {
            C(k) => C((k >> lo) & mask(w)),
            E(i) => {
                if self.leaves[i as usize] > 0 {
                    return self.map_leaves(x, w, &mut |_, l| C((l >> lo) & mask(w)));
                }
                let n = self.nodes[i as usize];
                match n.op {
                    Op::SExt => {
                        let aw = self.w(n.a);
                        if lo + w <= aw {
                            let a = self.back(n.a);
                            return self.extract(a, aw, lo, w);
                        }
                    }
                    Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                        let (a, b) = (self.back(n.a), self.back(n.b));
                        let a = self.extract(a, ow, 0, w);
                        let b = self.extract(b, ow, 0, w);
                        return self.bin(n.op, a, b, w);
                    }
                    Op::And | Op::Or | Op::Xor => {
                        let (a, b) = (self.back(n.a), self.back(n.b));
                        let a = self.extract(a, ow, lo, w);
                        let b = self.extract(b, ow, lo, w);
                        return self.bin(n.op, a, b, w);
                    }
                    _ => {}
                }
                let b = self.bits_of(x, ow).unwrap();
                let v = b[lo as usize..(lo + w) as usize].to_vec();
                self.from_bits(&v)
            }
        }
    }
    pub fn concat(&mut self, hi: Sc, hw: u32, lo: Sc, lw: u32) -> Sc {
        if let (C(h), C(l)) = (hi, lo) {
            return C((h << lw) | l);
        }
        let b = self.bits_of(lo, lw).unwrap();
        let mut v = (*b).clone();
        v.extend(self.bits_of(hi, hw).unwrap().iter().cloned());
        self.from_bits(&v)
    }

    /// Value under an assignment of the variables.
    pub fn eval(&self, s: Sc, model: &[u128], memo: &mut HashMap<Id, u128>) -> u128 {
        match s {
            C(k) => k,
            E(i) => self.eval_id(i, model, memo),
        }
    }
    fn eval_id(&self, i: Id, model: &[u128], memo: &mut HashMap<Id, u128>) -> u128 {
        let n = &self.nodes[i as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return model.get(n.k as usize).cloned().unwrap_or(0) & mask(n.w as u32),
            _ => {}
        }
        if let Some(&v) = memo.get(&i) {
            return v;
        }
        let r = if n.op == Op::Ite {
            if self.eval_id(n.a, model, memo) != 0 {
                self.eval_id(n.b, model, memo)
            } else {
                self.eval_id(n.c, model, memo)
            }
        } else {
            let x = self.eval_id(n.a, model, memo);
            let y = if n.b != 0 { self.eval_id(n.b, model, memo) } else { 0 };
            if n.op == Op::Concat {
                (x << self.w(n.b)) | y
            } else {
                apply(n.op, n.w as u32, self.w(n.a), n.k, x, y, 0)
            }
        };
        memo.insert(i, r);
        r
    }
}

//! The symbolic interpreter: state, memory, instructions, forking.
use crate::expr::{mask, sext, Ctx, Id, Op, Sc};
use crate::ir::*;
use crate::solver::{Ans, Model, Solver};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use Sc::*;

#[derive(Clone, Debug)]
pub enum Val {
    S(Sc),
    A(Rc<Vec<Val>>),
}
use Val::{A, S};

/// The width of a vector whose elements are not whole bytes: in memory they lie bit by bit.
fn packed(ty: &Ty) -> Option<u32> {
    match ty {
        Ty::Vect(n, e) if e.bits() % 8 != 0 => Some(*n as u32 * e.bits()),
        _ => None,
    }
}

impl Val {
    fn sc(&self) -> Sc {
        match self {
            S(s) => *s,
            A(v) if v.len() == 1 => v[0].sc(),
            A(_) => panic!("scalar expected"),
        }
    }
}

#[derive(Clone)]
pub struct Obj {
    pub b: Vec<u8>,
    /// per byte: (expression, byte index) or (0, _) when the byte is concrete
    pub s: Option<Box<Vec<(Id, u8)>>>,
    pub ro: bool,
}

const CH: usize = 64;
type Chunk = Vec<Option<Rc<Obj>>>;

#[derive(Clone)]
pub struct Mem {
    tab: Vec<Rc<Chunk>>,
    next: u64,
    /// stack objects of the running thread
    stack: Vec<Rc<Obj>>,
    /// the running thread; 0 is the one the harness starts on
    thread: u32,
    /// stacks of the others
    parked: Vec<Vec<Rc<Obj>>>,
}
const STACK0: u64 = 0x4000_0000;
/// A thread's stack objects are numbered within this many bits.
const STACK_BITS: u64 = 20;
const STACK_MASK: u64 = (1 << STACK_BITS) - 1;

impl Mem {
    fn get(&self, id: u64) -> Option<&Rc<Obj>> {
        if id >= STACK0 {
            let i = id - STACK0;
            let t = (i >> STACK_BITS) as u32;
            if t == self.thread { &self.stack } else { self.parked.get(t as usize)? }.get((i & STACK_MASK) as usize)
        } else {
            self.tab.get(id as usize / CH)?.get(id as usize % CH)?.as_ref()
        }
    }
    fn get_mut(&mut self, id: u64) -> Option<&mut Obj> {
        if id >= STACK0 {
            let i = id - STACK0;
            let t = (i >> STACK_BITS) as u32;
            if t == self.thread { &mut self.stack } else { self.parked.get_mut(t as usize)? }.get_mut((i & STACK_MASK) as usize).map(Rc::make_mut)
        } else {
            let c = self.tab.get_mut(id as usize / CH)?;
            let c = Rc::make_mut(c);
            c.get_mut(id as usize % CH)?.as_mut().map(Rc::make_mut)
        }
    }
    fn next_stack(&self) -> u64 {
        STACK0 + ((self.thread as u64) << STACK_BITS) + self.stack.len() as u64
    }
    /// Makes `t` the running thread.
    fn switch(&mut self, t: u32) {
        let n = self.thread.max(t) as usize;
        if self.parked.len() <= n {
            self.parked.resize(n + 1, Vec::new());
        }
        self.parked[self.thread as usize] = std::mem::take(&mut self.stack);
        self.stack = std::mem::take(&mut self.parked[t as usize]);
        self.thread = t;
    }
    fn put(&mut self, id: u64, o: Option<Rc<Obj>>) {
        let (c, k) = (id as usize / CH, id as usize % CH);
        while self.tab.len() <= c {
            self.tab.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut self.tab[c])[k] = o;
    }
    fn alloc(&mut self, size: u64) -> u128 {
        let id = self.next;
        self.next += 1;
        self.put(id, Some(Rc::new(Obj { b: vec![0; size as usize], s: None, ro: false })));
        ((id as u128) << 32) + BASE_OFF
    }
}

#[derive(Clone)]
pub struct Frame {
    f: u32,
    body: Rc<Body>,
    blk: u32,
    ip: u32,
    regs: Vec<Val>,
    dst: u32,
    normal: Option<u32>,
    sbase: usize,
}

#[derive(Clone, Copy, Debug)]
pub enum Inp {
    Sym(usize, u32),
    Fork(u64),
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    /// frames of the threads that are not running
    parked: Vec<Vec<Frame>>,
    mem: Mem,
    pc: Vec<Id>,
    model: Rc<Model>,
    inputs: Vec<Inp>,
    obs: Vec<Sc>,
    steps: u64,
    covers: Rc<BTreeSet<String>>,
    depth: u32,
    /// a panic is one of the ends the harness allows here
    may_panic: bool,
}

/// What a path that ends in an allowed panic observes last.
const PANICKED: u128 = 0x70616e6963;

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String,
    pub msg: String,
    pub loc: String,
    pub inputs: Vec<u64>,
    pub stack: Vec<String>,
}

pub struct Sample {
    pub inputs: Vec<u64>,
    pub obs: Vec<u64>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub assumed_out: u64,
    pub instrs: u64,
    pub forks: u64,
    pub checks: u64,
    pub checks_sym: u64,
    pub dropped: u64,
    pub unknown: u64,
    pub maxdepth: u64,
    pub errors: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bi {
    None,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcpy,
    Memmove,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    Null,
    Sym,
    Fork,
    Assume,
    Check,
    CheckEq,
    Cover,
    Observe,
    Case,
    Pin,
    MayPanic,
    Thread,
    Switch,
    Current,
    Intr,
    NoReturn,
}

pub struct Exec {
    pub m: Module,
    pub x: Ctx,
    pub sol: Solver,
    fmap: HashMap<u128, u32>,
    bi: Vec<Bi>,
    pub work: Vec<State>,
    pub st: Stats,
    pub viol: Vec<Viol>,
    viol_n: BTreeMap<String, u32>,
    pub samples: Vec<Sample>,
    pub covers: BTreeSet<String>,
    pub cov: HashMap<u32, Vec<bool>>,
    pub case: u64,
    pub max_steps: u64,
    pub max_viol: u32,
    pub sample_cap: usize,
    sample_seen: u64,
    rng: u64,
}

enum Flow {
    Next,
    Frames,
    End,
}
type Rz<T> = Result<T, End>;

pub enum End {
    Stop,
    Bad(String, String),
    Engine(String),
}

/// 256-bit numbers (low, high), which core's formatting of u128 uses: concrete ones only.
fn wide(v: &Val) -> Rz<(u128, u128)> {
    match v {
        S(C(x)) => Ok((*x, 0)),
        A(p) => match (p[0].sc(), p[1].sc()) {
            (C(l), C(h)) => Ok((l, h)),
            _ => Err(End::Engine("symbolic 256-bit number".into())),
        },
        _ => Err(End::Engine("symbolic 256-bit number".into())),
    }
}
fn wide_val(x: (u128, u128)) -> Val {
    A(Rc::new(vec![S(C(x.0)), S(C(x.1))]))
}
fn wide_bin(op: Op, x: (u128, u128), y: (u128, u128)) -> Rz<Val> {
    let r = match op {
        Op::Mul => {
            let m = mask(64);
            let (a, b, c, d) = (x.0 & m, x.0 >> 64, y.0 & m, y.0 >> 64);
            let (ac, ad, bc, bd) = (a * c, a * d, b * c, b * d);
            let mid = (ac >> 64) + (ad & m) + (bc & m);
            let hi = bd + (ad >> 64) + (bc >> 64) + (mid >> 64);
            let hi = hi.wrapping_add(x.0.wrapping_mul(y.1)).wrapping_add(x.1.wrapping_mul(y.0));
            (mid << 64 | ac & m, hi)
        }
        Op::Add => {
            let (l, c) = x.0.overflowing_add(y.0);
            (l, x.1.wrapping_add(y.1).wrapping_add(c as u128))
        }
        Op::And => (x.0 & y.0, x.1 & y.1),
        Op::Or => (x.0 | y.0, x.1 | y.1),
        Op::LShr if y.1 == 0 && y.0 < 256 => match y.0 as u32 {
            0 => x,
            n if n < 128 => (x.0 >> n | x.1 << (128 - n), x.1 >> n),
            128 => (x.1, 0),
            n => (x.1 >> (n - 128), 0),
        },
        _ => return Err(End::Engine(format!("256-bit {:?}", op))),
    };
    Ok(wide_val(r))
}

impl Exec {
    pub fn new(m: Module) -> Exec {
        let fmap = m.func_map();
        let mut bi = Vec::new();
        for f in &m.funcs {
            let n: &str = &f.name;
            let b = match n {
                "malloc" => Bi::Malloc,
                "calloc" => Bi::Calloc,
                "realloc" => Bi::Realloc,
                "free" => Bi::Free,
                "posix_memalign" => Bi::PosixMemalign,
                "memcpy" => Bi::Memcpy,
                "memmove" => Bi::Memmove,
                "memset" => Bi::Memset,
                "memcmp" => Bi::Memcmp,
                "bcmp" => Bi::Bcmp,
                "strlen" => Bi::Strlen,
                "getenv" => Bi::Null,
                // destructors of thread locals: the thread does not end
                "__cxa_thread_atexit_impl" => Bi::Null,
                "v_sym" => Bi::Sym,
                "v_fork" => Bi::Fork,
                "v_assume" => Bi::Assume,
                "v_check" => Bi::Check,
                "v_check_eq" => Bi::CheckEq,
                "v_cover" => Bi::Cover,
                "v_observe" => Bi::Observe,
                "v_case" => Bi::Case,
                "v_pin" => Bi::Pin,
                "v_may_panic" => Bi::MayPanic,
                "v_thread" => Bi::Thread,
                "v_resume" => Bi::Switch,
                "v_current" => Bi::Current,
                _ if n.starts_with("llvm.memcpy") => Bi::Memcpy,
                _ if n.starts_with("llvm.memmove") => Bi::Memmove,
                _ if n.starts_with("llvm.memset") => Bi::Memset,
                _ if n.starts_with("llvm.") => Bi::Intr,
                _ if f.noreturn => Bi::NoReturn,
                _ => Bi::None,
            };
            bi.push(b);
        }
        Exec {
            m,
            x: Ctx::new(),
            sol: Solver::new(),
            fmap,
            bi,
            work: Vec::new(),
            st: Stats::default(),
            viol: Vec::new(),
            viol_n: BTreeMap::new(),
            samples: Vec::new(),
            covers: BTreeSet::new(),
            cov: HashMap::new(),
            case: 0,
            max_steps: 30_000_000,
            max_viol: 4,
            sample_cap: 12,
            sample_seen: 0,
            rng: 0x9e3779b97f4a7c15,
        }
    }

    pub fn start(&mut self, entry: &str) -> Result<(), String> {
        let mut mem = Mem { tab: Vec::new(), next: self.m.nids, stack: Vec::new(), thread: 0, parked: Vec::new() };
        for i in 0..self.m.globals.len() {
            let g = &self.m.globals[i];
            let b = self.m.init_bytes(g).map_err(|e| format!("global {}: {}", g.name, e))?;
            mem.put((g.addr >> 32) as u64, Some(Rc::new(Obj { b, s: None, ro: g.constant })));
        }
        mem.next = (self.m.nids + CH as u64) / CH as u64 * CH as u64;
        let f = *self.m.fidx.get(entry).ok_or(format!("no entry {}", entry))?;
        let body = self.m.body(f)?;
        let st = State {
            frames: vec![Frame {
                f,
                regs: vec![S(C(0)); body.nregs as usize],
                body,
                blk: 0,
                ip: 0,
                dst: u32::MAX,
                normal: None,
                sbase: 0,
            }],
            mem,
            pc: vec![],
            model: Model::new(vec![]),
            inputs: vec![],
            obs: vec![],
            steps: 0,
            covers: Rc::new(BTreeSet::new()),
            may_panic: false,
            parked: Vec::new(),
            depth: 0,
        };
        self.cover_block(f, 0, st.frames[0].body.blocks.len());
        self.work.push(st);
        Ok(())
    }

    fn cover_block(&mut self, f: u32, b: u32, n: usize) {
        let v = self.cov.entry(f).or_insert_with(|| vec![false; n]);
        v[b as usize] = true;
    }

    pub fn inputs_of(&self, st: &State, m: &Model) -> Vec<u64> {
        st.inputs
            .iter()
            .map(|i| match i {
                Inp::Sym(v, w) => (m.vals.get(*v).cloned().unwrap_or(0) & mask(*w)) as u64,
                Inp::Fork(k) => *k,
            })
            .collect()
    }

    fn add_pc(&self, st: &mut State, c: Sc) {
        if let E(i) = c {
            let n = self.x.nodes[i as usize];
            if n.op == Op::And && n.w == 1 {
                self.add_pc(st, E(n.a));
                self.add_pc(st, E(n.b));
            } else if !st.pc.contains(&i) {
                st.pc.push(i);
            }
        }
    }

    /// Is `c` compatible with the path? Returns a model when it is.
    fn feasible(&mut self, st: &State, c: Sc) -> Option<Rc<Model>> {
        match c {
            C(0) => None,
            C(_) => Some(st.model.clone()),
            E(i) => {
                if Solver::truth(&self.x, c, &st.model) {
                    return Some(st.model.clone());
                }
                match self.sol.check(&mut self.x, &st.pc, i, &st.model) {
                    Ans::Sat(m) => {
                        if !Solver::truth(&self.x, c, &m)
                            || !st.pc.iter().all(|p| Solver::truth(&self.x, E(*p), &m))
                        {
                            // the solver's model does not satisfy the query under our own evaluation
                            self.st.errors.push("solver model mismatch".into());
                            self.st.unknown += 1;
                            return None;
                        }
                        Some(m)
                    }
                    Ans::Unsat => None,
                    Ans::Unknown => {
                        self.st.unknown += 1;
                        None
                    }
                }
            }
        }
    }

    /// Make an expression concrete: this state keeps one value, a sibling explores the others by
    /// executing the same instruction again.
    fn pin(&mut self, st: &mut State, s: Sc, w: u32) -> u128 {
        match s {
            C(k) => k,
            E(_) => {
                let v = Solver::value(&self.x, s, &st.model);
                let eq = self.x.bin(Op::Eq, s, C(v), w);
                let ne = self.x.not(eq);
                if let Some(m) = self.feasible(st, ne) {
                    let mut o = st.clone();
                    o.model = m;
                    o.depth += 1;
                    self.add_pc(&mut o, ne);
                    self.st.forks += 1;
                    self.work.push(o);
                    self.add_pc(st, eq);
                }
                v
            }
        }
    }

    // ---- values ----
    #[inline]
    fn ev(&self, fr: &Frame, o: &Opd) -> Val {
        match o {
            Opd::Reg(r) => fr.regs[*r as usize].clone(),
            Opd::K(Cv::S(k)) => S(C(*k)),
            Opd::K(c) => Self::cv(c),
        }
    }
    fn cv(c: &Cv) -> Val {
        match c {
            Cv::S(k) => S(C(*k)),
            Cv::A(v) => A(Rc::new(v.iter().map(Self::cv).collect())),
        }
    }
    #[inline]
    fn evs(&self, fr: &Frame, o: &Opd) -> Sc {
        match o {
            Opd::Reg(r) => match &fr.regs[*r as usize] {
                S(s) => *s,
                v => v.sc(),
            },
            Opd::K(Cv::S(k)) => C(*k),
            Opd::K(c) => Self::cv(c).sc(),
        }
    }

    // ---- memory ----
    fn load_at(&mut self, st: &State, addr: u128, w: u32) -> Rz<Sc> {
        let n = ((w + 7) / 8) as usize;
        let id = (addr >> 32) as u64;
        let off = (addr & 0xffff_ffff) as i64 - BASE_OFF as i64;
        let o = match st.mem.get(id) {
            Some(o) => o,
            None => return Err(End::Bad("memory".into(), format!("load from invalid address {:#x}", addr))),
        };
        if off < 0 || off as usize + n > o.b.len() {
            return Err(End::Bad(
                "memory".into(),
                format!("load of {} bytes at offset {} of a {}-byte object", n, off, o.b.len()),
            ));
        }
        let off = off as usize;
        if let Some(sv) = &o.s {
            if sv[off..off + n].iter().any(|e| e.0 != 0) {
                let (i0, k0) = sv[off];
                let run = i0 != 0
                    && sv[off..off + n].iter().enumerate().all(|(j, e)| e.0 == i0 && e.1 == k0 + j as u8);
                if run {
                    let ow = self.x.w(i0);
                    return Ok(self.x.extract(E(i0), ow, k0 as u32 * 8, w));
                }
                let bytes: Vec<(Id, u8)> = sv[off..off + n].to_vec();
                let conc: Vec<u8> = o.b[off..off + n].to_vec();
                // group into maximal runs, low to high
                let mut acc: Option<(Sc, u32)> = None;
                let mut j = 0;
                while j < n {
                    let mut e = j + 1;
                    let piece;
                    if bytes[j].0 == 0 {
                        let mut k = conc[j] as u128;
                        while e < n && bytes[e].0 == 0 {
                            k |= (conc[e] as u128) << (8 * (e - j));
                            e += 1;
                        }
                        piece = C(k);
                    } else {
                        while e < n && bytes[e].0 == bytes[j].0 && bytes[e].1 == bytes[j].1 + (e - j) as u8 {
                            e += 1;
                        }
                        let ow = self.x.w(bytes[j].0);
                        piece = self.x.extract(E(bytes[j].0), ow, bytes[j].1 as u32 * 8, 8 * (e - j) as u32);
                    }
                    let pw = 8 * (e - j) as u32;
                    acc = Some(match acc {
                        None => (piece, pw),
                        Some((lo, lw)) => (self.x.concat(piece, pw, lo, lw), lw + pw),
                    });
                    j = e;
                }
                let (r, rw) = acc.unwrap();
                return Ok(if rw == w { r } else { self.x.extract(r, rw, 0, w) });
            }
        }
        let mut k = 0u128;
        for (j, b) in o.b[off..off + n].iter().enumerate() {
            k |= (*b as u128) << (8 * j);
        }
        Ok(C(k & mask(w)))
    }

    fn store_at(&mut self, st: &mut State, addr: u128, v: Sc, w: u32) -> Rz<()> {
        let n = ((w + 7) / 8) as usize;
        let id = (addr >> 32) as u64;
        let off = (addr & 0xffff_ffff) as i64 - BASE_OFF as i64;
        let o = match st.mem.get_mut(id) {
            Some(o) => o,
            None => return Err(End::Bad("memory".into(), format!("store to invalid address {:#x}", addr))),
        };
        if off < 0 || off as usize + n > o.b.len() || o.ro {
            return Err(End::Bad(
                "memory".into(),
                format!("store of {} bytes at offset {} of a {}-byte object", n, off, o.b.len()),
            ));
        }
        let off = off as usize;
        match v {
            C(k) => {
                for j in 0..n {
                    o.b[off + j] = (k >> (8 * j)) as u8;
                }
                if let Some(sv) = &mut o.s {
                    for e in sv[off..off + n].iter_mut() {
                        *e = (0, 0);
                    }
                }
            }
            E(_) => {
                let z = self.x.zext(v, w, n as u32 * 8);
                if let E(i) = z {
                    let len = o.b.len();
                    let sv = o.s.get_or_insert_with(|| Box::new(vec![(0, 0); len]));
                    for j in 0..n {
                        sv[off + j] = (i, j as u8);
                    }
                } else {
                    unreachable!()
                }
            }
        }
        Ok(())
    }

    fn load_sc(&mut self, st: &mut State, a: Sc, w: u32) -> Rz<Sc> {
        match a {
            C(k) => self.load_at(st, k, w),
            E(i) => {
                let lc = self.x.ite_leaf_count(a);
                if lc > 0 && lc <= 64 {
                    let mut lv = Vec::new();
                    self.x.ite_leaves(a, &mut lv);
                    if lv.len() <= 16 {
                        // leaves that cannot be reached may be invalid addresses
                        let mut vals = HashMap::new();
                        let mut ok = true;
                        for &l in &lv {
                            match self.load_at(st, l, w) {
                                Ok(v) => {
                                    vals.insert(l, v);
                                }
                                Err(_) => {
                                    ok = false;
                                    break;
                                }
                            }
                        }
                        if ok {
                            return Ok(self.x.map_leaves(E(i), w, &mut |_, l| vals[&l]));
                        }
                    }
                }
                let k = self.pin(st, a, 64);
                self.load_at(st, k, w)
            }
        }
    }

    fn load(&mut self, st: &mut State, ty: &Ty, a: Sc) -> Rz<Val> {
        if let Some(w) = packed(ty) {
            let s = self.load_sc(st, a, w)?;
            return Ok(self.unflat(s, w, ty));
        }
        if ty.is_agg() {
            let mut v = Vec::new();
            for i in 0..ty.count() {
                let p = self.x.bin(Op::Add, a, C(ty.field_off(i) as u128), 64);
                v.push(self.load(st, ty.elem(i), p)?);
            }
            return Ok(A(Rc::new(v)));
        }
        if *ty == Ty::Void {
            return Ok(S(C(0)));
        }
        Ok(S(self.load_sc(st, a, ty.bits())?))
    }

    fn store(&mut self, st: &mut State, ty: &Ty, v: &Val, a: u128) -> Rz<()> {
        if let Some(w) = packed(ty) {
            let (s, _) = self.flat(v, ty);
            return self.store_at(st, a, s, w);
        }
        if ty.is_agg() {
            if let A(vs) = v {
                for i in 0..ty.count() {
                    self.store(st, ty.elem(i), &vs[i], a + ty.field_off(i) as u128)?;
                }
            }
            return Ok(());
        }
        self.store_at(st, a, v.sc(), ty.bits())
    }

    fn range<'a>(&self, st: &'a State, addr: u128, n: usize, what: &str) -> Rz<(&'a Obj, usize)> {
        let id = (addr >> 32) as u64;
        let off = (addr & 0xffff_ffff) as i64 - BASE_OFF as i64;
        match st.mem.get(id) {
            Some(o) if off >= 0 && off as usize + n <= o.b.len() => Ok((o, off as usize)),
            _ => Err(End::Bad("memory".into(), format!("{} of {} bytes at {:#x} outside its object", what, n, addr))),
        }
    }

    fn copy(&mut self, st: &mut State, d: u128, s: u128, n: usize) -> Rz<()> {
        if n == 0 || d == s {
            return Ok(());
        }
        let (o, so) = self.range(st, s, n, "copy source")?;
        let b = o.b[so..so + n].to_vec();
        let sv = o.s.as_ref().and_then(|v| {
            let r = &v[so..so + n];
            if r.iter().any(|e| e.0 != 0) {
                Some(r.to_vec())
            } else {
                None
            }
        });
        let (_, dof) = self.range(st, d, n, "copy destination")?;
        let o = st.mem.get_mut((d >> 32) as u64).unwrap();
        if o.ro {
            return Err(End::Bad("memory".into(), "write to a constant".into()));
        }
        o.b[dof..dof + n].copy_from_slice(&b);
        match sv {
            Some(v) => {
                let len = o.b.len();
                let t = o.s.get_or_insert_with(|| Box::new(vec![(0, 0); len]));
                t[dof..dof + n].copy_from_slice(&v);
            }
            None => {
                if let Some(t) = &mut o.s {
                    for e in t[dof..dof + n].iter_mut() {
                        *e = (0, 0);
                    }
                }
            }
        }
        Ok(())
    }

    fn bytes_at(&mut self, st: &State, addr: u128, n: usize) -> Rz<Option<Vec<u8>>> {
        if n == 0 {
            return Ok(Some(vec![]));
        }
        let (o, off) = self.range(st, addr, n, "read")?;
        if let Some(v) = &o.s {
            if v[off..off + n].iter().any(|e| e.0 != 0) {
                return Ok(None);
            }
        }
        Ok(Some(o.b[off..off + n].to_vec()))
    }

    // ---- arithmetic ----
    fn binop(&mut self, op: Op, ty: &Ty, a: &Val, b: &Val) -> Rz<Val> {
        if let (A(x), A(y)) = (a, b) {
            let et = ty.elem(0).clone();
            let mut v = Vec::new();
            for i in 0..x.len() {
                v.push(self.binop(op, &et, &x[i], &y[i])?);
            }
            return Ok(A(Rc::new(v)));
        }
        Ok(S(self.x.bin(op, a.sc(), b.sc(), ty.bits())))
    }

    fn fcmp(&mut self, k: u8, x: Sc, y: Sc, w: u32) -> Sc {
        let c = &mut self.x;
        // ["false","oeq","ogt","oge","olt","ole","one","ord","uno","ueq","ugt","uge","ult","ule","une","true"]
        match k {
            0 => C(0),
            15 => C(1),
            1 => c.bin(Op::FOeq, x, y, w),
            2 => c.bin(Op::FOlt, y, x, w),
            3 => c.bin(Op::FOle, y, x, w),
            4 => c.bin(Op::FOlt, x, y, w),
            5 => c.bin(Op::FOle, x, y, w),
            6 => {
                let a = c.bin(Op::FOlt, x, y, w);
                let b = c.bin(Op::FOlt, y, x, w);
                c.or1(a, b)
            }
            7 => {
                let u = c.bin(Op::FUno, x, y, w);
                c.not(u)
            }
            8 => c.bin(Op::FUno, x, y, w),
            9 => {
                let r = self.fcmp(6, x, y, w);
                self.x.not(r)
            }
            10 => {
                let r = c.bin(Op::FOle, x, y, w);
                c.not(r)
            }
            11 => {
                let r = c.bin(Op::FOlt, x, y, w);
                c.not(r)
            }
            12 => {
                let r = c.bin(Op::FOle, y, x, w);
                c.not(r)
            }
            13 => {
                let r = c.bin(Op::FOlt, y, x, w);
                c.not(r)
            }
            _ => {
                let r = c.bin(Op::FOeq, x, y, w);
                c.not(r)
            }
        }
    }

    fn flat(&mut self, v: &Val, ty: &Ty) -> (Sc, u32) {
        match v {
            S(s) => (*s, ty.bits()),
            A(vs) => {
                let mut acc: Option<(Sc, u32)> = None;
                for (i, e) in vs.iter().enumerate() {
                    let (s, w) = self.flat(e, ty.elem(i));
                    acc = Some(match acc {
                        None => (s, w),
                        Some((lo, lw)) => (self.x.concat(s, w, lo, lw), lw + w),
                    });
                }
                acc.unwrap_or((C(0), 0))
            }
        }
    }
    fn unflat(&mut self, s: Sc, w: u32, ty: &Ty) -> Val {
        if !ty.is_agg() {
            return S(s);
        }
        let n = ty.count();
        let ew = w / n as u32;
        let et = ty.elem(0).clone();
        let mut v = Vec::new();
        for i in 0..n {
            let e = self.x.extract(s, w, i as u32 * ew, ew);
            v.push(self.unflat(e, ew, &et));
        }
        A(Rc::new(v))
    }

    fn cast(&mut self, k: Cast, t: &Ty, t2: &Ty, v: &Val) -> Rz<Val> {
        if k == Cast::Bit {
            if t.is_agg() != t2.is_agg() || (t.is_agg() && t.count() != t2.count()) {
                let (s, w) = self.flat(v, t);
                if w > 128 {
                    return Err(End::Engine("wide bitcast".into()));
                }
                return Ok(self.unflat(s, w, t2));
            }
            return Ok(v.clone());
        }
        if let A(vs) = v {
            let (a, b) = (t.elem(0).clone(), t2.elem(0).clone());
            let mut r = Vec::new();
            for e in vs.iter() {
                r.push(self.cast(k, &a, &b, e)?);
            }
            return Ok(A(Rc::new(r)));
        }
        let (a, ow, w) = (v.sc(), t.bits(), t2.bits());
        let c = &mut self.x;
        Ok(S(match k {
            Cast::Trunc => c.extract(a, ow, 0, w),
            Cast::ZExt => c.zext(a, ow, w),
            Cast::SExt => c.sext(a, ow, w),
            Cast::UToF => c.un(Op::UToF, a, ow, w, 0),
            Cast::SToF => c.un(Op::SToF, a, ow, w, 0),
            Cast::FToU => c.un(Op::FToU, a, ow, w, 0),
            Cast::FToS => c.un(Op::FToS, a, ow, w, 0),
            Cast::FExt => c.un(Op::FExt, a, ow, w, 0),
            Cast::FTrunc => c.un(Op::FTrunc, a, ow, w, 0),
            Cast::Bit => unreachable!(),
        }))
    }

    fn select(&mut self, c: Sc, a: &Val, b: &Val, ty: &Ty) -> Val {
        match c {
            C(0) => return b.clone(),
            C(_) => return a.clone(),
            _ => {}
        }
        match (a, b) {
            (A(x), A(y)) => {
                let v = (0..x.len())
                    .map(|i| {
                        let t = ty.elem(i).clone();
                        self.select(c, &x[i], &y[i], &t)
                    })
                    .collect();
                A(Rc::new(v))
            }
            _ => S(self.x.ite(c, a.sc(), b.sc(), ty.bits())),
        }
    }

    // ---- control ----
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        let body = fr.body.clone();
        let b = &body.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (dst, inc) in &b.phis {
                let o = &inc.iter().find(|x| x.0 == from).expect("phi edge").1;
                vals.push((*dst, self.ev(st.frames.last().unwrap(), o)));
            }
            let fr = st.frames.last_mut().unwrap();
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.blk = to;
        fr.ip = 0;
        let (f, n) = (fr.f, body.blocks.len());
        self.cover_block(f, to, n);
    }

    fn ret_to(&mut self, st: &mut State, dst: u32, normal: Option<u32>, v: Option<Val>) {
        let fr = st.frames.last_mut().unwrap();
        if dst != u32::MAX {
            if let Some(v) = v {
                fr.regs[dst as usize] = v;
            }
        }
        match normal {
            Some(b) => self.jump(st, b),
            None => fr.ip += 1,
        }
    }

    /// Location of a debug metadata node, as (file, line).
    pub fn dbg_loc(&self, d: u32) -> Option<(String, u32)> {
        let mut cur = d;
        let l = &self.m.src[*self.m.md.get(&cur)?];
        let line = field(l, "line: ")?.parse().ok()?;
        for _ in 0..12 {
            let l = &self.m.src[*self.m.md.get(&cur)?];
            if let Some(f) = field(l, "file: !") {
                let fl = &self.m.src[*self.m.md.get(&f.parse().ok()?)?];
                let name = fl.split("filename: \"").nth(1)?.split('"').next()?;
                let dir = fl.split("directory: \"").nth(1).and_then(|x| x.split('"').next()).unwrap_or("");
                let p = if name.starts_with('/') { name.to_string() } else { format!("{}/{}", dir, name) };
                return Some((p, line));
            }
            let sc = field(l, "scope: !")?;
            cur = sc.parse().ok()?;
        }
        None
    }

    fn where_am_i(&self, st: &State) -> (String, Vec<String>) {
        let mut stack = Vec::new();
        let mut loc = String::new();
        for (k, fr) in st.frames.iter().rev().enumerate() {
            let insts = &fr.body.blocks[fr.blk as usize].insts;
            let d = insts.get(fr.ip as usize).map(|i| i.dbg).unwrap_or(0);
            let mut s = short(&self.m.funcs[fr.f as usize].name);
            // follow the inlining chain to the nearest location in the code under test
            let mut cur = d;
            while cur != 0 {
                if let Some((f, l)) = self.dbg_loc(cur) {
                    if f.contains("rust-src/src") {
                        if loc.is_empty() {
                            loc = format!("{}:{}", f, l);
                        }
                        s = format!("{} {}:{}", s, f.rsplit('/').next().unwrap_or(""), l);
                        break;
                    }
                }
                cur = self
                    .m
                    .md
                    .get(&cur)
                    .and_then(|i| field(&self.m.src[*i], "inlinedAt: !"))
                    .and_then(|x| x.parse().ok())
                    .unwrap_or(0);
            }
            if k < 8 {
                stack.push(s);
            }
        }
        (loc, stack)
    }

    fn violation(&mut self, st: &State, m: &Model, kind: &str, msg: &str) {
        let (loc, stack) = self.where_am_i(st);
        let key = format!("{}|{}|{}", kind, msg, loc);
        let n = self.viol_n.entry(key).or_insert(0);
        *n += 1;
        if *n <= self.max_viol {
            self.viol.push(Viol {
                kind: kind.into(),
                msg: msg.into(),
                loc,
                inputs: self.inputs_of(st, m),
                stack,
            });
        }
    }

    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    /// Another input of the same path, away from the solver's favourite zeros.
    fn spread(&mut self, st: &State) -> Rc<Model> {
        let mut vals = st.model.vals.clone();
        let syms: Vec<(usize, u32)> = st
            .inputs
            .iter()
            .filter_map(|i| if let Inp::Sym(v, w) = i { Some((*v, *w)) } else { None })
            .collect();
        for (v, w) in syms {
            if vals.len() <= v {
                vals.resize(v + 1, 0);
            }
            let old = vals[v];
            let on: Vec<Id> = st
                .pc
                .iter()
                .cloned()
                .filter(|p| (self.x.support[*p as usize] >> v) & 1 == 1)
                .collect();
            for t in 0..2 {
                let r = self.rnd() as u128;
                vals[v] = if t == 0 { r & mask(w) } else { old ^ (1 << (r as u32 % w)) };
                let mut memo = Default::default();
                if on.iter().all(|p| self.x.eval(E(*p), &vals, &mut memo) != 0) {
                    break;
                }
                vals[v] = old;
            }
        }
        Model::new(vals)
    }

    fn finish(&mut self, st: &State) {
        self.st.paths += 1;
        self.st.maxdepth = self.st.maxdepth.max(st.depth as u64);
        for c in st.covers.iter() {
            if !self.covers.contains(c) {
                self.covers.insert(c.clone());
            }
        }
        self.sample_seen += 1;
        let take = if self.samples.len() < self.sample_cap {
            Some(self.samples.len())
        } else {
            self.rng ^= self.rng << 13;
            self.rng ^= self.rng >> 7;
            self.rng ^= self.rng << 17;
            let k = (self.rng % self.sample_seen) as usize;
            if k < self.sample_cap {
                Some(k)
            } else {
                None
            }
        };
        if let Some(k) = take {
            let m = self.spread(st);
            let s = Sample {
                inputs: self.inputs_of(st, &m),
                obs: st.obs.iter().map(|o| Solver::value(&self.x, *o, &m) as u64).collect(),
            };
            if k < self.samples.len() {
                self.samples[k] = s;
            } else {
                self.samples.push(s);
            }
        }
    }

    /// Run one state until it forks away, ends or the deadline passes. Returns it when interrupted.
    pub fn run(&mut self, mut st: State, budget: u64) -> Option<State> {
        let mut left = budget;
        loop {
            if left == 0 {
                return Some(st);
            }
            left -= 1;
            self.st.instrs += 1;
            st.steps += 1;
            if st.steps > self.max_steps {
                let m = st.model.clone();
                self.violation(&st, &m, "step-limit", "path exceeds the instruction limit");
                self.st.paths += 1;
                return None;
            }
            let r = self.step(&mut st);
            match r {
                Ok(Flow::Next) => st.frames.last_mut().unwrap().ip += 1,
                Ok(Flow::Frames) => {}
                Ok(Flow::End) => {
                    self.finish(&st);
                    return None;
                }
                Err(End::Stop) => {
                    self.st.assumed_out += 1;
                    return None;
                }
                Err(End::Bad(k, msg)) => {
                    let m = st.model.clone();
                    self.violation(&st, &m, &k, &msg);
                    self.st.paths += 1;
                    return None;
                }
                Err(End::Engine(e)) => {
                    let (_, stack) = self.where_am_i(&st);
                    let s = format!("{} [{}]", e, stack.join(" < "));
                    if self.st.errors.len() < 20 && !self.st.errors.contains(&s) {
                        self.st.errors.push(s);
                    }
                    self.st.dropped += 1;
                    return None;
                }
            }
        }
    }

    fn step(&mut self, st: &mut State) -> Rz<Flow> {
        let fr = st.frames.last().unwrap();
        let body = fr.body.clone();
        let ins = &body.blocks[fr.blk as usize].insts[fr.ip as usize];
        let dst = ins.dst;
        let v: Val = match &ins.i {
            I::Bin(op, ty, a, b) => {
                if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) && !ty.is_agg() {
                    let d = self.evs(fr, b);
                    if d == C(0) {
                        return Err(End::Bad("ub".into(), "division by zero".into()));
                    }
                }
                if *ty == Ty::Int(256) {
                    wide_bin(*op, wide(&self.ev(fr, a))?, wide(&self.ev(fr, b))?)?
                } else if let (Ty::Int(w), Opd::Reg(_)) = (ty, a) {
                    let (x, y) = (self.evs(fr, a), self.evs(fr, b));
                    S(self.x.bin(*op, x, y, *w))
                } else {
                    let (x, y) = (self.ev(fr, a), self.ev(fr, b));
                    self.binop(*op, ty, &x, &y)?
                }
            }
            I::FRem(_, a, b) => match (self.evs(fr, a), self.evs(fr, b)) {
                (C(a), C(b)) => S(C((f64::from_bits(a as u64) % f64::from_bits(b as u64)).to_bits() as u128)),
                _ => return Err(End::Engine("symbolic frem".into())),
            },
            I::FNeg(ty, a) => {
                let x = self.ev(fr, a);
                let s = if ty.is_agg() { return Err(End::Engine("vector fneg".into())) } else { ty.bits() };
                S(self.x.bin(Op::Xor, x.sc(), C(1u128 << (s - 1)), s))
            }
            I::ICmp(op, swap, neg, ty, a, b) => {
                if ty.is_agg() {
                    let (x, y) = (self.ev(fr, a), self.ev(fr, b));
                    let (A(x), A(y)) = (x, y) else { return Err(End::Engine("icmp".into())) };
                    let w = ty.elem(0).bits();
                    let mut out = Vec::new();
                    for i in 0..x.len() {
                        let (p, q) = if *swap { (&y[i], &x[i]) } else { (&x[i], &y[i]) };
                        let mut r = self.x.bin(*op, p.sc(), q.sc(), w);
                        if *neg {
                            r = self.x.not(r);
                        }
                        out.push(S(r));
                    }
                    A(Rc::new(out))
                } else {
                    let (x, y) = (self.evs(fr, a), self.evs(fr, b));
                    let (x, y) = if *swap { (y, x) } else { (x, y) };
                    let mut r = self.x.bin(*op, x, y, ty.bits());
                    if *neg {
                        r = self.x.not(r);
                    }
                    S(r)
                }
            }
            I::FCmp(k, ty, a, b) => {
                let (x, y) = (self.evs(fr, a), self.evs(fr, b));
                S(self.fcmp(*k, x, y, ty.bits()))
            }
            I::Cast(k, t, t2, a) => {
                let x = self.ev(fr, a);
                if *t2 == Ty::Int(256) {
                    if *k != Cast::ZExt {
                        return Err(End::Engine("256-bit cast".into()));
                    }
                    wide_val(wide(&x)?)
                } else if *t == Ty::Int(256) {
                    S(C(wide(&x)?.0 & mask(t2.bits())))
                } else {
                    self.cast(*k, t, t2, &x)?
                }
            }
            I::Select(c, ty, a, b, vc) => {
                let (x, y) = (self.ev(fr, a), self.ev(fr, b));
                if *vc {
                    let A(cv) = self.ev(fr, c) else { return Err(End::Engine("select".into())) };
                    let (A(x), A(y)) = (x, y) else { return Err(End::Engine("select".into())) };
                    let et = ty.elem(0).clone();
                    let mut out = Vec::new();
                    for i in 0..x.len() {
                        out.push(self.select(cv[i].sc(), &x[i], &y[i], &et));
                    }
                    A(Rc::new(out))
                } else {
                    let c = self.evs(fr, c);
                    self.select(c, &x, &y, ty)
                }
            }
            I::Alloca(sz, n) => {
                let n = self.evs(fr, n);
                let n = self.pin(st, n, 64) as u64;
                let id = st.mem.next_stack();
                st.mem.stack.push(Rc::new(Obj { b: vec![0; (sz * n) as usize], s: None, ro: false }));
                S(C(((id as u128) << 32) + BASE_OFF))
            }
            I::Load(ty, a) => {
                let a = self.evs(fr, a);
                self.load(st, ty, a)?
            }
            I::Store(ty, v, a) => {
                let v = self.ev(fr, v);
                let a = self.evs(fr, a);
                let a = self.pin(st, a, 64);
                self.store(st, ty, &v, a)?;
                return Ok(Flow::Next);
            }
            I::Gep(a, off, dynm) => {
                let mut p = self.evs(fr, a);
                if *off != 0 {
                    p = self.x.bin(Op::Add, p, C(*off as u64 as u128), 64);
                }
                for (sc, o, w) in dynm {
                    let i = self.evs(fr, o);
                    let i = self.x.sext(i, *w, 64);
                    let t = self.x.bin(Op::Mul, i, C(*sc as u64 as u128), 64);
                    p = self.x.bin(Op::Add, p, t, 64);
                }
                S(p)
            }
            I::ExtractValue(a, ix) => {
                let mut v = self.ev(fr, a);
                for i in ix {
                    let A(t) = &v else { return Err(End::Engine("extractvalue".into())) };
                    let n = t[*i as usize].clone();
                    v = n;
                }
                v
            }
            I::InsertValue(a, b, ix, _) => {
                let (x, y) = (self.ev(fr, a), self.ev(fr, b));
                fn ins(v: &Val, y: &Val, ix: &[u32]) -> Val {
                    if ix.is_empty() {
                        return y.clone();
                    }
                    let A(t) = v else { panic!("insertvalue") };
                    let mut t = (**t).clone();
                    t[ix[0] as usize] = ins(&t[ix[0] as usize], y, &ix[1..]);
                    A(Rc::new(t))
                }
                ins(&x, &y, ix)
            }
            I::ExtractElem(a, b) => {
                let A(v) = self.ev(fr, a) else { return Err(End::Engine("extractelement".into())) };
                let i = self.evs(fr, b);
                let i = self.pin(st, i, 64) as usize;
                v[i].clone()
            }
            I::InsertElem(a, b, c) => {
                let A(v) = self.ev(fr, a) else { return Err(End::Engine("insertelement".into())) };
                let y = self.ev(fr, b);
                let i = self.evs(fr, c);
                let i = self.pin(st, i, 64) as usize;
                let mut v = (*v).clone();
                v[i] = y;
                A(Rc::new(v))
            }
            I::Shuffle(a, b, ix, n) => {
                let (A(x), A(y)) = (self.ev(fr, a), self.ev(fr, b)) else {
                    return Err(End::Engine("shuffle".into()));
                };
                let v = ix
                    .iter()
                    .map(|k| match k {
                        Some(k) if *k < *n => x[*k].clone(),
                        Some(k) => y[*k - *n].clone(),
                        None => S(C(0)),
                    })
                    .collect();
                A(Rc::new(v))
            }
            I::Rmw(k, ty, a, v) => {
                let (a, v) = (self.evs(fr, a), self.evs(fr, v));
                let a = self.pin(st, a, 64);
                let w = ty.bits();
                let old = self.load_at(st, a, w)?;
                let c = &mut self.x;
                let new = match k {
                    0 => v,
                    1 => c.bin(Op::Add, old, v, w),
                    2 => c.bin(Op::Sub, old, v, w),
                    3 => c.bin(Op::And, old, v, w),
                    4 => c.bin(Op::Or, old, v, w),
                    5 => c.bin(Op::Xor, old, v, w),
                    6 | 7 => {
                        let l = c.bin(Op::Slt, old, v, w);
                        if *k == 6 { c.ite(l, v, old, w) } else { c.ite(l, old, v, w) }
                    }
                    8 | 9 => {
                        let l = c.bin(Op::Ult, old, v, w);
                        if *k == 8 { c.ite(l, v, old, w) } else { c.ite(l, old, v, w) }
                    }
                    _ => return Err(End::Engine("nand".into())),
                };
                self.store_at(st, a, new, w)?;
                S(old)
            }
            I::CmpXchg(ty, a, c, n) => {
                let (a, c, n) = (self.evs(fr, a), self.evs(fr, c), self.evs(fr, n));
                let a = self.pin(st, a, 64);
                let w = ty.bits();
                let old = self.load_at(st, a, w)?;
                let eq = self.x.bin(Op::Eq, old, c, w);
                let new = self.x.ite(eq, n, old, w);
                self.store_at(st, a, new, w)?;
                A(Rc::new(vec![S(old), S(eq)]))
            }
            I::Nop => return Ok(Flow::Next),
            I::Copy(a) => self.ev(fr, a),
            I::Br(b) => {
                self.jump(st, *b);
                return Ok(Flow::Frames);
            }
            I::CondBr(c, a, b) => {
                let (a, b) = (*a, *b);
                match self.evs(fr, c) {
                    C(0) => self.jump(st, b),
                    C(_) => self.jump(st, a),
                    c => {
                        let t = Solver::truth(&self.x, c, &st.model);
                        let nc = self.x.not(c);
                        let (mine, other, to, oto) = if t { (c, nc, a, b) } else { (nc, c, b, a) };
                        if let Some(m) = self.feasible(st, other) {
                            let mut o = st.clone();
                            o.model = m;
                            o.depth += 1;
                            self.add_pc(&mut o, other);
                            self.jump(&mut o, oto);
                            self.work.push(o);
                            self.st.forks += 1;
                            self.add_pc(st, mine);
                        }
                        self.jump(st, to);
                    }
                }
                return Ok(Flow::Frames);
            }
            I::Switch(w, c, d, cs) => {
                match self.evs(fr, c) {
                    C(k) => {
                        let to = cs.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*d);
                        self.jump(st, to);
                    }
                    c => {
                        let v = Solver::value(&self.x, c, &st.model);
                        let mine = cs.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or(*d);
                        let mut conds: BTreeMap<u32, Sc> = BTreeMap::new();
                        let mut dc = C(1);
                        for (k, to) in cs {
                            let e = self.x.bin(Op::Eq, c, C(*k), *w);
                            let ne = self.x.not(e);
                            dc = self.x.and1(dc, ne);
                            let p = conds.get(to).cloned().unwrap_or(C(0));
                            let q = self.x.or1(p, e);
                            conds.insert(*to, q);
                        }
                        let p = conds.get(d).cloned().unwrap_or(C(0));
                        let q = self.x.or1(p, dc);
                        conds.insert(*d, q);
                        let mut forked = false;
                        for (to, q) in &conds {
                            if *to == mine {
                                continue;
                            }
                            if let Some(m) = self.feasible(st, *q) {
                                let mut o = st.clone();
                                o.model = m;
                                o.depth += 1;
                                self.add_pc(&mut o, *q);
                                self.jump(&mut o, *to);
                                self.work.push(o);
                                self.st.forks += 1;
                                forked = true;
                            }
                        }
                        if forked {
                            self.add_pc(st, conds[&mine]);
                        }
                        self.jump(st, mine);
                    }
                }
                return Ok(Flow::Frames);
            }
            I::Ret(v) => {
                let v = v.as_ref().map(|v| self.ev(fr, v));
                let f = st.frames.pop().unwrap();
                st.mem.stack.truncate(f.sbase);
                if st.frames.is_empty() {
                    if st.mem.thread != 0 {
                        return Err(End::Engine("a thread returned".into()));
                    }
                    return Ok(Flow::End);
                }
                self.ret_to(st, f.dst, f.normal, v);
                return Ok(Flow::Frames);
            }
            I::Unreachable => return Err(End::Bad("ub".into(), "unreachable executed".into())),
            I::Resume => return Err(End::Engine("resume".into())),
            I::Call(c) => return self.call(st, c, dst),
        };
        if dst != u32::MAX {
            st.frames.last_mut().unwrap().regs[dst as usize] = v;
        }
        Ok(Flow::Next)
    }

    fn call(&mut self, st: &mut State, c: &CallI, dst: u32) -> Rz<Flow> {
        let f = match &c.callee {
            Callee::Fn(f) => *f,
            Callee::Name(n) => {
                if &**n == "asm" {
                    // black_box and friends: an empty asm block acts as the identity
                    let fr = st.frames.last().unwrap();
                    let v = c.args.get(0).map(|a| self.ev(fr, a));
                    self.ret_to(st, dst, c.normal, v);
                    return Ok(Flow::Frames);
                }
                return Err(End::Engine(format!("call to unknown {}", n)));
            }
            Callee::Ind(o) => {
                let p = self.evs(st.frames.last().unwrap(), o);
                let p = self.pin(st, p, 64);
                match self.fmap.get(&p) {
                    Some(f) => *f,
                    None => return Err(End::Bad("memory".into(), "call through an invalid pointer".into())),
                }
            }
        };
        let bi = self.bi[f as usize];
        if bi == Bi::None {
            let body = match self.m.body(f) {
                Ok(b) => b,
                Err(e) => return Err(End::Engine(format!("call of {}: {}", self.m.funcs[f as usize].name, e))),
            };
            if st.frames.len() > 2000 {
                return Err(End::Bad("stack".into(), "call depth".into()));
            }
            let fr = st.frames.last().unwrap();
            let mut regs = vec![S(C(0)); body.nregs as usize];
            for (i, p) in body.params.iter().enumerate() {
                let v = match c.args.get(i) {
                    Some(a) => self.ev(fr, a),
                    None => break,
                };
                regs[*p as usize] = v;
            }
            let sbase = st.mem.stack.len();
            for (i, bv) in c.byval.iter().enumerate() {
                if let Some(n) = bv {
                    let src = regs[body.params[i] as usize].sc();
                    let src = match src {
                        C(k) => k,
                        _ => return Err(End::Engine("symbolic byval".into())),
                    };
                    let id = st.mem.next_stack();
                    st.mem.stack.push(Rc::new(Obj { b: vec![0; *n as usize], s: None, ro: false }));
                    let d = ((id as u128) << 32) + BASE_OFF;
                    self.copy(st, d, src, *n as usize)?;
                    regs[body.params[i] as usize] = S(C(d));
                }
            }
            let n = body.blocks.len();
            st.frames.push(Frame { f, body, blk: 0, ip: 0, regs, dst, normal: c.normal, sbase });
            self.cover_block(f, 0, n);
            return Ok(Flow::Frames);
        }
        let fr = st.frames.last().unwrap();
        let args: Vec<Val> = c.args.iter().map(|a| self.ev(fr, a)).collect();
        let arg = |i: usize| -> Sc { args[i].sc() };
        let mut out: Option<Val> = None;
        match bi {
            Bi::None => unreachable!(),
            Bi::Malloc => {
                let n = self.pin(st, arg(0), 64);
                out = Some(self.alloc(st, n)?);
            }
            Bi::Calloc => {
                let a = self.pin(st, arg(0), 64);
                let b = self.pin(st, arg(1), 64);
                out = Some(self.alloc(st, a.saturating_mul(b))?);
            }
            Bi::PosixMemalign => {
                let n = self.pin(st, arg(2), 64);
                let p = self.pin(st, arg(0), 64);
                let v = self.alloc(st, n)?;
                self.store_at(st, p, v.sc(), 64)?;
                out = Some(S(C(0)));
            }
            Bi::Realloc => {
                let n = self.pin(st, arg(1), 64);
                let p = self.pin(st, arg(0), 64);
                let v = self.alloc(st, n)?;
                if p != 0 {
                    let old = match st.mem.get((p >> 32) as u64) {
                        Some(o) => o.b.len(),
                        None => return Err(End::Bad("memory".into(), "realloc of invalid pointer".into())),
                    };
                    let C(d) = v.sc() else { unreachable!() };
                    self.copy(st, d, p, old.min(n as usize))?;
                    st.mem.put((p >> 32) as u64, None);
                }
                out = Some(v);
            }
            Bi::Free => {
                let p = self.pin(st, arg(0), 64);
                if p != 0 {
                    let id = (p >> 32) as u64;
                    if id < self.m.nids || id >= STACK0 || st.mem.get(id).is_none() {
                        return Err(End::Bad("memory".into(), "free of an invalid pointer".into()));
                    }
                    st.mem.put(id, None);
                }
            }
            Bi::Memcpy | Bi::Memmove => {
                let n = self.pin(st, arg(2), 64);
                if n > 0 {
                    let d = self.pin(st, arg(0), 64);
                    let s = self.pin(st, arg(1), 64);
                    if n > 1 << 30 {
                        return Err(End::Bad("memory".into(), "huge copy".into()));
                    }
                    self.copy(st, d, s, n as usize)?;
                }
                out = Some(args[0].clone());
            }
            Bi::Memset => {
                let n = self.pin(st, arg(2), 64) as usize;
                if n > 0 {
                    let d = self.pin(st, arg(0), 64);
                    let ow = if c.atys[1] == Ty::Int(8) { 8 } else { 32 };
                    let v = self.x.extract(arg(1), ow, 0, 8);
                    let (_, off) = self.range(st, d, n, "memset")?;
                    let o = st.mem.get_mut((d >> 32) as u64).unwrap();
                    match v {
                        C(k) => {
                            o.b[off..off + n].fill(k as u8);
                            if let Some(t) = &mut o.s {
                                for e in t[off..off + n].iter_mut() {
                                    *e = (0, 0);
                                }
                            }
                        }
                        E(i) => {
                            let len = o.b.len();
                            let t = o.s.get_or_insert_with(|| Box::new(vec![(0, 0); len]));
                            for e in t[off..off + n].iter_mut() {
                                *e = (i, 0);
                            }
                        }
                    }
                }
                out = Some(args[0].clone());
            }
            Bi::Memcmp | Bi::Bcmp => {
                let n = self.pin(st, arg(2), 64) as usize;
                if n == 0 {
                    out = Some(S(C(0)));
                } else {
                    let a = self.pin(st, arg(0), 64);
                    let b = self.pin(st, arg(1), 64);
                    let r = self.memcmp(st, a, b, n, bi == Bi::Bcmp)?;
                    out = Some(S(r));
                }
            }
            Bi::Strlen => {
                let p = self.pin(st, arg(0), 64);
                let mut n = 0u128;
                loop {
                    match self.load_at(st, p + n, 8)? {
                        C(0) => break,
                        C(_) => n += 1,
                        _ => return Err(End::Engine("symbolic strlen".into())),
                    }
                }
                out = Some(S(C(n)));
            }
            Bi::Null => out = Some(S(C(0))),
            Bi::Sym => {
                let C(w) = arg(0) else { return Err(End::Engine("v_sym width".into())) };
                let w = w as u32;
                let n = st.inputs.iter().filter(|i| matches!(i, Inp::Sym(_, k) if *k == w)).count();
                let Some((id, v)) = self.x.var(n, w) else {
                    return Err(End::Engine("more than 128 symbolic inputs".into()));
                };
                let v = self.x.zext(v, w, 64);
                st.inputs.push(Inp::Sym(id, w));
                out = Some(S(v));
            }
            Bi::Fork => {
                let n = self.pin(st, arg(0), 32) as u64;
                if n == 0 {
                    return Err(End::Stop);
                }
                for k in (1..n).rev() {
                    let mut o = st.clone();
                    o.inputs.push(Inp::Fork(k));
                    o.depth += 1;
                    self.ret_to(&mut o, dst, c.normal, Some(S(C(k as u128))));
                    self.work.push(o);
                    self.st.forks += 1;
                }
                st.inputs.push(Inp::Fork(0));
                out = Some(S(C(0)));
            }
            Bi::Pin => {
                // enumerate the feasible values of an expression
                let k = self.pin(st, arg(0), 64);
                out = Some(S(C(k)));
            }
            Bi::Assume => {
                let b = self.bool_of(arg(0), &c.atys[0]);
                match self.feasible(st, b) {
                    Some(m) => {
                        st.model = m;
                        self.add_pc(st, b);
                    }
                    None => return Err(End::Stop),
                }
            }
            Bi::Check | Bi::CheckEq => {
                // an equality keeps both sides as they are, so that the solver decides it
                let (b, at) = if bi == Bi::CheckEq {
                    (self.x.eq_for_solver(arg(0), arg(1), 64), 2)
                } else {
                    (self.bool_of(arg(0), &c.atys[0]), 1)
                };
                self.st.checks += 1;
                if b != C(1) {
                    self.st.checks_sym += 1;
                    let nb = self.x.not(b);
                    if let Some(m) = self.feasible(st, nb) {
                        let (p, n) = (arg(at), arg(at + 1));
                        let p = self.pin(st, p, 64);
                        let n = self.pin(st, n, 64) as usize;
                        let msg = self
                            .bytes_at(st, p, n)?
                            .map(|b| String::from_utf8_lossy(&b).into_owned())
                            .unwrap_or_default();
                        self.violation(st, &m, "check", &msg);
                        match self.feasible(st, b) {
                            Some(m) => {
                                st.model = m;
                                self.add_pc(st, b);
                            }
                            None => {
                                self.st.paths += 1;
                                return Err(End::Stop);
                            }
                        }
                    }
                }
            }
            Bi::Cover => {
                let p = self.pin(st, arg(0), 64);
                let n = self.pin(st, arg(1), 64) as usize;
                let msg = self.bytes_at(st, p, n)?.map(|b| String::from_utf8_lossy(&b).into_owned());
                if let Some(s) = msg {
                    if !st.covers.contains(&s) {
                        Rc::make_mut(&mut st.covers).insert(s);
                    }
                }
            }
            Bi::Observe => st.obs.push(arg(0)),
            Bi::Case => out = Some(S(C(self.case as u128))),
            Bi::Intr => {
                let name = self.m.funcs[f as usize].name.clone();
                out = self.intrinsic(st, &name, &args, c)?;
            }
            Bi::MayPanic => {
                let n = self.pin(st, arg(0), 8);
                st.may_panic = n != 0;
            }
            Bi::Thread => {
                // a thread that will call a function with an argument; it runs when switched to
                let f = self.pin(st, arg(0), 64);
                let a = arg(1);
                let f = match self.fmap.get(&f) {
                    Some(f) => *f,
                    None => return Err(End::Bad("memory".into(), "thread of an invalid pointer".into())),
                };
                let body = match self.m.body(f) {
                    Ok(b) => b,
                    Err(e) => return Err(End::Engine(format!("thread: {}", e))),
                };
                let mut regs = vec![S(C(0)); body.nregs as usize];
                regs[body.params[0] as usize] = S(a);
                self.cover_block(f, 0, body.blocks.len());
                if st.parked.is_empty() {
                    st.parked.push(Vec::new());
                }
                let t = st.parked.len();
                st.parked.push(vec![Frame { f, body, blk: 0, ip: 0, regs, dst: u32::MAX, normal: None, sbase: 0 }]);
                out = Some(S(C(t as u128)));
            }
            Bi::Current => out = Some(S(C(st.mem.thread as u128))),
            Bi::Switch => {
                let t = self.pin(st, arg(0), 32) as u32;
                self.ret_to(st, dst, c.normal, None);
                let now = st.mem.thread;
                if t == now || st.parked.get(t as usize).map_or(true, |f| f.is_empty()) {
                    return Err(End::Engine("switch to no thread".into()));
                }
                st.parked[now as usize] = std::mem::take(&mut st.frames);
                st.frames = std::mem::take(&mut st.parked[t as usize]);
                st.mem.switch(t);
                return Ok(Flow::Frames);
            }
            Bi::NoReturn => {
                if st.may_panic {
                    st.obs.push(C(PANICKED));
                    if !st.covers.contains("panicked") {
                        Rc::make_mut(&mut st.covers).insert("panicked".into());
                    }
                    return Ok(Flow::End);
                }
                let name = short(&self.m.funcs[f as usize].name);
                let msg = self.panic_msg(st, &name, &args);
                return Err(End::Bad("panic".into(), msg));
            }
        }
        self.ret_to(st, dst, c.normal, out);
        Ok(Flow::Frames)
    }

    fn bool_of(&mut self, a: Sc, t: &Ty) -> Sc {
        let w = t.bits();
        if w == 1 {
            a
        } else {
            let z = self.x.bin(Op::Eq, a, C(0), w);
            self.x.not(z)
        }
    }

    fn alloc(&mut self, st: &mut State, n: u128) -> Rz<Val> {
        if n > 1 << 28 {
            return Err(End::Bad("memory".into(), format!("allocation of {} bytes", n)));
        }
        Ok(S(C(st.mem.alloc(n as u64))))
    }

    fn memcmp(&mut self, st: &State, a: u128, b: u128, n: usize, eq_only: bool) -> Rz<Sc> {
        if let (Some(x), Some(y)) = (self.bytes_at(st, a, n)?, self.bytes_at(st, b, n)?) {
            return Ok(C(match x.cmp(&y) {
                std::cmp::Ordering::Less => mask(32),
                std::cmp::Ordering::Equal => 0,
                std::cmp::Ordering::Greater => 1,
            }));
        }
        let mut parts = Vec::new();
        let mut o = 0;
        while o < n {
            let l = (n - o).min(8);
            let mut x = self.load_at(st, a + o as u128, 8 * l as u32)?;
            let mut y = self.load_at(st, b + o as u128, 8 * l as u32)?;
            if !eq_only {
                x = self.bswap(x, 8 * l as u32);
                y = self.bswap(y, 8 * l as u32);
            }
            parts.push((x, y, 8 * l as u32));
            o += l;
        }
        if eq_only {
            let mut all = C(1);
            for (x, y, w) in parts {
                let e = self.x.bin(Op::Eq, x, y, w);
                all = self.x.and1(all, e);
            }
            return Ok(self.x.ite(all, C(0), C(1), 32));
        }
        let mut r = C(0);
        for (x, y, w) in parts.into_iter().rev() {
            let l = self.x.bin(Op::Ult, x, y, w);
            let g = self.x.bin(Op::Ult, y, x, w);
            let t = self.x.ite(g, C(1), r, 32);
            r = self.x.ite(l, C(mask(32)), t, 32);
        }
        Ok(r)
    }

    fn bswap(&mut self, x: Sc, w: u32) -> Sc {
        let mut acc = self.x.extract(x, w, 0, 8);
        let mut aw = 8;
        let mut o = 8;
        while o < w {
            let b = self.x.extract(x, w, o, 8);
            acc = self.x.concat(acc, aw, b, 8);
            aw += 8;
            o += 8;
        }
        acc
    }

    fn panic_msg(&mut self, st: &State, name: &str, args: &[Val]) -> String {
        let mut s = name.to_string();
        let sc: Vec<Sc> = args.iter().filter_map(|a| if let S(s) = a { Some(*s) } else { None }).collect();
        if let (Some(C(p)), Some(C(n))) = (sc.get(0), sc.get(1)) {
            if *n < 400 && (*p >> 32) != 0 {
                if let Ok(Some(b)) = self.bytes_at(st, *p, *n as usize) {
                    if b.iter().all(|c| *c >= 32 && *c < 127) && !b.is_empty() {
                        s = format!("{}: {}", s, String::from_utf8_lossy(&b));
                    }
                }
            }
        }
        if let Some(C(l)) = sc.last() {
            if (*l >> 32) != 0 {
                if let (Ok(C(p)), Ok(C(n)), Ok(C(line))) =
                    (self.load_at(st, *l, 64), self.load_at(st, *l + 8, 64), self.load_at(st, *l + 16, 32))
                {
                    if n > 0 && n < 300 && (p >> 32) != 0 {
                        if let Ok(Some(b)) = self.bytes_at(st, p, n as usize) {
                            let t = String::from_utf8_lossy(&b);
                            let t = t.trim_end_matches('\0');
                            if t.ends_with(".rs") {
                                s = format!("{} at {}:{}", s, t, line);
                            }
                        }
                    }
                }
            }
        }
        s
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, args: &[Val], c: &CallI) -> Rz<Option<Val>> {
        let n = &name[5..];
        let base = |p: &str| n == p || (n.starts_with(p) && n.as_bytes()[p.len()] == b'.');
        if base("lifetime.start") || base("lifetime.end") || base("dbg") || base("experimental.noalias.scope.decl")
            || base("prefetch") || base("var.annotation") || base("assume")
        {
            return Ok(None);
        }
        if base("expect") || base("expect.with.probability") || base("threadlocal.address")
            || base("launder.invariant.group") || base("strip.invariant.group") || base("ptr.annotation")
        {
            return Ok(Some(args[0].clone()));
        }
        if base("trap") || base("ubsantrap") || base("debugtrap") {
            return Err(End::Bad("panic".into(), "trap".into()));
        }
        if base("is.constant") {
            return Ok(Some(S(C(0))));
        }
        if base("stacksave") {
            return Ok(Some(S(C(0))));
        }
        if base("stackrestore") {
            return Ok(None);
        }
        if base("objectsize") {
            return Ok(Some(S(C(mask(64)))));
        }
        // elementwise over vectors
        if let Some(A(_)) = args.get(0) {
            if let Some(op) = n.strip_prefix("vector.reduce.") {
                let A(v) = &args[0] else { unreachable!() };
                let w = c.atys[0].elem(0).bits();
                let o = match op.split('.').next().unwrap() {
                    "add" => Op::Add,
                    "or" => Op::Or,
                    "and" => Op::And,
                    "xor" => Op::Xor,
                    "mul" => Op::Mul,
                    _ => return Err(End::Engine(format!("intrinsic {}", name))),
                };
                let mut acc = v[0].sc();
                for e in &v[1..] {
                    acc = self.x.bin(o, acc, e.sc(), w);
                }
                return Ok(Some(S(acc)));
            }
            if matches!(c.ret, Ty::Vect(..)) {
                let A(v) = &args[0] else { unreachable!() };
                let mut outv = Vec::new();
                let mut c2 = c.clone();
                c2.ret = c.ret.elem(0).clone();
                c2.atys = c.atys.iter().map(|t| if t.is_agg() { t.elem(0).clone() } else { t.clone() }).collect();
                for i in 0..v.len() {
                    let a: Vec<Val> = args
                        .iter()
                        .map(|a| match a {
                            A(v) => v[i].clone(),
                            s => s.clone(),
                        })
                        .collect();
                    outv.push(self.intrinsic(st, name, &a, &c2)?.unwrap());
                }
                return Ok(Some(A(Rc::new(outv))));
            }
            return Err(End::Engine(format!("vector intrinsic {}", name)));
        }
        let a = args[0].sc();
        let b = args.get(1).map(|v| if let S(s) = v { *s } else { C(0) }).unwrap_or(C(0));
        let w = if c.atys[0].is_agg() { 0 } else { c.atys[0].bits() };
        let x = &mut self.x;
        let r: Sc = if base("umax") || base("umin") {
            let l = x.bin(Op::Ult, a, b, w);
            if base("umax") { x.ite(l, b, a, w) } else { x.ite(l, a, b, w) }
        } else if base("smax") || base("smin") {
            let l = x.bin(Op::Slt, a, b, w);
            if base("smax") { x.ite(l, b, a, w) } else { x.ite(l, a, b, w) }
        } else if base("abs") {
            let neg = x.bin(Op::Slt, a, C(0), w);
            let m = x.bin(Op::Sub, C(0), a, w);
            x.ite(neg, m, a, w)
        } else if base("uadd.sat") {
            let s = x.bin(Op::Add, a, b, w);
            let o = Self::uadd_ov(x, a, b, s, w);
            x.ite(o, C(mask(w)), s, w)
        } else if base("usub.sat") {
            let o = x.bin(Op::Ult, a, b, w);
            let s = x.bin(Op::Sub, a, b, w);
            x.ite(o, C(0), s, w)
        } else if base("sadd.sat") || base("ssub.sat") {
            let op = if base("sadd.sat") { Op::Add } else { Op::Sub };
            let (p, q) = (x.sext(a, w, w + 1), x.sext(b, w, w + 1));
            let s = x.bin(op, p, q, w + 1);
            let hi = mask(w) >> 1;
            let lo = sext((hi + 1) & mask(w), w) as u128 & mask(w + 1);
            let big = x.bin(Op::Slt, C(hi), s, w + 1);
            let small = x.bin(Op::Slt, s, C(lo), w + 1);
            let t = x.extract(s, w + 1, 0, w);
            let t = x.ite(big, C(hi), t, w);
            x.ite(small, C(hi + 1), t, w)
        } else if base("uadd.with.overflow") {
            let s = x.bin(Op::Add, a, b, w);
            let o = Self::uadd_ov(x, a, b, s, w);
            return Ok(Some(A(Rc::new(vec![S(s), S(o)]))));
        } else if base("usub.with.overflow") {
            let s = x.bin(Op::Sub, a, b, w);
            let o = x.bin(Op::Ult, a, b, w);
            return Ok(Some(A(Rc::new(vec![S(s), S(o)]))));
        } else if base("umul.with.overflow") {
            let s = x.bin(Op::Mul, a, b, w);
            let (ra, rb) = (x.rng(a), x.rng(b));
            let o = match ra.1.checked_mul(rb.1) {
                Some(h) if h <= mask(w) => C(0),
                _ => match (a, b) {
                    (e, C(k)) | (C(k), e) if k != 0 => x.bin(Op::Ult, C(mask(w) / k), e, w),
                    _ => {
                        if w > 64 {
                            return Err(End::Engine("128-bit multiplication overflow".into()));
                        }
                        let (p, q) = (x.zext(a, w, 2 * w), x.zext(b, w, 2 * w));
                        let m = x.bin(Op::Mul, p, q, 2 * w);
                        x.bin(Op::Ult, C(mask(w)), m, 2 * w)
                    }
                },
            };
            return Ok(Some(A(Rc::new(vec![S(s), S(o)]))));
        } else if base("sadd.with.overflow") || base("ssub.with.overflow") || base("smul.with.overflow") {
            let op = if base("sadd.with.overflow") {
                Op::Add
            } else if base("ssub.with.overflow") {
                Op::Sub
            } else {
                Op::Mul
            };
            let w2 = if op == Op::Mul { 2 * w } else { w + 1 };
            if w2 > 128 {
                match (a, b) {
                    (C(p), C(q)) => {
                        let (p, q) = (p as i128, q as i128);
                        let (r, o) = match op {
                            Op::Add => p.overflowing_add(q),
                            Op::Sub => p.overflowing_sub(q),
                            _ => p.overflowing_mul(q),
                        };
                        return Ok(Some(A(Rc::new(vec![S(C(r as u128)), S(C(o as u128))]))));
                    }
                    _ => return Err(End::Engine("wide signed overflow".into())),
                }
            }
            let (p, q) = (x.sext(a, w, w2), x.sext(b, w, w2));
            let full = x.bin(op, p, q, w2);
            let s = x.bin(op, a, b, w);
            let back = x.sext(s, w, w2);
            let e = x.bin(Op::Eq, back, full, w2);
            let o = x.not(e);
            return Ok(Some(A(Rc::new(vec![S(s), S(o)]))));
        } else if base("bswap") {
            self.bswap(a, w)
        } else if base("bitreverse") {
            let mut acc = x.extract(a, w, 0, 1);
            for i in 1..w {
                let t = x.extract(a, w, i, 1);
                acc = x.concat(acc, i, t, 1);
            }
            acc
        } else if base("ctpop") {
            match a {
                C(k) => C(k.count_ones() as u128),
                _ => {
                    let mut s = C(0);
                    for i in 0..w {
                        let t = x.extract(a, w, i, 1);
                        let t = x.zext(t, 1, w);
                        s = x.bin(Op::Add, s, t, w);
                    }
                    s
                }
            }
        } else if base("ctlz") {
            match a {
                C(k) => C(w as u128 - (128 - (k & mask(w)).leading_zeros()) as u128),
                _ => {
                    let mut r = C(w as u128);
                    for i in 0..w {
                        let t = x.extract(a, w, i, 1);
                        r = x.ite(t, C((w - 1 - i) as u128), r, w);
                    }
                    r
                }
            }
        } else if base("cttz") {
            match a {
                C(0) => C(w as u128),
                C(k) => C(k.trailing_zeros() as u128),
                _ => {
                    let mut r = C(w as u128);
                    for i in (0..w).rev() {
                        let t = x.extract(a, w, i, 1);
                        r = x.ite(t, C(i as u128), r, w);
                    }
                    r
                }
            }
        } else if base("fshl") || base("fshr") {
            let C(s) = args[2].sc() else { return Err(End::Engine("symbolic funnel shift".into())) };
            let s = (s % w as u128) as u32;
            let s = if base("fshl") { s } else { (w - s) % w };
            if s == 0 {
                if base("fshl") { a } else { b }
            } else {
                let h = x.bin(Op::Shl, a, C(s as u128), w);
                let l = x.bin(Op::LShr, b, C((w - s) as u128), w);
                x.bin(Op::Or, h, l, w)
            }
        } else if base("ucmp") || base("scmp") {
            let op = if base("ucmp") { Op::Ult } else { Op::Slt };
            let rw = c.ret.bits();
            let l = x.bin(op, a, b, w);
            let g = x.bin(op, b, a, w);
            let t = x.ite(g, C(1), C(0), rw);
            x.ite(l, C(mask(rw)), t, rw)
        } else if base("fptoui.sat") {
            x.un(Op::FToU, a, w, c.ret.bits(), 0)
        } else if base("fptosi.sat") {
            x.un(Op::FToS, a, w, c.ret.bits(), 0)
        } else if base("sqrt") {
            x.un(Op::FSqrt, a, w, w, 0)
        } else if base("ceil") || base("floor") || base("trunc") || base("rint") || base("nearbyint")
            || base("roundeven") || base("round")
        {
            let k = if base("ceil") { 0 } else if base("floor") { 1 } else if base("trunc") { 2 } else if base("round") { 4 } else { 3 };
            x.un(Op::FRound, a, w, w, k)
        } else if base("fabs") {
            x.bin(Op::And, a, C(mask(w) >> 1), w)
        } else if base("maxnum") || base("minnum") || base("maximumnum") || base("minimumnum") {
            let mx = base("maxnum") || base("maximumnum");
            let l = x.bin(Op::FOlt, a, b, w);
            let r = if mx { x.ite(l, b, a, w) } else { x.ite(l, a, b, w) };
            // the other operand when one is NaN
            let na = x.bin(Op::FUno, a, a, w);
            let nb = x.bin(Op::FUno, b, b, w);
            let r = x.ite(nb, a, r, w);
            x.ite(na, b, r, w)
        } else if base("copysign") {
            let p = x.bin(Op::And, a, C(mask(w) >> 1), w);
            let q = x.bin(Op::And, b, C(1 << (w - 1)), w);
            x.bin(Op::Or, p, q, w)
        } else if base("fmuladd") || base("fma") {
            if let (C(p), C(q), C(r)) = (a, b, args[2].sc()) {
                if w != 64 {
                    return Err(End::Engine("fma32".into()));
                }
                let f = |k: u128| f64::from_bits(k as u64);
                C(f(p).mul_add(f(q), f(r)).to_bits() as u128)
            } else {
                return Err(End::Engine("symbolic fma".into()));
            }
        } else if base("pow") || base("powi") || base("exp") || base("exp2") || base("log") || base("log2")
            || base("log10") || base("sin") || base("cos")
        {
            let f1 = |k: u128| f64::from_bits(k as u64);
            let av = self.pin(st, a, w);
            let bv = if args.len() > 1 { self.pin(st, b, c.atys[1].bits()) } else { 0 };
            let r = match n.split('.').next().unwrap() {
                "pow" => f1(av).powf(f1(bv)),
                "powi" => f1(av).powi(bv as u32 as i32),
                "exp" => f1(av).exp(),
                "exp2" => f1(av).exp2(),
                "log" => f1(av).ln(),
                "log2" => f1(av).log2(),
                "log10" => f1(av).log10(),
                "sin" => f1(av).sin(),
                _ => f1(av).cos(),
            };
            C(r.to_bits() as u128)
        } else {
            return Err(End::Engine(format!("intrinsic {}", name)));
        };
        Ok(Some(S(r)))
    }

    fn uadd_ov(x: &mut Ctx, a: Sc, b: Sc, s: Sc, w: u32) -> Sc {
        let (ra, rb) = (x.rng(a), x.rng(b));
        match ra.1.checked_add(rb.1) {
            Some(h) if h <= mask(w) => C(0),
            _ => match (a, b) {
                (e, C(k)) | (C(k), e) => {
                    if k == 0 {
                        C(0)
                    } else {
                        x.bin(Op::Ult, C(mask(w) - k), e, w)
                    }
                }
                _ => x.bin(Op::Ult, s, a, w),
            },
        }
    }
}

pub fn field<'a>(l: &'a str, k: &str) -> Option<&'a str> {
    let i = l.find(k)? + k.len();
    let r = &l[i..];
    let e = r.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).unwrap_or(r.len());
    Some(&r[..e])
}

/// A readable form of a mangled Rust name (v0 or legacy): its path components.
pub fn short(n: &str) -> String {
    let b = n.as_bytes();
    let mut out: Vec<String> = Vec::new();
    if n.starts_with("_ZN") || n.starts_with("_R") {
        let mut i = 2;
        while i < b.len() {
            if b[i].is_ascii_digit() && b[i] != b'0' {
                let mut j = i;
                let mut k = 0usize;
                while j < b.len() && b[j].is_ascii_digit() {
                    k = k * 10 + (b[j] - b'0') as usize;
                    j += 1;
                }
                if j < b.len() && b[j] == b'_' {
                    j += 1;
                }
                if k > 0 && j + k <= b.len() && k < 200 {
                    let id = &n[j..j + k];
                    if !(id.len() == 17 && id.starts_with('h')) {
                        out.push(id.to_string());
                    }
                    i = j + k;
                    continue;
                }
                i = j;
            } else {
                i += 1;
            }
        }
        if !out.is_empty() {
            return out.join("::");
        }
    }
    n.to_string()
}

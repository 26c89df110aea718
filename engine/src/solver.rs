//! Satisfiability of path conditions: independence slicing, caches, and Z3 behind its C API.
use crate::expr::{Ctx, Id, Op, Sc};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, sort: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, sort: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_error_msg(c: P, e: c_uint) -> *const c_char;
}

extern "C" fn on_error(c: P, e: c_uint) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error: {:?}", m);
    std::process::exit(70);
}

/// A satisfying assignment together with a memo of expression values under it.
pub struct Model {
    pub vals: Vec<u128>,
    pub memo: std::cell::RefCell<HashMap<Id, u128>>,
}
impl Model {
    pub fn new(vals: Vec<u128>) -> Rc<Model> {
        Rc::new(Model { vals, memo: Default::default() })
    }
}

pub enum Ans {
    Sat(Rc<Model>),
    Unsat,
    Unknown,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub struct Solver {
    /// log queries slower than this (for tuning)
    slow: f64,
    c: P,
    simple: P,
    bv: HashMap<Id, P>,
    bo: HashMap<Id, P>,
    cache: HashMap<Vec<Id>, Option<Rc<Vec<(usize, u128)>>>>,
    has_fp: HashMap<Id, bool>,
    pub queries: u64,
    pub cache_hits: u64,
    pub time: f64,
    pub max_time: f64,
    pub unknowns: u64,
    pub fp_queries: u64,
    pub hard_rlimit: u32,
    pub dump: Vec<(String, bool)>,
    pub dump_max: usize,
    since_reset: u32,
    /// what the incremental solver holds, one conjunct a level
    stack: Vec<Id>,
    last: Vec<(usize, u128)>,
}

impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let (k, v) = (CString::new("model").unwrap(), CString::new("true").unwrap());
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let mut s = Solver {
                slow: std::env::var("SYMX_SLOW").ok().and_then(|v| v.parse().ok()).unwrap_or(f64::MAX),
                c,
                simple: std::ptr::null_mut(),
                bv: HashMap::new(),
                bo: HashMap::new(),
                cache: HashMap::new(),
                has_fp: HashMap::new(),
                queries: 0,
                cache_hits: 0,
                time: 0.,
                max_time: 0.,
                unknowns: 0,
                fp_queries: 0,
                hard_rlimit: 400_000_000,
                dump: Vec::new(),
                dump_max: 0,
                since_reset: 0,
                stack: Vec::new(),
                last: Vec::new(),
            };
            s.reset_simple();
            s
        }
    }
    fn sym(&self, s: &str) -> P {
        let n = CString::new(s).unwrap();
        unsafe { Z3_mk_string_symbol(self.c, n.as_ptr()) }
    }
    fn limit(&self, s: P, r: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            Z3_params_set_uint(self.c, p, self.sym("rlimit"), r);
            Z3_solver_set_params(self.c, s, p);
        }
    }
    fn reset_simple(&mut self) {
        unsafe {
            if !self.simple.is_null() {
                Z3_solver_dec_ref(self.c, self.simple);
            }
            self.simple = Z3_mk_simple_solver(self.c);
            Z3_solver_inc_ref(self.c, self.simple);
            self.limit(self.simple, std::env::var("SYMX_RL").ok().and_then(|v| v.parse().ok()).unwrap_or(1_000_000));
        }
        self.since_reset = 0;
        self.stack.clear();
    }

    fn num(&self, k: u128, w: u32) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w);
            if k <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, k as u64, s)
            } else {
                let t = CString::new(k.to_string()).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }
    fn fp_sort(&self, w: u32) -> P {
        unsafe {
            if w == 64 {
                Z3_mk_fpa_sort_64(self.c)
            } else {
                Z3_mk_fpa_sort_32(self.c)
            }
        }
    }
    fn fp(&mut self, x: &Ctx, i: Id) -> P {
        let w = x.w(i);
        let b = self.as_bv(x, i);
        unsafe { Z3_mk_fpa_to_fp_bv(self.c, b, self.fp_sort(w)) }
    }

    pub fn as_bool(&mut self, x: &Ctx, i: Id) -> P {
        if let Some(&p) = self.bo.get(&i) {
            return p;
        }
        let n = x.nodes[i as usize];
        assert!(n.w == 1);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::And | Op::Or | Op::Xor => {
                    let (a, b) = (self.as_bool(x, n.a), self.as_bool(x, n.b));
                    match n.op {
                        Op::And => Z3_mk_and(c, 2, [a, b].as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, [a, b].as_ptr()),
                        _ => {
                            let bn = &x.nodes[n.b as usize];
                            if bn.op == Op::Const && bn.k == 1 {
                                Z3_mk_not(c, a)
                            } else {
                                Z3_mk_xor(c, a, b)
                            }
                        }
                    }
                }
                Op::Ite => {
                    let (a, b, d) = (self.as_bool(x, n.a), self.as_bool(x, n.b), self.as_bool(x, n.c));
                    Z3_mk_ite(c, a, b, d)
                }
                Op::Eq => {
                    if x.w(n.a) == 1 {
                        let (a, b) = (self.as_bool(x, n.a), self.as_bool(x, n.b));
                        Z3_mk_eq(c, a, b)
                    } else {
                        let (a, b) = (self.as_bv(x, n.a), self.as_bv(x, n.b));
                        Z3_mk_eq(c, a, b)
                    }
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (a, b) = (self.as_bv(x, n.a), self.as_bv(x, n.b));
                    match n.op {
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::FOlt | Op::FOle | Op::FOeq => {
                    let (a, b) = (self.fp(x, n.a), self.fp(x, n.b));
                    match n.op {
                        Op::FOlt => Z3_mk_fpa_lt(c, a, b),
                        Op::FOle => Z3_mk_fpa_leq(c, a, b),
                        _ => Z3_mk_fpa_eq(c, a, b),
                    }
                }
                Op::FUno => {
                    let (a, b) = (self.fp(x, n.a), self.fp(x, n.b));
                    let (a, b) = (Z3_mk_fpa_is_nan(c, a), Z3_mk_fpa_is_nan(c, b));
                    Z3_mk_or(c, 2, [a, b].as_ptr())
                }
                _ => {
                    let v = self.as_bv(x, i);
                    Z3_mk_eq(c, v, self.num(1, 1))
                }
            }
        };
        self.bo.insert(i, r);
        r
    }

    pub fn as_bv(&mut self, x: &Ctx, i: Id) -> P {
        if let Some(&p) = self.bv.get(&i) {
            return p;
        }
        let n = x.nodes[i as usize];
        let w = n.w as u32;
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(n.k, w),
                Op::Var => {
                    Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), Z3_mk_bv_sort(c, w))
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FOlt | Op::FOle | Op::FOeq
                | Op::FUno => {
                    let b = self.as_bool(x, i);
                    Z3_mk_ite(c, b, self.num(1, 1), self.num(0, 1))
                }
                Op::Ite => {
                    let a = self.as_bool(x, n.a);
                    let (b, d) = (self.as_bv(x, n.b), self.as_bv(x, n.c));
                    Z3_mk_ite(c, a, b, d)
                }
                Op::Extract => {
                    let a = self.as_bv(x, n.a);
                    Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, a)
                }
                Op::ZExt => {
                    let a = self.as_bv(x, n.a);
                    Z3_mk_zero_ext(c, w - x.w(n.a), a)
                }
                Op::SExt => {
                    let a = self.as_bv(x, n.a);
                    Z3_mk_sign_ext(c, w - x.w(n.a), a)
                }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let (a, b) = (self.fp(x, n.a), self.fp(x, n.b));
                    let rm = Z3_mk_fpa_rne(c);
                    let f = match n.op {
                        Op::FAdd => Z3_mk_fpa_add(c, rm, a, b),
                        Op::FSub => Z3_mk_fpa_sub(c, rm, a, b),
                        Op::FMul => Z3_mk_fpa_mul(c, rm, a, b),
                        _ => Z3_mk_fpa_div(c, rm, a, b),
                    };
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                Op::UToF | Op::SToF => {
                    let a = self.as_bv(x, n.a);
                    let (rm, s) = (Z3_mk_fpa_rne(c), self.fp_sort(w));
                    let f = if n.op == Op::UToF {
                        Z3_mk_fpa_to_fp_unsigned(c, rm, a, s)
                    } else {
                        Z3_mk_fpa_to_fp_signed(c, rm, a, s)
                    };
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                Op::FToU | Op::FToS => {
                    // saturating semantics spelled out with range tests
                    let a = self.fp(x, n.a);
                    let aw = x.w(n.a);
                    let lim = |v: f64| -> P {
                        let bits = if aw == 64 {
                            v.to_bits() as u128
                        } else {
                            (v as f32).to_bits() as u128
                        };
                        Z3_mk_fpa_to_fp_bv(c, self.num(bits, aw), self.fp_sort(aw))
                    };
                    let rm = Z3_mk_fpa_rtz(c);
                    let m = crate::expr::mask(w);
                    if n.op == Op::FToU {
                        let v = Z3_mk_fpa_to_ubv(c, rm, a, w);
                        let big = Z3_mk_fpa_leq(c, lim(2f64.powi(w as i32)), a);
                        let pos = Z3_mk_fpa_lt(c, lim(0.0), a);
                        let t = Z3_mk_ite(c, big, self.num(m, w), v);
                        Z3_mk_ite(c, pos, t, self.num(0, w))
                    } else {
                        let v = Z3_mk_fpa_to_sbv(c, rm, a, w);
                        let hi = 2f64.powi(w as i32 - 1);
                        let big = Z3_mk_fpa_leq(c, lim(hi), a);
                        let small = Z3_mk_fpa_lt(c, a, lim(-hi));
                        let nan = Z3_mk_fpa_is_nan(c, a);
                        let t = Z3_mk_ite(c, big, self.num(m >> 1, w), v);
                        let t = Z3_mk_ite(c, small, self.num((m >> 1) + 1, w), t);
                        Z3_mk_ite(c, nan, self.num(0, w), t)
                    }
                }
                Op::FSqrt => {
                    let a = self.fp(x, n.a);
                    Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), a))
                }
                Op::FRound => {
                    let a = self.fp(x, n.a);
                    let rm = match n.k {
                        0 => Z3_mk_fpa_rtp(c),
                        1 => Z3_mk_fpa_rtn(c),
                        2 => Z3_mk_fpa_rtz(c),
                        3 => Z3_mk_fpa_rne(c),
                        _ => Z3_mk_fpa_rna(c),
                    };
                    Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, rm, a))
                }
                Op::FExt | Op::FTrunc => {
                    let a = self.fp(x, n.a);
                    let f = Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), a, self.fp_sort(w));
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
                _ => {
                    let (a, b) = (self.as_bv(x, n.a), self.as_bv(x, n.b));
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.bv.insert(i, r);
        r
    }

    fn fp_in(&mut self, x: &Ctx, i: Id) -> bool {
        if let Some(&b) = self.has_fp.get(&i) {
            return b;
        }
        let n = x.nodes[i as usize];
        let r = matches!(
            n.op,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FOlt | Op::FOle | Op::FOeq | Op::FUno | Op::UToF
                | Op::SToF | Op::FToU | Op::FToS | Op::FSqrt | Op::FRound | Op::FExt | Op::FTrunc
        ) || (n.op != Op::Const
            && n.op != Op::Var
            && ((n.a != 0 && self.fp_in(x, n.a))
                || (n.b != 0 && self.fp_in(x, n.b))
                || (n.c != 0 && self.fp_in(x, n.c))));
        self.has_fp.insert(i, r);
        r
    }

    /// Can `cond` (one bit) hold together with the path condition? `base` satisfies the path
    /// condition; variables outside the slice keep their value from it.
    pub fn check(&mut self, x: &mut Ctx, pc: &[Id], cond: Id, base: &Model) -> Ans {
        // independence slice
        let mut sup = x.support[cond as usize];
        let mut pick = vec![false; pc.len()];
        loop {
            let mut grew = false;
            for (j, &p) in pc.iter().enumerate() {
                if !pick[j] && x.support[p as usize] & sup != 0 {
                    pick[j] = true;
                    let s = sup | x.support[p as usize];
                    if s != sup {
                        sup = s;
                        grew = true;
                    }
                }
            }
            if !grew {
                break;
            }
        }
        let slice: Vec<Id> = (0..pc.len()).filter(|&j| pick[j]).map(|j| pc[j]).collect();
        let mut key = slice.clone();
        key.sort();
        key.dedup();
        key.push(cond);
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return match r {
                None => Ans::Unsat,
                Some(m) => Ans::Sat(Self::merge(base, m)),
            };
        }
        let t0 = Instant::now();
        let fp = key.iter().any(|&i| self.fp_in(x, i));
        let vars: Vec<usize> = (0..128).filter(|v| (sup >> v) & 1 == 1).collect();
        self.queries += 1;
        if fp {
            self.fp_queries += 1;
        }
        let mut r = if fp { 0 } else { self.run_stacked(x, &slice, cond, &vars) };
        let mut vals = Vec::new();
        if r != 0 {
            vals = std::mem::take(&mut self.last);
        }
        let t1 = t0.elapsed().as_secs_f64();
        if r == 0 {
            unsafe {
                let l = self.sym(if fp { "QF_BVFP" } else { "QF_BV" });
                let s = Z3_mk_solver_for_logic(self.c, l);
                Z3_solver_inc_ref(self.c, s);
                self.limit(s, self.hard_rlimit);
                r = self.run(x, &key, &vars, s);
                vals = std::mem::take(&mut self.last);
                Z3_solver_dec_ref(self.c, s);
            }
            self.reset_simple();
        }
        self.since_reset += 1;
        if self.since_reset > 2000 {
            self.reset_simple();
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        if dt > self.slow {
            eprintln!("slow query: {:.2} s ({:.2} s incremental), answer {}, {} conjuncts", dt, t1, r, key.len());
            unsafe {
                let l = self.sym("QF_BV");
                let s = Z3_mk_solver_for_logic(self.c, l);
                Z3_solver_inc_ref(self.c, s);
                for &i in &key {
                    let b = self.as_bool(x, i);
                    Z3_solver_assert(self.c, s, b);
                }
                let t = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().into_owned();
                let _ = std::fs::write(format!("/tmp/slow-{}.smt2", self.queries), t + "(check-sat)\n");
                Z3_solver_dec_ref(self.c, s);
            }
        }
        match r {
            -1 => {
                self.cache.insert(key, None);
                Ans::Unsat
            }
            1 => {
                let m = Rc::new(vals);
                self.cache.insert(key, Some(m.clone()));
                Ans::Sat(Self::merge(base, &m))
            }
            _ => {
                self.unknowns += 1;
                Ans::Unknown
            }
        }
    }

    fn merge(base: &Model, m: &[(usize, u128)]) -> Rc<Model> {
        let mut v = base.vals.clone();
        for &(i, k) in m {
            if v.len() <= i {
                v.resize(i + 1, 0);
            }
            v[i] = k;
        }
        Model::new(v)
    }

    /// Ask the incremental solver, keeping the conjuncts it shares with the previous query.
    fn run_stacked(&mut self, x: &Ctx, slice: &[Id], cond: Id, vars: &[usize]) -> c_int {
        let keep = self.stack.iter().zip(slice).take_while(|(a, b)| a == b).count();
        let s = self.simple;
        unsafe {
            if self.stack.len() > keep {
                Z3_solver_pop(self.c, s, (self.stack.len() - keep) as c_uint);
                self.stack.truncate(keep);
            }
            for &i in &slice[keep..] {
                Z3_solver_push(self.c, s);
                let b = self.as_bool(x, i);
                Z3_solver_assert(self.c, s, b);
                self.stack.push(i);
            }
            Z3_solver_push(self.c, s);
            let r = self.run(x, &[cond], vars, s);
            Z3_solver_pop(self.c, s, 1);
            r
        }
    }

    fn run(&mut self, x: &Ctx, key: &[Id], vars: &[usize], s: P) -> c_int {
        unsafe {
            for &i in key {
                let b = self.as_bool(x, i);
                Z3_solver_assert(self.c, s, b);
            }
            let r = Z3_solver_check(self.c, s);
            if r != 0 && self.dump.len() < self.dump_max {
                let t = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().into_owned();
                self.dump.push((t, r == 1));
            }
            self.last.clear();
            if r == 1 {
                let m = Z3_solver_get_model(self.c, s);
                Z3_model_inc_ref(self.c, m);
                for &v in vars {
                    let w = x.vars[v];
                    let a =
                        Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, v as c_int), Z3_mk_bv_sort(self.c, w));
                    let mut out: P = std::ptr::null_mut();
                    Z3_model_eval(self.c, m, a, true, &mut out);
                    let t = CStr::from_ptr(Z3_get_numeral_string(self.c, out)).to_str().unwrap();
                    self.last.push((v, t.parse::<u128>().unwrap()));
                }
                Z3_model_dec_ref(self.c, m);
            }
            r
        }
    }
}

impl Solver {
    pub fn truth(x: &Ctx, s: Sc, m: &Model) -> bool {
        x.eval(s, &m.vals, &mut m.memo.borrow_mut()) != 0
    }
    pub fn value(x: &Ctx, s: Sc, m: &Model) -> u128 {
        x.eval(s, &m.vals, &mut m.memo.borrow_mut())
    }
}

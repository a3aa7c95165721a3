//! z3 back end: independence slicing, model reuse, incremental assertion under assumption literals.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::rc::Rc;
use std::time::Instant;

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Sort = *mut c_void;
type Solver = *mut c_void;
type Model = *mut c_void;
type Params = *mut c_void;
type Sym = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> *mut c_void;
    fn Z3_mk_context(c: *mut c_void) -> Ctx;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
    fn Z3_inc_ref(c: Ctx, a: Ast);
    fn Z3_mk_bv_sort(c: Ctx, w: c_uint) -> Sort;
    fn Z3_mk_bool_sort(c: Ctx) -> Sort;
    fn Z3_mk_array_sort(c: Ctx, d: Sort, r: Sort) -> Sort;
    fn Z3_mk_const_array(c: Ctx, d: Sort, v: Ast) -> Ast;
    fn Z3_mk_store(c: Ctx, a: Ast, i: Ast, v: Ast) -> Ast;
    fn Z3_mk_select(c: Ctx, a: Ast, i: Ast) -> Ast;
    fn Z3_mk_int_symbol(c: Ctx, i: c_int) -> Sym;
    fn Z3_mk_const(c: Ctx, s: Sym, t: Sort) -> Ast;
    fn Z3_mk_fresh_const(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Sort) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Sort) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_implies(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, h: c_uint, l: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_solver_for_logic(c: Ctx, l: Sym) -> Solver;
    fn Z3_mk_solver(c: Ctx) -> Solver;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Sym;
    fn Z3_solver_inc_ref(c: Ctx, s: Solver);
    fn Z3_solver_dec_ref(c: Ctx, s: Solver);
    fn Z3_solver_assert(c: Ctx, s: Solver, a: Ast);
    fn Z3_solver_check_assumptions(c: Ctx, s: Solver, n: c_uint, a: *const Ast) -> c_int;
    fn Z3_solver_check(c: Ctx, s: Solver) -> c_int;
    fn Z3_solver_reset(c: Ctx, s: Solver);
    fn Z3_solver_get_model(c: Ctx, s: Solver) -> Model;
    fn Z3_solver_set_params(c: Ctx, s: Solver, p: Params);
    fn Z3_mk_params(c: Ctx) -> Params;
    fn Z3_params_inc_ref(c: Ctx, p: Params);
    fn Z3_params_set_uint(c: Ctx, p: Params, k: Sym, v: c_uint);
    fn Z3_model_inc_ref(c: Ctx, m: Model);
    fn Z3_model_dec_ref(c: Ctx, m: Model);
    fn Z3_model_eval(c: Ctx, m: Model, t: Ast, mc: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_string(c: Ctx, a: Ast) -> *const c_char;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, v: *mut u64) -> bool;
    fn Z3_mk_fpa_sort_64(c: Ctx) -> Sort;
    fn Z3_mk_fpa_sort_32(c: Ctx) -> Sort;
    fn Z3_mk_fpa_to_fp_bv(c: Ctx, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_ieee_bv(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_rne(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rna(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtp(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtn(c: Ctx) -> Ast;
    fn Z3_mk_fpa_rtz(c: Ctx) -> Ast;
    fn Z3_mk_fpa_add(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sub(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_mul(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_div(c: Ctx, r: Ast, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_sqrt(c: Ctx, r: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_lt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_leq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_fpa_is_nan(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_fpa_round_to_integral(c: Ctx, r: Ast, a: Ast) -> Ast;
    fn Z3_mk_fpa_to_fp_float(c: Ctx, r: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_signed(c: Ctx, r: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_fp_unsigned(c: Ctx, r: Ast, a: Ast, s: Sort) -> Ast;
    fn Z3_mk_fpa_to_sbv(c: Ctx, r: Ast, a: Ast, w: c_uint) -> Ast;
    fn Z3_mk_fpa_to_ubv(c: Ctx, r: Ast, a: Ast, w: c_uint) -> Ast;
    fn Z3_mk_fpa_numeral_double(c: Ctx, v: f64, s: Sort) -> Ast;
    fn Z3_get_error_msg(c: Ctx, e: c_int) -> *const c_char;
}

extern "C" fn on_err(c: Ctx, e: c_int) {
    unsafe {
        let m = std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error {}: {:?}", e, m);
    }
    std::process::exit(3);
}

pub type Assign = Rc<Vec<u128>>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct SStats {
    pub queries: u64,   // reached z3
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,    // answered from the query cache
    pub model_hits: u64, // answered by evaluating a known model
    pub time: f64,
    pub max_time: f64,
}

pub struct Smt {
    ctx: Ctx,
    bv: Solver,
    fp: Solver,
    asts: FxMap<E, Ast>,     // bit-vector valued (w=1 as Bool in `bools`)
    bools: FxMap<E, Ast>,
    lits: FxMap<E, Ast>,
    nlits: usize,
    tables: FxMap<(u32, u16), Ast>,
    cache: FxMap<Vec<E>, Option<Assign>>, // key sorted
    recent: Vec<Assign>,
    pub st: SStats,
    pub timeout_ms: u32,
}

impl Smt {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let mut s = Smt {
                ctx,
                bv: std::ptr::null_mut(),
                fp: std::ptr::null_mut(),
                asts: Default::default(),
                bools: Default::default(),
                lits: Default::default(),
                nlits: 0,
                tables: Default::default(),
                cache: Default::default(),
                recent: vec![],
                st: Default::default(),
                timeout_ms,
            };
            s.new_bv();
            s.fp = Z3_mk_solver(ctx);
            Z3_solver_inc_ref(ctx, s.fp);
            s.set_timeout(s.fp, timeout_ms);
            s
        }
    }
    unsafe fn new_bv(&mut self) {
        let l = CString::new("QF_BV").unwrap();
        if !self.bv.is_null() {
            Z3_solver_dec_ref(self.ctx, self.bv);
        }
        self.bv = Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, l.as_ptr()));
        Z3_solver_inc_ref(self.ctx, self.bv);
        self.set_timeout(self.bv, self.timeout_ms);
        self.lits.clear();
        self.nlits = 0;
    }
    unsafe fn set_timeout(&self, s: Solver, ms: u32) {
        let p = Z3_mk_params(self.ctx);
        Z3_params_inc_ref(self.ctx, p);
        let k = CString::new("timeout").unwrap();
        Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, k.as_ptr()), ms);
        Z3_solver_set_params(self.ctx, s, p);
    }
    unsafe fn num(&self, v: u128, w: u16) -> Ast {
        let s = Z3_mk_bv_sort(self.ctx, w as c_uint);
        if w <= 64 {
            Z3_mk_unsigned_int64(self.ctx, v as u64, s)
        } else {
            let t = CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(self.ctx, t.as_ptr(), s)
        }
    }
    unsafe fn to_bool(&mut self, ar: &Arena, e: E) -> Ast {
        if let Some(a) = self.bools.get(&e) {
            return *a;
        }
        self.trans(ar, e);
        self.get_bool(ar, e)
    }
    /// both translated already
    unsafe fn get_bool(&mut self, _ar: &Arena, e: E) -> Ast {
        if let Some(a) = self.bools.get(&e) {
            return *a;
        }
        let a = self.asts[&e];
        let one = self.num(1, 1);
        let b = Z3_mk_eq(self.ctx, a, one);
        Z3_inc_ref(self.ctx, b);
        self.bools.insert(e, b);
        b
    }
    unsafe fn get_bv(&mut self, e: E) -> Ast {
        if let Some(a) = self.asts.get(&e) {
            return *a;
        }
        let a = self.bools[&e];
        let one = self.num(1, 1);
        let zero = self.num(0, 1);
        let b = Z3_mk_ite(self.ctx, a, one, zero);
        Z3_inc_ref(self.ctx, b);
        self.asts.insert(e, b);
        b
    }
    unsafe fn fps(&self, w: u16) -> Sort {
        if w == 64 {
            Z3_mk_fpa_sort_64(self.ctx)
        } else {
            Z3_mk_fpa_sort_32(self.ctx)
        }
    }
    unsafe fn trans(&mut self, ar: &Arena, e: E) {
        let c = self.ctx;
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if self.asts.contains_key(&x) || self.bools.contains_key(&x) {
                continue;
            }
            let n = ar.n(x);
            let (ch, k) = ar.children(x);
            if !done {
                stack.push((x, true));
                for y in &ch[..k] {
                    stack.push((*y, false));
                }
                continue;
            }
            let mut isbool = false;
            let r: Ast = match n.op {
                Op::Const => self.num(ar.is_c(x).unwrap(), n.w),
                Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.a as c_int), Z3_mk_bv_sort(c, n.w as c_uint)),
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    isbool = true;
                    let a = self.get_bv(n.a);
                    let b = self.get_bv(n.b);
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::Xor if n.w == 1 && ar.is_c(n.b) == Some(1) => {
                    isbool = true;
                    let a = self.get_bool(ar, n.a);
                    Z3_mk_not(c, a)
                }
                Op::Ite => {
                    let a = self.get_bool(ar, n.a);
                    let b = self.get_bv(n.b);
                    let d = self.get_bv(n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                Op::Concat => Z3_mk_concat(c, self.get_bv(n.a), self.get_bv(n.b)),
                Op::Extract => Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, self.get_bv(n.a)),
                Op::ZExt => Z3_mk_zero_ext(c, (n.w - ar.w(n.a)) as u32, self.get_bv(n.a)),
                Op::SExt => Z3_mk_sign_ext(c, (n.w - ar.w(n.a)) as u32, self.get_bv(n.a)),
                Op::Table => {
                    let iw = ar.w(n.b);
                    let idx = self.get_bv(n.b);
                    let t = ar.tables[n.a as usize].clone();
                    // balanced ite tree over the index bits actually needed
                    self.ite_tree(&t, 0, t.len(), idx, iw, n.w)
                }
                o if o as u8 >= Op::FAdd as u8 => {
                    let ow = ar.w(n.a);
                    let av = self.get_bv(n.a);
                    let rne = Z3_mk_fpa_rne(c);
                    let fa = |s: &Self, v: Ast| Z3_mk_fpa_to_fp_bv(c, v, s.fps(ow));
                    match o {
                        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                            let bv = self.get_bv(n.b);
                            let (a, b) = (fa(self, av), fa(self, bv));
                            let r = match o {
                                Op::FAdd => Z3_mk_fpa_add(c, rne, a, b),
                                Op::FSub => Z3_mk_fpa_sub(c, rne, a, b),
                                Op::FMul => Z3_mk_fpa_mul(c, rne, a, b),
                                _ => Z3_mk_fpa_div(c, rne, a, b),
                            };
                            self.canon_nan(r, n.w)
                        }
                        Op::FSqrt => {
                            let a = fa(self, av);
                            let r = Z3_mk_fpa_sqrt(c, rne, a);
                            self.canon_nan(r, n.w)
                        }
                        Op::FLt | Op::FLe | Op::FEq => {
                            isbool = true;
                            let bv = self.get_bv(n.b);
                            let (a, b) = (fa(self, av), fa(self, bv));
                            match o {
                                Op::FLt => Z3_mk_fpa_lt(c, a, b),
                                Op::FLe => Z3_mk_fpa_leq(c, a, b),
                                _ => Z3_mk_fpa_eq(c, a, b),
                            }
                        }
                        Op::FIsNan => {
                            isbool = true;
                            Z3_mk_fpa_is_nan(c, fa(self, av))
                        }
                        Op::FRound => {
                            let rm = match n.b {
                                0 => Z3_mk_fpa_rtn(c),
                                1 => Z3_mk_fpa_rtp(c),
                                2 => Z3_mk_fpa_rtz(c),
                                3 => Z3_mk_fpa_rna(c),
                                _ => rne,
                            };
                            let r = Z3_mk_fpa_round_to_integral(c, rm, fa(self, av));
                            self.canon_nan(r, n.w)
                        }
                        Op::FCvt => {
                            let r = Z3_mk_fpa_to_fp_float(c, rne, fa(self, av), self.fps(n.w));
                            self.canon_nan(r, n.w)
                        }
                        Op::SIToF => {
                            let r = Z3_mk_fpa_to_fp_signed(c, rne, av, self.fps(n.w));
                            self.canon_nan(r, n.w)
                        }
                        Op::UIToF => {
                            let r = Z3_mk_fpa_to_fp_unsigned(c, rne, av, self.fps(n.w));
                            self.canon_nan(r, n.w)
                        }
                        Op::FToSI | Op::FToUI => {
                            // saturating
                            let a = fa(self, av);
                            let srt = self.fps(ow);
                            let signed = o == Op::FToSI;
                            let w = n.w;
                            let (lo, hi, lov, hiv) = if signed {
                                (
                                    -(2f64.powi(w as i32 - 1)),
                                    2f64.powi(w as i32 - 1),
                                    (1u128 << (w - 1)) & mask(w),
                                    mask(w - 1),
                                )
                            } else {
                                (-1.0, 2f64.powi(w as i32), 0, mask(w))
                            };
                            let rtz = Z3_mk_fpa_rtz(c);
                            let core = if signed {
                                Z3_mk_fpa_to_sbv(c, rtz, a, w as c_uint)
                            } else {
                                Z3_mk_fpa_to_ubv(c, rtz, a, w as c_uint)
                            };
                            let hif = Z3_mk_fpa_numeral_double(c, hi, srt);
                            let lof = Z3_mk_fpa_numeral_double(c, lo, srt);
                            let ge = Z3_mk_fpa_leq(c, hif, a);
                            let le = Z3_mk_fpa_leq(c, a, lof);
                            let r1 = Z3_mk_ite(c, ge, self.num(hiv, w), core);
                            let r2 = Z3_mk_ite(c, le, self.num(lov, w), r1);
                            Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, a), self.num(0, w), r2)
                        }
                        _ => {
                            eprintln!("fp op {:?} not supported symbolically", o);
                            std::process::exit(3)
                        }
                    }
                }
                _ => {
                    let a = self.get_bv(n.a);
                    let b = self.get_bv(n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        _ => unreachable!(),
                    }
                }
            };
            Z3_inc_ref(c, r);
            if isbool {
                self.bools.insert(x, r);
            } else {
                self.asts.insert(x, r);
            }
        }
    }
    unsafe fn canon_nan(&self, f: Ast, w: u16) -> Ast {
        let c = self.ctx;
        let nan = self.num(if w == 64 { 0x7ff8000000000000 } else { 0x7fc00000 }, w);
        Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), nan, Z3_mk_fpa_to_ieee_bv(c, f))
    }
    unsafe fn ite_tree(&mut self, t: &[u128], lo: usize, hi: usize, idx: Ast, iw: u16, w: u16) -> Ast {
        // all equal -> constant
        if t[lo..hi].iter().all(|x| *x == t[lo]) {
            return self.num(t[lo], w);
        }
        let mid = (lo + hi) / 2;
        let a = self.ite_tree(t, lo, mid, idx, iw, w);
        let b = self.ite_tree(t, mid, hi, idx, iw, w);
        let c = Z3_mk_bvult(self.ctx, idx, self.num(mid as u128, iw));
        Z3_mk_ite(self.ctx, c, a, b)
    }
    unsafe fn lit(&mut self, ar: &Arena, e: E) -> Ast {
        if let Some(l) = self.lits.get(&e) {
            return *l;
        }
        let b = self.to_bool(ar, e);
        let n = CString::new("l").unwrap();
        let l = Z3_mk_fresh_const(self.ctx, n.as_ptr(), Z3_mk_bool_sort(self.ctx));
        Z3_inc_ref(self.ctx, l);
        Z3_solver_assert(self.ctx, self.bv, Z3_mk_implies(self.ctx, l, b));
        self.lits.insert(e, l);
        self.nlits += 1;
        l
    }

    /// constraints of `pc` that (transitively) share variables with `c`
    pub fn slice(ar: &mut Arena, pc: &[E], c: E) -> Vec<E> {
        let mut vars: FxSet<u32> = ar.varset(c).iter().copied().collect();
        let vs: Vec<Rc<Vec<u32>>> = pc.iter().map(|e| ar.varset(*e)).collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for i in 0..pc.len() {
                if !used[i] && vs[i].iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    ch = true;
                    vars.extend(vs[i].iter().copied());
                }
            }
            if !ch {
                break;
            }
        }
        (0..pc.len()).filter(|i| used[*i]).map(|i| pc[i]).collect()
    }

    /// Is pc ∧ c satisfiable?  `base` satisfies pc.  On Sat returns a full assignment.
    pub fn check(&mut self, ar: &mut Arena, pc: &[E], c: E, base: &Assign) -> (Res, Option<Assign>) {
        if let Some(v) = ar.is_c(c) {
            return if v == 1 { (Res::Sat, Some(base.clone())) } else { (Res::Unsat, None) };
        }
        let mut memo = FxMap::default();
        if ar.eval(c, base, &mut memo) == 1 {
            self.st.model_hits += 1;
            return (Res::Sat, Some(base.clone()));
        }
        let sl = Self::slice(ar, pc, c);
        let mut key: Vec<E> = sl.clone();
        key.push(c);
        key.sort_unstable();
        key.dedup();
        let mut vars: FxSet<u32> = FxSet::default();
        for e in &key {
            vars.extend(ar.varset(*e).iter().copied());
        }
        let merge = |m: &Assign| -> Assign {
            let mut r: Vec<u128> = (**base).clone();
            let mx = vars.iter().max().map(|x| *x as usize + 1).unwrap_or(0);
            if r.len() < mx {
                r.resize(mx, 0);
            }
            for v in &vars {
                r[*v as usize] = m.get(*v as usize).copied().unwrap_or(0);
            }
            Rc::new(r)
        };
        if let Some(r) = self.cache.get(&key) {
            self.st.cached += 1;
            return match r {
                Some(m) => (Res::Sat, Some(merge(m))),
                None => (Res::Unsat, None),
            };
        }
        for m in self.recent.iter().rev().take(12) {
            let mut memo = FxMap::default();
            if ar.eval(c, m, &mut memo) == 1 && sl.iter().all(|e| ar.eval(*e, m, &mut memo) == 1) {
                self.st.model_hits += 1;
                return (Res::Sat, Some(merge(m)));
            }
        }
        let t = Instant::now();
        let fp = key.iter().any(|e| ar.is_fp(*e));
        let (r, m) = unsafe { self.z3(ar, &key, &vars, fp) };
        let dt = t.elapsed().as_secs_f64();
        self.st.queries += 1;
        self.st.time += dt;
        if dt > 1.0 && std::env::var("SYMEX_SLOW").is_ok() {
            eprintln!("SLOW {dt:.1} {}", ar.show(c, 14));
        }
        if dt > self.st.max_time {
            self.st.max_time = dt;
        }
        match r {
            Res::Sat => {
                self.st.sat += 1;
                let m = m.unwrap();
                self.cache.insert(key, Some(m.clone()));
                let full = merge(&m);
                self.recent.push(full.clone());
                if self.recent.len() > 40 {
                    self.recent.drain(..20);
                }
                (Res::Sat, Some(full))
            }
            Res::Unsat => {
                self.st.unsat += 1;
                self.cache.insert(key, None);
                (Res::Unsat, None)
            }
            Res::Unknown => {
                self.st.unknown += 1;
                (Res::Unknown, None)
            }
        }
    }

    unsafe fn z3(&mut self, ar: &Arena, key: &[E], vars: &FxSet<u32>, fp: bool) -> (Res, Option<Assign>) {
        let c = self.ctx;
        let solver;
        let r = if fp {
            solver = self.fp;
            Z3_solver_reset(c, solver);
            for e in key {
                let b = self.to_bool(ar, *e);
                Z3_solver_assert(c, solver, b);
            }
            Z3_solver_check(c, solver)
        } else {
            if self.nlits > 300 {
                self.new_bv();
            }
            solver = self.bv;
            let ls: Vec<Ast> = key.iter().map(|e| self.lit(ar, *e)).collect();
            Z3_solver_check_assumptions(c, solver, ls.len() as c_uint, ls.as_ptr())
        };
        match r {
            1 => {
                let m = Z3_solver_get_model(c, solver);
                Z3_model_inc_ref(c, m);
                let mx = vars.iter().max().map(|x| *x as usize + 1).unwrap_or(0);
                let mut out = vec![0u128; mx];
                for v in vars {
                    let e = ar.var_e[*v as usize];
                    let a = match self.asts.get(&e) {
                        Some(a) => *a,
                        None => continue,
                    };
                    let mut r: Ast = std::ptr::null_mut();
                    if Z3_model_eval(c, m, a, true, &mut r) {
                        Z3_inc_ref(c, r);
                        let w = ar.w(e);
                        let val = if w <= 64 {
                            let mut x = 0u64;
                            Z3_get_numeral_uint64(c, r, &mut x);
                            x as u128
                        } else {
                            std::ffi::CStr::from_ptr(Z3_get_numeral_string(c, r)).to_str().unwrap().parse().unwrap_or(0)
                        };
                        out[*v as usize] = val;
                    }
                }
                Z3_model_dec_ref(c, m);
                // a model that does not satisfy the query under our own evaluator means the
                // encoding and the evaluator disagree: never use it
                let mut memo = FxMap::default();
                for e in key {
                    if ar.eval(*e, &out, &mut memo) != 1 {
                        eprintln!("ENCODING MISMATCH on {}", ar.show(*e, 12));
                        return (Res::Unknown, None);
                    }
                }
                (Res::Sat, Some(Rc::new(out)))
            }
            -1 => (Res::Unsat, None),
            _ => (Res::Unknown, None),
        }
    }
    #[allow(dead_code)]
    pub unsafe fn unused(&self) {
        let _ = (Z3_mk_array_sort as usize, Z3_mk_const_array as usize, Z3_mk_store as usize, Z3_mk_select as usize);
        let _ = self.tables.len();
    }
}

impl SStats {
    pub fn json(&self) -> String {
        format!(
            "{{\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"model_hits\":{},\"time_s\":{:.3},\"max_query_s\":{:.3}}}",
            self.queries, self.sat, self.unsat, self.unknown, self.cached, self.model_hits, self.time, self.max_time
        )
    }
}

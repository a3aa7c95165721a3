//! The symbolic interpreter.
use crate::builtins;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::rc::Rc;
use std::time::Instant;

pub type F = &'static Func;

pub type Builtin = fn(&mut Engine, &mut State, &[Val], &CallI) -> Act;
pub type BuiltinF = fn(&mut Engine, &mut State, &[Val], &CallI, F) -> Act;

#[derive(Clone, Copy)]
pub enum Target {
    F(F),
    B(Builtin),
    /// intercepted definition
    BF(BuiltinF, F),
    Unknown(Name),
}
impl std::fmt::Debug for Target {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "target")
    }
}

pub enum Act {
    V(Val),
    Void,
    /// state already positioned (e.g. a frame was pushed, thread switched): do not advance
    Moved,
    /// advance past the call, then reschedule
    Yield(Val),
    /// do not advance; the thread is blocked: reschedule
    Block,
    Kill(Kill),
}

pub enum Kill {
    Done,
    Infeasible,
    Violation(String, String),
    Limit(String),
    Error(String),
}

#[derive(Clone)]
pub struct Frame {
    pub f: F,
    pub pc: u32,
    pub regs: Vec<Val>,
    pub obj: u32,
    pub dynobjs: Vec<u32>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum TStat {
    Run,
    Futex(u64, u64), // address, deadline (u64::MAX none)
    Sleep(u64),
    Join(usize),
    Epoll(u64),
    Done,
}

#[derive(Clone)]
pub struct Thread {
    pub stack: Vec<Frame>,
    pub stat: TStat,
    pub tls: FxMap<u64, u64>,
    pub pool: Vec<u32>,
    pub ret: Val,
    pub woken: u8, // 0 none, 1 woken, 2 timed out
    pub detached: bool,
    pub errno: u64,
    pub exc: u64, // exception in flight
    pub rsv: FxMap<u64, u64>,
}

#[derive(Clone)]
pub struct Input {
    pub name: String,
    pub bytes: usize,
    pub vars: Vec<E>, // low to high, byte-multiple widths (or empty for concrete)
}

#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub pc: Vec<E>,
    pub model: Assign,
    pub known: Rc<FxMap<E, E>>,
    pub known_gen: u64,
    pub inputs: Vec<Input>,
    pub steps: u64,
    pub clock: u64,
    pub clock_step: u64,
    pub preempt: u32,
    pub stall: u64,
    pub explore: bool,
    pub sched: Vec<u32>,
    pub nsched_var: u32,
    pub forks: u32,
    pub fresh: u32,
    pub exact_fmt: bool,
    pub const_hash: bool,
    pub notes: Vec<String>,
    pub depth_choice: Vec<u32>,
}

#[derive(Clone)]
pub struct Violation {
    pub label: String,
    pub msg: String,
    pub inputs: Vec<(String, Vec<u8>)>,
    pub sched: Vec<u32>,
    pub stack: Vec<String>,
    pub notes: Vec<String>,
    pub steps: u64,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub killed_infeasible: u64,
    pub limits: u64,
    pub errors: u64,
    pub steps: u64,
    pub forks: u64,
    pub branches: u64,
    pub sym_branches: u64,
    pub concretized: u64,
    pub checks_concrete: u64,
    pub checks_proved: u64,
    pub max_depth: u32,
    pub max_inputs: usize,
    pub table_reads: u64,
}

pub struct Globals {
    /// (module, name) -> object id / function address
    pub addr: FxMap<(u32, Name), u64>,
    pub gdefs: FxMap<u32, (u32, Name, Def)>, // object id -> def (for lazy materialisation)
    pub fnames: Vec<(u32, Name)>,            // function index -> (module, name)
    pub faddr: FxMap<(u32, Name), u64>,
    pub next_gid: u32,
    pub tls: FxMap<u64, (u32, Name, Def)>,
}

pub struct Opts {
    pub max_time: f64,
    pub max_steps: u64,
    pub max_paths: u64,
    pub trace: bool,
    pub only_label: Option<String>,
    pub stop_first: bool,
    pub verbose: bool,
    pub replay: Option<Vec<Vec<u8>>>,
    pub bfs: bool,
    pub max_viol: usize,
}

pub type Sample = (Vec<(String, Vec<u8>)>, Vec<u32>);
pub struct Engine {
    pub ir: Ir,
    pub ar: Arena,
    pub smt: Smt,
    pub gl: Globals,
    pub base: Mem, // initial memory holding materialised globals
    pub work: Vec<State>,
    pub st: Stats,
    pub viol: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub labels: std::collections::BTreeMap<String, (u64, u64, u64)>, // label -> (reached, proved, violated)
    pub covers: std::collections::BTreeMap<String, u64>,
    pub seen: FxSet<u32>,
    pub fcount: FxMap<u32, u64>,
    pub errors: Vec<String>,
    pub limits: Vec<String>,
    pub memo: FxMap<E, E>,
    pub memo_gen: u64,
    pub gen: u64,
    pub t0: Instant,
    pub opts: Opts,
    pub bt: FxMap<&'static str, Builtin>,
    pub pats: Vec<(&'static [&'static str], Builtin)>,
    pub fpats: Vec<(&'static [&'static str], BuiltinF)>,
    pub stubs: Vec<(String, String)>,
    pub stub_used: std::collections::BTreeMap<String, u64>,
    pub tcache: FxMap<(u32, Name), Target>,
    pub vnames: std::collections::HashMap<String, E>,
    pub nfresh: u32,
    pub prof: FxMap<u32, u64>,
    pub fork_sites: std::collections::BTreeMap<String, u64>,
}

struct Rs<'a> {
    gl: &'a mut Globals,
}
impl<'a> Resolver for Rs<'a> {
    fn global_addr(&mut self, ir: &Ir, module: usize, name: Name) -> u64 {
        self.gl.resolve(ir, module, name)
    }
}

impl Globals {
    pub fn resolve(&mut self, ir: &Ir, module: usize, name: Name) -> u64 {
        if let Some(d) = ir.find_func(module, name) {
            return self.fn_addr(d.module, name);
        }
        match ir.find_global(module, name) {
            Some(d) => {
                if let Some(a) = self.addr.get(&(d.module, name)) {
                    return *a;
                }
                let id = self.next_gid;
                self.next_gid += 1;
                let a = Mem::base(id);
                self.addr.insert((d.module, name), a);
                self.gdefs.insert(id, (d.module, name, d));
                a
            }
            None => self.fn_addr(u32::MAX, name), // external function (or unknown data)
        }
    }
    fn fn_addr(&mut self, m: u32, name: Name) -> u64 {
        if let Some(a) = self.faddr.get(&(m, name)) {
            return *a;
        }
        let a = FN_BASE + 16 * (self.fnames.len() as u64 + 1);
        self.fnames.push((m, name));
        self.faddr.insert((m, name), a);
        a
    }
}

#[inline]
pub fn get(regs: &[Val], o: &Opd) -> Val {
    match o {
        Opd::R(r) => regs[*r as usize].clone(),
        Opd::K(v) => v.clone(),
    }
}

pub fn demangle(n: &[u8]) -> String {
    // rough: join the identifiers of a v0 name
    let s = String::from_utf8_lossy(n).to_string();
    if !s.starts_with("_R") {
        return s;
    }
    let b = s.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut j = i;
            let mut l = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                l = l * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if l == 0 || j + l > b.len() {
                i = j.max(i + 1);
                continue;
            }
            out.push(s[j..j + l].to_string());
            i = j + l;
        } else if b[i] == b's' || b[i] == b'B' {
            // disambiguator / backref: skip base-62 up to '_'
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && (j - i) < 16 {
                i = j + 1;
            } else {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
    out.join("::")
}

impl Engine {
    pub fn new(ir: Ir, opts: Opts, timeout_ms: u32) -> Engine {
        let mut e = Engine {
            ir,
            ar: Arena::new(),
            smt: Smt::new(timeout_ms),
            gl: Globals { addr: Default::default(), gdefs: Default::default(), fnames: vec![], faddr: Default::default(), next_gid: 16, tls: Default::default() },
            base: Mem::new(),
            work: vec![],
            st: Default::default(),
            viol: vec![],
            samples: vec![],
            labels: Default::default(),
            covers: Default::default(),
            seen: Default::default(),
            fcount: Default::default(),
            errors: vec![],
            limits: vec![],
            memo: Default::default(),
            memo_gen: 0,
            gen: 1,
            t0: Instant::now(),
            opts,
            bt: Default::default(),
            pats: vec![],
            fpats: vec![],
            stubs: vec![],
            stub_used: Default::default(),
            tcache: Default::default(),
            vnames: Default::default(),
            nfresh: 0,
            prof: Default::default(),
            fork_sites: Default::default(),
        };
        builtins::register(&mut e);
        e
    }

    // ---------- values ----------
    pub fn e(&mut self, v: &Val, w: u16) -> E {
        match v {
            Val::C(c) => self.ar.cst(*c as u128, w),
            Val::Big(b) => self.ar.cst(**b, w),
            Val::S(e) => {
                debug_assert_eq!(self.ar.w(*e), w);
                *e
            }
            Val::Agg(_) => panic!("aggregate as scalar"),
        }
    }
    pub fn val(&self, e: E) -> Val {
        let w = self.ar.w(e);
        match self.ar.is_c(e) {
            Some(v) => mkc(v, w),
            None => Val::S(e),
        }
    }
    #[inline]
    pub fn conc(v: &Val) -> Option<u128> {
        match v {
            Val::C(c) => Some(*c as u128),
            Val::Big(b) => Some(**b),
            _ => None,
        }
    }

    pub fn bin(&mut self, op: BinOp, w: u16, fl: bool, a: &Val, b: &Val) -> Result<Val, Kill> {
        if !fl {
            if let (Val::C(x), Val::C(y)) = (a, b) {
                let (x, y) = (*x, *y);
                let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                let r = match op {
                    BinOp::Add => x.wrapping_add(y) & m,
                    BinOp::Sub => x.wrapping_sub(y) & m,
                    BinOp::Mul => x.wrapping_mul(y) & m,
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    BinOp::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            (x << y) & m
                        }
                    }
                    BinOp::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    BinOp::UDiv | BinOp::URem if y != 0 => {
                        if op == BinOp::UDiv {
                            x / y
                        } else {
                            x % y
                        }
                    }
                    BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if y == 0 => return Err(Kill::Violation("undefined-behaviour".into(), "division by zero".into())),
                    _ => {
                        let o = match op {
                            BinOp::SDiv => Op::SDiv,
                            BinOp::SRem => Op::SRem,
                            _ => Op::AShr,
                        };
                        ceval(o, w, w, x as u128, y as u128) as u64
                    }
                };
                return Ok(Val::C(r));
            }
        }
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            BinOp::FAdd => Op::FAdd,
            BinOp::FSub => Op::FSub,
            BinOp::FMul => Op::FMul,
            BinOp::FDiv => Op::FDiv,
            BinOp::FRem => Op::FRem,
        };
        if fl {
            if w != 32 && w != 64 {
                return Err(Kill::Error(format!("float width {}", w)));
            }
            if let (Some(x), Some(y)) = (Self::conc(a), Self::conc(b)) {
                return Ok(mkc(feval(o, w, w, x, y, 0), w));
            }
            let (x, y) = (self.e(a, w), self.e(b, w));
            let r = self.ar.fop(o, w, x, y);
            return Ok(self.val(r));
        }
        if let (Some(x), Some(y)) = (Self::conc(a), Self::conc(b)) {
            if y == 0 && matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
                return Err(Kill::Violation("undefined-behaviour".into(), "division by zero".into()));
            }
            return Ok(mkc(ceval(o, w, w, x, y), w));
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.ar.bin(o, x, y);
        Ok(self.val(r))
    }
    fn vbin(&mut self, op: BinOp, t: Ty, a: &Val, b: &Val) -> Result<Val, Kill> {
        let fl = op as u8 >= BinOp::FAdd as u8;
        match self.ir.ti(t).k.clone() {
            TyK::Vec(n, et) => {
                let w = self.ir.bits(et);
                let (Val::Agg(x), Val::Agg(y)) = (a, b) else { return Err(Kill::Error("vector operand".into())) };
                let mut r = Vec::with_capacity(n as usize);
                for i in 0..n as usize {
                    r.push(self.bin(op, w, fl, &x[i], &y[i])?);
                }
                Ok(Val::Agg(Rc::new(r)))
            }
            _ => {
                let w = self.ir.bits(t);
                self.bin(op, w, fl, a, b)
            }
        }
    }
    pub fn icmp(&mut self, p: Pred, w: u16, a: &Val, b: &Val) -> Val {
        if let (Some(x), Some(y)) = (Self::conc(a), Self::conc(b)) {
            let (sx_, sy) = (sx(x, w), sx(y, w));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx_ > sy,
                Pred::Sge => sx_ >= sy,
                Pred::Slt => sx_ < sy,
                Pred::Sle => sx_ <= sy,
            };
            return Val::C(r as u64);
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let ar = &mut self.ar;
        let r = match p {
            Pred::Eq => ar.eq(x, y),
            Pred::Ne => {
                let e = ar.eq(x, y);
                ar.not(e)
            }
            Pred::Ugt => ar.bin(Op::Ult, y, x),
            Pred::Uge => ar.bin(Op::Ule, y, x),
            Pred::Ult => ar.bin(Op::Ult, x, y),
            Pred::Ule => ar.bin(Op::Ule, x, y),
            Pred::Sgt => ar.bin(Op::Slt, y, x),
            Pred::Sge => ar.bin(Op::Sle, y, x),
            Pred::Slt => ar.bin(Op::Slt, x, y),
            Pred::Sle => ar.bin(Op::Sle, x, y),
        };
        self.val(r)
    }
    fn fcmp(&mut self, p: u8, w: u16, a: &Val, b: &Val) -> Result<Val, Kill> {
        if w != 32 && w != 64 {
            return Err(Kill::Error(format!("fcmp width {}", w)));
        }
        if let (Some(x), Some(y)) = (Self::conc(a), Self::conc(b)) {
            let (x, y) = if w == 64 { (f64b(x), f64b(y)) } else { (f32b(x) as f64, f32b(y) as f64) };
            let r = match x.partial_cmp(&y) {
                None => p & 8 != 0,
                Some(std::cmp::Ordering::Equal) => p & 1 != 0,
                Some(std::cmp::Ordering::Greater) => p & 2 != 0,
                Some(std::cmp::Ordering::Less) => p & 4 != 0,
            };
            return Ok(Val::C(r as u64));
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let ar = &mut self.ar;
        let mut r = ar.cst(0, 1);
        match p & 7 {
            7 | 0 => {}
            _ => {}
        }
        if p & 7 == 7 {
            let (n1, n2) = (ar.fop(Op::FIsNan, 1, x, 0), ar.fop(Op::FIsNan, 1, y, 0));
            let o = ar.or(n1, n2);
            r = ar.not(o);
        } else {
            if p & 5 == 5 {
                let t = ar.fop(Op::FLe, 1, x, y);
                r = ar.or(r, t);
            } else if p & 3 == 3 {
                let t = ar.fop(Op::FLe, 1, y, x);
                r = ar.or(r, t);
            } else {
                if p & 1 != 0 {
                    let t = ar.fop(Op::FEq, 1, x, y);
                    r = ar.or(r, t);
                }
                if p & 2 != 0 {
                    let t = ar.fop(Op::FLt, 1, y, x);
                    r = ar.or(r, t);
                }
                if p & 4 != 0 {
                    let t = ar.fop(Op::FLt, 1, x, y);
                    r = ar.or(r, t);
                }
            }
        }
        if p & 8 != 0 {
            let (n1, n2) = (ar.fop(Op::FIsNan, 1, x, 0), ar.fop(Op::FIsNan, 1, y, 0));
            let o = ar.or(n1, n2);
            r = ar.or(r, o);
        }
        Ok(self.val(r))
    }
    pub fn ite(&mut self, c: E, a: &Val, b: &Val, t: Ty) -> Result<Val, Kill> {
        match (a, b) {
            (Val::Agg(x), Val::Agg(y)) => {
                let ts: Vec<Ty> = match self.ir.ti(t).k.clone() {
                    TyK::Struct(f, _) => f,
                    TyK::Vec(n, e) => vec![e; n as usize],
                    TyK::Arr(n, e) => vec![e; n as usize],
                    _ => return Err(Kill::Error("ite agg".into())),
                };
                let mut r = vec![];
                for i in 0..x.len() {
                    r.push(self.ite(c, &x[i], &y[i], ts[i])?);
                }
                Ok(Val::Agg(Rc::new(r)))
            }
            _ => {
                let w = self.ir.bits(t);
                let (x, y) = (self.e(a, w), self.e(b, w));
                let r = self.ar.ite(c, x, y);
                Ok(self.val(r))
            }
        }
    }
    /// flatten a value of type t to a list of (bits, val), low to high
    fn flat(&self, v: &Val, t: Ty, out: &mut Vec<(u16, Val)>) {
        match v {
            Val::Agg(x) => match self.ir.ti(t).k.clone() {
                TyK::Vec(_, e) | TyK::Arr(_, e) => {
                    for y in x.iter() {
                        self.flat(y, e, out)
                    }
                }
                TyK::Struct(f, _) => {
                    for (i, y) in x.iter().enumerate() {
                        self.flat(y, f[i], out)
                    }
                }
                _ => {}
            },
            _ => out.push((self.ir.bits(t), v.clone())),
        }
    }
    fn bitcast(&mut self, v: &Val, ft: Ty, tt: Ty) -> Result<Val, Kill> {
        let fk = matches!(self.ir.ti(ft).k, TyK::Vec(..));
        let tk = self.ir.ti(tt).k.clone();
        if !fk && !matches!(tk, TyK::Vec(..)) {
            return Ok(v.clone());
        }
        let mut fl = vec![];
        self.flat(v, ft, &mut fl);
        // to one bit string
        let total: u16 = fl.iter().map(|x| x.0).sum();
        if total > 128 {
            // regroup elementwise when widths divide
            if let TyK::Vec(n, et) = tk {
                let ew = self.ir.bits(et);
                return self.regroup(&fl, n, ew);
            }
            return Err(Kill::Error("wide bitcast".into()));
        }
        let e = self.join(&fl);
        match tk {
            TyK::Vec(n, et) => {
                let ew = self.ir.bits(et);
                let mut r = vec![];
                for i in 0..n {
                    let x = self.ar.extract(e, i as u16 * ew, ew);
                    r.push(self.val(x));
                }
                Ok(Val::Agg(Rc::new(r)))
            }
            _ => Ok(self.val(e)),
        }
    }
    pub fn join(&mut self, fl: &[(u16, Val)]) -> E {
        if fl.iter().all(|x| Self::conc(&x.1).is_some()) {
            let mut v = 0u128;
            let mut o = 0;
            for (w, x) in fl {
                v |= Self::conc(x).unwrap() << o;
                o += *w;
            }
            return self.ar.cst(v, o);
        }
        let mut e = 0;
        for (i, (w, x)) in fl.iter().enumerate() {
            let y = self.e(x, *w);
            e = if i == 0 { y } else { self.ar.concat(y, e) };
        }
        e
    }
    fn regroup(&mut self, fl: &[(u16, Val)], n: u32, ew: u16) -> Result<Val, Kill> {
        let mut out = vec![];
        let mut i = 0;
        let fw = fl[0].0;
        if fw >= ew {
            for (w, v) in fl {
                let e = self.e(v, *w);
                for k in 0..(*w / ew) {
                    let x = self.ar.extract(e, k * ew, ew);
                    out.push(self.val(x));
                }
            }
        } else {
            let k = (ew / fw) as usize;
            while i < fl.len() {
                let e = self.join(&fl[i..i + k]);
                out.push(self.val(e));
                i += k;
            }
        }
        if out.len() != n as usize {
            return Err(Kill::Error("regroup".into()));
        }
        Ok(Val::Agg(Rc::new(out)))
    }
    fn cast(&mut self, k: CastK, ft: Ty, tt: Ty, v: &Val) -> Result<Val, Kill> {
        if k == CastK::Bitcast {
            return self.bitcast(v, ft, tt);
        }
        if let Val::Agg(x) = v {
            let (fe, te) = match (self.ir.ti(ft).k.clone(), self.ir.ti(tt).k.clone()) {
                (TyK::Vec(_, a), TyK::Vec(_, b)) => (a, b),
                _ => return Err(Kill::Error("cast agg".into())),
            };
            let mut r = vec![];
            for y in x.iter() {
                r.push(self.cast(k, fe, te, y)?);
            }
            return Ok(Val::Agg(Rc::new(r)));
        }
        let (fw, tw) = (self.ir.bits(ft), self.ir.bits(tt));
        if let Some(c) = Self::conc(v) {
            let r = match k {
                CastK::Trunc => c & mask(tw),
                CastK::ZExt => c,
                CastK::SExt => sx(c, fw) as u128 & mask(tw),
                CastK::PtrToInt | CastK::IntToPtr => c & mask(tw),
                CastK::FPToUI => feval(Op::FToUI, tw, fw, c, 0, 0),
                CastK::FPToSI => feval(Op::FToSI, tw, fw, c, 0, 0),
                CastK::UIToFP => feval(Op::UIToF, tw, fw, c, 0, 0),
                CastK::SIToFP => feval(Op::SIToF, tw, fw, c, 0, 0),
                CastK::FPTrunc | CastK::FPExt => feval(Op::FCvt, tw, fw, c, 0, 0),
                CastK::Bitcast => c,
            };
            return Ok(mkc(r, tw));
        }
        let e = self.e(v, fw);
        let ar = &mut self.ar;
        let r = match k {
            CastK::Trunc => ar.trunc(e, tw),
            CastK::ZExt => ar.zext(e, tw),
            CastK::SExt => ar.sext(e, tw),
            CastK::PtrToInt | CastK::IntToPtr => {
                if tw > fw {
                    ar.zext(e, tw)
                } else {
                    ar.trunc(e, tw)
                }
            }
            CastK::FPToUI => ar.fop(Op::FToUI, tw, e, 0),
            CastK::FPToSI => ar.fop(Op::FToSI, tw, e, 0),
            CastK::UIToFP => ar.fop(Op::UIToF, tw, e, 0),
            CastK::SIToFP => ar.fop(Op::SIToF, tw, e, 0),
            CastK::FPTrunc | CastK::FPExt => ar.fop(Op::FCvt, tw, e, 0),
            CastK::Bitcast => e,
        };
        Ok(self.val(r))
    }

    // ---------- path condition ----------
    pub fn subst(&mut self, st: &State, e: E) -> E {
        if st.known.is_empty() || self.ar.is_c(e).is_some() {
            return e;
        }
        if self.memo_gen != st.known_gen {
            self.memo = (*st.known).clone();
            self.memo_gen = st.known_gen;
        }
        let mut m = std::mem::take(&mut self.memo);
        let r = self.ar.subst(e, &mut m);
        self.memo = m;
        r
    }
    pub fn add_pc(&mut self, st: &mut State, c: E) {
        if self.ar.is_c(c).is_some() {
            return;
        }
        let n = self.ar.n(c);
        if n.op == Op::And && n.w == 1 {
            self.add_pc(st, n.a);
            self.add_pc(st, n.b);
            return;
        }
        if st.pc.contains(&c) {
            return;
        }
        st.pc.push(c);
        let t = self.ar.cst(1, 1);
        let f = self.ar.cst(0, 1);
        let nc = self.ar.not(c);
        let k = Rc::make_mut(&mut st.known);
        k.insert(c, t);
        k.insert(nc, f);
        if n.op == Op::Eq && self.ar.is_c(n.b).is_some() {
            k.insert(n.a, n.b);
        }
        self.gen += 1;
        st.known_gen = self.gen;
    }
    /// feasible? returns model
    pub fn feas(&mut self, st: &State, c: E) -> (Res, Option<Assign>) {
        let pc = st.pc.clone();
        let m = st.model.clone();
        self.smt.check(&mut self.ar, &pc, c, &m)
    }
    pub fn eval_model(&self, st: &State, e: E) -> u128 {
        let mut memo = FxMap::default();
        self.ar.eval(e, &st.model, &mut memo)
    }
    pub fn site(&self, st: &State) -> String {
        let th = &st.threads[st.cur];
        th.stack.iter().rev().take(4).map(|f| format!("{}+{}", demangle(f.f.name), f.pc)).collect::<Vec<_>>().join(" < ")
    }
    pub fn note_fork(&mut self, st: &State) {
        self.st.forks += 1;
        if self.opts.verbose {
            let s = self.site(st);
            *self.fork_sites.entry(s).or_insert(0) += 1;
        }
    }
    pub fn push(&mut self, st: State) {
        self.work.push(st);
    }
    /// Decide a branch: returns Some(bool) taken for `st`; the other side (if feasible) is handed to `other`.
    pub fn branch(&mut self, st: &mut State, c: E) -> Result<(bool, Option<State>), Kill> {
        self.st.sym_branches += 1;
        let c = self.subst(st, c);
        if let Some(v) = self.ar.is_c(c) {
            return Ok((v == 1, None));
        }
        let cur = self.eval_model(st, c) == 1;
        let nc = self.ar.not(c);
        let (mine, oth) = if cur { (c, nc) } else { (nc, c) };
        let (r, m) = self.feas(st, oth);
        match r {
            Res::Unsat => {
                // implied: remember to avoid asking again
                let t = self.ar.cst(1, 1);
                let f = self.ar.cst(0, 1);
                let k = Rc::make_mut(&mut st.known);
                k.insert(mine, t);
                k.insert(oth, f);
                self.gen += 1;
                st.known_gen = self.gen;
                Ok((cur, None))
            }
            Res::Sat => {
                self.note_fork(st);
                st.forks += 1;
                let mut o = st.clone();
                o.model = m.unwrap();
                self.add_pc(&mut o, oth);
                self.add_pc(st, mine);
                Ok((cur, Some(o)))
            }
            Res::Unknown => Err(Kill::Limit(format!("solver gave no answer at {}", self.site(st)))),
        }
    }
    /// Pick a concrete value; other feasible values are explored by a forked state that re-executes
    /// the current instruction.
    pub fn concretize(&mut self, st: &mut State, v: &Val, w: u16) -> Result<u128, Kill> {
        if let Some(c) = Self::conc(v) {
            return Ok(c);
        }
        let e0 = self.e(v, w);
        let e = self.subst(st, e0);
        if let Some(c) = self.ar.is_c(e) {
            return Ok(c);
        }
        self.st.concretized += 1;
        let x = self.eval_model(st, e);
        let eq = self.ar.eqc(e, x);
        let ne = self.ar.not(eq);
        let (r, m) = self.feas(st, ne);
        match r {
            Res::Unsat => {
                let k = Rc::make_mut(&mut st.known);
                let cx = self.ar.cst(x, w);
                k.insert(e, cx);
                k.insert(e0, cx);
                self.gen += 1;
                st.known_gen = self.gen;
            }
            Res::Sat => {
                self.note_fork(st);
                st.forks += 1;
                let mut o = st.clone();
                o.model = m.unwrap();
                self.add_pc(&mut o, ne);
                self.push(o);
                self.add_pc(st, eq);
                let k = Rc::make_mut(&mut st.known);
                let cx = self.ar.cst(x, w);
                k.insert(e0, cx);
                self.gen += 1;
                st.known_gen = self.gen;
            }
            Res::Unknown => return Err(Kill::Limit(format!("solver gave no answer (concretise) at {}", self.site(st)))),
        }
        Ok(x)
    }
    pub fn cu64(&mut self, st: &mut State, v: &Val) -> Result<u64, Kill> {
        match v {
            Val::C(c) => Ok(*c),
            _ => Ok(self.concretize(st, v, 64)? as u64),
        }
    }

    // ---------- memory ----------
    pub fn oob(&self, st: &State, addr: u64, n: usize, what: &str) -> Kill {
        let id = (addr >> 32) as u32;
        let sz = st.mem.get(id).map(|o| o.data.len() as i64).unwrap_or(-1);
        Kill::Violation("memory-safety".into(), format!("{} of {} bytes at {:#x} (object size {})", what, n, addr, sz))
    }
    /// make sure a lazily materialised global is present
    fn ensure(&mut self, st: &mut State, id: u32) -> bool {
        if st.mem.get(id).is_some() {
            return true;
        }
        if self.base.get(id).is_none() {
            let Some((m, name, d)) = self.gl.gdefs.get(&id).copied() else { return false };
            self.materialize(id, m, name, d);
        }
        if let Some(o) = self.base.get(id) {
            let o = o.clone();
            st.mem.put(id, o);
            return true;
        }
        false
    }
    fn parse_global(&mut self, d: Def) -> (Vec<u8>, bool, bool) {
        let text = self.ir.modules[d.module as usize].text;
        // @name = ... [thread_local] [constant|global] type init
        let mut lx = Lex { s: text, i: d.off, module: d.module as usize };
        while lx.s[lx.i] != b'=' || lx.s[lx.i - 1] != b' ' {
            lx.i += 1;
        }
        lx.i += 1;
        let mut tls = false;
        let ro;
        loop {
            let w = lx.word();
            match w {
                b"thread_local" => {
                    tls = true;
                    lx.ws();
                    if lx.s[lx.i] == b'(' {
                        lx.skip_paren();
                    }
                }
                b"constant" => {
                    ro = true;
                    break;
                }
                b"global" => {
                    ro = false;
                    break;
                }
                b"alias" => {
                    lx.ty(&mut self.ir);
                    lx.expect(b',');
                    ro = true;
                    break;
                }
                b"addrspace" => {
                    lx.ws();
                    lx.skip_paren();
                }
                b"" => {
                    lx.err("global");
                }
                _ => {}
            }
        }
        let t = lx.ty(&mut self.ir);
        let v = {
            let mut rs = Rs { gl: &mut self.gl };
            lx.konst(&mut self.ir, &mut rs, t)
        };
        let mut buf = vec![0u8; self.ir.alloc_size(t) as usize];
        self.write_const(&mut buf, 0, t, &v);
        (buf, ro, tls)
    }
    fn materialize(&mut self, id: u32, _m: u32, _name: Name, d: Def) {
        let (buf, ro, _) = self.parse_global(d);
        self.base.put(id, Obj { data: buf, sym: vec![], ro, heap: false });
    }
    fn write_const(&self, buf: &mut [u8], off: usize, t: Ty, v: &Val) {
        match v {
            Val::Agg(x) => {
                let ti = self.ir.ti(t);
                match &ti.k {
                    TyK::Arr(_, e) | TyK::Vec(_, e) => {
                        let s = self.ir.alloc_size(*e) as usize;
                        if s == 1 {
                            for (i, y) in x.iter().enumerate() {
                                if let Val::C(c) = y {
                                    buf[off + i] = *c as u8;
                                }
                            }
                            return;
                        }
                        for (i, y) in x.iter().enumerate() {
                            self.write_const(buf, off + i * s, *e, y);
                        }
                    }
                    TyK::Struct(f, _) => {
                        for (i, y) in x.iter().enumerate() {
                            self.write_const(buf, off + ti.offs[i] as usize, f[i], y);
                        }
                    }
                    _ => {}
                }
            }
            _ => {
                let c = Self::conc(v).unwrap();
                let n = self.ir.ti(t).size as usize;
                for i in 0..n {
                    buf[off + i] = (c >> (8 * i)) as u8;
                }
            }
        }
    }
    pub fn check_range(&mut self, st: &mut State, addr: u64, n: usize, what: &str) -> Result<(u32, usize), Kill> {
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff) as usize;
        if n == 0 {
            return Ok((id, off));
        }
        match st.mem.get(id) {
            Some(o) if off + n <= o.data.len() => Ok((id, off)),
            Some(_) => Err(self.oob(st, addr, n, what)),
            None => {
                if self.ensure(st, id) {
                    let l = st.mem.get(id).unwrap().data.len();
                    if off + n <= l {
                        return Ok((id, off));
                    }
                }
                Err(self.oob(st, addr, n, what))
            }
        }
    }
    /// read n (<= 16) bytes as one value of width 8n
    pub fn read_int(&mut self, st: &mut State, addr: u64, n: usize) -> Result<Val, Kill> {
        let (id, off) = self.check_range(st, addr, n, "read")?;
        if n == 0 {
            return Ok(Val::C(0));
        }
        let o = st.mem.get(id).unwrap();
        if !o.sym.is_empty() && o.sym[off..off + n].iter().any(|x| *x != 0) {
            let mut parts: Vec<E> = Vec::with_capacity(n);
            for i in 0..n {
                let s = o.sym[off + i];
                parts.push(if s != 0 { s } else { self.ar.cst(o.data[off + i] as u128, 8) });
            }
            let mut e = parts[n - 1];
            for i in (0..n - 1).rev() {
                e = self.ar.concat(e, parts[i]);
            }
            return Ok(self.val(e));
        }
        let d = &o.data[off..off + n];
        Ok(match n {
            8 => Val::C(u64::from_le_bytes(d.try_into().unwrap())),
            4 => Val::C(u32::from_le_bytes(d.try_into().unwrap()) as u64),
            1 => Val::C(d[0] as u64),
            2 => Val::C(u16::from_le_bytes(d.try_into().unwrap()) as u64),
            _ => {
                let mut v = 0u128;
                for i in (0..n).rev() {
                    v = (v << 8) | d[i] as u128;
                }
                mkc(v, 8 * n as u16)
            }
        })
    }
    pub fn write_int(&mut self, st: &mut State, addr: u64, n: usize, v: &Val) -> Result<(), Kill> {
        let (id, off) = self.check_range(st, addr, n, "write")?;
        if n == 0 {
            return Ok(());
        }
        // expressions first (no borrow of memory)
        let mut parts: [E; 16] = [0; 16];
        let sym = match v {
            Val::S(e) => {
                let e = if self.ar.w(*e) != 8 * n as u16 { self.ar.zext(*e, 8 * n as u16) } else { *e };
                for (i, p) in parts.iter_mut().enumerate().take(n) {
                    *p = self.ar.extract(e, 8 * i as u16, 8);
                }
                true
            }
            _ => false,
        };
        let o = st.mem.get_mut(id).unwrap();
        if o.ro {
            return Err(Kill::Violation("memory-safety".into(), format!("write to constant at {:#x}", addr)));
        }
        if sym {
            if o.sym.is_empty() {
                o.sym = vec![0; o.data.len()];
            }
            for i in 0..n {
                match self.ar.is_c(parts[i]) {
                    Some(c) => {
                        o.sym[off + i] = 0;
                        o.data[off + i] = c as u8;
                    }
                    None => o.sym[off + i] = parts[i],
                }
            }
        } else {
            match v {
                Val::C(c) => {
                    let b = c.to_le_bytes();
                    if n <= 8 {
                        o.data[off..off + n].copy_from_slice(&b[..n]);
                    } else {
                        o.data[off..off + 8].copy_from_slice(&b);
                        for x in &mut o.data[off + 8..off + n] {
                            *x = 0;
                        }
                    }
                }
                Val::Big(c) => {
                    let b = c.to_le_bytes();
                    o.data[off..off + n].copy_from_slice(&b[..n]);
                }
                _ => return Err(Kill::Error("write agg".into())),
            }
            if !o.sym.is_empty() {
                for x in &mut o.sym[off..off + n] {
                    *x = 0;
                }
            }
        }
        Ok(())
    }
    pub fn load(&mut self, st: &mut State, t: Ty, addr: u64) -> Result<Val, Kill> {
        let ti = self.ir.ti(t);
        match &ti.k {
            TyK::Int(w) => {
                let (w, n) = (*w, ti.size as usize);
                if n > 16 {
                    return Err(Kill::Error(format!("load i{}", w)));
                }
                let v = self.read_int(st, addr, n)?;
                if w as usize == 8 * n {
                    return Ok(v);
                }
                Ok(match v {
                    Val::S(e) => {
                        let x = self.ar.extract(e, 0, w);
                        self.val(x)
                    }
                    v => mkc(Self::conc(&v).unwrap() & mask(w), w),
                })
            }
            TyK::Ptr | TyK::F64 => self.read_int(st, addr, 8),
            TyK::F32 => self.read_int(st, addr, 4),
            TyK::F16 => self.read_int(st, addr, 2),
            TyK::F128 | TyK::X87 => self.read_int(st, addr, 16),
            TyK::Struct(f, _) => {
                let f = f.clone();
                let offs = ti.offs.clone();
                let mut r = vec![];
                for (i, ft) in f.iter().enumerate() {
                    r.push(self.load(st, *ft, addr + offs[i])?);
                }
                Ok(Val::Agg(Rc::new(r)))
            }
            TyK::Arr(..) | TyK::Vec(..) => {
                let (n, e) = match &ti.k {
                    TyK::Arr(n, e) => (*n as usize, *e),
                    TyK::Vec(n, e) => (*n as usize, *e),
                    _ => unreachable!(),
                };
                let isv = matches!(ti.k, TyK::Vec(..));
                let ew = self.ir.bits(e);
                if isv && ew % 8 != 0 {
                    // packed bits
                    let bytes = ti.size as usize;
                    let v = self.read_int(st, addr, bytes)?;
                    let x = self.e(&v, 8 * bytes as u16);
                    let mut r = vec![];
                    for i in 0..n {
                        let y = self.ar.extract(x, i as u16 * ew, ew);
                        r.push(self.val(y));
                    }
                    return Ok(Val::Agg(Rc::new(r)));
                }
                let s = self.ir.alloc_size(e);
                let mut r = Vec::with_capacity(n);
                for i in 0..n {
                    r.push(self.load(st, e, addr + i as u64 * s)?);
                }
                Ok(Val::Agg(Rc::new(r)))
            }
            _ => Err(Kill::Error("load type".into())),
        }
    }
    pub fn store(&mut self, st: &mut State, t: Ty, addr: u64, v: &Val) -> Result<(), Kill> {
        match v {
            Val::Agg(x) => {
                let ti = self.ir.ti(t).clone();
                match &ti.k {
                    TyK::Struct(f, _) => {
                        for (i, y) in x.iter().enumerate() {
                            self.store(st, f[i], addr + ti.offs[i], y)?;
                        }
                        Ok(())
                    }
                    TyK::Arr(_, e) | TyK::Vec(_, e) => {
                        let ew = self.ir.bits(*e);
                        if matches!(ti.k, TyK::Vec(..)) && ew % 8 != 0 {
                            let fl: Vec<(u16, Val)> = x.iter().map(|y| (ew, y.clone())).collect();
                            let j = self.join(&fl);
                            let jv = self.val(j);
                            return self.write_int(st, addr, ti.size as usize, &jv);
                        }
                        let s = self.ir.alloc_size(*e);
                        for (i, y) in x.iter().enumerate() {
                            self.store(st, *e, addr + i as u64 * s, y)?;
                        }
                        Ok(())
                    }
                    _ => Err(Kill::Error("store agg".into())),
                }
            }
            _ => {
                let n = self.ir.ti(t).size as usize;
                if n > 16 {
                    return Err(Kill::Error("store wide".into()));
                }
                self.write_int(st, addr, n, v)
            }
        }
    }
    /// Load through a possibly symbolic pointer.
    pub fn load_sym(&mut self, st: &mut State, t: Ty, p: &Val) -> Result<Val, Kill> {
        let e0 = self.e(p, 64);
        let e = self.subst(st, e0);
        if let Some(c) = self.ar.is_c(e) {
            return self.load(st, t, c as u64);
        }
        let w = self.ir.bits(t);
        let n = self.ir.ti(t).size as usize;
        if w == 0 || w > 128 {
            let a = self.concretize(st, &Val::S(e), 64)? as u64;
            return self.load(st, t, a);
        }
        let v = self.eval_model(st, e) as u64;
        let id = (v >> 32) as u32;
        self.check_range(st, v, n, "read")?;
        let base = self.ar.cst(Mem::base(id) as u128, 64);
        let off = self.ar.bin(Op::Sub, e, base);
        let size = st.mem.get(id).unwrap().data.len();
        let lim = self.ar.cst((size - n) as u128, 64);
        let bad = self.ar.bin(Op::Ult, lim, off);
        let (r, m) = self.feas(st, bad);
        match r {
            Res::Unknown => return Err(Kill::Limit(format!("solver gave no answer (address) at {}", self.site(st)))),
            Res::Sat => {
                self.note_fork(st);
                let mut o = st.clone();
                o.model = m.unwrap();
                self.add_pc(&mut o, bad);
                self.push(o);
                let good = self.ar.not(bad);
                self.add_pc(st, good);
            }
            Res::Unsat => {}
        }
        // alignment of the offset
        let tz = self.tzeros(off).min(12);
        let step = 1usize << tz;
        let cnt = (size - n) / step + 1;
        let o = st.mem.get(id).unwrap();
        let symfree = o.sym.is_empty() || o.sym.iter().all(|x| *x == 0);
        if symfree && cnt <= 8192 {
            let mut tv = Vec::with_capacity(cnt);
            for i in 0..cnt {
                let mut x = 0u128;
                for k in (0..n).rev() {
                    x = (x << 8) | o.data[i * step + k] as u128;
                }
                tv.push(x & mask(w));
            }
            self.st.table_reads += 1;
            // narrow index
            let iw = (64 - (cnt as u64).leading_zeros()).max(1) as u16;
            let idx = self.ar.extract(off, tz, iw.min(64 - tz));
            let r = self.ar.table(tv, w, idx);
            return Ok(self.val(r));
        }
        if cnt <= 64 {
            let mut r: Option<E> = None;
            for i in 0..cnt {
                let v = self.load(st, t, Mem::base(id) + (i * step) as u64)?;
                let ve = self.e(&v, w);
                r = Some(match r {
                    None => ve,
                    Some(p) => {
                        let c = self.ar.eqc(off, (i * step) as u128);
                        self.ar.ite(c, ve, p)
                    }
                });
            }
            return Ok(self.val(r.unwrap()));
        }
        let a = self.concretize(st, &Val::S(e), 64)? as u64;
        self.load(st, t, a)
    }
    fn tzeros(&self, e: E) -> u16 {
        // trailing zero bits of an expression (syntactic)
        let n = self.ar.n(e);
        match n.op {
            Op::Const => {
                let v = self.ar.is_c(e).unwrap();
                if v == 0 {
                    63
                } else {
                    v.trailing_zeros() as u16
                }
            }
            Op::Concat => {
                let l = self.tzeros(n.b);
                if l >= self.ar.w(n.b) {
                    self.ar.w(n.b) + self.tzeros(n.a)
                } else {
                    l
                }
            }
            Op::Add | Op::Sub | Op::Or => self.tzeros(n.a).min(self.tzeros(n.b)),
            Op::Mul => self.tzeros(n.a) + self.tzeros(n.b),
            Op::ZExt | Op::SExt => self.tzeros(n.a),
            Op::Ite => self.tzeros(n.b).min(self.tzeros(n.c)),
            _ => 0,
        }
    }
    pub fn copy_mem(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> Result<(), Kill> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.check_range(st, s, n, "read")?;
        let (di, dof) = self.check_range(st, d, n, "write")?;
        if si == di {
            let o = st.mem.get_mut(di).unwrap();
            o.data.copy_within(so..so + n, dof);
            if !o.sym.is_empty() {
                o.sym.copy_within(so..so + n, dof);
            }
            return Ok(());
        }
        let so_: *const Obj = st.mem.get(si).unwrap();
        let sr = unsafe { &*so_ };
        // get_mut may copy-on-write the destination chunk; the source object stays alive through its Rc
        let keep = sr as *const Obj;
        let has = !sr.sym.is_empty() && sr.sym[so..so + n].iter().any(|x| *x != 0);
        let data: *const u8 = sr.data[so..].as_ptr();
        let syms: Option<Vec<E>> = if has { Some(sr.sym[so..so + n].to_vec()) } else { None };
        // copy through a temporary when small, else directly
        let tmp: Vec<u8> = unsafe { std::slice::from_raw_parts(data, n).to_vec() };
        let _ = keep;
        let o = st.mem.get_mut(di).unwrap();
        if o.ro {
            return Err(Kill::Violation("memory-safety".into(), format!("write to constant at {:#x}", d)));
        }
        o.data[dof..dof + n].copy_from_slice(&tmp);
        match syms {
            Some(s) => {
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                o.sym[dof..dof + n].copy_from_slice(&s);
            }
            None => {
                if !o.sym.is_empty() {
                    for x in &mut o.sym[dof..dof + n] {
                        *x = 0;
                    }
                }
            }
        }
        Ok(())
    }
    pub fn read_bytes(&mut self, st: &mut State, a: u64, n: usize) -> Result<Vec<u8>, Kill> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (i, o) = self.check_range(st, a, n, "read")?;
        let ob = st.mem.get(i).unwrap();
        Ok(ob.data[o..o + n].to_vec())
    }

    // ---------- calls ----------
    pub fn fn_at(&mut self, addr: u64, argn: usize) -> Option<Target> {
        if addr < FN_BASE {
            return None;
        }
        let i = ((addr - FN_BASE) / 16) as usize;
        if i == 0 || i > self.gl.fnames.len() {
            return None;
        }
        let (m, n) = self.gl.fnames[i - 1];
        let _ = argn;
        Some(self.target(if m == u32::MAX { 0 } else { m as usize }, n))
    }
    pub fn target(&mut self, module: usize, name: Name) -> Target {
        // calls to a definition in this module or elsewhere
        let def = self.ir.find_func(module, name);
        let key = (def.map(|d| d.module).unwrap_or(u32::MAX), name);
        if let Some(t) = self.tcache.get(&key) {
            return *t;
        }
        let t = self.target0(def, name);
        self.tcache.insert(key, t);
        t
    }
    fn target0(&mut self, def: Option<Def>, name: Name) -> Target {
        let s = std::str::from_utf8(name).unwrap_or("");
        for i in 0..self.stubs.len() {
            if s.contains(self.stubs[i].0.as_str()) {
                let to = self.stubs[i].1.clone();
                let nm: &'static str = Box::leak(to.into_boxed_str());
                if let Some(d) = self.ir.find_func(0, nm.as_bytes()) {
                    *self.stub_used.entry(demangle(name)).or_insert(0) += 1;
                    return Target::F(self.func(d, nm.as_bytes()));
                }
            }
        }
        if let Some(b) = self.bt.get(s) {
            if !(def.is_some() && builtins::overridable(s)) {
                return Target::B(*b);
            }
        }
        if s.starts_with("_R") {
            for (p, b) in &self.pats {
                if p.iter().all(|x| s.contains(x)) {
                    return Target::B(*b);
                }
            }
            if let Some(d) = def {
                for i in 0..self.fpats.len() {
                    if self.fpats[i].0.iter().all(|x| s.contains(x)) {
                        let b = self.fpats[i].1;
                        return Target::BF(b, self.func(d, name));
                    }
                }
            }
        }
        match def {
            Some(d) => Target::F(self.func(d, name)),
            None => {
                if let Some(b) = builtins::intrinsic(s) {
                    return Target::B(b);
                }
                Target::Unknown(name)
            }
        }
    }
    pub fn func(&mut self, d: Def, name: Name) -> F {
        let mut rs = Rs { gl: &mut self.gl };
        let f = parse_func(&mut self.ir, &mut rs, d, name);
        // parsed functions live forever
        unsafe { &*(Rc::as_ptr(&f)) }
    }
    pub fn push_frame(&mut self, st: &mut State, f: F, args: &[Val]) {
        let th = &mut st.threads[st.cur];
        let mut regs = Vec::with_capacity(f.nregs as usize);
        regs.extend_from_slice(&args[..(f.nparams as usize).min(args.len())]);
        regs.resize(f.nregs as usize, Val::C(0));
        let obj = if f.frame_size > 0 {
            let id = match th.pool.pop() {
                Some(i) => i,
                None => st.mem.fresh_id(),
            };
            st.mem.put(id, Obj { data: vec![0; f.frame_size as usize], sym: vec![], ro: false, heap: false });
            id
        } else {
            0
        };
        self.seen.insert(f.id);
        th.stack.push(Frame { f, pc: 0, regs, obj, dynobjs: vec![] });
    }
    pub fn pop_frame(&mut self, st: &mut State) {
        let th = &mut st.threads[st.cur];
        let fr = th.stack.pop().unwrap();
        if fr.obj != 0 {
            st.mem.free(fr.obj);
            th.pool.push(fr.obj);
        }
        for i in fr.dynobjs {
            st.mem.free(i);
            th.pool.push(i);
        }
    }
    /// deliver a return value to the caller (current top frame's Call instruction)
    fn ret_to_caller(&mut self, st: &mut State, v: Val) -> Option<Kill> {
        let cur = st.cur;
        let th = &mut st.threads[cur];
        if th.stack.is_empty() {
            th.ret = v;
            th.stat = TStat::Done;
            if cur == 0 {
                return Some(Kill::Done);
            }
            for t in st.threads.iter_mut() {
                if t.stat == TStat::Join(cur) {
                    t.stat = TStat::Run;
                }
            }
            return None;
        }
        let fr = th.stack.last_mut().unwrap();
        let f = fr.f;
        match &f.insts[fr.pc as usize] {
            Inst::Call(c) => {
                if c.dst != u32::MAX {
                    fr.regs[c.dst as usize] = v;
                }
                match c.invoke {
                    Some((n, _)) => self.jump(st, n),
                    None => fr.pc += 1,
                }
            }
            _ => return Some(Kill::Error("return to non-call".into())),
        }
        None
    }
    #[inline]
    pub fn jump(&mut self, st: &mut State, edge: u32) {
        let th = &mut st.threads[st.cur];
        let fr = th.stack.last_mut().unwrap();
        let e = &fr.f.edges[edge as usize];
        match e.moves.len() {
            0 => {}
            1 => {
                let v = get(&fr.regs, &e.moves[0].1);
                fr.regs[e.moves[0].0 as usize] = v;
            }
            _ => {
                let vs: Vec<Val> = e.moves.iter().map(|m| get(&fr.regs, &m.1)).collect();
                for (m, v) in e.moves.iter().zip(vs) {
                    fr.regs[m.0 as usize] = v;
                }
            }
        }
        fr.pc = e.pc;
    }
    /// unwind: pop frames until one is stopped at an invoke
    pub fn unwind(&mut self, st: &mut State, exc: u64) -> Act {
        st.threads[st.cur].exc = exc;
        loop {
            self.pop_frame(st);
            let th = &st.threads[st.cur];
            let Some(fr) = th.stack.last() else {
                return Act::Kill(Kill::Violation("panic".into(), "panic reached the root of a thread".into()));
            };
            if let Inst::Call(c) = &fr.f.insts[fr.pc as usize] {
                if let Some((_, u)) = c.invoke {
                    self.jump(st, u);
                    return Act::Moved;
                }
            }
        }
    }
    pub fn has_catch(&self, st: &State) -> bool {
        let th = &st.threads[st.cur];
        for fr in th.stack.iter().rev() {
            if let Inst::Call(c) = &fr.f.insts[fr.pc as usize] {
                if let Some((_, u)) = c.invoke {
                    let pc = fr.f.edges[u as usize].pc;
                    if fr.f.catch_pads.contains(&pc) {
                        return true;
                    }
                }
            }
        }
        false
    }
    pub fn tls_addr(&mut self, st: &mut State, g: u64) -> u64 {
        let cur = st.cur;
        if let Some(a) = st.threads[cur].tls.get(&g) {
            return *a;
        }
        let id = (g >> 32) as u32;
        let Some((_, _, d)) = self.gl.gdefs.get(&id).copied() else { return g };
        let (buf, _, _) = self.parse_global(d);
        let a = st.mem.alloc(0, false);
        let nid = (a >> 32) as u32;
        st.mem.put(nid, Obj { data: buf, sym: vec![], ro: false, heap: false });
        st.threads[cur].tls.insert(g, a);
        a
    }

    // ---------- violations ----------
    pub fn model_inputs(&self, st: &State, m: &Assign) -> Vec<(String, Vec<u8>)> {
        let mut out = vec![];
        for i in &st.inputs {
            let mut b = vec![];
            for v in &i.vars {
                let w = self.ar.w(*v);
                let mut memo = FxMap::default();
                let x = self.ar.eval(*v, m, &mut memo);
                for k in 0..(w / 8) {
                    b.push((x >> (8 * k)) as u8);
                }
            }
            out.push((i.name.clone(), b));
        }
        out
    }
    pub fn violation(&mut self, st: &State, label: &str, msg: &str, m: &Assign) {
        let e = self.labels.entry(label.to_string()).or_insert((0, 0, 0));
        e.2 += 1;
        let same = self.viol.iter().filter(|v| v.label == label && v.msg == msg).count();
        if same >= 1 || self.viol.len() >= 40 {
            return;
        }
        let stack = st.threads[st.cur].stack.iter().rev().take(14).map(|f| format!("{}+{}", demangle(f.f.name), f.pc)).collect();
        let v = Violation { label: label.into(), msg: msg.into(), inputs: self.model_inputs(st, m), sched: st.sched.clone(), stack, notes: st.notes.clone(), steps: st.steps };
        if self.opts.verbose {
            eprintln!("violation {} {} inputs {:?}", v.label, v.msg, v.inputs);
        }
        self.viol.push(v);
    }

    // ---------- scheduling ----------
    pub fn runnable(&self, st: &State) -> Vec<usize> {
        (0..st.threads.len()).filter(|i| st.threads[*i].stat == TStat::Run).collect()
    }
    /// choose the next thread; `must` = the current one cannot continue
    pub fn reschedule(&mut self, st: &mut State, must: bool) -> Option<Kill> {
        loop {
            let mut r = self.runnable(st);
            if must {
                r.retain(|i| *i != st.cur || st.threads[*i].stat == TStat::Run);
            }
            if r.is_empty() {
                // advance time to the earliest deadline
                let mut best: Option<(u64, usize)> = None;
                for (i, t) in st.threads.iter().enumerate() {
                    let d = match t.stat {
                        TStat::Futex(_, d) => d,
                        TStat::Sleep(d) | TStat::Epoll(d) => d,
                        _ => u64::MAX,
                    };
                    if d != u64::MAX && best.map(|b| d < b.0).unwrap_or(true) {
                        best = Some((d, i));
                    }
                }
                match best {
                    Some((d, i)) => {
                        // the program makes no progress while only the runtime's timers go off
                        if matches!(st.threads[0].stat, TStat::Futex(_, u64::MAX)) {
                            if st.stall == 0 {
                                st.stall = st.clock;
                            } else if d.saturating_sub(st.stall) > 10_000_000_000 {
                                return Some(Kill::Violation("deadlock".into(), format!("the program is blocked for good: {:?}", st.threads.iter().map(|t| format!("{:?}", t.stat)).collect::<Vec<_>>())));
                            }
                        }
                        st.clock = st.clock.max(d);
                        st.threads[i].woken = 2;
                        st.threads[i].stat = TStat::Run;
                        continue;
                    }
                    None => {
                        return Some(Kill::Violation("deadlock".into(), format!("every thread is blocked: {:?}", st.threads.iter().map(|t| format!("{:?}", t.stat)).collect::<Vec<_>>())));
                    }
                }
            }
            // round robin; while schedules are explored, each departure from it counts as a preemption
            let n = r.iter().position(|i| *i > st.cur).unwrap_or(0);
            if r.len() > 1 && st.explore && (st.preempt > 0 || !st.depth_choice.is_empty()) {
                let k = self.choose(st, r.len());
                if k > 0 {
                    st.preempt -= 1;
                }
                st.cur = r[(n + k) % r.len()];
            } else {
                st.cur = r[n];
            }
            if st.cur == 0 {
                st.stall = 0;
            }
            return None;
        }
    }
    /// explored choice among n alternatives; forks keep a fresh variable constrained to the choice
    pub fn choose(&mut self, st: &mut State, n: usize) -> usize {
        // alternatives 1.. are pushed as states with a pending choice
        if let Some(k) = st.depth_choice.pop() {
            st.sched.push(k);
            return k as usize;
        }
        self.note_fork(st);
        for k in (1..n).rev() {
            let mut o = st.clone();
            o.forks += 1;
            o.depth_choice.push(k as u32);
            self.push(o);
        }
        st.sched.push(0);
        0
    }
    /// a possible preemption before a synchronising operation
    fn preempt_point(&mut self, st: &mut State) -> bool {
        if !st.explore || st.threads.len() < 2 {
            return false;
        }
        let have_pending = !st.depth_choice.is_empty();
        if st.preempt == 0 && !have_pending {
            return false;
        }
        let others: Vec<usize> = self.runnable(st).into_iter().filter(|i| *i != st.cur).collect();
        if others.is_empty() {
            return false;
        }
        let k = self.choose(st, others.len() + 1);
        if k == 0 {
            return false;
        }
        st.preempt -= 1;
        st.threads[st.cur].woken |= 0x80; // resume without asking again
        st.cur = others[k - 1];
        true
    }

    // ---------- main loop ----------
    pub fn run(&mut self, entry: &str) -> bool {
        let nm: &'static str = Box::leak(entry.to_string().into_boxed_str());
        let Some(d) = self.ir.find_func(0, nm.as_bytes()) else {
            self.errors.push(format!("no harness {}", entry));
            return false;
        };
        let f = self.func(d, nm.as_bytes());
        let mut st = State {
            mem: Mem::new(),
            threads: vec![],
            cur: 0,
            pc: vec![],
            model: Rc::new(vec![]),
            known: Default::default(),
            known_gen: 0,
            inputs: vec![],
            steps: 0,
            clock: 1_700_000_000_000_000_000,
            clock_step: 1000,
            preempt: 0,
            stall: 0,
            explore: false,
            sched: vec![],
            nsched_var: 0,
            forks: 0,
            fresh: 0,
            exact_fmt: false,
            const_hash: false,
            notes: vec![],
            depth_choice: vec![],
        };
        st.mem.next = 1 << 16; // ids below are globals
        st.threads.push(new_thread());
        self.push_frame(&mut st, f, &[]);
        self.work.push(st);
        let mut complete = true;
        while let Some(st) = if self.opts.bfs && !self.work.is_empty() { Some(self.work.remove(0)) } else { self.work.pop() } {
            if self.t0.elapsed().as_secs_f64() > self.opts.max_time || self.st.paths >= self.opts.max_paths {
                complete = false;
                self.limits.push(format!("budget exhausted with {} states pending", self.work.len() + 1));
                self.st.limits += 1 + self.work.len() as u64;
                self.work.clear();
                break;
            }
            if self.opts.stop_first && !self.viol.is_empty() {
                complete = false;
                self.work.clear();
                break;
            }
            if self.viol.len() >= self.opts.max_viol {
                complete = false;
                self.work.clear();
                break;
            }
            self.run_state(st);
        }
        complete && self.limits.is_empty() && self.errors.is_empty()
    }
    fn run_state(&mut self, mut st: State) {
        let start = st.steps;
        let k = loop {
            match self.quantum(&mut st) {
                None => {
                    if self.t0.elapsed().as_secs_f64() > self.opts.max_time {
                        break Kill::Limit("time budget".into());
                    }
                    if st.steps > self.opts.max_steps {
                        break Kill::Limit(format!("step limit at {}", self.site(&st)));
                    }
                }
                Some(k) => break k,
            }
        };
        self.st.steps += st.steps - start;
        self.st.max_depth = self.st.max_depth.max(st.forks);
        self.st.max_inputs = self.st.max_inputs.max(st.inputs.iter().map(|i| i.bytes).sum());
        match k {
            Kill::Done => {
                self.st.paths += 1;
                if self.st.paths.is_power_of_two() || self.st.paths == 3 {
                    let m = st.model.clone();
                    let i = self.model_inputs(&st, &m);
                    self.samples.push((i, st.sched.clone()));
                }
            }
            Kill::Infeasible => self.st.killed_infeasible += 1,
            Kill::Violation(l, m) => {
                self.st.paths += 1;
                let l = if l == "panic" || l == "memory-safety" || l == "deadlock" || l == "undefined-behaviour" { l } else { l };
                let md = st.model.clone();
                self.violation(&st, &l, &m, &md);
            }
            Kill::Limit(m) => {
                self.st.limits += 1;
                if self.limits.len() < 20 && !self.limits.contains(&m) {
                    self.limits.push(m);
                }
            }
            Kill::Error(m) => {
                self.st.errors += 1;
                let m = format!("{} at {}", m, if st.threads[st.cur].stack.is_empty() { String::new() } else { self.site(&st) });
                if self.errors.len() < 20 && !self.errors.contains(&m) {
                    self.errors.push(m);
                }
            }
        }
    }
    /// run up to a batch of instructions
    fn quantum(&mut self, st: &mut State) -> Option<Kill> {
        let mut n = 0u32;
        loop {
            n += 1;
            if n > 200_000 {
                st.steps += n as u64;
                return None;
            }
            let r = self.step(st);
            match r {
                Ok(()) => {}
                Err(k) => {
                    st.steps += n as u64;
                    return Some(k);
                }
            }
        }
    }
    #[inline]
    pub fn set(&self, st: &mut State, d: u32, v: Val) {
        let fr = st.threads[st.cur].stack.last_mut().unwrap();
        fr.regs[d as usize] = v;
        fr.pc += 1;
    }
    pub fn addr_of(&mut self, st: &mut State, v: &Val) -> Result<u64, Kill> {
        match v {
            Val::C(c) => Ok(*c),
            _ => {
                let a = self.concretize(st, v, 64)?;
                Ok(a as u64)
            }
        }
    }
    fn step(&mut self, st: &mut State) -> Result<(), Kill> {
        let cur = st.cur;
        let th = &mut st.threads[cur];
        let fr = match th.stack.last_mut() {
            Some(f) => f,
            None => {
                // thread finished
                if let Some(k) = self.reschedule(st, true) {
                    return Err(k);
                }
                return Ok(());
            }
        };
        let f = fr.f;
        let inst = &f.insts[fr.pc as usize];
        match inst {
            Inst::Bin(op, t, d, a, b) => {
                let (x, y) = (get(&fr.regs, a), get(&fr.regs, b));
                // symbolic divisor: the zero case is undefined behaviour
                let r = self.vbin(*op, *t, &x, &y)?;
                self.set(st, *d, r);
            }
            Inst::ICmp(p, t, d, a, b) => {
                let (x, y) = (get(&fr.regs, a), get(&fr.regs, b));
                let r = match (&x, &y) {
                    (Val::Agg(xs), Val::Agg(ys)) => {
                        let et = match self.ir.ti(*t).k {
                            TyK::Vec(_, e) => e,
                            _ => return Err(Kill::Error("icmp agg".into())),
                        };
                        let w = self.ir.bits(et);
                        let mut r = Vec::with_capacity(xs.len());
                        for i in 0..xs.len() {
                            r.push(self.icmp(*p, w, &xs[i], &ys[i]));
                        }
                        Val::Agg(Rc::new(r))
                    }
                    _ => {
                        let w = self.ir.bits(*t);
                        self.icmp(*p, w, &x, &y)
                    }
                };
                self.set(st, *d, r);
            }
            Inst::FCmp(p, t, d, a, b) => {
                let (x, y) = (get(&fr.regs, a), get(&fr.regs, b));
                let r = match (&x, &y) {
                    (Val::Agg(xs), Val::Agg(ys)) => {
                        let et = match self.ir.ti(*t).k {
                            TyK::Vec(_, e) => e,
                            _ => return Err(Kill::Error("fcmp agg".into())),
                        };
                        let w = self.ir.bits(et);
                        let mut r = vec![];
                        for i in 0..xs.len() {
                            r.push(self.fcmp(*p, w, &xs[i], &ys[i])?);
                        }
                        Val::Agg(Rc::new(r))
                    }
                    _ => {
                        let w = self.ir.bits(*t);
                        self.fcmp(*p, w, &x, &y)?
                    }
                };
                self.set(st, *d, r);
            }
            Inst::FNeg(t, d, a) => {
                let x = get(&fr.regs, a);
                let r = match (&x, self.ir.ti(*t).k.clone()) {
                    (Val::Agg(v), TyK::Vec(_, e)) => {
                        let w = self.ir.bits(e);
                        let mut r = vec![];
                        for y in v.iter() {
                            r.push(self.bin(BinOp::Xor, w, false, y, &mkc(1u128 << (w - 1), w))?);
                        }
                        Val::Agg(Rc::new(r))
                    }
                    _ => {
                        let w = self.ir.bits(*t);
                        self.bin(BinOp::Xor, w, false, &x, &mkc(1u128 << (w - 1), w))?
                    }
                };
                self.set(st, *d, r);
            }
            Inst::Select(t, d, c, a, b, vec) => {
                let cv = get(&fr.regs, c);
                let (x, y) = (get(&fr.regs, a), get(&fr.regs, b));
                let r = if *vec {
                    let (Val::Agg(cs), Val::Agg(xs), Val::Agg(ys)) = (&cv, &x, &y) else { return Err(Kill::Error("vselect".into())) };
                    let et = match self.ir.ti(*t).k {
                        TyK::Vec(_, e) => e,
                        _ => return Err(Kill::Error("vselect".into())),
                    };
                    let mut r = vec![];
                    for i in 0..cs.len() {
                        r.push(match &cs[i] {
                            Val::C(1) => xs[i].clone(),
                            Val::C(_) => ys[i].clone(),
                            Val::S(e) => self.ite(*e, &xs[i], &ys[i], et)?,
                            _ => return Err(Kill::Error("vselect".into())),
                        });
                    }
                    Val::Agg(Rc::new(r))
                } else {
                    match cv {
                        Val::C(1) => x,
                        Val::C(_) => y,
                        Val::S(e) => {
                            let e = self.subst(st, e);
                            match self.ar.is_c(e) {
                                Some(1) => x,
                                Some(_) => y,
                                None => {
                                    // pointers: decide by forking, so that addresses stay concrete
                                    let isptr = *t == self.ir.t_ptr;
                                    if isptr && !same(&x, &y) {
                                        let (tk, oth) = self.branch(st, e)?;
                                        if let Some(mut o) = oth {
                                            let v = if tk { y.clone() } else { x.clone() };
                                            self.set(&mut o, *d, v);
                                            self.push(o);
                                        }
                                        if tk {
                                            x
                                        } else {
                                            y
                                        }
                                    } else {
                                        self.ite(e, &x, &y, *t)?
                                    }
                                }
                            }
                        }
                        _ => return Err(Kill::Error("select".into())),
                    }
                };
                self.set(st, *d, r);
            }
            Inst::Cast(k, ft, tt, d, a) => {
                let x = get(&fr.regs, a);
                let r = self.cast(*k, *ft, *tt, &x)?;
                self.set(st, *d, r);
            }
            Inst::Load(t, d, p, _atomic) => {
                let a = get(&fr.regs, p);
                let v = match &a {
                    Val::C(c) => self.load(st, *t, *c)?,
                    _ => self.load_sym(st, *t, &a)?,
                };
                self.set(st, *d, v);
            }
            Inst::Store(t, v, p, _atomic) => {
                let a = get(&fr.regs, p);
                let v = get(&fr.regs, v);
                let a = self.addr_of(st, &a)?;
                self.store(st, *t, a, &v)?;
                st.threads[cur].stack.last_mut().unwrap().pc += 1;
            }
            Inst::Gep(d, base, off, dynv) => {
                let b = get(&fr.regs, base);
                if let Val::C(c) = b {
                    let mut c = c.wrapping_add(*off as u64);
                    let mut ok = true;
                    for (o, w, s) in dynv {
                        match get(&fr.regs, o) {
                            Val::C(x) => c = c.wrapping_add((sx(x as u128, *w) as i64).wrapping_mul(*s) as u64),
                            _ => {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if ok {
                        fr.regs[*d as usize] = Val::C(c);
                        fr.pc += 1;
                        return Ok(());
                    }
                }
                if matches!(b, Val::Agg(_)) {
                    return Err(Kill::Error("vector gep".into()));
                }
                let idx: Vec<(Val, u16, i64)> = dynv.iter().map(|(o, w, s)| (get(&fr.regs, o), *w, *s)).collect();
                let mut e = self.e(&b, 64);
                let oc = self.ar.cst(*off as u128, 64);
                e = self.ar.bin(Op::Add, e, oc);
                for (v, w, s) in idx {
                    let x = self.e(&v, w);
                    let x = if w < 64 { self.ar.sext(x, 64) } else { self.ar.trunc(x, 64) };
                    let sc = self.ar.cst(s as u128, 64);
                    let y = self.ar.bin(Op::Mul, x, sc);
                    e = self.ar.bin(Op::Add, e, y);
                }
                let r = self.val(e);
                self.set(st, *d, r);
            }
            Inst::Alloca(d, o) => {
                let v = Val::C(Mem::base(fr.obj) + *o);
                fr.regs[*d as usize] = v;
                fr.pc += 1;
            }
            Inst::AllocaDyn(d, sz, c, w) => {
                let c = get(&fr.regs, c);
                let n = self.concretize(st, &c, *w)? as u64;
                let a = st.mem.alloc((n * sz) as usize, false);
                st.threads[cur].stack.last_mut().unwrap().dynobjs.push((a >> 32) as u32);
                self.set(st, *d, Val::C(a));
            }
            Inst::Call(c) => return self.call(st, c),
            Inst::Br(e) => {
                self.jump(st, *e);
            }
            Inst::CondBr(c, a, b) => {
                let v = get(&fr.regs, c);
                match v {
                    Val::C(x) => {
                        let e = if x == 1 { *a } else { *b };
                        self.jump(st, e);
                    }
                    Val::S(e) => {
                        let (t, o) = self.branch(st, e)?;
                        if let Some(mut o) = o {
                            self.jump(&mut o, if t { *b } else { *a });
                            self.push(o);
                        }
                        self.jump(st, if t { *a } else { *b });
                    }
                    _ => return Err(Kill::Error("condbr".into())),
                }
            }
            Inst::Switch(c, w, d, cs) => {
                let v = get(&fr.regs, c);
                match Self::conc(&v) {
                    Some(x) => {
                        let e = cs.iter().find(|k| k.0 == x).map(|k| k.1).unwrap_or(*d);
                        self.jump(st, e);
                    }
                    None => {
                        let e = self.e(&v, *w);
                        let e = self.subst(st, e);
                        if let Some(x) = self.ar.is_c(e) {
                            let ed = cs.iter().find(|k| k.0 == x).map(|k| k.1).unwrap_or(*d);
                            self.jump(st, ed);
                            return Ok(());
                        }
                        // group the cases by target edge block
                        let x = self.eval_model(st, e);
                        let mut groups: Vec<(u32, E, bool)> = vec![]; // edge, cond, contains the model's value
                        let mut none = self.ar.cst(1, 1);
                        for (val, ed) in cs {
                            let c = self.ar.eqc(e, *val);
                            let nc = self.ar.not(c);
                            none = self.ar.and(none, nc);
                            let same = groups.iter().position(|g| f.edges[g.0 as usize].block == f.edges[*ed as usize].block && moves_eq(&f.edges[g.0 as usize], &f.edges[*ed as usize]));
                            match same {
                                Some(i) => {
                                    groups[i].1 = self.ar.or(groups[i].1, c);
                                    groups[i].2 |= *val == x;
                                }
                                None => groups.push((*ed, c, *val == x)),
                            }
                        }
                        let mine_default = !groups.iter().any(|g| g.2);
                        groups.push((*d, none, mine_default));
                        let mine = groups.iter().position(|g| g.2).unwrap();
                        for (i, g) in groups.iter().enumerate() {
                            if i == mine {
                                continue;
                            }
                            let (r, m) = self.feas(st, g.1);
                            match r {
                                Res::Sat => {
                                    self.note_fork(st);
                                    let mut o = st.clone();
                                    o.forks += 1;
                                    o.model = m.unwrap();
                                    self.add_pc(&mut o, g.1);
                                    self.jump(&mut o, g.0);
                                    self.push(o);
                                }
                                Res::Unsat => {}
                                Res::Unknown => return Err(Kill::Limit(format!("solver gave no answer (switch) at {}", self.site(st)))),
                            }
                        }
                        self.add_pc(st, groups[mine].1);
                        self.jump(st, groups[mine].0);
                    }
                }
            }
            Inst::Ret(o) => {
                let v = get(&fr.regs, o);
                self.pop_frame(st);
                if let Some(k) = self.ret_to_caller(st, v) {
                    return Err(k);
                }
            }
            Inst::RetVoid => {
                self.pop_frame(st);
                if let Some(k) = self.ret_to_caller(st, Val::C(0)) {
                    return Err(k);
                }
            }
            Inst::Unreachable => return Err(Kill::Violation("undefined-behaviour".into(), format!("unreachable code reached in {}", demangle(f.name)))),
            Inst::Extract(d, a, ix) => {
                let mut v = get(&fr.regs, a);
                for i in ix {
                    v = match &v {
                        Val::Agg(x) => x[*i as usize].clone(),
                        _ => return Err(Kill::Error("extractvalue of scalar".into())),
                    };
                }
                self.set(st, *d, v);
            }
            Inst::Insert(d, a, b, ix) => {
                let v = get(&fr.regs, a);
                let x = get(&fr.regs, b);
                let r = insert(v, x, ix);
                self.set(st, *d, r);
            }
            Inst::ExtElt(d, a, i) => {
                let v = get(&fr.regs, a);
                let i = get(&fr.regs, i);
                let (Val::Agg(x), Some(k)) = (&v, Self::conc(&i)) else { return Err(Kill::Error("extractelement".into())) };
                let r = x[k as usize].clone();
                self.set(st, *d, r);
            }
            Inst::InsElt(d, a, v, i) => {
                let a = get(&fr.regs, a);
                let v = get(&fr.regs, v);
                let i = get(&fr.regs, i);
                let Some(k) = Self::conc(&i) else { return Err(Kill::Error("insertelement".into())) };
                let r = insert(a, v, &[k as u32]);
                self.set(st, *d, r);
            }
            Inst::Shuffle(d, a, b, m, n) => {
                let (Val::Agg(x), Val::Agg(y)) = (get(&fr.regs, a), get(&fr.regs, b)) else { return Err(Kill::Error("shuffle".into())) };
                let r: Vec<Val> = m
                    .iter()
                    .map(|i| if *i < 0 { Val::C(0) } else if (*i as u32) < *n { x[*i as usize].clone() } else { y[(*i as u32 - *n) as usize].clone() })
                    .collect();
                self.set(st, *d, Val::Agg(Rc::new(r)));
            }
            Inst::Freeze(d, a) => {
                let v = get(&fr.regs, a);
                self.set(st, *d, v);
            }
            Inst::CmpXchg(t, d, p, a, b, acq) => {
                let (p, a, b) = (get(&fr.regs, p), get(&fr.regs, a), get(&fr.regs, b));
                if th.woken & 0x80 != 0 {
                    th.woken &= 0x7f;
                } else if *acq && f.sched && self.preempt_point(st) {
                    return Ok(());
                }
                let ad = self.addr_of(st, &p)?;
                let old = self.load(st, *t, ad)?;
                let w = self.ir.bits(*t);
                let eq = self.icmp(Pred::Eq, w, &old, &a);
                let eq = match eq {
                    Val::C(c) => c,
                    v => self.concretize(st, &v, 1)? as u64,
                };
                if eq == 1 {
                    self.store(st, *t, ad, &b)?;
                }
                self.set(st, *d, Val::Agg(Rc::new(vec![old, Val::C(eq)])));
            }
            Inst::Rmw(op, t, d, p, v) => {
                let (p, v) = (get(&fr.regs, p), get(&fr.regs, v));
                if th.woken & 0x80 != 0 {
                    th.woken &= 0x7f;
                } else if f.sched && *op != 1 && *op != 2 && self.preempt_point(st) {
                    return Ok(());
                }
                let ad = self.addr_of(st, &p)?;
                let old = self.load(st, *t, ad)?;
                let w = self.ir.bits(*t);
                let nv = match op {
                    0 => v,
                    1 => self.bin(BinOp::Add, w, false, &old, &v)?,
                    2 => self.bin(BinOp::Sub, w, false, &old, &v)?,
                    3 => self.bin(BinOp::And, w, false, &old, &v)?,
                    4 => {
                        let x = self.bin(BinOp::And, w, false, &old, &v)?;
                        self.bin(BinOp::Xor, w, false, &x, &mkc(mask(w), w))?
                    }
                    5 => self.bin(BinOp::Or, w, false, &old, &v)?,
                    6 => self.bin(BinOp::Xor, w, false, &old, &v)?,
                    _ => {
                        let pr = match op {
                            7 => Pred::Sgt,
                            8 => Pred::Slt,
                            9 => Pred::Ugt,
                            _ => Pred::Ult,
                        };
                        let c = self.icmp(pr, w, &old, &v);
                        match c {
                            Val::C(1) => old.clone(),
                            Val::C(_) => v,
                            Val::S(e) => self.ite(e, &old, &v, *t)?,
                            _ => return Err(Kill::Error("rmw".into())),
                        }
                    }
                };
                self.store(st, *t, ad, &nv)?;
                self.set(st, *d, old);
            }
            Inst::LandingPad(d) => {
                let e = th.exc;
                let v = Val::Agg(Rc::new(vec![Val::C(e), Val::C(1)]));
                self.set(st, *d, v);
            }
            Inst::Resume(v) => {
                let v = get(&fr.regs, v);
                let ex = match &v {
                    Val::Agg(x) => Self::conc(&x[0]).unwrap_or(0) as u64,
                    _ => 0,
                };
                match self.unwind(st, ex) {
                    Act::Kill(k) => return Err(k),
                    _ => {}
                }
            }
            Inst::Nop => fr.pc += 1,
        }
        Ok(())
    }
    fn call(&mut self, st: &mut State, c: &Rc<CallI>) -> Result<(), Kill> {
        let cur = st.cur;
        let fr = st.threads[cur].stack.last_mut().unwrap();
        let module = fr.f.module;
        let args: Vec<Val> = c.args.iter().map(|(o, _)| get(&fr.regs, o)).collect();
        let t = match &c.callee {
            Callee::Direct(n) => {
                let cached = c.cache.borrow().clone();
                match cached {
                    Some(t) => t,
                    None => {
                        let t = self.target(module, n);
                        *c.cache.borrow_mut() = Some(t);
                        t
                    }
                }
            }
            Callee::Ind(o) => {
                let v = get(&fr.regs, o);
                let a = self.addr_of(st, &v)?;
                match self.fn_at(a, args.len()) {
                    Some(t) => t,
                    None => return Err(Kill::Violation("memory-safety".into(), format!("call through bad function pointer {:#x}", a))),
                }
            }
            Callee::Asm(a) => {
                let v = builtins::inline_asm(self, st, a, &args, c)?;
                return self.finish(st, c, Act::V(v));
            }
        };
        match t {
            Target::F(f) => {
                if self.opts.trace {
                    eprintln!("{}{}{} {}", " ".repeat(st.threads[cur].stack.len()), if cur > 0 { format!("[t{}]", cur) } else { String::new() }, demangle(f.name), args.iter().map(|v| self.vshow(v)).collect::<Vec<_>>().join(","));
                }
                if st.threads[cur].stack.len() > 2000 {
                    return Err(Kill::Violation("stack-overflow".into(), format!("call depth > 2000 in {}", demangle(f.name))));
                }
                self.push_frame(st, f, &args);
                if self.opts.verbose {
                    *self.prof.entry(f.id).or_insert(0) += 1;
                }
                Ok(())
            }
            Target::B(b) => {
                let a = b(self, st, &args, c);
                self.finish(st, c, a)
            }
            Target::BF(b, f) => {
                let a = b(self, st, &args, c, f);
                self.finish(st, c, a)
            }
            Target::Unknown(n) => Err(Kill::Error(format!("unmodelled external function {}", String::from_utf8_lossy(n)))),
        }
    }
    fn finish(&mut self, st: &mut State, c: &Rc<CallI>, a: Act) -> Result<(), Kill> {
        match a {
            Act::V(v) => self.adv(st, c, v),
            Act::Void => self.adv(st, c, Val::C(0)),
            Act::Moved => {}
            Act::Yield(v) => {
                self.adv(st, c, v);
                if let Some(k) = self.reschedule(st, false) {
                    return Err(k);
                }
            }
            Act::Block => {
                if let Some(k) = self.reschedule(st, true) {
                    return Err(k);
                }
            }
            Act::Kill(k) => return Err(k),
        }
        Ok(())
    }
    pub fn adv(&mut self, st: &mut State, c: &CallI, v: Val) {
        let fr = st.threads[st.cur].stack.last_mut().unwrap();
        if c.dst != u32::MAX {
            fr.regs[c.dst as usize] = v;
        }
        match c.invoke {
            Some((n, _)) => self.jump(st, n),
            None => fr.pc += 1,
        }
    }
    pub fn vshow(&self, v: &Val) -> String {
        match v {
            Val::C(c) => format!("{:#x}", c),
            Val::Big(b) => format!("{:#x}", **b),
            Val::S(e) => self.ar.show(*e, 3),
            Val::Agg(x) => format!("{{{}}}", x.iter().map(|y| self.vshow(y)).collect::<Vec<_>>().join(",")),
        }
    }
}

fn moves_eq(a: &Edge, b: &Edge) -> bool {
    a.moves.len() == b.moves.len()
        && a.moves.iter().zip(&b.moves).all(|(x, y)| {
            x.0 == y.0
                && match (&x.1, &y.1) {
                    (Opd::R(p), Opd::R(q)) => p == q,
                    (Opd::K(Val::C(p)), Opd::K(Val::C(q))) => p == q,
                    _ => false,
                }
        })
}
fn same(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::C(x), Val::C(y)) => x == y,
        (Val::S(x), Val::S(y)) => x == y,
        _ => false,
    }
}
fn insert(v: Val, x: Val, ix: &[u32]) -> Val {
    if ix.is_empty() {
        return x;
    }
    match v {
        Val::Agg(mut r) => {
            let m = Rc::make_mut(&mut r);
            let old = std::mem::replace(&mut m[ix[0] as usize], Val::C(0));
            m[ix[0] as usize] = insert(old, x, &ix[1..]);
            Val::Agg(r)
        }
        o => o,
    }
}
pub fn new_thread() -> Thread {
    Thread { stack: vec![], stat: TStat::Run, tls: Default::default(), pool: vec![], ret: Val::C(0), woken: 0, detached: false, errno: 0, exc: 0, rsv: Default::default() }
}

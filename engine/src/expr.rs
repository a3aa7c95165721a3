//! Hash-consed bit-vector expression DAG with a local simplifier and a concrete evaluator.
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    #[inline]
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = 0u64;
            for (i, v) in c.iter().enumerate() {
                x |= (*v as u64) << (8 * i);
            }
            self.write_u64(x);
        }
    }
    #[inline]
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    #[inline]
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    #[inline]
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    #[inline]
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    #[inline]
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    #[inline]
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

/// expression id; 0 is reserved ("no expression")
pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, // a = const pool idx
    Var,   // a = var idx
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,  // a = high, b = low
    Extract, // a, b = low bit; width = w
    ZExt,
    SExt,
    Table, // a = table idx, b = index expr (element width w)
    // floating point on bit patterns; operand width gives the format
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    FSqrt,
    FLt,
    FLe,
    FEq,
    FIsNan,
    FRound, // b = mode: 0 floor 1 ceil 2 trunc 3 round-away 4 rint
    FCvt,   // f32<->f64, width = target
    FToSI,  // saturating, NaN -> 0
    FToUI,
    SIToF,
    UIToF,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    /// an upper bound of each node as an unsigned number
    his: Vec<u128>,
    map: FxMap<Node, E>,
    pub consts: Vec<u128>,
    cmap: FxMap<u128, u32>,
    pub vars: Vec<(String, u16)>,
    pub var_e: Vec<E>,
    pub tables: Vec<std::rc::Rc<Vec<u128>>>,
    tmap: HashMap<(Vec<u128>, u16), u32>,
    varsets: FxMap<E, std::rc::Rc<Vec<u32>>>,
    pub hasfp: FxMap<E, bool>,
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub fn f64b(v: u128) -> f64 {
    f64::from_bits(v as u64)
}
pub fn f32b(v: u128) -> f32 {
    f32::from_bits(v as u32)
}

pub fn feval(op: Op, w: u16, ow: u16, a: u128, b: u128, m: u32) -> u128 {
    // w result width, ow operand width
    fn r64(x: f64) -> u128 {
        if x.is_nan() {
            0x7ff8000000000000
        } else {
            x.to_bits() as u128
        }
    }
    fn r32(x: f32) -> u128 {
        if x.is_nan() {
            0x7fc00000
        } else {
            x.to_bits() as u128
        }
    }
    macro_rules! bin {
        ($f64:expr,$f32:expr) => {
            if ow == 64 {
                r64($f64(f64b(a), f64b(b)))
            } else {
                r32($f32(f32b(a), f32b(b)))
            }
        };
    }
    macro_rules! cmp {
        ($o:tt) => {
            (if ow == 64 { f64b(a) $o f64b(b) } else { f32b(a) $o f32b(b) }) as u128
        };
    }
    match op {
        Op::FAdd => bin!(|x: f64, y: f64| x + y, |x: f32, y: f32| x + y),
        Op::FSub => bin!(|x: f64, y: f64| x - y, |x: f32, y: f32| x - y),
        Op::FMul => bin!(|x: f64, y: f64| x * y, |x: f32, y: f32| x * y),
        Op::FDiv => bin!(|x: f64, y: f64| x / y, |x: f32, y: f32| x / y),
        Op::FRem => bin!(|x: f64, y: f64| x % y, |x: f32, y: f32| x % y),
        Op::FSqrt => {
            if ow == 64 {
                r64(f64b(a).sqrt())
            } else {
                r32(f32b(a).sqrt())
            }
        }
        Op::FLt => cmp!(<),
        Op::FLe => cmp!(<=),
        Op::FEq => cmp!(==),
        Op::FIsNan => {
            (if ow == 64 {
                f64b(a).is_nan()
            } else {
                f32b(a).is_nan()
            }) as u128
        }
        Op::FRound => {
            if ow == 64 {
                let x = f64b(a);
                r64(match m {
                    0 => x.floor(),
                    1 => x.ceil(),
                    2 => x.trunc(),
                    3 => x.round(),
                    _ => x.round_ties_even(),
                })
            } else {
                let x = f32b(a);
                r32(match m {
                    0 => x.floor(),
                    1 => x.ceil(),
                    2 => x.trunc(),
                    3 => x.round(),
                    _ => x.round_ties_even(),
                })
            }
        }
        Op::FCvt => {
            if ow == 64 && w == 32 {
                r32(f64b(a) as f32)
            } else if ow == 32 && w == 64 {
                r64(f32b(a) as f64)
            } else {
                a
            }
        }
        Op::FToSI => {
            let x = if ow == 64 { f64b(a) } else { f32b(a) as f64 };
            if w == 128 {
                (x as i128) as u128
            } else {
                let lo = -(1i128 << (w - 1));
                let hi = (1i128 << (w - 1)) - 1;
                let v = if x.is_nan() { 0 } else { (x as i128).clamp(lo, hi) };
                (v as u128) & mask(w)
            }
        }
        Op::FToUI => {
            let x = if ow == 64 { f64b(a) } else { f32b(a) as f64 };
            (x as u128).min(mask(w))
        }
        Op::SIToF => {
            let v = sx(a, ow);
            if w == 64 {
                r64(v as f64)
            } else {
                r32(v as f32)
            }
        }
        Op::UIToF => {
            if w == 64 {
                r64(a as f64)
            } else {
                r32(a as f32)
            }
        }
        _ => unreachable!(),
    }
}

pub fn ceval(op: Op, w: u16, ow: u16, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                (if x >= 0 { m } else { 1 }) & m
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sx(a, w);
            ((if b >= w as u128 { x >> 127 } else { x >> b }) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, ow) < sx(b, ow)) as u128,
        Op::Sle => (sx(a, ow) <= sx(b, ow)) as u128,
        _ => unreachable!(),
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            his: vec![0],
            map: Default::default(),
            consts: vec![],
            cmap: Default::default(),
            vars: vec![],
            var_e: vec![],
            tables: vec![],
            tmap: Default::default(),
            varsets: Default::default(),
            hasfp: Default::default(),
        };
        // id 0: dummy
        a.nodes.push(Node { op: Op::Const, w: 0, a: u32::MAX, b: 0, c: 0 });
        a
    }
    #[inline]
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    fn mk(&mut self, op: Op, w: u16, a: u32, b: u32, c: u32) -> E {
        let n = Node { op, w, a, b, c };
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let e = self.nodes.len() as u32;
        let h = self.bound(&n);
        self.nodes.push(n);
        self.his.push(h);
        self.map.insert(n, e);
        e
    }
    #[inline]
    pub fn hi(&self, e: E) -> u128 {
        self.his[e as usize]
    }
    /// the upper bound of a node from those of its operands
    /// k, if the difference is x - x % k
    fn below(&self, n: &Node) -> Option<u128> {
        let narrow = |e: E| {
            let n = self.n(e);
            let n = if n.op == Op::ZExt { self.n(n.a) } else { n };
            (n.op == Op::URem).then_some(n)
        };
        let r = narrow(n.b)?;
        let k = self.is_c(r.b).filter(|k| *k > 0)?;
        let low = self.n(r.a);
        let same = r.a == n.a || low.op == Op::Extract && low.b == 0 && (low.a == n.a || self.low(n.a, r.a));
        (same && self.hi(n.a) <= mask(low.w)).then_some(k)
    }
    /// whether `x` is `e` in more bits
    fn low(&self, e: E, x: E) -> bool {
        let (n, m) = (self.n(e), self.n(x));
        match n.op {
            Op::ZExt => n.a == x || self.low(n.a, x),
            // both the low bits of the same
            Op::Extract => m.op == Op::Extract && n.a == m.a && n.b == m.b,
            Op::Concat => {
                // parts of the same value put back together
                let parts = |e: E| {
                    let n = self.n(e);
                    let n = if n.op == Op::ZExt { self.n(n.a) } else { n };
                    (n.op == Op::Extract).then_some((n.a, n.b, n.w as u32))
                };
                match (parts(n.a), parts(n.b)) {
                    (Some((v, at, w)), Some((u, lo, k))) => m.op == Op::Extract && v == u && u == m.a && lo == m.b && at == lo + k && w + k == m.w as u32,
                    _ => false,
                }
            }
            _ => false,
        }
    }
    fn bound(&self, n: &Node) -> u128 {
        let m = mask(n.w);
        let fit = |v: Option<u128>| v.filter(|v| *v <= m).unwrap_or(m);
        match n.op {
            Op::Const => self.consts[n.a as usize],
            Op::Add => fit(self.hi(n.a).checked_add(self.hi(n.b))),
            Op::Mul => fit(self.hi(n.a).checked_mul(self.hi(n.b))),
            Op::UDiv => match self.is_c(n.b) {
                Some(c) if c > 0 => self.hi(n.a) / c,
                _ => m,
            },
            Op::URem => match self.is_c(n.b) {
                Some(c) if c > 0 => self.hi(n.a).min(c - 1),
                _ => m,
            },
            Op::Sub if self.below(n).is_some() => self.hi(n.a),
            Op::And => self.hi(n.a).min(self.hi(n.b)),
            Op::Or | Op::Xor => mask((128 - self.hi(n.a).max(self.hi(n.b)).leading_zeros()) as u16),
            Op::LShr => match self.is_c(n.b) {
                Some(c) if c < n.w as u128 => self.hi(n.a) >> c,
                _ => self.hi(n.a),
            },
            Op::Ite => self.hi(n.b).max(self.hi(n.c)),
            Op::ZExt => self.hi(n.a),
            Op::SExt => {
                let (h, w) = (self.hi(n.a), self.w(n.a));
                if h <= mask(w - 1) { h } else { m }
            }
            Op::Concat => {
                let w = self.w(n.b);
                match self.hi(n.a) {
                    0 => self.hi(n.b),
                    h => (h << w) | mask(w),
                }
            }
            Op::Extract => fit(Some(self.hi(n.a) >> n.b)),
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => m,
        }
    }
    /// `a` over and modulo the constant `c`, if its parts say it
    fn divide(&mut self, a: E, c: u128, rem: bool) -> Option<E> {
        let w = self.w(a);
        let h = self.hi(a);
        if h < c {
            return Some(if rem { a } else { self.cst(0, w) });
        }
        let n = self.n(a);
        if n.op == Op::ZExt {
            let cc = self.cst(c, self.w(n.a));
            let x = self.bin(if rem { Op::URem } else { Op::UDiv }, n.a, cc);
            return Some(self.zext(x, w));
        }
        if let (false, Op::UDiv) = (rem, n.op) {
            if let Some(v) = self.is_c(n.b).filter(|d| *d > 0).and_then(|d| d.checked_mul(c)) {
                if v <= mask(w) {
                    let v = self.cst(v, w);
                    return Some(self.bin(Op::UDiv, n.a, v));
                }
            }
        }
        // a multiple of c, as quotient
        let multiple = |s: &mut Self, e: E| -> Option<(E, u128)> {
            let n = s.n(e);
            if n.op == Op::Sub {
                // x - x % k = x / k * k
                let k = s.below(&n)?;
                if k % c != 0 {
                    return None;
                }
                let kk = s.cst(k, w);
                return Some((s.bin(Op::UDiv, n.a, kk), k / c));
            }
            let k = if n.op == Op::Mul { s.is_c(n.b)? } else { return None };
            (k % c == 0 && s.hi(n.a).checked_mul(k)? <= mask(w)).then_some((n.a, k / c))
        };
        if let Some((e, k)) = multiple(self, a) {
            let k = self.cst(k, w);
            return Some(if rem { self.cst(0, w) } else { self.bin(Op::Mul, e, k) });
        }
        if n.op == Op::Add && self.hi(n.a).checked_add(self.hi(n.b)).is_some_and(|v| v <= mask(w)) {
            for (x, y) in [(n.a, n.b), (n.b, n.a)] {
                if let Some(v) = self.is_c(x) {
                    if v < c {
                        continue;
                    }
                    let r = self.cst(v % c, w);
                    let y = self.bin(Op::Add, y, r);
                    let cc = self.cst(c, w);
                    if rem {
                        return Some(self.bin(Op::URem, y, cc));
                    }
                    let d = self.bin(Op::UDiv, y, cc);
                    let q = self.cst(v / c, w);
                    return Some(self.bin(Op::Add, d, q));
                }
                if let Some((e, k)) = multiple(self, x) {
                    let cc = self.cst(c, w);
                    if rem {
                        return Some(self.bin(Op::URem, y, cc));
                    }
                    let d = self.bin(Op::UDiv, y, cc);
                    let k = self.cst(k, w);
                    let e = self.bin(Op::Mul, e, k);
                    return Some(self.bin(Op::Add, e, d));
                }
            }
            // a sum with a small constant: move the constant out of the way
            if let (Some(v), Op::Add) = (self.is_c(n.b), self.n(n.a).op) {
                let m = self.n(n.a);
                for (x, y) in [(m.a, m.b), (m.b, m.a)] {
                    if let Some((e, k)) = multiple(self, x) {
                        let v = self.cst(v, w);
                        let y = self.bin(Op::Add, y, v);
                        let cc = self.cst(c, w);
                        if rem {
                            return Some(self.bin(Op::URem, y, cc));
                        }
                        let d = self.bin(Op::UDiv, y, cc);
                        let k = self.cst(k, w);
                        let e = self.bin(Op::Mul, e, k);
                        return Some(self.bin(Op::Add, e, d));
                    }
                }
            }
        }
        if c > 3 && h / c <= 3 {
            let mut r = if rem { a } else { self.cst(0, w) };
            for q in 1..=h / c {
                let at = self.cst(q * c, w);
                let below = self.bin(Op::Ult, a, at);
                let v = if rem {
                    self.bin(Op::Sub, a, at)
                } else {
                    self.cst(q, w)
                };
                r = self.ite(below, r, v);
            }
            return Some(r);
        }
        // in as few bits as the operand needs
        let k = 128 - h.leading_zeros() as u16;
        if k < w {
            let x = self.trunc(a, k);
            let cc = self.cst(c, k);
            let x = self.bin(if rem { Op::URem } else { Op::UDiv }, x, cc);
            return Some(self.zext(x, w));
        }
        None
    }
    pub fn cst(&mut self, v: u128, w: u16) -> E {
        let v = v & mask(w);
        let ci = match self.cmap.get(&v) {
            Some(i) => *i,
            None => {
                let i = self.consts.len() as u32;
                self.consts.push(v);
                self.cmap.insert(v, i);
                i
            }
        };
        self.mk(Op::Const, w, ci, 0, 0)
    }
    #[inline]
    /// constant, or a choice between two constants
    fn ite_c(&self, x: E) -> bool {
        let c = |y: E| self.is_c(y).is_some();
        let n = self.n(x);
        c(x) || (n.op == Op::Ite && c(n.b) && c(n.c))
    }
    pub fn is_c(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(self.consts[n.a as usize])
        } else {
            None
        }
    }
    pub fn var(&mut self, name: String, w: u16) -> E {
        let i = self.vars.len() as u32;
        self.vars.push((name, w));
        let e = self.mk(Op::Var, w, i, 0, 0);
        self.var_e.push(e);
        e
    }
    pub fn tru(&mut self) -> E {
        self.cst(1, 1)
    }
    pub fn not(&mut self, e: E) -> E {
        // boolean not (w = 1)
        let one = self.cst(1, 1);
        self.bin(Op::Xor, e, one)
    }
    fn as_not(&self, e: E) -> Option<E> {
        let n = self.n(e);
        if n.op == Op::Xor && n.w == 1 && self.is_c(n.b) == Some(1) {
            Some(n.a)
        } else {
            None
        }
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Op::Eq, a, b)
    }
    pub fn eqc(&mut self, a: E, v: u128) -> E {
        let w = self.w(a);
        let c = self.cst(v, w);
        self.bin(Op::Eq, a, c)
    }
    pub fn zext(&mut self, e: E, w: u16) -> E {
        let n = self.n(e);
        if n.w == w {
            return e;
        }
        debug_assert!(n.w < w);
        if let Some(v) = self.is_c(e) {
            return self.cst(v, w);
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Ite && self.ite_c(n.b) && self.ite_c(n.c) {
            let x = self.zext(n.b, w);
            let y = self.zext(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.mk(Op::ZExt, w, e, 0, 0)
    }
    pub fn sext(&mut self, e: E, w: u16) -> E {
        let n = self.n(e);
        if n.w == w {
            return e;
        }
        if let Some(v) = self.is_c(e) {
            return self.cst(sx(v, n.w) as u128, w);
        }
        if n.op == Op::SExt {
            return self.sext(n.a, w);
        }
        if n.op == Op::ZExt {
            return self.zext(n.a, w);
        }
        if n.op == Op::Ite && self.ite_c(n.b) && self.ite_c(n.c) {
            let x = self.sext(n.b, w);
            let y = self.sext(n.c, w);
            return self.ite(n.a, x, y);
        }
        self.mk(Op::SExt, w, e, 0, 0)
    }
    pub fn trunc(&mut self, e: E, w: u16) -> E {
        self.extract(e, 0, w)
    }
    pub fn extract(&mut self, e: E, lo: u16, w: u16) -> E {
        let n = self.n(e);
        if lo == 0 && n.w == w {
            return e;
        }
        debug_assert!(lo + w <= n.w, "extract {} {} of {}", lo, w, n.w);
        if let Some(v) = self.is_c(e) {
            return self.cst(v >> lo, w);
        }
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.b as u16, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, lo + w - lw);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.cst(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    return self.sext(x, w);
                }
                let x = self.extract(n.a, iw - 1, 1);
                return self.sext(x, w);
            }
            Op::And | Op::Or | Op::Xor => {
                let a = self.extract(n.a, lo, w);
                let b = self.extract(n.b, lo, w);
                return self.bin(n.op, a, b);
            }
            Op::Ite => {
                let cb = self.is_c(n.b).is_some();
                let cc = self.is_c(n.c).is_some();
                if cb || cc {
                    let a = self.extract(n.b, lo, w);
                    let b = self.extract(n.c, lo, w);
                    return self.ite(n.a, a, b);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 && (self.is_c(n.b).is_some() || self.is_narrow(n.a, w) && self.is_narrow(n.b, w)) => {
                let a = self.extract(n.a, 0, w);
                let b = self.extract(n.b, 0, w);
                return self.bin(n.op, a, b);
            }
            _ => {}
        }
        self.mk(Op::Extract, w, e, lo as u32, 0)
    }
    fn is_narrow(&self, e: E, w: u16) -> bool {
        let n = self.n(e);
        matches!(n.op, Op::ZExt | Op::SExt) && self.w(n.a) <= w || n.op == Op::Const
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hn, ln) = (self.n(h), self.n(l));
        let w = hn.w + ln.w;
        if let (Some(x), Some(y)) = (self.is_c(h), self.is_c(l)) {
            if w <= 128 {
                return self.cst((x << ln.w) | y, w);
            }
        }
        if self.is_c(h) == Some(0) {
            return self.zext(l, w);
        }
        if hn.op == Op::Extract && ln.op == Op::Extract && hn.a == ln.a && hn.b == ln.b + ln.w as u32 {
            return self.extract(hn.a, ln.b as u16, w);
        }
        // the low part of x may have been simplified on its own
        let arith = |op| matches!(op, Op::Add | Op::Sub | Op::Mul | Op::And | Op::Or | Op::Xor);
        if hn.op == Op::Extract
            && hn.b >= ln.w as u32
            && (arith(ln.op) || matches!(ln.op, Op::Concat | Op::ZExt) || arith(self.n(hn.a).op) && matches!(ln.op, Op::Extract | Op::Var))
        {
            let lo = hn.b as u16 - ln.w;
            if self.extract(hn.a, lo, ln.w) == l {
                return self.extract(hn.a, lo, w);
            }
        }
        // (concat (extract x) (concat (extract x') rest))
        if ln.op == Op::Concat {
            let ah = self.n(ln.a);
            if hn.op == Op::Extract && ah.op == Op::Extract && hn.a == ah.a && hn.b == ah.b + ah.w as u32 {
                let x = self.extract(hn.a, ah.b as u16, hn.w + ah.w);
                return self.concat(x, ln.b);
            }
            if self.is_c(h).is_some() && self.is_c(ln.a).is_some() {
                let x = self.concat(h, ln.a);
                return self.concat(x, ln.b);
            }
        }
        // SExt/ZExt split and re-joined
        if hn.op == Op::Extract && hn.a == l && hn.b == 0 && hn.w == ln.w {
            // not a merge
        }
        if hn.op == Op::Concat {
            // right associate
            let x = self.concat(hn.b, l);
            return self.concat(hn.a, x);
        }
        if ln.op == Op::ZExt {
            // keep as concat of concrete zero middle
            let iw = self.w(ln.a);
            let z = self.cst(0, ln.w - iw);
            let hz = self.concat(h, z);
            if self.n(hz).op != Op::Concat || self.is_c(hz).is_some() {
                return self.concat(hz, ln.a);
            }
            let inner = self.mk(Op::Concat, ln.w, z, ln.a, 0);
            return self.mk(Op::Concat, w, h, inner, 0);
        }
        self.mk(Op::Concat, w, h, l, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.is_c(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Some(x) = self.as_not(c) {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.is_c(a), self.is_c(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, a);
                }
                _ => {}
            }
        }
        let (an, bn) = (self.n(a), self.n(b));
        if an.op == Op::Ite && an.a == c {
            return self.ite(c, an.b, b);
        }
        if bn.op == Op::Ite && bn.a == c {
            return self.ite(c, a, bn.c);
        }
        self.mk(Op::Ite, w, c, a, b)
    }
    pub fn table(&mut self, t: Vec<u128>, w: u16, idx: E) -> E {
        if let Some(v) = self.is_c(idx) {
            return self.cst(t[v as usize], w);
        }
        let key = (t, w);
        let ti = match self.tmap.get(&key) {
            Some(t) => *t,
            None => {
                let i = self.tables.len() as u32;
                self.tables.push(std::rc::Rc::new(key.0.clone()));
                self.tmap.insert(key, i);
                i
            }
        };
        self.mk(Op::Table, w, ti, idx, 0)
    }
    pub fn fop(&mut self, op: Op, w: u16, a: E, b: E) -> E {
        // FRound: b is the mode, not an expression
        let ow = self.w(a);
        if op == Op::FRound {
            if let Some(x) = self.is_c(a) {
                let v = feval(op, w, ow, x, 0, b);
                return self.cst(v, w);
            }
            return self.mk(op, w, a, b, 0);
        }
        if let Some(x) = self.is_c(a) {
            if b == 0 {
                let v = feval(op, w, ow, x, 0, 0);
                return self.cst(v, w);
            }
            if let Some(y) = self.is_c(b) {
                let v = feval(op, w, ow, x, y, 0);
                return self.cst(v, w);
            }
        }
        self.mk(op, w, a, b, 0)
    }
    /// number of leading bits known to be zero
    fn lz(&self, e: E) -> u16 {
        let n = self.n(e);
        match n.op {
            Op::Const => {
                let v = self.consts[n.a as usize];
                n.w - (128 - v.leading_zeros() as u16)
            }
            Op::ZExt => n.w - self.w(n.a) + self.lz(n.a),
            Op::Concat => {
                let h = self.lz(n.a);
                if h == self.w(n.a) {
                    h + self.lz(n.b)
                } else {
                    h
                }
            }
            Op::And => self.lz(n.a).max(self.lz(n.b)),
            Op::Or | Op::Xor => self.lz(n.a).min(self.lz(n.b)),
            Op::Ite => {
                if self.nodes.len() > 0 {
                    let x = self.n(n.b);
                    let y = self.n(n.c);
                    if matches!(x.op, Op::Const | Op::ZExt) && matches!(y.op, Op::Const | Op::ZExt) {
                        return self.lz(n.b).min(self.lz(n.c));
                    }
                }
                0
            }
            Op::Add | Op::Mul | Op::UDiv | Op::URem => n.w - (128 - self.hi(e).leading_zeros() as u16),
            _ => 0,
        }
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        let (ca, cb) = (self.is_c(a), self.is_c(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = ceval(op, rw, w, x, y);
            return self.cst(v, rw);
        }
        let m = mask(w);
        // constants to the right for commutative ops
        if ca.is_some() && matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            return self.bin(op, b, a);
        }
        let (an, bn) = (self.n(a), self.n(b));
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                if let Some(c2) = cb {
                    if an.op == Op::Add {
                        if let Some(c1) = self.is_c(an.b) {
                            let c = self.cst(c1.wrapping_add(c2), w);
                            return self.bin(Op::Add, an.a, c);
                        }
                    }
                    if an.op == Op::Sub {
                        if let Some(c1) = self.is_c(an.a) {
                            let c = self.cst(c1.wrapping_add(c2), w);
                            return self.bin(Op::Sub, c, an.b);
                        }
                    }
                    if an.op == Op::Ite && self.ite_c(an.b) && self.ite_c(an.c) {
                        let x = self.bin(Op::Add, an.b, b);
                        let y = self.bin(Op::Add, an.c, b);
                        return self.ite(an.a, x, y);
                    }
                } else {
                    // pull constants out
                    if an.op == Op::Add && self.is_c(an.b).is_some() {
                        let x = self.bin(Op::Add, an.a, b);
                        return self.bin(Op::Add, x, an.b);
                    }
                    if bn.op == Op::Add && self.is_c(bn.b).is_some() {
                        let x = self.bin(Op::Add, a, bn.a);
                        return self.bin(Op::Add, x, bn.b);
                    }
                    // (x - y) + y
                    if an.op == Op::Sub && an.b == b {
                        return an.a;
                    }
                    if bn.op == Op::Sub && bn.b == a {
                        return bn.a;
                    }
                    if a > b {
                        return self.mk(op, w, b, a, 0);
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.cst(0, w);
                }
                if w == 1 {
                    return self.bin(Op::Xor, a, b);
                }
                if let Some(c) = cb {
                    let nc = self.cst(c.wrapping_neg(), w);
                    return self.bin(Op::Add, a, nc);
                }
                if an.op == Op::Add {
                    if an.a == b {
                        return an.b;
                    }
                    if an.b == b {
                        return an.a;
                    }
                    if self.is_c(an.b).is_some() {
                        let x = self.bin(Op::Sub, an.a, b);
                        return self.bin(Op::Add, x, an.b);
                    }
                }
                if bn.op == Op::Add {
                    if let Some(c) = self.is_c(bn.b) {
                        let x = self.bin(Op::Sub, a, bn.a);
                        let nc = self.cst(c.wrapping_neg(), w);
                        return self.bin(Op::Add, x, nc);
                    }
                }
            }
            Op::Mul => {
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    if c == 1 {
                        return a;
                    }
                    if c.is_power_of_two() {
                        let s = self.cst(c.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, s);
                    }
                    if an.op == Op::Ite && self.ite_c(an.b) && self.ite_c(an.c) {
                        let x = self.bin(Op::Mul, an.b, b);
                        let y = self.bin(Op::Mul, an.c, b);
                        return self.ite(an.a, x, y);
                    }
                } else if a > b {
                    return self.mk(op, w, b, a, 0);
                }
            }
            Op::UDiv => {
                if let Some(c) = cb {
                    if c == 1 {
                        return a;
                    }
                    if c.is_power_of_two() {
                        let s = self.cst(c.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, s);
                    }
                    if c > 0 {
                        if let Some(r) = self.divide(a, c, false) {
                            return r;
                        }
                    }
                    let lz = self.lz(a);
                    if lz > 0 && lz < w && c != 0 {
                        // narrow
                        let nw = (w - lz).max(1);
                        if c > mask(nw) {
                            return self.cst(0, w);
                        }
                        let x = self.extract(a, 0, nw);
                        let cc = self.cst(c, nw);
                        let d = self.bin(Op::UDiv, x, cc);
                        return self.zext(d, w);
                    }
                }
            }
            Op::URem => {
                if let Some(c) = cb {
                    if c == 1 {
                        return self.cst(0, w);
                    }
                    if c.is_power_of_two() {
                        let s = self.cst(c - 1, w);
                        return self.bin(Op::And, a, s);
                    }
                    if c > 0 {
                        if let Some(r) = self.divide(a, c, true) {
                            return r;
                        }
                    }
                    let lz = self.lz(a);
                    if lz > 0 && lz < w && c != 0 {
                        let nw = (w - lz).max(1);
                        if c > mask(nw) {
                            return a;
                        }
                        let x = self.extract(a, 0, nw);
                        let cc = self.cst(c, nw);
                        let d = self.bin(Op::URem, x, cc);
                        return self.zext(d, w);
                    }
                }
            }
            Op::SDiv | Op::SRem => {
                if cb == Some(1) && op == Op::SDiv {
                    return a;
                }
                if cb.is_some_and(|c| c > 0 && c <= m >> 1) && self.hi(a) <= m >> 1 {
                    return self.bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b);
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    if c == m {
                        return a;
                    }
                    // low mask
                    if (c & (c + 1)) == 0 {
                        let k = (128 - c.leading_zeros()) as u16;
                        let x = self.extract(a, 0, k);
                        return self.zext(x, w);
                    }
                    // contiguous mask in the middle / top
                    let tz = c.trailing_zeros() as u16;
                    let s = c >> tz;
                    if (s & (s + 1)) == 0 && tz > 0 {
                        let k = (128 - s.leading_zeros()) as u16;
                        let x = self.extract(a, tz, k);
                        let z = self.cst(0, tz);
                        let x = self.concat(x, z);
                        return self.zext(x, w);
                    }
                    if an.op == Op::And {
                        if let Some(c1) = self.is_c(an.b) {
                            let cc = self.cst(c & c1, w);
                            return self.bin(Op::And, an.a, cc);
                        }
                    }
                } else {
                    if w == 1 {
                        if self.as_not(a) == Some(b) || self.as_not(b) == Some(a) {
                            return self.cst(0, 1);
                        }
                    }
                    if an.op == Op::And && (an.a == b || an.b == b) {
                        return a;
                    }
                    if bn.op == Op::And && (bn.a == a || bn.b == a) {
                        return b;
                    }
                    if a > b {
                        return self.mk(op, w, b, a, 0);
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c == m {
                        return b;
                    }
                }
                if w == 1 && (self.as_not(a) == Some(b) || self.as_not(b) == Some(a)) {
                    return self.cst(1, 1);
                }
                // disjoint: (hi : 0^k) | zext(lo)
                if w > 1 {
                    for (x, y) in [(a, b), (b, a)] {
                        let tz = self.tz(x);
                        if tz > 0 && tz < w {
                            let lz = self.lz(y);
                            if w - lz <= tz {
                                let hi = self.extract(x, tz, w - tz);
                                let lo = self.extract(y, 0, tz);
                                return self.concat(hi, lo);
                            }
                        }
                    }
                }
                if cb.is_none() && a > b {
                    return self.mk(op, w, b, a, 0);
                }
            }
            Op::Xor => {
                if a == b {
                    return self.cst(0, w);
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if an.op == Op::Xor {
                        if let Some(c1) = self.is_c(an.b) {
                            let cc = self.cst(c ^ c1, w);
                            return self.bin(Op::Xor, an.a, cc);
                        }
                    }
                    if w == 1 {
                        // not of comparison
                        match an.op {
                            Op::Ult => return self.bin(Op::Ule, an.b, an.a),
                            Op::Ule => return self.bin(Op::Ult, an.b, an.a),
                            Op::Slt => return self.bin(Op::Sle, an.b, an.a),
                            Op::Sle => return self.bin(Op::Slt, an.b, an.a),
                            _ => {}
                        }
                    }
                    if an.op == Op::Ite && self.ite_c(an.b) && self.ite_c(an.c) {
                        let x = self.bin(Op::Xor, an.b, b);
                        let y = self.bin(Op::Xor, an.c, b);
                        return self.ite(an.a, x, y);
                    }
                } else {
                    if w == 1 {
                        if let Some(x) = self.as_not(a) {
                            let y = self.bin(Op::Xor, x, b);
                            return self.not(y);
                        }
                        if let Some(x) = self.as_not(b) {
                            let y = self.bin(Op::Xor, a, x);
                            return self.not(y);
                        }
                    }
                    if a > b {
                        return self.mk(op, w, b, a, 0);
                    }
                }
            }
            Op::Shl => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c >= w as u128 {
                        return self.cst(0, w);
                    }
                    let k = c as u16;
                    let x = self.extract(a, 0, w - k);
                    let z = self.cst(0, k);
                    return self.concat(x, z);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::LShr => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c >= w as u128 {
                        return self.cst(0, w);
                    }
                    let k = c as u16;
                    let x = self.extract(a, k, w - k);
                    return self.zext(x, w);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::AShr => {
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    let k = (c.min(w as u128 - 1)) as u16;
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.cst(1, 1);
                }
                if let Some(c) = cb {
                    if w == 1 {
                        return if c == 1 { a } else { self.not(a) };
                    }
                    match an.op {
                        Op::Add => {
                            if let Some(c1) = self.is_c(an.b) {
                                let cc = self.cst(c.wrapping_sub(c1), w);
                                return self.bin(Op::Eq, an.a, cc);
                            }
                        }
                        Op::Xor => {
                            if let Some(c1) = self.is_c(an.b) {
                                let cc = self.cst(c ^ c1, w);
                                return self.bin(Op::Eq, an.a, cc);
                            }
                            if c == 0 {
                                return self.bin(Op::Eq, an.a, an.b);
                            }
                        }
                        Op::Sub => {
                            if c == 0 {
                                return self.bin(Op::Eq, an.a, an.b);
                            }
                            if let Some(c1) = self.is_c(an.a) {
                                let cc = self.cst(c1.wrapping_sub(c), w);
                                return self.bin(Op::Eq, an.b, cc);
                            }
                        }
                        Op::ZExt => {
                            let iw = self.w(an.a);
                            if c > mask(iw) {
                                return self.cst(0, 1);
                            }
                            let cc = self.cst(c, iw);
                            return self.bin(Op::Eq, an.a, cc);
                        }
                        Op::SExt => {
                            let iw = self.w(an.a);
                            if (sx(c & mask(iw), iw) as u128) & m != c {
                                return self.cst(0, 1);
                            }
                            let cc = self.cst(c, iw);
                            return self.bin(Op::Eq, an.a, cc);
                        }
                        Op::Concat => {
                            let lw = self.w(an.b);
                            let hw = self.w(an.a);
                            let ch = self.cst(c >> lw, hw);
                            let cl = self.cst(c, lw);
                            let x = self.bin(Op::Eq, an.a, ch);
                            if self.is_c(x) == Some(0) {
                                return x;
                            }
                            let y = self.bin(Op::Eq, an.b, cl);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Ite => {
                            let x = self.bin(Op::Eq, an.b, b);
                            let y = self.bin(Op::Eq, an.c, b);
                            if self.is_c(x).is_some() || self.is_c(y).is_some() {
                                return self.ite(an.a, x, y);
                            }
                        }
                        Op::Or if c == 0 => {
                            let z = self.cst(0, w);
                            let x = self.bin(Op::Eq, an.a, z);
                            let y = self.bin(Op::Eq, an.b, z);
                            return self.bin(Op::And, x, y);
                        }
                        _ => {}
                    }
                } else {
                    if an.op == Op::ZExt && bn.op == Op::ZExt || an.op == Op::SExt && bn.op == Op::SExt {
                        let (x, y) = (self.w(an.a), self.w(bn.a));
                        if x == y {
                            return self.bin(Op::Eq, an.a, bn.a);
                        }
                    }
                    if an.op == Op::Add && bn.op == Op::Add && an.b == bn.b {
                        return self.bin(Op::Eq, an.a, bn.a);
                    }
                    if an.op == Op::Add && self.is_c(an.b).is_some() && an.a == b {
                        return self.cst(0, 1);
                    }
                    if bn.op == Op::Add && self.is_c(bn.b).is_some() && bn.a == a {
                        return self.cst(0, 1);
                    }
                    if an.op == Op::Concat && bn.op == Op::Concat && self.w(an.b) == self.w(bn.b) {
                        let x = self.bin(Op::Eq, an.a, bn.a);
                        if self.is_c(x) == Some(0) {
                            return x;
                        }
                        let y = self.bin(Op::Eq, an.b, bn.b);
                        return self.bin(Op::And, x, y);
                    }
                    if w == 1 {
                        let x = self.bin(Op::Xor, a, b);
                        return self.not(x);
                    }
                    if a > b {
                        return self.mk(op, 1, b, a, 0);
                    }
                }
            }
            Op::Ult => {
                if a == b {
                    return self.cst(0, 1);
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return self.cst(0, 1);
                    }
                    if c == 1 {
                        let z = self.cst(0, w);
                        return self.bin(Op::Eq, a, z);
                    }
                    let lz = self.lz(a);
                    if lz > 0 {
                        if w == lz || c > mask(w - lz) {
                            return self.cst(1, 1);
                        }
                        let x = self.extract(a, 0, w - lz);
                        let cc = self.cst(c, w - lz);
                        return self.bin(Op::Ult, x, cc);
                    }
                    if an.op == Op::Ite && self.ite_c(an.b) && self.ite_c(an.c) {
                        let x = self.bin(op, an.b, b);
                        let y = self.bin(op, an.c, b);
                        return self.ite(an.a, x, y);
                    }
                }
                if let Some(c) = ca {
                    if c == m {
                        return self.cst(0, 1);
                    }
                    let lz = self.lz(b);
                    if lz > 0 {
                        if w == lz || c >= mask(w - lz) {
                            return self.cst(0, 1);
                        }
                        let x = self.extract(b, 0, w - lz);
                        let cc = self.cst(c, w - lz);
                        return self.bin(Op::Ult, cc, x);
                    }
                    if c == 0 {
                        let z = self.cst(0, w);
                        let e = self.bin(Op::Eq, b, z);
                        return self.not(e);
                    }
                    if bn.op == Op::Ite && self.ite_c(bn.b) && self.ite_c(bn.c) {
                        let x = self.bin(op, a, bn.b);
                        let y = self.bin(op, a, bn.c);
                        return self.ite(bn.a, x, y);
                    }
                }
                if an.op == Op::ZExt && bn.op == Op::ZExt && self.w(an.a) == self.w(bn.a) {
                    return self.bin(op, an.a, bn.a);
                }
            }
            Op::Ule => {
                if a == b {
                    return self.cst(1, 1);
                }
                // x <= c  ->  x < c+1 ; c <= x -> c-1 < x
                if let Some(c) = cb {
                    if c == m {
                        return self.cst(1, 1);
                    }
                    let cc = self.cst(c + 1, w);
                    return self.bin(Op::Ult, a, cc);
                }
                if let Some(c) = ca {
                    if c == 0 {
                        return self.cst(1, 1);
                    }
                    let cc = self.cst(c - 1, w);
                    return self.bin(Op::Ult, cc, b);
                }
                if an.op == Op::ZExt && bn.op == Op::ZExt && self.w(an.a) == self.w(bn.a) {
                    return self.bin(op, an.a, bn.a);
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.cst((op == Op::Sle) as u128, 1);
                }
                // sign bit known zero on both sides -> unsigned
                if self.lz(a) > 0 && self.lz(b) > 0 {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                let c_small = |s: &Self, e: E, iw: u16| match s.is_c(e) {
                    Some(v) => {
                        let t = sx(v, w);
                        t >= -(1i128 << (iw - 1)) && t < (1i128 << (iw - 1))
                    }
                    None => false,
                };
                if an.op == Op::SExt {
                    let iw = self.w(an.a);
                    if bn.op == Op::SExt && self.w(bn.a) == iw {
                        return self.bin(op, an.a, bn.a);
                    }
                    if c_small(self, b, iw) {
                        let cc = self.cst(cb.unwrap(), iw);
                        return self.bin(op, an.a, cc);
                    }
                }
                if bn.op == Op::SExt {
                    let iw = self.w(bn.a);
                    if c_small(self, a, iw) {
                        let cc = self.cst(ca.unwrap(), iw);
                        return self.bin(op, cc, bn.a);
                    }
                }
                // lz(a)>0 (non-negative) vs constant negative
                if let Some(c) = cb {
                    if sx(c, w) < 0 && self.lz(a) > 0 {
                        return self.cst(0, 1);
                    }
                    if an.op == Op::Ite && self.ite_c(an.b) && self.ite_c(an.c) {
                        let x = self.bin(op, an.b, b);
                        let y = self.bin(op, an.c, b);
                        return self.ite(an.a, x, y);
                    }
                }
                if let Some(c) = ca {
                    if sx(c, w) < 0 && self.lz(b) > 0 {
                        return self.cst(1, 1);
                    }
                    if bn.op == Op::Ite && self.ite_c(bn.b) && self.ite_c(bn.c) {
                        let x = self.bin(op, a, bn.b);
                        let y = self.bin(op, a, bn.c);
                        return self.ite(bn.a, x, y);
                    }
                }
            }
            _ => {}
        }
        self.mk(op, rw, a, b, 0)
    }
    fn tz(&self, e: E) -> u16 {
        let n = self.n(e);
        match n.op {
            Op::Const => {
                let v = self.consts[n.a as usize];
                if v == 0 {
                    n.w
                } else {
                    v.trailing_zeros() as u16
                }
            }
            Op::Concat => {
                let l = self.tz(n.b);
                if l == self.w(n.b) {
                    l + self.tz(n.a)
                } else {
                    l
                }
            }
            Op::ZExt => {
                let t = self.tz(n.a);
                if t == self.w(n.a) {
                    n.w
                } else {
                    t
                }
            }
            _ => 0,
        }
    }
    pub fn children(&self, e: E) -> ([E; 3], usize) {
        let n = self.n(e);
        match n.op {
            Op::Const | Op::Var => ([0; 3], 0),
            Op::Ite => ([n.a, n.b, n.c], 3),
            Op::Extract | Op::ZExt | Op::SExt | Op::FRound => ([n.a, 0, 0], 1),
            Op::Table => ([n.b, 0, 0], 1),
            _ => {
                if n.b == 0 {
                    ([n.a, 0, 0], 1)
                } else {
                    ([n.a, n.b, 0], 2)
                }
            }
        }
    }
    pub fn varset(&mut self, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = self.varsets.get(&e) {
            return v.clone();
        }
        // iterative post-order
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if self.varsets.contains_key(&x) {
                continue;
            }
            let (ch, n) = self.children(x);
            if !done {
                stack.push((x, true));
                for c in &ch[..n] {
                    stack.push((*c, false));
                }
                continue;
            }
            let nd = self.n(x);
            let v = if nd.op == Op::Var {
                std::rc::Rc::new(vec![nd.a])
            } else if n == 1 {
                self.varsets[&ch[0]].clone()
            } else {
                let mut v: Vec<u32> = vec![];
                for c in &ch[..n] {
                    v.extend(self.varsets[c].iter());
                }
                v.sort_unstable();
                v.dedup();
                // share when equal to a child's
                let mut r = None;
                for c in &ch[..n] {
                    if *self.varsets[c] == v {
                        r = Some(self.varsets[c].clone());
                        break;
                    }
                }
                r.unwrap_or_else(|| std::rc::Rc::new(v))
            };
            self.varsets.insert(x, v);
        }
        self.varsets[&e].clone()
    }
    pub fn is_fp(&mut self, e: E) -> bool {
        if let Some(v) = self.hasfp.get(&e) {
            return *v;
        }
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if self.hasfp.contains_key(&x) {
                continue;
            }
            let (ch, n) = self.children(x);
            if !done {
                stack.push((x, true));
                for c in &ch[..n] {
                    stack.push((*c, false));
                }
                continue;
            }
            let mut v = self.n(x).op as u8 >= Op::FAdd as u8;
            for c in &ch[..n] {
                v |= self.hasfp[c];
            }
            self.hasfp.insert(x, v);
        }
        self.hasfp[&e]
    }
    /// Evaluate under a total assignment (missing variables are 0).
    pub fn eval(&self, e: E, m: &[u128], memo: &mut FxMap<E, u128>) -> u128 {
        if let Some(v) = self.is_c(e) {
            return v;
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let mut stack: Vec<(E, bool)> = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if memo.contains_key(&x) {
                continue;
            }
            let n = self.n(x);
            if n.op == Op::Const {
                memo.insert(x, self.consts[n.a as usize]);
                continue;
            }
            if n.op == Op::Var {
                memo.insert(x, m.get(n.a as usize).copied().unwrap_or(0) & mask(n.w));
                continue;
            }
            let (ch, k) = self.children(x);
            if !done {
                stack.push((x, true));
                for c in &ch[..k] {
                    if !memo.contains_key(c) {
                        stack.push((*c, false));
                    }
                }
                continue;
            }
            let g = |i: usize| memo[&ch[i]];
            let v = self.apply(n, g);
            memo.insert(x, v);
        }
        memo[&e]
    }
    fn apply(&self, n: Node, g: impl Fn(usize) -> u128) -> u128 {
        match n.op {
            Op::Ite => {
                if g(0) == 1 {
                    g(1)
                } else {
                    g(2)
                }
            }
            Op::Concat => (g(0) << self.w(n.b)) | g(1),
            Op::Extract => (g(0) >> n.b) & mask(n.w),
            Op::ZExt => g(0),
            Op::SExt => (sx(g(0), self.w(n.a)) as u128) & mask(n.w),
            Op::Table => {
                let t = &self.tables[n.a as usize];
                let i = g(0);
                if (i as usize) < t.len() && i < (1 << 40) {
                    t[i as usize]
                } else {
                    0
                }
            }
            Op::FRound => feval(n.op, n.w, self.w(n.a), g(0), 0, n.b),
            o if o as u8 >= Op::FAdd as u8 => {
                let b = if n.b != 0 { g(1) } else { 0 };
                feval(n.op, n.w, self.w(n.a), g(0), b, 0)
            }
            _ => ceval(n.op, n.w, self.w(n.a), g(0), g(1)),
        }
    }
    /// Rebuild `e` with the substitutions in `sub` applied (memoised).
    pub fn subst(&mut self, e: E, memo: &mut FxMap<E, E>) -> E {
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let mut stack: Vec<(E, bool)> = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if memo.contains_key(&x) {
                continue;
            }
            let n = self.n(x);
            if matches!(n.op, Op::Const | Op::Var) {
                memo.insert(x, x);
                continue;
            }
            let (ch, k) = self.children(x);
            if !done {
                stack.push((x, true));
                for c in &ch[..k] {
                    if !memo.contains_key(c) {
                        stack.push((*c, false));
                    }
                }
                continue;
            }
            let mut nc = [0u32; 3];
            let mut changed = false;
            for i in 0..k {
                nc[i] = memo[&ch[i]];
                changed |= nc[i] != ch[i];
            }
            let v = if !changed {
                x
            } else {
                match n.op {
                    Op::Ite => self.ite(nc[0], nc[1], nc[2]),
                    Op::Concat => self.concat(nc[0], nc[1]),
                    Op::Extract => self.extract(nc[0], n.b as u16, n.w),
                    Op::ZExt => self.zext(nc[0], n.w),
                    Op::SExt => self.sext(nc[0], n.w),
                    Op::Table => {
                        let t = self.tables[n.a as usize].clone();
                        if let Some(v) = self.is_c(nc[0]) {
                            let r = t.get(v as usize).copied().unwrap_or(0);
                            self.cst(r, n.w)
                        } else {
                            self.mk(Op::Table, n.w, n.a, nc[0], 0)
                        }
                    }
                    Op::FRound => self.fop(n.op, n.w, nc[0], n.b),
                    o if o as u8 >= Op::FAdd as u8 => self.fop(n.op, n.w, nc[0], nc[1]),
                    _ => self.bin(n.op, nc[0], nc[1]),
                }
            };
            memo.insert(x, v);
        }
        memo[&e]
    }
    pub fn show(&self, e: E, d: usize) -> String {
        let n = self.n(e);
        if let Some(v) = self.is_c(e) {
            return format!("{}:{}", v, n.w);
        }
        if n.op == Op::Var {
            return self.vars[n.a as usize].0.clone();
        }
        if d == 0 {
            return "..".into();
        }
        let (ch, k) = self.children(e);
        let mut s = format!("({:?}{}", n.op, if n.op == Op::Extract { format!("[{}+{}]", n.b, n.w) } else { format!(":{}", n.w) });
        for c in &ch[..k] {
            s += " ";
            s += &self.show(*c, d - 1);
        }
        s + ")"
    }
}

thread_local! {
    pub static AR: RefCell<Arena> = RefCell::new(Arena::new());
}

#[cfg(test)]
mod tests {
    use super::*;

    /// every rewriting and bound against the plain meaning of the operations
    #[test]
    fn rewriting_keeps_values() {
        let mut seed = 0x9e3779b97f4a7c15u64;
        let mut rnd = move |n: u64| {
            seed ^= seed << 13;
            seed ^= seed >> 7;
            seed ^= seed << 17;
            seed % n
        };
        let ops = [Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::URem, Op::SDiv, Op::SRem, Op::And, Op::Or, Op::Xor, Op::LShr, Op::Shl, Op::AShr, Op::Ult, Op::Ule, Op::Slt, Op::Sle, Op::Eq];
        for round in 0..20000 {
            let mut ar = Arena::new();
            let mut vals = vec![];
            let mut pool: Vec<(E, u128)> = vec![];
            for i in 0..3 {
                let w = [8, 16, 32][rnd(3) as usize];
                let x = rnd(1 << 32) as u128 & mask(w);
                let v = ar.var(format!("v{i}"), w);
                vals.push(x);
                let e = ar.zext(v, 64);
                pool.push((e, x));
            }
            for _ in 0..4 {
                let c = match rnd(4) {
                    0 => rnd(8),
                    1 => rnd(1000),
                    2 => 60 * (1 + rnd(1440)),
                    _ => rnd(u64::MAX),
                } as u128;
                let e = ar.cst(c, 64);
                pool.push((e, c));
            }
            for _ in 0..12 {
                let op = ops[if rnd(2) == 0 { rnd(5) as usize } else { rnd(ops.len() as u64) as usize }];
                let (a, x) = pool[rnd(pool.len() as u64) as usize];
                let (b, y) = pool[rnd(pool.len() as u64) as usize];
                if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) && y == 0 || matches!(op, Op::LShr | Op::Shl | Op::AShr) && y >= 64 {
                    continue;
                }
                if matches!(op, Op::SDiv | Op::SRem) && y == mask(64) {
                    continue;
                }
                let cmp = matches!(op, Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::Eq);
                let v = ceval(op, if cmp { 1 } else { 64 }, 64, x, y);
                let mut e = ar.bin(op, a, b);
                if cmp {
                    let (c, z) = pool[rnd(pool.len() as u64) as usize];
                    let (d, u) = pool[rnd(pool.len() as u64) as usize];
                    e = ar.ite(e, c, d);
                    pool.push((e, if v == 1 { z } else { u }));
                } else if rnd(4) == 0 {
                    let k = 1 + rnd(63) as u16;
                    let t = ar.extract(e, 0, k);
                    let s = rnd(2) == 0;
                    let t = if s { ar.sext(t, 64) } else { ar.zext(t, 64) };
                    let v = v & mask(k);
                    pool.push((t, if s { sx(v, k) as u128 & mask(64) } else { v }));
                } else {
                    pool.push((e, v));
                }
                let (e, v) = *pool.last().unwrap();
                let got = ar.eval(e, &vals, &mut Default::default());
                assert_eq!(got, v, "round {round} {op:?} {x} {y}");
                assert!(ar.hi(e) >= v, "bound in round {round} {op:?}");
            }
        }
    }
}

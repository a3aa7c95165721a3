//! Lazy reader for textual LLVM IR: indexes every module, parses a function when it is first called.
use crate::expr::{FxMap, E};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_void, CString};
use std::rc::Rc;

extern "C" {
    fn open(p: *const c_char, f: c_int, ...) -> c_int;
    fn mmap(a: *mut c_void, l: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void;
    fn close(fd: c_int) -> c_int;
    fn memchr(p: *const c_void, c: c_int, n: usize) -> *const c_void;
    fn memmem(h: *const c_void, hl: usize, n: *const c_void, nl: usize) -> *const c_void;
}

pub fn map_file(path: &str) -> Option<&'static [u8]> {
    let len = std::fs::metadata(path).ok()?.len() as usize;
    if len == 0 {
        return Some(&[]);
    }
    let p = CString::new(path).unwrap();
    unsafe {
        let fd = open(p.as_ptr(), 0);
        if fd < 0 {
            return None;
        }
        let m = mmap(std::ptr::null_mut(), len, 1, 2, fd, 0);
        close(fd);
        if m as isize == -1 {
            return None;
        }
        Some(std::slice::from_raw_parts(m as *const u8, len))
    }
}
fn find_nl(s: &[u8], at: usize) -> usize {
    unsafe {
        let p = memchr(s.as_ptr().add(at) as *const c_void, b'\n' as c_int, s.len() - at);
        if p.is_null() {
            s.len()
        } else {
            p as usize - s.as_ptr() as usize
        }
    }
}
fn find_sub(s: &[u8], at: usize, n: &[u8]) -> Option<usize> {
    unsafe {
        let p = memmem(s.as_ptr().add(at) as *const c_void, s.len() - at, n.as_ptr() as *const c_void, n.len());
        if p.is_null() {
            None
        } else {
            Some(p as usize - s.as_ptr() as usize)
        }
    }
}

pub type Name = &'static [u8];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Ty(pub u32);

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum TyK {
    Int(u16),
    Ptr,
    F16,
    F32,
    F64,
    F128,
    X87,
    Void,
    Other,
    Arr(u64, Ty),
    Vec(u32, Ty),
    Struct(Vec<Ty>, bool),
}

#[derive(Clone)]
pub struct TyI {
    pub k: TyK,
    pub size: u64,  // store size
    pub align: u64,
    pub offs: Rc<Vec<u64>>, // struct field offsets
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(E),
    Big(Rc<u128>),
    Agg(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    Bitcast,
    FPToUI,
    FPToSI,
    UIToFP,
    SIToFP,
    FPTrunc,
    FPExt,
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub block: u32,
    pub pc: u32,
    pub moves: Vec<(u32, Opd)>,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(Name),
    Ind(Opd),
    Asm(Rc<String>),
}

#[derive(Clone, Debug)]
pub struct CallI {
    pub callee: Callee,
    pub args: Vec<(Opd, Ty)>,
    pub ret: Ty,
    pub dst: u32, // u32::MAX none
    pub invoke: Option<(u32, u32)>, // edges idx normal, unwind
    pub cache: std::cell::RefCell<Option<crate::exec::Target>>,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, Ty, u32, Opd, Opd),
    FNeg(Ty, u32, Opd),
    ICmp(Pred, Ty, u32, Opd, Opd),
    FCmp(u8, Ty, u32, Opd, Opd),
    Select(Ty, u32, Opd, Opd, Opd, bool), // last: condition is a vector
    Cast(CastK, Ty, Ty, u32, Opd),
    Load(Ty, u32, Opd, bool),
    Store(Ty, Opd, Opd, bool),
    Gep(u32, Opd, i64, Vec<(Opd, u16, i64)>),
    Alloca(u32, u64), // dst, offset in the frame object
    AllocaDyn(u32, u64, Opd, u16),
    Call(Rc<CallI>),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u16, u32, Vec<(u128, u32)>),
    Ret(Opd),
    RetVoid,
    Unreachable,
    Extract(u32, Opd, Vec<u32>),
    Insert(u32, Opd, Opd, Vec<u32>),
    ExtElt(u32, Opd, Opd),
    InsElt(u32, Opd, Opd, Opd),
    Shuffle(u32, Opd, Opd, Vec<i32>, u32),
    Freeze(u32, Opd),
    CmpXchg(Ty, u32, Opd, Opd, Opd, bool),
    Rmw(u8, Ty, u32, Opd, Opd),
    LandingPad(u32),
    Resume(Opd),
    Nop,
}

pub struct Func {
    pub name: Name,
    pub module: usize,
    pub nregs: u32,
    pub nparams: u32,
    pub insts: Vec<Inst>,
    pub edges: Vec<Edge>,
    pub frame_size: u64,
    pub catch_pads: Vec<u32>, // pcs of landing pads with a catch clause
    pub id: u32,
    pub sret: bool,
    /// schedules are explored at the synchronisation of this function (not inside the async runtime)
    pub sched: bool,
}

pub struct Module {
    pub path: String,
    pub text: &'static [u8],
    pub funcs: FxMap<Name, usize>,
    pub globals: FxMap<Name, usize>,
    pub types: FxMap<Name, usize>,
}

/// where a symbol is defined
#[derive(Clone, Copy, Debug)]
pub struct Def {
    pub module: u32,
    pub off: usize,
}

fn global_name(s: &[u8], at: usize) -> Option<(Name, usize)> {
    // at points to '@' or '%'
    let s: &'static [u8] = unsafe { std::mem::transmute(s) };
    let mut i = at + 1;
    if s.get(i) == Some(&b'"') {
        i += 1;
        let st = i;
        while s[i] != b'"' {
            i += 1;
        }
        return Some((&s[st..i], i + 1));
    }
    let st = i;
    while i < s.len() && (s[i].is_ascii_alphanumeric() || matches!(s[i], b'_' | b'.' | b'$' | b'-')) {
        i += 1;
    }
    Some((&s[st..i], i))
}

pub struct Index {
    pub module: Module,
    pub ext_f: Vec<(Name, usize, bool)>, // name, off, weak(available_externally)
    pub ext_g: Vec<(Name, usize)>,
}

pub fn index_file(path: &str) -> Option<Index> {
    let t = map_file(path)?;
    let mut m = Module { path: path.to_string(), text: t, funcs: Default::default(), globals: Default::default(), types: Default::default() };
    let mut ext_f = vec![];
    let mut ext_g = vec![];
    let mut i = 0;
    while i < t.len() {
        match t[i] {
            b'd' if t[i..].starts_with(b"define ") => {
                let e = find_nl(t, i);
                let line = &t[i..e];
                // the name is the '@' outside of quotes / parens preceding '('
                if let Some(p) = find_def_at(line) {
                    let (n, _) = global_name(t, i + p).unwrap();
                    let head = &line[7..p];
                    let internal = head.starts_with(b"internal ") || head.starts_with(b"private ");
                    let weak = head.starts_with(b"available_externally ");
                    m.funcs.insert(n, i);
                    if !internal {
                        ext_f.push((n, i, weak));
                    }
                }
                match find_sub(t, e, b"\n}\n") {
                    Some(x) => i = x + 3,
                    None => break,
                }
                continue;
            }
            b'@' => {
                let (n, j) = global_name(t, i).unwrap();
                let rest = &t[j..(j + 60).min(t.len())];
                let is_ext = rest.starts_with(b" = external") || rest.starts_with(b" = extern_weak");
                if !is_ext {
                    m.globals.insert(n, i);
                    if !(rest.starts_with(b" = private") || rest.starts_with(b" = internal")) {
                        ext_g.push((n, i));
                    }
                }
            }
            b'%' => {
                let (n, _) = global_name(t, i).unwrap();
                m.types.insert(n, i);
            }
            _ => {}
        }
        i = find_nl(t, i) + 1;
    }
    Some(Index { module: m, ext_f, ext_g })
}
fn find_def_at(line: &[u8]) -> Option<usize> {
    let mut q = false;
    for (i, c) in line.iter().enumerate() {
        match c {
            b'"' => q = !q,
            b'@' if !q => return Some(i),
            _ => {}
        }
    }
    None
}

pub struct Ir {
    pub modules: Vec<Module>,
    pub ext_f: FxMap<Name, Def>,
    pub ext_g: FxMap<Name, Def>,
    pub tys: Vec<TyI>,
    tymap: HashMap<TyK, Ty>,
    named: HashMap<(usize, Name), Ty>,
    pub parsed: FxMap<(u32, Name), Rc<Func>>,
    pub nfuncs: u32,
    /// distances between objects, stored in 32 bits (relative lookup tables) as a token
    pub rel: Vec<u64>,
    pub t_i1: Ty,
    pub t_ptr: Ty,
    pub t_void: Ty,
}

/// Resolves @names used as operands to addresses.
pub trait Resolver {
    fn global_addr(&mut self, ir: &Ir, module: usize, name: Name) -> u64;
}

impl Ir {
    pub fn load(paths: &[String]) -> Ir {
        let mut idx: Vec<Option<Index>> = vec![];
        let n = paths.len();
        let next = std::sync::atomic::AtomicUsize::new(0);
        let next = &next;
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..8)
                .map(|_| {
                    s.spawn(move || {
                        let mut v = vec![];
                        loop {
                            let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                            if i >= n {
                                break;
                            }
                            v.push((i, index_file(&paths[i])));
                        }
                        v
                    })
                })
                .collect();
            let mut tmp: Vec<Option<Index>> = (0..n).map(|_| None).collect();
            for h in hs {
                for (i, x) in h.join().unwrap() {
                    tmp[i] = x;
                }
            }
            idx = tmp;
        });
        let mut ir = Ir {
            modules: vec![],
            ext_f: Default::default(),
            ext_g: Default::default(),
            tys: vec![],
            tymap: Default::default(),
            named: Default::default(),
            parsed: Default::default(),
            nfuncs: 0, rel: vec![],
            t_i1: Ty(0),
            t_ptr: Ty(0),
            t_void: Ty(0),
        };
        let mut weak = vec![];
        for x in idx.into_iter().flatten() {
            let mi = ir.modules.len() as u32;
            for (n, off, w) in x.ext_f {
                if w {
                    weak.push((n, Def { module: mi, off }));
                } else {
                    ir.ext_f.entry(n).or_insert(Def { module: mi, off });
                }
            }
            for (n, off) in x.ext_g {
                ir.ext_g.entry(n).or_insert(Def { module: mi, off });
            }
            ir.modules.push(x.module);
        }
        for (n, d) in weak {
            ir.ext_f.entry(n).or_insert(d);
        }
        ir.t_i1 = ir.ty(TyK::Int(1));
        ir.t_ptr = ir.ty(TyK::Ptr);
        ir.t_void = ir.ty(TyK::Void);
        ir
    }
    pub fn ty(&mut self, k: TyK) -> Ty {
        if let Some(t) = self.tymap.get(&k) {
            return *t;
        }
        let mut offs = vec![];
        let (size, align) = match &k {
            TyK::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = b.next_power_of_two().min(16);
                (b, a)
            }
            TyK::Ptr => (8, 8),
            TyK::F16 => (2, 2),
            TyK::F32 => (4, 4),
            TyK::F64 => (8, 8),
            TyK::F128 => (16, 16),
            TyK::X87 => (16, 16),
            TyK::Void | TyK::Other => (0, 1),
            TyK::Arr(n, t) => {
                let i = &self.tys[t.0 as usize];
                (n * self.alloc_size(*t), i.align)
            }
            TyK::Vec(n, t) => {
                let i = &self.tys[t.0 as usize];
                let bits = match i.k {
                    TyK::Int(w) => w as u64 * *n as u64,
                    _ => i.size * 8 * *n as u64,
                };
                let b = (bits + 7) / 8;
                (b, b.next_power_of_two().max(1))
            }
            TyK::Struct(f, packed) => {
                let mut o = 0u64;
                let mut al = 1;
                for t in f {
                    let i = &self.tys[t.0 as usize];
                    if !packed {
                        o = (o + i.align - 1) / i.align * i.align;
                        al = al.max(i.align);
                    }
                    offs.push(o);
                    o += self.alloc_size(*t);
                }
                ((o + al - 1) / al * al, al)
            }
        };
        let t = Ty(self.tys.len() as u32);
        self.tys.push(TyI { k: k.clone(), size, align, offs: Rc::new(offs) });
        self.tymap.insert(k, t);
        t
    }
    pub fn alloc_size(&self, t: Ty) -> u64 {
        let i = &self.tys[t.0 as usize];
        (i.size + i.align - 1) / i.align * i.align
    }
    #[inline]
    pub fn ti(&self, t: Ty) -> &TyI {
        &self.tys[t.0 as usize]
    }
    /// scalar bit width (0 for aggregates)
    #[inline]
    pub fn bits(&self, t: Ty) -> u16 {
        match self.tys[t.0 as usize].k {
            TyK::Int(w) => w,
            TyK::Ptr => 64,
            TyK::F16 => 16,
            TyK::F32 => 32,
            TyK::F64 => 64,
            TyK::F128 | TyK::X87 => 128,
            _ => 0,
        }
    }
    pub fn find_func(&self, module: usize, name: Name) -> Option<Def> {
        if let Some(off) = self.modules[module].funcs.get(name) {
            return Some(Def { module: module as u32, off: *off });
        }
        self.ext_f.get(name).copied()
    }
    pub fn find_global(&self, module: usize, name: Name) -> Option<Def> {
        if let Some(off) = self.modules[module].globals.get(name) {
            return Some(Def { module: module as u32, off: *off });
        }
        self.ext_g.get(name).copied()
    }
    fn named_ty(&mut self, module: usize, n: Name) -> Ty {
        if let Some(t) = self.named.get(&(module, n)) {
            return *t;
        }
        let off = match self.modules[module].types.get(n) {
            Some(o) => *o,
            None => {
                let t = self.ty(TyK::Other);
                return t;
            }
        };
        let text = self.modules[module].text;
        let (_, mut i) = global_name(text, off).unwrap();
        while text[i] != b'=' {
            i += 1;
        }
        let mut lx = Lex { s: text, i: i + 1, module };
        lx.kw("type");
        let t = lx.ty(self);
        self.named.insert((module, n), t);
        t
    }
}

pub struct Lex {
    pub s: &'static [u8],
    pub i: usize,
    pub module: usize,
}

impl Lex {
    #[inline]
    pub fn ws(&mut self) {
        loop {
            match self.s[self.i] {
                b' ' | b'\t' | b'\n' => self.i += 1,
                b';' => {
                    while self.s[self.i] != b'\n' {
                        self.i += 1;
                    }
                }
                _ => break,
            }
        }
    }
    /// skip blanks on the same line
    #[inline]
    pub fn sp(&mut self) {
        while self.s[self.i] == b' ' {
            self.i += 1;
        }
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        self.s[self.i]
    }
    pub fn eat(&mut self, c: u8) -> bool {
        let save = self.i;
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            self.i = save;
            false
        }
    }
    pub fn expect(&mut self, c: u8) {
        if !self.eat(c) {
            self.err(&format!("expected '{}'", c as char));
        }
    }
    pub fn err(&self, m: &str) -> ! {
        let e = find_nl(self.s, self.i);
        let mut st = self.i;
        while st > 0 && self.s[st - 1] != b'\n' {
            st -= 1;
        }
        panic!("IR parse: {} at `{}` in `{}`", m, String::from_utf8_lossy(&self.s[self.i..e.min(self.i + 60)]), String::from_utf8_lossy(&self.s[st..e.min(st + 400)]));
    }
    pub fn word(&mut self) -> Name {
        self.ws();
        let st = self.i;
        while self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_' || self.s[self.i] == b'.' {
            self.i += 1;
        }
        &self.s[st..self.i]
    }
    pub fn peek_word(&mut self) -> Name {
        let st = self.i;
        let w = self.word();
        self.i = st;
        w
    }
    pub fn kw(&mut self, k: &str) -> bool {
        if self.peek_word() == k.as_bytes() {
            self.word();
            true
        } else {
            false
        }
    }
    pub fn skip_paren(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    pub fn line_end(&mut self) {
        self.i = find_nl(self.s, self.i);
    }
    fn is_type_start(&mut self) -> bool {
        match self.peek() {
            b'{' | b'[' | b'<' | b'%' => true,
            b'i' => {
                let w = self.peek_word();
                w.len() > 1 && w[1..].iter().all(|c| c.is_ascii_digit())
            }
            _ => matches!(self.peek_word(), b"ptr" | b"void" | b"float" | b"double" | b"half" | b"fp128" | b"x86_fp80" | b"metadata" | b"bfloat" | b"token" | b"label"),
        }
    }
    /// skip attributes before a type or value
    fn attrs(&mut self) -> bool {
        let mut sret = false;
        loop {
            match self.peek() {
                b'#' => {
                    self.i += 1;
                    self.word();
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                    if self.s[self.i] == b'=' {
                        self.i += 2;
                        while self.s[self.i] != b'"' {
                            self.i += 1;
                        }
                        self.i += 1;
                    }
                }
                b'a'..=b'z' => {
                    let w = self.peek_word();
                    match w {
                        b"align" => {
                            self.word();
                            self.ws();
                            if self.s[self.i] == b'(' {
                                self.skip_paren()
                            } else {
                                self.word();
                            }
                        }
                        b"true" | b"false" | b"null" | b"undef" | b"poison" | b"zeroinitializer" | b"getelementptr" | b"inttoptr" | b"ptrtoint" | b"splat" | b"asm" | b"c" | b"trunc" | b"sub" | b"add" | b"bitcast" | b"blockaddress" | b"dso_local_equivalent" | b"f0x" | b"none" => return sret,
                        _ if w.starts_with(b"f0x") || w.starts_with(b"u0x") || w.starts_with(b"s0x") => return sret,
                        b"zeroext" | b"signext" | b"inreg" | b"byval" | b"byref" | b"sret" | b"nonnull" | b"noundef" | b"noalias" | b"nocapture" | b"nofree" | b"nest" | b"returned" | b"readonly" | b"readnone" | b"writeonly" | b"writable" | b"dead_on_unwind" | b"dead_on_return" | b"captures" | b"range" | b"dereferenceable" | b"dereferenceable_or_null" | b"initializes" | b"immarg" | b"swiftself" | b"swifterror" | b"allocalign" | b"allocptr" | b"nofpclass" | b"elementtype" | b"noext" | b"preallocated" | b"inalloca" | b"fastcc" | b"ccc" | b"coldcc" | b"nounwind" | b"preserve_mostcc" | b"preserve_allcc" | b"nnan" | b"ninf" | b"nsz" | b"arcp" | b"contract" | b"afn" | b"reassoc" | b"fast" | b"addrspace" | b"noreturn" | b"cold" | b"memory" | b"willreturn" | b"allockind" | b"allocsize" | b"noinline" | b"dso_local" | b"hidden" | b"protected" | b"default" | b"internal" | b"private" | b"linkonce_odr" | b"linkonce" | b"weak" | b"weak_odr" | b"external" | b"available_externally" | b"unnamed_addr" | b"local_unnamed_addr" | b"dso_preemptable" | b"x86_64_sysvcc" | b"win64cc" | b"x86_intrcc" | b"alignstack" => {
                            if w == b"sret" {
                                sret = true;
                            }
                            self.word();
                            if self.s[self.i] == b'(' {
                                self.skip_paren();
                            }
                        }
                        _ => return sret,
                    }
                }
                _ => return sret,
            }
        }
    }
    pub fn int(&mut self) -> i128 {
        self.ws();
        let neg = if self.s[self.i] == b'-' {
            self.i += 1;
            true
        } else {
            false
        };
        let mut v: u128 = 0;
        let st = self.i;
        while self.s[self.i].is_ascii_digit() {
            v = v.wrapping_mul(10).wrapping_add((self.s[self.i] - b'0') as u128);
            self.i += 1;
        }
        if st == self.i {
            self.err("integer");
        }
        if neg {
            (v as i128).wrapping_neg()
        } else {
            v as i128
        }
    }
    pub fn ty(&mut self, ir: &mut Ir) -> Ty {
        match self.peek() {
            b'{' => {
                self.i += 1;
                let mut f = vec![];
                if !self.eat(b'}') {
                    loop {
                        f.push(self.ty(ir));
                        if !self.eat(b',') {
                            break;
                        }
                    }
                    self.expect(b'}');
                }
                ir.ty(TyK::Struct(f, false))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let mut f = vec![];
                    if !self.eat(b'}') {
                        loop {
                            f.push(self.ty(ir));
                            if !self.eat(b',') {
                                break;
                            }
                        }
                        self.expect(b'}');
                    }
                    self.expect(b'>');
                    return ir.ty(TyK::Struct(f, true));
                }
                let n = self.int();
                self.kw("x");
                let t = self.ty(ir);
                self.expect(b'>');
                ir.ty(TyK::Vec(n as u32, t))
            }
            b'[' => {
                self.i += 1;
                let n = self.int();
                self.kw("x");
                let t = self.ty(ir);
                self.expect(b']');
                ir.ty(TyK::Arr(n as u64, t))
            }
            b'%' => {
                let (n, e) = global_name(self.s, self.i).unwrap();
                self.i = e;
                ir.named_ty(self.module, n)
            }
            b'i' => {
                let w = self.word();
                let n: u16 = std::str::from_utf8(&w[1..]).unwrap().parse().unwrap_or_else(|_| self.err("int type"));
                ir.ty(TyK::Int(n))
            }
            _ => {
                let w = self.word();
                let k = match w {
                    b"ptr" => {
                        if self.peek_word() == b"addrspace" {
                            self.word();
                            self.ws();
                            self.skip_paren();
                        }
                        TyK::Ptr
                    }
                    b"void" => TyK::Void,
                    b"float" => TyK::F32,
                    b"double" => TyK::F64,
                    b"half" | b"bfloat" => TyK::F16,
                    b"fp128" => TyK::F128,
                    b"x86_fp80" => TyK::X87,
                    b"metadata" | b"token" | b"label" => TyK::Other,
                    _ => self.err("type"),
                };
                ir.ty(k)
            }
        }
    }
    /// Constant of type `t`.
    pub fn konst(&mut self, ir: &mut Ir, rs: &mut dyn Resolver, t: Ty) -> Val {
        let k = ir.ti(t).k.clone();
        match self.peek() {
            b'@' => {
                let (n, e) = global_name(self.s, self.i).unwrap();
                self.i = e;
                Val::C(rs.global_addr(ir, self.module, n))
            }
            b'-' | b'0'..=b'9' => match k {
                TyK::Int(w) => {
                    let v = self.int() as u128 & crate::expr::mask(w);
                    mkc(v, w)
                }
                TyK::F32 | TyK::F64 | TyK::F16 | TyK::F128 | TyK::X87 => self.flt(&k),
                _ => self.err("number for non-number type"),
            },
            b'+' => self.flt(&k),
            b'{' | b'[' => {
                let c = if self.s[self.i] == b'{' { b'}' } else { b']' };
                self.i += 1;
                let mut v = vec![];
                if !self.eat(c) {
                    loop {
                        let et = self.ty(ir);
                        v.push(self.konst(ir, rs, et));
                        if !self.eat(b',') {
                            break;
                        }
                    }
                    self.expect(c);
                }
                Val::Agg(Rc::new(v))
            }
            b'<' => {
                self.i += 1;
                let st = self.eat(b'{');
                let mut v = vec![];
                let end = if st { b'}' } else { b'>' };
                if !self.eat(end) {
                    loop {
                        let et = self.ty(ir);
                        v.push(self.konst(ir, rs, et));
                        if !self.eat(b',') {
                            break;
                        }
                    }
                    self.expect(end);
                }
                if st {
                    self.expect(b'>');
                }
                Val::Agg(Rc::new(v))
            }
            b'c' if self.s[self.i + 1] == b'"' => {
                self.i += 2;
                let mut v = vec![];
                while self.s[self.i] != b'"' {
                    let c = self.s[self.i];
                    if c == b'\\' && self.s[self.i + 1] == b'\\' {
                        v.push(Val::C(c as u64));
                        self.i += 2;
                    } else if c == b'\\' {
                        let h = |x: u8| (x as char).to_digit(16).unwrap() as u64;
                        v.push(Val::C(h(self.s[self.i + 1]) * 16 + h(self.s[self.i + 2])));
                        self.i += 3;
                    } else {
                        v.push(Val::C(c as u64));
                        self.i += 1;
                    }
                }
                self.i += 1;
                Val::Agg(Rc::new(v))
            }
            _ => {
                let w = self.word();
                match w {
                    b"true" => Val::C(1),
                    b"false" => Val::C(0),
                    b"null" | b"none" => Val::C(0),
                    b"undef" | b"poison" | b"zeroinitializer" => zero(ir, t),
                    b"splat" => {
                        self.expect(b'(');
                        let et = self.ty(ir);
                        let v = self.konst(ir, rs, et);
                        self.expect(b')');
                        let n = match k {
                            TyK::Vec(n, _) => n as usize,
                            TyK::Arr(n, _) => n as usize,
                            _ => 1,
                        };
                        Val::Agg(Rc::new(vec![v; n]))
                    }
                    b"getelementptr" => {
                        loop {
                            let w = self.peek_word();
                            if matches!(w, b"inbounds" | b"nuw" | b"nusw") {
                                self.word();
                            } else if w == b"inrange" {
                                self.word();
                                self.ws();
                                self.skip_paren();
                            } else {
                                break;
                            }
                        }
                        self.expect(b'(');
                        let st = self.ty(ir);
                        self.expect(b',');
                        let pt = self.ty(ir);
                        let base = self.konst(ir, rs, pt);
                        let mut off: i64 = 0;
                        let mut cur = st;
                        let mut first = true;
                        while self.eat(b',') {
                            let it = self.ty(ir);
                            let v = self.konst(ir, rs, it);
                            let w = ir.bits(it);
                            let iv = match v {
                                Val::C(x) => crate::expr::sx(x as u128, w) as i64,
                                _ => self.err("gep idx"),
                            };
                            off += gep_step(ir, &mut cur, first, iv);
                            first = false;
                        }
                        self.expect(b')');
                        match base {
                            Val::C(b) => Val::C(b.wrapping_add(off as u64)),
                            _ => self.err("gep base"),
                        }
                    }
                    b"inttoptr" | b"ptrtoint" | b"bitcast" | b"trunc" | b"addrspacecast" | b"ptrtoaddr" => {
                        self.expect(b'(');
                        let ft = self.ty(ir);
                        let v = self.konst(ir, rs, ft);
                        self.kw("to");
                        let tt = self.ty(ir);
                        self.expect(b')');
                        match v {
                            Val::C(x) if w == b"trunc" && ir.bits(tt) == 32 && x as i64 != x as i32 as i64 => {
                                let i = ir.rel.iter().position(|y| *y == x).unwrap_or_else(|| {
                                    ir.rel.push(x);
                                    ir.rel.len() - 1
                                });
                                Val::C(0x4000_0000 | i as u64)
                            }
                            Val::C(x) => Val::C(x & crate::expr::mask(ir.bits(tt)) as u64),
                            o => o,
                        }
                    }
                    b"sub" | b"add" | b"xor" | b"mul" => {
                        while matches!(self.peek_word(), b"nuw" | b"nsw") {
                            self.word();
                        }
                        self.expect(b'(');
                        let t1 = self.ty(ir);
                        let a = self.konst(ir, rs, t1);
                        self.expect(b',');
                        let t2 = self.ty(ir);
                        let b = self.konst(ir, rs, t2);
                        self.expect(b')');
                        match (a, b) {
                            (Val::C(a), Val::C(b)) => {
                                let r = match w {
                                    b"sub" => a.wrapping_sub(b),
                                    b"add" => a.wrapping_add(b),
                                    b"mul" => a.wrapping_mul(b),
                                    _ => a ^ b,
                                };
                                Val::C(r & crate::expr::mask(ir.bits(t1)) as u64)
                            }
                            _ => self.err("const expr"),
                        }
                    }
                    b"dso_local_equivalent" | b"no_cfi" => self.konst(ir, rs, t),
                    _ if w.starts_with(b"f0x") => {
                        let v = u128::from_str_radix(std::str::from_utf8(&w[3..]).unwrap(), 16).unwrap();
                        mkc(v, ir.bits(t))
                    }
                    _ if w.starts_with(b"u0x") || w.starts_with(b"s0x") => {
                        let v = u128::from_str_radix(std::str::from_utf8(&w[3..]).unwrap(), 16).unwrap();
                        mkc(v & crate::expr::mask(ir.bits(t)), ir.bits(t))
                    }
                    _ if w.starts_with(b"nan") || w.starts_with(b"inf") => {
                        let k = ir.ti(t).k.clone();
                        let nan = w.starts_with(b"nan");
                        if self.s[self.i] == b'(' {
                            self.skip_paren();
                        }
                        match k {
                            TyK::F32 => Val::C(if nan { 0x7fc00000 } else { 0x7f800000 }),
                            _ => Val::C(if nan { 0x7ff8000000000000 } else { 0x7ff0000000000000 }),
                        }
                    }
                    b"qnan" | b"pinf" | b"ninf" => {
                        let v: f64 = match w {
                            b"qnan" => f64::NAN,
                            b"pinf" => f64::INFINITY,
                            _ => f64::NEG_INFINITY,
                        };
                        match ir.ti(t).k {
                            TyK::F32 => Val::C((v as f32).to_bits() as u64),
                            _ => Val::C(v.to_bits()),
                        }
                    }
                    _ => self.err(&format!("constant {}", String::from_utf8_lossy(w))),
                }
            }
        }
    }
    fn flt(&mut self, k: &TyK) -> Val {
        let st = self.i;
        if self.s[self.i..].starts_with(b"0x") {
            self.i += 2;
            let mut hk = b' ';
            if matches!(self.s[self.i], b'H' | b'K' | b'L' | b'M' | b'R') {
                hk = self.s[self.i];
                self.i += 1;
            }
            let w = self.word();
            let v = u128::from_str_radix(std::str::from_utf8(w).unwrap(), 16).unwrap();
            return match k {
                TyK::F32 => Val::C((f64::from_bits(v as u64) as f32).to_bits() as u64),
                TyK::F64 => Val::C(v as u64),
                TyK::F16 => Val::C(v as u64),
                _ if hk == b'L' => mkc((v << 64) | (v >> 64), 128),
                _ => mkc(v, 128),
            };
        }
        while matches!(self.s[self.i], b'0'..=b'9' | b'.' | b'e' | b'+' | b'-') {
            self.i += 1;
        }
        // also words: inf / nan forms
        let txt = std::str::from_utf8(&self.s[st..self.i]).unwrap();
        let d: f64 = match txt.parse() {
            Ok(d) => d,
            Err(_) => {
                // +inf / +nan
                let w = self.word();
                let neg = txt.starts_with('-');
                let v = if w.starts_with(b"inf") { f64::INFINITY } else if w.starts_with(b"qnan") || w.starts_with(b"nan") { f64::NAN } else { self.err("float") };
                if self.s[self.i] == b'(' {
                    self.skip_paren();
                }
                if neg {
                    -v
                } else {
                    v
                }
            }
        };
        match k {
            TyK::F32 => Val::C((d as f32).to_bits() as u64),
            TyK::F64 => Val::C(d.to_bits()),
            TyK::F16 => Val::C(if d == 0.0 { 0 } else { 0x3c00 }),
            _ => mkc(0, 128),
        }
    }
}

pub fn mkc(v: u128, w: u16) -> Val {
    if w <= 64 {
        Val::C(v as u64)
    } else {
        Val::Big(Rc::new(v))
    }
}
pub fn zero(ir: &Ir, t: Ty) -> Val {
    match &ir.ti(t).k {
        TyK::Int(w) if *w > 64 => Val::Big(Rc::new(0)),
        TyK::F128 | TyK::X87 => Val::Big(Rc::new(0)),
        TyK::Arr(n, e) => {
            let z = zero(ir, *e);
            Val::Agg(Rc::new(vec![z; *n as usize]))
        }
        TyK::Vec(n, e) => {
            let z = zero(ir, *e);
            Val::Agg(Rc::new(vec![z; *n as usize]))
        }
        TyK::Struct(f, _) => Val::Agg(Rc::new(f.iter().map(|t| zero(ir, *t)).collect())),
        _ => Val::C(0),
    }
}
pub fn gep_step(ir: &Ir, cur: &mut Ty, first: bool, iv: i64) -> i64 {
    if first {
        return iv * ir.alloc_size(*cur) as i64;
    }
    let info = ir.ti(*cur);
    match &info.k {
        TyK::Struct(f, _) => {
            let o = info.offs[iv as usize] as i64;
            *cur = f[iv as usize];
            o
        }
        TyK::Arr(_, e) | TyK::Vec(_, e) => {
            let e = *e;
            *cur = e;
            iv * ir.alloc_size(e) as i64
        }
        _ => panic!("gep into scalar"),
    }
}

struct Fp<'a> {
    lx: Lex,
    ir: &'a mut Ir,
    rs: &'a mut dyn Resolver,
    regs: FxMap<Name, u32>,
    nregs: u32,
    blocks: FxMap<Name, u32>,
    nblocks: u32,
    insts: Vec<Inst>,
    edges: Vec<(u32, u32)>, // (from block, to block)
    bpc: Vec<u32>,
    phis: Vec<Vec<(u32, Vec<(u32, Opd)>)>>,
    cur: u32,
    frame: u64,
    catch_pads: Vec<u32>,
}

impl<'a> Fp<'a> {
    fn reg(&mut self, n: Name) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n, r);
        r
    }
    fn blk(&mut self, n: Name) -> u32 {
        if let Some(r) = self.blocks.get(n) {
            return *r;
        }
        let r = self.nblocks;
        self.nblocks += 1;
        self.blocks.insert(n, r);
        self.bpc.push(u32::MAX);
        self.phis.push(vec![]);
        r
    }
    fn opd(&mut self, t: Ty) -> Opd {
        if self.lx.peek() == b'%' {
            let (n, e) = global_name(self.lx.s, self.lx.i).unwrap();
            self.lx.i = e;
            return Opd::R(self.reg(n));
        }
        Opd::K(self.lx.konst(self.ir, self.rs, t))
    }
    fn topd(&mut self) -> (Ty, Opd) {
        let t = self.lx.ty(self.ir);
        let o = self.opd(t);
        (t, o)
    }
    fn edge(&mut self, to: u32) -> u32 {
        self.edges.push((self.cur, to));
        self.edges.len() as u32 - 1
    }
    fn label(&mut self) -> u32 {
        // label %x
        if !self.lx.kw("label") {
            self.lx.err("label");
        }
        self.lx.ws();
        let (n, e) = global_name(self.lx.s, self.lx.i).unwrap();
        self.lx.i = e;
        let b = self.blk(n);
        self.edge(b)
    }
    fn flags(&mut self, set: &[&[u8]]) {
        while set.contains(&self.lx.peek_word()) {
            self.lx.word();
        }
    }
    fn call(&mut self, dst: u32, invoke: bool) {
        self.lx.attrs();
        let ret = self.lx.ty(self.ir);
        self.lx.ws();
        if self.lx.s[self.lx.i] == b'(' {
            self.lx.skip_paren();
        }
        let callee = match self.lx.peek() {
            b'@' => {
                let (n, e) = global_name(self.lx.s, self.lx.i).unwrap();
                self.lx.i = e;
                Callee::Direct(n)
            }
            b'%' => {
                let t = self.ir.t_ptr;
                Callee::Ind(self.opd(t))
            }
            _ if self.lx.peek_word() == b"asm" => {
                self.lx.word();
                while matches!(self.lx.peek_word(), b"sideeffect" | b"alignstack" | b"inteldialect" | b"unwind") {
                    self.lx.word();
                }
                self.lx.expect(b'"');
                let st = self.lx.i;
                while self.lx.s[self.lx.i] != b'"' {
                    self.lx.i += 1;
                }
                let a = String::from_utf8_lossy(&self.lx.s[st..self.lx.i]).to_string();
                self.lx.i += 1;
                self.lx.expect(b',');
                self.lx.expect(b'"');
                while self.lx.s[self.lx.i] != b'"' {
                    self.lx.i += 1;
                }
                self.lx.i += 1;
                Callee::Asm(Rc::new(a))
            }
            _ => {
                let t = self.ir.t_ptr;
                let k = self.lx.konst(self.ir, self.rs, t);
                Callee::Ind(Opd::K(k))
            }
        };
        self.lx.expect(b'(');
        let skip_args = match callee {
            Callee::Direct(n) => n.starts_with(b"llvm.dbg") || n.starts_with(b"llvm.experimental.noalias") || n.starts_with(b"llvm.lifetime"),
            _ => false,
        };
        let mut args = vec![];
        if skip_args {
            self.lx.i -= 1;
            self.lx.skip_paren();
        } else if !self.lx.eat(b')') {
            loop {
                if self.lx.peek_word() == b"metadata" {
                    // skip to , or )
                    while !matches!(self.lx.s[self.lx.i], b',' | b')') {
                        self.lx.i += 1;
                    }
                } else {
                    let t = self.lx.ty(self.ir);
                    self.lx.attrs();
                    let o = self.opd(t);
                    args.push((o, t));
                }
                if !self.lx.eat(b',') {
                    break;
                }
            }
            self.lx.expect(b')');
        }
        let inv = if invoke {
            self.lx.line_end();
            self.lx.ws();
            if !self.lx.kw("to") {
                self.lx.err("invoke to");
            }
            let a = self.label();
            self.lx.kw("unwind");
            let b = self.label();
            Some((a, b))
        } else {
            None
        };
        if skip_args {
            self.insts.push(Inst::Nop);
            if let Some((a, _)) = inv {
                self.insts.push(Inst::Br(a));
            }
            return;
        }
        self.insts.push(Inst::Call(Rc::new(CallI { callee, args, ret, dst, invoke: inv, cache: Default::default() })));
    }
    fn inst(&mut self) {
        // optional dst
        let mut dst = u32::MAX;
        if self.lx.peek() == b'%' {
            let (n, e) = global_name(self.lx.s, self.lx.i).unwrap();
            self.lx.i = e;
            dst = self.reg(n);
            self.lx.expect(b'=');
        }
        let w = self.lx.word();
        match w {
            b"add" | b"sub" | b"mul" | b"udiv" | b"sdiv" | b"urem" | b"srem" | b"and" | b"or" | b"xor" | b"shl" | b"lshr" | b"ashr" | b"fadd" | b"fsub" | b"fmul" | b"fdiv" | b"frem" => {
                self.flags(&[b"nuw", b"nsw", b"exact", b"disjoint", b"nnan", b"ninf", b"nsz", b"arcp", b"contract", b"afn", b"reassoc", b"fast"]);
                let t = self.lx.ty(self.ir);
                let a = self.opd(t);
                self.lx.expect(b',');
                let b = self.opd(t);
                let op = match w {
                    b"add" => BinOp::Add,
                    b"sub" => BinOp::Sub,
                    b"mul" => BinOp::Mul,
                    b"udiv" => BinOp::UDiv,
                    b"sdiv" => BinOp::SDiv,
                    b"urem" => BinOp::URem,
                    b"srem" => BinOp::SRem,
                    b"and" => BinOp::And,
                    b"or" => BinOp::Or,
                    b"xor" => BinOp::Xor,
                    b"shl" => BinOp::Shl,
                    b"lshr" => BinOp::LShr,
                    b"ashr" => BinOp::AShr,
                    b"fadd" => BinOp::FAdd,
                    b"fsub" => BinOp::FSub,
                    b"fmul" => BinOp::FMul,
                    b"fdiv" => BinOp::FDiv,
                    _ => BinOp::FRem,
                };
                self.insts.push(Inst::Bin(op, t, dst, a, b));
            }
            b"fneg" => {
                self.flags(&[b"nnan", b"ninf", b"nsz", b"arcp", b"contract", b"afn", b"reassoc", b"fast"]);
                let (t, a) = self.topd();
                self.insts.push(Inst::FNeg(t, dst, a));
            }
            b"icmp" => {
                self.flags(&[b"samesign"]);
                let p = match self.lx.word() {
                    b"eq" => Pred::Eq,
                    b"ne" => Pred::Ne,
                    b"ugt" => Pred::Ugt,
                    b"uge" => Pred::Uge,
                    b"ult" => Pred::Ult,
                    b"ule" => Pred::Ule,
                    b"sgt" => Pred::Sgt,
                    b"sge" => Pred::Sge,
                    b"slt" => Pred::Slt,
                    b"sle" => Pred::Sle,
                    _ => self.lx.err("icmp"),
                };
                let t = self.lx.ty(self.ir);
                let a = self.opd(t);
                self.lx.expect(b',');
                let b = self.opd(t);
                self.insts.push(Inst::ICmp(p, t, dst, a, b));
            }
            b"fcmp" => {
                self.flags(&[b"nnan", b"ninf", b"nsz", b"arcp", b"contract", b"afn", b"reassoc", b"fast"]);
                // bit0 eq, bit1 gt, bit2 lt, bit3 unordered
                let p = match self.lx.word() {
                    b"false" => 0,
                    b"oeq" => 1,
                    b"ogt" => 2,
                    b"oge" => 3,
                    b"olt" => 4,
                    b"ole" => 5,
                    b"one" => 6,
                    b"ord" => 7,
                    b"uno" => 8,
                    b"ueq" => 9,
                    b"ugt" => 10,
                    b"uge" => 11,
                    b"ult" => 12,
                    b"ule" => 13,
                    b"une" => 14,
                    _ => 15,
                };
                let t = self.lx.ty(self.ir);
                let a = self.opd(t);
                self.lx.expect(b',');
                let b = self.opd(t);
                self.insts.push(Inst::FCmp(p, t, dst, a, b));
            }
            b"select" => {
                self.flags(&[b"nnan", b"ninf", b"nsz", b"arcp", b"contract", b"afn", b"reassoc", b"fast"]);
                let (ct, c) = self.topd();
                self.lx.expect(b',');
                let (t, a) = self.topd();
                self.lx.expect(b',');
                let (_, b) = self.topd();
                let v = matches!(self.ir.ti(ct).k, TyK::Vec(..));
                self.insts.push(Inst::Select(t, dst, c, a, b, v));
            }
            b"trunc" | b"zext" | b"sext" | b"ptrtoint" | b"ptrtoaddr" | b"inttoptr" | b"bitcast" | b"addrspacecast" | b"fptoui" | b"fptosi" | b"uitofp" | b"sitofp" | b"fptrunc" | b"fpext" => {
                self.flags(&[b"nuw", b"nsw", b"nneg", b"nnan", b"ninf", b"nsz", b"arcp", b"contract", b"afn", b"reassoc", b"fast"]);
                let (ft, a) = self.topd();
                self.lx.kw("to");
                let tt = self.lx.ty(self.ir);
                let k = match w {
                    b"trunc" => CastK::Trunc,
                    b"zext" => CastK::ZExt,
                    b"sext" => CastK::SExt,
                    b"ptrtoint" | b"ptrtoaddr" => CastK::PtrToInt,
                    b"inttoptr" => CastK::IntToPtr,
                    b"bitcast" | b"addrspacecast" => CastK::Bitcast,
                    b"fptoui" => CastK::FPToUI,
                    b"fptosi" => CastK::FPToSI,
                    b"uitofp" => CastK::UIToFP,
                    b"sitofp" => CastK::SIToFP,
                    b"fptrunc" => CastK::FPTrunc,
                    _ => CastK::FPExt,
                };
                self.insts.push(Inst::Cast(k, ft, tt, dst, a));
            }
            b"load" => {
                let mut atomic = false;
                loop {
                    match self.lx.peek_word() {
                        b"atomic" => {
                            atomic = true;
                            self.lx.word();
                        }
                        b"volatile" => {
                            self.lx.word();
                        }
                        _ => break,
                    }
                }
                let t = self.lx.ty(self.ir);
                self.lx.expect(b',');
                let (_, p) = self.topd();
                self.insts.push(Inst::Load(t, dst, p, atomic));
            }
            b"store" => {
                let mut atomic = false;
                loop {
                    match self.lx.peek_word() {
                        b"atomic" => {
                            atomic = true;
                            self.lx.word();
                        }
                        b"volatile" => {
                            self.lx.word();
                        }
                        _ => break,
                    }
                }
                let (t, v) = self.topd();
                self.lx.expect(b',');
                let (_, p) = self.topd();
                self.insts.push(Inst::Store(t, v, p, atomic));
            }
            b"getelementptr" => {
                self.flags(&[b"inbounds", b"nuw", b"nusw"]);
                let st = self.lx.ty(self.ir);
                self.lx.expect(b',');
                let (_, base) = self.topd();
                let mut off = 0i64;
                let mut dynv = vec![];
                let mut cur = st;
                let mut first = true;
                loop {
                    self.lx.sp();
                    if self.lx.s[self.lx.i] != b',' {
                        break;
                    }
                    // could be metadata attachment: ", !"
                    let save = self.lx.i;
                    self.lx.i += 1;
                    self.lx.sp();
                    if self.lx.s[self.lx.i] == b'!' {
                        self.lx.i = save;
                        break;
                    }
                    let (it, o) = self.topd();
                    let wd = self.ir.bits(it);
                    match o {
                        Opd::K(Val::C(x)) => off += gep_step(self.ir, &mut cur, first, crate::expr::sx(x as u128, wd) as i64),
                        o => {
                            let stride = if first {
                                self.ir.alloc_size(cur) as i64
                            } else {
                                match self.ir.ti(cur).k.clone() {
                                    TyK::Arr(_, e) | TyK::Vec(_, e) => {
                                        cur = e;
                                        self.ir.alloc_size(e) as i64
                                    }
                                    _ => self.lx.err("dyn gep"),
                                }
                            };
                            dynv.push((o, wd, stride));
                        }
                    }
                    first = false;
                }
                self.insts.push(Inst::Gep(dst, base, off, dynv));
            }
            b"alloca" => {
                self.flags(&[b"inalloca", b"swifterror"]);
                let t = self.lx.ty(self.ir);
                let mut cnt: Option<(Opd, u16)> = None;
                loop {
                    self.lx.sp();
                    if self.lx.s[self.lx.i] != b',' {
                        break;
                    }
                    self.lx.i += 1;
                    self.lx.sp();
                    if self.lx.s[self.lx.i] == b'!' {
                        break;
                    }
                    if self.lx.peek_word() == b"align" {
                        self.lx.word();
                        self.lx.int();
                    } else {
                        let (ct, c) = self.topd();
                        let wd = self.ir.bits(ct);
                        cnt = Some((c, wd));
                    }
                }
                let sz = self.ir.alloc_size(t);
                match cnt {
                    None => {
                        let o = (self.frame + 15) / 16 * 16;
                        self.frame = o + sz.max(1);
                        self.insts.push(Inst::Alloca(dst, o));
                    }
                    Some((c, wd)) => self.insts.push(Inst::AllocaDyn(dst, sz, c, wd)),
                }
            }
            b"call" | b"tail" | b"musttail" | b"notail" => {
                if w != b"call" {
                    self.lx.word();
                }
                self.call(dst, false);
            }
            b"invoke" => self.call(dst, true),
            b"br" => {
                if self.lx.peek_word() == b"label" {
                    let e = self.label();
                    self.insts.push(Inst::Br(e));
                } else {
                    let (_, c) = self.topd();
                    self.lx.expect(b',');
                    let a = self.label();
                    self.lx.expect(b',');
                    let b = self.label();
                    self.insts.push(Inst::CondBr(c, a, b));
                }
            }
            b"switch" => {
                let (t, c) = self.topd();
                self.lx.expect(b',');
                let d = self.label();
                self.lx.expect(b'[');
                let wd = self.ir.bits(t);
                let mut cs = vec![];
                while !self.lx.eat(b']') {
                    self.lx.ty(self.ir);
                    let v = match self.lx.peek() {
                        b't' => {
                            self.lx.word();
                            1
                        }
                        b'f' => {
                            self.lx.word();
                            0
                        }
                        b'u' | b's' => match self.lx.konst(self.ir, self.rs, t) {
                            Val::C(x) => x as i128,
                            Val::Big(b) => *b as i128,
                            _ => 0,
                        },
                        _ => self.lx.int(),
                    };
                    self.lx.expect(b',');
                    let e = self.label();
                    cs.push((v as u128 & crate::expr::mask(wd), e));
                }
                self.insts.push(Inst::Switch(c, wd, d, cs));
            }
            b"ret" => {
                let t = self.lx.ty(self.ir);
                if t == self.ir.t_void {
                    self.insts.push(Inst::RetVoid);
                } else {
                    let o = self.opd(t);
                    self.insts.push(Inst::Ret(o));
                }
            }
            b"unreachable" => self.insts.push(Inst::Unreachable),
            b"extractvalue" => {
                let (_, a) = self.topd();
                let mut ix = vec![];
                loop {
                    self.lx.sp();
                    if self.lx.s[self.lx.i] != b',' {
                        break;
                    }
                    self.lx.i += 1;
                    self.lx.sp();
                    if self.lx.s[self.lx.i] == b'!' {
                        break;
                    }
                    ix.push(self.lx.int() as u32);
                }
                self.insts.push(Inst::Extract(dst, a, ix));
            }
            b"insertvalue" => {
                let (_, a) = self.topd();
                self.lx.expect(b',');
                let (_, b) = self.topd();
                let mut ix = vec![];
                loop {
                    self.lx.sp();
                    if self.lx.s[self.lx.i] != b',' {
                        break;
                    }
                    self.lx.i += 1;
                    self.lx.sp();
                    if self.lx.s[self.lx.i] == b'!' {
                        break;
                    }
                    ix.push(self.lx.int() as u32);
                }
                self.insts.push(Inst::Insert(dst, a, b, ix));
            }
            b"extractelement" => {
                let (_, a) = self.topd();
                self.lx.expect(b',');
                let (_, i) = self.topd();
                self.insts.push(Inst::ExtElt(dst, a, i));
            }
            b"insertelement" => {
                let (_, a) = self.topd();
                self.lx.expect(b',');
                let (_, v) = self.topd();
                self.lx.expect(b',');
                let (_, i) = self.topd();
                self.insts.push(Inst::InsElt(dst, a, v, i));
            }
            b"shufflevector" => {
                let (t, a) = self.topd();
                self.lx.expect(b',');
                let (_, b) = self.topd();
                self.lx.expect(b',');
                let (_, m) = self.topd();
                let n = match self.ir.ti(t).k {
                    TyK::Vec(n, _) => n,
                    _ => 0,
                };
                let mv = match m {
                    Opd::K(Val::Agg(v)) => v.iter().map(|x| if let Val::C(c) = x { *c as i32 } else { 0 }).collect(),
                    _ => self.lx.err("shuffle mask"),
                };
                self.insts.push(Inst::Shuffle(dst, a, b, mv, n));
            }
            b"freeze" => {
                let (_, a) = self.topd();
                self.insts.push(Inst::Freeze(dst, a));
            }
            b"fence" => self.insts.push(Inst::Nop),
            b"cmpxchg" => {
                self.flags(&[b"weak", b"volatile"]);
                let (_, p) = self.topd();
                self.lx.expect(b',');
                let (t, a) = self.topd();
                self.lx.expect(b',');
                let (_, b) = self.topd();
                let mut o = self.lx.word();
                if o == b"syncscope" {
                    self.lx.line_end();
                    o = b"seq_cst";
                }
                self.insts.push(Inst::CmpXchg(t, dst, p, a, b, !matches!(o, b"monotonic" | b"release")));
            }
            b"atomicrmw" => {
                self.flags(&[b"volatile"]);
                let op = match self.lx.word() {
                    b"xchg" => 0,
                    b"add" => 1,
                    b"sub" => 2,
                    b"and" => 3,
                    b"nand" => 4,
                    b"or" => 5,
                    b"xor" => 6,
                    b"max" => 7,
                    b"min" => 8,
                    b"umax" => 9,
                    b"umin" => 10,
                    _ => self.lx.err("rmw"),
                };
                let (_, p) = self.topd();
                self.lx.expect(b',');
                let (t, v) = self.topd();
                self.insts.push(Inst::Rmw(op, t, dst, p, v));
            }
            b"landingpad" => {
                self.lx.ty(self.ir);
                self.lx.line_end();
                loop {
                    let save = self.lx.i;
                    let k = self.lx.peek_word();
                    if k == b"cleanup" || k == b"filter" {
                        self.lx.word();
                        self.lx.line_end();
                    } else if k == b"catch" {
                        self.lx.word();
                        self.catch_pads.push(self.insts.len() as u32);
                        self.lx.line_end();
                    } else {
                        self.lx.i = save;
                        break;
                    }
                }
                self.insts.push(Inst::LandingPad(dst));
                return;
            }
            b"resume" => {
                let (_, v) = self.topd();
                self.insts.push(Inst::Resume(v));
            }
            b"phi" => {
                self.flags(&[b"nnan", b"ninf", b"nsz", b"arcp", b"contract", b"afn", b"reassoc", b"fast"]);
                let t = self.lx.ty(self.ir);
                let mut inc = vec![];
                loop {
                    self.lx.expect(b'[');
                    let o = self.opd(t);
                    self.lx.expect(b',');
                    self.lx.ws();
                    let (n, e) = global_name(self.lx.s, self.lx.i).unwrap();
                    self.lx.i = e;
                    let b = self.blk(n);
                    inc.push((b, o));
                    self.lx.expect(b']');
                    self.lx.sp();
                    if self.lx.s[self.lx.i] != b',' {
                        break;
                    }
                    self.lx.i += 1;
                    self.lx.sp();
                    if self.lx.s[self.lx.i] == b'!' {
                        break;
                    }
                }
                let c = self.cur as usize;
                self.phis[c].push((dst, inc));
            }
            _ => self.lx.err(&format!("instruction {}", String::from_utf8_lossy(w))),
        }
        self.lx.line_end();
    }
}

pub fn parse_func(ir: &mut Ir, rs: &mut dyn Resolver, d: Def, name: Name) -> Rc<Func> {
    if let Some(f) = ir.parsed.get(&(d.module, name)) {
        return f.clone();
    }
    let module = d.module as usize;
    let text = ir.modules[module].text;
    let mut lx = Lex { s: text, i: d.off, module };
    lx.word(); // define
    lx.attrs();
    lx.ty(ir);
    lx.ws();
    let (_, e) = global_name(text, lx.i).unwrap();
    lx.i = e;
    let id = ir.nfuncs;
    ir.nfuncs += 1;
    let mut p = Fp { lx, ir, rs, regs: Default::default(), nregs: 0, blocks: Default::default(), nblocks: 0, insts: vec![], edges: vec![], bpc: vec![], phis: vec![], cur: 0, frame: 0, catch_pads: vec![] };
    p.lx.expect(b'(');
    let mut np = 0;
    let mut sret = false;
    let mut unnamed = 0u32;
    if !p.lx.eat(b')') {
        loop {
            if p.lx.s[p.lx.i..].starts_with(b"...") {
                p.lx.i += 3;
            } else {
                let _ = p.lx.ty(p.ir);
                sret |= p.lx.attrs();
                if p.lx.peek() == b'%' {
                    let (n, e) = global_name(text, p.lx.i).unwrap();
                    p.lx.i = e;
                    p.reg(n);
                } else {
                    // unnamed parameter: implicit number
                    let nm: &'static str = Box::leak(unnamed.to_string().into_boxed_str());
                    unnamed += 1;
                    p.reg(nm.as_bytes());
                }
                np += 1;
            }
            p.lx.ws();
            if !p.lx.eat(b',') {
                break;
            }
            p.lx.ws();
        }
        p.lx.expect(b')');
    }
    // to the end of the define line
    p.lx.line_end();
    p.lx.i += 1;
    let mut first = true;
    loop {
        // at line start
        while p.lx.s[p.lx.i] == b'\n' {
            p.lx.i += 1;
        }
        let c = p.lx.s[p.lx.i];
        if c == b'}' {
            break;
        }
        if c == b' ' {
            if first {
                // implicit entry label
                let nm: &'static str = Box::leak(np.to_string().into_boxed_str());
                let b = p.blk(nm.as_bytes());
                p.cur = b;
                p.bpc[b as usize] = p.insts.len() as u32;
                first = false;
            }
            // comment line?
            p.lx.sp();
            if p.lx.s[p.lx.i] == b';' {
                p.lx.line_end();
                continue;
            }
            let le = find_nl(text, p.lx.i);
            let line = &text[p.lx.i..le];
            let multi = [&b"invoke "[..], b"switch ", b"landingpad"].iter().any(|k| line.windows(k.len()).any(|w| w == *k));
            p.inst();
            if !multi {
                p.lx.i = le;
            }
            continue;
        }
        if c == b';' {
            p.lx.line_end();
            continue;
        }
        // label
        let st = p.lx.i;
        let nm: Name = if c == b'"' {
            let mut j = st + 1;
            while text[j] != b'"' {
                j += 1;
            }
            p.lx.i = j + 1;
            &text[st + 1..j]
        } else {
            let mut j = st;
            while text[j] != b':' {
                j += 1;
            }
            p.lx.i = j;
            &text[st..j]
        };
        let b = p.blk(nm);
        first = false;
        p.cur = b;
        p.bpc[b as usize] = p.insts.len() as u32;
        p.lx.line_end();
    }
    for (n, b) in &p.blocks {
        if p.bpc[*b as usize] == u32::MAX {
            panic!("unresolved label {:?} in {}", String::from_utf8_lossy(n), String::from_utf8_lossy(name));
        }
    }
    let mut edges = vec![];
    for (from, to) in &p.edges {
        let mut moves = vec![];
        for (dst, inc) in &p.phis[*to as usize] {
            let o = inc.iter().find(|(b, _)| b == from).map(|x| x.1.clone()).unwrap_or(Opd::K(Val::C(0)));
            moves.push((*dst, o));
        }
        edges.push(Edge { block: *to, pc: p.bpc[*to as usize], moves });
    }
    let dn = crate::exec::demangle(name);
    let sched = !["tokio::", "mio::", "futures", "crossbeam", "std::", "log::"].iter().any(|p| dn.starts_with(p)) || dn.starts_with("std::sync::") || dn.contains("batch_semaphore") || dn.contains("sync::broadcast");
    let f = Rc::new(Func { sched, name, module, nregs: p.nregs, nparams: np, insts: p.insts, edges, frame_size: p.frame, catch_pads: p.catch_pads, id, sret });
    ir.parsed.insert((d.module, name), f.clone());
    f
}

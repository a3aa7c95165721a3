//! Symbolic inputs and assertions. Compiled for the engine the functions are external symbols the engine interprets;
//! compiled natively (feature `native`) they replay a recorded input vector.
#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn __sym_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize);
        fn __sym_assume(c: bool);
        fn __sym_check(c: bool, l: *const u8, ll: usize);
        fn __sym_cover(l: *const u8, ll: usize);
        fn __sym_note(l: *const u8, ll: usize);
        fn __sym_fail(l: *const u8, ll: usize);
        fn __sym_concretize(v: u64) -> u64;
        fn __sym_is_symbolic(v: u64) -> u64;
        fn __sym_explore(on: u64, preemptions: u64);
        fn __sym_exact_fmt(on: u64);
        fn __sym_clock(adv: u64, step: u64) -> u64;
        fn __sym_stop();
        fn __sym_set_const_hash(on: u64);
    }
    #[inline(never)]
    pub fn fill(b: &mut [u8], name: &str) {
        unsafe { __sym_bytes(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) }
    }
    pub fn assume(c: bool) {
        unsafe { __sym_assume(c) }
    }
    pub fn check(c: bool, l: &str) {
        unsafe { __sym_check(c, l.as_ptr(), l.len()) }
    }
    pub fn cover(l: &str) {
        unsafe { __sym_cover(l.as_ptr(), l.len()) }
    }
    pub fn note(l: &str) {
        unsafe { __sym_note(l.as_ptr(), l.len()) }
    }
    pub fn fail(l: &str) {
        unsafe { __sym_fail(l.as_ptr(), l.len()) }
    }
    /// the value on this path; other values are explored on other paths
    pub fn conc(v: u64) -> u64 {
        unsafe { __sym_concretize(v) }
    }
    pub fn is_symbolic(v: u64) -> bool {
        unsafe { __sym_is_symbolic(v) != 0 }
    }
    pub fn explore(on: bool, preemptions: u64) {
        unsafe { __sym_explore(on as u64, preemptions) }
    }
    pub fn exact_fmt(on: bool) {
        unsafe { __sym_exact_fmt(on as u64) }
    }
    /// advance the virtual clock and set how far each reading advances it
    pub fn clock(adv_ns: u64, step_ns: u64) -> u64 {
        unsafe { __sym_clock(adv_ns, step_ns) }
    }
    pub fn stop() {
        unsafe { __sym_stop() }
    }
    /// every std hash becomes one constant (call before the first map is used)
    pub fn const_hash(on: bool) {
        unsafe { __sym_set_const_hash(on as u64) }
    }
    pub const ENGINE: bool = true;
}
#[cfg(feature = "native")]
mod imp {
    use std::sync::Mutex;
    pub static INPUTS: Mutex<(Vec<Vec<u8>>, usize)> = Mutex::new((vec![], 0));
    pub fn fill(b: &mut [u8], name: &str) {
        let mut g = INPUTS.lock().unwrap();
        let i = g.1;
        g.1 += 1;
        if let Some(v) = g.0.get(i) {
            for (k, x) in b.iter_mut().enumerate() {
                *x = v.get(k).copied().unwrap_or(0);
            }
        }
        eprintln!("input {} {} = {:02x?}", i, name, b);
    }
    pub fn assume(c: bool) {
        if !c {
            println!("ASSUMPTION-FAILED");
            std::process::exit(0);
        }
    }
    pub fn check(c: bool, l: &str) {
        if !c {
            println!("CHECK-FAILED {}", l);
            std::process::exit(10);
        }
    }
    pub fn cover(_l: &str) {}
    pub fn note(l: &str) {
        eprintln!("note: {}", l);
    }
    pub fn fail(l: &str) {
        check(false, l)
    }
    pub fn conc(v: u64) -> u64 {
        v
    }
    pub fn is_symbolic(_v: u64) -> bool {
        false
    }
    pub fn explore(_on: bool, _p: u64) {}
    pub fn exact_fmt(_on: bool) {}
    pub fn clock(a: u64, _s: u64) -> u64 {
        std::thread::sleep(std::time::Duration::from_nanos(a.min(50_000_000)));
        0
    }
    pub fn stop() {
        std::process::exit(0)
    }
    pub fn const_hash(_on: bool) {}
    pub const ENGINE: bool = false;
}
pub use imp::*;

macro_rules! anyint {
    ($($n:ident $t:ty),*) => {$(
        pub fn $n(name: &str) -> $t {
            let mut b = [0u8; std::mem::size_of::<$t>()];
            fill(&mut b, name);
            <$t>::from_le_bytes(b)
        }
    )*};
}
anyint!(u8 u8, i8 i8, u16 u16, i16 i16, u32 u32, i32 i32, u64 u64, i64 i64, u128 u128, i128 i128);
pub fn usize(name: &str) -> usize {
    u64(name) as usize
}
pub fn bool(name: &str) -> bool {
    let v = u8(name);
    v & 1 == 1
}
pub fn f64(name: &str) -> f64 {
    f64::from_bits(u64(name))
}
pub fn f32(name: &str) -> f32 {
    f32::from_bits(u32(name))
}
/// symbolic value in [0, n), still symbolic
pub fn below(n: u64, name: &str) -> u64 {
    let v = u64(name);
    assume(v < n);
    v
}
/// a value in [0, n) fixed on this path; every value is explored
pub fn choose(n: u64, name: &str) -> usize {
    let v = u8(name) as u64;
    assume(v < n);
    conc(v) as usize
}
pub fn flip(name: &str) -> bool {
    choose(2, name) == 1
}
pub fn bytes<const N: usize>(name: &str) -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b, name);
    b
}
pub fn vec(n: usize, name: &str) -> Vec<u8> {
    let mut b = vec![0u8; n];
    fill(&mut b, name);
    b
}
#[macro_export]
macro_rules! chk {
    ($c:expr, $l:expr) => {
        $crate::sym::check($c, $l)
    };
}

//! In-memory files under /vfs/, for the engine and for native replay: the libc file functions are defined here and
//! take precedence over the C library's. Writes not yet fsynced are kept apart so that a crash can drop them; faults are
//! injected by counting down operations.
use std::ffi::{c_char, c_int, c_void, CStr};
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Wr {
    pub off: usize,
    pub data: Vec<u8>,
}
pub struct F {
    pub name: Vec<u8>,
    pub data: Vec<u8>,
    pub durable: Vec<u8>,
    pub pending: Vec<Wr>,
    pub syncs: u64,
    pub writes: u64,
}
struct Fd {
    file: usize,
    pos: usize,
    open: bool,
    direct: bool,
}
pub struct Vfs {
    pub files: Vec<F>,
    fds: Vec<Fd>,
    /// 1-based countdown: the n-th such operation from now fails with EIO (0: never)
    pub fail_write: u64,
    pub fail_sync: u64,
    pub fail_read: u64,
    /// the n-th write from now transfers only half of its bytes
    pub short_write: u64,
    pub failed: u64,
    pub misaligned: u64,
}
static mut V: Vfs = Vfs { files: vec![], fds: vec![], fail_write: 0, fail_sync: 0, fail_read: 0, short_write: 0, failed: 0, misaligned: 0 };
static LOCK: AtomicU64 = AtomicU64::new(0);
const BASE: c_int = 10_000;
struct G;
impl Drop for G {
    fn drop(&mut self) {
        LOCK.store(0, Ordering::SeqCst);
    }
}
fn lock() -> G {
    while LOCK.compare_exchange(0, 1, Ordering::SeqCst, Ordering::SeqCst).is_err() {
        std::thread::yield_now();
    }
    G
}
#[allow(static_mut_refs)]
pub fn with<R>(f: impl FnOnce(&mut Vfs) -> R) -> R {
    let _g = lock();
    unsafe { f(&mut V) }
}
pub fn file<R>(name: &str, f: impl FnOnce(&mut F) -> R) -> R {
    with(|v| {
        for x in v.files.iter_mut() {
            if x.name == name.as_bytes() {
                return f(x);
            }
        }
        v.files.push(new_file(name.as_bytes()));
        f(v.files.last_mut().unwrap())
    })
}
fn new_file(n: &[u8]) -> F {
    F { name: n.to_vec(), data: vec![], durable: vec![], pending: vec![], syncs: 0, writes: 0 }
}
/// Power is lost: what was fsynced stays, and of the later writes those for which `keep(i)` holds.
pub fn crash(name: &str, mut keep: impl FnMut(usize) -> bool) {
    file(name, |f| {
        let mut d = std::mem::take(&mut f.durable);
        for (i, w) in std::mem::take(&mut f.pending).into_iter().enumerate() {
            if keep(i) {
                put(&mut d, w.off, &w.data);
            }
        }
        f.durable = d.clone();
        f.data = d;
    })
}
/// As `crash`, keeping the first writes and the beginning of the next one.
pub fn crash_torn(name: &str, whole: usize, mut cut: impl FnMut(usize) -> usize) {
    file(name, |f| {
        let mut d = std::mem::take(&mut f.durable);
        for (i, w) in std::mem::take(&mut f.pending).into_iter().enumerate() {
            if i <= whole {
                let n = if i < whole { w.data.len() } else { cut(w.data.len()) };
                put(&mut d, w.off, &w.data[..n]);
            }
        }
        f.durable = d.clone();
        f.data = d;
    })
}
pub fn pending(name: &str) -> usize {
    file(name, |f| f.pending.len())
}
fn put(d: &mut Vec<u8>, off: usize, s: &[u8]) {
    if d.len() < off + s.len() {
        d.resize(off + s.len(), 0);
    }
    d[off..off + s.len()].copy_from_slice(s);
}
fn err(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}
fn is(fd: c_int) -> bool {
    fd >= BASE
}
macro_rules! sys { ($n:expr, $($a:expr),*) => { if crate::sym::ENGINE { err(libc::ENOENT); -1 } else { unsafe { libc::syscall($n, $($a),*) as _ } } } }

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    let s = CStr::from_ptr(p).to_bytes();
    if !s.starts_with(b"/vfs/") {
        return sys!(libc::SYS_openat, libc::AT_FDCWD, p, flags, mode);
    }
    with(|v| {
        let mut ix = None;
        for (i, f) in v.files.iter().enumerate() {
            if f.name == s {
                ix = Some(i);
            }
        }
        let i = match ix {
            Some(i) => i,
            None => {
                if flags & libc::O_CREAT == 0 {
                    err(libc::ENOENT);
                    return -1;
                }
                v.files.push(new_file(s));
                v.files.len() - 1
            }
        };
        if flags & libc::O_TRUNC != 0 {
            v.files[i].data.clear();
            v.files[i].durable.clear();
            v.files[i].pending.clear();
        }
        v.fds.push(Fd { file: i, pos: 0, open: true, direct: flags & libc::O_DIRECT != 0 });
        BASE + v.fds.len() as c_int - 1
    })
}
fn do_read(fd: c_int, b: *mut u8, n: usize, at: Option<usize>) -> isize {
    with(|v| {
        if v.fail_read > 0 {
            v.fail_read -= 1;
            if v.fail_read == 0 {
                v.failed += 1;
                err(libc::EIO);
                return -1;
            }
        }
        let k = (fd - BASE) as usize;
        let pos = at.unwrap_or(v.fds[k].pos);
        if v.fds[k].direct && (b as usize % 512 != 0 || n % 512 != 0 || pos % 512 != 0) {
            v.misaligned += 1;
            err(libc::EINVAL);
            return -1;
        }
        let f = &v.files[v.fds[k].file];
        let m = f.data.len().saturating_sub(pos).min(n);
        if m > 0 {
            unsafe { std::ptr::copy_nonoverlapping(f.data.as_ptr().add(pos), b, m) }
        }
        if at.is_none() {
            v.fds[k].pos += m;
        }
        m as isize
    })
}
fn do_write(fd: c_int, b: *const u8, n: usize, at: Option<usize>) -> isize {
    with(|v| {
        if v.fail_write > 0 {
            v.fail_write -= 1;
            if v.fail_write == 0 {
                v.failed += 1;
                err(libc::EIO);
                return -1;
            }
        }
        let mut n = n;
        if v.short_write > 0 {
            v.short_write -= 1;
            if v.short_write == 0 && n > 1 {
                n /= 2;
            }
        }
        let k = (fd - BASE) as usize;
        let pos = at.unwrap_or(v.fds[k].pos);
        if v.fds[k].direct && (b as usize % 512 != 0 || n % 512 != 0 || pos % 512 != 0) {
            v.misaligned += 1;
            err(libc::EINVAL);
            return -1;
        }
        let s = unsafe { std::slice::from_raw_parts(b, n) };
        let f = &mut v.files[v.fds[k].file];
        put(&mut f.data, pos, s);
        f.pending.push(Wr { off: pos, data: s.to_vec() });
        f.writes += 1;
        if at.is_none() {
            v.fds[k].pos += n;
        }
        n as isize
    })
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
    if !is(fd) {
        return sys!(libc::SYS_read, fd, b, n);
    }
    do_read(fd, b as *mut u8, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: usize) -> isize {
    if !is(fd) {
        if crate::sym::ENGINE {
            return n as isize;
        }
        return sys!(libc::SYS_write, fd, b, n);
    }
    do_write(fd, b as *const u8, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: usize, o: i64) -> isize {
    if !is(fd) {
        return sys!(libc::SYS_pread64, fd, b, n, o);
    }
    do_read(fd, b as *mut u8, n, Some(o as usize))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: usize, o: i64) -> isize {
    if !is(fd) {
        return sys!(libc::SYS_pwrite64, fd, b, n, o);
    }
    do_write(fd, b as *const u8, n, Some(o as usize))
}
fn do_sync(fd: c_int) -> c_int {
    with(|v| {
        if v.fail_sync > 0 {
            v.fail_sync -= 1;
            if v.fail_sync == 0 {
                v.failed += 1;
                err(libc::EIO);
                return -1;
            }
        }
        let i = v.fds[(fd - BASE) as usize].file;
        let f = &mut v.files[i];
        let mut d = std::mem::take(&mut f.durable);
        for w in std::mem::take(&mut f.pending) {
            put(&mut d, w.off, &w.data);
        }
        f.durable = d;
        f.syncs += 1;
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if !is(fd) {
        return sys!(libc::SYS_fsync, fd);
    }
    do_sync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if !is(fd) {
        return sys!(libc::SYS_fdatasync, fd);
    }
    do_sync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, o: i64, wh: c_int) -> i64 {
    if !is(fd) {
        return sys!(libc::SYS_lseek, fd, o, wh);
    }
    with(|v| {
        let k = (fd - BASE) as usize;
        let base = match wh {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => v.fds[k].pos as i64,
            _ => v.files[v.fds[k].file].data.len() as i64,
        };
        if base + o < 0 {
            err(libc::EINVAL);
            return -1;
        }
        v.fds[k].pos = (base + o) as usize;
        base + o
    })
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    if !is(fd) {
        return sys!(libc::SYS_ftruncate, fd, n);
    }
    with(|v| {
        let i = v.fds[(fd - BASE) as usize].file;
        v.files[i].data.resize(n as usize, 0);
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if !is(fd) {
        return sys!(libc::SYS_fstat, fd, st);
    }
    with(|v| {
        let f = &v.files[v.fds[(fd - BASE) as usize].file];
        std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
        (*st).st_size = f.data.len() as i64;
        (*st).st_mode = libc::S_IFREG | 0o644;
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn statx(fd: c_int, p: *const c_char, fl: c_int, mask: u32, st: *mut libc::statx) -> c_int {
    if !is(fd) {
        return sys!(libc::SYS_statx, fd, p, fl, mask, st);
    }
    with(|v| {
        let f = &v.files[v.fds[(fd - BASE) as usize].file];
        std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::statx>());
        (*st).stx_mask = 0x7ff;
        (*st).stx_size = f.data.len() as u64;
        (*st).stx_mode = (libc::S_IFREG | 0o644) as u16;
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !is(fd) {
        if crate::sym::ENGINE {
            return 0;
        }
        return sys!(libc::SYS_close, fd);
    }
    with(|v| {
        v.fds[(fd - BASE) as usize].open = false;
        0
    })
}

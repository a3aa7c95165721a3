//! The disk manager, on the in-memory files.
use crate::{chk, db, sym, vfs};
use ferrite::storage::disk::async_disk::{AsyncDiskManager, DiskManagerConfig};
use std::sync::Arc;
use tokio::runtime::Runtime;

const SZ: usize = 4096;
fn page(b: [u8; 2]) -> Vec<u8> {
    let mut d = vec![0u8; SZ];
    d[0] = b[0];
    d[1] = 7;
    d[SZ - 1] = b[1];
    d
}
fn is(d: &[u8], b: Option<[u8; 2]>) -> bool {
    match b {
        Some(b) => d.len() == SZ && d[0] == b[0] && d[1] == 7 && d[SZ - 1] == b[1] && d[2000] == 0,
        None => d.len() == SZ && d.iter().all(|x| *x == 0),
    }
}
struct D {
    rt: Runtime,
    d: Option<Arc<AsyncDiskManager>>,
    c: DiskManagerConfig,
    /// what each page may hold: the last written version, and those whose write or flush was refused since
    p: Vec<Vec<Option<[u8; 2]>>>,
    /// what a flush that succeeded put there
    safe: Vec<Vec<Option<[u8; 2]>>>,
    faults: bool,
    n: u8,
}
impl D {
    fn new(c: DiskManagerConfig, pages: usize) -> D {
        let rt = db::rt();
        let d = Some(db::disk(&rt, c.clone()));
        D { rt, d, c, p: vec![vec![None]; pages], safe: vec![vec![None]; pages], faults: false, n: 0 }
    }
    fn d(&self) -> Arc<AsyncDiskManager> {
        self.d.clone().unwrap()
    }
    fn wrote(&mut self, p: usize, b: [u8; 2], ok: bool) {
        self.safe[p].push(Some(b));
        if ok {
            self.p[p] = vec![Some(b)];
        } else {
            self.p[p].push(Some(b));
        }
    }
    fn matches(&self, p: usize, d: &[u8]) -> bool {
        self.p[p].iter().any(|b| is(d, *b))
    }
    /// fresh contents; concrete where they are hashed, and then perhaps those of another page
    fn contents(&mut self) -> [u8; 2] {
        if self.c.cache_size_mb == 0 {
            return sym::bytes::<2>("contents");
        }
        self.n += 1;
        [if sym::flip("same contents") { 99 } else { self.n }, 99]
    }
    fn write(&mut self, p: usize) {
        let b = self.contents();
        let r = self.rt.block_on(self.d().write_page(p as u64, page(b)));
        chk!(r.is_ok() || self.faults, "a write succeeds");
        self.wrote(p, b, r.is_ok());
    }
    fn read(&mut self, p: usize) {
        let r = self.rt.block_on(self.d().read_page(p as u64));
        match r {
            Ok(d) => chk!(self.matches(p, &d), "a page reads as it was last written"),
            Err(_) => chk!(self.faults || self.p[p].contains(&None), "a read of a page that was written succeeds"),
        }
    }
    fn batch_read(&mut self, ps: &[usize]) {
        let r = self.rt.block_on(self.d().read_pages_batch(ps.iter().map(|p| *p as u64).collect()));
        match r {
            Ok(ds) => {
                chk!(ds.len() == ps.len(), "a batch read returns every page");
                for (p, d) in ps.iter().zip(&ds) {
                    chk!(self.matches(*p, d), "a batch reads pages as they were last written");
                }
            }
            Err(_) => chk!(self.faults || ps.iter().any(|p| self.p[*p].contains(&None)), "a batch read of pages that were written succeeds"),
        }
    }
    fn batch_write(&mut self, ps: &[usize]) {
        let w: Vec<(usize, [u8; 2])> = ps.iter().map(|p| (*p, self.contents())).collect();
        let r = self.rt.block_on(self.d().write_pages_batch(w.iter().map(|(p, b)| (*p as u64, page(*b))).collect()));
        chk!(r.is_ok() || self.faults, "a batch write succeeds");
        for (p, b) in w {
            self.wrote(p, b, r.is_ok());
        }
    }
    fn flushed(&mut self, ok: bool) {
        chk!(ok || self.faults, "a flush succeeds");
        if ok {
            self.safe = self.p.clone();
        }
    }
    fn flush(&mut self, kind: usize) {
        let d = self.d();
        let r = match kind {
            0 => self.rt.block_on(d.flush()),
            1 => self.rt.block_on(d.force_flush_all()),
            _ => self.rt.block_on(d.flush_writes_with_durability()),
        };
        self.flushed(r.is_ok())
    }
    fn op(&mut self, o: usize) {
        let n = self.p.len() as u64;
        match o {
            0 => {
                let p = sym::choose(n, "page");
                self.write(p)
            }
            1 => {
                let p = sym::choose(n, "page");
                self.read(p)
            }
            2 => {
                let ps = [vec![1, 0], vec![0, 0], vec![1]][sym::choose(3, "batch")].clone();
                self.batch_read(&ps)
            }
            3 => {
                let ps = [vec![1, 0], vec![0, 0], vec![0, 1, 0]][sym::choose(3, "batch")].clone();
                self.batch_write(&ps)
            }
            o => self.flush(o - 4),
        }
    }
    fn check(&mut self) {
        for p in 0..self.p.len() {
            self.read(p);
        }
    }
    fn reopen(&mut self) {
        drop(self.d.take());
        self.d = Some(db::disk(&self.rt, self.c.clone()));
    }
}
fn config(i: usize) -> DiskManagerConfig {
    let mut c = db::cfg();
    match i {
        0 => {}
        1 => c.cache_size_mb = 8,
        2 => {
            c.work_stealing_enabled = true;
            c.io_threads = 2;
        }
        3 => {
            c.flush_threshold_pages = 1;
            c.batch_size = 1;
        }
        4 => {
            c.cache_size_mb = 8;
            c.work_stealing_enabled = true;
            c.batch_size = 2;
        }
        5 => {
            c.cache_size_mb = 2;
            c.flush_threshold_pages = 2;
            c.flush_interval_ms = 0;
        }
        6 => {
            c.compression_enabled = true;
            c.compression_algorithm = ferrite::storage::disk::async_disk::compression::CompressionAlgorithm::LZ4;
        }
        7 => {
            c.compression_enabled = true;
            c.compression_algorithm = ferrite::storage::disk::async_disk::compression::CompressionAlgorithm::Zstd;
        }
        _ => {
            c.cache_size_mb = 8;
            c.prefetch_enabled = true;
            c.deduplication_enabled = true;
            c.direct_io = true;
        }
    }
    c
}
/// every operation sequence; afterwards every page reads as it was last written, and still does when reopened after a flush
fn ops(c: usize, n: usize, kinds: u64) {
    let mut d = D::new(config(c), 2);
    for _ in 0..n {
        let o = sym::choose(kinds, "op");
        d.op(o);
    }
    d.check();
    let k = sym::choose(3, "flush");
    d.flush(k);
    d.check();
    d.reopen();
    d.check();
    sym::cover("done");
    sym::stop();
}
/// power loss: what a successful flush covered stays, other pages hold one of the versions written since
fn crash(n: usize, cs: &[usize]) {
    let mut c = config(cs[sym::choose(cs.len() as u64, "config")]);
    use ferrite::storage::disk::async_disk::config::{DurabilityLevel, FsyncPolicy};
    c.durability_level = if sym::flip("durable") { DurabilityLevel::Durable } else { DurabilityLevel::Sync };
    c.fsync_policy = if sym::flip("per write") { FsyncPolicy::PerWrite } else { FsyncPolicy::OnFlush };
    let mut d = D::new(c, 2);
    for _ in 0..n {
        let o = [0, 3, 4, 5, 6][sym::choose(5, "op")];
        d.op(o);
    }
    lose(&mut d);
    sym::cover("done");
    sym::stop();
}
fn lose(d: &mut D) {
    drop(d.d.take());
    vfs::crash(db::DB, |_| sym::flip("this write survives"));
    d.d = Some(db::disk(&d.rt, d.c.clone()));
    d.p = std::mem::take(&mut d.safe);
    d.faults = false;
    d.check();
}
/// an I/O error somewhere: it is reported, nothing that succeeded is lost, and a flush that succeeds later covers it all
fn faults(n: usize, crash: bool, cs: &[usize], nths: u64) {
    let mut d = D::new(config(cs[sym::choose(cs.len() as u64, "config")]), 2);
    d.write(0);
    if sym::flip("flushed first") {
        d.flush(0);
    }
    let which = sym::choose(3, "fault");
    let nth = 1 + sym::choose(nths, "nth") as u64;
    vfs::with(|v| match which {
        0 => v.fail_write = nth,
        1 => v.fail_sync = nth,
        _ => v.fail_read = nth,
    });
    d.faults = true;
    for _ in 0..n {
        let o = [0, 1, 3, 4, 5][sym::choose(5, "op")];
        d.op(o);
    }
    if crash {
        vfs::with(|v| (v.fail_write, v.fail_sync, v.fail_read) = (0, 0, 0));
        lose(&mut d);
    } else {
        vfs::with(|v| (v.fail_write, v.fail_sync, v.fail_read) = (0, 0, 0));
        d.faults = false;
        d.check();
        d.flush(0);
        d.check();
        lose(&mut d);
    }
    sym::cover("done");
    sym::stop();
}
/// a write of two pages at once with a reader or a flusher beside it
fn conc(pre: u64, cs: &[usize], others: u64) {
    let c = cs[sym::choose(cs.len() as u64, "config")];
    let mut d = D::new(config(c), 2);
    d.write(0);
    if sym::flip("flushed first") {
        d.flush(0);
        if c != 3 {
            // an old version in the cache, or not
            d.reopen();
        }
    }
    let old = d.p[0][0];
    let new = d.contents();
    let what = sym::choose(others, "other");
    let m = d.d();
    let h = d.rt.handle().clone();
    sym::explore(true, pre);
    let t = std::thread::spawn(move || {
        h.block_on(m.write_page(0, page(new))).unwrap();
        let r = h.block_on(m.read_page(0)).unwrap();
        chk!(is(&r, Some(new)), "a writer reads its own version");
    });
    let m = d.d();
    match what {
        0 => {
            let r = d.rt.block_on(m.read_page(0)).unwrap();
            chk!(is(&r, old) || is(&r, Some(new)), "a reader sees one of the versions");
        }
        1 => d.rt.block_on(m.flush()).unwrap(),
        _ => d.rt.block_on(m.write_page(1, page([1, 2]))).unwrap(),
    }
    t.join().unwrap();
    sym::explore(false, 0);
    d.p[0] = vec![Some(new)];
    if what == 2 {
        d.p[1] = vec![Some([1, 2])];
    }
    d.check();
    d.flush(0);
    d.check();
    d.reopen();
    d.check();
    sym::cover("done");
    sym::stop();
}
crate::harness! {
    disk_plain => { ops(0, 2, 7) }
    disk_cache => { ops(1, 2, 7) }
    disk_steal => { ops([2, 4][sym::choose(2, "config")], 2, 7) }
    disk_small => { ops([3, 5][sym::choose(2, "config")], 2, 7) }
    disk_comp => { ops([6, 7][sym::choose(2, "config")], 2, 7) }
    disk_direct => { ops(8, 2, 7) }
    disk_plain3 => { ops(0, 3, 7) }
    disk_crash => { crash(2, &[0, 1, 3]) }
    disk_crash3 => { crash(3, &[0]) }
    disk_faults => { faults(2, false, &[0], 3) }
    disk_faults1 => { faults(2, false, &[3], 2) }
    disk_faultcrash => { faults(2, true, &[0], 2) }
    disk_faults3 => { faults(3, false, &[0], 3) }
    disk_conc => { conc(1, &[1], 3) }
    disk_conc3 => { conc(1, &[3], 3) }
    disk_conc4 => { conc(1, &[4], 3) }
}

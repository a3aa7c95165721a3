//! The write-ahead log: records, log manager, iterator.
use crate::h_page::tuple;
use crate::{chk, db, sym, vfs};
use ferrite::common::config::INVALID_LSN;
use ferrite::common::rid::RID;
use ferrite::recovery::log_iterator::LogIterator;
use ferrite::recovery::log_manager::LogManager;
use ferrite::recovery::log_record::{LogRecord, LogRecordType as T};
use ferrite::storage::disk::async_disk::AsyncDiskManager;
use parking_lot::RwLock;
use std::sync::Arc;
use tokio::runtime::Runtime;

fn txn(t: u64, prev: u64, ty: T) -> LogRecord {
    LogRecord::new_transaction_record(t, prev, ty)
}
const KINDS: u64 = 9;
/// a record of the given kind; its tuples are arbitrary
fn record(kind: usize, t: u64, prev: u64, rid: RID, len: usize) -> LogRecord {
    let tu = |n| Arc::new(tuple(len, rid, n));
    match kind {
        0 => txn(t, prev, T::Begin),
        1 => txn(t, prev, T::Commit),
        2 => txn(t, prev, T::Abort),
        3 => LogRecord::new_page_record(t, prev, T::NewPage, rid.get_page_id().wrapping_sub(1), rid.get_page_id()),
        4 => LogRecord::new_insert_delete_record(t, prev, T::Insert, rid, tu("inserted")),
        5 => LogRecord::new_insert_delete_record(t, prev, T::MarkDelete, rid, tu("deleted")),
        6 => LogRecord::new_insert_delete_record(t, prev, T::ApplyDelete, rid, tu("deleted")),
        7 => LogRecord::new_insert_delete_record(t, prev, T::RollbackDelete, rid, tu("deleted")),
        _ => LogRecord::new_update_record(t, prev, T::Update, rid, tu("old"), tu("new")),
    }
}
fn same(a: &LogRecord, b: &LogRecord) -> bool {
    a.get_lsn() == b.get_lsn()
        && a.get_txn_id() == b.get_txn_id()
        && a.get_prev_lsn() == b.get_prev_lsn()
        && a.get_log_record_type() == b.get_log_record_type()
        && a.is_commit() == b.is_commit()
        && a.get_page_id() == b.get_page_id()
        && a.get_new_page_record() == b.get_new_page_record()
        && a.get_delete_rid() == b.get_delete_rid()
        && a.get_insert_rid() == b.get_insert_rid()
        && a.get_update_rid() == b.get_update_rid()
        && a.get_delete_tuple() == b.get_delete_tuple()
        && a.get_insert_tuple() == b.get_insert_tuple()
        && a.get_original_tuple() == b.get_original_tuple()
        && a.get_update_tuple() == b.get_update_tuple()
}
fn codec(kind: usize, len: usize) {
    // one of the numbers arbitrary, the others fixed
    let v = sym::u64("number");
    let (mut n, w) = ([1u64, 300, 1 << 40, 2], sym::choose(4, "which number"));
    n[w] = v;
    let rid = RID::new(n[3], sym::below(1 << 14, "slot") as u32);
    let r = record(kind, n[0], n[1], rid, len);
    r.set_lsn(n[2]);
    chk!(r.get_log_record_type() as i32 != 0, "a record has the type it was made with");
    let b = r.to_bytes().unwrap();
    chk!(b.len() > 4 && i32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize == b.len(), "an encoded record begins with its length");
    match LogRecord::from_bytes(&b) {
        Ok(d) => chk!(same(&r, &d), "a log record decodes to the record encoded"),
        Err(_) => sym::fail("an encoded log record decodes"),
    }
    sym::cover("done");
}
/// a log of three records, cut short anywhere
fn torn(base: &[usize], kinds: &[usize], zeros: bool) {
    let rt = db::rt();
    let mut log = vec![];
    let mut recs: Vec<LogRecord> = vec![];
    let mut ends = vec![];
    for i in 0..base.len() + 1 {
        let k = if i < base.len() { base[i] } else { kinds[sym::choose(kinds.len() as u64, "kind")] };
        let r = record(k, 5, i as u64, RID::new(1, i as u32), 3);
        r.set_lsn(i as u64);
        log.extend(r.to_bytes().unwrap());
        ends.push(log.len());
        recs.push(r);
    }
    let start = if zeros { ends[ends.len() - 2] } else { 0 };
    let cut = start + sym::choose((log.len() - start + 1) as u64, "cut");
    log.truncate(cut);
    if zeros {
        log.resize(8192, 0);
    }
    vfs::file(db::LOG, |f| {
        f.data = log.clone();
        f.durable = log;
    });
    let d = db::disk(&rt, db::cfg());
    let got = rt.block_on(LogIterator::new(d).collect());
    let n = ends.iter().filter(|e| **e <= cut).count();
    chk!(got.len() == n, "a log cut short yields its complete records and nothing else");
    for (a, b) in got.iter().zip(&recs) {
        chk!(same(a, b), "the log iterator yields the records written, in order");
    }
    sym::cover(if n == recs.len() { "whole" } else { "cut" });
    sym::stop();
}
struct L {
    rt: Runtime,
    d: Arc<AsyncDiskManager>,
    l: Arc<RwLock<LogManager>>,
}
impl L {
    fn new() -> L {
        let rt = db::rt();
        let d = db::disk(&rt, db::cfg());
        let l = {
            let _g = rt.enter();
            let mut l = LogManager::new(d.clone());
            l.run_flush_thread();
            Arc::new(RwLock::new(l))
        };
        L { rt, d, l }
    }
    fn append(&self, kind: usize, t: u64) -> Arc<LogRecord> {
        let r = Arc::new(record(kind, t, INVALID_LSN, RID::new(1, 0), 2));
        let lsn = self.l.write().append_log_record(r.clone());
        chk!(r.get_lsn() == lsn, "an appended record carries the LSN returned");
        r
    }
    fn persistent(&self) -> Option<u64> {
        let l = self.l.read().get_persistent_lsn();
        (l != INVALID_LSN).then_some(l)
    }
    /// what a restart finds after the loss of any writes not synced
    fn after_crash(&self) -> Vec<LogRecord> {
        vfs::crash(db::LOG, |_| sym::flip("this write survives"));
        let d = db::disk(&self.rt, db::cfg());
        self.rt.block_on(LogIterator::new(d).collect())
    }
}
fn prefix(got: &[LogRecord], rs: &[Arc<LogRecord>], n: usize) {
    chk!(got.len() >= n, "records up to a persistent one survive a crash");
    for (i, r) in rs.iter().enumerate().take(n) {
        chk!(same(&got[i], r), "records up to a persistent one survive a crash");
    }
}
fn appends(n: usize, fault: bool) {
    let l = L::new();
    let mut rs: Vec<Arc<LogRecord>> = vec![];
    if fault {
        let nth = 1 + sym::choose(4, "nth") as u64;
        let what = sym::choose(3, "fault");
        vfs::with(|v| match what {
            0 => v.fail_write = nth,
            1 => v.fail_sync = nth,
            _ => v.short_write = nth,
        });
    }
    let kinds = [0, 1, 8];
    let mut safe = 0;
    for _ in 0..n {
        let k = sym::choose(3, "kind");
        let r = l.append(kinds[k], 7);
        if let Some(p) = rs.last() {
            chk!(r.get_lsn() > p.get_lsn(), "log sequence numbers grow in order of append");
        }
        rs.push(r);
        if k == 1 && !fault {
            safe = rs.len();
            chk!(l.persistent() >= Some(rs[safe - 1].get_lsn()), "a commit returns once it is persistent");
        }
    }
    if sym::flip("shut down") {
        l.l.write().shut_down();
        if !fault {
            safe = rs.len();
        }
    }
    if let Some(p) = l.persistent() {
        safe = safe.max(rs.iter().filter(|r| r.get_lsn() <= p).count());
    }
    vfs::with(|v| (v.fail_write, v.fail_sync, v.short_write) = (0, 0, 0));
    let got = l.after_crash();
    prefix(&got, &rs, safe);
    sym::cover("done");
    sym::stop();
}
/// two transactions appending side by side
fn together(pre: u64) {
    let l = L::new();
    let (l1, l2) = (l.l.clone(), l.l.clone());
    sym::explore(true, pre);
    let add = |l: &Arc<RwLock<LogManager>>, t: u64| {
        let (b, c) = (Arc::new(txn(t, INVALID_LSN, T::Begin)), Arc::new(txn(t, INVALID_LSN, T::Commit)));
        let x = l.write().append_log_record(b.clone());
        let y = l.write().append_log_record(c.clone());
        chk!(x < y, "log sequence numbers grow in order of append");
        let p = l.read().get_persistent_lsn();
        chk!(p != INVALID_LSN && p >= y, "a commit returns once it is persistent");
        vec![b, c]
    };
    let t = std::thread::spawn(move || add(&l1, 1));
    let mut rs = add(&l2, 2);
    rs.extend(t.join().unwrap());
    sym::explore(false, 0);
    rs.sort_by_key(|r| r.get_lsn());
    chk!(rs.windows(2).all(|w| w[0].get_lsn() < w[1].get_lsn()), "no two records share an LSN");
    let got = l.after_crash();
    prefix(&got, &rs, 4);
    sym::cover("done");
    sym::stop();
}
crate::harness! {
    wal_codec => { codec(sym::choose(KINDS, "kind"), 2) }
    wal_codec_long => { codec([4, 8][sym::choose(2, "kind")], 130) }
    wal_torn => { torn(&[0, 4], &[1, 3, 5, 8], false) }
    wal_torn_zeros => { torn(&[1], &[0, 1, 2, 3, 4, 5, 8], true) }
    wal_append => { appends(3, false) }
    wal_append_fault => { appends(3, true) }
    wal_together => { together(1) }
    wal_append4 => { appends(4, false) }
    wal_append_fault4 => { appends(4, true) }
    wal_together2 => { together(2) }
}

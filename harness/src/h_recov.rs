//! Crash recovery from the write-ahead log.
use crate::db::{self, Db};
use crate::h_page::tuple;
use crate::{chk, sym, vfs};
use ferrite::common::config::INVALID_LSN;
use ferrite::common::rid::RID;
use ferrite::recovery::log_iterator::LogIterator;
use ferrite::recovery::log_manager::LogManager;
use ferrite::recovery::log_record::{LogRecord, LogRecordType as T};
use ferrite::recovery::log_recovery::LogRecoveryManager;
use ferrite::storage::page::page_types::table_page::TablePage;
use ferrite::storage::page::PageTrait;
use ferrite::storage::table::tuple::{Tuple, TupleMeta};
use parking_lot::RwLock;
use std::sync::Arc;

#[derive(Clone)]
enum Ch {
    Insert,
    Update(Tuple),
    Delete(Tuple),
}
struct R {
    db: Option<Db>,
    log: Option<Arc<RwLock<LogManager>>>,
    lsn: u64,
    /// per transaction 2 and 3: its last LSN, its changes; none when not running
    run: [Option<(u64, Vec<(usize, Ch)>)>; 2],
    /// tuple and locking transaction per slot, as the running system sees it
    now: Vec<(Option<Tuple>, Option<usize>)>,
    /// committed contents
    safe: Vec<Option<Tuple>>,
    begun: [bool; 2],
    /// restricted to changes of slot 0; crashes cut records
    narrow: bool,
    torn: bool,
}
fn rid(s: usize) -> RID {
    RID::new(0, s as u32)
}
fn tid(t: usize) -> u64 {
    [10, 300][t]
}
impl R {
    fn db(&self) -> &Db {
        self.db.as_ref().unwrap()
    }
    fn write(&mut self, r: LogRecord) -> u64 {
        let l = match &self.log {
            Some(l) => l.write().append_log_record(Arc::new(r)),
            None => {
                r.set_lsn(self.lsn);
                self.lsn += 1;
                let d = &self.db().disk;
                self.db().rt.block_on(d.write_log(&r)).unwrap();
                self.lsn - 1
            }
        };
        l
    }
    fn sync(&self) {
        let d = &self.db().disk;
        self.db().rt.block_on(d.sync_log_direct()).unwrap();
    }
    fn on_page<X>(&self, f: impl FnOnce(&mut TablePage) -> X) -> X {
        let g = self.db().bpm.fetch_page::<TablePage>(0).expect("a page of the table is there");
        let mut p = g.write();
        let x = f(&mut p);
        p.set_dirty(true);
        x
    }
    fn new() -> R {
        let mut r = R {
            db: Some(db::open(3, db::cfg())),
            log: None,
            lsn: 0,
            run: [None, None],
            now: vec![],
            safe: vec![],
            begun: [false; 2],
            narrow: false,
            torn: false,
        };
        {
            let g = r.db().bpm.new_page::<TablePage>().unwrap();
            chk!(g.get_page_id() == 0, "the first page is page 0");
        }
        let a = r.write(LogRecord::new_transaction_record(1, INVALID_LSN, T::Begin));
        let mut prev = r.write(LogRecord::new_page_record(1, a, T::NewPage, u64::MAX, 0));
        for s in 0..2 {
            let t = tuple(1, rid(s), "base");
            prev = r.write(LogRecord::new_insert_delete_record(1, prev, T::Insert, rid(s), Arc::new(t.clone())));
            let mut m = TupleMeta::new(1);
            m.set_commit_timestamp(1);
            r.on_page(|p| p.insert_tuple(&m, &t));
            r.now.push((Some(t.clone()), None));
            r.safe.push(Some(t));
        }
        r.write(LogRecord::new_transaction_record(1, prev, T::Commit));
        r.sync();
        r
    }
    fn begin(&mut self, t: usize) {
        if self.run[t].is_none() {
            let l = self.write(LogRecord::new_transaction_record(tid(t), INVALID_LSN, T::Begin));
            self.run[t] = Some((l, vec![]));
            self.begun[t] = true;
        }
    }
    fn change(&mut self, t: usize, s: usize, c: Ch) {
        let last = self.run[t].as_ref().unwrap().0;
        let m = TupleMeta::new(tid(t));
        let l = match &c {
            Ch::Insert => {
                let n = tuple(1, rid(s), "inserted");
                let l = self.write(LogRecord::new_insert_delete_record(tid(t), last, T::Insert, rid(s), Arc::new(n.clone())));
                self.on_page(|p| p.insert_tuple(&m, &n)).unwrap();
                self.now.push((Some(n), Some(t)));
                self.safe.push(None);
                l
            }
            Ch::Update(old) => {
                let n = tuple(1, rid(s), "updated");
                let l = self.write(LogRecord::new_update_record(tid(t), last, T::Update, rid(s), Arc::new(old.clone()), Arc::new(n.clone())));
                self.on_page(|p| p.update_tuple(m, &n, rid(s))).unwrap();
                self.now[s] = (Some(n), Some(t));
                l
            }
            Ch::Delete(old) => {
                let l = self.write(LogRecord::new_insert_delete_record(tid(t), last, T::MarkDelete, rid(s), Arc::new(old.clone())));
                let mut m = m;
                m.set_deleted(true);
                self.on_page(|p| p.update_tuple(m, old, rid(s))).unwrap();
                self.now[s] = (None, Some(t));
                l
            }
        };
        let r = self.run[t].as_mut().unwrap();
        r.0 = l;
        r.1.push((s, c));
    }
    fn end(&mut self, t: usize, commit: bool) {
        let Some((last, cs)) = self.run[t].take() else { return };
        let mut m = TupleMeta::new(tid(t));
        m.set_commit_timestamp(7);
        if commit {
            self.write(LogRecord::new_transaction_record(tid(t), last, T::Commit));
            self.sync();
            for s in 0..self.now.len() {
                if self.now[s].1 == Some(t) {
                    let c = self.now[s].0.clone();
                    m.set_deleted(c.is_none());
                    self.on_page(|p| p.update_tuple_meta(m, &rid(s))).unwrap();
                    self.now[s].1 = None;
                    self.safe[s] = c;
                }
            }
        } else {
            // rolled back in place, then logged
            for (s, c) in cs.into_iter().rev() {
                let old = match c {
                    Ch::Insert => None,
                    Ch::Update(o) | Ch::Delete(o) => Some(o),
                };
                m.set_deleted(old.is_none());
                match &old {
                    Some(o) => self.on_page(|p| p.update_tuple(m, o, rid(s))).unwrap(),
                    None => self.on_page(|p| p.update_tuple_meta(m, &rid(s))).unwrap(),
                };
                self.now[s] = (old, None);
            }
            self.write(LogRecord::new_transaction_record(tid(t), last, T::Abort));
        }
    }
    fn step(&mut self) {
        let op = if self.narrow { 1 + sym::choose(4, "op") } else { sym::choose(6, "op") };
        if op == 5 {
            return self.flush();
        }
        // 10 begins before 300
        let t = if self.begun[0] { sym::choose(2, "transaction") } else { 0 };
        match op {
            0 => {
                self.begin(t);
                let s = self.now.len();
                self.change(t, s, Ch::Insert)
            }
            1 | 2 => {
                let s = if self.narrow { 0 } else { sym::choose(self.now.len() as u64, "slot") };
                let (Some(old), l) = self.now[s].clone() else { return sym::assume(false) };
                if l.is_some_and(|l| l != t) {
                    return sym::assume(false); // another transaction has it locked
                }
                self.begin(t);
                self.change(t, s, if op == 1 { Ch::Update(old) } else { Ch::Delete(old) })
            }
            _ => {
                sym::assume(self.run[t].is_some());
                self.end(t, op == 3)
            }
        }
    }
    /// write-ahead: the log first
    fn flush(&mut self) {
        self.sync();
        chk!(self.db().rt.block_on(self.db().bpm.flush_page_async(0)).is_ok(), "a page flushes");
        let d = &self.db().disk;
        self.db().rt.block_on(d.sync()).unwrap();
    }
    fn crash(&mut self) {
        self.log = None;
        drop(self.db.take());
        let n = vfs::pending(db::LOG);
        let kept = match n {
            0 => 0,
            _ if self.narrow => n * sym::choose(2, "log writes kept"),
            _ => sym::choose(n as u64 + 1, "log writes kept"),
        };
        if self.torn && kept < n {
            vfs::crash_torn(db::LOG, kept, |l| [3, l / 2, l - 1][sym::choose(3, "cut")]);
            self.torn = false;
        } else {
            vfs::crash(db::LOG, |i| i < kept);
        }
        vfs::crash(db::DB, |_| false);
        self.run = [None, None];
        for s in 0..self.safe.len() {
            self.now[s] = (self.safe[s].clone(), None);
        }
    }
    fn recover(&mut self) {
        let d = db::open(3, db::cfg());
        let l = {
            let _g = d.rt.enter();
            let mut l = LogManager::new(d.disk.clone());
            l.run_flush_thread();
            Arc::new(RwLock::new(l))
        };
        let r = d.rt.block_on(LogRecoveryManager::new(d.disk.clone(), l.clone(), d.bpm.clone()).start_recovery());
        chk!(r.is_ok(), "recovery succeeds");
        self.db = Some(d);
        self.log = Some(l);
        self.check();
    }
    fn check(&self) {
        let g = self.db().bpm.fetch_page::<TablePage>(0).expect("a page of the table is there");
        let p = g.read();
        for (s, e) in self.safe.iter().enumerate() {
            match (e, p.get_tuple(&rid(s), false)) {
                (Some(e), Ok((m, t))) => {
                    chk!(t == *e, "recovery leaves the value of the last committed change");
                    chk!(m.is_committed(), "recovery leaves committed tuples visible");
                }
                (None, Err(_)) => {}
                (Some(_), Err(_)) => sym::fail("recovery keeps committed tuples"),
                (None, Ok(_)) => sym::fail("recovery leaves nothing of transactions that did not commit"),
            }
        }
    }
}
/// `n` steps, crash, recovery; then what `more` asks for
fn recov(n: usize, more: usize, flushed: bool) {
    recov1(n, more, flushed, false, false)
}
fn recov1(n: usize, more: usize, flushed: bool, narrow: bool, torn: bool) {
    let mut r = R::new();
    (r.narrow, r.torn) = (narrow, torn);
    if flushed {
        r.flush();
    }
    for _ in 0..n {
        r.step();
    }
    r.crash();
    r.recover();
    match more {
        0 => {}
        1 => {
            // recovery again, the recovered page flushed or not
            if sym::flip("recovered page flushed") {
                r.flush();
            }
            r.crash();
            r.recover();
        }
        _ => {
            // a new transaction, after a crash of the recovered system or not
            let top = r.db().rt.block_on(LogIterator::new(r.db().disk.clone()).collect()).iter().map(|x| x.get_lsn()).max().unwrap();
            let next = r.log.as_ref().unwrap().read().get_next_lsn();
            chk!(next > top, "log sequence numbers are not used again after a restart");
            r.begin(1);
            if let Some(o) = r.safe[0].clone() {
                r.change(1, 0, Ch::Update(o));
            }
            let commit = sym::flip("commits");
            if commit {
                r.end(1, true);
            }
            r.crash();
            r.recover();
        }
    }
    sym::cover("done");
    sym::stop();
}
crate::harness! {
    recov_ops2 => { recov(2, 0, false) }
    recov_ops2f => { recov(2, 0, true) }
    recov_twice => { recov(2, 1, true) }
    recov_then => { recov(2, 2, true) }
    recov_torn => { recov1(1, 2, false, false, true) }
    recov_slot4 => { recov1(4, 0, true, true, false) }
    recov_slot5 => { recov1(5, 0, true, true, false) }
    recov_torn2 => { recov1(2, 2, false, false, true) }
    recov_ops3 => { recov(3, 0, false) }
    recov_ops3f => { recov(3, 0, true) }
    recov_twice_n => { recov(2, 1, false) }
    recov_then_n => { recov(2, 2, false) }
    recov_twice3 => { recov(3, 1, true) }
    recov_then3 => { recov(3, 2, true) }
}

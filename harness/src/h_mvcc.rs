//! Transactions on a table: visibility, conflicts, commit and rollback.
use crate::db::{self, Db};
use crate::h_page::{schema, tuple};
use crate::{chk, sym, vfs};
use ferrite::common::rid::RID;
use ferrite::concurrency::lock_manager::LockMode;
use ferrite::concurrency::transaction::{IsolationLevel, Transaction, TransactionState};
use ferrite::concurrency::transaction_manager_factory::TransactionManagerFactory;
use ferrite::sql::execution::transaction_context::TransactionContext;
use ferrite::storage::table::table_heap::TableHeap;
use ferrite::storage::table::transactional_table_heap::TransactionalTableHeap;
use ferrite::storage::table::tuple::{Tuple, TupleMeta};
use ferrite::recovery::log_iterator::LogIterator;
use ferrite::recovery::log_manager::LogManager;
use ferrite::recovery::log_record::{LogRecord, LogRecordType};
use ferrite::recovery::wal_manager::WALManager;
use parking_lot::RwLock;
use std::sync::Arc;
use IsolationLevel::*;

struct Txn {
    ctx: Arc<TransactionContext>,
    level: IsolationLevel,
    begin: u64,
}
#[derive(Default)]
struct Row {
    /// committed versions and when they were committed
    done: Vec<(Option<Tuple>, u64)>,
    /// the transaction changing the row, and what it made of it
    pend: Option<(usize, Option<Tuple>)>,
}
struct M {
    db: Db,
    f: Arc<TransactionManagerFactory>,
    t: TransactionalTableHeap,
    clock: u64,
    txns: Vec<Option<Txn>>,
    rows: Vec<Row>,
    size: usize,
}
fn rid(s: usize) -> RID {
    RID::new(0, s as u32)
}
fn same(a: &Tuple, b: &Tuple) -> bool {
    a.get_values() == b.get_values()
}
impl M {
    fn new(rows: usize, txns: usize, size: usize) -> M {
        let db = db::open(4, db::cfg());
        let f = Arc::new(TransactionManagerFactory::new(db.bpm.clone()));
        let h = Arc::new(TableHeap::new(db.bpm.clone(), 1));
        let t = TransactionalTableHeap::new(h, 1);
        f.get_transaction_manager().register_table(Arc::new(t.clone()));
        let mut m = M { db, f, t, clock: 0, txns: (0..txns + 1).map(|_| None).collect(), rows: vec![], size };
        if rows > 0 {
            m.begin(txns, ReadCommitted);
            for _ in 0..rows {
                m.insert(txns);
            }
            m.commit(txns);
        }
        m
    }
    fn ctx(&self, t: usize) -> Arc<TransactionContext> {
        self.txns[t].as_ref().unwrap().ctx.clone()
    }
    fn begin(&mut self, t: usize, level: IsolationLevel) {
        self.clock += 1;
        self.txns[t] = Some(Txn { ctx: self.f.begin_transaction(level), level, begin: self.clock });
    }
    fn insert(&mut self, t: usize) {
        let s = self.rows.len();
        let v = tuple(self.size, rid(s), "v");
        let c = self.ctx(t);
        let r = self.t.insert_tuple(Arc::new(TupleMeta::new(c.get_transaction_id())), &v, c);
        chk!(r == Ok(rid(s)), "a running transaction can insert");
        self.rows.push(Row { done: vec![], pend: Some((t, Some(v))) });
    }
    /// whether transaction t may change row s
    fn may(&self, t: usize, s: usize) -> bool {
        let x = self.txns[t].as_ref().unwrap();
        match &self.rows[s].pend {
            Some((o, v)) => *o == t && v.is_some(),
            None => match self.rows[s].done.last() {
                Some((v, c)) => v.is_some() && (matches!(x.level, ReadUncommitted | ReadCommitted) || *c < x.begin),
                None => false,
            },
        }
    }
    fn change(&mut self, t: usize, s: usize, v: Option<Tuple>) {
        let c = self.ctx(t);
        let ok = match &v {
            // the executors pass the metadata of nobody
            Some(x) => self.t.update_tuple(&TupleMeta::new(0), x, rid(s), c).is_ok(),
            None => self.t.delete_tuple(rid(s), c).is_ok(),
        };
        let may = self.may(t, s);
        chk!(ok || !may, "a transaction can change a row it sees that no other changed");
        chk!(!ok || may, "a row changed by another transaction since is not overwritten");
        if may {
            self.rows[s].pend = Some((t, v));
        }
    }
    fn commit(&mut self, t: usize) {
        let ok = self.db.rt.block_on(self.f.commit_transaction(self.ctx(t)));
        chk!(ok, "a running transaction can commit");
        chk!(self.ctx(t).get_transaction().get_state() == TransactionState::Committed, "a commit commits");
        self.clock += 1;
        for r in self.rows.iter_mut() {
            if r.pend.as_ref().is_some_and(|p| p.0 == t) {
                r.done.push((r.pend.take().unwrap().1, self.clock));
            }
        }
        self.txns[t] = None;
    }
    fn abort(&mut self, t: usize) {
        self.f.abort_transaction(self.ctx(t));
        chk!(self.ctx(t).get_transaction().get_state() == TransactionState::Aborted, "an abort aborts");
        for r in self.rows.iter_mut() {
            if r.pend.as_ref().is_some_and(|p| p.0 == t) {
                r.pend = None;
            }
        }
        self.txns[t] = None;
    }
    fn sees(&self, t: usize, s: usize) -> Option<Tuple> {
        let x = self.txns[t].as_ref().unwrap();
        let r = &self.rows[s];
        match &r.pend {
            Some((o, v)) if *o == t || x.level == ReadUncommitted => return v.clone(),
            _ => {},
        }
        let all = matches!(x.level, ReadUncommitted | ReadCommitted);
        r.done.iter().rev().find(|(_, c)| all || *c < x.begin).and_then(|(v, _)| v.clone())
    }
    fn check(&self) {
        for t in 0..self.txns.len() {
            if self.txns[t].is_none() {
                continue;
            }
            for s in 0..self.rows.len() {
                let g = self.t.get_tuple(rid(s), self.ctx(t));
                match self.sees(t, s) {
                    Some(v) => {
                        chk!(g.is_ok(), "a transaction sees every row of its snapshot");
                        chk!(same(&g.unwrap().1, &v), "a transaction sees the version of its snapshot");
                    },
                    None => chk!(g.is_err(), "a transaction sees no row outside its snapshot"),
                }
            }
        }
    }
    fn scan(&self, t: usize) {
        let mut it = self.t.make_iterator(Some(self.ctx(t)));
        for s in 0..self.rows.len() {
            if let Some(v) = self.sees(t, s) {
                let g = it.next();
                chk!(g.is_some(), "a scan returns every visible row");
                chk!(same(&g.unwrap().1, &v), "a scan returns the visible version of each row");
                chk!(it.get_last_rid() == Some(rid(s)), "a scan tells the id of the row it returned");
            }
        }
        chk!(it.next().is_none(), "a scan returns each visible row once");
    }
    fn end(&mut self) {
        let n = self.txns.len() - 1;
        for t in 0..n {
            if self.txns[t].is_some() {
                self.scan(t);
            }
        }
        self.begin(n, Snapshot);
        self.check();
        self.scan(n);
        sym::cover("done");
        sym::stop()
    }
}
const LEVEL: [IsolationLevel; 5] = [ReadCommitted, Snapshot, ReadUncommitted, RepeatableRead, Serializable];
/// all histories of n steps of the transactions over the rows
fn mvcc_hist(n: usize, txns: usize, rows: usize, levels: usize, inserts: bool) {
    let mut m = M::new(rows, txns, 1);
    let mut begun = 0;
    for _ in 0..n {
        let t = sym::choose(txns.min(begun + 1) as u64, "transaction");
        if m.txns[t].is_none() {
            if t == begun {
                begun += 1;
            }
            m.begin(t, LEVEL[sym::choose(levels as u64, "level")]);
            // beginning alone is a step of its own
            if sym::flip("wait") {
                m.check();
                continue;
            }
        }
        let k = m.rows.len();
        match sym::choose((2 * k + 2 + inserts as usize) as u64, "operation") {
            0 => m.commit(t),
            1 => m.abort(t),
            o if o < 2 + k => {
                let v = tuple(m.size, rid(o - 2), "v");
                m.change(t, o - 2, Some(v));
            },
            o if o < 2 + 2 * k => m.change(t, o - 2 - k, None),
            _ => m.insert(t),
        }
        m.check();
    }
    m.end()
}
/// as mvcc_hist, with the garbage of old versions collected after every step
fn mvcc_gc_hist(n: usize) {
    let mut m = M::new(1, 2, 1);
    m.begin(0, Snapshot);
    let (mut begun, tm) = (1, m.f.get_transaction_manager());
    for _ in 0..n {
        let t = sym::choose(2.min(begun + 1), "transaction");
        if m.txns[t].is_none() {
            begun = 2;
            m.begin(t, Snapshot);
        }
        match sym::choose(4, "operation") {
            0 => m.commit(t),
            1 => m.abort(t),
            2 => {
                let v = tuple(1, rid(0), "v");
                m.change(t, 0, Some(v));
            },
            _ => m.change(t, 0, None),
        }
        tm.garbage_collection();
        m.check();
    }
    m.end()
}
/// rows of other sizes on a page with little or no room
fn mvcc_full(n: usize) {
    let mut m = M::new(0, 2, 1300);
    m.begin(2, ReadCommitted);
    for _ in 0..2 {
        m.insert(2);
    }
    m.commit(2);
    m.begin(0, Snapshot);
    for _ in 0..n {
        let t = sym::choose(2, "transaction");
        if m.txns[t].is_none() {
            m.begin(t, ReadCommitted);
        }
        match sym::choose(4, "operation") {
            0 => m.commit(t),
            1 => m.abort(t),
            o => {
                let c = m.ctx(t);
                let v = tuple([1, 1300, 1500][sym::choose(3, "size")], rid(o - 2), "v");
                if m.may(t, o - 2) && m.t.update_tuple(&TupleMeta::new(0), &v, rid(o - 2), c).is_ok() {
                    m.rows[o - 2].pend = Some((t, Some(v)));
                }
            },
        }
        m.check();
    }
    m.end()
}
/// a commit or rollback of two changes beside a reader
fn mvcc_atomic(preempt: u64) {
    let mut m = M::new(2, 2, 1);
    m.begin(0, ReadCommitted);
    let old: Vec<_> = (0..2).map(|s| m.rows[s].done[0].0.clone().unwrap()).collect();
    let new: Vec<_> = (0..2).map(|s| tuple(1, rid(s), "v")).collect();
    for s in 0..2 {
        m.change(0, s, Some(new[s].clone()));
    }
    let abort = sym::flip("abort");
    let (t, f, c) = (m.t.clone(), m.f.clone(), m.ctx(0));
    let level = LEVEL[sym::choose(2, "level")];
    let before = sym::flip("reader begins first").then(|| f.begin_transaction(level));
    sym::explore(true, preempt);
    let r = std::thread::spawn(move || {
        let first = before.is_some();
        let x = before.unwrap_or_else(|| f.begin_transaction(level));
        let got: Vec<_> = [0, 1, 0].iter().map(|s| t.get_tuple(rid(*s), x.clone())).collect();
        (first, got)
    });
    if abort {
        m.f.abort_transaction(c);
    } else {
        chk!(m.db.rt.block_on(m.f.commit_transaction(c)), "a running transaction can commit");
    }
    let (first, got) = r.join().unwrap();
    sym::explore(false, 0);
    chk!(got.iter().all(|g| g.is_ok()), "a transaction sees every row of its snapshot");
    let got: Vec<_> = got.into_iter().map(|g| g.unwrap().1).collect();
    let is = |v: &[Tuple], i: usize| same(&got[i], &v[i % 2]);
    let olds = is(&old, 0) && is(&old, 1) && is(&old, 2);
    let news = is(&new, 0) && is(&new, 1) && is(&new, 2);
    if abort || (first && level == Snapshot) {
        chk!(olds, "a transaction sees the version of its snapshot");
    } else if level == Snapshot {
        chk!(olds || news, "the changes of a commit are seen together");
    } else {
        for i in 0..3 {
            chk!(is(&old, i) || is(&new, i), "a transaction sees the version of its snapshot");
        }
    }
    sym::cover("done");
    sym::stop()
}
/// two transactions on two threads changing one row
fn mvcc_race(preempt: u64) {
    let mut m = M::new(1, 2, 1);
    let level = LEVEL[sym::choose(2, "level")];
    m.begin(0, level);
    m.begin(1, level);
    let v: Vec<_> = (0..2).map(|i| tuple(1, rid(i), "v")).collect();
    let (ends, del) = (sym::flip("the first commits"), sym::flip("the other deletes"));
    let (t, c, w) = (m.t.clone(), m.ctx(1), v[1].clone());
    sym::explore(true, preempt);
    let h = std::thread::spawn(move || if del { t.delete_tuple(rid(0), c).is_ok() } else { t.update_tuple(&TupleMeta::new(0), &w, rid(0), c).is_ok() });
    let a = m.t.update_tuple(&TupleMeta::new(0), &v[0], rid(0), m.ctx(0)).is_ok();
    if ends {
        chk!(m.db.rt.block_on(m.f.commit_transaction(m.ctx(0))), "a running transaction can commit");
    }
    let b = h.join().unwrap();
    sym::explore(false, 0);
    chk!(a || b, "a transaction can change a row it sees that no other changed");
    if level == Snapshot || !ends {
        chk!(!(a && b), "a row changed by another transaction since is not overwritten");
    }
    if a {
        m.rows[0].pend = Some((0, Some(v[0].clone())));
    }
    if ends {
        m.clock += 1;
        if let Some((_, x)) = m.rows[0].pend.take() {
            m.rows[0].done.push((x, m.clock));
        }
        m.txns[0] = None;
    }
    if b {
        m.rows[0].pend = Some((1, if del { None } else { Some(v[1].clone()) }));
    }
    m.check();
    m.end()
}
/// ends of two transactions under a log that may fail, and what a crash leaves of them
fn mvcc_ends(n: usize, fault: bool) {
    let db = db::open(4, db::cfg());
    let log = {
        let _g = db.rt.enter();
        let mut l = LogManager::new(db.disk.clone());
        l.run_flush_thread();
        Arc::new(RwLock::new(l))
    };
    let wal = Arc::new(WALManager::new(log));
    let f = Arc::new(TransactionManagerFactory::with_wal_manager(db.bpm.clone(), wal));
    let t = TransactionalTableHeap::new(Arc::new(TableHeap::new(db.bpm.clone(), 1)), 1);
    f.get_transaction_manager().register_table(Arc::new(t.clone()));
    let x: Vec<_> = (0..2).map(|_| f.begin_transaction(ReadCommitted)).collect();
    let v: Vec<_> = (0..2).map(|i| tuple(1, rid(i), "v")).collect();
    for i in 0..2 {
        let c = x[i].clone();
        let r = t.insert_tuple(Arc::new(TupleMeta::new(c.get_transaction_id())), &v[i], c);
        chk!(r.is_ok(), "a running transaction can insert");
    }
    if fault {
        let nth = 1 + sym::choose(3, "nth");
        let what = sym::choose(3, "fault");
        vfs::with(|v| match what {
            0 => v.fail_write = nth as u64,
            1 => v.fail_sync = nth as u64,
            _ => v.short_write = nth as u64,
        });
    }
    let mut end = [None, None];
    for _ in 0..n {
        let i = sym::choose(2, "transaction");
        if sym::flip("commit") {
            let ok = db.rt.block_on(f.commit_transaction(x[i].clone()));
            chk!(fault || ok == (end[i] != Some(false)), "a running transaction can commit, one that aborted cannot");
            chk!(!ok || end[i] != Some(false), "an aborted transaction does not commit");
            if ok || end[i].is_none() {
                end[i] = Some(ok);
            }
        } else {
            f.abort_transaction(x[i].clone());
            if end[i].is_none() {
                end[i] = Some(false);
            }
        }
    }
    if !fault {
        let want = |i: usize| match end[i] {
            Some(true) => TransactionState::Committed,
            Some(false) => TransactionState::Aborted,
            None => TransactionState::Running,
        };
        for i in 0..2 {
            chk!(x[i].get_transaction().get_state() == want(i), "a transaction ends once, as it was told first");
        }
        let other = Arc::new(Transaction::new(77, ReadCommitted));
        let free = end.iter().all(|e| e.is_some());
        let l = f.get_lock_manager();
        chk!(l.lock_table(other, LockMode::Exclusive, 1) == Ok(free), "the locks of a transaction end with it");
    }
    vfs::with(|v| (v.fail_write, v.fail_sync, v.short_write) = (0, 0, 0));
    vfs::crash(db::LOG, |_| sym::flip("this write survives"));
    let rt = db::rt();
    let d = db::disk(&rt, db::cfg());
    let got: Vec<LogRecord> = rt.block_on(LogIterator::new(d).collect());
    for i in 0..2 {
        let id = x[i].get_transaction_id();
        let kinds: Vec<_> = got.iter().filter(|r| r.get_txn_id() == id && (r.is_commit() || r.get_log_record_type() == LogRecordType::Abort)).map(|r| r.is_commit()).collect();
        chk!(kinds.len() <= 1, "a transaction is logged to end once");
        chk!(end[i] != Some(true) || kinds == [true], "a transaction reported committed is logged as committed");
        chk!(fault || end[i] == Some(true) || kinds != [true], "a transaction that did not commit is not logged as committed");
    }
    sym::cover("done");
    sym::stop()
}
/// transaction ids, timestamps and the watermark over histories of n begins and ends
fn mvcc_marks(n: usize) {
    let db = db::open(2, db::cfg());
    let tm = TransactionManagerFactory::new(db.bpm.clone()).get_transaction_manager();
    let mut all: Vec<(Arc<Transaction>, bool)> = vec![];
    let (mut last, mut mark) = (0, 0);
    for _ in 0..n {
        let open: Vec<usize> = (0..all.len()).filter(|i| all[*i].1).collect();
        match sym::choose(1 + 2 * open.len() as u64, "operation") {
            0 => {
                let t = tm.begin(LEVEL[all.len() % 5]).unwrap();
                chk!(all.iter().all(|(o, _)| o.get_transaction_id() != t.get_transaction_id()), "transaction ids are given once");
                chk!(t.read_ts() > last, "timestamps grow");
                chk!(t.get_state() == TransactionState::Running, "a transaction that began runs");
                last = t.read_ts();
                all.push((t, true));
            },
            o => {
                let i = open[(o - 1) / 2];
                let t = all[i].0.clone();
                all[i].1 = false;
                if o % 2 == 1 {
                    chk!(db.rt.block_on(tm.commit(t.clone(), db.bpm.clone())), "a running transaction can commit");
                    chk!(t.commit_ts() > last && t.commit_ts() > t.read_ts(), "timestamps grow");
                    chk!(t.get_state() == TransactionState::Committed, "a transaction ends once, as it was told first");
                    last = t.commit_ts();
                } else {
                    tm.abort(t.clone());
                    chk!(t.get_state() == TransactionState::Aborted, "a transaction ends once, as it was told first");
                }
            },
        }
        let w = tm.get_watermark();
        chk!(w >= mark, "the watermark never falls");
        mark = w;
        let low = all.iter().filter(|a| a.1).map(|a| a.0.read_ts()).min();
        chk!(w == low.unwrap_or(w) && w <= last + 1, "the watermark is the oldest running snapshot");
        chk!(low.is_some() || w > last, "the watermark is the oldest running snapshot");
        for (t, on) in &all {
            chk!(!on || tm.get_transaction(&t.get_transaction_id()).is_some(), "a running transaction is known");
        }
    }
    tm.shutdown().unwrap();
    for (t, on) in &all {
        chk!(!on || t.get_state() == TransactionState::Aborted, "a shutdown aborts what still runs");
    }
    chk!(tm.begin(Snapshot).is_err(), "no transaction begins after a shutdown");
    sym::cover("done");
    sym::stop()
}
/// n tuples of sizes that fill pages, found again by id and by scan
fn heap_pages(n: usize) {
    let mut db = db::open(3, db::cfg());
    let h = Arc::new(TableHeap::new(db.bpm.clone(), 1));
    let t = TransactionalTableHeap::new(h.clone(), 1);
    let f = TransactionManagerFactory::new(db.bpm.clone());
    f.get_transaction_manager().register_table(Arc::new(t.clone()));
    let x = f.begin_transaction(ReadCommitted);
    let mut have: Vec<(Option<RID>, Tuple)> = vec![];
    for _ in 0..n {
        let len = [1, 1300, 2500, 3960, 4000, 4100][sym::choose(6, "size")];
        let v = tuple(len, RID::new(9, 9), "v");
        if sym::flip("bulk") {
            let w = tuple(1, RID::new(9, 9), "v");
            let b = [w.get_values(), v.get_values()];
            let r = db.rt.block_on(t.bulk_insert_tuples_from_values_async(&b, &schema(), x.clone()));
            chk!(r == Ok(2) || len > 3900, "rows that fit a page can be inserted together");
            have.push((None, w));
            if r.is_ok() {
                have.push((None, v));
            }
            continue;
        }
        match t.insert_tuple_from_values(v.get_values(), &schema(), x.clone()) {
            Ok(r) => {
                chk!(have.iter().all(|(o, _)| *o != Some(r)), "every tuple has an id of its own");
                have.push((Some(r), v));
            },
            Err(_) => chk!(len > 3900, "a tuple that fits a page can be inserted"),
        }
    }
    if sym::flip("commit") {
        chk!(db.rt.block_on(f.commit_transaction(x)), "a running transaction can commit");
    } else {
        f.abort_transaction(x);
        have.clear();
    }
    // read by the heap, or by one opened on the pages
    let t = if sym::flip("reopen") {
        let (a, b) = (h.get_first_page_id(), h.get_last_page_id());
        db.rt.block_on(db.bpm.flush_all_pages_async());
        db.rt.block_on(db.disk.force_flush_all()).unwrap();
        drop((t, h, f));
        db = db::open(3, db::cfg());
        TransactionalTableHeap::new(Arc::new(TableHeap::reopen(db.bpm.clone(), 1, a, b)), 1)
    } else {
        t
    };
    let f = TransactionManagerFactory::new(db.bpm.clone());
    let x = f.begin_transaction(ReadCommitted);
    let mut it = t.make_iterator(Some(x.clone()));
    for (r, v) in &have {
        let g = it.next();
        chk!(g.is_some(), "a scan returns every visible row");
        let g = g.unwrap().1;
        chk!(same(&g, v), "a scan returns the visible version of each row");
        let r = r.unwrap_or(g.get_rid());
        let o = t.get_tuple(r, x.clone());
        chk!(o.is_ok() && same(&o.unwrap().1, v), "a tuple is found by its id");
        chk!(it.get_last_rid() == Some(r) && g.get_rid() == r, "a scan tells the id of the row it returned");
    }
    chk!(it.next().is_none(), "a scan returns each visible row once");
    sym::cover("done");
    sym::stop()
}
crate::harness! {
    mvcc_marks5 => { mvcc_marks(5) }
    mvcc_marks7 => { mvcc_marks(7) }
    heap_pages3 => { heap_pages(3) }
    heap_pages2 => { heap_pages(2) }
    mvcc_ends3 => { mvcc_ends(3, false) }
    mvcc_ends2f => { mvcc_ends(2, true) }
    mvcc_gc4 => { mvcc_gc_hist(4) }
    mvcc_gc5 => { mvcc_gc_hist(5) }
    mvcc_full3 => { mvcc_full(3) }
    mvcc_full4 => { mvcc_full(4) }
    mvcc_atomic1 => { mvcc_atomic(1) }
    mvcc_atomic2 => { mvcc_atomic(2) }
    mvcc_race1 => { mvcc_race(1) }
    mvcc_race2 => { mvcc_race(2) }
    mvcc_row3 => { mvcc_hist(3, 2, 1, 3, false) }
    mvcc_row4 => { mvcc_hist(4, 2, 1, 2, false) }
    mvcc_row5 => { mvcc_hist(5, 2, 1, 2, false) }
    mvcc_ins3 => { mvcc_hist(3, 2, 0, 3, true) }
    mvcc_ins4 => { mvcc_hist(4, 2, 0, 2, true) }
    mvcc_two3 => { mvcc_hist(3, 2, 2, 2, false) }
    mvcc_three4 => { mvcc_hist(4, 3, 1, 2, false) }
}

//! Locks, deadlocks, two-phase locking.
use crate::{chk, sym};
use ferrite::common::rid::RID;
use ferrite::concurrency::lock_manager::{DeadlockDetector, LockCompatibilityChecker, LockManager, LockMode, LockValidator};
use ferrite::concurrency::transaction::{IsolationLevel, Transaction, TransactionState};
use std::sync::Arc;
use LockMode::*;

const MODES: [LockMode; 5] = [IntentionShared, IntentionExclusive, Shared, SharedIntentionExclusive, Exclusive];
/// the matrix of the module's documentation, indexed as MODES
const COMPAT: [[bool; 5]; 5] = [
    [true, true, true, true, false],
    [true, true, false, false, false],
    [true, false, true, false, false],
    [true, false, false, false, false],
    [false, false, false, false, false],
];
/// upgrades the documentation allows, and modes already covered
const GOES: [[bool; 5]; 5] = [
    [true, true, true, true, true],
    [true, true, false, true, true],
    [true, false, true, true, true],
    [true, true, true, true, true],
    [true, true, true, true, true],
];
fn matrix() {
    let (a, b) = (sym::choose(5, "held"), sym::choose(5, "asked"));
    chk!(LockCompatibilityChecker::are_compatible(MODES[a], MODES[b]) == COMPAT[a][b], "lock modes are compatible as documented");
    sym::cover("done");
}
struct M {
    l: LockManager,
    t: Vec<Arc<Transaction>>,
    /// modes held, per resource and transaction
    held: Vec<[Vec<usize>; 3]>,
    /// the mode asked for and not granted yet
    wait: Vec<[Option<usize>; 3]>,
    rows: bool,
}
fn rid() -> RID {
    RID::new(9, 4)
}
impl M {
    fn new(rows: bool) -> M {
        let l = LockManager::new();
        let t: Vec<_> = (0..3).map(|i| Arc::new(Transaction::new(11 + i, IsolationLevel::ReadCommitted))).collect();
        for t in &t {
            t.set_state(TransactionState::Growing);
        }
        let e = || [vec![], vec![], vec![]];
        let m = M { l, t, held: vec![e(), e()], wait: vec![[None; 3]; 2], rows };
        if rows {
            for t in 0..3 {
                m.tables(t);
            }
        }
        m
    }
    fn txn(&self, t: usize) -> Arc<Transaction> {
        self.t[t].clone()
    }
    fn ask(&mut self, r: usize, t: usize, m: usize) {
        let x = self.txn(t);
        let g = if self.rows { self.l.lock_row(x, MODES[m], 1, rid()) } else { self.l.lock_table(x, MODES[m], 1 + r as u64) };
        let free = (0..3).all(|o| o == t || self.held[r][o].iter().all(|h| COMPAT[*h][m]));
        match g {
            Ok(true) => {
                chk!(free, "a lock is not granted beside one that conflicts with it");
                self.held[r][t].push(m);
                self.wait[r][t] = None;
            }
            Ok(false) => {
                let allowed = self.held[r][t].iter().all(|h| GOES[*h][m]);
                let others = (0..3).any(|o| o != t && self.wait[r][o].is_some());
                chk!(!free || !allowed || others, "a compatible lock is granted");
                self.wait[r][t] = Some(m);
            }
            Err(_) => sym::fail("a valid lock request is not refused"),
        }
    }
    fn unlock(&mut self, r: usize, t: usize) {
        let has = !self.held[r][t].is_empty();
        // a lock of unknown grant is not released here
        sym::assume(has);
        let x = self.txn(t);
        let m = MODES[self.held[r][t][0]];
        let g = if self.rows { self.l.unlock_row(x, m, 1, rid()) } else { self.l.unlock_table(x, m, 1 + r as u64) };
        chk!(g == Ok(true), "a held lock can be released");
        self.held[r][t].clear();
        self.wait[r][t] = None;
        self.t[t].set_state(TransactionState::Growing);
    }
    fn force(&mut self, t: usize) {
        chk!(self.l.force_release_txn(11 + t as u64).is_ok(), "a transaction's locks are released at its end");
        for r in 0..2 {
            self.held[r][t].clear();
            self.wait[r][t] = None;
        }
        if self.rows {
            self.tables(t);
        }
    }
    /// the table locks above shared and exclusive row locks
    fn tables(&self, t: usize) {
        for m in [IntentionShared, IntentionExclusive] {
            chk!(self.l.lock_table(self.txn(t), m, 1) == Ok(true), "a compatible lock is granted");
        }
    }
}
/// `n` requests and releases by two or three transactions; whoever is left can have the lock in the end
fn ops(n: usize, txns: u64, rows: bool) {
    let mut m = M::new(rows);
    let mut used = 0;
    for i in 0..n {
        let t = if i == 0 { 0 } else { sym::choose((used + 2).min(txns), "transaction") };
        used = used.max(t as u64);
        match sym::choose(if i == 0 { 1 } else { 3 }, "op") {
            0 => {
                let k = if rows { [2, 4][sym::choose(2, "mode")] } else { sym::choose(5, "mode") };
                m.ask(0, t, k)
            }
            1 => m.unlock(0, t),
            _ => m.force(t),
        }
    }
    // the others end; what one asked for it now gets
    let last = sym::choose(used + 1, "left");
    for t in 0..3 {
        if t != last {
            m.force(t);
        }
    }
    let k = m.wait[0][last].unwrap_or(4);
    m.ask(0, last, k);
    chk!(m.held[0][last].last() == Some(&k), "a lock is granted once all that conflicts is released");
    m.force(last);
    m.ask(0, (last + 1) % 3, 4);
    chk!(m.held[0][(last + 1) % 3].contains(&4), "nothing of a transaction that ended stays locked");
    sym::cover("done");
    sym::stop();
}
/// row and table locks together
fn levels() {
    let l = LockManager::new();
    let t = Arc::new(Transaction::new(5, IsolationLevel::ReadCommitted));
    t.set_state(TransactionState::Growing);
    let (a, r) = (sym::choose(6, "table lock"), sym::choose(5, "row lock"));
    let oid = [1, 9][sym::choose(2, "table")];
    if a < 5 {
        chk!(l.lock_table(t.clone(), MODES[a], oid) == Ok(true), "a compatible lock is granted");
    }
    if sym::flip("another table locked") {
        chk!(l.lock_table(t.clone(), Exclusive, 77) == Ok(true), "a compatible lock is granted");
    }
    let g = l.lock_row(t.clone(), MODES[r], oid, rid());
    // a row lock needs the table lock above it; intention locks are for tables
    let need: &[usize] = if r == 2 { &[0, 2, 3] } else if r == 4 { &[1, 3, 4] } else { &[] };
    if need.contains(&a) {
        chk!(g == Ok(true), "a row lock under its table lock is granted");
        chk!(l.unlock_table(t.clone(), MODES[a], oid).is_err(), "a table is not unlocked before its rows");
        chk!(t.get_state() == TransactionState::Aborted, "a transaction that breaks the protocol is aborted");
        chk!(l.unlock_row(t.clone(), MODES[r], oid, rid()) == Ok(true), "a held lock can be released");
        chk!(l.unlock_table(t.clone(), MODES[a], oid) == Ok(true), "a held lock can be released");
        chk!(l.unlock_row(t.clone(), MODES[r], oid, rid()).is_err(), "a lock not held cannot be released");
        chk!(l.unlock_table(t, MODES[a], oid).is_err(), "a lock not held cannot be released");
    } else if !(r == 2 && (a == 4 || a == 1)) {
        chk!(g.is_err(), "a row lock without its table lock is refused");
        chk!(t.get_state() == TransactionState::Aborted, "a transaction that breaks the protocol is aborted");
    }
    sym::cover("done");
    sym::stop();
}
fn reaches(e: &[[bool; 4]; 4], a: usize, b: usize) -> bool {
    let (mut s, mut k) = (e[a], 0);
    while k < 4 {
        for i in 0..4 {
            if s[i] {
                for j in 0..4 {
                    s[j] |= e[i][j];
                }
            }
        }
        k += 1;
    }
    s[b]
}
/// every waits-for graph over a few transactions
fn cycles(n: usize) {
    let d = DeadlockDetector::new();
    let mut e = [[false; 4]; 4];
    let ids = [7u64, 3, 1 << 63, 5];
    for a in 0..n {
        for b in 0..n {
            if a != b && sym::flip("edge") {
                e[a][b] = true;
                d.add_edge(ids[a], ids[b]);
            }
        }
    }
    if sym::flip("a transaction ends") {
        e[0] = [false; 4];
        d.remove_edge(ids[0]);
    }
    let any = (0..n).any(|a| reaches(&e, a, a));
    let mut v = 0;
    chk!(d.has_cycle(&mut v) == any, "a deadlock is reported exactly when there is one");
    if any {
        match ids.iter().position(|i| *i == v) {
            Some(p) => {
                chk!(reaches(&e, p, p), "the victim is part of the deadlock");
                // of the transactions it is deadlocked with, some cycle has it as the youngest
                let mut f = e;
                for q in 0..n {
                    if ids[q] > v {
                        f[q] = [false; 4];
                    }
                }
                chk!(reaches(&f, p, p), "the victim is the youngest of its cycle");
            }
            None => sym::fail("the victim is part of the deadlock"),
        }
    }
    sym::cover(if any { "deadlock" } else { "none" });
}
/// two transactions lock two tables in some order; one is aborted exactly if they wait for each other
fn deadlock() {
    let l = LockManager::new();
    let t: Vec<_> = (0..3u64).map(|i| Arc::new(Transaction::new(11 + i, IsolationLevel::RepeatableRead))).collect();
    for t in &t {
        t.set_state(TransactionState::Growing);
    }
    let kind = sym::choose(5, "history");
    let lock = |i: usize, m: LockMode, o: u64| l.lock_table(t[i].clone(), m, o);
    chk!(lock(0, Exclusive, 1) == Ok(true), "a compatible lock is granted");
    let mut dead = true;
    match kind {
        0 => {
            // a true deadlock
            chk!(lock(1, Shared, 2) == Ok(true), "a compatible lock is granted");
            chk!(lock(1, Shared, 1) == Ok(false), "a conflicting lock waits");
            chk!(lock(0, Exclusive, 2) == Ok(false), "a conflicting lock waits");
        }
        1 => {
            // two upgrades of one lock
            chk!(lock(0, Shared, 3) == Ok(true) && lock(1, Shared, 3) == Ok(true), "a compatible lock is granted");
            chk!(lock(0, Exclusive, 3) == Ok(false) && lock(1, Exclusive, 3) == Ok(false), "a conflicting lock waits");
        }
        2 => {
            // a wait that ended before the next one began
            dead = false;
            chk!(lock(1, Shared, 2) == Ok(true), "a compatible lock is granted");
            chk!(lock(1, Shared, 1) == Ok(false), "a conflicting lock waits");
            chk!(l.unlock_table(t[0].clone(), Exclusive, 1) == Ok(true), "a held lock can be released");
            t[0].set_state(TransactionState::Growing);
            chk!(lock(0, Exclusive, 2) == Ok(false), "a conflicting lock waits");
        }
        3 => {
            // a chain
            dead = false;
            chk!(lock(1, Exclusive, 2) == Ok(true), "a compatible lock is granted");
            chk!(lock(1, Exclusive, 1) == Ok(false) && lock(2, Exclusive, 2) == Ok(false), "a conflicting lock waits");
        }
        _ => {
            // three in a ring
            chk!(lock(1, Exclusive, 2) == Ok(true) && lock(2, Exclusive, 3) == Ok(true), "a compatible lock is granted");
            chk!(lock(0, Exclusive, 2) == Ok(false) && lock(1, Exclusive, 3) == Ok(false) && lock(2, Exclusive, 1) == Ok(false), "a conflicting lock waits");
        }
    }
    std::thread::sleep(std::time::Duration::from_millis(120));
    // everyone who waits asks again
    let mut aborted = 0;
    for _ in 0..2 {
        match kind {
            0 => aborted |= (lock(1, Shared, 1).is_err() || t[1].get_state() == TransactionState::Aborted) as u32,
            1 => aborted |= (lock(1, Exclusive, 3).is_err() || t[1].get_state() == TransactionState::Aborted) as u32,
            2 => {
                let _ = lock(0, Exclusive, 2);
            }
            3 => {
                let _ = (lock(1, Exclusive, 1), lock(2, Exclusive, 2));
            }
            _ => aborted |= (lock(2, Exclusive, 1).is_err() || t[2].get_state() == TransactionState::Aborted) as u32,
        }
    }
    let a = t.iter().filter(|t| t.get_state() == TransactionState::Aborted).count();
    chk!(a == dead as usize, "one transaction of a deadlock is aborted, and none without a deadlock");
    chk!(!dead || aborted == 1, "the youngest transaction of a deadlock is the one aborted");
    sym::cover("done");
    sym::stop();
}
const LEVELS: [IsolationLevel; 5] = [IsolationLevel::ReadUncommitted, IsolationLevel::ReadCommitted, IsolationLevel::RepeatableRead, IsolationLevel::Serializable, IsolationLevel::Snapshot];
/// every level, state and mode against the documented rules
fn rules() {
    use TransactionState::*;
    let v = LockValidator::new();
    let (i, s, m) = (sym::choose(5, "level"), sym::choose(4, "state"), sym::choose(5, "mode"));
    let t = Transaction::new(3, LEVELS[i]);
    let st = [Growing, Shrinking, Aborted, Committed][s];
    t.set_state(st);
    let g = v.validate_lock_request(&t, MODES[m]);
    let shared = [0, 2, 3].contains(&m);
    if s >= 2 {
        chk!(g.is_err(), "a transaction that ended gets no locks");
    } else if i < 4 {
        let ok = match i {
            0 => !shared && s == 0,
            1 => s == 0 || m == 0 || m == 2,
            _ => s == 0,
        };
        chk!(g.is_ok() == ok, "a lock is allowed by isolation level and phase as documented");
    }
    sym::cover("done");
}
/// two-phase locking: after the release that ends the growing phase no lock is given
fn phases() {
    let l = LockManager::new();
    let i = sym::choose(4, "level");
    let t = Arc::new(Transaction::new(5, LEVELS[i]));
    if sym::flip("growing") {
        t.set_state(TransactionState::Growing);
    }
    let (a, b) = (sym::choose(5, "first"), sym::choose(5, "second"));
    if l.lock_table(t.clone(), MODES[a], 1) != Ok(true) {
        chk!(i == 0, "a compatible lock is granted");
        sym::cover("refused");
        sym::stop();
    }
    chk!(l.unlock_table(t.clone(), MODES[a], 1) == Ok(true), "a held lock can be released");
    let ends = match i {
        0 | 1 => a == 4,
        _ => a == 2 || a == 4,
    };
    let g = l.lock_table(t.clone(), MODES[b], 2);
    if ends {
        let ok = i == 1 && (b == 0 || b == 2);
        chk!(g.is_ok() == ok, "after a release no lock is given that the isolation level forbids");
    } else {
        chk!(g == Ok(true) || i == 0, "a compatible lock is granted");
    }
    sym::cover("done");
    sym::stop();
}
crate::harness! {
    lock_matrix => { matrix() }
    lock_ops => { ops(3, 2, false) }
    lock_ops3t => { ops(3, 3, false) }
    lock_rows => { ops(4, 3, true) }
    lock_levels => { levels() }
    lock_cycles => { cycles(3) }
    lock_cycles4 => { cycles(4) }
    lock_deadlock => { deadlock() }
    lock_rules => { rules() }
    lock_phases => { phases() }
    lock_ops4 => { ops(4, 3, false) }
    lock_rows5 => { ops(5, 3, true) }
}

//! B+ trees: the in-memory index of the catalog and the index on buffer pool pages.
use crate::{chk, db, sym};
use ferrite::catalog::{column::Column, schema::Schema};
use ferrite::common::rid::RID;
use ferrite::concurrency::transaction::{IsolationLevel, Transaction};
use ferrite::storage::index::b_plus_tree::BPlusTree;
use ferrite::storage::index::b_plus_tree_index::BPlusTreeIndex;
use ferrite::storage::index::types::comparators::{i32_comparator, I32Comparator};
use ferrite::storage::index::{Index, IndexInfo, IndexType};
use ferrite::storage::table::tuple::Tuple;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::Value;
use std::sync::Arc;

fn schema() -> Schema {
    Schema::new(vec![Column::new("k", TypeId::Integer)])
}
fn info() -> IndexInfo {
    IndexInfo::new(schema(), "i".into(), 0, "t".into(), 4, false, IndexType::BPlusTreeIndex, vec![0])
}
fn row(k: i32) -> Tuple {
    Tuple::new(&[Value::new(k)], &schema(), RID::new(0, 0))
}
fn int(v: &Value) -> i32 {
    match v.get_val() {
        ferrite::types_db::value::Val::Integer(i) => *i,
        _ => {
            sym::fail("an index returns the keys put into it");
            0
        },
    }
}
/// the i-th key put into a tree of m keys, multiples of ten
fn shape(s: usize, i: usize, m: usize) -> i32 {
    10 * match s {
        0 => i as i32 + 1,
        1 => (m - i) as i32,
        2 if i % 2 == 0 => i as i32 / 2 + 1,
        2 => (m - i / 2) as i32,
        _ => (i as i32 / 3) + 1,
    }
}

/// pairs of a key and an id, in no order
struct Pairs(Vec<(i32, RID)>);
impl Pairs {
    fn has(&self, k: i32, r: RID) -> Option<usize> {
        self.0.iter().position(|(a, b)| *a == k && *b == r)
    }
    /// what a scan must return: exactly the pairs of the range, in order of the keys
    fn eq(&self, lo: Option<i32>, hi: Option<i32>, got: &[(i32, RID)]) -> bool {
        let mut n = 0;
        for (k, r) in &self.0 {
            if lo.is_none_or(|l| *k >= l) && hi.is_none_or(|h| *k <= h) {
                n += 1;
                if !got.contains(&(*k, *r)) {
                    return false;
                }
            }
        }
        n == got.len() && got.windows(2).all(|w| w[0].0 <= w[1].0)
    }
}
struct Mem {
    t: BPlusTree,
    m: Pairs,
    x: Transaction,
}
impl Mem {
    fn new() -> Mem {
        Mem { t: <BPlusTree as Index>::new(Box::new(info())), m: Pairs(vec![]), x: Transaction::new(1, IsolationLevel::ReadCommitted) }
    }
    fn insert(&mut self, k: i32, r: RID) {
        let ok = self.t.insert_entry(&row(k), r, &self.x);
        chk!(ok == self.m.has(k, r).is_none(), "an insert tells whether the entry is new");
        if ok {
            self.m.0.push((k, r));
        }
    }
    fn delete(&mut self, k: i32, r: RID) {
        let ok = self.t.delete_entry(&row(k), r, &self.x);
        let at = self.m.has(k, r);
        chk!(ok == at.is_some(), "a delete tells whether the entry was there");
        if let Some(i) = at {
            self.m.0.remove(i);
        }
    }
    fn full(&self) {
        let g: Vec<_> = self.t.scan_full().unwrap().iter().map(|(k, r)| (int(k), *r)).collect();
        chk!(self.m.eq(None, None, &g), "a scan returns the entries of the index in order");
    }
    fn key(&self, k: i32) {
        let g: Vec<_> = self.t.scan_key(&row(k), &self.x).unwrap().iter().map(|(k, r)| (int(k), *r)).collect();
        chk!(self.m.eq(Some(k), Some(k), &g), "a lookup returns the entries of the key");
    }
    fn range(&self, lo: i32, hi: i32) {
        let g: Vec<_> = self.t.scan_range(&row(lo), &row(hi), true).unwrap().iter().map(|(k, r)| (int(k), *r)).collect();
        chk!(self.m.eq(Some(lo), Some(hi), &g), "a range scan returns the entries of the range in order");
        let mut it = self.t.create_iterator(Some(row(lo)), Some(row(hi)));
        let back = sym::flip("back");
        for i in 0..g.len() {
            let j = if back { g.len() - 1 - i } else { i };
            let n = if back { it.next_back() } else { it.next() };
            chk!(n == Some(g[j].1), "an iterator returns each entry of the range once");
        }
        chk!(it.next().is_none() && it.next_back().is_none(), "an iterator ends after the range");
        it.reset();
        chk!(it.next() == g.first().map(|e| e.1), "a reset iterator starts again");
        let mut it = if back { it } else { self.t.create_iterator(None, None) };
        let at = sym::choose(self.m.0.len() as u64 + 1, "seek");
        let k = self.m.0.get(at).map_or(i32::MAX - 1, |e| e.0 - 1);
        if !back || k >= lo && k <= hi {
            let mut want: Vec<_> = self.t.scan_full().unwrap();
            want.retain(|e| int(&e.0) > k && (!back || int(&e.0) <= hi));
            let mut n = it.seek(&row(k));
            for e in want {
                chk!(n == Some(e.1), "an iterator goes on from a sought key");
                n = it.next();
            }
            chk!(n.is_none(), "an iterator goes on from a sought key");
        }
    }
}
/// which of n entries goes next when a tree is emptied
fn drain(order: usize, n: usize) -> usize {
    match order {
        0 => 0,
        1 => n - 1,
        2 => n / 2,
        _ => (n - 1) * (n % 2),
    }
}
/// a tree of up to m keys in some shape, n arbitrary operations, then a scan, a lookup, a range or a drain
fn mem_hist(lo: usize, m: usize, n: usize) {
    let mut t = Mem::new();
    let m = lo + sym::choose((m - lo + 1) as u64, "size");
    let s = sym::choose(4, "shape");
    for i in 0..m {
        t.insert(shape(s, i, m), RID::new(1, i as u32));
    }
    for j in 0..n {
        if sym::flip("insert") {
            let r = if sym::flip("again") { 0 } else { m + j };
            t.insert(sym::i32("key"), RID::new(1, r as u32));
        } else {
            let i = sym::choose(t.m.0.len() as u64 + 1, "entry");
            let (k, r) = t.m.0.get(i).copied().unwrap_or_else(|| (sym::i32("key"), RID::new(1, 0)));
            t.delete(k, r);
        }
    }
    t.full();
    match sym::choose(if n > 0 { 2 } else { 3 }, "end") {
        1 => t.key(sym::i32("key")),
        2 => {
            let (a, b) = (sym::i32("from"), sym::i32("to"));
            t.range(a, b);
        },
        _ => {
            let o = sym::choose(4, "order");
            t.m.0.sort_by_key(|e| e.0);
            while !t.m.0.is_empty() {
                let (k, r) = t.m.0[drain(o, t.m.0.len())];
                t.delete(k, r);
                t.full();
                t.key(k);
            }
        },
    }
    sym::cover("done");
}
type Tree = BPlusTreeIndex<i32, RID, I32Comparator>;
struct Disk {
    db: db::Db,
    t: Tree,
    m: Pairs,
}
impl Disk {
    fn new(pool: usize, order: u32) -> Disk {
        let db = db::open(pool, db::cfg());
        let mut t = Tree::new(i32_comparator, info(), db.bpm.clone());
        chk!(t.init_with_order(order).is_ok(), "an index can be made");
        Disk { db, t, m: Pairs(vec![]) }
    }
    fn at(&self, k: i32) -> Option<usize> {
        self.m.0.iter().position(|e| e.0 == k)
    }
    fn insert(&mut self, k: i32, r: RID, crab: bool) {
        let ok = if crab { self.t.insert_with_latch_crabbing(k, r) } else { self.t.insert(k, r) };
        chk!(ok.is_ok(), "an entry can be inserted");
        match self.at(k) {
            Some(i) => self.m.0[i].1 = r,
            None => self.m.0.push((k, r)),
        }
    }
    fn delete(&mut self, k: i32, crab: bool) {
        let ok = if crab { self.t.remove_with_latch_crabbing(&k) } else { self.t.remove(&k) };
        let at = self.at(k);
        chk!(matches!(ok, Ok(b) if b == at.is_some()), "a delete tells whether the key was there");
        if let Some(i) = at {
            self.m.0.remove(i);
        }
    }
    fn full(&self) {
        let g = self.t.range_scan(&i32::MIN, &i32::MAX);
        chk!(g.is_ok() && self.m.eq(None, None, &g.unwrap()), "a scan returns the entries of the index in order");
        chk!(self.t.get_size() == self.m.0.len() && self.t.is_empty() == self.m.0.is_empty(), "an index knows its size");
        chk!(self.t.validate_tree().is_ok() && self.t.validate_leaf_links().is_ok(), "an index passes its own validation");
    }
    fn key(&self, k: i32) {
        let g = self.t.search(&k);
        chk!(matches!(g, Ok(v) if v == self.at(k).map(|i| self.m.0[i].1)), "a lookup returns the entry of the key");
    }
    fn range(&self, lo: i32, hi: i32) {
        let g = self.t.range_scan(&lo, &hi);
        chk!(g.is_ok() && self.m.eq(Some(lo), Some(hi), &g.unwrap()), "a range scan returns the entries of the range in order");
    }
}
fn disk_hist(order: u32, lo: usize, m: usize, n: usize) {
    let mut t = Disk::new(40, order);
    let m = lo + sym::choose((m - lo + 1) as u64, "size");
    let s = sym::choose(3, "shape");
    let crab = sym::flip("crab");
    for i in 0..m {
        t.insert(shape(s, i, m), RID::new(1, i as u32), crab);
    }
    for j in 0..n {
        if sym::flip("insert") {
            t.insert(sym::i32("key"), RID::new(1, (m + j) as u32), crab);
        } else {
            let i = sym::choose(t.m.0.len() as u64 + 1, "entry");
            let k = t.m.0.get(i).map_or_else(|| sym::i32("key"), |e| e.0);
            t.delete(k, crab);
        }
    }
    t.full();
    match sym::choose(if n > 0 { 2 } else { 3 }, "end") {
        1 => t.key(sym::i32("key")),
        2 => {
            let (a, b) = (sym::i32("from"), sym::i32("to"));
            t.range(a, b);
        },
        _ => {
            let o = sym::choose(4, "order");
            t.m.0.sort_by_key(|e| e.0);
            while !t.m.0.is_empty() {
                let k = t.m.0[drain(o, t.m.0.len())].0;
                t.delete(k, crab);
                t.full();
                t.key(k);
            }
        },
    }
    sym::cover("done");
    sym::stop()
}
crate::harness! {
    tree_mem0 => { mem_hist(1, 11, 0) }
    tree_mem0_more => { mem_hist(12, 17, 0) }
    tree_mem1 => { mem_hist(8, 11, 1) }
    tree_mem2 => { mem_hist(5, 8, 2) }
    tree_disk0 => { disk_hist(4, 1, 11, 0) }
    tree_disk03 => { disk_hist(3, 1, 12, 0) }
    tree_disk0_more => { disk_hist(4, 12, 17, 0) }
    tree_disk3 => { disk_hist(3, 8, 8, 1) }
    tree_disk3_2 => { disk_hist(3, 6, 8, 2) }
    tree_disk4 => { disk_hist(4, 13, 13, 1) }
    tree_disk3_1 => { disk_hist(3, 6, 10, 1) }
    tree_disk4_1 => { disk_hist(4, 8, 14, 1) }
    tree_disk5 => { disk_hist(5, 0, 24, 0) }
}

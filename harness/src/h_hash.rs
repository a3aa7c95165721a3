//! The extendible hash table on buffer pool pages and the index over it.
use crate::{chk, db, sym};
use ferrite::catalog::{column::Column, schema::Schema};
use ferrite::common::rid::RID;
use ferrite::concurrency::transaction::{IsolationLevel, Transaction};
use ferrite::container::disk_extendable_hash_table::DiskExtendableHashTable;
use ferrite::container::hash_function::HashFunction;
use ferrite::storage::index::extendable_hash_table_index::ExtendableHashTableIndex;
use ferrite::storage::index::{Index, IndexInfo, IndexType};
use ferrite::storage::table::tuple::Tuple;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::Value;
use std::sync::Arc;

/// n keys whose hashes end in the given bits
fn keys(ends: &[u32], bits: u32) -> Vec<Value> {
    let h = HashFunction::<Value>::new();
    let mut out: Vec<Value> = vec![];
    let mut k = 0i32;
    for e in ends {
        loop {
            k += 1;
            let v = Value::new(k);
            if h.get_hash(&v) as u32 & ((1 << bits) - 1) == *e {
                out.push(v);
                break;
            }
        }
    }
    out
}
struct Table {
    db: db::Db,
    t: DiskExtendableHashTable,
    keys: Vec<Value>,
    ends: Vec<u32>,
    m: Vec<(usize, RID)>,
    size: usize,
}
impl Table {
    fn new(ends: &[u32], depth: u32, size: u32) -> Table {
        let db = db::open(30, db::cfg());
        let t = DiskExtendableHashTable::new("t".into(), db.bpm.clone(), HashFunction::new(), 1, depth, size);
        chk!(t.is_ok(), "a hash table can be made");
        Table { t: t.unwrap(), db, keys: keys(ends, depth), ends: ends.to_vec(), m: vec![], size: size as usize }
    }
    fn insert(&mut self, k: usize, r: RID) {
        let full = self.m.iter().filter(|e| self.ends[e.0] == self.ends[k]).count() >= self.size;
        let ok = self.t.insert(self.keys[k].clone(), r);
        chk!(ok == !full, "an insert succeeds unless the directory cannot grow any further");
        if ok {
            self.m.push((k, r));
        }
    }
    fn remove(&mut self, k: usize) {
        let at = self.m.iter().position(|e| e.0 == k);
        chk!(self.t.remove(&self.keys[k]) == at.is_some(), "a delete tells whether the key was there");
        if let Some(i) = at {
            self.m.remove(i);
        }
    }
    fn all(&self) {
        for k in 0..self.keys.len() {
            let want = self.m.iter().find(|e| e.0 == k).map(|e| e.1);
            chk!(self.t.get_value(&self.keys[k]) == want, "a lookup returns the first value of the key that is still there");
        }
    }
}
fn rid(n: &str) -> RID {
    RID::new(sym::u64(n), sym::u32(n))
}
/// `pre` inserts of arbitrary keys, then n arbitrary inserts and removes
fn hash_hist(ends: &[u32], depth: u32, size: u32, pre: usize, n: usize) {
    let mut t = Table::new(ends, depth, size);
    for _ in 0..pre {
        t.insert(sym::choose(ends.len() as u64, "key"), rid("rid"));
    }
    t.all();
    for _ in 0..n {
        let k = sym::choose(ends.len() as u64, "key");
        if sym::flip("insert") {
            t.insert(k, rid("rid"));
        } else {
            t.remove(k);
        }
        t.all();
    }
    sym::cover("done");
    sym::stop()
}
fn hash_index(n: usize) {
    let db = db::open(30, db::cfg());
    let schema = Schema::new(vec![Column::new("v", TypeId::VarChar), Column::new("k", TypeId::Integer)]);
    let info = IndexInfo::new(schema.clone(), "i".into(), 0, "t".into(), 4, true, IndexType::BPlusTreeIndex, vec![1]);
    let mut t = ExtendableHashTableIndex::try_new(Arc::new(info), db.bpm.clone(), HashFunction::new()).unwrap();
    let x = Transaction::new(1, IsolationLevel::ReadCommitted);
    let mut m: [Option<RID>; 3] = [None; 3];
    let row = |k: usize| Tuple::new(&[Value::new("a"), Value::new(k as i32)], &schema, RID::new(0, 0));
    for _ in 0..n {
        let k = sym::choose(3, "key") as usize;
        match m[k] {
            Some(r) => {
                chk!(t.delete_entry(&row(k), r, &x), "a delete tells whether the key was there");
                m[k] = None;
            },
            None => {
                chk!(!t.delete_entry(&row(k), RID::new(0, 0), &x), "a delete tells whether the key was there");
                let r = rid("rid");
                chk!(t.insert_entry(&row(k), r, &x), "an entry can be inserted");
                m[k] = Some(r);
            },
        }
        for k in 0..3 {
            let want: Vec<_> = m[k].iter().map(|r| (Value::new(k as i32), *r)).collect();
            chk!(t.scan_key(&row(k), &x) == Ok(want), "a scan of a key returns its entry");
            let mut it = t.create_point_iterator(&row(k));
            chk!(it.next() == m[k] && it.next().is_none(), "a point iterator returns the entry of the key");
        }
    }
    sym::cover("done");
    sym::stop()
}
crate::harness! {
    hash_hist5 => { hash_hist(&[0, 4, 1, 7], 3, 1, 3, 2) }
    hash_dup5 => { hash_hist(&[0, 2, 2], 2, 2, 3, 2) }
    hash_index4 => { hash_index(4) }
    hash_hist6 => { hash_hist(&[0, 4, 1, 7], 3, 1, 3, 3) }
    hash_dup6 => { hash_hist(&[0, 2, 2, 3], 2, 2, 3, 3) }
    hash_two => { hash_hist(&[0, 0, 4, 4, 2], 3, 2, 4, 2) }
}

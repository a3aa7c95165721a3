//! Table pages, tuples and record ids.
use crate::{chk, sym};
use ferrite::catalog::{column::Column, schema::Schema};
use ferrite::common::rid::RID;
use ferrite::storage::page::page_types::table_page::TablePage;
use ferrite::storage::page::{Page, PageTrait};
use ferrite::storage::table::tuple::{Tuple, TupleMeta};
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::{Val, Value};

pub fn schema() -> Schema {
    Schema::new(vec![Column::new("a", TypeId::SmallInt), Column::new("b", TypeId::Binary)])
}
/// tuple of an arbitrary 16-bit number and `len` bytes, the first and last of them arbitrary
pub fn tuple(len: usize, rid: RID, n: &str) -> Tuple {
    let mut b = vec![0x5a; len];
    if len > 0 {
        b[0] = sym::u8(n);
        b[len - 1] = sym::u8(n);
    }
    Tuple::new(&[Value::new_with_type(Val::TinyInt(sym::i8(n)), TypeId::TinyInt), Value::new_with_type(Val::Binary(b), TypeId::Binary)], &schema(), rid)
}
const TXN: [u64; 3] = [3, 300, 1 << 62];
pub fn meta(n: &str) -> TupleMeta {
    let mut m = TupleMeta::new(TXN[sym::choose(2, n)]);
    m.set_deleted(sym::bool(n));
    m
}
struct Model {
    v: Vec<(TupleMeta, Tuple)>,
    id: u64,
}
impl Model {
    fn check(&self, p: &TablePage) {
        chk!(p.get_num_tuples() as usize == self.v.len(), "the tuple count is the number of accepted insertions");
        let mut dead = 0u16;
        for (i, (m, t)) in self.v.iter().enumerate() {
            let rid = RID::new(self.id, i as u32);
            dead += m.is_deleted() as u16;
            match p.get_tuple(&rid, true) {
                Ok((pm, pt)) => {
                    chk!(pt == *t && pt.get_rid() == rid, "a tuple reads back as last written");
                    chk!(pm == *m, "tuple metadata reads back as last written");
                }
                Err(_) => sym::fail("a tuple reads back as last written"),
            }
            chk!(p.get_tuple_meta(&rid) == Ok(*m), "tuple metadata reads back as last written");
            chk!(p.get_tuple(&rid, false).is_ok() != m.is_deleted(), "a deleted tuple is hidden and a live one is not");
        }
        chk!(p.get_num_deleted_tuples() == dead, "the deleted count is the number of deleted tuples");
        chk!(p.get_tuple(&RID::new(self.id, self.v.len() as u32), true).is_err(), "a slot never filled reads as an error");
        chk!(p.get_tuple(&RID::new(self.id + 1, 0), true).is_err(), "another page's record id is rejected");
    }
}
fn step(p: &mut TablePage, m: &mut Model, lens: &[usize]) {
    let op = sym::choose(3, "op");
    let n = m.v.len();
    match op {
        0 => {
            let rid = RID::new(m.id, n as u32);
            let t = tuple(lens[sym::choose(lens.len() as u64, "len")], rid, "tuple");
            let mt = meta("meta");
            let room = p.has_space_for(&mt, &t);
            let r = p.insert_tuple(&mt, &t);
            chk!(r.is_some() == room, "insertion succeeds exactly when there is room");
            if let Some(r) = r {
                chk!(r == rid, "slots are numbered in insertion order");
                m.v.push((mt, t));
            }
        }
        1 if n > 0 => {
            let i = sym::choose(n as u64, "slot");
            let rid = RID::new(m.id, i as u32);
            let t = tuple(lens[sym::choose(lens.len() as u64, "len")], rid, "tuple");
            let mt = meta("meta");
            if p.update_tuple(mt, &t, rid).is_ok() {
                m.v[i] = (mt, t);
            }
        }
        _ if n > 0 => {
            let i = sym::choose(n as u64, "slot");
            let mut mt = meta("meta");
            if sym::flip("commit") {
                mt.set_commit_timestamp(1 << 60);
                mt.set_undo_log_idx(1 << 50).unwrap();
            }
            if p.update_tuple_meta(mt, &RID::new(m.id, i as u32)).is_ok() {
                m.v[i].0 = mt;
            }
        }
        _ => sym::assume(false),
    }
}
fn image(p: &TablePage, m: &Model) {
    match TablePage::deserialize(&p.serialize()) {
        Ok(q) => {
            m.check(&q);
            chk!(q.get_page_id() == p.get_page_id() && q.get_next_page_id() == p.get_next_page_id() && q.get_prev_page_id() == p.get_prev_page_id(), "page links survive the image");
        }
        Err(_) => sym::fail("a page image reads back"),
    }
    // what the buffer pool writes out and loads
    let mut q = TablePage::new(m.id);
    chk!(q.set_data(0, p.get_data()).is_ok(), "a page image reads back");
    m.check(&q);
    chk!(q.get_next_page_id() == p.get_next_page_id() && q.get_prev_page_id() == p.get_prev_page_id(), "page links survive the image");
}
fn fresh() -> (TablePage, Model) {
    let mut p = TablePage::new(7);
    p.init();
    (p, Model { v: vec![], id: 7 })
}
fn fill(p: &mut TablePage, m: &mut Model, lens: &[usize]) {
    for l in lens {
        let rid = RID::new(m.id, m.v.len() as u32);
        let t = tuple(*l, rid, "seed");
        let mt = TupleMeta::new(9);
        chk!(p.insert_tuple(&mt, &t) == Some(rid), "room for the first tuples");
        m.v.push((mt, t));
    }
}
crate::harness! {
    page_ops => {
        let (mut p, mut m) = fresh();
        fill(&mut p, &mut m, &[8, 30]);
        for _ in 0..2 {
            step(&mut p, &mut m, &[2, 40, 3400]);
            m.check(&p);
        }
        sym::cover("done");
    }
    page_ops3 => {
        let (mut p, mut m) = fresh();
        fill(&mut p, &mut m, &[8, 30]);
        for _ in 0..3 {
            step(&mut p, &mut m, &[2, 40, 3400]);
        }
        m.check(&p);
        image(&p, &m);
        sym::cover("done");
    }
    page_image => {
        let (mut p, mut m) = fresh();
        fill(&mut p, &mut m, &[8, 30]);
        p.set_next_page_id(sym::u64("next"));
        p.set_prev_page_id(sym::u64("prev"));
        step(&mut p, &mut m, &[2, 40, 3400]);
        image(&p, &m);
        step(&mut p, &mut m, &[2, 40]);
        image(&p, &m);
        sym::cover("done");
    }
    page_full => {
        // a page filled to the last byte, then its tuples are committed: metadata grows
        let (mut p, mut m) = fresh();
        let l = 190 + sym::choose(24, "len");
        while p.has_space_for(&TupleMeta::new(9), &tuple(l, p.get_next_rid(), "x")) {
            fill(&mut p, &mut m, &[l]);
        }
        m.check(&p);
        image(&p, &m);
        for i in 0..m.v.len() {
            let mut mt = TupleMeta::new(u64::MAX);
            mt.set_commit_timestamp(u64::MAX);
            mt.set_undo_log_idx(usize::MAX).unwrap();
            if p.update_tuple_meta(mt, &RID::new(m.id, i as u32)).is_ok() {
                m.v[i].0 = mt;
            }
        }
        m.check(&p);
        image(&p, &m);
        sym::cover("done");
    }
    page_big => {
        // payloads around the size limit of a tuple and around 16 bits
        let (mut p, mut m) = fresh();
        fill(&mut p, &mut m, &[8]);
        let l = [3470, 3485, 3500, 3520, 4000, 65500, 65533, 65600][sym::choose(8, "len")];
        let t = tuple(l, RID::new(m.id, 0), "tuple");
        let mt = meta("meta");
        if sym::flip("update") {
            if p.update_tuple(mt, &t, RID::new(m.id, 0)).is_ok() {
                m.v[0] = (mt, t);
            }
        } else if let Some(r) = p.insert_tuple(&mt, &t) {
            chk!(r.get_slot_num() == 1, "slots are numbered in insertion order");
            m.v.push((mt, t));
        }
        m.check(&p);
        image(&p, &m);
        sym::cover("done");
    }
    page_links => {
        let (mut p, mut m) = fresh();
        fill(&mut p, &mut m, &[3]);
        let (a, b) = (sym::u64("next"), sym::u64("prev"));
        p.set_next_page_id(a);
        p.set_prev_page_id(b);
        let mut q = TablePage::new(7);
        q.set_data(0, p.get_data()).unwrap();
        chk!(q.get_next_page_id() == a && q.get_prev_page_id() == b, "page links survive the image");
        m.check(&q);
        sym::cover("done");
    }
    rid_codec => {
        let r = RID::new(sym::u64("page"), sym::u32("slot"));
        let b = r.to_bytes_le();
        chk!(RID::deserialize(&b) == r && RID::try_deserialize(&b) == Some(r), "record ids survive their byte encoding");
        let n = sym::choose(16, "len");
        let v = sym::vec(n, "bytes");
        chk!(RID::try_deserialize(&v).is_some() == (n >= RID::ENCODED_LEN), "short buffers are rejected");
        match r.to_i64() {
            Some(i) => chk!(RID::from_i64(i) == r, "record ids survive their integer encoding"),
            None => chk!(r.get_page_id() > u32::MAX as u64, "only unrepresentable page ids are refused"),
        }
        let i = sym::i64("packed");
        chk!(RID::from_i64(i).to_i64() == Some(i), "every integer denotes one record id");
        let r2 = RID::new(sym::u64("page2"), sym::u32("slot2"));
        if r != r2 {
            chk!(r.to_bytes_le() != r2.to_bytes_le(), "distinct record ids have distinct encodings");
            chk!(r.to_i64().is_none() || r.to_i64() != r2.to_i64(), "distinct record ids have distinct encodings");
        }
        sym::cover("done");
    }
    meta_codec => {
        let mut m = TupleMeta::new(sym::u64("creator"));
        m.set_deleted(sym::bool("deleted"));
        if sym::flip("committed") {
            m.set_commit_timestamp(sym::u64("ts"));
        }
        if sym::flip("undo") {
            m.set_undo_log_idx(sym::usize("undo")).unwrap();
        }
        let b = postcard::to_allocvec(&m).unwrap();
        let n: TupleMeta = postcard::from_bytes(&b).unwrap();
        chk!(n == m, "tuple metadata survives its encoding");
        sym::cover("done");
    }
    tuple_codec => {
        let sc = Schema::new(vec![Column::new("a", TypeId::Integer), Column::new("b", TypeId::VarChar), Column::new("c", TypeId::BigInt)]);
        let a = if sym::flip("null") { Value::new(Val::Null) } else { Value::new(sym::i32("a")) };
        let s = crate::h_types::ascii(sym::choose(4, "len"), "b");
        let c = Value::new(sym::i64("c"));
        let t = Tuple::new(&[a.clone(), Value::new(s.as_str()), c.clone()], &sc, RID::new(1, 2));
        let n = t.get_length().unwrap();
        let mut buf = vec![0u8; 64];
        chk!(t.serialize_to(&mut buf).ok() == Some(n), "the length is the number of bytes written");
        let u = Tuple::deserialize_from(&buf[..n]).unwrap();
        chk!(u == t && u.get_column_count() == 3, "a tuple survives its encoding");
        chk!(u.get_value(0) == a && u.get_value(2) == c, "columns keep their order");
        chk!(t.serialize_to(&mut buf[..n - 1]).is_err(), "a buffer too small is an error");
        chk!(Tuple::deserialize_from(&buf[..n - 1]).is_err(), "a truncated tuple is an error");
        let k = t.keys_from_tuple(&[2, 0]);
        chk!(k[0] == c && k[1] == a, "key columns are taken in the order asked for");
        chk!(t.keys_from_tuple_checked(&[3]).is_err() && t.keys_from_tuple_checked(&[2]).is_ok(), "columns out of range are refused");
        chk!(Tuple::try_new(&[a.clone()], &sc, RID::new(1, 2)).is_err(), "a tuple must match its schema's width");
        let d = t.combine(&u);
        chk!(d.get_column_count() == 6 && d.get_value(0) == a && d.get_value(5) == c, "joining tuples concatenates their columns");
        sym::cover("done");
    }
    tuple_any => {
        let n = sym::choose(7, "len");
        let b = sym::vec(n, "bytes");
        let _ = Tuple::deserialize_from(&b);
        sym::cover("done");
    }
}

//! The catalog: tables and indexes under names, and after the database is opened again.
use crate::h_dml::{col, con, opt, set, small, S};
use crate::{chk, db, sym};
use ferrite::catalog::{Catalog, column::{Column, ForeignKeyConstraint}, schema::Schema};
use ferrite::concurrency::transaction::IsolationLevel::*;
use ferrite::concurrency::transaction_manager_factory::TransactionManagerFactory;
use ferrite::sql::execution::plans::abstract_plan::PlanNode;
use ferrite::sql::execution::plans::index_scan_plan::IndexScanNode;
use ferrite::storage::index::IndexType;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::Value;
use parking_lot::RwLock;
use std::sync::Arc;

const I: TypeId = TypeId::Integer;

fn fk(table: &str, column: &str) -> ForeignKeyConstraint {
    ForeignKeyConstraint { referenced_table: table.into(), referenced_column: column.into(), on_delete: None, on_update: None }
}
/// schemas with each of the attributes of columns
fn schema(k: usize) -> Schema {
    Schema::new(match k {
        0 => vec![Column::new("id", I), Column::new("a", I)],
        1 => vec![Column::new_primary_key("id", I), Column::new_varlen("name", TypeId::VarChar, 20), Column::builder("d", TypeId::Decimal).with_precision_and_scale(8, 3).build()],
        2 => vec![Column::new("id", I), Column::builder("u", TypeId::BigInt).as_unique().as_not_null().with_default_value(Value::new(7i64)).with_check_constraint("u > 0".into()).build()],
        _ => vec![Column::new("id", I), Column::builder("r", I).with_foreign_key(fk("t0", "id")).build()],
    })
}
fn close_and_open(s: S) -> S {
    let oid = s.oid;
    let name = s.name.clone();
    let sc = s.schema.clone();
    s.db.rt.block_on(s.db.bpm.flush_all_pages_async());
    s.db.rt.block_on(s.db.disk.force_flush_all()).unwrap();
    drop(s);
    let db = db::open(8, db::cfg());
    let f = Arc::new(TransactionManagerFactory::new(db.bpm.clone()));
    let mut cat = Catalog::new(db.bpm.clone(), f.get_transaction_manager());
    cat.rebuild_from_system_catalog();
    S { db, f, cat: Arc::new(RwLock::new(cat)), schema: sc, oid, name }
}
fn use_table(s: &mut S, name: &str) -> bool {
    let t = s.cat.read().get_table(name).cloned();
    let Some(t) = t else { return false };
    s.oid = t.get_table_oidt();
    s.name = name.into();
    s.schema = t.get_table_schema();
    true
}
fn rows(s: &S, want: &[Vec<Value>], label: &str) {
    let t = s.begin(ReadCommitted);
    let got = s.run(&t, s.scan(), true);
    let Ok(got) = got else { sym::fail(label); return };
    let ok = got.len() == want.len() && got.iter().zip(want).all(|(g, w)| g.len() == w.len() && g.iter().zip(w).all(|(g, w)| g.is_null() && w.is_null() || g == w));
    sym::check(ok, label);
    s.commit(t);
}
/// tables of all kinds, before and after the database is opened again
fn tables(n: usize, opens: usize) {
    sym::const_hash(true);
    let mut s = S::new(8, schema(0));
    let mut have: Vec<(String, Schema, Vec<Vec<Value>>, u64)> = vec![("t".into(), schema(0), vec![], s.oid)];
    for open in 0..=opens {
        for i in 0..n {
            let name = format!("t{}", sym::choose(2, "name"));
            let sc = schema(sym::choose(4, "schema"));
            let refers = sc.get_columns().iter().any(|c| c.get_foreign_key().is_some());
            let fits = !have.iter().any(|h| h.0 == name) && (!refers || have.iter().any(|h| h.0 == "t0"));
            let made = s.cat.write().create_table(name.clone(), sc.clone());
            chk!(made.is_some() == fits, "a table is made exactly if its name is new and what it refers to is there");
            if let Some(t) = made {
                chk!(have.iter().all(|h| h.3 != t.get_table_oidt()), "each table has an id of its own");
                have.push((name, sc, vec![], t.get_table_oidt()));
            }
            let _ = i;
        }
        // a row into each table of two integers
        for h in have.iter_mut() {
            if h.1 == schema(0) {
                chk!(use_table(&mut s, &h.0), "a table is found by its name");
                let row = vec![Value::new(h.2.len() as i32), opt((!sym::flip("null")).then(|| small("value")))];
                let t = s.begin(ReadCommitted);
                chk!(s.run(&t, s.insert(vec![row.clone()], false), true).is_ok(), "rows can be inserted");
                if sym::flip("commit") {
                    chk!(s.commit(t), "a transaction can commit");
                    h.2.push(row);
                } else {
                    s.abort(t);
                }
            }
        }
        if open < opens {
            s = close_and_open(s);
        }
        let mut names = s.cat.read().get_table_names();
        names.sort();
        let mut w: Vec<String> = have.iter().map(|h| h.0.clone()).collect();
        w.sort();
        chk!(names == w, "the catalog has exactly the tables that were made");
        for h in &have {
            chk!(use_table(&mut s, &h.0), "a table is found by its name");
            chk!(s.oid == h.3 && s.cat.read().get_table_by_oid(h.3).is_some_and(|t| t.get_table_name() == h.0), "a table keeps its id");
            chk!(s.schema == h.1 && s.cat.read().get_table_schema(&h.0) == Some(h.1.clone()), "a table keeps its columns");
            rows(&s, &h.2, "a table has exactly its committed rows");
        }
        chk!(s.cat.read().get_table("other").is_none(), "no other table is found");
    }
    sym::cover("done");
    sym::stop()
}
/// a table that grows over pages, its index, and changes after it is opened again
fn grown(n: usize) {
    let wide = Schema::new(vec![Column::new("id", I), Column::new_varlen("s", TypeId::VarChar, 4000)]);
    let mut s = S::new(8, wide);
    let ix = |s: &S| {
        let ks = Schema::copy_schema(&s.schema, &[0]);
        s.cat.write().create_index("i", "t", ks, vec![0], 4, false, IndexType::BPlusTreeIndex).map(|i| i.0.get_index_oid())
    };
    let indexed = sym::flip("index");
    let mut oid = None;
    if indexed {
        oid = ix(&s);
        chk!(oid.is_some(), "an index can be made");
        chk!(ix(&s).is_none(), "a name is given to one index");
    }
    let mut have: Vec<Vec<Value>> = vec![];
    let mut put = |s: &S, have: &mut Vec<Vec<Value>>, k: i32| {
        let len = [1, 1900, 3300][sym::choose(3, "size")];
        let row = vec![Value::new(k), Value::new("x".repeat(len))];
        let t = s.begin(ReadCommitted);
        chk!(s.run(&t, s.insert(vec![row.clone()], false), true).is_ok(), "rows can be inserted");
        chk!(s.commit(t), "a transaction can commit");
        have.push(row);
    };
    for i in 0..n {
        put(&s, &mut have, i as i32);
    }
    // something else after it in the file
    if sym::flip("other table") {
        chk!(s.cat.write().create_table("z".into(), schema(0)).is_some(), "a table can be made");
    }
    s = close_and_open(s);
    chk!(use_table(&mut s, "t"), "a table is found by its name");
    rows(&s, &have, "a reopened table has exactly its rows");
    put(&s, &mut have, n as i32);
    rows(&s, &have, "a reopened table has exactly its rows and new ones");
    if sym::flip("change") {
        let t = s.begin(ReadCommitted);
        chk!(s.run(&t, s.update(vec![set(0, I, con(Value::new(9), I))], None), true).is_ok(), "rows can be changed");
        s.abort(t);
        rows(&s, &have, "changes of a reopened table can be rolled back");
    }
    let found = s.cat.read().get_table_indexes("t").first().map(|i| (i.get_index_oid(), i.get_key_attrs().clone(), i.get_index_name().clone()));
    chk!(found == oid.map(|o| (o, vec![0], "i".to_string())), "the catalog has exactly the indexes that were made");
    if let Some(o) = oid {
        let t = s.begin(ReadCommitted);
        let p = PlanNode::IndexScan(IndexScanNode::new(s.schema.clone(), "t".into(), s.oid, "i".into(), o, vec![]));
        let got = s.run(&t, p, true);
        chk!(got.is_ok_and(|g| g.len() == have.len() && have.iter().all(|r| g.contains(r))), "a reopened index finds exactly the rows of its table");
        chk!(ix(&s).is_none(), "a name is given to one index");
    }
    let _ = col;
    sym::cover("done");
    sym::stop()
}

crate::harness! {
    catalog_tables1 => { tables(2, 0) }
    catalog_reopen1 => { tables(1, 1) }
    catalog_reopen2 => { tables(2, 1) }
    catalog_reopen_twice => { tables(1, 2) }
    catalog_grown1 => { grown(1) }
    catalog_grown2 => { grown(2) }
    catalog_grown3 => { grown(3) }
}

//! Statements of two transactions at the same time.
use crate::h_dml::{add, col, con, set, S};
use crate::{chk, sym};
use ferrite::catalog::{column::Column, schema::Schema};
use ferrite::concurrency::transaction::IsolationLevel::{self, *};
use ferrite::sql::execution::expressions::abstract_expression::Expression;
use ferrite::sql::execution::expressions::comparison_expression::{ComparisonExpression, ComparisonType};
use ferrite::sql::execution::plans::index_scan_plan::IndexScanNode;
use ferrite::sql::execution::plans::abstract_plan::PlanNode;
use ferrite::storage::index::IndexType;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::types::Type;
use ferrite::types_db::value::Value;
use std::sync::Arc;

const I: TypeId = TypeId::Integer;
#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Insert,
    Update,
    Delete,
    Scan,
    Table,
}
use K::*;
fn is(i: usize, v: i32) -> Arc<Expression> {
    let (l, r) = (col(i, I), con(Value::new(v), I));
    Arc::new(Expression::Comparison(ComparisonExpression::new(l.clone(), r.clone(), ComparisonType::Equal, vec![l, r])))
}
/// one statement in a transaction of its own; None if it did not succeed
fn one(s: &S, k: K, me: i32, level: IsolationLevel, index: Option<u64>) -> Option<Vec<(i32, i32)>> {
    if k == Table {
        let made = s.cat.write().create_table(format!("z{me}"), Schema::new(vec![Column::new("x", I)]));
        return made.map(|_| vec![]);
    }
    let t = s.begin(level);
    let p = match k {
        Insert => s.insert(vec![vec![Value::new(10 + me), Value::new(0)]], false),
        Update => s.update(vec![set(1, I, add(1, 1 << me))], Some(is(0, 0))),
        Delete => s.delete(Some(is(0, 1))),
        _ => match index {
            Some(o) => PlanNode::IndexScan(IndexScanNode::new(s.schema.clone(), "t".into(), s.oid, "i".into(), o, vec![])),
            None => s.scan(),
        },
    };
    match s.run(&t, p, true) {
        Ok(r) => {
            sym::check(s.commit(t), "a transaction can commit");
            Some(r.iter().filter_map(|r| Some((r.first()?.as_integer().ok()?, r.get(1)?.as_integer().ok()?))).collect())
        }
        Err(()) => {
            s.abort(t);
            None
        }
    }
}
fn seen(r: &[(i32, i32)], id: i32) -> Option<i32> {
    chk!(r.iter().filter(|r| r.0 == id).count() <= 1, "a scan returns no row twice");
    r.iter().find(|r| r.0 == id).map(|r| r.1)
}
fn conc(pairs: &[(K, K)], preempt: u64, indexed: bool) {
    let s = S::new(8, Schema::new(vec![Column::new("id", I), Column::new("b", I)]));
    let t = s.begin(ReadCommitted);
    chk!(s.run(&t, s.insert(vec![vec![Value::new(0), Value::new(0)], vec![Value::new(1), Value::new(0)]], false), true).is_ok(), "rows can be inserted");
    chk!(s.commit(t), "a transaction can commit");
    let index = indexed.then(|| {
        let ks = Schema::copy_schema(&s.schema, &[0]);
        let o = s.cat.write().create_index("i", "t", ks, vec![0], 4, false, IndexType::BPlusTreeIndex).map(|i| i.0.get_index_oid());
        o.unwrap_or(0)
    });
    let (x, y) = pairs[sym::choose(pairs.len() as u64, "statements")];
    let level = [ReadCommitted, Snapshot][sym::choose(2, "level")];
    let s = Arc::new(s);
    let s2 = s.clone();
    sym::explore(true, preempt);
    let h = std::thread::spawn(move || one(&s2, y, 1, level, index));
    let a = one(&s, x, 0, level, index);
    let Ok(b) = h.join() else { sym::fail("a statement panics"); return };
    sym::explore(false, 0);
    for (k, r, other, o) in [(x, &a, y, &b), (y, &b, x, &a)] {
        match k {
            Insert | Table | Scan => chk!(r.is_some(), "inserts, scans and new tables succeed"),
            Update | Delete => chk!(r.is_some() || other == k && o.is_some(), "a change fails only if another transaction changed the row"),
        }
        if k == Scan {
            let Some(r) = r else { return };
            let me = if std::ptr::eq(r, a.as_ref().unwrap_or(&vec![])) { 0 } else { 1 };
            let (v, w) = (seen(r, 0), seen(r, 1));
            chk!(v == Some(0) || v == Some(2 - me) && other == Update, "a scan sees each row in a committed version");
            chk!(w == Some(0) || w.is_none() && other == Delete, "a scan sees each row in a committed version");
            let n = r.iter().filter(|r| r.0 > 1).count();
            chk!(n == 0 || n == 1 && other == Insert, "a scan sees each row in a committed version");
        }
    }
    // what is left
    let t = s.begin(ReadCommitted);
    let mut plans = vec![s.scan()];
    if let Some(o) = index {
        plans.push(PlanNode::IndexScan(IndexScanNode::new(s.schema.clone(), "t".into(), s.oid, "i".into(), o, vec![])));
    }
    for p in plans {
        let Ok(got) = s.run(&t, p, true) else { sym::fail("the table can be read"); return };
        let got: Vec<(i32, i32)> = got.iter().filter_map(|r| Some((r[0].as_integer().ok()?, r[1].as_integer().ok()?))).collect();
        let ok = |k: K, me: i32| if me == 0 { x == k && a.is_some() } else { y == k && b.is_some() };
        let b0 = (0..2).filter(|me| ok(Update, *me)).map(|me| 1 << me).sum::<i32>();
        chk!(seen(&got, 0) == Some(b0), "every update that succeeded is there");
        chk!(seen(&got, 1).is_none() == (ok(Delete, 0) || ok(Delete, 1)), "every delete that succeeded is there");
        for me in 0..2 {
            chk!(seen(&got, 10 + me).is_some() == ok(Insert, me), "every insert that succeeded is there");
        }
    }
    for me in 0..2 {
        chk!(s.cat.read().get_table(&format!("z{me}")).is_some() == (if me == 0 { x } else { y } == Table), "every table that was made is there");
    }
    chk!(s.commit(t), "a transaction can commit");
    sym::cover("done");
    sym::stop()
}
const ALL: &[(K, K)] = &[(Insert, Insert), (Insert, Update), (Insert, Delete), (Insert, Scan), (Insert, Table), (Update, Update), (Update, Delete), (Update, Scan), (Update, Table), (Delete, Delete), (Delete, Scan), (Delete, Table), (Scan, Table), (Table, Table)];
crate::harness! {
    conc_insert => { conc(&[(Insert, Insert), (Insert, Table)], 1, false) }
    conc_update => { conc(&[(Update, Update)], 1, false) }
    conc_mixed => { conc(&ALL[1..], 1, false) }
    conc_all => { conc(ALL, 1, true) }
    conc_all2 => { conc(ALL, 2, true) }
}

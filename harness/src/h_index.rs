//! Queries through an index against the same queries on lists of rows.
use crate::h_dml::{add, col, con, less, opt, set, small, S, T};
use crate::{chk, sym};
use ferrite::catalog::{column::Column, schema::Schema};
use ferrite::concurrency::transaction::IsolationLevel::*;
use ferrite::sql::execution::check_option::{CheckOption, CheckOptions};
use ferrite::sql::execution::expressions::abstract_expression::Expression;
use ferrite::sql::execution::expressions::comparison_expression::{ComparisonExpression, ComparisonType};
use ferrite::sql::execution::expressions::logic_expression::{LogicExpression, LogicType};
use ferrite::sql::execution::plans::abstract_plan::PlanNode;
use ferrite::sql::execution::expressions::column_value_expression::ColumnRefExpression;
use ferrite::sql::execution::plans::index_scan_plan::IndexScanNode;
use ferrite::sql::execution::plans::nested_index_join_plan::NestedIndexJoinNode;
use sqlparser::ast::{JoinConstraint, JoinOperator};
use ferrite::sql::optimizer::Optimizer;
use ferrite::sql::planner::logical_plan::{LogicalPlan, LogicalPlanType, LogicalToPhysical};
use ferrite::storage::index::IndexType;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::{Val, Value};
use std::sync::Arc;

type E = Arc<Expression>;
const I: TypeId = TypeId::Integer;
/// (id, a): ids are different
type R = (i32, Option<i32>);

fn two() -> Schema {
    Schema::new(vec![Column::new("id", I), Column::new("a", I)])
}
fn values(r: &[R]) -> Vec<Vec<Value>> {
    r.iter().map(|r| vec![Value::new(r.0), opt(r.1)]).collect()
}
fn key() -> Option<i32> {
    (!sym::flip("null")).then(|| small("key"))
}
/// the rows in any order
fn same(got: Result<Vec<Vec<Value>>, ()>, want: &[R], label: &str) {
    let Ok(got) = got else { sym::fail(label); return };
    let w = values(want);
    sym::check(got.len() == w.len() && w.iter().all(|r| got.iter().any(|g| g.len() == 2 && g[0] == r[0] && (g[1].is_null() && r[1].is_null() || g[1] == r[1]))), label);
}
fn index(s: &S, name: &str, cols: Vec<usize>) -> u64 {
    let ks = Schema::copy_schema(&s.schema, &cols);
    let (i, _) = s.cat.write().create_index(name, &s.name, ks, cols, 4, false, IndexType::BPlusTreeIndex).unwrap();
    i.get_index_oid()
}
fn scan(s: &S, ix: u64, p: Vec<E>) -> PlanNode {
    PlanNode::IndexScan(IndexScanNode::new(s.schema.clone(), s.name.clone(), s.oid, "i".into(), ix, p))
}
type P = (E, Box<dyn Fn(&R) -> Option<bool>>);
/// a comparison of a column with a constant
fn compare(ops: u64) -> P {
    use ComparisonType::*;
    let c = if sym::flip("other") { 0 } else { 1 };
    let v = (!sym::flip("null const")).then(|| sym::i32("const"));
    let op = [LessThan, GreaterThanOrEqual, Equal, GreaterThan, LessThanOrEqual, NotEqual][sym::choose(ops, "op")];
    let (l, r) = (col(c, I), con(opt(v), I));
    let e = Arc::new(Expression::Comparison(ComparisonExpression::new(l.clone(), r.clone(), op, vec![l, r])));
    (e, Box::new(move |row| {
        let (a, b) = (if c == 0 { Some(row.0) } else { row.1 }?, v?);
        Some(match op {
            LessThan => a < b,
            LessThanOrEqual => a <= b,
            GreaterThan => a > b,
            GreaterThanOrEqual => a >= b,
            Equal => a == b,
            _ => a != b,
        })
    }))
}
fn logic(t: LogicType, l: P, r: P) -> P {
    let e = Arc::new(Expression::Logic(LogicExpression::new(l.0.clone(), r.0.clone(), t, vec![l.0, r.0])));
    (e, Box::new(move |row| {
        let (a, b) = ((l.1)(row), (r.1)(row));
        match t {
            LogicType::And if a == Some(false) || b == Some(false) => Some(false),
            LogicType::And => a.and(b),
            LogicType::Or if a == Some(true) || b == Some(true) => Some(true),
            LogicType::Or => a.and(b),
            LogicType::Not => a.map(|a| !a),
        }
    }))
}
fn predicate(ops: u64) -> P {
    match sym::choose(4, "logic") {
        0 => compare(6),
        1 => logic(LogicType::And, compare(ops), compare(ops)),
        2 => logic(LogicType::Or, compare(ops), compare(ops)),
        _ => {
            let p = compare(6);
            let e = p.0.clone();
            let p2: P = (e, Box::new(|_| None));
            logic(LogicType::Not, p, p2)
        }
    }
}
/// every predicate over rows that were there before the index or came after it
fn predicates(rows: u64, ops: u64, deep: bool) {
    let s = S::new(8, two());
    let c = if sym::flip("first") { 0 } else { 1 };
    let n = if deep { rows } else { sym::choose(rows + 1, "rows") as u64 } as i32;
    let base: Vec<R> = (0..n).map(|i| (i, key())).collect();
    let before = sym::flip("before");
    let ix = before.then(|| index(&s, "i", vec![c]));
    if n > 0 {
        let t = s.begin(ReadCommitted);
        chk!(s.run(&t, s.insert(values(&base), false), true).is_ok(), "rows can be inserted");
        chk!(s.commit(t), "a transaction can commit");
    }
    let ix = ix.unwrap_or_else(|| index(&s, "i", vec![c]));
    let t = s.begin(ReadCommitted);
    let (e, f): (Vec<E>, Vec<Box<dyn Fn(&R) -> Option<bool>>>) = if deep {
        let k = if sym::flip("and") { LogicType::And } else { LogicType::Or };
        let p = predicate(ops);
        let q = predicate(ops);
        if sym::flip("list") {
            (vec![p.0, q.0], vec![p.1, q.1])
        } else {
            let p = logic(k, p, q);
            (vec![p.0], vec![p.1])
        }
    } else {
        let p = predicate(ops);
        (vec![p.0], vec![p.1])
    };
    let want: Vec<R> = base.iter().filter(|r| f.iter().all(|f| f(r) == Some(true))).cloned().collect();
    same(s.run(&t, scan(&s, ix, e), true), &want, "an index scan finds exactly the rows of its predicates");
    sym::cover("done");
    sym::stop()
}
fn range() -> (Vec<E>, Box<dyn Fn(&R) -> bool>) {
    if sym::flip("all") {
        return (vec![], Box::new(|_| true));
    }
    let (a, b) = (sym::i32("from"), sym::i32("to"));
    let ge = |v: i32, op| {
        let (l, r) = (col(1, I), con(Value::new(v), I));
        Arc::new(Expression::Comparison(ComparisonExpression::new(l.clone(), r.clone(), op, vec![l, r])))
    };
    let (l, r) = (ge(a, ComparisonType::GreaterThanOrEqual), ge(b, ComparisonType::LessThanOrEqual));
    (vec![l, r], Box::new(move |row| row.1.is_some_and(|k| a <= k && k <= b)))
}
/// rows change while the index is there
fn history(rows: u64, stmts: u64) {
    let s = S::new(8, two());
    let before = sym::flip("before");
    let ix = before.then(|| index(&s, "i", vec![1]));
    let n = sym::choose(rows + 1, "rows") as i32;
    let base: Vec<R> = (0..n).map(|i| (i, key())).collect();
    if n > 0 {
        let t = s.begin(ReadCommitted);
        let child = sym::flip("child");
        chk!(s.run(&t, s.insert(values(&base), child), true).is_ok(), "rows can be inserted");
        chk!(s.commit(t), "a transaction can commit");
    }
    let ix = ix.unwrap_or_else(|| index(&s, "i", vec![1]));
    let old = s.begin(Snapshot);
    let t = s.begin(ReadCommitted);
    let mut m = base.clone();
    for k in 0..stmts {
        let bound = sym::flip("where").then(|| sym::i32("bound"));
        let hit = |r: &R| bound.is_none_or(|b| r.1.is_some_and(|a| a < b));
        let cond = bound.map(|b| less(1, b));
        let ok = match sym::choose(3, "op") {
            0 => {
                let r = (100 + k as i32, key());
                m.push(r);
                s.run(&t, s.insert(values(&[r]), bound.is_some()), true).is_ok()
            }
            1 => {
                let c = small("new");
                sym::assume(m.iter().any(|r| hit(r)));
                m.iter_mut().filter(|r| hit(r)).for_each(|r| r.1 = Some(c));
                s.run(&t, s.update(vec![set(1, I, con(Value::new(c), I))], cond), true).is_ok()
            }
            _ => {
                sym::assume(m.iter().any(|r| hit(r)));
                m.retain(|r| !hit(r));
                s.run(&t, s.delete(cond), true).is_ok()
            }
        };
        chk!(ok, "a statement succeeds");
    }
    let (p, f) = range();
    let keep = |m: &[R]| m.iter().filter(|r| f(r)).cloned().collect::<Vec<_>>();
    match sym::choose(3, "end") {
        0 => same(s.run(&t, scan(&s, ix, p), true), &keep(&m), "a transaction finds its own changes by the index"),
        1 => {
            chk!(s.commit(t), "a transaction can commit");
            let new = s.begin(ReadCommitted);
            same(s.run(&new, scan(&s, ix, p.clone()), true), &keep(&m), "committed changes are found by the index");
            same(s.run(&old, scan(&s, ix, p), true), &keep(&base), "a snapshot is read by the index");
        }
        _ => {
            s.abort(t);
            let new = s.begin(ReadCommitted);
            same(s.run(&new, scan(&s, ix, p), true), &keep(&base), "rolled back changes are not found by the index");
        }
    }
    sym::cover("done");
    sym::stop()
}
/// so many rows that the tree has levels
fn many(rows: i32) {
    let s = S::new(8, two());
    let ix = index(&s, "i", vec![1]);
    let m: Vec<R> = (0..rows).map(|i| (i, [None, Some(3), Some(5)][sym::choose(3, "key")])).collect();
    let t = s.begin(ReadCommitted);
    chk!(s.run(&t, s.insert(values(&m), false), true).is_ok(), "rows can be inserted");
    let (p, f) = range();
    let want: Vec<R> = m.iter().filter(|r| f(r)).cloned().collect();
    same(s.run(&t, scan(&s, ix, p), true), &want, "an index scan finds exactly the rows of its predicates");
    sym::cover("done");
    sym::stop()
}
/// what the optimizer makes of a scan reads the table
fn planned(rows: u64) {
    let kind = sym::choose(4, "indexes");
    let schema = match kind {
        0 => Schema::new(vec![Column::new_primary_key("id", I), Column::new("a", I)]),
        _ => two(),
    };
    let s = S::new(8, schema);
    let late = sym::flip("late");
    let make = || match kind {
        0 => {}
        1 => { index(&s, "i", vec![0]); }
        2 => { index(&s, "i", vec![0, 1]); }
        _ => { index(&s, "i", vec![1]); }
    };
    let plan = || {
        let l = LogicalPlan::new(LogicalPlanType::TableScan { table_name: s.name.clone(), schema: s.schema.clone(), table_oid: s.oid }, vec![]);
        let mut o = CheckOptions::new();
        o.add_check(CheckOption::EnablePushdownCheck);
        Optimizer::new(s.cat.clone()).optimize(Box::new(l), Arc::new(o)).and_then(|p| p.to_physical_plan().map_err(ferrite::common::exception::DBError::Internal)).ok()
    };
    let mut m: Vec<R> = vec![];
    if !late {
        make();
        // the first query makes the indexes of the constraints
        let t = s.begin(ReadCommitted);
        let Some(p) = plan() else { sym::fail("a scan can be planned"); return };
        same(s.run(&t, p, true), &m, "the planned scan reads all rows");
        chk!(s.commit(t), "a transaction can commit");
    }
    let t = s.begin(ReadCommitted);
    let n = 1 + sym::choose(rows, "rows") as i32;
    let r: Vec<R> = (0..n).map(|i| (i, key())).collect();
    chk!(s.run(&t, s.insert(values(&r), sym::flip("child")), true).is_ok(), "rows can be inserted");
    m.extend(r);
    if sym::flip("change") {
        let c = small("by");
        chk!(s.run(&t, s.update(vec![set(0, I, add(0, 10))], Some(less(1, c))), true).is_ok(), "rows can be changed");
        m.iter_mut().filter(|r| r.1.is_some_and(|a| a < c)).for_each(|r| r.0 += 10);
    }
    chk!(s.commit(t), "a transaction can commit");
    if late {
        make();
    }
    let t = s.begin(ReadCommitted);
    let Some(p) = plan() else { sym::fail("a scan can be planned"); return };
    same(s.run(&t, p, true), &m, "the planned scan reads all rows");
    sym::cover("done");
    sym::stop()
}
/// a join that looks keys up in an index of the right table, if it has one
fn join(left: u64, right: u64) {
    let mut s = S::new(10, two());
    let t = s.begin(ReadCommitted);
    let n = sym::choose(left + 1, "left rows") as i32;
    let l: Vec<R> = (0..n).map(|i| (i, key())).collect();
    if n > 0 {
        chk!(s.run(&t, s.insert(values(&l), false), true).is_ok(), "rows can be inserted");
    }
    let scan_l = s.scan();
    s.table("r", two());
    let kind = sym::choose(4, "indexes");
    let make = || match kind {
        0 => { index(&s, "i", vec![1]); }
        1 => { index(&s, "i", vec![0]); }
        2 => { index(&s, "i", vec![1, 0]); }
        _ => {}
    };
    let late = sym::flip("late");
    if !late {
        make();
    }
    let n = sym::choose(right + 1, "right rows") as i32;
    let r: Vec<R> = (0..n).map(|i| (50 + i, key())).collect();
    if n > 0 {
        chk!(s.run(&t, s.insert(values(&r), false), true).is_ok(), "rows can be inserted");
    }
    if late {
        make();
    }
    let rc: E = Arc::new(Expression::ColumnRef(ColumnRefExpression::new(1, 1, Column::new("a", I), vec![])));
    let lc = col(1, I);
    let p: E = Arc::new(Expression::Comparison(ComparisonExpression::new(lc.clone(), rc.clone(), ComparisonType::Equal, vec![lc.clone(), rc.clone()])));
    let plan = NestedIndexJoinNode::new(two(), two(), p, JoinOperator::Inner(JoinConstraint::None), vec![lc], vec![rc], vec![scan_l, s.scan()]);
    let got = s.run(&t, PlanNode::NestedIndexJoin(plan), sym::flip("init"));
    let mut want = vec![];
    for a in &l {
        for b in &r {
            if a.1.is_some() && a.1 == b.1 {
                want.push((a, b));
            }
        }
    }
    let Ok(got) = got else { sym::fail("the join has a result"); return };
    let ok = got.len() == want.len()
        && want.iter().all(|(a, b)| {
            let w = [Value::new(a.0), opt(a.1), Value::new(b.0), opt(b.1)];
            got.iter().any(|g| g[..] == w)
        });
    sym::check(ok, "an index join returns exactly the matching pairs");
    sym::cover("done");
    sym::stop()
}

crate::harness! {
    index_predicates2 => { predicates(2, 3, false) }
    index_predicates3 => { predicates(3, 6, false) }
    index_predicates_deep => { predicates(2, 2, true) }
    index_hist1 => { history(2, 1) }
    index_hist2 => { history(2, 2) }
    index_many5 => { many(5) }
    index_many6 => { many(6) }
    index_join2 => { join(2, 2) }
    index_join3 => { join(2, 3) }
    index_planned => { planned(2) }
}

//! The planner: what a logical plan returns, as it is and after the optimizer.
use crate::h_dml::{col, con, opt, small, S};
use crate::{chk, sym};
use ferrite::catalog::{column::Column, schema::Schema};
use ferrite::concurrency::transaction::IsolationLevel::*;
use ferrite::sql::execution::check_option::{CheckOption, CheckOptions};
use ferrite::sql::execution::expressions::abstract_expression::Expression;
use ferrite::sql::execution::expressions::aggregate_expression::{AggregateExpression, AggregationType};
use ferrite::sql::execution::expressions::column_value_expression::ColumnRefExpression;
use ferrite::sql::execution::expressions::comparison_expression::{ComparisonExpression, ComparisonType};
use ferrite::sql::execution::expressions::logic_expression::{LogicExpression, LogicType};
use ferrite::sql::execution::plans::sort_plan::{OrderBySpec, OrderDirection};
use ferrite::sql::optimizer::Optimizer;
use ferrite::sql::planner::logical_plan::{LogicalPlan, LogicalToPhysical};
use ferrite::storage::index::IndexType;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::types::Type;
use ferrite::types_db::value::Value;
use sqlparser::ast::{JoinConstraint, JoinOperator};
use std::sync::Arc;

type E = Arc<Expression>;
type O = Option<i32>;
const I: TypeId = TypeId::Integer;

fn schema(names: &[&str]) -> Schema {
    Schema::new(names.iter().map(|n| Column::new(n, I)).collect())
}
fn named(i: usize, n: &str) -> E {
    Arc::new(Expression::ColumnRef(ColumnRefExpression::new(0, i, Column::new(n, I), vec![])))
}
fn cmp(l: E, r: E, t: ComparisonType) -> E {
    Arc::new(Expression::Comparison(ComparisonExpression::new(l.clone(), r.clone(), t, vec![l, r])))
}
fn truth() -> E {
    con(Value::new(true), TypeId::Boolean)
}
fn order(a: &O, b: &O) -> std::cmp::Ordering {
    // NULL first
    a.cmp(b)
}
/// a plan, the rows it stands for, and whether their order is given
struct Q {
    plan: Box<LogicalPlan>,
    names: Vec<String>,
    rows: Vec<Vec<O>>,
    det: bool,
}
impl Q {
    fn schema(&self) -> Schema {
        Schema::new(self.names.iter().map(|n| Column::new(n, I)).collect())
    }
    fn refer(&self, i: usize) -> E {
        named(i, &self.names[i])
    }
    fn step(self, s: &S, kinds: &[usize]) -> Q {
        let sc = self.schema();
        let w = self.names.len();
        match kinds[sym::choose(kinds.len() as u64, "operator")] {
            0 => {
                let (c, ge) = (sym::choose(w as u64, "column"), sym::flip("at least"));
                let k = small("bound");
                let p = cmp(self.refer(c), con(Value::new(k), I), if ge { ComparisonType::GreaterThanOrEqual } else { ComparisonType::LessThan });
                let rows = self.rows.into_iter().filter(|r| r[c].is_some_and(|v| if ge { v >= k } else { v < k })).collect();
                Q { plan: LogicalPlan::filter(sc, s.name.clone(), s.oid, p, self.plan), rows, ..Q { plan: LogicalPlan::use_db(String::new()), names: self.names, rows: vec![], det: self.det } }
            }
            1 => {
                let yes = sym::flip("true");
                let p = if yes { truth() } else { con(Value::new(false), TypeId::Boolean) };
                Q { plan: LogicalPlan::filter(sc, s.name.clone(), s.oid, p, self.plan), rows: if yes { self.rows } else { vec![] }, names: self.names, det: self.det }
            }
            2 => {
                // all columns the other way round, one column, or a sum
                match sym::choose(3, "projection") {
                    0 => {
                        let names: Vec<String> = self.names.iter().rev().cloned().collect();
                        let es = (0..w).rev().map(|i| self.refer(i)).collect();
                        let out = Schema::new(names.iter().map(|n| Column::new(n, I)).collect());
                        let rows = self.rows.into_iter().map(|r| r.into_iter().rev().collect()).collect();
                        Q { plan: LogicalPlan::project(es, out, self.plan), names, rows, det: self.det }
                    }
                    1 => {
                        let c = sym::choose(w as u64, "column");
                        let names = vec![self.names[c].clone()];
                        let es = vec![self.refer(c)];
                        let out = schema(&[&names[0]]);
                        let rows = self.rows.into_iter().map(|r| vec![r[c]]).collect();
                        Q { plan: LogicalPlan::project(es, out, self.plan), names, rows, det: self.det }
                    }
                    _ => {
                        let names = vec!["sum".to_string(), self.names[0].clone()];
                        let es = vec![con(Value::new(7), I), self.refer(0)];
                        let out = schema(&["sum", &names[1]]);
                        let rows = self.rows.into_iter().map(|r| vec![Some(7), r[0]]).collect();
                        Q { plan: LogicalPlan::project(es, out, self.plan), names, rows, det: self.det }
                    }
                }
            }
            3 => {
                let c = sym::choose(w as u64, "column");
                let desc = sym::flip("descending");
                let mut by: Vec<usize> = vec![c];
                by.extend((0..w).filter(|i| *i != c));
                let specs = by.iter().map(|i| OrderBySpec::new(self.refer(*i), if desc && *i == c { OrderDirection::Desc } else { OrderDirection::Asc })).collect();
                let mut rows = self.rows;
                rows.sort_by(|a, b| {
                    let mut o = std::cmp::Ordering::Equal;
                    for i in &by {
                        let x = order(&a[*i], &b[*i]);
                        o = o.then(if desc && *i == c { x.reverse() } else { x });
                    }
                    o
                });
                Q { plan: LogicalPlan::sort(specs, sc, self.plan), names: self.names, rows, det: true }
            }
            4 => {
                sym::assume(self.det);
                let k = sym::choose(3, "limit");
                let rows = self.rows.into_iter().take(k).collect();
                Q { plan: LogicalPlan::limit(k, sc, self.plan), names: self.names, rows, det: true }
            }
            5 => {
                sym::assume(self.det);
                let k = sym::choose(3, "offset");
                let rows = self.rows.into_iter().skip(k).collect();
                Q { plan: LogicalPlan::offset(k, sc, self.plan), names: self.names, rows, det: true }
            }
            7 => {
                // GROUP BY a column with COUNT(*)
                let c = sym::choose(w as u64, "column");
                let mut rows: Vec<Vec<O>> = vec![];
                for r in self.rows {
                    match rows.iter_mut().find(|g| g[0] == r[c]) {
                        Some(g) => g[1] = g[1].map(|n| n + 1),
                        None => rows.push(vec![r[c], Some(1)]),
                    }
                }
                let names = vec![self.names[c].clone(), "COUNT(*)".to_string()];
                let count = Arc::new(Expression::Aggregate(AggregateExpression::new(AggregationType::CountStar, vec![], Column::new("COUNT(*)", TypeId::BigInt), "COUNT".into())));
                let out = Schema::new(vec![Column::new(&names[0], I), Column::new("COUNT(*)", TypeId::BigInt)]);
                let by = named(c, &self.names[c]);
                Q { plan: LogicalPlan::aggregate(vec![by], vec![count], out, self.plan), names, rows, det: false }
            }
            _ => {
                let mut rows: Vec<Vec<O>> = vec![];
                for r in self.rows {
                    if !rows.contains(&r) {
                        rows.push(r);
                    }
                }
                Q { plan: LogicalPlan::distinct(sc, self.plan), names: self.names, rows, det: self.det }
            }
        }
    }
    /// the rows, from the plan and from what the optimizer makes of it
    fn check(self, s: &S) {
        let mut o = CheckOptions::new();
        let all = [CheckOption::EnablePushdownCheck, CheckOption::EnableNljCheck, CheckOption::EnableTopnCheck];
        for c in all.iter().take([0, 1, 3][sym::choose(3, "options")]) {
            o.add_check(c.clone());
        }
        let direct = self.plan.to_physical_plan();
        let better = Optimizer::new(s.cat.clone()).optimize(self.plan, Arc::new(o)).ok().map(|p| p.to_physical_plan());
        let t = s.begin(ReadCommitted);
        let Ok(direct) = direct else { sym::fail("a query can be planned"); return };
        let Some(Ok(better)) = better else { sym::fail("a query can be optimized"); return };
        for (p, l) in [(direct, "a plan returns the rows it stands for"), (better, "an optimized plan returns the rows it stands for")] {
            let Ok(got) = s.run(&t, p, true) else { sym::fail(l); return };
            let got: Option<Vec<Vec<O>>> = got.iter().map(|r| r.iter().map(|v| if v.is_null() { Some(None) } else { v.as_integer().or_else(|_| v.as_bigint().map(|n| n as i32)).ok().map(Some) }).collect()).collect();
            let Some(mut got) = got else { sym::fail(l); return };
            let mut want = self.rows.clone();
            if !self.det {
                got.sort();
                want.sort();
            }
            sym::check(got == want, l);
        }
        chk!(s.commit(t), "a transaction can commit");
    }
}
fn base(s: &S, names: &[&str], rows: &[Vec<O>], det: bool) -> Q {
    Q { plan: LogicalPlan::table_scan(s.name.clone(), s.schema.clone(), s.oid), names: names.iter().map(|n| n.to_string()).collect(), rows: rows.to_vec(), det }
}
fn fill(s: &S, n: usize, simple: bool) -> Vec<Vec<O>> {
    let rows: Vec<Vec<O>> = (0..n).map(|i| vec![Some(i as i32), if simple && i > 0 { Some(0) } else { (!sym::flip("null")).then(|| if simple { sym::choose(2, "v") as i32 } else { small("v") }) }]).collect();
    if n > 0 {
        let t = s.begin(ReadCommitted);
        let v = rows.iter().map(|r| r.iter().map(|v| opt(*v)).collect()).collect();
        chk!(s.run(&t, s.insert(v, false), true).is_ok(), "rows can be inserted");
        chk!(s.commit(t), "a transaction can commit");
    }
    rows
}
fn index(s: &S) {
    let ks = Schema::copy_schema(&s.schema, &[0]);
    chk!(s.cat.write().create_index("i", &s.name, ks, vec![0], 4, false, IndexType::BPlusTreeIndex).is_some(), "an index can be made");
}
const ALL: &[usize] = &[0, 1, 2, 3, 4, 5, 6];
fn queries(n: u64, depth: usize, kinds: &[usize]) {
    let s = S::new(8, schema(&["id", "a"]));
    let indexed = sym::flip("index");
    if indexed {
        index(&s);
    }
    let rows = fill(&s, sym::choose(n, "rows") + 1, depth > 1);
    let mut q = base(&s, &["id", "a"], &rows, !indexed);
    for _ in 0..depth {
        q = q.step(&s, kinds);
    }
    q.check(&s);
    sym::cover("done");
    sym::stop()
}
fn groups(before: bool) {
    let s = S::new(8, schema(&["id", "a"]));
    let indexed = sym::flip("index");
    if indexed {
        index(&s);
    }
    let rows = fill(&s, 3, true);
    let mut q = base(&s, &["id", "a"], &rows, !indexed);
    if before {
        q = q.step(&s, &[0, 2]);
    }
    q = q.step(&s, &[7]).step(&s, &[0, 2, 3, 6]);
    q.check(&s);
    sym::cover("done");
    sym::stop()
}
fn joins(max: u64, after: usize) {
    let mut s = S::new(8, schema(&["t.id", "t.a"]));
    let rt = fill(&s, max as usize, true);
    let t = base(&s, &["t.id", "t.a"], &rt, true);
    s.table("u", schema(&["u.x", "u.y"]));
    let ru = fill(&s, sym::choose(max, "rows") + 1, true);
    let u = base(&s, &["u.x", "u.y"], &ru, true);
    let (ts, us) = (t.schema(), u.schema());
    let names = ["t.id", "t.a", "u.x", "u.y"];
    let eq = |l: usize, r: usize| cmp(named(l, names[l]), named(r, names[r]), ComparisonType::Equal);
    let two = after == 0 && sym::flip("two conditions");
    let l = if after == 0 { sym::choose(4, "a column") } else { 2 * sym::choose(2, "a column") };
    let r = if after == 0 { (l + 1 + sym::choose(3, "another column")) % 4 } else { 3 - l };
    let p = if two {
        let (a, b) = (eq(0, 2), eq(l, r));
        Arc::new(Expression::Logic(LogicExpression::new(a.clone(), b.clone(), LogicType::And, vec![a, b])))
    } else {
        eq(l, r)
    };
    let left = sym::flip("left join");
    let mut rows = vec![];
    for a in &rt {
        let n = rows.len();
        for b in &ru {
            let row: Vec<O> = a.iter().chain(b).cloned().collect();
            let m = |l: usize, r: usize| row[l].is_some() && row[l] == row[r];
            if m(l, r) && (!two || m(0, 2)) {
                rows.push(row);
            }
        }
        if left && rows.len() == n {
            rows.push(vec![a[0], a[1], None, None]);
        }
    }
    let c = JoinConstraint::None;
    let j = if left { JoinOperator::LeftOuter(c) } else { JoinOperator::Inner(c) };
    let plan = LogicalPlan::nested_loop_join(ts, us, p, j, t.plan, u.plan);
    let mut q = Q { plan, names: names.iter().map(|n| n.to_string()).collect(), rows, det: false };
    for _ in 0..after {
        q = q.step(&s, &[0, 2, 3]);
    }
    q.check(&s);
    sym::cover("done");
    sym::stop()
}
/// INSERT of what a query returns
fn inserts(depth: usize) {
    let mut s = S::new(8, schema(&["id", "a"]));
    let rows = fill(&s, 2, true);
    let mut q = base(&s, &["id", "a"], &rows, true);
    for _ in 0..depth {
        q = q.step(&s, &[0, 1, 2, 3]);
    }
    let w = q.names.len();
    s.table("u", Schema::new((0..w).map(|i| Column::new(&format!("c{i}"), I)).collect()));
    let plan = LogicalPlan::insert("u".into(), s.schema.clone(), s.oid, q.plan);
    let mut o = CheckOptions::new();
    if sym::flip("optimize") {
        o.add_check(CheckOption::EnablePushdownCheck);
    }
    let p = Optimizer::new(s.cat.clone()).optimize(plan, Arc::new(o)).ok().and_then(|p| p.to_physical_plan().ok());
    let Some(p) = p else { sym::fail("a query can be planned"); return };
    let t = s.begin(ReadCommitted);
    chk!(s.run(&t, p, true).is_ok(), "the rows of a query can be inserted");
    let got = s.run(&t, s.scan(), true);
    let want: Vec<Vec<Value>> = q.rows.iter().map(|r| r.iter().map(|v| opt(*v)).collect()).collect();
    chk!(got.is_ok_and(|g| g.len() == want.len() && g.iter().zip(&want).all(|(g, w)| g.len() == w.len() && g.iter().zip(w).all(|(g, w)| g.is_null() && w.is_null() || g == w))), "the rows of the query are inserted");
    chk!(s.commit(t), "a transaction can commit");
    sym::cover("done");
    sym::stop()
}
/// planning while tables are made
fn meanwhile() {
    let s = S::new(8, Schema::new(vec![Column::new_primary_key("id", I), Column::new("a", I)]));
    let mut o = CheckOptions::new();
    o.add_check(CheckOption::EnablePushdownCheck);
    let (c, d) = (s.cat.clone(), s.cat.clone());
    let plan = LogicalPlan::table_scan(s.name.clone(), s.schema.clone(), s.oid);
    sym::explore(true, 1);
    let h = std::thread::spawn(move || d.write().create_table("z".into(), schema(&["x"])).is_some());
    let p = Optimizer::new(c).optimize(plan, Arc::new(o));
    chk!(p.is_ok(), "a query can be optimized");
    chk!(h.join().unwrap_or(false), "a table can be made");
    sym::explore(false, 0);
    sym::cover("done");
    sym::stop()
}
/// a part of a plan that cannot be planned
fn refused() {
    let s = S::new(8, schema(&["id", "a"]));
    let t = || base(&s, &["id", "a"], &[], true);
    let p = cmp(named(0, "id"), named(3, "a"), ComparisonType::LessThan);
    let plan = LogicalPlan::nested_loop_join(s.schema.clone(), s.schema.clone(), p, JoinOperator::Inner(JoinConstraint::None), t().plan, t().plan);
    let mut q = Q { plan, names: ["a", "b", "c", "d"].iter().map(|n| n.to_string()).collect(), rows: vec![], det: true };
    if sym::flip("more") {
        q = q.step(&s, &[0, 1, 2, 3, 6]);
    }
    chk!(q.plan.to_physical_plan().is_err(), "what cannot be planned is an error");
    let _ = col;
    sym::cover("done");
    sym::stop()
}

crate::harness! {
    plan_one => { queries(2, 1, ALL) }
    plan_two => { queries(2, 2, ALL) }
    plan_three => { queries(2, 3, ALL) }
    plan_merge => { queries(1, 3, &[0, 2]) }
    plan_group => { groups(false) }
    plan_group2 => { groups(true) }
    plan_join => { joins(2, 0) }
    plan_join_then => { joins(1, 1) }
    plan_insert => { inserts(1) }
    plan_insert2 => { inserts(2) }
    plan_meanwhile => { meanwhile() }
    plan_refused => { refused() }
}

//! Executors: what each one makes of the rows of its child, for all rows.
use crate::{chk, db, sym};
use ferrite::catalog::{Catalog, column::Column, schema::Schema};
use ferrite::common::exception::DBError;
use ferrite::common::rid::RID;
use ferrite::concurrency::lock_manager::LockManager;
use ferrite::concurrency::transaction::{IsolationLevel, Transaction};
use ferrite::concurrency::transaction_manager::TransactionManager;
use ferrite::sql::execution::execution_context::ExecutionContext;
use ferrite::sql::execution::executors::abstract_executor::AbstractExecutor;
use ferrite::sql::execution::executors::aggregation_executor::AggregationExecutor;
use ferrite::sql::execution::executors::distinct_executor::DistinctExecutor;
use ferrite::sql::execution::executors::filter_executor::FilterExecutor;
use ferrite::sql::execution::executors::hash_join_executor::HashJoinExecutor;
use ferrite::sql::execution::executors::limit_executor::LimitExecutor;
use ferrite::sql::execution::executors::nested_loop_join_executor::NestedLoopJoinExecutor;
use ferrite::sql::execution::executors::offset_executor::OffsetExecutor;
use ferrite::sql::execution::executors::projection_executor::ProjectionExecutor;
use ferrite::sql::execution::executors::sort_executor::SortExecutor;
use ferrite::sql::execution::expressions::abstract_expression::Expression;
use ferrite::sql::execution::expressions::aggregate_expression::{AggregateExpression, AggregationType};
use ferrite::sql::execution::expressions::arithmetic_expression::{ArithmeticExpression, ArithmeticOp};
use ferrite::sql::execution::expressions::column_value_expression::ColumnRefExpression;
use ferrite::sql::execution::expressions::comparison_expression::{ComparisonExpression, ComparisonType};
use ferrite::sql::execution::expressions::constant_value_expression::ConstantExpression;
use ferrite::sql::execution::plans::abstract_plan::PlanNode;
use ferrite::sql::execution::plans::aggregation_plan::AggregationPlanNode;
use ferrite::sql::execution::plans::filter_plan::FilterNode;
use ferrite::sql::execution::plans::hash_join_plan::HashJoinNode;
use ferrite::sql::execution::plans::limit_plan::LimitNode;
use ferrite::sql::execution::plans::mock_scan_plan::MockScanNode;
use ferrite::sql::execution::plans::nested_loop_join_plan::NestedLoopJoinNode;
use ferrite::sql::execution::plans::offset_plan::OffsetNode;
use ferrite::sql::execution::plans::projection_plan::ProjectionNode;
use ferrite::sql::execution::plans::sort_plan::{OrderBySpec, OrderDirection, SortNode};
use ferrite::sql::execution::transaction_context::TransactionContext;
use ferrite::sql::planner::logical_plan::{LogicalPlan, LogicalPlanType, LogicalToPhysical};
use ferrite::storage::table::tuple::Tuple;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::types::Type;
use ferrite::types_db::value::{Val, Value};
use parking_lot::RwLock;
use sqlparser::ast::{JoinConstraint, JoinOperator};
use std::cmp::Ordering;
use std::sync::Arc;

type E = Arc<Expression>;
type Cx = Arc<RwLock<ExecutionContext>>;
type X = Box<dyn AbstractExecutor>;

pub fn context() -> (db::Db, Cx) {
    sym::const_hash(true);
    let d = db::open(8, db::cfg());
    let tm = Arc::new(TransactionManager::new());
    let txn = Arc::new(Transaction::new(0, IsolationLevel::ReadUncommitted));
    let tc = Arc::new(TransactionContext::new(txn, Arc::new(LockManager::new()), tm.clone()));
    let cat = Arc::new(RwLock::new(Catalog::new(d.bpm.clone(), tm)));
    let cx = Arc::new(RwLock::new(ExecutionContext::new(d.bpm.clone(), cat, tc)));
    (d, cx)
}
/// a child that delivers rows, then possibly fails
struct Src {
    cx: Cx,
    schema: Schema,
    rows: std::vec::IntoIter<Vec<Value>>,
    fails: bool,
    n: u32,
}
impl AbstractExecutor for Src {
    fn init(&mut self) {}
    fn next(&mut self) -> Result<Option<(Arc<Tuple>, RID)>, DBError> {
        match self.rows.next() {
            Some(r) => {
                self.n += 1;
                let rid = RID::new(7, self.n);
                Ok(Some((Arc::new(Tuple::new(&r, &self.schema, rid)), rid)))
            }
            None if self.fails => {
                self.fails = false;
                Err(DBError::Execution("child".into()))
            }
            None => Ok(None),
        }
    }
    fn get_output_schema(&self) -> &Schema {
        &self.schema
    }
    fn get_executor_context(&self) -> Cx {
        self.cx.clone()
    }
}
fn src(cx: &Cx, schema: &Schema, rows: &[Vec<Value>], fails: bool) -> X {
    Box::new(Src { cx: cx.clone(), schema: schema.clone(), rows: rows.to_vec().into_iter(), fails, n: 0 })
}
fn table(types: &[TypeId]) -> Schema {
    let n = ["id", "a", "b", "c"];
    Schema::new(types.iter().enumerate().map(|(i, t)| Column::new(n[i], *t)).collect())
}
fn col(side: usize, i: usize, t: TypeId) -> E {
    Arc::new(Expression::ColumnRef(ColumnRefExpression::new(side, i, Column::new("x", t), vec![])))
}
fn con(v: Value, t: TypeId) -> E {
    Arc::new(Expression::Constant(ConstantExpression::new(v, Column::new("k", t), vec![])))
}
/// all rows of an executor, or that it failed
fn run(x: &mut dyn AbstractExecutor, init: bool) -> Result<Vec<Vec<Value>>, ()> {
    if init {
        x.init();
    }
    let mut out = vec![];
    loop {
        match x.next() {
            Ok(Some((t, _))) => out.push(t.get_values().to_vec()),
            Ok(None) => return Ok(out),
            Err(_) => return Err(()),
        }
        chk!(out.len() < 40, "the executor ends");
    }
}
fn ids(rows: &Result<Vec<Vec<Value>>, ()>) -> Option<Vec<i32>> {
    rows.as_ref().ok().map(|r| r.iter().map(|r| if let Val::Integer(i) = r[0].get_val() { *i } else { -1 }).collect())
}
fn opt(null: bool, v: i32) -> Value {
    if null { Value::new(Val::Null) } else { Value::new(v) }
}
/// NULL before everything
fn ord(a: &Option<i32>, b: &Option<i32>, dir: OrderDirection) -> Ordering {
    if dir == OrderDirection::Asc { a.cmp(b) } else { b.cmp(a) }
}
type K = (Option<i32>, Option<i32>);
/// up to max rows (id, a, b): a of any value or NULL, b small
fn rows(max: u64, null_b: bool) -> (Vec<Vec<Value>>, Vec<K>) {
    let n = sym::choose(max + 1, "rows");
    let mut r = vec![];
    let mut k = vec![];
    for i in 0..n {
        let a = (!sym::flip("a null")).then(|| sym::i32("a"));
        let b = (!null_b || !sym::flip("b null")).then(|| sym::below(2, "b") as i32);
        r.push(vec![Value::new(i as i32), opt(a.is_none(), a.unwrap_or(0)), opt(b.is_none(), b.unwrap_or(0))]);
        k.push((a, b));
    }
    (r, k)
}
fn dir(n: &str) -> OrderDirection {
    if sym::flip(n) { OrderDirection::Asc } else { OrderDirection::Desc }
}
const I: TypeId = TypeId::Integer;
/// positions of the rows in sorted order, equal rows in their order
fn sorted(k: &[K], d: &[OrderDirection]) -> Vec<i32> {
    let mut p: Vec<usize> = vec![];
    for i in 0..k.len() {
        let mut at = p.len();
        while at > 0 {
            let j = p[at - 1];
            let mut o = ord(&k[i].0, &k[j].0, d[0]);
            if o == Ordering::Equal && d.len() > 1 {
                o = ord(&k[i].1, &k[j].1, d[1]);
            }
            if o == Ordering::Less { at -= 1 } else { break }
        }
        p.insert(at, i);
    }
    p.into_iter().map(|i| i as i32).collect()
}
fn specs(d: &[OrderDirection]) -> Vec<OrderBySpec> {
    d.iter().enumerate().map(|(i, d)| OrderBySpec::new(col(0, i + 1, I), *d)).collect()
}
fn mock(schema: &Schema, rows: &[Vec<Value>]) -> MockScanNode {
    MockScanNode::new(schema.clone(), "t".into(), vec![])
        .with_tuples(rows.iter().enumerate().map(|(i, r)| (r.clone(), RID::new(3, i as u32))).collect())
}
fn sort(max: u64, keys: usize) {
    let (_d, cx) = context();
    let s = table(&[I, I, I]);
    let (r, k) = rows(max, false);
    let d: Vec<_> = (0..keys).map(|_| dir("dir")).collect();
    let fails = sym::flip("fails");
    let mut x = SortExecutor::new(src(&cx, &s, &r, fails), cx.clone(), Arc::new(SortNode::new(s, specs(&d), vec![])));
    let got = ids(&run(&mut x, sym::flip("init")));
    if fails {
        chk!(got.is_none(), "an error of the child is an error of the sort");
    } else {
        chk!(got == Some(sorted(&k, &d)), "the rows are all there, sorted, equal ones in their order");
    }
    sym::cover("done");
    sym::stop();
}
/// decimals, floats, or a mix of integers and decimals; NaN and zeroes included
fn sort_numbers() {
    let (_d, cx) = context();
    let s = table(&[I, TypeId::Decimal]);
    let mut r = vec![];
    let mut keys = vec![];
    let kind = sym::choose(3, "kind");
    for i in 0..3 {
        let (v, f) = match if kind == 2 { i as usize % 2 * 2 } else { kind * 2 } {
            0 => {
                let x = sym::f64("x");
                (Value::new(x), x)
            }
            2 if kind == 2 => {
                let x = sym::i32("i");
                (Value::new(x), x as f64)
            }
            _ => {
                let x = sym::f32("f");
                (Value::new(x), x as f64)
            }
        };
        r.push(vec![Value::new(i), v]);
        keys.push(f);
    }
    let d = dir("dir");
    let spec = vec![OrderBySpec::new(col(0, 1, TypeId::Decimal), d)];
    let mut x = SortExecutor::new(src(&cx, &s, &r, false), cx.clone(), Arc::new(SortNode::new(s, spec, vec![])));
    let got = ids(&run(&mut x, true)).unwrap_or_default();
    chk!(got.len() == 3 && (0..3).all(|i| got.contains(&i)), "the rows are all there");
    for w in got.windows(2) {
        let (mut a, mut b) = (keys[w[0] as usize], keys[w[1] as usize]);
        if d == OrderDirection::Desc {
            (a, b) = (b, a);
        }
        chk!(b.is_nan() || a <= b, "numbers are sorted, NaN after all others");
    }
    sym::cover("done");
    sym::stop();
}

fn opts(r: &[Vec<Value>], fail_at: Option<usize>) -> Vec<Vec<E>> {
    r.iter().enumerate().map(|(i, r)| {
        r.iter().enumerate().map(|(j, v)| {
            if fail_at == Some(i) && j == 0 {
                Arc::new(Expression::Arithmetic(ArithmeticExpression::new(ArithmeticOp::Divide, vec![con(Value::new(1), I), con(Value::new(0), I)])))
            } else {
                con(if v.is_null() { Value::new_with_type(Val::Null, I) } else { v.clone() }, I)
            }
        }).collect()
    }).collect()
}
/// the rows as VALUES; the row fail_at cannot be computed
fn values(s: &Schema, r: &[Vec<Value>], fail_at: Option<usize>) -> Box<LogicalPlan> {
    Box::new(LogicalPlan::new(LogicalPlanType::Values { rows: opts(r, fail_at), schema: s.clone() }, vec![]))
}
fn execute(cx: &Cx, p: LogicalPlan, init: bool) -> Result<Vec<Vec<Value>>, ()> {
    let p = p.to_physical_plan().unwrap();
    let mut x = p.create_executor(cx.clone()).unwrap();
    run(&mut *x, init)
}
fn topn(max: u64, keys: usize, per_group: bool) {
    let (_d, cx) = context();
    let s = table(&[I, I, I]);
    let (r, k) = rows(max, per_group);
    let d: Vec<_> = (0..keys).map(|_| dir("dir")).collect();
    let n = sym::choose(max + 1, "n");
    let fail_at = (!r.is_empty() && sym::flip("fails")).then(|| sym::choose(r.len() as u64, "at"));
    let t = if per_group {
        LogicalPlanType::TopNPerGroup { k: n, sort_specifications: specs(&d), groups: vec![col(0, 2, I)], schema: s.clone() }
    } else {
        LogicalPlanType::TopN { k: n, sort_specifications: specs(&d), schema: s.clone() }
    };
    let got = ids(&execute(&cx, LogicalPlan::new(t, vec![values(&s, &r, fail_at)]), sym::flip("init")));
    if fail_at.is_some() {
        chk!(got.is_none(), "an error of the child is an error of the top-N");
    } else {
        let all = sorted(&k, &d);
        let mut want = vec![];
        if per_group {
            for g in [None, Some(0), Some(1)] {
                want.extend(all.iter().copied().filter(|i| k[*i as usize].1 == g).take(n));
            }
        } else {
            want.extend(all.iter().copied().take(n));
        }
        chk!(got == Some(want), "the first rows of the order, sorted");
    }
    sym::cover("done");
    sym::stop();
}
fn limit_offset(max: u64) {
    let (_d, cx) = context();
    let s = table(&[I]);
    let n = sym::choose(max + 1, "rows");
    let r: Vec<Vec<Value>> = (0..n).map(|i| vec![Value::new(i as i32)]).collect();
    let (l, o) = (sym::usize("limit"), sym::usize("offset"));
    let fails = sym::flip("fails");
    let off = OffsetExecutor::new(src(&cx, &s, &r, fails), cx.clone(), Arc::new(OffsetNode::new(o, s.clone(), vec![])));
    let mut x = LimitExecutor::new(Box::new(off), cx.clone(), Arc::new(LimitNode::new(l, s, vec![])));
    let got = ids(&run(&mut x, sym::flip("init")));
    let left = n.saturating_sub(o);
    if fails && l > left {
        chk!(got.is_none(), "an error of the child is an error of the query");
    } else {
        chk!(got == Some((0..n).skip(o.min(n)).take(l.min(n)).map(|i| i as i32).collect()), "skips OFFSET rows and returns the next LIMIT rows");
    }
    sym::cover("done");
    sym::stop();
}
/// distinct rows: the first of each, NULLs are alike, text and numbers of all values
fn distinct(max: u64, text: bool) {
    let (_d, cx) = context();
    let s = if text { table(&[TypeId::VarChar, TypeId::VarChar]) } else { table(&[I, I]) };
    let n = sym::choose(max + 1, "rows");
    let mut r: Vec<Vec<Value>> = vec![];
    let mut k: Vec<Vec<Option<Vec<u8>>>> = vec![];
    for _ in 0..n {
        let mut row = vec![];
        let mut key = vec![];
        for _ in 0..2 {
            let null = sym::flip("null");
            if text {
                let t = crate::h_types::ascii(sym::choose(2, "len"), "t");
                row.push(if null { Value::new(Val::Null) } else { Value::new(t.clone()) });
                key.push((!null).then(|| t.into_bytes()));
            } else {
                let v = sym::i32("v");
                row.push(opt(null, v));
                key.push((!null).then(|| v.to_le_bytes().to_vec()));
            }
        }
        r.push(row);
        k.push(key);
    }
    let fails = sym::flip("fails");
    let mut x = DistinctExecutor::new(s.clone(), src(&cx, &s, &r, fails));
    let got = run(&mut x, sym::flip("init"));
    if fails {
        chk!(got.is_err(), "an error of the child is an error of the query");
    } else {
        let want: Vec<_> = (0..n).filter(|i| !(0..*i).any(|j| k[j] == k[*i])).map(|i| r[i].clone()).collect();
        chk!(got == Ok(want), "the first row of each value, in order");
    }
    sym::cover("done");
    sym::stop();
}
/// WHERE keeps the rows whose condition is true; the projection computes each kept row
fn filter_project(max: u64) {
    let (_d, cx) = context();
    let s = table(&[I, I, I]);
    let (r, k) = rows(max, true);
    let bound = sym::i32("bound");
    let cond = Arc::new(Expression::Comparison(ComparisonExpression::new(col(0, 1, I), con(Value::new(bound), I), ComparisonType::LessThan, vec![])));
    let fails = sym::flip("fails");
    let f = FilterExecutor::new(src(&cx, &s, &r, fails), cx.clone(), Arc::new(FilterNode::new_where(s.clone(), 0, "t".into(), cond, vec![])));
    let sum = Arc::new(Expression::Arithmetic(ArithmeticExpression::new(ArithmeticOp::Add, vec![col(0, 0, I), con(Value::new(1), I)])));
    let out = table(&[I, I, I]);
    let mut x = ProjectionExecutor::new(Box::new(f), cx.clone(), Arc::new(ProjectionNode::new(out, vec![sum, col(0, 2, I), col(0, 1, I)], vec![0, 1, 2])));
    let got = run(&mut x, true);
    if fails {
        chk!(got.is_err(), "an error of the child is an error of the query");
    } else {
        let want: Vec<_> = (0..k.len()).filter(|i| k[*i].0.is_some_and(|a| a < bound)).map(|i| vec![Value::new(i as i32 + 1), r[i][2].clone(), r[i][1].clone()]).collect();
        chk!(got == Ok(want), "the rows whose condition is true, computed");
    }
    sym::cover("done");
    sym::stop();
}
fn project_error() {
    let (_d, cx) = context();
    let s = table(&[I, I]);
    let n = sym::choose(3, "rows");
    let mut r = vec![];
    let mut bad = false;
    let mut want = vec![];
    for i in 0..n {
        let v = sym::i32("v");
        bad |= v == 0;
        r.push(vec![Value::new(i as i32), Value::new(v)]);
        want.push(vec![Value::new(i as i32)]);
    }
    let div = Arc::new(Expression::Comparison(ComparisonExpression::new(
        Arc::new(Expression::Arithmetic(ArithmeticExpression::new(ArithmeticOp::Divide, vec![con(Value::new(1), I), col(0, 1, I)]))),
        con(Value::new(0), I), ComparisonType::Equal, vec![])));
    let out = Schema::new(vec![Column::new("id", I), Column::new("z", TypeId::Boolean)]);
    let mut x = ProjectionExecutor::new(src(&cx, &s, &r, false), cx.clone(), Arc::new(ProjectionNode::new(out, vec![col(0, 0, I), div], vec![0, 1])));
    let got = run(&mut x, true);
    chk!(got.is_err() == bad, "a row that cannot be computed is an error, not a missing row");
    if let Ok(g) = got {
        chk!(g.len() == n, "one row for each row");
    }
    sym::cover("done");
    sym::stop();
}
fn agg(t: AggregationType, name: &str, arg: Option<(usize, TypeId)>) -> E {
    let ch = arg.map(|(i, t)| vec![col(0, i, t)]).unwrap_or_default();
    Arc::new(Expression::Aggregate(AggregateExpression::new(t, ch, Column::new(name, TypeId::BigInt), name.into())))
}
/// COUNT(*), COUNT(a), SUM(a), MIN(a), MAX(a) by nullable group
fn aggregate(max: u64, grouped: bool) {
    use AggregationType::*;
    let (_d, cx) = context();
    let s = table(&[I, I, I]);
    let (r, k) = rows(max, true);
    let fails = sym::flip("fails");
    let by = if grouped { vec![col(0, 2, I)] } else { vec![] };
    let aggs = vec![agg(CountStar, "n", None), agg(Count, "c", Some((1, I))), agg(Sum, "s", Some((1, I))), agg(Min, "l", Some((1, I))), agg(Max, "h", Some((1, I)))];
    let p = AggregationPlanNode::new(vec![], by, aggs);
    let mut x = AggregationExecutor::new(cx.clone(), Arc::new(p), src(&cx, &s, &r, fails));
    let got = run(&mut x, sym::flip("init"));
    let groups: Vec<Option<i32>> = if grouped { vec![None, Some(0), Some(1)] } else { vec![Some(9)] };
    let mut want = vec![];
    let mut over = false;
    for g in &groups {
        let m: Vec<_> = k.iter().filter(|k| !grouped || k.1 == *g).map(|k| k.0).collect();
        if m.is_empty() && grouped {
            continue;
        }
        let v: Vec<i64> = m.iter().flatten().map(|a| *a as i64).collect();
        let mut sum = 0i64;
        for x in &v {
            sum += x;
            over |= sum > i32::MAX as i64 || sum < i32::MIN as i64;
        }
        want.push((*g, m.len() as i64, v.len() as i64, sum, v.iter().min().copied(), v.iter().max().copied()));
    }
    if fails || over {
        chk!(got.is_err(), "an error of the child or an overflow is an error of the query");
    } else if got.is_err() {
        sym::fail("no error without a reason");
    } else {
        let got = got.unwrap();
        chk!(got.len() == want.len(), "one row for each group");
        for (g, n, c, sum, lo, hi) in want {
            let mut row = got.iter().filter(|r| !grouped || r[0].is_null() == g.is_none() && (g.is_none() || r[0] == Value::new(g.unwrap())));
            let Some(w) = row.next() else { sym::fail("every group has its row"); continue };
            let w = &w[grouped as usize..];
            chk!(w[0] == Value::new(n), "COUNT(*) counts the rows");
            chk!(w[1] == Value::new(c), "COUNT(x) counts the rows where x is not NULL");
            if k.is_empty() {
                continue;
            }
            if c == 0 {
                chk!(w[2].is_null() && w[3].is_null() && w[4].is_null(), "SUM, MIN and MAX of no value are NULL");
            } else {
                chk!(w[2] == Value::new(sum as i32), "SUM adds the values");
                chk!(w[3] == Value::new(lo.unwrap() as i32) && w[4] == Value::new(hi.unwrap() as i32), "MIN and MAX are the extremes");
            }
        }
    }
    sym::cover("done");
    sym::stop();
}
/// AVG of integers of each width
fn average() {
    let (_d, cx) = context();
    let n = sym::choose(3, "rows");
    let w = sym::choose(4, "type");
    let t = [TypeId::TinyInt, TypeId::SmallInt, I, TypeId::BigInt][w];
    let s = table(&[t]);
    let mut r = vec![];
    let mut v = vec![];
    for _ in 0..n {
        if sym::flip("null") {
            r.push(vec![Value::new(Val::Null)]);
            continue;
        }
        let x = if v.is_empty() { sym::i32("v") } else { [i32::MIN, -7, 0, 1, i32::MAX][sym::choose(5, "w")] };
        let x = match w { 0 => x as i8 as i32, 1 => x as i16 as i32, _ => x };
        r.push(vec![match w { 0 => Value::new(x as i8), 1 => Value::new(x as i16), 2 => Value::new(x), _ => Value::new(x as i64) }]);
        v.push(x as i64);
    }
    let p = AggregationPlanNode::new(vec![], vec![], vec![agg(AggregationType::Avg, "a", Some((0, t)))]);
    let mut x = AggregationExecutor::new(cx.clone(), Arc::new(p), src(&cx, &s, &r, false));
    let got = run(&mut x, true);
    let Ok(g) = got else { sym::fail("an average does not overflow"); return };
    chk!(g.len() == 1, "one row");
    if v.is_empty() {
        chk!(g[0][0].is_null(), "AVG of no value is NULL");
    } else {
        let want = v.iter().sum::<i64>() as f64 / v.len() as f64;
        chk!(matches!(g[0][0].get_val(), Val::Decimal(d) if *d == want), "AVG is the sum divided by the count");
    }
    sym::cover("done");
    sym::stop();
}
#[derive(Clone, Copy, PartialEq)]
enum J {
    Inner,
    Left,
    Right,
    Full,
    Cross,
}
/// pairs of ids of the joined rows, None for a missing side
type P = (Option<i32>, Option<i32>);
fn pairs(rows: Result<Vec<Vec<Value>>, ()>) -> Option<Vec<P>> {
    let id = |v: &Value| if let Val::Integer(i) = v.get_val() { Some(*i) } else { None };
    rows.ok().map(|r| r.iter().map(|r| (id(&r[0]), id(&r[2]))).collect())
}
fn expected(j: J, l: &[Option<i32>], r: &[Option<i32>]) -> Vec<P> {
    let mut out = vec![];
    let mut seen = vec![false; r.len()];
    for (i, a) in l.iter().enumerate() {
        let mut any = false;
        for (k, b) in r.iter().enumerate() {
            if j == J::Cross || a.is_some() && a == b {
                out.push((Some(i as i32), Some(k as i32)));
                any = true;
                seen[k] = true;
            }
        }
        if !any && (j == J::Left || j == J::Full) {
            out.push((Some(i as i32), None));
        }
    }
    if j == J::Right || j == J::Full {
        out.extend((0..r.len()).filter(|k| !seen[*k]).map(|k| (None, Some(k as i32))));
    }
    out.sort();
    out
}
fn side(n: usize) -> (Vec<Vec<Value>>, Vec<Option<i32>>) {
    let k: Vec<Option<i32>> = (0..n).map(|_| (!sym::flip("null")).then(|| sym::i32("key"))).collect();
    (k.iter().enumerate().map(|(i, a)| vec![Value::new(i as i32), opt(a.is_none(), a.unwrap_or(0))]).collect(), k)
}
fn on_keys() -> E {
    let (l, r) = (col(0, 1, I), col(1, 3, I));
    Arc::new(Expression::Comparison(ComparisonExpression::new(l.clone(), r.clone(), ComparisonType::Equal, vec![l, r])))
}
fn operator(j: J) -> JoinOperator {
    let c = JoinConstraint::None;
    match j {
        J::Inner => JoinOperator::Inner(c),
        J::Left => JoinOperator::LeftOuter(c),
        J::Right => JoinOperator::RightOuter(c),
        J::Full => JoinOperator::FullOuter(c),
        J::Cross => JoinOperator::CrossJoin(c),
    }
}
fn nested(js: &[J], max: u64) {
    let (_d, cx) = context();
    let s = table(&[I, I]);
    let j = js[sym::choose(js.len() as u64, "join")];
    let (l, lk) = side(sym::choose(max + 1, "left"));
    let (r, rk) = side(sym::choose(max + 1, "right"));
    let fl = (!l.is_empty() && sym::flip("left fails")).then(|| l.len() - 1);
    let fr = (fl.is_none() && !r.is_empty() && !l.is_empty() && sym::flip("right fails")).then(|| r.len() - 1);
    // the rows of outer joins are told apart by their ids: duplicates of the keys remain
    let p = LogicalPlan::new(
        LogicalPlanType::NestedLoopJoin { left_schema: s.clone(), right_schema: s.clone(), predicate: on_keys(), join_type: operator(j) },
        vec![values(&s, &l, fl), values(&s, &r, fr)],
    );
    let got = pairs(execute(&cx, p, sym::flip("init")));
    if fl.is_some() || fr.is_some() {
        chk!(got.is_none(), "an error of a side is an error of the join");
    } else {
        let mut got = got.unwrap_or_else(|| { sym::fail("no error"); vec![] });
        got.sort();
        chk!(got == expected(j, &lk, &rk), "the pairs that match, and the rows without a match where the join keeps them");
    }
    sym::cover("done");
    sym::stop();
}
/// rows of the right side that are equal in all columns: each is a row
fn nested_duplicates() {
    let (_d, cx) = context();
    let s = table(&[I, I]);
    let j = [J::Right, J::Full][sym::choose(2, "join")];
    let (l, lk) = side(sym::choose(3, "left"));
    let (v, w) = (sym::i32("v"), sym::i32("w"));
    let r = vec![vec![Value::new(5), Value::new(v)], vec![Value::new(5), Value::new(v)], vec![Value::new(5), Value::new(w)]];
    let p = LogicalPlan::new(
        LogicalPlanType::NestedLoopJoin { left_schema: s.clone(), right_schema: s.clone(), predicate: on_keys(), join_type: operator(j) },
        vec![values(&s, &l, None), values(&s, &r, None)],
    );
    let got = execute(&cx, p, true).map(|r| r.len());
    let want = expected(j, &lk, &[Some(v), Some(v), Some(w)]).len();
    chk!(got == Ok(want), "equal rows of the right side are rows of their own");
    sym::cover("done");
    sym::stop();
}
fn hash_join(max: u64, two_keys: bool) {
    let (_d, cx) = context();
    let (l, lk) = side(sym::choose(max + 1, "left"));
    let (r, rk) = side(sym::choose(max + 1, "right"));
    let s = table(&[I, I]);
    let keys = |side| if two_keys { vec![col(side, 0, I), col(side, 1, I)] } else { vec![col(side, 1, I)] };
    let plan = HashJoinNode::new(s.clone(), s.clone(), on_keys(), JoinOperator::Inner(JoinConstraint::None), keys(0), keys(1), vec![]);
    let fl = sym::flip("left fails");
    let fr = !fl && sym::flip("right fails");
    let mut x = HashJoinExecutor::new(cx.clone(), Arc::new(plan), src(&cx, &s, &l, fl), src(&cx, &s, &r, fr));
    let got = pairs(run(&mut x, sym::flip("init")));
    if fl || fr {
        chk!(got.is_none(), "an error of a side is an error of the join");
    } else {
        let mut got = got.unwrap_or_else(|| { sym::fail("no error"); vec![] });
        got.sort();
        let mut want = expected(J::Inner, &lk, &rk);
        want.retain(|p| !two_keys || p.0 == p.1);
        chk!(got == want, "the pairs whose keys match, each once");
    }
    sym::cover("done");
    sym::stop();
}
/// ROW_NUMBER over one or two different windows
fn window(max: u64) {
    use ferrite::sql::execution::plans::window_plan::{WindowFunction, WindowFunctionType, WindowNode};
    let (_d, cx) = context();
    let s = table(&[I, I, I]);
    let (r, k) = rows(max, true);
    let fail_at = (!r.is_empty() && sym::flip("fails")).then(|| r.len() - 1);
    let by_b = sym::flip("partition");
    let f = |part: bool, key: usize| WindowFunction::new(WindowFunctionType::RowNumber, col(0, 0, I), if part { vec![col(0, 2, I)] } else { vec![] }, vec![col(0, key, I)]);
    let two = sym::flip("two");
    let mut fs = vec![f(by_b, 1)];
    if two {
        fs.push(f(!by_b, 0));
    }
    let child = values(&s, &r, fail_at).to_physical_plan().unwrap();
    let out = Schema::new((0..3 + fs.len()).map(|i| Column::new(["id", "a", "b", "n", "m"][i], I)).collect());
    let p = PlanNode::Window(WindowNode::new(out, fs, vec![child]));
    let mut x = p.create_executor(cx.clone()).unwrap();
    let got = run(&mut *x, sym::flip("init"));
    if fail_at.is_some() {
        chk!(got.is_err(), "an error of the child is an error of the query");
    } else {
        let Ok(got) = got else { sym::fail("no error without a reason"); return };
        chk!(got.len() == r.len(), "every row is there once");
        let none = |part: bool| if part { vec![None, Some(0), Some(1)] } else { vec![Some(9)] };
        let order = |part: bool, asc: &dyn Fn(&K) -> Option<i32>| {
            // the number of each row
            let mut n = vec![0; k.len()];
            for g in none(part) {
                let m: Vec<usize> = (0..k.len()).filter(|i| !part || k[*i].1 == g).collect();
                for i in &m {
                    n[*i] = 1 + m.iter().filter(|j| asc(&k[**j]) < asc(&k[*i]) || asc(&k[**j]) == asc(&k[*i]) && *j < i).count() as i32;
                }
            }
            n
        };
        let n1 = order(by_b, &|k| k.0);
        let n2 = order(!by_b, &|_| None);
        let mut seen = vec![false; r.len()];
        let mut before: Option<(Option<i32>, i32)> = None;
        for g in &got {
            let Val::Integer(id) = g[0].get_val() else { sym::fail("the id is an integer"); return };
            let i = *id as usize;
            chk!(!seen[i] && g[1] == r[i][1].clone() || r[i][1].is_null() && g[1].is_null(), "the rows are unchanged");
            seen[i] = true;
            chk!(g[3] == Value::new(n1[i]), "ROW_NUMBER counts the rows of the partition up to the row");
            if two {
                chk!(g[4] == Value::new(n2[i]), "each window function has its own window");
            }
            let now = (if by_b { k[i].1 } else { None }, n1[i]);
            chk!(before.is_none_or(|b| b < now), "the rows are in the order of the first window");
            before = Some(now);
        }
    }
    sym::cover("done");
    sym::stop();
}
crate::harness! {
    exec_sort3 => { sort(3, 1) }
    exec_sort3k => { sort(3, 2) }
    exec_sort4 => { sort(4, 2) }
    exec_sort_numbers => { sort_numbers() }
    exec_topn3 => { topn(3, 1, false) }
    exec_topn3k => { topn(3, 2, false) }
    exec_topgroup3 => { topn(3, 1, true) }
    exec_limit => { limit_offset(4) }
    exec_distinct3 => { distinct(3, false) }
    exec_distinct_text => { distinct(2, true) }
    exec_filter => { filter_project(3) }
    exec_project_error => { project_error() }
    exec_aggregate3 => { aggregate(3, true) }
    exec_aggregate_all => { aggregate(3, false) }
    exec_window2 => { window(2) }
    exec_window3 => { window(3) }
    exec_average => { average() }
    exec_nested_inner => { nested(&[J::Inner, J::Cross], 2) }
    exec_nested_outer => { nested(&[J::Left, J::Right, J::Full], 2) }
    exec_nested_duplicates => { nested_duplicates() }
    exec_hash_join => { hash_join(2, false) }
    exec_hash_join3 => { hash_join(3, false) }
    exec_hash_join_keys => { hash_join(2, true) }
}

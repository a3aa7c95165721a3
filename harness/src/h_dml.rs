//! INSERT, UPDATE, DELETE and scans through their executors, in transactions.
use crate::{chk, db, sym};
use ferrite::catalog::{Catalog, column::{Column, ForeignKeyConstraint}, schema::Schema};
use ferrite::concurrency::transaction::IsolationLevel;
use ferrite::concurrency::transaction_manager_factory::TransactionManagerFactory;
use ferrite::sql::execution::execution_context::ExecutionContext;
use ferrite::sql::execution::expressions::abstract_expression::Expression;
use ferrite::sql::execution::expressions::arithmetic_expression::{ArithmeticExpression, ArithmeticOp};
use ferrite::sql::execution::expressions::assignment_expression::AssignmentExpression;
use ferrite::sql::execution::expressions::column_value_expression::ColumnRefExpression;
use ferrite::sql::execution::expressions::comparison_expression::{ComparisonExpression, ComparisonType};
use ferrite::sql::execution::expressions::constant_value_expression::ConstantExpression;
use ferrite::sql::execution::plans::abstract_plan::PlanNode;
use ferrite::sql::execution::plans::delete_plan::DeleteNode;
use ferrite::sql::execution::plans::filter_plan::FilterNode;
use ferrite::sql::execution::plans::insert_plan::InsertNode;
use ferrite::sql::execution::plans::seq_scan_plan::SeqScanPlanNode;
use ferrite::sql::execution::plans::update_plan::UpdateNode;
use ferrite::sql::execution::plans::values_plan::ValuesNode;
use ferrite::sql::execution::transaction_context::TransactionContext;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::types::Type;
use ferrite::types_db::value::{Val, Value};
use parking_lot::RwLock;
use std::sync::Arc;
use IsolationLevel::*;

type E = Arc<Expression>;
const I: TypeId = TypeId::Integer;
const LEVELS: [IsolationLevel; 5] = [ReadUncommitted, ReadCommitted, RepeatableRead, Serializable, Snapshot];

pub struct S {
    pub db: db::Db,
    pub f: Arc<TransactionManagerFactory>,
    pub cat: Arc<RwLock<Catalog>>,
    pub schema: Schema,
    pub oid: u64,
    pub name: String,
}
pub type Cx = Arc<RwLock<ExecutionContext>>;
pub struct T {
    pub ctx: Arc<TransactionContext>,
    pub cx: Cx,
}
impl S {
    pub fn new(pool: usize, schema: Schema) -> S {
        sym::const_hash(true);
        let db = db::open(pool, db::cfg());
        let f = Arc::new(TransactionManagerFactory::new(db.bpm.clone()));
        let cat = Arc::new(RwLock::new(Catalog::new(db.bpm.clone(), f.get_transaction_manager())));
        let mut s = S { db, f, cat, schema: schema.clone(), oid: 0, name: String::new() };
        s.table("t", schema);
        s
    }
    /// creates a table and makes it the current one
    pub fn table(&mut self, name: &str, schema: Schema) {
        let info = self.cat.write().create_table(name.into(), schema.clone()).unwrap();
        self.oid = info.get_table_oidt();
        self.name = name.into();
        self.schema = schema;
    }
    pub fn begin(&self, level: IsolationLevel) -> T {
        let ctx = self.f.begin_transaction(level);
        let cx = Arc::new(RwLock::new(ExecutionContext::new(self.db.bpm.clone(), self.cat.clone(), ctx.clone())));
        T { ctx, cx }
    }
    pub fn commit(&self, t: T) -> bool {
        self.db.rt.block_on(self.f.commit_transaction(t.ctx))
    }
    pub fn abort(&self, t: T) {
        self.f.abort_transaction(t.ctx);
    }
    pub fn run(&self, t: &T, p: PlanNode, init: bool) -> Result<Vec<Vec<Value>>, ()> {
        let _g = self.db.rt.enter();
        let mut x = p.create_executor(t.cx.clone()).map_err(|_| ())?;
        if init {
            x.init();
        }
        let mut out = vec![];
        loop {
            match x.next() {
                Ok(Some((t, _))) => out.push(t.get_values().to_vec()),
                Ok(None) => return Ok(out),
                Err(_) => return Err(()),
            }
            chk!(out.len() < 40, "the executor ends");
        }
    }
    pub fn scan(&self) -> PlanNode {
        PlanNode::SeqScan(SeqScanPlanNode::new(self.schema.clone(), self.oid, self.name.clone()))
    }
    pub fn filtered(&self, cond: Option<E>) -> PlanNode {
        match cond {
            None => self.scan(),
            Some(c) => PlanNode::Filter(FilterNode::new_where(self.schema.clone(), self.oid, self.name.clone(), c, vec![self.scan()])),
        }
    }
    pub fn insert(&self, rows: Vec<Vec<Value>>, child: bool) -> PlanNode {
        let (v, c) = if child {
            let r = rows.iter().map(|r| r.iter().enumerate().map(|(i, v)| con(v.clone(), self.schema.get_column(i).unwrap().get_type())).collect()).collect();
            (vec![], vec![PlanNode::Values(ValuesNode::new(self.schema.clone(), r, vec![]))])
        } else {
            (rows, vec![])
        };
        PlanNode::Insert(InsertNode::new(self.schema.clone(), self.oid, self.name.clone(), v, c))
    }
    pub fn update(&self, sets: Vec<E>, cond: Option<E>) -> PlanNode {
        PlanNode::Update(UpdateNode::new(self.schema.clone(), self.name.clone(), self.oid, sets, vec![self.filtered(cond)]))
    }
    pub fn delete(&self, cond: Option<E>) -> PlanNode {
        PlanNode::Delete(DeleteNode::new(self.schema.clone(), self.name.clone(), self.oid, vec![self.filtered(cond)]))
    }
}
pub fn con(v: Value, t: TypeId) -> E {
    let v = if v.is_null() { Value::new_with_type(Val::Null, t) } else { v };
    Arc::new(Expression::Constant(ConstantExpression::new(v, Column::new("k", t), vec![])))
}
pub fn col(i: usize, t: TypeId) -> E {
    Arc::new(Expression::ColumnRef(ColumnRefExpression::new(0, i, Column::new("x", t), vec![])))
}
pub fn less(i: usize, v: i32) -> E {
    let (l, r) = (col(i, I), con(Value::new(v), I));
    Arc::new(Expression::Comparison(ComparisonExpression::new(l.clone(), r.clone(), ComparisonType::LessThan, vec![l, r])))
}
pub fn add(i: usize, v: i32) -> E {
    Arc::new(Expression::Arithmetic(ArithmeticExpression::new(ArithmeticOp::Add, vec![col(i, I), con(Value::new(v), I)])))
}
pub fn set(i: usize, t: TypeId, e: E) -> E {
    Arc::new(Expression::Assignment(AssignmentExpression::new(i, Column::new("x", t), e)))
}
pub fn opt(v: Option<i32>) -> Value {
    v.map_or_else(|| Value::new_with_type(Val::Null, I), Value::new)
}
fn three() -> Schema {
    Schema::new(vec![Column::new("id", I), Column::new("a", I), Column::new("b", I)])
}
/// (id, a, b)
type R = (i32, Option<i32>, i32);
fn values(r: &[R]) -> Vec<Vec<Value>> {
    r.iter().map(|r| vec![Value::new(r.0), opt(r.1), Value::new(r.2)]).collect()
}
/// NULL or a small number (it is the conditions that make the cases)
fn key() -> Option<i32> {
    (!sym::flip("null")).then(|| small("key"))
}
pub fn small(n: &str) -> i32 {
    let v = sym::i8(n);
    sym::assume((-30..30).contains(&v));
    v as i32
}
fn same(got: Result<Vec<Vec<Value>>, ()>, want: &[R], label: &str) {
    let Ok(got) = got else { sym::fail(label); return };
    let w = values(want);
    let ok = got.len() == w.len() && (0..w.len()).all(|i| got[i].len() == 3 && (0..3).all(|j| got[i][j].is_null() && w[i][j].is_null() || got[i][j] == w[i][j]));
    sym::check(ok, label);
}
/// statements in a transaction against lists of rows
fn dml(rows: u64, stmts: u64, ops: u64) {
    let s = S::new(8, three());
    let t = s.begin(ReadCommitted);
    let n = sym::choose(rows + 1, "rows") as i32;
    let base: Vec<R> = (0..n).map(|i| (i, key(), 10 + i)).collect();
    if n > 0 {
        let child = sym::flip("child");
        chk!(s.run(&t, s.insert(values(&base), child), child).is_ok(), "rows can be inserted");
    }
    if sym::flip("own") {
        chk!(s.commit(t), "a transaction can commit");
    } else {
        // the statements run in the transaction that made the rows
        return statements(s, t, vec![], base, stmts, ops);
    }
    let t = s.begin(LEVELS[sym::choose(5, "level")]);
    statements(s, t, base.clone(), base, stmts, ops)
}
fn statements(s: S, t: T, base: Vec<R>, mut m: Vec<R>, stmts: u64, ops: u64) {
    let mut ok = true;
    for k in 0..stmts {
        let init = k == 0;
        let bound = sym::flip("where").then(|| sym::i32("bound"));
        let hit = |r: &R| bound.is_none_or(|b| r.1.is_some_and(|a| a < b));
        let cond = bound.map(|b| less(1, b));
        match sym::choose(ops, "op") {
            0 => {
                let hits = m.iter().filter(|r| hit(r)).count();
                let got = s.run(&t, s.delete(cond), init);
                chk!(got.is_ok_and(|g| if hits == 0 { g.is_empty() } else { g == vec![vec![Value::new(hits as i32)]] }), "DELETE tells how many rows it deleted");
                m.retain(|r| !hit(r));
            }
            1 => {
                let c = if sym::flip("max") { i32::MAX } else { small("c") };
                let hits = m.iter().filter(|r| hit(r)).count();
                // NULL and overflow cannot be computed
                let bad = m.iter().any(|r| hit(r) && r.1.is_none_or(|a| a.checked_add(c).is_none()));
                let got = s.run(&t, s.update(vec![set(1, I, add(1, c))], cond), init);
                if bad {
                    chk!(got.is_err(), "a row that cannot be computed is an error");
                    ok = false;
                    break;
                }
                chk!(got.is_ok_and(|g| if hits == 0 { g.is_empty() } else { g == vec![vec![Value::new(hits as i32)]] }), "UPDATE tells how many rows it changed");
                for r in m.iter_mut().filter(|r| hit(r)) {
                    r.1 = r.1.map(|a| a.wrapping_add(c));
                }
            }
            2 => {
                // both assignments see the row before
                let got = s.run(&t, s.update(vec![set(1, I, col(2, I)), set(2, I, col(0, I))], cond), init);
                chk!(got.is_ok(), "rows can be changed");
                for r in m.iter_mut().filter(|r| hit(r)) {
                    *r = (r.0, Some(r.2), r.0);
                }
            }
            3 => {
                // INSERT ... SELECT from the same table
                let p = PlanNode::Insert(InsertNode::new(s.schema.clone(), s.oid, s.name.clone(), vec![], vec![s.filtered(cond)]));
                chk!(s.run(&t, p, init).is_ok(), "rows can be inserted");
                let more: Vec<R> = m.iter().filter(|r| hit(r)).copied().collect();
                m.extend(more);
            }
            _ => {
                let r = vec![(7, key(), 1), (8, None, 2)];
                chk!(s.run(&t, s.insert(values(&r), bound.is_some()), init).is_ok(), "rows can be inserted");
                m.extend(r);
            }
        }
    }
    if ok {
        same(s.run(&t, s.scan(), true), &m, "a statement sees the effect of the ones before it");
    }
    if ok && sym::flip("commit") {
        chk!(s.commit(t), "a transaction can commit");
    } else {
        s.abort(t);
        m = base;
    }
    let t = s.begin(Snapshot);
    same(s.run(&t, s.scan(), true), &m, "the next transaction sees the committed rows");
    sym::cover("done");
    sym::stop();
}
/// a statement of a writer next to a reader of each level
fn isolation() {
    let s = S::new(8, three());
    let t = s.begin(ReadCommitted);
    let base: Vec<R> = vec![(0, Some(1), 10), (1, Some(2), 11)];
    chk!(s.run(&t, s.insert(values(&base), false), true).is_ok() && s.commit(t), "rows can be inserted");
    let level = LEVELS[sym::choose(5, "level")];
    let early = sym::flip("reader first").then(|| s.begin(level));
    let was_early = early.is_some();
    let w = s.begin(LEVELS[sym::choose(5, "writer")]);
    let bound = sym::i32("bound");
    let mut m = base.clone();
    let hit = |r: &R| r.1.unwrap() < bound;
    let hits = base.iter().filter(|r| hit(r)).count();
    let ok = match sym::choose(4, "op") {
        0 => {
            m.retain(|r| !hit(r));
            s.run(&w, s.delete(Some(less(1, bound))), true)
        }
        1 => {
            for r in m.iter_mut().filter(|r| hit(r)) {
                r.2 = 20;
            }
            s.run(&w, s.update(vec![set(2, I, con(Value::new(20), I))], Some(less(1, bound))), true)
        }
        2 => {
            // changed and then deleted
            m.retain(|r| !hit(r));
            let a = s.run(&w, s.update(vec![set(2, I, con(Value::new(20), I))], Some(less(1, bound))), true);
            chk!(a.is_ok(), "a writer alone can write");
            s.run(&w, s.delete(Some(less(1, bound))), true)
        }
        _ => {
            m.push((5, None, 3));
            s.run(&w, s.insert(vec![vec![Value::new(5), opt(None), Value::new(3)]], hits == 1), true)
        }
    };
    chk!(ok.is_ok(), "a writer alone can write");
    let r = early.unwrap_or_else(|| s.begin(level));
    let see = |m: &[R], label: &str| same(s.run(&r, s.scan(), true), m, label);
    see(if level == ReadUncommitted { &m } else { &base }, "a scan sees the changes of another transaction only at READ UNCOMMITTED");
    let fate = sym::choose(3, "fate");
    let now: &[R] = match fate {
        0 => {
            chk!(s.commit(w), "a transaction can commit");
            &m
        }
        1 => {
            s.abort(w);
            &base
        }
        _ => &base,
    };
    if fate < 2 {
        let frozen = !matches!(level, ReadUncommitted | ReadCommitted);
        see(if frozen { &base } else { now }, "after the end of the writer a scan sees its changes or, in a snapshot, does not");
    }
    let _ = was_early;
    // the reader changes a row the writer may have changed
    let got = s.run(&r, s.update(vec![set(2, I, con(Value::new(30), I))], Some(less(1, 2))), true);
    let touched = m != base && m.len() < 3 && bound > 1;
    if fate == 2 && touched {
        let gone = level == ReadUncommitted && m.iter().all(|r| r.0 != 0);
        chk!(gone || got.is_err(), "a row another transaction is changing is not overwritten");
    }
    if fate == 1 || !touched {
        chk!(got == Ok(vec![vec![Value::new(1)]]), "a row nobody changes can be changed");
    }
    sym::cover("done");
    sym::stop();
}
/// rows over several pages that grow and shrink
fn wide(rows: u64, stmts: u64) {
    let v = TypeId::VarChar;
    let s = S::new(8, Schema::new(vec![Column::new("id", I), Column::new_varlen("v", v, 4000)]));
    let size = [3, 1950, 2600, 1200, 2950, 4100];
    let text = |n: usize, c: char| Value::new(c.to_string().repeat(n));
    let t = s.begin(ReadCommitted);
    let n = 1 + sym::choose(rows, "rows");
    let mut m: Vec<(i32, usize, char)> = vec![];
    for i in 0..n {
        let l = size[sym::choose(3, "size")];
        chk!(s.run(&t, s.insert(vec![vec![Value::new(i as i32), text(l, 'a')]], i == 1), true).is_ok(), "rows can be inserted");
        m.push((i as i32, l, 'a'));
    }
    chk!(s.commit(t), "a transaction can commit");
    let base = m.clone();
    let t = s.begin(ReadCommitted);
    let see = |t: &T, m: &[(i32, usize, char)], label: &str| {
        let got = s.run(t, s.scan(), true).unwrap_or_default();
        let mut ok = got.len() == m.len();
        for (g, (i, l, c)) in got.iter().zip(m) {
            ok &= g[0] == Value::new(*i) && matches!(g[1].get_val(), Val::VarLen(x) if x.len() == *l && x.bytes().all(|b| b == *c as u8));
        }
        sym::check(ok, label);
    };
    let mut ok = true;
    for _ in 0..stmts {
        let bound = sym::i32("bound");
        let cond = Some(less(0, bound));
        let hit = |r: &(i32, usize, char)| r.0 < bound;
        let l = size[1 + sym::choose(5, "to")];
        let r = match sym::choose(3, "op") {
            0 => {
                let r = s.run(&t, s.update(vec![set(1, v, con(text(l, 'b'), v))], cond), true);
                for r in m.iter_mut().filter(|r| hit(r)) {
                    *r = (r.0, l, 'b');
                }
                r
            }
            1 => {
                m.retain(|r| !hit(r));
                s.run(&t, s.delete(cond), true)
            }
            _ => {
                m.push((9, l, 'c'));
                let r = s.run(&t, s.insert(vec![vec![Value::new(9), text(l, 'c')]], bound > 0), true);
                chk!(r.is_ok() || l > 2950, "a row that fits a page can be inserted");
                r
            }
        };
        ok = r.is_ok();
        if !ok {
            break;
        }
    }
    if ok {
        see(&t, &m, "the rows are as the statements made them");
    }
    if ok && sym::flip("commit") {
        chk!(s.commit(t), "a transaction can commit");
    } else {
        s.abort(t);
        m = base;
    }
    see(&s.begin(Snapshot), &m, "the next transaction sees the committed rows");
    sym::cover("done");
    sym::stop();
}
/// rows of a table that refers to another
fn references(rows: u64) {
    let parent = || Schema::new(vec![Column::new("pid", I), Column::new("key", I)]);
    let mut s = S::new(8, parent());
    let t = s.begin(ReadCommitted);
    // parents: kept, deleted again, of a transaction that is still open or was rolled back
    let mut keys = vec![];
    for i in 0..sym::choose(rows + 1, "parents") {
        let k = small("parent");
        chk!(s.run(&t, s.insert(vec![vec![Value::new(i as i32), Value::new(k)]], true), true).is_ok(), "rows can be inserted");
        keys.push(Some(k));
    }
    chk!(s.commit(t), "a transaction can commit");
    if !keys.is_empty() && sym::flip("delete one") {
        let t = s.begin(ReadCommitted);
        chk!(s.run(&t, s.delete(Some(less(0, 1))), true).is_ok(), "rows can be deleted");
        if sym::flip("keep it") {
            s.abort(t);
        } else {
            chk!(s.commit(t), "a transaction can commit");
            keys[0] = None;
        }
    }
    let fk = ForeignKeyConstraint { referenced_table: "t".into(), referenced_column: "key".into(), on_delete: None, on_update: None };
    s.table("c", Schema::new(vec![Column::new("id", I), Column::builder("ref", I).with_foreign_key(fk).build()]));
    let t = s.begin(LEVELS[sym::choose(5, "level")]);
    let n = 1 + sym::choose(2, "n");
    let refs: Vec<Option<i32>> = (0..n).map(|_| key()).collect();
    let bad = refs.iter().any(|r| r.is_some() && !keys.contains(r));
    let got = s.run(&t, s.insert(refs.iter().map(|r| vec![Value::new(1), opt(*r)]).collect(), sym::flip("child")), true);
    chk!(got.is_err() == bad, "a row that refers to a row that is not there is refused, and no other");
    if bad {
        s.abort(t);
    } else {
        chk!(s.commit(t), "a transaction can commit");
    }
    let got = s.run(&s.begin(Snapshot), s.scan(), true);
    chk!(got.is_ok_and(|g| g.len() == if bad { 0 } else { n }), "the rows of the statement are there, or none");
    sym::cover("done");
    sym::stop();
}
crate::harness! {
    dml_rows1 => { dml(1, 1, 5) }
    dml_rows2 => { dml(2, 1, 5) }
    dml_hist2 => { dml(1, 2, 5) }
    dml_rows3 => { dml(2, 2, 5) }
    dml_references2 => { references(2) }
    dml_isolation => { isolation() }
    dml_wide => { wide(2, 1) }
    dml_wide3 => { wide(3, 1) }
    dml_wide_hist => { wide(2, 2) }
}

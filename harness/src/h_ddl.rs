//! CREATE TABLE, CREATE INDEX, CREATE DATABASE, USE and START TRANSACTION.
use crate::h_dml::{opt, set, small, con, S, T};
use crate::{chk, sym};
use ferrite::catalog::{column::{Column, ForeignKeyConstraint}, schema::Schema};
use ferrite::concurrency::transaction::IsolationLevel::*;
use ferrite::sql::execution::plans::abstract_plan::PlanNode;
use ferrite::sql::execution::plans::index_scan_plan::IndexScanNode;
use ferrite::sql::planner::logical_plan::{LogicalPlan, LogicalToPhysical};
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::Value;

const I: TypeId = TypeId::Integer;
const NAMES: [&str; 2] = ["u", "v"];

fn plain(n: usize) -> Schema {
    let c = ["id", "a", "b"];
    Schema::new(c[..n].iter().map(|n| Column::new(n, I)).collect())
}
fn referring(table: &str, column: &str) -> Schema {
    let mut c = Column::new("r", I);
    c.set_foreign_key(Some(ForeignKeyConstraint { referenced_table: table.into(), referenced_column: column.into(), on_delete: None, on_update: None }));
    Schema::new(vec![Column::new("id", I), c])
}
fn execute(s: &S, t: &T, p: Box<LogicalPlan>) -> Result<Vec<Vec<Value>>, ()> {
    s.run(t, p.to_physical_plan().map_err(|_| ())?, sym::flip("init"))
}
#[derive(Clone)]
struct Table {
    db: usize,
    name: &'static str,
    oid: u64,
    schema: Schema,
    row: Vec<i32>,
}
impl Table {
    fn values(&self) -> Vec<Value> {
        self.row.iter().map(|v| opt(Some(*v))).collect()
    }
    fn select(&self, s: &mut S) {
        s.name = self.name.into();
        s.oid = self.oid;
        s.schema = self.schema.clone();
    }
}
/// the tables of the current database are those of the list
fn listed(s: &S, tables: &[Table], db: usize) {
    let cat = s.cat.read();
    for n in NAMES {
        let want = tables.iter().find(|t| t.db == db && t.name == n);
        let got = cat.get_table(n);
        chk!(got.is_some() == want.is_some(), "a table is there exactly if it was created in this database");
        let (Some(got), Some(want)) = (got, want) else { continue };
        chk!(got.get_table_oidt() == want.oid, "a table keeps its number");
        chk!(got.get_table_schema() == want.schema, "a table has the columns it was created with");
    }
}
fn holds(s: &mut S, tables: &[Table], db: usize, label: &str) {
    let t = s.begin(ReadCommitted);
    for x in tables.iter().filter(|t| t.db == db) {
        x.select(s);
        let Ok(got) = s.run(&t, s.scan(), false) else { sym::fail(label); return };
        sym::check(got.len() == 1 && got[0] == x.values(), label);
    }
    chk!(s.commit(t), "a transaction can commit");
}
fn created(s: &mut S, db: usize, name: &'static str, schema: Schema) -> Table {
    let oid = s.cat.read().get_table(name).unwrap().get_table_oidt();
    let row = vec![small("value"); schema.get_column_count() as usize];
    let x = Table { db, name, oid, schema, row };
    x.select(s);
    let t = s.begin(ReadCommitted);
    chk!(s.run(&t, s.insert(vec![x.values()], false), false).is_ok(), "a row can be inserted");
    chk!(s.commit(t), "a transaction can commit");
    x
}
fn tables(n: usize) {
    let mut s = S::new(12, plain(2));
    let mut all: Vec<Table> = vec![];
    for _ in 0..n {
        let k = sym::choose(2, "name") as usize;
        let (name, other) = (NAMES[k], NAMES[1 - k]);
        let (schema, ok) = match sym::choose(5, "columns") {
            0 => (plain(1), true),
            1 => (plain(3), true),
            2 => (referring("t", "id"), true),
            3 => (referring("t", "z"), false),
            _ => (referring(other, "id"), all.iter().any(|t| t.name == other)),
        };
        // a reference to no row is refused at the insert
        let refers = schema.get_columns().iter().any(|c| c.get_foreign_key().is_some());
        let (ine, exists) = (sym::flip("if not exists"), all.iter().any(|t| t.name == name));
        let t = s.begin(ReadCommitted);
        let r = execute(&s, &t, LogicalPlan::create_table(schema.clone(), name.into(), ine));
        chk!(s.commit(t), "a transaction can commit");
        let made = !exists && ok;
        sym::check(r.is_ok() == (made || exists && ine), "CREATE TABLE succeeds exactly if it can");
        sym::check(r.is_ok_and(|r| !r.is_empty()) == false, "CREATE TABLE returns no row");
        if made {
            if refers {
                let oid = s.cat.read().get_table(name).unwrap().get_table_oidt();
                all.push(Table { db: 0, name, oid, schema, row: vec![] });
            } else {
                let x = created(&mut s, 0, name, schema);
                all.push(x);
            }
        }
        listed(&s, &all, 0);
        for (i, x) in all.iter().enumerate() {
            chk!(x.oid != 0 && all[..i].iter().all(|y| y.oid != x.oid), "tables have numbers of their own");
        }
    }
    all.retain(|t| !t.row.is_empty());
    holds(&mut s, &all, 0, "creating a table changes no other");
    sym::cover("done");
    sym::stop()
}
fn databases(n: usize, both: bool) {
    let mut s = S::new(12, plain(2));
    let mut all: Vec<Table> = vec![];
    let (mut db, mut made) = (0, false);
    let t = s.begin(ReadCommitted);
    chk!(execute(&s, &t, LogicalPlan::create_table(plain(2), NAMES[0].into(), false)).is_ok(), "a table can be created");
    chk!(s.commit(t), "a transaction can commit");
    let x = created(&mut s, 0, NAMES[0], plain(2));
    all.push(x);
    const D: [&str; 2] = ["default", "d"];
    if both {
        s.cat.write().create_database("d".into());
        s.cat.write().use_database("d");
        let t = s.begin(ReadCommitted);
        chk!(execute(&s, &t, LogicalPlan::create_table(plain(2), NAMES[0].into(), false)).is_ok(), "a table can be created");
        chk!(s.commit(t), "a transaction can commit");
        let x = created(&mut s, 1, NAMES[0], plain(2));
        all.push(x);
        (db, made) = (1, true);
    }
    for _ in 0..n {
        let t = s.begin(ReadCommitted);
        match sym::choose(4, "statement") {
            0 => {
                let ine = if sym::flip("if not exists") { "IF NOT EXISTS " } else { "" };
                let r = s.run(&t, PlanNode::CommandResult(format!("CREATE DATABASE {ine}d")), false);
                chk!(r.is_ok_and(|r| r.len() == 1), "CREATE DATABASE says what happened");
                made = true;
            }
            1 => {
                let to = sym::choose(2, "to") as usize;
                let r = s.run(&t, PlanNode::CommandResult(format!("USE {}", D[to])), false);
                chk!(r.is_ok_and(|r| r.len() == 1), "USE says what happened");
                if to == 0 || made {
                    db = to;
                }
            }
            2 => {
                let name = NAMES[0];
                let exists = all.iter().any(|t| t.name == name && t.db == db);
                let r = execute(&s, &t, LogicalPlan::create_table(plain(2), name.into(), false));
                sym::check(r.is_ok() == !exists, "a database has its own names");
                if r.is_ok() {
                    let x = created(&mut s, db, name, plain(2));
                    all.push(x);
                }
            }
            _ => {
                // a transaction that ends either way
                let Some(x) = all.iter_mut().find(|t| t.db == db) else { sym::assume(false); unreachable!() };
                x.select(&mut s);
                let v = small("new");
                let u = s.begin(ReadCommitted);
                let r = s.run(&u, s.update(vec![set(1, I, con(Value::new(v), I))], None), false);
                chk!(r.is_ok(), "a row can be updated");
                if sym::flip("commit") {
                    chk!(s.commit(u), "a transaction can commit");
                    x.row[1] = v;
                } else {
                    s.abort(u);
                }
            }
        }
        chk!(s.commit(t), "a transaction can commit");
        chk!(s.cat.read().get_current_database_name().is_some_and(|n| n == D[db]), "USE changes to databases that exist");
        listed(&s, &all, db);
    }
    for d in 0..1 + made as usize {
        chk!(s.cat.write().use_database(D[d]), "a database that was created can be used");
        listed(&s, &all, d);
        holds(&mut s, &all, d, "the tables of a database change only by their own statements");
    }
    sym::cover("done");
    sym::stop()
}
fn indexes() {
    let mut s = S::new(12, plain(2));
    let n = sym::choose(3, "rows") as usize;
    let rows: Vec<[i32; 2]> = (0..n).map(|i| [i as i32, small("key")]).collect();
    let t = s.begin(ReadCommitted);
    let value = |r: &[i32; 2]| vec![opt(Some(r[0])), opt(Some(r[1]))];
    if n > 0 {
        chk!(s.run(&t, s.insert(rows.iter().map(value).collect(), false), false).is_ok(), "rows can be inserted");
    }
    chk!(s.commit(t), "a transaction can commit");
    s.table("w", plain(3));
    // statements: indexes of one of two names on one of the tables or none
    let mut made: Vec<(&str, &str, usize)> = vec![];
    for _ in 0..2 {
        let name = ["i", "j"][sym::choose(2, "index") as usize];
        let (table, cols) = [("t", 2), ("w", 3), ("missing", 2)][sym::choose(3, "table") as usize];
        let column = sym::choose(2, "column") as usize;
        let t = s.begin(ReadCommitted);
        let r = execute(&s, &t, LogicalPlan::create_index(plain(cols).clone(), table.into(), name.into(), vec![column], sym::flip("if not exists")));
        chk!(r.is_ok(), "CREATE INDEX ends");
        chk!(s.commit(t), "a transaction can commit");
        if table != "missing" && made.iter().all(|m| m.0 != name) {
            made.push((name, table, column));
        }
    }
    for table in ["t", "w", "missing"] {
        let cat = s.cat.read();
        let mut got: Vec<(String, usize, u64)> = cat.get_table_indexes(table).iter().map(|i| (i.get_index_name().to_string(), i.get_key_attrs()[0], i.get_index_oid())).collect();
        got.sort();
        let mut want: Vec<_> = made.iter().filter(|m| m.1 == table).map(|m| (m.0.to_string(), m.2)).collect();
        want.sort();
        sym::check(got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| (&g.0, g.1) == (&w.0, w.1)), "a table has exactly the indexes created on it");
        sym::check(got.windows(2).all(|g| g[0].2 != g[1].2), "indexes have numbers of their own");
        let ids: Vec<u64> = if table == "t" { got.iter().map(|g| g.2).collect() } else { vec![] };
        drop(cat);
        for oid in ids {
            let name = "i".to_string();
            let p = PlanNode::IndexScan(IndexScanNode::new(plain(2), "t".into(), s.cat.read().get_table("t").unwrap().get_table_oidt(), name, oid, vec![]));
            let t = s.begin(ReadCommitted);
            let Ok(mut got) = s.run(&t, p, false) else { sym::fail("an index can be scanned"); return };
            got.sort_by_key(|r| r[0] == Value::new(1));
            sym::check(got.len() == n && (0..n).all(|i| got[i] == value(&rows[i])), "an index finds the rows that were there before");
            chk!(s.commit(t), "a transaction can commit");
        }
    }
    sym::cover("done");
    sym::stop()
}
fn start() {
    let s = S::new(8, plain(2));
    let t = s.begin([ReadUncommitted, ReadCommitted, RepeatableRead, Serializable, Snapshot][sym::choose(5, "before") as usize]);
    let (v, w) = (small("first"), small("second"));
    let row = |id, v| vec![opt(Some(id)), opt(Some(v))];
    chk!(s.run(&t, s.insert(vec![row(1, v)], false), false).is_ok(), "rows can be inserted");
    let level = [None, Some(ReadUncommitted), Some(ReadCommitted), Some(RepeatableRead), Some(Serializable), Some(Snapshot)][sym::choose(6, "level") as usize];
    let p = LogicalPlan::start_transaction(level, sym::flip("read only"), None, vec![], None, false);
    chk!(execute(&s, &t, p).is_ok_and(|r| r.is_empty()), "START TRANSACTION succeeds");
    let new = t.cx.read().get_transaction_context();
    sym::check(new.get_transaction_id() != t.ctx.get_transaction_id(), "START TRANSACTION begins another transaction");
    sym::check(new.get_transaction().get_isolation_level() == level.unwrap_or_default(), "a transaction has the level that was asked for");
    // statements of the context are part of the new transaction
    chk!(s.run(&t, s.insert(vec![row(2, w)], false), false).is_ok(), "rows can be inserted");
    let (old, commit) = (T { ctx: t.ctx.clone(), cx: t.cx.clone() }, sym::flip("commit"));
    let chain = sym::flip("chain");
    if commit {
        chk!(execute(&s, &t, LogicalPlan::commit_transaction(chain, false, None)).is_ok_and(|r| r.is_empty()), "COMMIT succeeds");
    } else {
        chk!(execute(&s, &t, LogicalPlan::rollback_transaction(chain, None)).is_ok_and(|r| r.is_empty()), "ROLLBACK succeeds");
    }
    sym::check(t.cx.read().should_chain_after_transaction() == chain, "AND CHAIN is noted exactly if it was given");
    let now = T { ctx: new, cx: t.cx.clone() };
    if commit {
        chk!(s.commit(now), "a transaction can commit");
    } else {
        s.abort(now);
    }
    let first = sym::flip("first commits");
    if first {
        chk!(s.commit(old), "a transaction can commit");
    } else {
        s.abort(old);
    }
    let r = s.begin(ReadCommitted);
    let mut want = vec![];
    if first {
        want.push(row(1, v));
    }
    if commit {
        want.push(row(2, w));
    }
    sym::check(s.run(&r, s.scan(), false) == Ok(want), "a statement belongs to the transaction started before it");
    sym::cover("done");
    sym::stop()
}
crate::harness! {
    ddl_tables2 => { tables(2) }
    ddl_tables3 => { tables(3) }
    ddl_databases3 => { databases(3, false) }
    ddl_databases5 => { databases(5, false) }
    ddl_both3 => { databases(3, true) }
    ddl_both4 => { databases(4, true) }
    ddl_indexes => { indexes() }
    ddl_start => { start() }
}

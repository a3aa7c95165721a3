//! The value of an expression over one row, or over two joined rows that share its columns.
use crate::sym;
use ferrite::catalog::{column::Column, schema::Schema};
use ferrite::common::rid::RID;
use ferrite::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
use ferrite::sql::execution::expressions::column_value_expression::ColumnRefExpression;
use ferrite::storage::table::tuple::Tuple;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::Value;
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub type E = Arc<Expression>;
/// columns of the left row plus 1; 0 without a join
static CUT: AtomicUsize = AtomicUsize::new(0);

/// chooses where a row of `n` columns is cut
pub fn cut(n: usize) {
    CUT.store(sym::choose(n as u64 + 2, "columns on the left"), Relaxed);
}
/// the cut `k` of those
pub fn cut_at(n: usize, k: usize) {
    CUT.store(k % (n + 2), Relaxed);
}
pub fn col(i: usize, t: TypeId) -> E {
    let c = CUT.load(Relaxed);
    // an empty side has a column of its own
    let (side, at) = if c == 0 || i + 1 < c { (0, i) } else if c == 1 { (1, i + 1) } else { (1, i) };
    Arc::new(Expression::ColumnRef(ColumnRefExpression::new(side, at, Column::new("x", t), vec![])))
}
pub fn value(e: &Expression, v: &[Value], types: &[TypeId]) -> Result<Value, ()> {
    let row = |v: &[Value], types: &[TypeId]| {
        if v.is_empty() {
            let s = Schema::new(vec![Column::new("y", TypeId::Integer)]);
            return (Tuple::new(&[Value::new(7)], &s, RID::new(0, 0)), s);
        }
        let s = Schema::new(types.iter().map(|t| Column::new("x", *t)).collect());
        (Tuple::new(v, &s, RID::new(0, 0)), s)
    };
    match CUT.load(Relaxed) {
        0 => {
            let (t, s) = row(v, types);
            e.evaluate(&t, &s).map_err(|_| ())
        }
        c => {
            let ((lt, ls), (rt, rs)) = (row(&v[..c - 1], &types[..c - 1]), row(&v[c - 1..], &types[c - 1..]));
            e.evaluate_join(&lt, &ls, &rt, &rs).map_err(|_| ())
        }
    }
}

//! ANY and ALL, elements and ranges of arrays.
use crate::h_dml::opt;
use crate::row::{E, col, cut, value};
use crate::sym;
use ferrite::catalog::column::Column;
use ferrite::sql::execution::expressions::abstract_expression::Expression;
use ferrite::sql::execution::expressions::all_expression::AllExpression;
use ferrite::sql::execution::expressions::any_expression::AnyExpression;
use ferrite::sql::execution::expressions::subscript_expression::{Subscript, SubscriptExpression};
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::{Val, Value};
use sqlparser::ast::BinaryOperator::*;

const I: TypeId = TypeId::Integer;

const V: TypeId = TypeId::Vector;
fn any() -> Option<i32> {
    (!sym::flip("null")).then(|| sym::i32("value"))
}
fn quantified(n: u64, ops: u64) {
    let left = any();
    let right: Vec<Option<i32>> = (0..sym::choose(n + 1, "elements")).map(|_| any()).collect();
    let k = sym::choose(ops, "op") as usize;
    let op = [Lt, Eq, NotEq, GtEq, Gt, LtEq][k].clone();
    let holds = |a: Option<i32>, b: Option<i32>| {
        let (a, b) = (a?, b?);
        Some([a < b, a == b, a != b, a >= b, a > b, a <= b][k])
    };
    let v = Value::new_vector(right.iter().map(|v| opt(*v)));
    cut(2);
    let all = sym::flip("all");
    let e = if all {
        Expression::All(AllExpression::new(col(0, I), col(1, V), op))
    } else {
        Expression::Any(AnyExpression::new(col(0, I), col(1, V), op, sym::flip("some")))
    };
    let mut want = Some(all);
    for r in &right {
        let h = holds(left, *r);
        want = match (want, h) {
            (Some(w), _) if w != all => Some(w),
            (_, Some(h)) if h != all => Some(h),
            (_, None) | (None, _) => None,
            _ => Some(all),
        };
    }
    match value(&e, &[opt(left), v], &[I, V]) {
        Err(()) => sym::fail("a comparison with all or any value has a result"),
        Ok(got) => match want {
            None => sym::check(got.is_null(), "it is unknown exactly if a NULL decides"),
            Some(w) => sym::check(got.get_val() == &Val::Boolean(w), "it is the AND or OR of the single comparisons"),
        },
    }
    sym::cover("done");
}
fn index(ty: usize) -> (Value, i64) {
    match ty {
        0 => {
            let v = sym::i32("index");
            (Value::new(v), v as i64)
        }
        1 => {
            let v = sym::i64("index");
            (Value::new(v), v)
        }
        2 => {
            let v = sym::i16("index");
            (Value::new(v), v as i64)
        }
        _ => {
            let v = sym::i8("index");
            (Value::new(v), v as i64)
        }
    }
}
const TYPES: [TypeId; 4] = [I, TypeId::BigInt, TypeId::SmallInt, TypeId::TinyInt];
fn subscript() {
    let n = sym::choose(4, "elements") as i64;
    let v = Value::new_vector((0..n).map(|i| Value::new(10 + i as i32)));
    let ty = sym::choose(4, "type");
    let (i, k) = index(ty);
    cut(2);
    let e = Expression::Subscript(SubscriptExpression::new(col(0, V), Subscript::Single(col(1, TYPES[ty])), Column::new("x", I)));
    let want = if 0 <= k && k < n { Some(k) } else if -n <= k && k < 0 { Some(n + k) } else { None };
    let got = value(&e, &[v, i], &[V, TYPES[ty]]);
    match want {
        Some(w) => sym::check(got.is_ok_and(|g| g == Value::new(10 + w as i32)), "an index from either end names its element"),
        None => sym::check(got.is_err(), "an index outside is an error"),
    }
    sym::cover("done");
}
fn range() {
    let n = sym::choose(4, "elements") as i64;
    let v = Value::new_vector((0..n).map(|i| Value::new(10 + i as i32)));
    let ty = sym::choose(4, "type");
    cut(3);
    let bound = |at: usize, d: i64| -> (Option<E>, Value, i64) {
        if sym::flip("open") {
            return (None, Value::new(0), d);
        }
        let (i, k) = index(ty);
        let k = if k >= 0 { k } else if k >= -n { n + k } else { 0 };
        (Some(col(at, TYPES[ty])), i, k)
    };
    let (start, i, s) = bound(1, 0);
    let (end, j, t) = bound(2, n);
    let e = Expression::Subscript(SubscriptExpression::new(col(0, V), Subscript::Range { start, end }, Column::new("x", TypeId::Vector)));
    let Ok(got) = value(&e, &[v, i, j], &[V, TYPES[ty], TYPES[ty]]) else { sym::fail("a range is an array"); return };
    let Val::Vector(got) = got.get_val() else { sym::fail("a range is an array"); return };
    if s <= t && t <= n {
        sym::check(got.len() as i64 == t - s && got.iter().enumerate().all(|(i, g)| g == &Value::new(10 + s as i32 + i as i32)), "a range is the elements from its start to before its end");
    } else {
        sym::check(got.is_empty(), "a range that ends before it starts or outside is empty");
    }
    sym::cover("done");
}
crate::harness! {
    quant2 => { quantified(2, 6) }
    quant3 => { quantified(3, 6) }
    quant_subscript => { subscript() }
    quant_range => { range() }
}

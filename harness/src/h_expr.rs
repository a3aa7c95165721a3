//! Expressions: three-valued predicates, arithmetic, casts, CASE, text functions; on rows and on joined rows.
use crate::h_types::{as_i128, ascii, int, range};
use crate::{chk, sym};
use ferrite::catalog::{column::Column, schema::Schema};
use ferrite::common::exception::ExpressionError;
use ferrite::common::rid::RID;
use ferrite::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
use ferrite::sql::execution::expressions::arithmetic_expression::{ArithmeticExpression, ArithmeticOp};
use ferrite::sql::execution::expressions::between_expression::BetweenExpression;
use ferrite::sql::execution::expressions::binary_op_expression::BinaryOpExpression;
use ferrite::sql::execution::expressions::case_expression::CaseExpression;
use ferrite::sql::execution::expressions::cast_expression::CastExpression;
use ferrite::sql::execution::expressions::coalesce_expression::CoalesceExpression;
use ferrite::sql::execution::expressions::column_value_expression::ColumnRefExpression;
use ferrite::sql::execution::expressions::comparison_expression::{ComparisonExpression, ComparisonType};
use ferrite::sql::execution::expressions::constant_value_expression::ConstantExpression;
use ferrite::sql::execution::expressions::in_expression::InExpression;
use ferrite::sql::execution::expressions::is_check_expression::{IsCheckExpression, IsCheckType};
use ferrite::sql::execution::expressions::is_distinct_expression::IsDistinctExpression;
use ferrite::sql::execution::expressions::like_expression::LikeExpression;
use ferrite::sql::execution::expressions::logic_expression::{LogicExpression, LogicType};
use ferrite::sql::execution::expressions::unary_op_expression::UnaryOpExpression;
use ferrite::sql::execution::expressions::ceil_floor_expression::{CeilFloorExpression, CeilFloorOperation};
use ferrite::sql::execution::expressions::datetime_expression::DateTimeField;
use ferrite::sql::execution::expressions::overlay_expression::OverlayExpression;
use ferrite::sql::execution::expressions::position_expression::PositionExpression;
use ferrite::sql::execution::expressions::string_expression::{StringExpression, StringExpressionType};
use ferrite::sql::execution::expressions::substring_expression::SubstringExpression;
use ferrite::sql::execution::expressions::trim_expression::{TrimExpression, TrimType};
use ferrite::storage::table::tuple::Tuple;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::types::{CmpBool, Type};
use ferrite::types_db::value::{Val, Value};
use sqlparser::ast::{BinaryOperator, UnaryOperator};
use std::sync::Arc;

type E = Arc<Expression>;
type R = Result<Value, ExpressionError>;
fn boolean() -> Column {
    Column::new("b", TypeId::Boolean)
}
const COLS: [&str; 8] = ["a", "b", "c", "d", "e", "f", "g", "h"];
/// the rows an expression is evaluated on: whole, and cut in two
pub struct Row {
    vals: Vec<Value>,
    types: Vec<TypeId>,
    cut: usize,
}
impl Row {
    pub fn new(cells: Vec<(Value, TypeId)>, cut: usize) -> Row {
        Row { types: cells.iter().map(|c| c.1).collect(), vals: cells.into_iter().map(|c| c.0).collect(), cut }
    }
    fn part(&self, a: usize, b: usize) -> (Tuple, Schema) {
        let s = Schema::new((a..b).map(|i| Column::new(COLS[i], self.types[i])).collect());
        (Tuple::new(&self.vals[a..b], &s, RID::new(0, 0)), s)
    }
    pub fn col(&self, i: usize) -> E {
        Arc::new(Expression::ColumnRef(ColumnRefExpression::new((i >= self.cut) as usize, i, Column::new(COLS[i], self.types[i]), vec![])))
    }
    /// the value of e on the row; the same on the row as a join of its halves
    pub fn eval(&self, e: &Expression) -> R {
        let n = self.vals.len();
        let (t, s) = self.part(0, n);
        let (lt, ls) = self.part(0, self.cut);
        let (rt, rs) = self.part(self.cut, n);
        let (a, b) = (e.evaluate(&t, &s), e.evaluate_join(&lt, &ls, &rt, &rs));
        let same = match (&a, &b) {
            (Ok(x), Ok(y)) => eq(x, y) || matches!((x.get_val(), y.get_val()), (Val::Decimal(p), Val::Decimal(q)) if p.to_bits() == q.to_bits()) || matches!((x.get_val(), y.get_val()), (Val::Float(p), Val::Float(q)) if p.to_bits() == q.to_bits()),
            (Err(_), Err(_)) => true,
            _ => false,
        };
        chk!(same, "an expression has one value on a row, joined or not");
        a
    }
    fn truth(&self, e: &Expression) -> Option<bool> {
        match self.eval(e) {
            Ok(v) if v.is_null() => None,
            Ok(v) => match v.get_val() {
                Val::Boolean(b) => Some(*b),
                _ => {
                    sym::fail("a predicate is true, false or unknown");
                    None
                },
            },
            Err(_) => {
                sym::fail("a predicate is true, false or unknown");
                None
            },
        }
    }
}
fn not(a: Option<bool>) -> Option<bool> {
    a.map(|a| !a)
}
fn and(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    match (a, b) {
        (Some(false), _) | (_, Some(false)) => Some(false),
        (Some(true), Some(true)) => Some(true),
        _ => None,
    }
}
fn or(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    not(and(not(a), not(b)))
}
fn null(t: TypeId) -> (Value, TypeId) {
    (if sym::flip("typed") { Value::new_with_type(Val::Null, t) } else { Value::new(Val::Null) }, t)
}
/// true, false or null
fn tri(n: &str) -> ((Value, TypeId), Option<bool>) {
    if sym::flip("null") {
        (null(TypeId::Boolean), None)
    } else {
        let b = sym::bool(n);
        ((Value::new(b), TypeId::Boolean), Some(b))
    }
}
fn logic(t: LogicType, a: E, b: E) -> E {
    Arc::new(Expression::Logic(LogicExpression::new(a.clone(), b.clone(), t, vec![a, b])))
}
fn expr_logic() {
    let (a, x) = tri("a");
    let (b, y) = tri("b");
    let row = Row::new(vec![a, b], 1);
    let (p, q) = (row.col(0), row.col(1));
    let (e, want) = match sym::choose(12, "form") {
        0 => (logic(LogicType::And, p, q), and(x, y)),
        1 => (logic(LogicType::Or, p, q), or(x, y)),
        2 => (Arc::new(Expression::Logic(LogicExpression::new_not(logic(LogicType::And, p, q)))), not(and(x, y))),
        3 => (logic(LogicType::And, Arc::new(Expression::Logic(LogicExpression::new_not(p.clone()))), logic(LogicType::Or, q, p)), and(not(x), or(y, x))),
        4 => (Arc::new(Expression::UnaryOp(UnaryOpExpression::new(q, UnaryOperator::Not).unwrap())), not(y)),
        5 => (Arc::new(Expression::BinaryOp(BinaryOpExpression::new(p.clone(), q.clone(), BinaryOperator::And, vec![p, q]).unwrap())), and(x, y)),
        6 => (Arc::new(Expression::BinaryOp(BinaryOpExpression::new(q.clone(), p.clone(), BinaryOperator::Or, vec![q, p]).unwrap())), or(x, y)),
        7 => {
            let neg = sym::bool("negated");
            (Arc::new(Expression::IsCheck(IsCheckExpression::new(q, IsCheckType::True { negated: neg }, boolean()))), Some((y == Some(true)) != neg))
        },
        8 => {
            let neg = sym::bool("negated");
            (Arc::new(Expression::IsCheck(IsCheckExpression::new(q, IsCheckType::False { negated: neg }, boolean()))), Some((y == Some(false)) != neg))
        },
        9 => {
            let neg = sym::bool("negated");
            (Arc::new(Expression::IsCheck(IsCheckExpression::new(q, IsCheckType::Unknown { negated: neg }, boolean()))), Some(y.is_none() != neg))
        },
        10 => {
            let neg = sym::bool("negated");
            (Arc::new(Expression::IsCheck(IsCheckExpression::new(q, IsCheckType::Null { negated: neg }, boolean()))), Some(y.is_none() != neg))
        },
        _ => {
            let neg = sym::bool("negated");
            (Arc::new(Expression::IsDistinct(IsDistinctExpression::new(p, q, neg, boolean()))), Some((x != y) != neg))
        },
    };
    chk!(row.truth(&e) == want, "a predicate follows three-valued logic");
    sym::cover("done")
}
const NUM: [TypeId; 6] = [TypeId::TinyInt, TypeId::SmallInt, TypeId::Integer, TypeId::BigInt, TypeId::Decimal, TypeId::Float];
/// a number or null
fn num(kinds: usize, n: &str) -> (Value, TypeId) {
    let k = sym::choose(kinds as u64 + 1, "kind");
    if k == kinds {
        return null(TypeId::Integer);
    }
    num_of(k, n)
}
fn num_of(k: usize, n: &str) -> (Value, TypeId) {
    let v = match k {
        0..=3 => int(k, n).0,
        4 => Value::new(sym::f64(n)),
        _ => Value::new(sym::f32(n)),
    };
    (v, NUM[k])
}
fn tv(c: CmpBool) -> Option<bool> {
    match c {
        CmpBool::CmpTrue => Some(true),
        CmpBool::CmpFalse => Some(false),
        CmpBool::CmpNull => None,
    }
}
/// a comparison of two numbers; P31 has compared them exactly
fn cmp(op: usize, a: &Value, b: &Value) -> Option<bool> {
    if a.is_null() || b.is_null() {
        return None;
    }
    tv(match op {
        0 => a.compare_equals(b),
        1 => a.compare_not_equals(b),
        2 => a.compare_less_than(b),
        3 => a.compare_less_than_equals(b),
        4 => a.compare_greater_than(b),
        _ => a.compare_greater_than_equals(b),
    })
}
const OPS: [ComparisonType; 6] = [
    ComparisonType::Equal,
    ComparisonType::NotEqual,
    ComparisonType::LessThan,
    ComparisonType::LessThanOrEqual,
    ComparisonType::GreaterThan,
    ComparisonType::GreaterThanOrEqual,
];
const BIN: [BinaryOperator; 6] = [BinaryOperator::Eq, BinaryOperator::NotEq, BinaryOperator::Lt, BinaryOperator::LtEq, BinaryOperator::Gt, BinaryOperator::GtEq];
fn comparison(t: ComparisonType, a: E, b: E) -> E {
    Arc::new(Expression::Comparison(ComparisonExpression::new(a.clone(), b.clone(), t, vec![a, b])))
}
fn expr_cmp(kinds: usize) {
    let row = Row::new(vec![num(kinds, "a"), num(kinds, "b")], 1);
    let op = sym::choose(6, "op");
    let e = if sym::flip("binary") {
        let (a, b) = (row.col(0), row.col(1));
        Arc::new(Expression::BinaryOp(BinaryOpExpression::new(a.clone(), b.clone(), BIN[op].clone(), vec![a, b]).unwrap()))
    } else {
        comparison(OPS[op], row.col(0), row.col(1))
    };
    chk!(row.truth(&e) == cmp(op, &row.vals[0], &row.vals[1]), "a comparison in an expression compares the values");
    sym::cover("done")
}
fn expr_between(kinds: usize) {
    let row = Row::new(vec![num(kinds, "a"), num(kinds, "lo"), num(kinds, "hi")], 1);
    let neg = sym::flip("negated");
    let e = Expression::Between(BetweenExpression::new(row.col(0), row.col(1), row.col(2), neg, boolean()));
    let v = &row.vals;
    let want = and(cmp(5, &v[0], &v[1]), cmp(3, &v[0], &v[2]));
    chk!(row.truth(&e) == if neg { not(want) } else { want }, "x BETWEEN a AND b is x >= a AND x <= b");
    sym::cover("done")
}
fn expr_in(kinds: usize, max: usize) {
    let row = Row::new(vec![(Value::new(1), TypeId::Integer), num(kinds, "a")], 1);
    let list: Vec<Value> = (0..1 + sym::choose(max as u64, "items")).map(|_| num(kinds, "item").0).collect();
    let mut want = Some(false);
    for i in &list {
        want = or(want, cmp(0, &row.vals[1], i));
    }
    let neg = sym::flip("negated");
    let l = Arc::new(Expression::Constant(ConstantExpression::new_vector(list, vec![])));
    let e = Expression::In(InExpression::new_list(row.col(1), l, neg, boolean()));
    chk!(row.truth(&e) == if neg { not(want) } else { want }, "x IN a list is x = one of the list");
    sym::cover("done")
}
fn eq(a: &Value, b: &Value) -> bool {
    a.is_null() && b.is_null() || a.get_type_id() == b.get_type_id() && a.get_val() == b.get_val()
}
fn int_or_null(n: &str) -> (Value, TypeId) {
    if sym::flip("null") {
        null(TypeId::Integer)
    } else {
        (Value::new(sym::i32(n)), TypeId::Integer)
    }
}
fn expr_case() {
    let base = sym::flip("base");
    // one digit: the evaluation prints its row for the debug log
    let val = |n: &str| (Value::new(sym::below(8, n) as i32), TypeId::Integer);
    let cell = |n: &str, k: u64, null: TypeId| match sym::choose(k, "cell") {
        0 if base => val(n),
        0 => (Value::new(sym::bool(n)), TypeId::Boolean),
        _ => (Value::new_with_type(Val::Null, null), null),
    };
    let t = if base { TypeId::Integer } else { TypeId::Boolean };
    let (w1, w2, b) = (cell("w1", 2, t), cell("w2", 2, t), cell("base", if base { 2 } else { 1 }, t));
    let row = Row::new(vec![w1, w2, val("x"), (Value::new_with_type(Val::Null, TypeId::Integer), TypeId::Integer), val("z"), b], 2);
    let b = base.then(|| row.col(5));
    let other = sym::flip("else").then(|| row.col(4));
    let hit = |i: usize| if base { cmp(0, &row.vals[5], &row.vals[i]) == Some(true) } else { *row.vals[i].get_val() == Val::Boolean(true) };
    let want = match (hit(0), hit(1)) {
        (true, _) => row.vals[2].clone(),
        (_, true) => row.vals[3].clone(),
        _ if other.is_some() => row.vals[4].clone(),
        _ => Value::new(Val::Null),
    };
    let e = Expression::Case(CaseExpression::new(b, vec![row.col(0), row.col(1)], vec![row.col(2), row.col(3)], other).unwrap());
    let got = row.eval(&e);
    chk!(matches!(&got, Ok(g) if eq(g, &want)), "CASE takes the first branch whose condition is true");
    sym::cover("done")
}
fn expr_coalesce() {
    let row = Row::new(vec![int_or_null("a"), int_or_null("b"), int_or_null("c")], 2);
    let e = Expression::Coalesce(CoalesceExpression::new(vec![row.col(0), row.col(1), row.col(2)], Column::new("c", TypeId::Integer)));
    let want = row.vals.iter().find(|v| !v.is_null()).cloned().unwrap_or_else(|| Value::new(Val::Null));
    let got = row.eval(&e);
    chk!(matches!(&got, Ok(g) if eq(g, &want)), "COALESCE returns its first value that is not NULL");
    sym::cover("done")
}
const ARITH: [ArithmeticOp; 4] = [ArithmeticOp::Add, ArithmeticOp::Subtract, ArithmeticOp::Multiply, ArithmeticOp::Divide];
fn arith(op: usize, a: E, b: E) -> E {
    if sym::flip("binary") {
        let o = [BinaryOperator::Plus, BinaryOperator::Minus, BinaryOperator::Multiply, BinaryOperator::Divide][op].clone();
        Arc::new(Expression::BinaryOp(BinaryOpExpression::new(a.clone(), b.clone(), o, vec![a, b]).unwrap()))
    } else {
        Arc::new(Expression::Arithmetic(ArithmeticExpression::new(ARITH[op], vec![a, b])))
    }
}
/// one type
fn expr_arith_int(kinds: &[usize]) {
    let op = sym::choose(4, "op");
    let k = kinds[sym::choose(kinds.len() as u64, "kind")];
    let (a, x) = int(k, "a");
    // products and quotients of two unknowns only in the narrowest type: P32 decides them on the values
    let (b, y) = if op < 2 || k == 0 {
        int(k, "b")
    } else {
        let (lo, hi) = range(k);
        let y = [0, 1, -1, 2, -2, 3, 7, 64, lo, hi][sym::choose(10, "b")];
        let v = match k {
            1 => Value::new(y as i16),
            2 => Value::new(y as i32),
            _ => Value::new(y as i64),
        };
        if op == 3 && ![0, 1, -1, 2, -2, 64].contains(&y) {
            sym::assume(x < 4096 && x > -4096);
        }
        (v, y)
    };
    let row = Row::new(vec![(a, NUM[k]), (b, NUM[k])], 1);
    let e = arith(op, row.col(0), row.col(1));
    let (lo, hi) = range(k);
    match row.eval(&e) {
        Ok(v) => {
            let Some(g) = as_i128(&v) else { return sym::fail("the result of integer arithmetic is an integer") };
            let ok = match op {
                0 => g == x + y,
                1 => g == x - y,
                2 => g == x * y,
                _ => {
                    let r = x - g * y;
                    y != 0 && r.abs() < y.abs() && (r == 0 || (r < 0) == (x < 0))
                },
            };
            chk!(ok, "integer arithmetic in an expression is exact");
        },
        Err(_) => {
            let outside = match op {
                0 => x + y < lo || x + y > hi,
                1 => x - y < lo || x - y > hi,
                2 => x * y < lo || x * y > hi,
                _ => y == 0 || x == lo && y == -1,
            };
            chk!(outside, "integer arithmetic in an expression fails only outside its type");
        },
    }
    sym::cover("done")
}
/// operands of any numeric type or null: an evaluation on joined rows agrees, null gives null
fn expr_arith_mixed() {
    let op = sym::choose(2, "op");
    let (a, b) = (num(6, "a"), num(6, "b"));
    let row = Row::new(vec![a, b], 1);
    let e = Expression::Arithmetic(ArithmeticExpression::new(ARITH[op], vec![row.col(0), row.col(1)]));
    let got = row.eval(&e);
    let (a, b) = (&row.vals[0], &row.vals[1]);
    if a.is_null() || b.is_null() {
        chk!(!matches!(&got, Ok(v) if !v.is_null()), "arithmetic with NULL has no value");
    } else if let (Some(x), Some(y)) = (as_i128(a), as_i128(b)) {
        let z = if op == 0 { x + y } else { x - y };
        match &got {
            Ok(v) => chk!(as_i128(v) == Some(z), "integer arithmetic in an expression is exact"),
            Err(_) => {
                let k = row.types.iter().map(|t| NUM.iter().position(|n| n == t).unwrap()).max().unwrap();
                chk!(z < range(k).0 || z > range(k).1, "integer arithmetic in an expression fails only outside its type");
            },
        }
    } else {
        chk!(got.is_ok(), "arithmetic of numbers has a result");
    }
    sym::cover("done")
}
/// fractions: small decimals and integers in either order, all four operators
fn expr_arith_frac() {
    let op = sym::choose(4, "op");
    let d = sym::choose(2, "order");
    let (i, f) = (sym::choose(5, "i") as i32 * 3 - 6, [0.0, 0.5, -0.75, 2.0, -1.25][sym::choose(5, "f")]);
    let k = sym::choose(4, "kind");
    let iv = match k {
        0 => Value::new(i as i8),
        1 => Value::new(i as i16),
        2 => Value::new(i),
        _ => Value::new(i as i64),
    };
    let cells = [(iv, NUM[k]), (Value::new(f), TypeId::Decimal)];
    let mut cells = cells.to_vec();
    let (mut x, mut y) = (i as f64, f);
    if d == 1 {
        cells.reverse();
        (x, y) = (y, x);
    }
    let row = Row::new(cells, 1);
    let e = arith(op, row.col(0), row.col(1));
    let own = matches!(&*e, Expression::Arithmetic(_));
    match row.eval(&e) {
        Ok(v) => {
            let w = match op {
                0 => x + y,
                1 => x - y,
                2 => x * y,
                _ => x / y,
            };
            chk!(matches!(v.get_val(), Val::Decimal(g) if *g == w), "decimal arithmetic in an expression is exact");
        },
        // the binary operator does not mix all types
        Err(_) => chk!(op == 3 && y == 0.0 || !own, "decimal arithmetic fails only for a division by zero"),
    }
    sym::cover("done")
}
fn expr_neg() {
    let k = sym::choose(4, "kind");
    let (a, x) = int(k, "a");
    let row = Row::new(vec![(a, NUM[k]), (Value::new(1), TypeId::Integer)], 1);
    let e = Expression::UnaryOp(UnaryOpExpression::new(row.col(0), UnaryOperator::Minus).unwrap());
    match row.eval(&e) {
        Ok(v) => chk!(as_i128(&v) == Some(-x), "negation is exact"),
        Err(_) => chk!(x == range(k).0, "negation fails only outside its type"),
    }
    sym::cover("done")
}
fn expr_cast() {
    let (a, t) = num(5, "a");
    let row = Row::new(vec![(a, t), (Value::new(1), TypeId::Integer)], 1);
    let to = NUM[sym::choose(5, "to")];
    let e = Expression::Cast(CastExpression::new(row.col(0), to));
    let got = row.eval(&e);
    let a = &row.vals[0];
    match &got {
        Ok(v) if a.is_null() => chk!(v.is_null(), "a cast of NULL is NULL"),
        Ok(v) => {
            chk!(v.get_type_id() == to, "a cast has the type it casts to");
            match (as_i128(a), as_i128(v), a.get_val(), v.get_val()) {
                (Some(x), Some(y), ..) => chk!(x == y, "a cast keeps the value"),
                (None, Some(y), Val::Decimal(d), _) => chk!((y as f64 - *d).abs() < 1.0 || d.abs() >= 9007199254740992.0 && y as f64 == *d, "a cast to an integer loses only the fraction"),
                (Some(x), None, _, Val::Decimal(d)) => chk!(x as f64 == *d, "a cast keeps the value"),
                _ => chk!(v == a || matches!(a.get_val(), Val::Decimal(d) if d.is_nan()), "a cast to the same type changes nothing"),
            }
        },
        Err(_) => {},
    }
    sym::cover("done")
}
/// LIKE, by the definition
fn like(s: &[char], p: &[char], esc: Option<char>, eq: &dyn Fn(char, char) -> bool) -> bool {
    match p {
        [] => s.is_empty(),
        [e, c, rest @ ..] if Some(*e) == esc => !s.is_empty() && eq(s[0], *c) && like(&s[1..], rest, esc, eq),
        ['%', rest @ ..] => (0..=s.len()).any(|i| like(&s[i..], rest, esc, eq)),
        ['_', rest @ ..] => !s.is_empty() && like(&s[1..], rest, esc, eq),
        [c, rest @ ..] => !s.is_empty() && eq(s[0], *c) && like(&s[1..], rest, esc, eq),
    }
}
const CHARS: [char; 6] = ['a', 'B', 'é', '%', '_', '!'];
fn text(max: usize, n: &str) -> String {
    text_of(&CHARS, max, n)
}
fn text_of(chars: &[char], max: usize, n: &str) -> String {
    let len = sym::choose(max as u64 + 1, "len");
    (0..len).map(|_| chars[sym::choose(chars.len() as u64, n)]).collect()
}
fn expr_like(max: usize, pat: usize, null: bool) {
    let esc = sym::flip("escape").then_some('!');
    let cs = sym::flip("case");
    let neg = sym::flip("negated");
    let (s, p) = (text(max, "s"), text(pat, "p"));
    let (sc, pc): (Vec<char>, Vec<char>) = (s.chars().collect(), p.chars().collect());
    // a pattern that ends in the middle of an escape has no meaning
    if esc.is_some() {
        let mut i = 0;
        while i < pc.len() {
            if pc[i] == '!' {
                i += 1;
                sym::assume(i < pc.len());
            }
            i += 1;
        }
    }
    let eq = |a: char, b: char| if cs { a == b } else { a.eq_ignore_ascii_case(&b) };
    let mut want = Some(like(&sc, &pc, esc, &eq) != neg);
    let t = TypeId::VarChar;
    let mut cells = vec![(Value::new(s.as_str()), t), (Value::new(p.as_str()), t)];
    if null {
        cells[sym::choose(2, "which")] = self::null(t);
        want = None;
    }
    let row = Row::new(cells, 1);
    let e = Expression::Like(LikeExpression::new(row.col(0), row.col(1), esc, neg, cs, boolean()));
    chk!(row.truth(&e) == want, "LIKE matches by its definition");
    sym::cover("done")
}
/// the text of a value; none for NULL
fn str_of(v: &Value) -> Option<Vec<char>> {
    match v.get_val() {
        Val::VarLen(s) | Val::ConstLen(s) => Some(s.chars().collect()),
        _ => None,
    }
}
fn expr_text(kind: usize, max: usize) {
    let t = TypeId::VarChar;
    let (s, p) = (text_of(&['a', 'é'], max, "s"), text_of(if kind == 1 { &['x', 'ü'] } else { &['a', 'é'] }, if kind == 0 { 0 } else { 2 }, "p"));
    let (sc, pc): (Vec<char>, Vec<char>) = (s.chars().collect(), p.chars().collect());
    let (from, len) = if kind == 2 { (0, 0) } else { (sym::choose(8, "from") as i64 - 3, sym::choose(6, "len") as i64 - 1) };
    let mut wide = |x: i64| match kind {
        0 => Value::new(x + if sym::flip("wide") { 1 << 32 } else { 0 }),
        _ => Value::new(x as i32),
    };
    let (fv, lv) = (wide(from), wide(len));
    let ty = if kind == 0 { TypeId::BigInt } else { TypeId::Integer };
    let row = Row::new(vec![(Value::new(s.as_str()), t), (Value::new(p.as_str()), t), (fv.clone(), ty), (lv.clone(), ty)], 1 + sym::choose(2, "cut"));
    let (from, len) = (as_i128(&fv).unwrap() as i64, as_i128(&lv).unwrap() as i64);
    let with = sym::flip("for");
    let n = sc.len() as i64;
    let got;
    let want: Option<Vec<char>>;
    match kind {
        0 => {
            got = row.eval(&Expression::Substring(SubstringExpression::new(row.col(0), row.col(2), with.then(|| row.col(3)))));
            let start = if from > 0 { from - 1 } else if from < 0 { (n + from).max(0) } else { 0 };
            let end = if with { (start + len).clamp(start, n.max(start)) } else { n.max(start) };
            want = Some(sc.iter().enumerate().filter(|(i, _)| (*i as i64) >= start && (*i as i64) < end).map(|(_, c)| *c).collect());
        },
        1 => {
            got = row.eval(&Expression::Overlay(OverlayExpression::new(row.col(0), row.col(1), row.col(2), with.then(|| row.col(3)), Column::new("o", t))));
            let k = if with { len } else { pc.len() as i64 };
            want = if from < 1 || k < 0 {
                None
            } else {
                let a = (from - 1).min(n) as usize;
                let b = (from - 1 + k).clamp(a as i64, n.max(a as i64)) as usize;
                Some([&sc[..a], &pc[..], &sc[b..]].concat())
            };
        },
        _ => {
            let got = row.eval(&Expression::Position(PositionExpression::new(row.col(1), row.col(0))));
            let at = (0..=sc.len()).find(|i| sc[*i..].starts_with(&pc)).map_or(0, |i| i as i32 + 1);
            chk!(matches!(&got, Ok(v) if *v.get_val() == Val::Integer(at)), "POSITION is the number of the character where the text starts");
            return sym::cover("done");
        },
    }
    match (got, want) {
        (Ok(v), Some(w)) => chk!(str_of(&v) == Some(w), "SUBSTRING and OVERLAY count characters"),
        (Err(_), None) => {},
        _ => sym::fail("SUBSTRING and OVERLAY fail only for positions that have no meaning"),
    }
    sym::cover("done")
}
fn expr_trim(max: usize) {
    let t = TypeId::VarChar;
    let (s, p) = (text(max, "s"), text(2, "p"));
    let (sc, pc): (Vec<char>, Vec<char>) = (s.chars().collect(), p.chars().collect());
    let row = Row::new(vec![(Value::new(s.as_str()), t), (Value::new(p.as_str()), t)], 1);
    let k = sym::choose(5, "kind");
    if k > 2 {
        let e = Expression::String(StringExpression::new(row.col(0), if k == 3 { StringExpressionType::Lower } else { StringExpressionType::Upper }, vec![row.col(0)]));
        let want: Vec<char> = sc
            .iter()
            .map(|c| match c {
                'a' if k == 4 => 'A',
                'B' if k == 3 => 'b',
                'é' if k == 4 => 'É',
                c => *c,
            })
            .collect();
        let got = row.eval(&e);
        chk!(matches!(&got, Ok(v) if str_of(v) == Some(want)), "LOWER and UPPER change the case of each character");
        return sym::cover("done");
    }
    let e = Expression::Trim(TrimExpression::new([TrimType::Both, TrimType::Leading, TrimType::Trailing][k].clone(), vec![row.col(0), row.col(1)], Column::new("t", t)));
    let (mut a, mut b) = (0, sc.len());
    while k != 2 && a < b && pc.contains(&sc[a]) {
        a += 1;
    }
    while k != 1 && a < b && pc.contains(&sc[b - 1]) {
        b -= 1;
    }
    let got = row.eval(&e);
    chk!(matches!(&got, Ok(v) if str_of(v) == Some(sc[a..b].to_vec())), "TRIM removes exactly the given characters at the ends");
    sym::cover("done")
}
/// rounding times: a field's start that is not after (not before) the time, less than one field away
fn expr_round_time() {
    let up = sym::flip("up");
    let k = sym::choose(3, "field");
    let (field, unit) = [(DateTimeField::Minute, 60u64), (DateTimeField::Hour, 3600), (DateTimeField::Day, 86400)][k].clone();
    // from 1970 on and after 2038
    let base = [0u64, 40000 * 86400][sym::choose(2, "base")];
    let ts = base + sym::choose(48, "fields") as u64 * unit + [0, 1, unit / 2, unit - 1][sym::choose(4, "in")];
    let row = Row::new(vec![(Value::new_with_type(Val::Timestamp(ts), TypeId::Timestamp), TypeId::Timestamp), (Value::new(1), TypeId::Integer)], 1);
    let op = if up { CeilFloorOperation::Ceil } else { CeilFloorOperation::Floor };
    let e = Expression::CeilFloor(CeilFloorExpression::new(op, row.col(0), None, Some(field)).unwrap());
    // the time also on the right side of a join
    let Ok(v) = row.eval(&e) else { return sym::fail("a time can be rounded") };
    let Val::Timestamp(g) = *v.get_val() else { return sym::fail("a time can be rounded") };
    let whole = g % unit == 0;
    chk!(whole, "a rounded time is the start of a field");
    chk!(if up { g >= ts && g - ts < unit } else { g <= ts && ts - g < unit }, "rounding moves a time by less than one field");
    sym::cover("done")
}
fn expr_round_date() {
    // days in 1970 to 2120 around the changes of months
    let day = 59 * sym::choose(900, "day") as u64 / 2 * 2 + sym::choose(2, "odd") as u64;
    let ts = day * 86400 + [0u64, 1, 86399][sym::choose(3, "second")];
    let up = sym::flip("up");
    let year = sym::flip("year");
    let row = Row::new(vec![(Value::new(1), TypeId::Integer), (Value::new_with_type(Val::Timestamp(ts), TypeId::Timestamp), TypeId::Timestamp)], 1);
    let op = if up { CeilFloorOperation::Ceil } else { CeilFloorOperation::Floor };
    let e = Expression::CeilFloor(CeilFloorExpression::new(op, row.col(1), None, Some(if year { DateTimeField::Year } else { DateTimeField::Month })).unwrap());
    let got = row.eval(&e);
    // the first seconds of the months, by the civil calendar
    let leap = |y: u64| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let (mut first, mut y, mut m) = (0u64, 1970u64, 0usize);
    let (mut below, mut above) = (0, u64::MAX);
    loop {
        if !year || m == 0 {
            if first <= ts {
                below = first;
            }
            if first >= ts {
                above = first;
                break;
            }
        }
        let days = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m];
        first += days * 86400;
        m += 1;
        if m == 12 {
            m = 0;
            y += 1;
        }
    }
    chk!(matches!(&got, Ok(v) if *v.get_val() == Val::Timestamp(if up { above } else { below })), "rounding to months and years follows the calendar");
    sym::cover("done")
}
fn expr_round_num() {
    let k = sym::choose(5, "kind");
    let (a, t) = num_of(k, "a");
    let row = Row::new(vec![(Value::new(1), TypeId::Integer), (a, t)], 1);
    let up = sym::flip("up");
    let op = if up { CeilFloorOperation::Ceil } else { CeilFloorOperation::Floor };
    let e = Expression::CeilFloor(CeilFloorExpression::new(op, row.col(1), None, None).unwrap());
    let got = row.eval(&e);
    match (row.vals[1].get_val(), &got) {
        (Val::Decimal(d), Ok(v)) => {
            let Val::Decimal(g) = v.get_val() else { return sym::fail("CEIL and FLOOR of a number is a number") };
            sym::assume(d.is_finite());
            chk!(if up { *g >= *d && *g - *d <= 1.0 } else { *g <= *d && *d - *g <= 1.0 } && *g == g.trunc(), "CEIL and FLOOR give a whole number at most one away");
        },
        (_, Ok(v)) => chk!(eq(v, &row.vals[1]), "CEIL and FLOOR leave integers alone"),
        _ => sym::fail("CEIL and FLOOR of a number is a number"),
    }
    sym::cover("done")
}
crate::harness! {
    expr_logic3 => { expr_logic() }
    expr_cmp5 => { expr_cmp(5) }
    expr_cmp6 => { expr_cmp(6) }
    expr_between3 => { expr_between(3) }
    expr_between5 => { expr_between(5) }
    expr_in2 => { expr_in(5, 2) }
    expr_case2 => { expr_case() }
    expr_coalesce3 => { expr_coalesce() }
    expr_arith_int1 => { expr_arith_int(&[0, 2]) }
    expr_arith_int2 => { expr_arith_int(&[1, 3]) }
    expr_arith_mix => { expr_arith_mixed() }
    expr_arith_small => { expr_arith_frac() }
    expr_negate => { expr_neg() }
    expr_cast1 => { expr_cast() }
    expr_like3 => { expr_like(2, 2, false) }
    expr_like_null => { expr_like(1, 1, true) }
    expr_like4 => { expr_like(2, 3, false) }
    expr_substring3 => { expr_text(0, 3) }
    expr_overlay3 => { expr_text(1, 3) }
    expr_position3 => { expr_text(2, 4) }
    expr_trim3 => { expr_trim(3) }
    expr_time => { expr_round_time() }
    expr_date => { expr_round_date() }
    expr_ceil => { expr_round_num() }
}

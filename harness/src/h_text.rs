//! Regular expressions, and values made of parts.
use crate::h_date::{D, days, is_text, ordinal, text};
use crate::h_dml::con;
use crate::row::{col, cut, value};
use crate::sym;
use ferrite::catalog::column::Column;
use ferrite::sql::execution::expressions::abstract_expression::Expression;
use ferrite::sql::execution::expressions::array_expression::ArrayExpression;
use ferrite::sql::execution::expressions::at_timezone_expression::AtTimeZoneExpression;
use ferrite::sql::execution::expressions::convert_expression::ConvertExpression;
use ferrite::sql::execution::expressions::interval_expression::{IntervalExpression, IntervalField};
use ferrite::sql::execution::expressions::map_access_expression::{MapAccessExpression, MapAccessKey};
use ferrite::sql::execution::expressions::regex_expression::{RegexExpression, RegexOperator as R};
use ferrite::sql::execution::expressions::struct_expression::{StructExpression, StructField};
use ferrite::sql::execution::expressions::tuple_expression::TupleExpression;
use ferrite::sql::execution::expressions::typed_string_expression::TypedStringExpression;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::{Val, Value};

const T: TypeId = TypeId::VarChar;
const I: TypeId = TypeId::Integer;

/// one element of a pattern
#[derive(Clone, Copy)]
enum P {
    /// a character of one of the ranges, or of none
    In(bool, &'static [(u8, u8)]),
    Any,
    Many,
}
use P::*;
const A: P = In(true, &[(b'a', b'a')]);
/// the pattern, its escape, what it means
const SIMILAR: [(&str, Option<&str>, &[P]); 14] = [
    ("a%", None, &[A, Many]),
    ("%a", Some("!"), &[Many, A]),
    ("_a", Some(""), &[Any, A]),
    ("%a%", None, &[Many, A, Many]),
    ("a_", None, &[A, Any]),
    ("", None, &[]),
    ("[ac]_", None, &[In(true, &[(b'a', b'a'), (b'c', b'c')]), Any]),
    ("[b-d]%", None, &[In(true, &[(b'b', b'd')]), Many]),
    ("_[^a-c]", None, &[Any, In(false, &[(b'a', b'c')])]),
    ("a\\%", None, &[A, In(true, &[(b'%', b'%')])]),
    ("!_!%", Some("!"), &[In(true, &[(b'_', b'_')]), In(true, &[(b'%', b'%')])]),
    ("a.b", None, &[A, In(true, &[(b'.', b'.')]), In(true, &[(b'b', b'b')])]),
    ("[a-]%", None, &[In(true, &[(b'a', b'a'), (b'-', b'-')]), Many]),
    ("%a_", None, &[Many, A, Any]),
];
fn similar(s: &[u8], p: &[P]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(Many) => (0..=s.len()).fold(false, |m, k| m | similar(&s[k..], &p[1..])),
        Some(_) if s.is_empty() => false,
        Some(Any) => similar(&s[1..], &p[1..]),
        Some(In(is, ranges)) => {
            let at = ranges.iter().fold(false, |m, (lo, hi)| m | ((s[0] >= *lo) & (s[0] <= *hi)));
            (at == *is) & similar(&s[1..], &p[1..])
        }
    }
}
fn letters(n: usize) -> Vec<u8> {
    let s = sym::vec(n, "text");
    for c in &s {
        // letters, signs and the line break
        sym::assume((*c >= b' ') & (*c < 127) | (*c == b'\n'));
    }
    s
}
fn string(s: &[u8]) -> Value {
    Value::new(String::from_utf8(s.to_vec()).unwrap_or_default())
}
fn regex(e: R, pattern: &str, escape: Option<&str>, v: Value) -> Result<Value, ()> {
    let e = Expression::Regex(RegexExpression::new(col(0, T), con(Value::new(pattern), T), e, escape.map(str::to_string), Column::new("x", TypeId::Boolean)));
    value(&e, &[v], &[T])
}
fn similar_to(patterns: std::ops::Range<usize>, n: usize) {
    let s = letters(sym::choose(n as u64 + 1, "characters"));
    let (p, escape, parts) = SIMILAR[patterns.start + sym::choose(patterns.len() as u64, "pattern")];
    let not = sym::flip("not");
    cut(1);
    let got = regex(if not { R::NotSimilarTo } else { R::SimilarTo }, p, escape, string(&s));
    let want = similar(&s, parts) != not;
    sym::check(got.is_ok_and(|g| g == Value::new(want)), "a text is similar to a pattern by the definition");
    sym::cover("done");
}
fn operators() {
    let s = letters(2);
    let k = sym::choose(6, "operator");
    let op = [R::Match, R::NotMatch, R::IMatch, R::NotIMatch, R::RLike, R::NotRLike][k].clone();
    cut(1);
    let got = regex(op, "a", None, string(&s));
    let found = s.iter().fold(false, |m, c| m | (*c == b'a') | ((k > 1) & (*c == b'A')));
    sym::check(got.is_ok_and(|g| g == Value::new(found == (k % 2 == 0))), "each operator finds the pattern, or does not");
    sym::cover("done");
}
fn null() {
    let k = sym::choose(8, "operator");
    let op = [R::Match, R::NotMatch, R::IMatch, R::NotIMatch, R::RLike, R::NotRLike, R::SimilarTo, R::NotSimilarTo][k].clone();
    let null = || Value::new_with_type(Val::Null, T);
    let (v, p) = match sym::choose(3, "null") {
        0 => (null(), Value::new("N")),
        1 => (Value::new("N"), null()),
        _ => (null(), null()),
    };
    cut(2);
    let e = Expression::Regex(RegexExpression::new(col(0, T), col(1, T), op, None, Column::new("x", TypeId::Boolean)));
    sym::check(value(&e, &[v, p], &[T, T]).is_ok_and(|g| g.is_null()), "a match with NULL is unknown");
    sym::cover("done");
}

fn parts() {
    cut(2);
    let v: Vec<Value> = (0..2).map(|_| if sym::flip("null") { Value::new_with_type(Val::Null, I) } else { Value::new(sym::i32("part")) }).collect();
    let n = sym::choose(3, "parts");
    // the parts in either order
    let swap = sym::flip("swap") as usize;
    let args: Vec<_> = (0..n).map(|i| col((i + swap) % 2, I)).collect();
    let c = || Column::new("x", TypeId::Vector);
    let e = match sym::choose(3, "kind") {
        0 => Expression::Array(ArrayExpression::new(args, c())),
        1 => Expression::Tuple(TupleExpression::new(args, c())),
        _ => Expression::Struct(StructExpression::new(args, (0..n).map(|i| StructField::new(i.to_string(), Column::new("x", I))).collect(), c())),
    };
    let got = value(&e, &v, &[I, I]);
    let ok = got.is_ok_and(|g| match g.get_val() {
        Val::Vector(g) => g.len() == n && g.iter().enumerate().all(|(i, g)| g.get_val() == v[(i + swap) % 2].get_val()),
        _ => false,
    });
    sym::check(ok, "an array, row or struct has exactly its parts in their order");
    sym::cover("done");
}
fn interval() {
    cut(1);
    let k = sym::choose(6, "field");
    let f = [IntervalField::Year, IntervalField::Month, IntervalField::Day, IntervalField::Hour, IntervalField::Minute, IntervalField::Second][k].clone();
    let (v, t, n) = match sym::choose(5, "type") {
        0 => (Value::new_with_type(Val::Null, I), I, None),
        1 => { let n = sym::i32("units"); (Value::new(n), I, Some(n as i64)) }
        2 => { let n = sym::i64("units"); (Value::new(n), TypeId::BigInt, Some(n)) }
        3 => { let n = sym::i16("units"); (Value::new(n), TypeId::SmallInt, Some(n as i64)) }
        _ => { let n = sym::i8("units"); (Value::new(n), TypeId::TinyInt, Some(n as i64)) }
    };
    let e = Expression::Interval(IntervalExpression::new(f, col(0, t), Column::new("x", TypeId::Struct)));
    let got = value(&e, &[v], &[t]);
    let name = ["years", "months", "days", "hours", "minutes", "seconds"][k];
    match n {
        None => sym::check(got.is_err(), "an interval of NULL is refused"),
        Some(n) => sym::check(got.is_ok_and(|g| g.get_struct_field(name).is_some_and(|g| g == &Value::new(n))), "an interval has the units it was given"),
    }
    sym::cover("done");
}
fn access() {
    cut(1);
    let n = sym::choose(4, "elements");
    let v = Value::new_vector((0..n).map(|i| Value::new(10 + i as i32)));
    let k = sym::i64("key");
    let e = Expression::MapAccess(MapAccessExpression::new(col(0, TypeId::Vector), vec![MapAccessKey::Number(k)], Column::new("x", I)));
    let got = value(&e, &[v], &[TypeId::Vector]);
    if 0 <= k && k < n as i64 {
        sym::check(got.is_ok_and(|g| g == Value::new(10 + k as i32)), "a key names its element");
    } else {
        sym::check(got.is_err(), "a key outside is an error");
    }
    sym::cover("done");
}
fn convert() {
    cut(1);
    let (v, wide) = (sym::i32("value"), sym::flip("to BIGINT"));
    let tried = sym::flip("try");
    let to = if wide { TypeId::BigInt } else { TypeId::SmallInt };
    let e = Expression::Convert(ConvertExpression::new(col(0, I), Some(to), None, tried, vec![], Column::new("x", to)));
    let got = value(&e, &[Value::new(v)], &[I]);
    if wide {
        sym::check(got.is_ok_and(|g| g == Value::new(v as i64)), "a value that fits is converted");
    } else if v >= i16::MIN as i32 && v <= i16::MAX as i32 {
        sym::check(got.is_ok_and(|g| g == Value::new(v as i16)), "a value that fits is converted");
    } else if tried {
        sym::check(got.is_ok_and(|g| g.is_null()), "TRY_CONVERT of a value that does not fit is NULL");
    } else {
        sym::check(got.is_err(), "CONVERT of a value that does not fit is an error");
    }
    sym::cover("done");
}
/// DATE and TIMESTAMP texts, and casts of texts to timestamps
fn stamp(years: &[i64]) {
    let y = years[sym::choose(years.len() as u64, "year")];
    let m = [1, 2, 12][sym::choose(3, "month")];
    let digits: [u8; 2] = sym::bytes("day");
    sym::assume((digits[0] >= b'0') & (digits[0] <= b'9') & (digits[1] >= b'0') & (digits[1] <= b'9'));
    let d = (digits[0] - b'0') as i64 * 10 + (digits[1] - b'0') as i64;
    let sod = [0, 86399][sym::choose(2, "time")];
    let mut s = text(y, m, 1, sod);
    (s[8], s[9]) = (digits[0], digits[1]);
    let len = crate::h_date::len(y, m);
    let valid = d >= 1 && d <= len && y >= 1970;
    cut(1);
    let kind = sym::choose(4, "form");
    let dt = Column::new("x", TypeId::Timestamp);
    if kind == 2 {
        s.truncate(19);
        s[10] = b' ';
    }
    let mut at = sod;
    if kind == 0 {
        s.truncate(10);
        at = 0;
    }
    let s = String::from_utf8(s).unwrap_or_default();
    let e = match kind {
        0 => Expression::TypedString(TypedStringExpression::new("DATE".into(), s.clone(), dt)),
        3 => Expression::Convert(ConvertExpression::new(col(0, T), Some(TypeId::Timestamp), None, false, vec![], dt)),
        _ => Expression::TypedString(TypedStringExpression::new("TIMESTAMP".into(), s.clone(), dt)),
    };
    let got = value(&e, &[Value::new(s)], &[T]);
    if valid {
        let ts = ((days(y) + ordinal(y, m, 0) + d - 1) * 86400 + at) as u64;
        sym::check(got.is_ok_and(|g| g.get_val() == &Val::Timestamp(ts)), "a text is the timestamp it denotes");
    } else {
        sym::check(got.is_err(), "a text that is no date, or before 1970, is an error");
    }
    sym::cover("done");
}
fn zone() {
    cut(2);
    let sod = [0, 3599, 54000, 86336][sym::choose(4, "time")] + (sym::u8("second") & 63) as i64;
    let D { ts, .. } = D { y: 2024, m: 2, d: 28, sod, ts: ((days(2024) + ordinal(2024, 2, 27)) * 86400 + sod) as u64 };
    let (name, shift, tail) = [("UTC", 0, "+00:00"), ("Asia/Tokyo", 9, "+09:00")][sym::choose(2, "zone")];
    let t = TypeId::Timestamp;
    let e = Expression::AtTimeZone(AtTimeZoneExpression::new(col(0, t), col(1, T), Column::new("x", T)));
    let got = value(&e, &[Value::new_with_type(Val::Timestamp(ts), t), Value::new(name)], &[t, T]);
    let at = sod + shift * 3600;
    let mut want = text(2024, 2, 28 + at / 86400, at % 86400);
    want.truncate(19);
    want.extend_from_slice(tail.as_bytes());
    sym::check(got.is_ok_and(|g| is_text(&g, &want)), "a timestamp at a time zone is that instant there");
    sym::cover("done");
}
crate::harness! {
    similar_parts => { similar_to(0..7, 2) }
    similar_class => { similar_to(7..14, 2) }
    similar3 => { similar_to(0..14, 3) }
    regex_ops => { operators() }
    regex_null => { null() }
    build_parts => { parts() }
    build_interval => { interval() }
    build_access => { access() }
    build_convert => { convert() }
    text_stamp => { stamp(&[1969, 1970, 2024]) }
    time_zone => { zone() }
}

//! Parts and truncation of timestamps.
use crate::row::{col, cut, cut_at, value};
use crate::sym;
use ferrite::catalog::column::Column;
use ferrite::sql::execution::expressions::abstract_expression::Expression;
use ferrite::sql::execution::expressions::datetime_expression::{DateTimeExpression, DateTimeField as F, DateTimeOperation as O};
use ferrite::sql::execution::expressions::extract_expression::{ExtractExpression, ExtractField as X};
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::{Val, Value};
use std::sync::Arc;

const TS: TypeId = TypeId::Timestamp;

fn leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
pub fn len(y: i64, m: i64) -> i64 {
    [31, 28 + leap(y) as i64, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m as usize - 1]
}
/// days from 1970-01-01 to the first day of a year
pub fn days(y: i64) -> i64 {
    let p = y - 1;
    p * 365 + p / 4 - p / 100 + p / 400 - 719162
}
pub fn ordinal(y: i64, m: i64, d: i64) -> i64 {
    (1..m).map(|m| len(y, m)).sum::<i64>() + d
}
pub struct D {
    pub y: i64,
    pub m: i64,
    pub d: i64,
    pub sod: i64,
    pub ts: u64,
}
/// a timestamp of one of the years, in month `m` if given and on day `DAY` unless that is 0
fn date<const DAY: i64>(years: &[i64], m: Option<i64>) -> D {
    let y = years[sym::choose(years.len() as u64, "year")];
    let m = m.unwrap_or_else(|| 1 + sym::choose(12, "month") as i64);
    let d = if DAY > 0 { DAY } else { (sym::u8("day") & 31) as i64 + 1 };
    sym::assume(d <= len(y, m));
    let sod = (sym::u32("second of the day") & 0x1ffff) as i64;
    sym::assume(sod < 86400);
    let ts = ((days(y) + ordinal(y, m, 0)) * 86400 + (d - 1) * 86400 + sod) as u64;
    D { y, m, d, sod, ts }
}
/// every cut of the row on a given day, one for each part on every day
fn side<const DAY: i64>(k: usize) {
    if DAY > 0 { cut(1) } else { cut_at(1, k) }
}
const PARTS: [F; 12] = [F::Year, F::Month, F::Day, F::Quarter, F::DayOfYear, F::Dow, F::Isodow, F::Hour, F::Minute, F::Second, F::Epoch, F::Millisecond];
fn part<const DAY: i64>(years: &[i64], parts: &[usize]) {
    let t = date::<DAY>(years, None);
    let k = parts[sym::choose(parts.len() as u64, "part")];
    side::<DAY>(k);
    let e = Expression::DateTime(DateTimeExpression::new(O::DatePart, vec![col(0, TS)], Some(PARTS[k].clone()), Column::new("x", TypeId::Integer)));
    let got = value(&e, &[Value::new_with_type(Val::Timestamp(t.ts), TS)], &[TS]);
    let weekday = (days(t.y) + ordinal(t.y, t.m, t.d) - 1 + 3) % 7;
    let want = [t.y, t.m, t.d, (t.m + 2) / 3, ordinal(t.y, t.m, t.d), weekday, weekday + 1, t.sod / 3600, t.sod / 60 % 60, t.sod % 60, t.ts as i64, 0][k];
    if want > i32::MAX as i64 {
        sym::check(got.is_err(), "a part that does not fit is an error");
    } else {
        sym::check(got.is_ok_and(|g| g == Value::new(want as i32)), "a part of a timestamp is that of the calendar");
    }
    sym::cover("done");
}

pub fn text(y: i64, m: i64, d: i64, sod: i64) -> Vec<u8> {
    let mut s = vec![0; 20];
    for (at, n, digits) in [(0, y, 4), (5, m, 2), (8, d, 2), (11, sod / 60 / 60, 2), (14, sod / 60 % 60, 2), (17, sod % 60, 2)] {
        let mut n = n as u32;
        for k in (0..digits).rev() {
            s[at + k] = b'0' + (n % 10) as u8;
            n /= 10;
        }
    }
    for (at, c) in [(4, b'-'), (7, b'-'), (10, b'T'), (13, b':'), (16, b':'), (19, b'Z')] {
        s[at] = c;
    }
    s
}
pub fn is_text(v: &Value, want: &[u8]) -> bool {
    matches!(v.get_val(), Val::VarLen(s) if s.as_bytes() == want)
}
fn trunc<const DAY: i64>(years: &[i64], parts: &[usize]) {
    let t = date::<DAY>(years, None);
    let k = parts[sym::choose(parts.len() as u64, "part")];
    side::<DAY>(k);
    let f = [F::Century, F::Decade, F::Year, F::Quarter, F::Month, F::Day, F::Hour, F::Minute, F::Second][k].clone();
    let e = Expression::DateTime(DateTimeExpression::new(O::DateTrunc, vec![col(0, TS)], Some(f), Column::new("x", TypeId::VarChar)));
    let got = value(&e, &[Value::new_with_type(Val::Timestamp(t.ts), TS)], &[TS]);
    let want = match k {
        0 => (t.y / 100 * 100, 1, 1, 0),
        1 => (t.y / 10 * 10, 1, 1, 0),
        2 => (t.y, 1, 1, 0),
        3 => (t.y, (t.m - 1) / 3 * 3 + 1, 1, 0),
        4 => (t.y, t.m, 1, 0),
        5 => (t.y, t.m, t.d, 0),
        6 => (t.y, t.m, t.d, t.sod / 3600 * 3600),
        7 => (t.y, t.m, t.d, t.sod / 60 * 60),
        _ => (t.y, t.m, t.d, t.sod),
    };
    sym::check(got.is_ok_and(|g| is_text(&g, &text(want.0, want.1, want.2, want.3))), "a timestamp is truncated to the start of its period");
    sym::cover("done");
}
fn extract<const DAY: i64>(years: &[i64], parts: &[usize]) {
    let t = date::<DAY>(years, None);
    let k = parts[sym::choose(parts.len() as u64, "part")];
    side::<DAY>(k);
    let f = [X::Year, X::Month, X::Day, X::Quarter, X::DayOfYear, X::DayOfWeek, X::Hour, X::Minute, X::Second, X::Epoch][k].clone();
    let e = Expression::Extract(ExtractExpression::new(f, col(0, TS), Column::new("x", TypeId::Integer)));
    let got = value(&e, &[Value::new_with_type(Val::Timestamp(t.ts), TS)], &[TS]);
    let weekday = (days(t.y) + ordinal(t.y, t.m, t.d) - 1 + 3) % 7;
    let want = [t.y, t.m, t.d, (t.m + 2) / 3, ordinal(t.y, t.m, t.d), weekday + 1, t.sod / 3600, t.sod / 60 % 60, t.sod % 60, t.ts as i64][k];
    if want > i32::MAX as i64 {
        sym::check(got.is_err(), "a part that does not fit is an error");
    } else {
        sym::check(got.is_ok_and(|g| g == Value::new(want as i32)), "a part of a timestamp is that of the calendar");
    }
    sym::cover("done");
}
fn make(stamp: bool) {
    let years: &[i64] = if stamp { &[2024] } else { &[1900, 2024] };
    let (year, month) = (years[sym::choose(years.len() as u64, "year")], sym::choose(14, "month") as i64);
    let d = if stamp { [0, 1, 31][sym::choose(3, "day")] } else { (sym::u8("day") & 63) as i64 };
    let (h, mi, s) = match (stamp, if stamp { sym::choose(3, "component") } else { 0 }) {
        (false, _) => (0, 0, 0),
        (_, 0) => ((sym::u8("hour") & 31) as i64, 30, 45),
        (_, 1) => (13, (sym::u8("minute") & 63) as i64, 45),
        _ => (13, 30, (sym::u8("second") & 63) as i64),
    };
    let parts = [year, month, d, h, mi, s];
    let n = if stamp { 6 } else { 3 };
    cut_at(n, month as usize);
    let null = sym::choose(n as u64 + 1, "null component");
    let v: Vec<_> = (0..n).map(|i| if i == null { Value::new_with_type(Val::Null, TypeId::Integer) } else { Value::new(parts[i] as i32) }).collect();
    let op = if stamp { O::MakeTimestamp } else { O::MakeDate };
    let e = Expression::DateTime(DateTimeExpression::new(op, (0..n).map(|i| col(i, TypeId::Integer)).collect(), None, Column::new("x", TypeId::VarChar)));
    let got = value(&e, &v, &[TypeId::Integer; 6][..n]);
    let valid = null == n && (1..13).contains(&month) && d >= 1 && d <= len(year, month) && h < 24 && mi < 60 && s < 60;
    if valid {
        sym::check(got.is_ok_and(|g| is_text(&g, &text(year, month, d, h * 3600 + mi * 60 + s))), "a date is made of its components");
    } else {
        sym::check(got.is_err(), "components that are no date are an error");
    }
    sym::cover("done");
}
fn make_clock() {
    let (h, mi, s) = ((sym::u8("hour") & 31) as i64, (sym::u8("minute") & 63) as i64, (sym::u8("second") & 63) as i64);
    cut(3);
    let e = Expression::DateTime(DateTimeExpression::new(O::MakeTime, (0..3).map(|i| col(i, TypeId::Integer)).collect(), None, Column::new("x", TypeId::VarChar)));
    let got = value(&e, &[Value::new(h as i32), Value::new(mi as i32), Value::new(s as i32)], &[TypeId::Integer; 3]);
    if h < 24 && mi < 60 && s < 60 {
        sym::check(got.is_ok_and(|g| is_text(&g, &text(0, 0, 0, h * 3600 + mi * 60 + s)[11..19])), "a time is made of its components");
    } else {
        sym::check(got.is_err(), "components that are no time are an error");
    }
    sym::cover("done");
}
/// timestamp ± interval, and the interval on either side of the sum
fn shift(at: &[(i64, i64)], sub: bool) {
    let (m, d) = at[sym::choose(at.len() as u64, "date")];
    let k = sym::choose(9, "interval");
    let (text_of, secs): (&str, i64) = [("P1D", 86400), ("PT1H1M1S", 3661), ("P1Y2M3DT4S", (365 + 60 + 3) * 86400 + 4), ("P0D", 0), ("P99999999999999999999D", -1), ("P9223372036854775807D", -1), ("P106751991167300D", -1), ("PT9223372036854775807S", -1), ("1 day", -1)][k];
    let swap = !sub && sym::flip("interval first");
    // an interval that cannot be added has one date; subtractions are long to decide
    sym::assume(m == 1 || secs >= 0 && !swap && (!sub || k < 2));
    // around midnight and around an hour, a minute and a second before it
    let second = sym::u8("second") & if sub { 7 } else { 63 };
    let sod = [0, 3656, 82708, 86336][sym::choose(if sub { 2 } else { 4 }, "time")] + second as i64;
    let t = D { y: 2024, m, d, sod, ts: ((days(2024) + ordinal(2024, m, d - 1)) * 86400 + sod) as u64 };
    cut_at(2, k + swap as usize);
    let i = col(1, TypeId::VarChar);
    let args = if swap { vec![i, col(0, TS)] } else { vec![col(0, TS), i] };
    let e = Expression::DateTime(DateTimeExpression::new(if sub { O::Subtract } else { O::Add }, args, None, Column::new("x", TypeId::VarChar)));
    let got = value(&e, &[Value::new_with_type(Val::Timestamp(t.ts), TS), Value::new(text_of)], &[TS, TypeId::VarChar]);
    if secs < 0 {
        sym::check(got.is_err(), "an interval out of range is an error");
    } else {
        // the day and the time of the day shifted, then the calendar walked
        let at = t.sod + 500 * 86400 + if sub { -secs } else { secs };
        let (mut day, sod) = (t.d - 500 + at / 86400, at % 86400);
        let (mut y, mut m) = (t.y, t.m);
        while day < 1 {
            (y, m) = if m == 1 { (y - 1, 12) } else { (y, m - 1) };
            day += len(y, m);
        }
        while day > len(y, m) {
            day -= len(y, m);
            (y, m) = if m == 12 { (y + 1, 1) } else { (y, m + 1) };
        }
        sym::check(got.is_ok_and(|g| is_text(&g, &text(y, m, day, sod))), "a timestamp plus or minus an interval is that much later or earlier");
    }
    sym::cover("done");
}
crate::harness! {
    date_part_day => { part::<0>(&[1970, 2000, 2023, 2024, 2100], &[0, 1, 2, 3, 4]) }
    date_part_week => { part::<0>(&[2024], &[5, 6]) }
    date_part_time => { part::<28>(&[2024, 2038, 2106], &[7, 8, 9, 10, 11]) }
    date_trunc_day => { trunc::<0>(&[2024], &[0, 1, 2, 3, 4, 5]) }
    date_trunc_years => { trunc::<0>(&[1970, 1999, 2000, 2024, 2100], &[0, 1, 2, 3, 4, 5]) }
    date_trunc_time => { trunc::<28>(&[2024], &[6, 7, 8]) }
    extract_day => { extract::<0>(&[1970, 2024, 2100], &[0, 1, 2, 3, 4, 5]) }
    extract_time => { extract::<28>(&[2024, 2038, 2106], &[6, 7, 8, 9]) }
    make_date => { make(false) }
    make_stamp => { make(true) }
    make_time => { make_clock() }
    date_plus => { shift(&[(1, 1), (2, 28), (12, 31)], false) }
    date_minus => { shift(&[(1, 1), (3, 1)], true) }
    date_plus5 => { shift(&[(1, 1), (2, 28), (2, 29), (3, 1), (12, 31)], false) }
}

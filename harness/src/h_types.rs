//! Values: comparison, arithmetic, casts, encodings, equality and hashing.
use crate::{chk, sym};
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::types::{CmpBool, Type};
use ferrite::types_db::value::{Val, Value};
use std::hash::{Hash, Hasher};

pub const INT: [TypeId; 4] = [TypeId::TinyInt, TypeId::SmallInt, TypeId::Integer, TypeId::BigInt];
/// an integer value of kind k with a symbolic payload, and its mathematical value
pub fn int(k: usize, n: &str) -> (Value, i128) {
    match k {
        0 => {
            let v = sym::i8(n);
            (Value::new(v), v as i128)
        }
        1 => {
            let v = sym::i16(n);
            (Value::new(v), v as i128)
        }
        2 => {
            let v = sym::i32(n);
            (Value::new(v), v as i128)
        }
        _ => {
            let v = sym::i64(n);
            (Value::new(v), v as i128)
        }
    }
}
pub fn as_i128(v: &Value) -> Option<i128> {
    Some(match v.get_val() {
        Val::TinyInt(i) => *i as i128,
        Val::SmallInt(i) => *i as i128,
        Val::Integer(i) => *i as i128,
        Val::BigInt(i) => *i as i128,
        _ => return None,
    })
}
pub fn range(k: usize) -> (i128, i128) {
    match k {
        0 => (i8::MIN as i128, i8::MAX as i128),
        1 => (i16::MIN as i128, i16::MAX as i128),
        2 => (i32::MIN as i128, i32::MAX as i128),
        _ => (i64::MIN as i128, i64::MAX as i128),
    }
}
fn num(k: usize, n: &str) -> Value {
    match k {
        0..=3 => int(k, n).0,
        4 => Value::new(sym::f64(n)),
        _ => Value::new(sym::f32(n)),
    }
}
fn t(c: CmpBool) -> bool {
    c == CmpBool::CmpTrue
}
fn nan(v: &Value) -> bool {
    match v.get_val() {
        Val::Decimal(d) => d.is_nan(),
        Val::Float(d) => d.is_nan(),
        _ => false,
    }
}
/// scalar of any fixed-size type
fn scalar(k: usize, n: &str) -> Value {
    match k {
        0..=3 => int(k, n).0,
        4 => Value::new(sym::f64(n)),
        5 => Value::new(sym::f32(n)),
        6 => Value::new(sym::bool(n)),
        7 => Value::new(sym::u64(n)),
        8 => Value::new_with_type(Val::Date(sym::i32(n)), TypeId::Date),
        9 => Value::new_with_type(Val::Time(sym::i32(n)), TypeId::Time),
        10 => Value::new_with_type(Val::Interval(sym::i64(n)), TypeId::Interval),
        _ => Value::new_with_type(Val::Point(sym::f64(n), sym::f64(n)), TypeId::Point),
    }
}
/// string of exactly `len` ASCII bytes
pub fn ascii(len: usize, n: &str) -> String {
    let b = sym::vec(len, n);
    for x in &b {
        sym::assume(*x < 128);
    }
    unsafe { String::from_utf8_unchecked(b) }
}
fn text(k: usize, len: usize, n: &str) -> Value {
    let s = ascii(len, n);
    match k {
        0 => Value::new_with_type(Val::VarLen(s), TypeId::VarChar),
        1 => Value::new_with_type(Val::ConstLen(s), TypeId::Char),
        2 => Value::new_with_type(Val::Binary(s.into_bytes()), TypeId::Binary),
        3 => Value::new_with_type(Val::JSON(s), TypeId::JSON),
        _ => Value::new_with_type(Val::UUID(s), TypeId::UUID),
    }
}
/// a hasher that remembers what it is fed: equal streams hash alike under every hasher
struct H(Vec<u8>);
impl Hasher for H {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
fn h(v: &Value) -> Vec<u8> {
    let mut s = H(vec![]);
    v.hash(&mut s);
    s.0
}
fn coherent(a: &Value, b: &Value) {
    let (eq, ne, lt, le, gt, ge) = (a.compare_equals(b), a.compare_not_equals(b), a.compare_less_than(b), a.compare_less_than_equals(b), a.compare_greater_than(b), a.compare_greater_than_equals(b));
    let any_nan = nan(a) || nan(b);
    chk!(eq != CmpBool::CmpNull && ne != CmpBool::CmpNull && lt != CmpBool::CmpNull && le != CmpBool::CmpNull && gt != CmpBool::CmpNull && ge != CmpBool::CmpNull, "non-null operands give a definite answer");
    chk!(t(eq) != t(ne), "= and <> are complementary");
    chk!(t(le) == (t(lt) || t(eq)), "<= is < or =");
    chk!(t(ge) == (t(gt) || t(eq)), ">= is > or =");
    chk!(any_nan || (t(lt) as u8 + t(eq) as u8 + t(gt) as u8 == 1), "exactly one of <, =, > holds");
    chk!(t(b.compare_greater_than(a)) == t(lt), "a<b iff b>a");
    chk!(t(b.compare_greater_than_equals(a)) == t(le), "a<=b iff b>=a");
    chk!(t(b.compare_equals(a)) == t(eq), "= is symmetric");
}
fn cast_text(k: usize) {
    // integers written as text by the cast are read back by the cast
    sym::exact_fmt(true);
    let (a, x) = int(k, "a");
    let s = a.cast_to(if sym::flip("char") { TypeId::Char } else { TypeId::VarChar }).unwrap();
    let b = s.cast_to(INT[k]);
    chk!(matches!(&b, Ok(v) if as_i128(v) == Some(x)), "integer -> text -> integer is the identity");
    sym::cover("done");
}
crate::harness! {
    val_cmp_int => {
        let (ka, kb) = (sym::choose(4, "kind a"), sym::choose(4, "kind b"));
        let ((a, x), (b, y)) = (int(ka, "a"), int(kb, "b"));
        chk!(t(a.compare_equals(&b)) == (x == y), "= agrees with the mathematical values");
        chk!(t(a.compare_not_equals(&b)) == (x != y), "<> agrees with the mathematical values");
        chk!(t(a.compare_less_than(&b)) == (x < y), "< agrees with the mathematical values");
        chk!(t(a.compare_less_than_equals(&b)) == (x <= y), "<= agrees with the mathematical values");
        chk!(t(a.compare_greater_than(&b)) == (x > y), "> agrees with the mathematical values");
        chk!(t(a.compare_greater_than_equals(&b)) == (x >= y), ">= agrees with the mathematical values");
        sym::cover("done");
    }
    val_cmp_num => {
        let (ka, kb) = (sym::choose(6, "kind a"), sym::choose(6, "kind b"));
        sym::assume(ka >= 4 || kb >= 4);
        let (a, b) = (num(ka, "a"), num(kb, "b"));
        coherent(&a, &b);
        if (ka < 3 && kb == 4) || (ka == 4 && kb < 3) {
            // exact in f64
            let f = |v: &Value| match v.get_val() { Val::Decimal(d) => *d, _ => as_i128(v).unwrap() as i32 as f64 };
            chk!(t(a.compare_less_than(&b)) == (f(&a) < f(&b)), "< agrees with the exact values");
            chk!(t(a.compare_equals(&b)) == (f(&a) == f(&b)), "= agrees with the exact values");
        }
        sym::cover("done");
    }
    val_cmp_same => {
        let k = sym::choose(5, "kind") + 6;
        let (a, b) = (scalar(k, "a"), scalar(k, "b"));
        coherent(&a, &b);
        sym::cover("done");
    }
    val_cmp_text => {
        let k = sym::choose(5, "kind");
        let (la, lb) = (sym::choose(4, "len a"), sym::choose(4, "len b"));
        let (a, b) = (text(k, la, "a"), text(k, lb, "b"));
        coherent(&a, &b);
        let (x, y) = (a.as_bytes(), b.as_bytes());
        chk!(t(a.compare_less_than(&b)) == (x < y), "< is the lexicographic order of the bytes");
        chk!(t(a.compare_equals(&b)) == (x == y), "= is equality of the bytes");
        sym::cover("done");
    }
    val_cmp_null => {
        let k = sym::choose(12, "kind");
        let a = scalar(k, "a");
        let n = if sym::flip("typed null") { Value::new_with_type(Val::Null, a.type_id_) } else { Value::new(Val::Null) };
        let (a, b) = if sym::flip("null on the left") { (n, a) } else { (a, n) };
        for c in [a.compare_equals(&b), a.compare_not_equals(&b), a.compare_less_than(&b), a.compare_less_than_equals(&b), a.compare_greater_than(&b), a.compare_greater_than_equals(&b)] {
            chk!(c == CmpBool::CmpNull, "a comparison with NULL is unknown");
        }
        chk!(a.min(&b).is_null() && a.max(&b).is_null(), "min and max with NULL are NULL");
        chk!(matches!(a.add(&b), Ok(ref v) if v.is_null()) || a.add(&b).is_err(), "NULL propagates through +");
        sym::cover("done");
    }
    val_arith_int => {
        let k = sym::choose(4, "kind");
        let op = sym::choose(4, "op");
        let ((a, x), (b, y)) = (int(k, "a"), int(k, "b"));
        let (lo, hi) = range(k);
        let r = match op { 0 => a.add(&b), 1 => a.subtract(&b), 2 => a.multiply(&b), _ => a.divide(&b) };
        // division and multiplication are specified through the inverse to keep the solver's work linear in the width
        match (op, r) {
            (0, Ok(v)) => chk!(as_i128(&v) == Some(x + y), "a+b is exact"),
            (0, Err(_)) => chk!(x + y < lo || x + y > hi, "a+b is rejected only on overflow"),
            (1, Ok(v)) => chk!(as_i128(&v) == Some(x - y), "a-b is exact"),
            (1, Err(_)) => chk!(x - y < lo || x - y > hi, "a-b is rejected only on overflow"),
            (2, Ok(v)) => chk!(match v.get_val() {
                Val::TinyInt(z) => (x as i8).checked_mul(y as i8) == Some(*z),
                Val::SmallInt(z) => (x as i16).checked_mul(y as i16) == Some(*z),
                Val::Integer(z) => (x as i32).checked_mul(y as i32) == Some(*z),
                Val::BigInt(z) => (x as i64).checked_mul(y as i64) == Some(*z),
                _ => false,
            } && v.get_type_id() == INT[k], "a*b is exact"),
            (2, Err(_)) => chk!(match k {
                0 => (x as i8).checked_mul(y as i8).is_none(),
                1 => (x as i16).checked_mul(y as i16).is_none(),
                2 => (x as i32).checked_mul(y as i32).is_none(),
                _ => (x as i64).checked_mul(y as i64).is_none(),
            }, "a*b is rejected only on overflow"),
            (_, Ok(v)) => {
                chk!(y != 0, "no quotient by zero");
                // at the operands' own width, so the solver compares like with like
                chk!(match v.get_val() {
                    Val::TinyInt(z) => (x as i8).checked_div(y as i8) == Some(*z),
                    Val::SmallInt(z) => (x as i16).checked_div(y as i16) == Some(*z),
                    Val::Integer(z) => (x as i32).checked_div(y as i32) == Some(*z),
                    Val::BigInt(z) => (x as i64).checked_div(y as i64) == Some(*z),
                    _ => false,
                } && v.get_type_id() == INT[k], "a/b is exact");
            }
            (_, Err(_)) => chk!(y == 0 || (x == lo && y == -1), "a/b is rejected only on zero or overflow"),
        }
        sym::cover("done");
    }
    val_modulo => {
        let ((a, x), (b, y)) = (int(2, "a"), int(2, "b"));
        let m = a.modulo(&b);
        if y == 0 {
            chk!(m.is_null(), "a % 0 is NULL");
        } else {
            let w = (x as i32).wrapping_rem(y as i32);
            chk!(as_i128(&m) == Some(w as i128), "a % b is exact");
        }
        sym::cover("done");
    }
    val_arith_mixed => {
        let ka = sym::choose(4, "kind a");
        let kb = sym::choose(4, "kind b");
        sym::assume(ka != kb);
        let ((a, x), (b, y)) = (int(ka, "a"), int(kb, "b"));
        if let Ok(v) = a.add(&b) {
            chk!(as_i128(&v) == Some(x + y), "a+b is exact");
        }
        if let Ok(v) = a.subtract(&b) {
            chk!(as_i128(&v) == Some(x - y), "a-b is exact");
        }
        sym::cover("done");
    }
    val_arith_interval => {
        let (x, y) = (sym::i64("a"), sym::i64("b"));
        let (a, b) = (Value::new_with_type(Val::Interval(x), TypeId::Interval), Value::new_with_type(Val::Interval(y), TypeId::Interval));
        match a.add(&b) {
            Ok(v) => chk!(matches!(v.get_val(), Val::Interval(z) if x.checked_add(y) == Some(*z)), "interval + is exact"),
            Err(_) => chk!(x.checked_add(y).is_none(), "interval + is rejected only on overflow"),
        }
        match a.subtract(&b) {
            Ok(v) => chk!(matches!(v.get_val(), Val::Interval(z) if x.checked_sub(y) == Some(*z)), "interval - is exact"),
            Err(_) => chk!(x.checked_sub(y).is_none(), "interval - is rejected only on overflow"),
        }
        sym::cover("done");
    }
    val_minmax => {
        let k = sym::choose(4, "kind");
        let ((a, x), (b, y)) = (int(k, "a"), int(k, "b"));
        chk!(as_i128(&a.min(&b)) == Some(x.min(y)), "min");
        chk!(as_i128(&a.max(&b)) == Some(x.max(y)), "max");
        sym::cover("done");
    }
    val_cast_int => {
        let (ka, kb) = (sym::choose(4, "from"), sym::choose(4, "to"));
        let (a, x) = int(ka, "a");
        let (lo, hi) = range(kb);
        match a.cast_to(INT[kb]) {
            Ok(v) => {
                chk!(v.get_type_id() == INT[kb], "the result has the target type");
                chk!(as_i128(&v) == Some(x), "an integer cast keeps the value");
            }
            Err(_) => chk!(x < lo || x > hi, "an integer cast fails only when out of range"),
        }
        match a.cast_to(TypeId::Boolean) {
            Ok(v) => chk!(matches!(v.get_val(), Val::Boolean(b) if *b == (x != 0)), "cast to boolean is <> 0"),
            Err(_) => sym::fail("integers cast to boolean"),
        }
        sym::cover("done");
    }
    val_cast_float => {
        // integer -> decimal -> integer is the identity where the integer is exact in a double
        let k = sym::choose(3, "kind");
        let (a, x) = int(k, "a");
        let d = a.cast_to(TypeId::Decimal).unwrap();
        chk!(matches!(d.get_val(), Val::Decimal(f) if *f == (x as i32) as f64), "cast to decimal keeps the value");
        let b = d.cast_to(INT[k]).unwrap();
        chk!(as_i128(&b) == Some(x), "decimal back to integer is the identity");
        sym::cover("done");
    }
    val_cast_null => {
        let k = sym::choose(20, "target");
        let ts = [TypeId::Boolean, TypeId::TinyInt, TypeId::SmallInt, TypeId::Integer, TypeId::BigInt, TypeId::Decimal, TypeId::Float, TypeId::Timestamp, TypeId::Date, TypeId::Time, TypeId::Interval, TypeId::VarChar, TypeId::Char, TypeId::Binary, TypeId::JSON, TypeId::UUID, TypeId::Vector, TypeId::Array, TypeId::Enum, TypeId::Point];
        let n = Value::new(Val::Null);
        match n.cast_to(ts[k]) {
            Ok(v) => chk!(v.is_null() && v.get_type_id() == ts[k], "NULL casts to a NULL of the target type"),
            Err(_) => sym::fail("NULL casts to every type"),
        }
        sym::cover("done");
    }
    val_cast_text => {
        cast_text(0);
    }
    val_cast_text16 => {
        cast_text(1);
    }
    val_cast_trunc => {
        // decimals inside the target's range lose only their fraction
        let k = sym::choose(4, "to");
        let f = sym::f64("a");
        let lim = [127.0, 32767.0, 2147483647.0, 9007199254740992.0][k];
        sym::assume(f >= -lim && f <= lim);
        match Value::new(f).cast_to(INT[k]) {
            Ok(v) => {
                let z = match v.get_val() { Val::TinyInt(z) => *z as f64, Val::SmallInt(z) => *z as f64, Val::Integer(z) => *z as f64, Val::BigInt(z) => *z as f64, _ => f64::NAN };
                chk!(z == f.trunc() && v.get_type_id() == INT[k], "a decimal in range is truncated");
            }
            Err(_) => sym::fail("a decimal in range casts to an integer"),
        }
        sym::cover("done");
    }
    val_serde => {
        let k = sym::choose(12, "kind");
        let a = if sym::flip("null") { Value::new_with_type(Val::Null, scalar(k, "a").type_id_) } else { scalar(k, "a") };
        let b = postcard::to_allocvec(&a).unwrap();
        let c: Value = postcard::from_bytes(&b).unwrap();
        chk!(c == a && c.type_id_ == a.type_id_ && c.is_null() == a.is_null(), "decode(encode(v)) = v");
        let d = c.as_bytes();
        chk!(d == a.as_bytes(), "the decoded value has the same bytes");
        sym::cover("done");
    }
    val_serde_text => {
        let k = sym::choose(5, "kind");
        let l = sym::choose(6, "len");
        let a = text(k, l, "a");
        let b = postcard::to_allocvec(&a).unwrap();
        let c: Value = postcard::from_bytes(&b).unwrap();
        chk!(c == a && c.type_id_ == a.type_id_, "decode(encode(v)) = v");
        sym::cover("done");
    }
    val_bytes => {
        let k = sym::choose(12, "kind");
        let a = scalar(k, "a");
        let b = a.as_bytes();
        chk!(b.len() as u32 == a.get_storage_size(), "the storage size is the number of bytes stored");
        let c = Value::deserialize_from(&b, a.type_id_);
        chk!(c == a && c.type_id_ == a.type_id_, "deserialize_from(as_bytes(v)) = v");
        sym::cover("done");
    }
    val_bytes_text => {
        let k = sym::choose(5, "kind");
        let l = sym::choose(5, "len");
        let a = text(k, l, "a");
        let b = a.as_bytes();
        let c = Value::deserialize_from(&b, a.type_id_);
        chk!(c == a && c.type_id_ == a.type_id_, "deserialize_from(as_bytes(v)) = v");
        sym::cover("done");
    }
    val_bytes_any => {
        // arbitrary bytes of every length never crash the decoder
        let ts = [TypeId::Boolean, TypeId::TinyInt, TypeId::SmallInt, TypeId::Integer, TypeId::BigInt, TypeId::Decimal, TypeId::Float, TypeId::Timestamp, TypeId::Date, TypeId::Time, TypeId::Interval, TypeId::VarChar, TypeId::Char, TypeId::Binary, TypeId::JSON, TypeId::UUID, TypeId::Vector, TypeId::Array, TypeId::Enum, TypeId::Point];
        let k = sym::choose(20, "type");
        let l = sym::choose(5, "len");
        let b = sym::vec(l, "bytes");
        let _ = Value::deserialize_from(&b, ts[k]);
        sym::cover("done");
    }
    val_eq_hash => {
        let (ka, kb) = (sym::choose(12, "kind a"), sym::choose(12, "kind b"));
        let (a, b) = (scalar(ka, "a"), scalar(kb, "b"));
        let e = a == b;
        chk!(e == (b == a), "equality is symmetric");
        chk!(a == a.clone(), "equality is reflexive");
        if e {
            chk!(h(&a) == h(&b), "equal values hash alike");
            chk!(ka == kb, "values of different types are not equal");
        }
        chk!((a.partial_cmp(&b) == Some(std::cmp::Ordering::Equal)) == e, "the order agrees with equality");
        chk!(a.partial_cmp(&b) == b.partial_cmp(&a).map(|o| o.reverse()), "the order is antisymmetric");
        sym::cover("done");
    }
    val_eq_hash_text => {
        let k = sym::choose(5, "kind");
        let (la, lb) = (sym::choose(4, "len a"), sym::choose(4, "len b"));
        let (a, b) = (text(k, la, "a"), text(k, lb, "b"));
        let e = a == b;
        chk!(e == (a.as_bytes() == b.as_bytes()), "equality is equality of the bytes");
        if e {
            chk!(h(&a) == h(&b), "equal values hash alike");
        }
        chk!(a.partial_cmp(&b) == Some(a.as_bytes().cmp(&b.as_bytes())), "the order is lexicographic");
        sym::cover("done");
    }
    val_ord_trans => {
        let k = sym::choose(11, "kind");
        let (a, b, c) = (scalar(k, "a"), scalar(k, "b"), scalar(k, "c"));
        if a < b && b < c {
            chk!(a < c, "the order is transitive");
        }
        if a <= b && b <= c {
            chk!(a <= c, "the order is transitive (<=)");
        }
        sym::cover("done");
    }
}

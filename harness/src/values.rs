//! Values: comparison, arithmetic, conversion and storage, recorded for spec/Values.tla.
use crate::{Log, st};
use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::rid::RID;
use ferrite::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
use ferrite::sql::execution::expressions::arithmetic_expression::{ArithmeticExpression, ArithmeticOp};
use ferrite::sql::execution::expressions::binary_op_expression::BinaryOpExpression;
use ferrite::sql::execution::expressions::comparison_expression::{ComparisonExpression, ComparisonType};
use ferrite::sql::execution::expressions::constant_value_expression::ConstantExpression;
use ferrite::storage::table::tuple::Tuple;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::types::{CmpBool, Type};
use ferrite::types_db::value::{Val, Value};
use serde_json::{Value as J, json};
use sqlparser::ast::BinaryOperator;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::sync::Arc;

pub fn tid(s: &str) -> TypeId {
    use TypeId::*;
    match s {
        "Boolean" => Boolean, "TinyInt" => TinyInt, "SmallInt" => SmallInt, "Integer" => Integer, "BigInt" => BigInt,
        "Decimal" => Decimal, "Float" => Float, "Timestamp" => Timestamp, "Date" => Date, "Time" => Time,
        "Interval" => Interval, "VarChar" => VarChar, "Char" => Char, "Binary" => Binary, "JSON" => JSON, "UUID" => UUID,
        "Vector" => Vector, "Array" => Array, "Enum" => Enum, "Point" => Point, "Invalid" => Invalid, "Struct" => Struct,
        _ => panic!("harness: type {s}"),
    }
}

/// A value from its description: ["Integer", "5"], ["Null", "Integer"], ["Vector", [..]], ...
pub fn val(j: &J) -> Value {
    let t = j[0].as_str().expect("harness: value");
    if t == "Null" {
        return Value::new_with_type(Val::Null, tid(j[1].as_str().unwrap()));
    }
    let ty = tid(t);
    let s = || j[1].as_str().unwrap_or_else(|| panic!("harness: value {j}"));
    let v = match ty {
        TypeId::Boolean => Val::Boolean(s() == "1"),
        TypeId::TinyInt => Val::TinyInt(s().parse().unwrap()),
        TypeId::SmallInt => Val::SmallInt(s().parse().unwrap()),
        TypeId::Integer => Val::Integer(s().parse().unwrap()),
        TypeId::BigInt => Val::BigInt(s().parse().unwrap()),
        TypeId::Decimal => Val::Decimal(s().parse().unwrap()),
        TypeId::Float => Val::Float(s().parse().unwrap()),
        TypeId::Timestamp => Val::Timestamp(s().parse().unwrap()),
        TypeId::Date => Val::Date(s().parse().unwrap()),
        TypeId::Time => Val::Time(s().parse().unwrap()),
        TypeId::Interval => Val::Interval(s().parse().unwrap()),
        TypeId::VarChar => Val::VarLen(s().to_string()),
        TypeId::Char => Val::ConstLen(s().to_string()),
        TypeId::Binary => Val::Binary(s().bytes().map(|b| b.wrapping_mul(7)).collect()),
        TypeId::JSON => Val::JSON(s().to_string()),
        TypeId::UUID => Val::UUID(s().to_string()),
        TypeId::Enum => Val::Enum(j[2].as_i64().unwrap() as i32, s().to_string()),
        TypeId::Point => Val::Point(s().parse().unwrap(), j[2].as_f64().unwrap()),
        TypeId::Vector => return Value::new_vector(j[1].as_array().unwrap().iter().map(val).collect::<Vec<_>>()),
        TypeId::Array => Val::Array(j[1].as_array().unwrap().iter().map(val).collect()),
        TypeId::Struct => {
            let names: Vec<String> = j[1].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
            return Value::new_struct(names, j[2].as_array().unwrap().iter().map(val).collect::<Vec<_>>());
        },
        TypeId::Invalid => Val::Null,
    };
    Value::new_with_type(v, ty)
}

fn big(mut n: i128) -> (i64, Vec<i64>) {
    let s = n.signum() as i64;
    let mut d = vec![];
    while n != 0 {
        d.push((n % 10000).abs() as i64);
        n /= 10000;
    }
    (s, d)
}

pub fn tok(v: &Value) -> String {
    format!("{:?}|{:?}|{:?}", v.get_type_id(), v.get_val(), v.struct_data)
}

pub fn enc(v: &Value) -> J {
    let t = format!("{:?}", v.get_type_id());
    let (c, s, d): (&str, i64, Vec<i64>) = match v.get_val() {
        Val::Null => ("null", 0, vec![]),
        Val::TinyInt(i) => num(*i as i128),
        Val::SmallInt(i) => num(*i as i128),
        Val::Integer(i) => num(*i as i128),
        Val::BigInt(i) => num(*i as i128),
        Val::Decimal(f) => real(*f),
        Val::Float(f) => real(*f as f64),
        Val::Boolean(b) => ord(*b as i128),
        Val::Timestamp(i) => ord(*i as i128),
        Val::Date(i) | Val::Time(i) => ord(*i as i128),
        Val::Interval(i) => ord(*i as i128),
        Val::VarLen(x) | Val::ConstLen(x) | Val::JSON(x) | Val::UUID(x) => bytes(x.as_bytes()),
        Val::Binary(b) => bytes(b),
        _ => ("odd", 0, vec![]),
    };
    json!({"t": t, "c": c, "s": s, "d": d, "x": tok(v)})
}
fn num(n: i128) -> (&'static str, i64, Vec<i64>) {
    let (s, d) = big(n << 20);
    ("num", s, d)
}
fn ord(n: i128) -> (&'static str, i64, Vec<i64>) {
    let (s, d) = big(n);
    ("ord", s, d)
}
fn bytes(b: &[u8]) -> (&'static str, i64, Vec<i64>) {
    ("str", 0, b.iter().map(|x| *x as i64).collect())
}
fn real(f: f64) -> (&'static str, i64, Vec<i64>) {
    if f.is_nan() {
        return ("nan", 0, vec![]);
    }
    if f.is_infinite() {
        return ("inf", if f > 0.0 { 1 } else { -1 }, vec![]);
    }
    let g = f * 1048576.0;
    if g.abs() < 1e37 && g.trunc() == g {
        let (s, d) = big(g as i128);
        ("num", s, d)
    } else {
        ("odd", 0, vec![])
    }
}

fn c3(c: CmpBool) -> &'static str {
    match c {
        CmpBool::CmpTrue => "T",
        CmpBool::CmpFalse => "F",
        CmpBool::CmpNull => "N",
    }
}
pub fn konst(v: &Value) -> Arc<Expression> {
    Arc::new(Expression::Constant(ConstantExpression::new(v.clone(), Column::new("c", v.get_type_id()), vec![])))
}
fn eval(e: &Expression, join: bool) -> Result<Value, String> {
    let sch = Schema::new(vec![]);
    let t = Tuple::new(&[], &sch, RID::new(0, 0));
    if join { e.evaluate_join(&t, &sch, &t, &sch) } else { e.evaluate(&t, &sch) }.map_err(|e| e.to_string())
}
fn b3(r: Result<Value, String>) -> &'static str {
    match r {
        Ok(v) => match v.get_val() {
            Val::Boolean(true) => "T",
            Val::Boolean(false) => "F",
            Val::Null => "N",
            _ => "?",
        },
        Err(_) => "X",
    }
}
fn six(a: &Value, b: &Value, via: &str) -> Vec<&'static str> {
    use BinaryOperator as B;
    use ComparisonType as C;
    match via {
        "val" => vec![
            c3(a.compare_equals(b)), c3(a.compare_not_equals(b)), c3(a.compare_less_than(b)),
            c3(a.compare_less_than_equals(b)), c3(a.compare_greater_than(b)), c3(a.compare_greater_than_equals(b)),
        ],
        "bin" => [B::Eq, B::NotEq, B::Lt, B::LtEq, B::Gt, B::GtEq].into_iter().map(|o| {
            let (l, r) = (konst(a), konst(b));
            match BinaryOpExpression::new(l.clone(), r.clone(), o, vec![l, r]) {
                Ok(e) => b3(eval(&Expression::BinaryOp(e), false)),
                Err(_) => "X",
            }
        }).collect(),
        _ => [C::Equal, C::NotEqual, C::LessThan, C::LessThanOrEqual, C::GreaterThan, C::GreaterThanOrEqual].into_iter().map(|o| {
            let (l, r) = (konst(a), konst(b));
            b3(eval(&Expression::Comparison(ComparisonExpression::new(l.clone(), r.clone(), o, vec![l, r])), via == "join"))
        }).collect(),
    }
}

fn arith(op: &str, a: &Value, b: &Value, via: &str) -> Result<Value, String> {
    use ArithmeticOp as A;
    use BinaryOperator as B;
    match via {
        "val" => match op {
            "add" => a.add(b), "sub" => a.subtract(b), "mul" => a.multiply(b), "div" => a.divide(b),
            _ => Ok(a.modulo(b)),
        },
        "bin" => {
            let o = match op { "add" => B::Plus, "sub" => B::Minus, "mul" => B::Multiply, "div" => B::Divide, _ => B::Modulo };
            let (l, r) = (konst(a), konst(b));
            let e = BinaryOpExpression::new(l.clone(), r.clone(), o, vec![l, r])?;
            eval(&Expression::BinaryOp(e), false)
        },
        _ => {
            let o = match op { "add" => A::Add, "sub" => A::Subtract, "mul" => A::Multiply, "div" => A::Divide, _ => panic!("harness: {op}") };
            let (l, r) = (konst(a), konst(b));
            eval(&Expression::Arithmetic(ArithmeticExpression::new(o, vec![l, r])), via == "join")
        },
    }
}

fn res(r: Result<Value, String>) -> J {
    match r {
        Ok(v) => json!({"err": false, "v": enc(&v)}),
        Err(_) => json!({"err": true, "v": enc(&Value::new(Val::Null))}),
    }
}
fn as_int(v: &Value) -> Option<i128> {
    Some(match v.get_val() {
        Val::TinyInt(i) => *i as i128,
        Val::SmallInt(i) => *i as i128,
        Val::Integer(i) => *i as i128,
        Val::BigInt(i) => *i as i128,
        _ => return None,
    })
}
fn h(v: &Value) -> u64 {
    let mut s = DefaultHasher::new();
    v.hash(&mut s);
    s.finish()
}
fn po(a: &Value, b: &Value) -> &'static str {
    match a.partial_cmp(b) {
        Some(std::cmp::Ordering::Less) => "L",
        Some(std::cmp::Ordering::Equal) => "E",
        Some(std::cmp::Ordering::Greater) => "G",
        None => "U",
    }
}
fn tf(b: bool) -> &'static str {
    if b { "T" } else { "F" }
}

pub fn run(_cfg: &J, cmds: &[J], log: &Log) {
    for c in cmds {
        let mut e = json!({"op": st(c, "op"), "i": c});
        let op = st(c, "op");
        let via = c["via"].as_str().unwrap_or("val");
        let (a, b) = match op {
            "tuple" => (Value::new(false), Value::new(false)),
            "cast" | "text" | "bytes" => (val(&c["a"]), Value::new(false)),
            _ => (val(&c["a"]), val(&c["b"])),
        };
        e["a"] = enc(&a);
        e["b"] = enc(&b);
        let r = match op {
            "cmp" => {
                let mut r = six(&a, &b, via);
                r.extend(six(&b, &a, via));
                json!(r)
            },
            "heq" => json!([tf(a == b), tf(h(&a) == h(&b)), po(&a, &b), po(&b, &a)]),
            "minmax" => json!({"min": enc(&Type::min(&a, &b)), "max": enc(&Type::max(&a, &b))}),
            "add" | "sub" | "mul" | "div" | "mod" => {
                e["must"] = json!(c["must"]);
                let mut r = res(arith(op, &a, &b, via));
                let q = match (as_int(&a), as_int(&b)) {
                    (Some(x), Some(y)) if y != 0 => x / y,
                    _ => 0,
                };
                let (s, d) = big(q);
                r["q"] = json!({"s": s, "d": d});
                r
            },
            "cast" => {
                let to = st(c, "to");
                e["to"] = json!(to);
                res(match via {
                    "as" => match to {
                        "TinyInt" => a.as_tinyint().map(Value::new),
                        "SmallInt" => a.as_smallint().map(Value::new),
                        "Integer" => a.as_integer().map(Value::new),
                        "BigInt" => a.as_bigint().map(Value::new),
                        _ => a.as_decimal().map(Value::new),
                    },
                    _ => a.cast_to(tid(to)),
                })
            },
            "text" => res(a.cast_to(TypeId::VarChar).and_then(|t| t.cast_to(a.get_type_id()))),
            "bytes" => enc(&Value::deserialize_from(&a.as_bytes(), a.get_type_id())),
            "tuple" => {
                let vs: Vec<Value> = c["vs"].as_array().unwrap().iter().map(val).collect();
                let sch = Schema::new(vs.iter().enumerate().map(|(k, v)| Column::new(&format!("c{k}"), v.get_type_id())).collect());
                let t = Tuple::new(&vs, &sch, RID::new(3, 1));
                let len = t.get_length().unwrap();
                let mut buf = vec![0xAAu8; len + 16];
                let used = t.serialize_to(&mut buf).unwrap();
                e["len"] = json!(len);
                e["used"] = json!(used);
                e["toks"] = json!(vs.iter().map(tok).collect::<Vec<_>>());
                // a buffer that is too small is refused
                let small = len == 0 || t.serialize_to(&mut buf[..len - 1]).is_err();
                t.serialize_to(&mut buf).unwrap();
                let back = Tuple::deserialize_from(&buf[..if c["slack"] == 1 { used + 16 } else { used }]);
                match back {
                    Ok(x) if small => json!(x.get_values().iter().map(tok).collect::<Vec<_>>()),
                    Ok(_) => json!(["short buffer accepted"]),
                    Err(e) => json!([format!("error {e}")]),
                }
            },
            _ => panic!("harness: op {op}"),
        };
        log.ok(&e, r);
    }
}

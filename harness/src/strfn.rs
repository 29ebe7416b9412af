//! String functions and predicates, recorded for spec/StrFn.tla: as expressions over one tuple ("expr"), over a
//! joined pair of tuples ("join"), and parsed from SQL text ("sql").
use crate::{Log, st};
use ferrite::catalog::Catalog;
use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::rid::RID;
use ferrite::concurrency::transaction_manager_factory::TransactionManagerFactory;
use ferrite::sql::execution::expression_parser::ExpressionParser;
use ferrite::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
use ferrite::sql::execution::expressions::column_value_expression::ColumnRefExpression;
use ferrite::sql::execution::expressions::like_expression::LikeExpression;
use ferrite::sql::execution::expressions::overlay_expression::OverlayExpression;
use ferrite::sql::execution::expressions::position_expression::PositionExpression;
use ferrite::sql::execution::expressions::string_expression::{StringExpression, StringExpressionType};
use ferrite::sql::execution::expressions::substring_expression::SubstringExpression;
use ferrite::sql::execution::expressions::trim_expression::{TrimExpression, TrimType};
use ferrite::storage::table::tuple::Tuple;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::{Val, Value};
use parking_lot::RwLock;
use serde_json::{Value as J, json};
use sqlparser::dialect::GenericDialect;
use sqlparser::parser::Parser;
use std::sync::Arc;

/// [text, type] or [null, type] or [number, type]
fn arg(j: &J) -> (Value, TypeId, J) {
    let ty = crate::values::tid(j[1].as_str().expect("harness: arg type"));
    let text = matches!(ty, TypeId::VarChar | TypeId::Char);
    if j[0].is_null() {
        return (Value::new_with_type(Val::Null, ty), ty, json!({"k": "n", "s": [], "i": 0}));
    }
    if text {
        let s = j[0].as_str().expect("harness: text");
        let v = if ty == TypeId::Char { Val::ConstLen(s.into()) } else { Val::VarLen(s.into()) };
        return (Value::new_with_type(v, ty), ty, json!({"k": "s", "s": cps(s), "i": 0}));
    }
    let n = j[0].as_i64().expect("harness: number");
    let v = match ty {
        TypeId::TinyInt => Val::TinyInt(n as i8),
        TypeId::SmallInt => Val::SmallInt(n as i16),
        TypeId::Integer => Val::Integer(n as i32),
        _ => Val::BigInt(n),
    };
    // positions and lengths far outside any string are all alike
    (Value::new_with_type(v, ty), ty, json!({"k": "i", "s": [], "i": n.clamp(-1_000_000, 1_000_000)}))
}

fn cps(s: &str) -> Vec<u32> {
    s.chars().map(|c| c as u32).collect()
}

fn res(r: Result<Value, String>) -> J {
    match r {
        Err(_) => json!({"k": "err", "v": []}),
        Ok(v) => match v.get_val() {
            Val::Null => json!({"k": "null", "v": []}),
            Val::VarLen(s) | Val::ConstLen(s) => json!({"k": "str", "v": cps(s)}),
            Val::Boolean(b) => json!({"k": "bool", "v": [*b as u32]}),
            Val::Integer(n) => json!({"k": "int", "v": [n]}),
            Val::BigInt(n) => json!({"k": "int", "v": [n]}),
            _ => json!({"k": "other", "v": []}),
        },
    }
}

fn build(c: &J, a: &[Arc<Expression>]) -> Expression {
    let vc = || Column::new("r", TypeId::VarChar);
    match st(c, "op") {
        "sub" => Expression::Substring(SubstringExpression::new(a[0].clone(), a[1].clone(), a.get(2).cloned())),
        "trim" => Expression::Trim(TrimExpression::new(
            match st(c, "side") {
                "LEADING" => TrimType::Leading,
                "TRAILING" => TrimType::Trailing,
                _ => TrimType::Both,
            },
            a.to_vec(),
            vc(),
        )),
        "pos" => Expression::Position(PositionExpression::new(a[0].clone(), a[1].clone())),
        "over" => Expression::Overlay(OverlayExpression::new(a[0].clone(), a[1].clone(), a[2].clone(), a.get(3).cloned(), vc())),
        "upper" => Expression::String(StringExpression::new(a[0].clone(), StringExpressionType::Upper, vec![a[0].clone()])),
        "lower" => Expression::String(StringExpression::new(a[0].clone(), StringExpressionType::Lower, vec![a[0].clone()])),
        "like" => Expression::Like(LikeExpression::new(
            a[0].clone(),
            a[1].clone(),
            c["esc"].as_str().and_then(|s| s.chars().next()),
            c["neg"] == 1,
            c["ci"] != 1,
            Column::new("r", TypeId::Boolean),
        )),
        o => panic!("harness: op {o}"),
    }
}

fn sql(c: &J, n: usize) -> String {
    match st(c, "op") {
        "sub" if n == 3 => "SUBSTRING(a0 FROM a1 FOR a2)".into(),
        "sub" => "SUBSTRING(a0 FROM a1)".into(),
        "trim" if n == 2 => format!("TRIM({} a1 FROM a0)", st(c, "side")),
        "trim" => format!("TRIM({} a0)", st(c, "side")),
        "pos" => "POSITION(a0 IN a1)".into(),
        "over" if n == 4 => "OVERLAY(a0 PLACING a1 FROM a2 FOR a3)".into(),
        "over" => "OVERLAY(a0 PLACING a1 FROM a2)".into(),
        "upper" => "UPPER(a0)".into(),
        "lower" => "LOWER(a0)".into(),
        _ => format!(
            "a0 {}{} a1{}",
            if c["neg"] == 1 { "NOT " } else { "" },
            if c["ilike"] == 1 { "ILIKE" } else { "LIKE" },
            c["esc"].as_str().map(|e| format!(" ESCAPE '{e}'")).unwrap_or_default()
        ),
    }
}

pub fn run(_cfg: &J, cmds: &[J], log: &Log) {
    let mut parser = None;
    for c in cmds {
        let args: Vec<(Value, TypeId, J)> = c["args"].as_array().expect("harness: args").iter().map(arg).collect();
        let mut e = c.clone();
        e["a"] = json!(args.iter().map(|x| x.2.clone()).collect::<Vec<_>>());
        e["args"] = json!(c["args"].to_string());
        e["esc"] = json!(c["esc"].as_str().map(cps).unwrap_or_default());
        let col = |j: usize| Column::new(&format!("a{j}"), args[j].1);
        let tup = |js: &[usize]| {
            let sch = Schema::new(js.iter().map(|j| col(*j)).collect());
            let vs: Vec<Value> = js.iter().map(|j| args[*j].0.clone()).collect();
            (Tuple::new(&vs, &sch, RID::new(1, 0)), sch)
        };
        let all: Vec<usize> = (0..args.len()).collect();
        let r = match st(c, "via") {
            "expr" => {
                let (t, sch) = tup(&all);
                let refs: Vec<_> = all.iter().map(|j| Arc::new(Expression::ColumnRef(ColumnRefExpression::new(0, *j, col(*j), vec![])))).collect();
                build(c, &refs).evaluate(&t, &sch).map_err(|e| e.to_string())
            },
            "join" => {
                let (l, r): (Vec<usize>, Vec<usize>) = all.iter().partition(|j| *j % 2 == 0);
                let ((lt, ls), (rt, rs)) = (tup(&l), tup(&r));
                let refs: Vec<_> = all.iter().map(|j| Arc::new(Expression::ColumnRef(ColumnRefExpression::new(j % 2, j / 2, col(*j), vec![])))).collect();
                build(c, &refs).evaluate_join(&lt, &ls, &rt, &rs).map_err(|e| e.to_string())
            },
            _ => {
                let p = parser.get_or_insert_with(|| {
                    let pool = crate::exthash::big_pool(64);
                    let fac = TransactionManagerFactory::new(pool.2.clone());
                    let cat = Catalog::new(pool.2.clone(), fac.get_transaction_manager());
                    (ExpressionParser::new(Arc::new(RwLock::new(cat))), pool)
                });
                let (t, sch) = tup(&all);
                let ast = Parser::new(&GenericDialect).try_with_sql(&sql(c, args.len())).and_then(|mut q| q.parse_expr()).expect("harness: sql");
                p.0.parse_expression(&ast, &sch).and_then(|x| x.evaluate(&t, &sch).map_err(|e| e.to_string()))
            },
        };
        log.ok(&e, res(r));
    }
}

//! Query and DML execution: plans given as JSON are built, executed by the real executors and recorded for spec/Sql.tla.
use crate::exthash::big_pool;
use crate::locks::iso;
use crate::values::tid;
use crate::{Log, i, st, u};
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::catalog::Catalog;
use ferrite::catalog::column::{Column, ForeignKeyConstraint};
use ferrite::catalog::schema::Schema;
use ferrite::common::rid::RID;
use ferrite::concurrency::transaction_manager_factory::TransactionManagerFactory;
use ferrite::sql::execution::execution_context::ExecutionContext;
use ferrite::sql::execution::expressions::abstract_expression::{Expression, ExpressionOps};
use ferrite::sql::execution::expressions::aggregate_expression::{AggregateExpression, AggregationType};
use ferrite::sql::execution::expressions::arithmetic_expression::{ArithmeticExpression, ArithmeticOp};
use ferrite::sql::execution::expressions::assignment_expression::AssignmentExpression;
use ferrite::sql::execution::expressions::between_expression::BetweenExpression;
use ferrite::sql::execution::expressions::case_expression::CaseExpression;
use ferrite::sql::execution::expressions::coalesce_expression::CoalesceExpression;
use ferrite::sql::execution::expressions::column_value_expression::ColumnRefExpression;
use ferrite::sql::execution::expressions::comparison_expression::{ComparisonExpression, ComparisonType};
use ferrite::sql::execution::expressions::constant_value_expression::ConstantExpression;
use ferrite::sql::execution::expressions::in_expression::InExpression;
use ferrite::sql::execution::expressions::is_check_expression::{IsCheckExpression, IsCheckType};
use ferrite::sql::execution::expressions::is_distinct_expression::IsDistinctExpression;
use ferrite::sql::execution::expressions::like_expression::LikeExpression;
use ferrite::sql::execution::expressions::logic_expression::{LogicExpression, LogicType};
use ferrite::sql::execution::expressions::unary_op_expression::UnaryOpExpression;
use ferrite::sql::execution::plans::abstract_plan::{AbstractPlanNode, PlanNode};
use ferrite::sql::execution::plans::aggregation_plan::AggregationPlanNode;
use ferrite::sql::execution::plans::delete_plan::DeleteNode;
use ferrite::sql::execution::plans::distinct_plan::DistinctNode;
use ferrite::sql::execution::plans::filter_plan::FilterNode;
use ferrite::sql::execution::plans::hash_join_plan::HashJoinNode;
use ferrite::sql::execution::plans::index_scan_plan::IndexScanNode;
use ferrite::sql::execution::plans::insert_plan::InsertNode;
use ferrite::sql::execution::plans::limit_plan::LimitNode;
use ferrite::sql::execution::plans::nested_index_join_plan::NestedIndexJoinNode;
use ferrite::sql::execution::plans::nested_loop_join_plan::NestedLoopJoinNode;
use ferrite::sql::execution::plans::offset_plan::OffsetNode;
use ferrite::sql::execution::plans::projection_plan::ProjectionNode;
use ferrite::sql::execution::plans::seq_scan_plan::SeqScanPlanNode;
use ferrite::sql::execution::plans::sort_plan::{OrderBySpec, OrderDirection, SortNode};
use ferrite::sql::execution::plans::table_scan_plan::TableScanNode;
use ferrite::sql::execution::plans::topn_per_group_plan::TopNPerGroupNode;
use ferrite::sql::execution::plans::topn_plan::TopNNode;
use ferrite::sql::execution::plans::update_plan::UpdateNode;
use ferrite::sql::execution::plans::values_plan::ValuesNode;
use ferrite::sql::execution::check_option::{CheckOption, CheckOptions};
use ferrite::sql::optimizer::Optimizer;
use ferrite::sql::planner::logical_plan::{LogicalPlan, LogicalToPhysical};
use ferrite::sql::execution::transaction_context::TransactionContext;
use ferrite::storage::index::IndexType;
use ferrite::storage::table::transactional_table_heap::TransactionalTableHeap;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::{Val, Value};
use parking_lot::RwLock;
use serde_json::{Value as J, json};
use sqlparser::ast::{JoinConstraint, JoinOperator, UnaryOperator};
use std::sync::Arc;

type Ex = Arc<Expression>;
const SCALE: f64 = 1000.0;

fn arr(j: &J) -> &Vec<J> {
    j.as_array().unwrap_or_else(|| panic!("harness: array {j}"))
}
fn s(j: &J) -> &str {
    j.as_str().unwrap_or_else(|| panic!("harness: string {j}"))
}
fn n(j: &J) -> i64 {
    j.as_i64().unwrap_or_else(|| panic!("harness: number {j}"))
}

/// a value of the given column type from [kind, payload]
pub fn val(j: &J, t: TypeId) -> Value {
    let p = arr(&j[1]);
    let v = match n(&j[0]) {
        0 => Val::Null,
        1 | 4 => {
            let x = n(&p[0]) as f64 / if n(&j[0]) == 4 { SCALE } else { 1.0 };
            match t {
                TypeId::TinyInt => Val::TinyInt(x as i8),
                TypeId::SmallInt => Val::SmallInt(x as i16),
                TypeId::BigInt => Val::BigInt(x as i64),
                TypeId::Decimal => Val::Decimal(x),
                TypeId::Float => Val::Float(x as f32),
                _ => Val::Integer(x as i32),
            }
        },
        2 => {
            let x: String = p.iter().map(|c| char::from_u32(n(c) as u32).unwrap()).collect();
            if t == TypeId::Char { Val::ConstLen(x) } else { Val::VarLen(x) }
        },
        3 => Val::Boolean(n(&p[0]) == 1),
        k => panic!("harness: value kind {k}"),
    };
    Value::new_with_type(v, t)
}
pub fn enc(v: &Value) -> J {
    let real = |f: f64| {
        let x = (f * SCALE).round();
        if x.abs() < 2e9 { json!([4, [x as i64]]) } else { json!([9, []]) }
    };
    let int = |x: i64| if x.abs() < 2_000_000_000 { json!([1, [x]]) } else { json!([9, []]) };
    match v.get_val() {
        Val::Null => json!([0, []]),
        Val::TinyInt(x) => int(*x as i64),
        Val::SmallInt(x) => int(*x as i64),
        Val::Integer(x) => int(*x as i64),
        Val::BigInt(x) => int(*x),
        Val::Decimal(x) => real(*x),
        Val::Float(x) => real(*x as f64),
        Val::Boolean(b) => json!([3, [*b as i64]]),
        Val::VarLen(x) | Val::ConstLen(x) => json!([2, x.chars().map(|c| c as u32).collect::<Vec<_>>()]),
        _ => json!([9, []]),
    }
}
fn bool_col() -> Column {
    Column::new("b", TypeId::Boolean)
}

/// An expression over a row of `cols`; in a join predicate the first `left` columns belong to the left row.
pub fn expr(e: &J, cols: &[Column], left: Option<usize>) -> Ex {
    let x = |k: usize| expr(&e[k], cols, left);
    let opt = |j: &J| if arr(j).is_empty() { None } else { Some(expr(j, cols, left)) };
    Arc::new(match s(&e[0]) {
        "c" => {
            let k = n(&e[1]) as usize;
            let tup = matches!(left, Some(l) if k >= l) as usize;
            Expression::ColumnRef(ColumnRefExpression::new(tup, k, cols[k].clone(), vec![]))
        },
        "k" => {
            let t = tid(s(&e[2]));
            Expression::Constant(ConstantExpression::new(val(&e[1], t), Column::new("k", t), vec![]))
        },
        "cmp" => {
            let op = match s(&e[1]) {
                "=" => ComparisonType::Equal,
                "<>" => ComparisonType::NotEqual,
                "<" => ComparisonType::LessThan,
                "<=" => ComparisonType::LessThanOrEqual,
                ">" => ComparisonType::GreaterThan,
                _ => ComparisonType::GreaterThanOrEqual,
            };
            Expression::Comparison(ComparisonExpression::new(x(2), x(3), op, vec![x(2), x(3)]))
        },
        "ar" => {
            let op = match s(&e[1]) {
                "+" => ArithmeticOp::Add,
                "-" => ArithmeticOp::Subtract,
                "*" => ArithmeticOp::Multiply,
                _ => ArithmeticOp::Divide,
            };
            Expression::Arithmetic(ArithmeticExpression::new(op, vec![x(2), x(3)]))
        },
        "neg" => Expression::UnaryOp(UnaryOpExpression::new(x(1), UnaryOperator::Minus).expect("unary minus")),
        "and" => Expression::Logic(LogicExpression::new(x(1), x(2), LogicType::And, vec![x(1), x(2)])),
        "or" => Expression::Logic(LogicExpression::new(x(1), x(2), LogicType::Or, vec![x(1), x(2)])),
        "not" => {
            if e[2] == json!(1) {
                Expression::Logic(LogicExpression::new_not(x(1)))
            } else {
                Expression::UnaryOp(UnaryOpExpression::new(x(1), UnaryOperator::Not).expect("not"))
            }
        },
        "is" => {
            let negated = n(&e[2]) == 1;
            let t = match s(&e[1]) {
                "null" => IsCheckType::Null { negated },
                "unknown" => IsCheckType::Unknown { negated },
                "true" => IsCheckType::True { negated },
                _ => IsCheckType::False { negated },
            };
            Expression::IsCheck(IsCheckExpression::new(x(3), t, bool_col()))
        },
        "dist" => Expression::IsDistinct(IsDistinctExpression::new(x(2), x(3), n(&e[1]) == 1, bool_col())),
        "btw" => Expression::Between(BetweenExpression::new(x(2), x(3), x(4), n(&e[1]) == 1, bool_col())),
        "in" => {
            let list: Vec<Value> = arr(&e[3]).iter().map(|k| val(&k[1], tid(s(&k[2])))).collect();
            let list = Arc::new(Expression::Constant(ConstantExpression::new_vector(list, vec![])));
            Expression::In(InExpression::new_list(x(2), list, n(&e[1]) == 1, bool_col()))
        },
        "like" => {
            let esc = char::from_u32(n(&e[5]) as u32).filter(|c| *c != '\0');
            Expression::Like(LikeExpression::new(x(3), x(4), esc, n(&e[1]) == 1, n(&e[2]) == 0, bool_col()))
        },
        "case" => {
            let w = arr(&e[2]);
            let p = |k: usize| w.iter().map(|y| expr(&y[k], cols, left)).collect::<Vec<_>>();
            Expression::Case(CaseExpression::new(opt(&e[1]), p(0), p(1), opt(&e[3])).expect("case"))
        },
        "coal" => {
            let xs: Vec<Ex> = arr(&e[1]).iter().map(|y| expr(y, cols, left)).collect();
            let t = xs[0].get_return_type().clone();
            Expression::Coalesce(CoalesceExpression::new(xs, t))
        },
        o => panic!("harness: expression {o}"),
    })
}

fn join_type(t: &str) -> JoinOperator {
    let c = JoinConstraint::None;
    match t {
        "inner" => JoinOperator::Inner(c),
        "left" => JoinOperator::LeftOuter(c),
        "right" => JoinOperator::RightOuter(c),
        "full" => JoinOperator::FullOuter(c),
        _ => JoinOperator::CrossJoin(c),
    }
}
fn named(cols: Vec<(String, TypeId)>) -> Schema {
    Schema::new(cols.into_iter().map(|(a, t)| Column::new(&a, t)).collect())
}

pub struct Db {
    pub fac: TransactionManagerFactory,
    pub catalog: Arc<RwLock<Catalog>>,
    pub bpm: Arc<BufferPoolManager>,
    names: Vec<String>,
    txn: Option<Arc<TransactionContext>>,
    /// the open transactions of other clients, who only read
    readers: std::collections::HashMap<usize, Arc<TransactionContext>>,
    /// a statement of the open transaction has failed: it can only be rolled back
    failed: bool,
    iso: String,
}

impl Db {
    pub fn new(bpm: Arc<BufferPoolManager>, cfg: &J) -> Self {
        let fac = TransactionManagerFactory::new(bpm.clone());
        let catalog = Arc::new(RwLock::new(Catalog::new(bpm.clone(), fac.get_transaction_manager())));
        let mut names = vec![];
        for t in arr(&cfg["tables"]) {
            let cols = arr(&t["cols"])
                .iter()
                .map(|c| {
                    let mut b = Column::builder(s(&c["n"]), tid(s(&c["t"])));
                    let on = |k: &str| c[k].as_i64() == Some(1);
                    if matches!(s(&c["t"]), "VarChar" | "Char") {
                        b = b.with_length(200);
                    }
                    if on("nn") {
                        b = b.as_not_null();
                    }
                    if on("uq") {
                        b = b.as_unique();
                    }
                    if on("pk") {
                        b = b.as_primary_key();
                    }
                    if let Some(k) = c["ck"].as_str().filter(|k| !k.is_empty()) {
                        b = b.with_check_constraint(k.to_string());
                    }
                    if let Some(d) = c["df"].as_array().and_then(|d| d.first()) {
                        b = b.with_default_value(val(d, tid(s(&c["t"]))));
                    }
                    if let Some([pt, pc]) = c["fk"].as_array().map(|f| f.as_slice()) {
                        let parent = &cfg["tables"][n(pt) as usize - 1];
                        b = b.with_foreign_key(ForeignKeyConstraint {
                            referenced_table: s(&parent["n"]).to_string(),
                            referenced_column: s(&parent["cols"][n(pc) as usize]["n"]).to_string(),
                            on_delete: None,
                            on_update: None,
                        });
                    }
                    b.build()
                })
                .collect();
            let name = s(&t["n"]).to_string();
            catalog.write().create_table(name.clone(), Schema::new(cols)).expect("create table");
            names.push(name);
        }
        Self { fac, catalog, bpm, names, txn: None, readers: Default::default(), failed: false, iso: "RC".into() }
    }
    fn name(&self, j: &J) -> &str {
        &self.names[n(j) as usize - 1]
    }
    fn table(&self, j: &J) -> ferrite::storage::table::table_heap::TableInfo {
        self.catalog.read().get_table(self.name(j)).expect("table lookup").clone()
    }

    pub fn plan(&self, p: &J) -> PlanNode {
        let last = arr(p).last().unwrap();
        let child = || self.plan(last);
        let cols = |c: &PlanNode| c.get_output_schema().get_columns().clone();
        let exprs = |j: &J, c: &[Column]| arr(j).iter().map(|e| expr(e, c, None)).collect::<Vec<_>>();
        match s(&p[0]) {
            "scan" => {
                let t = self.table(&p[1]);
                let sch = t.get_table_schema().clone();
                if s(&p[2]) == "seq" {
                    PlanNode::SeqScan(SeqScanPlanNode::new(sch, t.get_table_oidt(), self.name(&p[1]).into()))
                } else {
                    PlanNode::TableScan(TableScanNode::new(t, Arc::new(sch), None))
                }
            },
            "iscan" => {
                let t = self.table(&p[1]);
                let sch = t.get_table_schema().clone();
                let keys = exprs(&p[3], sch.get_columns());
                let cat = self.catalog.read();
                let ix = cat
                    .get_table_indexes(self.name(&p[1]))
                    .into_iter()
                    .find(|x| x.get_key_attrs() == &vec![n(&p[2]) as usize])
                    .expect("create index")
                    .clone();
                PlanNode::IndexScan(IndexScanNode::new(
                    sch, self.name(&p[1]).into(), t.get_table_oidt(), ix.get_index_name().clone(), ix.get_index_oid(), keys,
                ))
            },
            "values" => {
                let ty: Vec<TypeId> = arr(&p[2]).iter().map(|t| tid(s(t))).collect();
                let rows = arr(&p[1]).iter().map(|r| exprs(r, &[])).collect();
                PlanNode::Values(ValuesNode::new(named(ty.iter().enumerate().map(|(k, t)| (format!("v{k}"), *t)).collect()), rows, vec![]))
            },
            "filter" => {
                let c = child();
                let e = expr(&p[1], &cols(&c), None);
                PlanNode::Filter(FilterNode::new(c.get_output_schema().clone(), 0, String::new(), e, vec![c]))
            },
            "project" => {
                let c = child();
                let es = exprs(&p[1], &cols(&c));
                let sch = named(es.iter().enumerate().map(|(k, e)| (format!("p{k}"), e.get_return_type().get_type())).collect());
                let map = (0..es.len()).collect();
                PlanNode::Projection(ProjectionNode::new(sch, es, map).with_children(vec![c]))
            },
            "sort" => {
                let c = child();
                let by = arr(&p[1])
                    .iter()
                    .map(|k| OrderBySpec::new(expr(&k[0], &cols(&c), None), if n(&k[1]) == 1 { OrderDirection::Desc } else { OrderDirection::Asc }))
                    .collect();
                PlanNode::Sort(SortNode::new(c.get_output_schema().clone(), by, vec![c]))
            },
            "limit" => {
                let c = child();
                PlanNode::Limit(LimitNode::new(n(&p[1]) as usize, c.get_output_schema().clone(), vec![c]))
            },
            "offset" => {
                let c = child();
                PlanNode::Offset(OffsetNode::new(n(&p[1]) as usize, c.get_output_schema().clone(), vec![c]))
            },
            "distinct" => {
                let c = child();
                PlanNode::Distinct(DistinctNode::new(c.get_output_schema().clone()).with_children(vec![c]))
            },
            "topn" => {
                let c = child();
                let by = exprs(&p[1], &cols(&c));
                PlanNode::TopN(TopNNode::new(c.get_output_schema().clone(), by, n(&p[2]) as usize, vec![c]))
            },
            "topg" => {
                let c = child();
                let (by, gr) = (exprs(&p[1], &cols(&c)), exprs(&p[2], &cols(&c)));
                PlanNode::TopNPerGroup(TopNPerGroupNode::new(n(&p[3]) as usize, by, gr, c.get_output_schema().clone(), vec![c]))
            },
            "agg" => {
                let c = child();
                let gs = exprs(&p[1], &cols(&c));
                let aggs = arr(&p[2])
                    .iter()
                    .map(|a| {
                        let f = s(&a[0]);
                        let e = expr(&a[1], &cols(&c), None);
                        let (ty, name) = match f {
                            "count*" => (AggregationType::CountStar, "COUNT"),
                            "count" => (AggregationType::Count, "COUNT"),
                            "sum" => (AggregationType::Sum, "SUM"),
                            "min" => (AggregationType::Min, "MIN"),
                            "max" => (AggregationType::Max, "MAX"),
                            _ => (AggregationType::Avg, "AVG"),
                        };
                        let rt = match f {
                            "count*" | "count" => TypeId::BigInt,
                            "avg" => TypeId::Decimal,
                            _ => e.get_return_type().get_type(),
                        };
                        let kids = if f == "count*" { vec![] } else { vec![e] };
                        Arc::new(Expression::Aggregate(AggregateExpression::new(ty, kids, Column::new("agg", rt), name.into())))
                    })
                    .collect();
                PlanNode::Aggregation(AggregationPlanNode::new(vec![c], gs, aggs))
            },
            "join" => {
                let (l, r) = (self.plan(&p[4]), self.plan(&p[5]));
                let (ls, rs) = (l.get_output_schema().clone(), r.get_output_schema().clone());
                let mut all = ls.get_columns().clone();
                all.extend(rs.get_columns().iter().cloned());
                let lw = ls.get_column_count() as usize;
                let on = expr(&p[3], &all, Some(lw));
                let ty = join_type(s(&p[2]));
                let keys = |j: &J, side: &[Column]| arr(j).iter().map(|e| expr(e, side, None)).collect::<Vec<_>>();
                let (lk, rk) = (keys(&p[8], ls.get_columns()), keys(&p[9], rs.get_columns()));
                match s(&p[1]) {
                    "hash" => PlanNode::HashJoin(HashJoinNode::new(ls, rs, on, ty, lk, rk, vec![l, r])),
                    "nij" => PlanNode::NestedIndexJoin(NestedIndexJoinNode::new(ls, rs, on, ty, lk, rk, vec![l, r])),
                    _ => PlanNode::NestedLoopJoin(NestedLoopJoinNode::new(ls, rs, on, ty, lk, rk, vec![l, r])),
                }
            },
            o => panic!("harness: plan {o}"),
        }
    }

    /// the logical plan a physical one stands for
    fn logical(&self, p: &J) -> Box<LogicalPlan> {
        let sch = |p: &J| self.plan(p).get_output_schema().clone();
        let last = arr(p).last().unwrap();
        match (s(&p[0]), self.plan(p)) {
            ("scan", x) => LogicalPlan::table_scan(self.name(&p[1]).into(), x.get_output_schema().clone(), self.table(&p[1]).get_table_oidt()),
            ("values", PlanNode::Values(x)) => LogicalPlan::values(
                arr(&p[1]).iter().map(|r| arr(r).iter().map(|e| expr(e, &[], None)).collect()).collect(),
                x.get_output_schema().clone(),
            ),
            ("filter", _) => {
                let c = sch(last);
                let e = expr(&p[1], c.get_columns(), None);
                LogicalPlan::filter(c, String::new(), 0, e, self.logical(last))
            },
            ("project", x) => {
                let es = arr(&p[1]).iter().map(|e| expr(e, sch(last).get_columns(), None)).collect();
                LogicalPlan::project(es, x.get_output_schema().clone(), self.logical(last))
            },
            ("sort", PlanNode::Sort(x)) => LogicalPlan::sort(x.get_order_bys().to_vec(), x.get_output_schema().clone(), self.logical(last)),
            ("limit", x) => LogicalPlan::limit(n(&p[1]) as usize, x.get_output_schema().clone(), self.logical(last)),
            ("offset", x) => LogicalPlan::offset(n(&p[1]) as usize, x.get_output_schema().clone(), self.logical(last)),
            ("distinct", x) => LogicalPlan::distinct(x.get_output_schema().clone(), self.logical(last)),
            ("agg", PlanNode::Aggregation(x)) => {
                LogicalPlan::aggregate(x.get_group_bys().to_vec(), x.get_aggregates().to_vec(), x.get_output_schema().clone(), self.logical(last))
            },
            ("join", _) => {
                let (l, r) = (sch(&p[4]), sch(&p[5]));
                let mut all = l.get_columns().clone();
                all.extend(r.get_columns().iter().cloned());
                // as the parser does: columns are numbered over both sides
                let on = expr(&p[3], &all, None);
                let (a, b, ty) = (self.logical(&p[4]), self.logical(&p[5]), join_type(s(&p[2])));
                match s(&p[1]) {
                    "hash" => LogicalPlan::hash_join(l, r, on, ty, a, b),
                    "nij" => LogicalPlan::nested_index_join(l, r, on, ty, a, b),
                    _ => LogicalPlan::nested_loop_join(l, r, on, ty, a, b),
                }
            },
            (o, _) => panic!("harness: logical plan {o}"),
        }
    }
    /// what the optimizer and the conversion make of a plan
    fn optimized(&self, c: &J, lp: Box<LogicalPlan>) -> Result<PlanNode, String> {
        let mut opts = CheckOptions::new();
        if c["nlj"] == 1 {
            opts.add_check(CheckOption::EnableNljCheck);
        }
        if c["top"] == 1 {
            opts.add_check(CheckOption::EnableTopnCheck);
        }
        let p = Optimizer::new(self.catalog.clone()).optimize(lp, Arc::new(opts)).map_err(|e| e.to_string())?;
        p.to_physical_plan()
    }

    /// runs a plan to its end: the rows, or the error
    fn execute(&self, p: &PlanNode, ctx: Arc<TransactionContext>) -> Result<Vec<J>, String> {
        let ec = Arc::new(RwLock::new(ExecutionContext::new(self.bpm.clone(), self.catalog.clone(), ctx)));
        let mut ex = p.create_executor(ec)?;
        ex.init();
        let mut out = vec![];
        loop {
            match ex.next() {
                Ok(Some((t, _))) => out.push(J::Array(t.get_values().iter().map(enc).collect())),
                Ok(None) => break,
                Err(e) => return Err(e.to_string()),
            }
            if out.len() > 20000 {
                return Err("harness: endless result".into());
            }
        }
        // an exhausted executor stays exhausted
        match ex.next() {
            Ok(None) => Ok(out),
            Ok(Some(_)) => Err("harness: rows after the end".into()),
            Err(e) => Err(e.to_string()),
        }
    }
    /// runs f in the open transaction, or in one of its own
    fn within<T>(&self, rt: &tokio::runtime::Runtime, f: impl FnOnce(Arc<TransactionContext>) -> Result<T, String>) -> Result<T, String> {
        if let Some(x) = &self.txn {
            return f(x.clone());
        }
        let x = self.fac.begin_transaction(iso(&self.iso));
        match f(x.clone()) {
            Ok(v) => {
                if rt.block_on(self.fac.commit_transaction(x)) { Ok(v) } else { Err("harness: commit failed".into()) }
            },
            Err(e) => {
                self.fac.abort_transaction(x);
                Err(e)
            },
        }
    }
    fn one_count(rows: Vec<J>) -> J {
        // the number of rows changed is reported as one row, or not at all
        match rows.as_slice() {
            [] => json!([1, 0]),
            [r] => json!([1, r[0][1][0]]),
            _ => json!([1, -1]),
        }
    }

    pub fn exec(&mut self, c: &J, rt: &tokio::runtime::Runtime) -> (J, String) {
        let res: Result<J, String> = match st(c, "op") {
            "load" => {
                let t = self.table(&c["t"]);
                let h = TransactionalTableHeap::new(t.get_table_heap(), t.get_table_oidt());
                let sch = t.get_table_schema().clone();
                self.within(rt, |x| {
                    let mut rids = vec![];
                    for r in arr(&c["rows"]) {
                        let vs: Vec<Value> = arr(r).iter().zip(sch.get_columns()).map(|(v, k)| val(v, k.get_type())).collect();
                        rids.push(h.insert_tuple_from_values(vs, &sch, x.clone())?);
                    }
                    // rows deleted again, so that scans have something to skip
                    for d in c["gone"].as_array().unwrap_or(&vec![]) {
                        h.delete_tuple(rids[n(d) as usize], x.clone())?;
                    }
                    Ok(json!([1, 0]))
                })
            },
            "index" => {
                let t = self.table(&c["t"]);
                let k = u(c, "c");
                let sch = Schema::new(vec![t.get_table_schema().get_columns()[k].clone()]);
                let ok = self
                    .catalog
                    .write()
                    .create_index(&format!("ix_{}_{k}", self.name(&c["t"])), self.name(&c["t"]), sch, vec![k], 8, false, IndexType::BPlusTreeIndex)
                    .is_some();
                if ok { Ok(json!([1, 0])) } else { Err("index refused".into()) }
            },
            "begin" => {
                self.txn = Some(self.fac.begin_transaction(iso(c["iso"].as_str().unwrap_or("RC"))));
                Ok(json!([1, 0]))
            },
            "commit" if self.failed => {
                self.fac.abort_transaction(self.txn.take().expect("harness: no transaction"));
                self.failed = false;
                Ok(json!([3, []]))
            },
            "commit" => {
                let x = self.txn.take().expect("harness: no transaction");
                if rt.block_on(self.fac.commit_transaction(x)) { Ok(json!([1, 0])) } else { Err("commit failed".into()) }
            },
            "abort" => {
                let x = self.txn.take().expect("harness: no transaction");
                self.fac.abort_transaction(x);
                self.failed = false;
                Ok(json!([1, 0]))
            },
            "churn" => {
                for _ in 0..i(c, "n") {
                    let _ = self.bpm.new_page::<ferrite::storage::page::BasicPage>();
                }
                Ok(json!([1, 0]))
            },
            "q" => {
                let p = self.plan(&c["p"]);
                match self.within(rt, |x| self.execute(&p, x)) {
                    Ok(rows) => Ok(json!([1, rows])),
                    Err(e) => Err(e),
                }
            },
            "oq" => {
                let lp = self.logical(&c["p"]);
                match self.optimized(c, lp) {
                    Ok(p) => self.within(rt, |x| self.execute(&p, x)).map(|rows| json!([1, rows])),
                    Err(_) => Ok(json!([4, []])), // the plan is refused, and nothing is run
                }
            },
            "hold" => {
                self.readers.insert(u(c, "k"), self.fac.begin_transaction(iso(st(c, "iso"))));
                Ok(json!([1, 0]))
            },
            "rq" => {
                let x = self.readers[&u(c, "k")].clone();
                self.execute(&self.plan(&c["p"]), x).map(|rows| json!([1, rows]))
            },
            "drop" => {
                let x = self.readers.remove(&u(c, "k")).expect("harness: no reader");
                if c["end"] == "abort" {
                    self.fac.abort_transaction(x);
                    Ok(json!([1, 0]))
                } else if rt.block_on(self.fac.commit_transaction(x)) {
                    Ok(json!([1, 0]))
                } else {
                    Err("commit failed".into())
                }
            },
            "ins" => {
                let t = self.table(&c["t"]);
                let sch = t.get_table_schema().clone();
                let name = self.name(&c["t"]).to_string();
                let p = if c["opt"] == 1 {
                    match self.optimized(c, LogicalPlan::insert(name, sch, t.get_table_oidt(), self.logical(&c["p"]))) {
                        Ok(PlanNode::Insert(p)) => p,
                        _ => return (json!([2, []]), "harness: not an insert".into()),
                    }
                } else if st(c, "how") == "child" {
                    InsertNode::new(sch, t.get_table_oidt(), name, vec![], vec![self.plan(&c["p"])])
                } else {
                    let rows = arr(&c["rows"])
                        .iter()
                        .map(|r| arr(r).iter().zip(sch.get_columns()).map(|(v, k)| val(v, k.get_type())).collect())
                        .collect();
                    InsertNode::new(sch, t.get_table_oidt(), name, rows, vec![])
                };
                let p = PlanNode::Insert(p);
                self.within(rt, |x| self.execute(&p, x)).map(|_| json!([1, 0]))
            },
            "upd" => {
                let t = self.table(&c["t"]);
                let sch = t.get_table_schema().clone();
                let cols = sch.get_columns();
                let mut sets: Vec<Ex> = vec![];
                for y in arr(&c["sets"]) {
                    let k = n(&y[0]) as usize;
                    let e = expr(&y[1], cols, None);
                    if st(c, "how") == "assign" {
                        sets.push(Arc::new(Expression::Assignment(AssignmentExpression::new(k, cols[k].clone(), e))));
                    } else {
                        sets.push(Arc::new(Expression::ColumnRef(ColumnRefExpression::new(0, k, cols[k].clone(), vec![]))));
                        sets.push(e);
                    }
                }
                let name = self.name(&c["t"]).to_string();
                let p = if c["opt"] == 1 {
                    self.optimized(c, LogicalPlan::update(name, sch.clone(), t.get_table_oidt(), sets, self.logical(&c["p"])))
                } else {
                    Ok(PlanNode::Update(UpdateNode::new(sch.clone(), name, t.get_table_oidt(), sets, vec![self.plan(&c["p"])])))
                };
                p.and_then(|p| self.within(rt, |x| self.execute(&p, x))).map(Self::one_count)
            },
            "del" => {
                let t = self.table(&c["t"]);
                let (sch, name) = (t.get_table_schema().clone(), self.name(&c["t"]).to_string());
                let p = if c["opt"] == 1 {
                    self.optimized(c, LogicalPlan::delete(name, sch, t.get_table_oidt(), self.logical(&c["p"])))
                } else {
                    Ok(PlanNode::Delete(DeleteNode::new(sch, name, t.get_table_oidt(), vec![self.plan(&c["p"])])))
                };
                p.and_then(|p| self.within(rt, |x| self.execute(&p, x))).map(Self::one_count)
            },
            o => panic!("harness: op {o}"),
        };
        self.failed |= self.txn.is_some() && res.is_err() && !matches!(st(c, "op"), "hold" | "rq" | "drop");
        match res {
            Ok(r) => (r, String::new()),
            Err(e) if e.starts_with("harness: ") => (json!([2, []]), e),
            Err(e) => (json!([0, []]), e),
        }
    }
}

pub fn run(cfg: &J, cmds: &[J], log: &Log) {
    let (_dir, rt, bpm) = big_pool(u(cfg, "pool"));
    let _g = rt.r().enter();
    let mut db = Db::new(bpm, cfg);
    for c in cmds {
        let (r, msg) = db.exec(c, rt.r());
        let mut c = c.clone();
        // a transaction with a failed statement was rolled back instead
        let r = if r == json!([3, []]) {
            c["op"] = json!("abort");
            json!([1, 0])
        } else {
            r
        };
        if !msg.is_empty() {
            c["msg"] = json!(msg);
        }
        log.ok(&c, r);
    }
    let _ = RID::default();
}

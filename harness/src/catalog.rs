//! Databases, tables and indexes through the catalog (spec/Catalog.tla).
use crate::exthash::big_pool;
use crate::locks::iso;
use crate::{Log, i, st, u};
use ferrite::catalog::Catalog;
use ferrite::catalog::column::{Column, ForeignKeyConstraint};
use ferrite::catalog::schema::Schema;
use ferrite::concurrency::transaction_manager_factory::TransactionManagerFactory;
use ferrite::sql::execution::execution_context::ExecutionContext;
use ferrite::sql::execution::plans::abstract_plan::PlanNode;
use ferrite::sql::execution::plans::create_index_plan::CreateIndexPlanNode;
use ferrite::sql::execution::plans::create_table_plan::CreateTablePlanNode;
use ferrite::sql::execution::plans::index_scan_plan::IndexScanNode;
use ferrite::sql::execution::plans::insert_plan::InsertNode;
use ferrite::sql::execution::plans::seq_scan_plan::SeqScanPlanNode;
use ferrite::sql::execution::transaction_context::TransactionContext;
use ferrite::storage::index::IndexType;
use ferrite::storage::table::table_heap::TableInfo;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::{Val, Value};
use parking_lot::RwLock;
use serde_json::{Value as J, json};
use std::sync::Arc;

type Cat = Arc<RwLock<Catalog>>;
struct Cx {
    fac: TransactionManagerFactory,
    cat: Cat,
    bpm: Arc<ferrite::buffer::buffer_pool_manager_async::BufferPoolManager>,
}
fn list(j: &J) -> Vec<J> {
    j.as_array().cloned().unwrap_or_default()
}
fn text(j: &J) -> String {
    j.as_str().expect("harness: string").to_string()
}

impl Cx {
    fn execute(&self, p: &PlanNode, x: Arc<TransactionContext>) -> Result<Vec<Vec<Value>>, String> {
        let ec = Arc::new(RwLock::new(ExecutionContext::new(self.bpm.clone(), self.cat.clone(), x)));
        let mut ex = p.create_executor(ec)?;
        ex.init();
        let mut out = vec![];
        while let Some((t, _)) = ex.next().map_err(|e| e.to_string())? {
            out.push(t.get_values().clone());
        }
        Ok(out)
    }
    fn end(&self, rt: &tokio::runtime::Runtime, x: Arc<TransactionContext>, how: &str) {
        if how == "commit" {
            assert!(rt.block_on(self.fac.commit_transaction(x)), "commit failed");
        } else {
            self.fac.abort_transaction(x);
        }
    }
    fn read(&self, rt: &tokio::runtime::Runtime, p: &PlanNode) -> J {
        let x = self.fac.begin_transaction(iso("RC"));
        let r = self.execute(p, x.clone());
        self.end(rt, x, "commit");
        match r {
            Ok(rows) => json!(
                rows.iter()
                    .map(|r| r.iter().map(|v| if let Val::Integer(n) = v.get_val() { *n as i64 } else { -1 }).collect::<Vec<_>>())
                    .collect::<Vec<_>>()
            ),
            Err(e) => json!([[e]]),
        }
    }
    fn insert(&self, x: &Arc<TransactionContext>, t: &str, v: &J) -> Result<(), String> {
        let Some(info) = self.cat.read().get_table(t).cloned() else { return Err("no table".into()) };
        let sch = info.get_table_schema();
        let row = list(v).iter().map(|n| Value::new(n.as_i64().unwrap() as i32)).collect();
        self.execute(&PlanNode::Insert(InsertNode::new(sch, info.get_table_oidt(), t.into(), vec![row], vec![])), x.clone()).map(|_| ())
    }
    fn schema(c: &J) -> Schema {
        let fk = list(&c["fk"]);
        Schema::new(
            list(&c["cols"])
                .iter()
                .enumerate()
                .map(|(k, n)| {
                    let mut b = Column::builder(n.as_str().unwrap(), TypeId::Integer);
                    if k == 0 && !fk.is_empty() {
                        b = b.with_foreign_key(ForeignKeyConstraint {
                            referenced_table: text(&fk[0]),
                            referenced_column: text(&fk[1]),
                            on_delete: None,
                            on_update: None,
                        });
                    }
                    b.build()
                })
                .collect(),
        )
    }
    fn same(a: &TableInfo, b: &TableInfo) -> bool {
        a.get_table_name() == b.get_table_name() && a.get_table_oidt() == b.get_table_oidt() && a.get_table_schema() == b.get_table_schema()
    }
    /// everything the current database shows
    fn show(&self, rt: &tokio::runtime::Runtime, names: &[String]) -> J {
        let cat = self.cat.read();
        let dbname = cat.get_current_database_name().cloned().unwrap_or_default();
        let db = cat.get_current_database().expect("no current database");
        let mut here = cat.get_table_names();
        here.sort();
        let mut all = cat.get_all_tables();
        all.sort();
        let mut infos: Vec<String> = db.get_all_table_info().iter().map(|t| t.get_table_name().to_string()).collect();
        infos.sort();
        let mut fine = here == all && here == infos && db.get_name() == dbname;
        fine &= cat.get_database(&dbname).is_some_and(|d| d.get_oid() == db.get_oid());
        let (mut tabs, mut ixs, mut todo) = (vec![], vec![], vec![]);
        let mut ids = vec![];
        for n in &here {
            let Some(t) = cat.get_table(n) else {
                fine = false;
                continue;
            };
            ids.push(t.get_table_oidt());
            let sch = t.get_table_schema();
            let ok = t.get_table_name() == n
                && cat.get_table_by_oid(t.get_table_oidt()).is_some_and(|u| Self::same(t, u) && Arc::ptr_eq(&t.get_table_heap(), &u.get_table_heap()))
                && db.get_table(n).is_some_and(|u| Self::same(t, u))
                && cat.get_table_schema(n) == Some(sch.clone())
                && cat.get_table_columns(n).as_ref() == Some(sch.get_columns())
                && cat.get_table_heap(n).is_some_and(|h| Arc::ptr_eq(&h, &t.get_table_heap()))
                && t.get_table_heap().get_table_oid() == t.get_table_oidt();
            let cols: Vec<String> = sch.get_columns().iter().map(|c| c.get_name().to_string()).collect();
            todo.push(PlanNode::SeqScan(SeqScanPlanNode::new(sch.clone(), t.get_table_oidt(), n.clone())));
            tabs.push(vec![json!(n), json!(t.get_table_oidt()), json!(cols), json!(ok as i32)]);
            let mut ix = cat.get_table_indexes(n);
            ix.sort_by_key(|x| x.get_index_name().clone());
            for x in ix {
                let ok = cat.get_index_by_index_oid(x.get_index_oid()).is_some_and(|(y, _)| Arc::ptr_eq(x, &y)) && x.get_key_attrs().len() == 1;
                ixs.push((
                    vec![json!(x.get_index_name()), json!(x.get_index_oid()), json!(x.get_table_name()), json!(x.get_key_attrs()[0]), json!(ok as i32)],
                    PlanNode::IndexScan(IndexScanNode::new(sch.clone(), n.clone(), t.get_table_oidt(), x.get_index_name().clone(), x.get_index_oid(), vec![])),
                ));
            }
        }
        for n in names.iter().filter(|n| !here.contains(n)) {
            fine &= cat.get_table(n).is_none() && cat.get_table_schema(n).is_none() && cat.get_table_heap(n).is_none() && cat.get_table_columns(n).is_none();
            fine &= cat.get_table_indexes(n).is_empty();
        }
        for o in (0..40).filter(|o| !ids.contains(o)) {
            fine &= cat.get_table_by_oid(o).is_none();
        }
        let oid = db.get_oid();
        let known: Vec<u64> = ixs.iter().map(|x| x.0[1].as_u64().unwrap()).collect();
        for o in (0..20).filter(|o| !known.contains(o)) {
            fine &= cat.get_index_by_index_oid(o as _).is_none();
        }
        drop(cat);
        for (t, p) in tabs.iter_mut().zip(&todo) {
            t.push(self.read(rt, p));
        }
        let ixs: Vec<J> = ixs
            .into_iter()
            .map(|(mut x, p)| {
                x.push(self.read(rt, &p));
                json!(x)
            })
            .collect();
        json!([dbname, oid, tabs, ixs, fine as i32])
    }
    fn exec(&self, c: &J, rt: &tokio::runtime::Runtime, names: &[String]) -> J {
        let yes = |o: u64| json!([1, o]);
        let no = json!([0, 0]);
        match st(c, "op") {
            "createdb" => {
                let n = st(c, "n");
                if !self.cat.write().create_database(n.to_string()) {
                    return no;
                }
                self.cat.read().get_database(n).map_or(json!([2, 0]), |d| yes(d.get_oid()))
            },
            "use" => {
                if self.cat.write().use_database(st(c, "n")) { yes(0) } else { no }
            },
            "table" => {
                let (n, sch) = (st(c, "n"), Self::schema(c));
                if st(c, "how") == "api" {
                    return self.cat.write().create_table(n.into(), sch).map_or(no, |t| yes(t.get_table_oidt()));
                }
                let x = self.fac.begin_transaction(iso("RC"));
                let r = self.execute(&PlanNode::CreateTable(CreateTablePlanNode::new(sch, n.into(), false)), x.clone());
                self.end(rt, x, "commit");
                if r.is_err() {
                    return no;
                }
                self.cat.read().get_table(n).map_or(json!([2, 0]), |t| yes(t.get_table_oidt()))
            },
            "index" => {
                let (n, t, k) = (st(c, "n"), st(c, "t"), u(c, "c"));
                let sch = Schema::new(vec![Column::new(["x", "y"][k], TypeId::Integer)]);
                if st(c, "how") == "api" {
                    let r = self.cat.write().create_index(n, t, sch, vec![k], 4, false, IndexType::BPlusTreeIndex);
                    return r.map_or(no, |(x, _)| yes(x.get_index_oid()));
                }
                // the executor does not say whether it created one
                let ids = || -> Vec<u64> { self.cat.read().get_table_indexes(t).iter().map(|x| x.get_index_oid()).collect() };
                let old = ids();
                let x = self.fac.begin_transaction(iso("RC"));
                let _ = self.execute(&PlanNode::CreateIndex(CreateIndexPlanNode::new(sch, t.into(), n.into(), vec![k], false)), x.clone());
                self.end(rt, x, "commit");
                ids().iter().find(|o| !old.contains(o)).map_or(no, |o| yes(*o))
            },
            "row" => {
                let x = self.fac.begin_transaction(iso("RC"));
                let r = self.insert(&x, st(c, "t"), &c["v"]);
                self.end(rt, x, if r.is_ok() { st(c, "end") } else { "abort" });
                if r.is_ok() { yes(0) } else { no }
            },
            "pair" => {
                let back = self.cat.read().get_current_database_name().cloned().unwrap();
                let mut open = vec![];
                let mut ok = true;
                for k in ["a", "b"] {
                    let x = self.fac.begin_transaction(iso("RC"));
                    ok &= self.cat.write().use_database(c[k][0].as_str().unwrap());
                    ok = ok && self.insert(&x, c[k][1].as_str().unwrap(), &c[k][2]).is_ok();
                    open.push(Some(x));
                }
                self.cat.write().use_database(&back);
                for k in if i(c, "ord") == 0 { [0, 1] } else { [1, 0] } {
                    self.end(rt, open[k].take().unwrap(), if ok { st(c, ["ea", "eb"][k]) } else { "abort" });
                }
                if ok { yes(0) } else { no }
            },
            "look" => {
                let back = self.cat.read().get_current_database_name().cloned().unwrap_or_default();
                let mut dbs = self.cat.read().get_database_names();
                dbs.sort();
                let mut out = vec![];
                for d in dbs {
                    assert!(self.cat.write().use_database(&d), "cannot use {d}");
                    out.push(self.show(rt, names));
                }
                self.cat.write().use_database(&back);
                json!([back, out])
            },
            o => panic!("harness: op {o}"),
        }
    }
}

pub fn run(cfg: &J, cmds: &[J], log: &Log) {
    let (_dir, rt, bpm) = big_pool(u(cfg, "pool"));
    let _g = rt.r().enter();
    let fac = TransactionManagerFactory::new(bpm.clone());
    let cat = Arc::new(RwLock::new(Catalog::new(bpm.clone(), fac.get_transaction_manager())));
    let cx = Cx { fac, cat, bpm };
    let names: Vec<String> = ["a", "b", "c", "zz", "A", ""].iter().map(|x| x.to_string()).collect();
    for c in cmds {
        let r = cx.exec(c, rt.r(), &names);
        log.ok(c, r);
    }
}

use crate::exthash::big_pool;
use crate::heap::{decode, schema, text};
use crate::locks::iso;
use crate::{Log, i, st, u};
use ferrite::common::rid::RID;
use ferrite::concurrency::transaction::TransactionState;
use ferrite::concurrency::transaction_manager_factory::TransactionManagerFactory;
use ferrite::sql::execution::transaction_context::TransactionContext;
use ferrite::storage::page::BasicPage;
use ferrite::storage::table::table_heap::TableHeap;
use ferrite::storage::table::transactional_table_heap::TransactionalTableHeap;
use ferrite::storage::table::tuple::{Tuple, TupleMeta};
use ferrite::types_db::value::Value as V;
use parking_lot::RwLock;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::sync::Arc;

/// rows, transactions and tables of one case, shared by its client threads
pub struct World {
    fac: TransactionManagerFactory,
    heaps: Vec<Arc<TransactionalTableHeap>>,
    txns: RwLock<Vec<Option<Arc<TransactionContext>>>>,
    /// None: not inserted yet (only when the script numbers the rows)
    rows: RwLock<Vec<Option<(usize, RID)>>>,
    num: RwLock<HashMap<(usize, RID), usize>>,
    bpm: Arc<ferrite::buffer::buffer_pool_manager_async::BufferPoolManager>,
}

fn vals(c: &Value) -> Vec<V> {
    vec![V::new(i(c, "n") as i32), V::new(text(i(c, "n"), i(c, "l")))]
}

impl World {
    pub fn new(bpm: Arc<ferrite::buffer::buffer_pool_manager_async::BufferPoolManager>) -> Self {
        let fac = TransactionManagerFactory::new(bpm.clone());
        let heaps: Vec<_> = (0..2)
            .map(|n| Arc::new(TransactionalTableHeap::new(Arc::new(TableHeap::new(bpm.clone(), 50 + n)), 50 + n)))
            .collect();
        for h in &heaps {
            fac.get_transaction_manager().register_table(h.clone());
        }
        Self { fac, heaps, txns: Default::default(), rows: Default::default(), num: Default::default(), bpm }
    }

    pub fn heaps(&self) -> &[Arc<TransactionalTableHeap>] {
        &self.heaps
    }
    pub fn rows(&self) -> Vec<(usize, RID)> {
        self.rows.read().iter().flatten().copied().collect()
    }

    pub fn exec(&self, c: &Value, rt: &tokio::runtime::Handle) -> Value {
        let tm = self.fac.get_transaction_manager();
        let ctx = c["t"].as_u64().and_then(|t| self.txns.read().get(t as usize - 1).cloned().flatten());
        let row = c["k"].as_u64().and_then(|k| self.rows.read()[k as usize - 1]);
        let ctx = || ctx.clone().unwrap();
        match st(c, "op") {
            "begin" => {
                let x = self.fac.begin_transaction(iso(st(c, "iso")));
                let ts = x.get_transaction().read_ts();
                match c["t"].as_u64() {
                    Some(t) => self.txns.write()[t as usize - 1] = Some(x),
                    None => self.txns.write().push(Some(x)),
                }
                json!(ts)
            }
            "ins" => {
                let tb = u(c, "tb");
                let h = &self.heaps[tb];
                let r = match c["how"].as_i64().unwrap_or(0) {
                    0 => h.insert_tuple_from_values(vals(c), &schema(), ctx()),
                    1 => h.insert_tuple_from_values_with_catalog(vals(c), &schema(), ctx()),
                    _ => {
                        let heap = h.get_table_heap();
                        let next = heap.get_page(heap.get_last_page_id_raw()).expect("last page").read().get_next_rid();
                        let m = Arc::new(TupleMeta::new(ctx().get_transaction_id()));
                        h.insert_tuple(m, &Tuple::new(&vals(c), &schema(), next), ctx())
                    }
                };
                if let Ok(rid) = r {
                    let mut rows = self.rows.write();
                    match c["k"].as_u64() {
                        Some(k) => rows[k as usize - 1] = Some((tb, rid)),
                        None => rows.push(Some((tb, rid))),
                    }
                    self.num.write().insert((tb, rid), rows.len());
                }
                json!(r.is_ok())
            }
            "upd" => {
                let Some((tb, rid)) = row else { return json!(false) };
                let h = &self.heaps[tb];
                // an updater passes along the metadata it read
                let meta = h.get_table_heap().get_tuple_internal(rid, true).expect("row").0;
                json!(h.update_tuple(&meta, &Tuple::new(&vals(c), &schema(), rid), rid, ctx()).is_ok())
            }
            "del" => {
                let Some((tb, rid)) = row else { return json!(false) };
                json!(self.heaps[tb].delete_tuple(rid, ctx()).is_ok())
            }
            "read" => {
                let Some((tb, rid)) = row else { return json!([]) };
                let h = &self.heaps[tb];
                let r = match c["how"].as_i64().unwrap_or(0) {
                    0 => h.get_tuple(rid, ctx()),
                    _ => h.get_table_heap().get_tuple_with_txn(rid, ctx()),
                };
                r.map_or(json!([]), |(_, t)| decode(&t))
            }
            "scan" => {
                let tb = u(c, "tb");
                let mut it = self.heaps[tb].make_iterator(Some(ctx()));
                let mut out = vec![];
                while let Some((_, t)) = it.next() {
                    let rid = it.get_last_rid().expect("rid of the row returned");
                    let k = self.num.read().get(&(tb, rid)).map_or(-1, |x| *x as i64);
                    let d = decode(&t);
                    out.push(json!([k, d[0], d[1]]));
                }
                json!(out)
            }
            "commit" => {
                let ok = rt.block_on(self.fac.commit_transaction(ctx()));
                json!([ok, if ok { ctx().get_transaction().commit_ts() } else { 0 }])
            }
            "abort" => {
                self.fac.abort_transaction(ctx());
                json!(match ctx().get_transaction().get_state() {
                    TransactionState::Committed => "COM",
                    TransactionState::Aborted => "ABT",
                    _ => "OTHER",
                })
            }
            "doom" => {
                let t = ctx().get_transaction();
                if t.get_state() == TransactionState::Running {
                    t.set_state(TransactionState::Aborted);
                }
                json!(0)
            }
            "gc" => {
                tm.garbage_collection();
                json!(0)
            }
            "churn" => {
                for _ in 0..i(c, "n") {
                    self.bpm.new_page::<BasicPage>().expect("room for another page");
                }
                json!(0)
            }
            "wm" => json!(tm.get_watermark()),
            "locks" => {
                let held = self.fac.get_lock_manager().debug_state();
                let txns = self.txns.read();
                json!(
                    txns.iter()
                        .flatten()
                        .map(|t| held.contains(&format!("Txn:{} ", t.get_transaction_id())) as i64)
                        .collect::<Vec<_>>()
                )
            }
            op => panic!("harness: op {op}"),
        }
    }
}

pub fn run(cfg: &Value, cmds: &[Value], log: &Log) {
    let (_dir, rt, bpm) = big_pool(u(cfg, "pool"));
    let h = rt.r().handle().clone();
    let _g = rt.r().enter();
    let w = World::new(bpm);
    for c in cmds {
        let r = w.exec(c, &h);
        log.ok(c, r);
    }
}

/// several clients at once
pub fn run_conc(cfg: &Value, cmds: &[Value], log: &Log) {
    let (_dir, rt, bpm) = big_pool(u(cfg, "pool"));
    let h = rt.r().handle().clone();
    let _g = rt.r().enter();
    let w = World::new(bpm);
    w.txns.write().resize_with(u(cfg, "nt"), || None);
    w.rows.write().resize_with(u(cfg, "nk"), || None);
    crate::conc::run(cmds, log, &|c| w.exec(c, &h));
}

pub fn run_watermark(_cfg: &Value, cmds: &[Value], log: &Log) {
    let mut w = ferrite::concurrency::watermark::Watermark::new();
    for c in cmds {
        let ts = c["ts"].as_u64().unwrap_or(0);
        let r = match st(c, "op") {
            "next" => json!(w.get_next_ts()),
            "reg" => json!(w.get_next_ts_and_register()),
            "rem" => {
                w.remove_txn(ts);
                json!(0)
            }
            "unreg" => json!(w.unregister_txn(ts)),
            "com" => {
                w.update_commit_ts(ts);
                json!(0)
            }
            "comget" => json!(w.update_commit_ts_and_get_watermark(ts)),
            "get" => json!(w.get_watermark()),
            "clone" => {
                let mut x = w.clone_watermark();
                let wm = x.get_watermark();
                let n = x.get_next_ts();
                x.add_txn(n);
                x.remove_txn(n);
                json!([wm, n])
            }
            o => panic!("harness: op {o}"),
        };
        log.ok(c, r);
    }
}

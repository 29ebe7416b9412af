//! What of the rows is on disk: transactions run as in `mvcc`, and "look" reads the database files as a process
//! started after a crash at that moment would find them.
use crate::disk::config;
use crate::heap::{decode, schema};
use crate::mvcc::World;
use crate::shim::{CaseDir, Rt, synced_path};
use crate::{Log, st, u};
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::buffer::lru_k_replacer::LRUKReplacer;
use ferrite::common::rid::RID;
use ferrite::storage::disk::async_disk::AsyncDiskManager;
use ferrite::storage::table::table_heap::{TableHeap, TableInfo};
use ferrite::storage::table::table_iterator::TableScanIterator;
use ferrite::storage::table::tuple::{Tuple, TupleMeta};
use parking_lot::RwLock;
use serde_json::{Value, json};
use std::sync::Arc;

fn open(db: String, wal: String, pool: usize, cfg: &Value, rt: &Rt) -> Arc<BufferPoolManager> {
    let dm = Arc::new(rt.r().block_on(AsyncDiskManager::new(db, wal, config(cfg))).expect("open"));
    Arc::new(BufferPoolManager::new(pool, dm, Arc::new(RwLock::new(LRUKReplacer::new(pool, 2)))).expect("bpm"))
}

/// [content, length, commit timestamp (0: none)] of a row, length -1 when it is deleted
fn found(m: &TupleMeta, t: &Tuple) -> Value {
    let ts = m.get_commit_timestamp().unwrap_or(0);
    if m.is_deleted() {
        return json!([0, -1, ts]);
    }
    let d = decode(t);
    json!([d[0], d[1], ts])
}

/// the rows by their ids and by a scan of each table, in a copy of the file
fn look(file: &str, w: &World, cfg: &Value, rt: &Rt) -> Value {
    let dir = CaseDir::new();
    let db = dir.path("t.db");
    if std::fs::copy(file, &db).is_err() {
        std::fs::write(&db, b"").unwrap();
    }
    let bpm = open(db, dir.path("t.log"), 256, cfg, rt);
    let heaps: Vec<Arc<TableHeap>> = w
        .heaps()
        .iter()
        .map(|h| {
            let h = h.get_table_heap();
            Arc::new(TableHeap::reopen(bpm.clone(), h.get_table_oid(), h.get_first_page_id_raw(), h.get_last_page_id_raw()))
        })
        .collect();
    let rows: Vec<(usize, RID)> = w.rows();
    let by_id: Vec<Value> =
        rows.iter().map(|(tb, rid)| heaps[*tb].get_tuple_internal(*rid, true).map_or(json!([]), |(m, t)| found(&m, &t))).collect();
    let scans: Vec<Vec<i64>> = heaps
        .iter()
        .enumerate()
        .map(|(tb, h)| {
            let mut it = TableScanIterator::new(Arc::new(TableInfo::new(schema(), "t".into(), h.clone(), 5)));
            let mut out = vec![];
            while it.next().is_some() {
                let at = it.get_rid();
                out.push(rows.iter().position(|x| *x == (tb, at)).map_or(-1, |k| k as i64 + 1));
                assert!(out.len() <= 10_000, "a scan that does not end");
            }
            out
        })
        .collect();
    json!([by_id, scans])
}

pub fn run(cfg: &Value, cmds: &[Value], log: &Log) {
    let dir = CaseDir::new();
    let db = dir.path("t.db");
    let rt = Rt::new(1);
    let h = rt.r().handle().clone();
    let _g = rt.r().enter();
    let w = World::new(open(db.clone(), dir.path("t.log"), u(cfg, "pool"), cfg, &rt));
    for c in cmds {
        let r = match st(c, "op") {
            // after a power loss, or when only the process dies
            "look" => look(&if c["power"].as_i64() == Some(1) { synced_path(&db) } else { db.clone() }, &w, cfg, &rt),
            _ => w.exec(c, &h),
        };
        log.ok(c, r);
    }
}

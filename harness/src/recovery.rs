//! R02: transactions change table pages and log what they did; the process dies; recovery runs.
//! The driver plays the transaction layer: it changes a page and appends the log record describing the change.
use crate::disk::config;
use crate::heap::{decode, schema, text};
use crate::shim::{CaseDir, Rt};
use crate::{Log, i, st, u};
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::buffer::lru_k_replacer::LRUKReplacer;
use ferrite::common::config::{INVALID_LSN, Lsn};
use ferrite::common::rid::RID;
use ferrite::recovery::log_manager::LogManager;
use ferrite::recovery::log_record::{LogRecord, LogRecordType as T};
use ferrite::recovery::log_recovery::LogRecoveryManager;
use ferrite::storage::disk::async_disk::AsyncDiskManager;
use ferrite::storage::page::page_guard::PageGuard;
use ferrite::storage::page::page_types::table_page::TablePage;
use ferrite::storage::table::tuple::{Tuple, TupleMeta};
use ferrite::types_db::value::Value as V;
use parking_lot::RwLock;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::sync::Arc;
use std::time::{Duration, Instant};

struct Up {
    dm: Arc<AsyncDiskManager>,
    lm: Arc<RwLock<LogManager>>,
    bpm: Arc<BufferPoolManager>,
}

/// byte ranges and LSNs of the records in the log file
pub fn frames(log: &[u8]) -> Vec<(usize, usize, Lsn, LogRecord)> {
    let (mut out, mut at) = (vec![], 0);
    while at + 4 <= log.len() {
        let n = i32::from_le_bytes(log[at..at + 4].try_into().unwrap());
        if n <= 4 || at + n as usize > log.len() {
            break;
        }
        let Ok(r) = LogRecord::from_bytes(&log[at..at + n as usize]) else { break };
        out.push((at, at + n as usize, r.get_lsn(), r));
        at += n as usize;
    }
    out
}

fn tup(n: i64, l: i64, rid: RID) -> Tuple {
    Tuple::new(&[V::new(n as i32), V::new(text(n, l))], &schema(), rid)
}

pub fn run(cfg: &Value, cmds: &[Value], log: &Log) {
    let dir = CaseDir::new();
    let (mut db, mut wal) = (dir.path("t0.db"), dir.path("t0.log"));
    let mut rts = vec![];
    let start = |rts: &mut Vec<Rt>, db: &str, wal: &str| -> Up {
        rts.push(Rt::new(1));
        let rt = rts.last().unwrap();
        let _g = rt.r().enter();
        let dm = Arc::new(rt.r().block_on(AsyncDiskManager::new(db.into(), wal.into(), config(cfg))).expect("open"));
        let mut lm = LogManager::new(dm.clone());
        lm.run_flush_thread();
        let n = u(cfg, "pool");
        let bpm = BufferPoolManager::new(n, dm.clone(), Arc::new(RwLock::new(LRUKReplacer::new(n, 2)))).expect("bpm");
        Up { dm, lm: Arc::new(RwLock::new(lm)), bpm: Arc::new(bpm) }
    };
    let mut up = start(&mut rts, &db, &wal);
    let enter = |rts: &Vec<Rt>| rts.last().unwrap().r().handle().clone();
    let h0 = enter(&rts);
    let mut g = h0.enter();
    // pages of the table; some reach the disk before the history starts, some never do
    let mut pages = vec![];
    for f in cfg["init"].as_array().unwrap() {
        let p: PageGuard<TablePage> = up.bpm.new_page::<TablePage>().expect("page");
        let id = p.get_page_id();
        pages.push(id);
        drop(p);
        if f.as_i64() == Some(1) {
            h0.block_on(up.bpm.flush_page_async(id)).expect("flush");
        }
    }
    h0.block_on(up.dm.force_flush_all()).expect("force");
    // log bookkeeping: LSN of every record the driver appended (in order), which of them must survive
    let mut recs: Vec<Lsn> = vec![];
    let mut floor: Option<Lsn> = None; // records up to this LSN are known to be on disk
    let mut prev: HashMap<i64, Lsn> = HashMap::new();
    let mut undo: HashMap<i64, Vec<(RID, TupleMeta, Option<Tuple>)>> = HashMap::new();
    let mut marked: HashMap<i64, RID> = HashMap::new();
    let mut rids: HashMap<i64, Vec<(Lsn, RID)>> = HashMap::new();
    let wait_log = |up: &Up, lsn: Lsn| {
        let t = Instant::now();
        loop {
            let p = up.lm.read().get_persistent_lsn();
            if p != INVALID_LSN && p >= lsn {
                return;
            }
            assert!(t.elapsed() < Duration::from_secs(15), "log record {lsn} never became durable (at {p})");
            std::thread::sleep(Duration::from_millis(1));
        }
    };
    let mut round = 0;
    for c in cmds {
        let t = c["t"].as_i64().unwrap_or(0);
        let k = c["k"].as_i64().unwrap_or(0);
        // the slot that holds the row now (a row inserted again sits in another slot)
        let page = |up: &Up, r: RID| up.bpm.fetch_page::<TablePage>(r.get_page_id()).expect("page of a row");
        let live: Vec<RID> = match st(c, "op") {
            "upd" | "mark" | "read" => rids.get(&k).map_or(vec![], |v| {
                v.iter().map(|x| x.1).filter(|r| page(&up, *r).read().get_tuple(r, false).is_ok()).collect()
            }),
            "apply" | "unmark" => vec![marked[&k]],
            _ => vec![],
        };
        assert!(live.len() < 2, "a rolled back or deleted row is back");
        let rid = live.first().copied();
        let last = prev.get(&t).copied().unwrap_or(INVALID_LSN);
        let t2 = c["t2"].as_i64().unwrap_or(0);
        let last2 = prev.get(&t2).copied().unwrap_or(INVALID_LSN);
        let mut append = |up: &Up, r: LogRecord| -> Lsn {
            let t = r.get_txn_id() as i64;
            let l = up.lm.write().append_log_record(Arc::new(r));
            assert!(l != INVALID_LSN, "append refused");
            recs.push(l);
            prev.insert(t, l);
            l
        };
        let id = t as u64;
        let r = match st(c, "op") {
            "begin" => {
                append(&up, LogRecord::new_transaction_record(id, INVALID_LSN, T::Begin));
                undo.insert(t, vec![]);
                json!(1)
            }
            "ins" => {
                // a page nothing was ever logged about is gone after a crash: the table allocates another
                let p = up.bpm.fetch_page::<TablePage>(pages[u(c, "p")]).or_else(|| up.bpm.new_page::<TablePage>()).expect("page");
                pages[u(c, "p")] = p.get_page_id();
                let mut p = p.write();
                let rid = p.get_next_rid();
                let x = tup(i(c, "n"), i(c, "l"), rid);
                match p.insert_tuple(&TupleMeta::new(id), &x) {
                    Some(rid) => {
                        let l = append(&up, LogRecord::new_insert_delete_record(id, last, T::Insert, rid, Arc::new(x)));
                        rids.entry(k).or_default().push((l, rid));
                        undo.get_mut(&t).unwrap().push((rid, TupleMeta::new_with_delete(id, true), None));
                        json!(1)
                    }
                    None => json!(0),
                }
            }
            "ins2" => {
                // two transactions insert into one page at the same time: the one that got the lower slot logs later
                let p = up.bpm.fetch_page::<TablePage>(pages[u(c, "p")]).or_else(|| up.bpm.new_page::<TablePage>()).expect("page");
                pages[u(c, "p")] = p.get_page_id();
                let mut p = p.write();
                let mut put = |t: i64| {
                    let rid = p.get_next_rid();
                    let x = tup(i(c, "n"), i(c, "l"), rid);
                    (p.insert_tuple(&TupleMeta::new(t as u64), &x).expect("room"), x)
                };
                let (second, first) = (put(t2), put(t));
                for (t, k, last, (rid, x)) in [(t, k, last, first), (t2, i(c, "k2"), last2, second)] {
                    let l = append(&up, LogRecord::new_insert_delete_record(t as u64, last, T::Insert, rid, Arc::new(x)));
                    rids.entry(k).or_default().push((l, rid));
                    undo.get_mut(&t).unwrap().push((rid, TupleMeta::new_with_delete(t as u64, true), None));
                }
                json!(1)
            }
            "upd" | "mark" | "apply" | "unmark" => {
                let rid = rid.expect("a row is missing");
                let g = page(&up, rid);
                let mut p = g.write();
                let (om, ot) = p.get_tuple(&rid, true).expect("row");
                let mut m = TupleMeta::new(id);
                let op = st(c, "op");
                let rec = match op {
                    "upd" => {
                        let x = tup(i(c, "n"), i(c, "l"), rid);
                        p.update_tuple(m, &x, rid).expect("update");
                        LogRecord::new_update_record(id, last, T::Update, rid, Arc::new(ot.clone()), Arc::new(x))
                    }
                    "apply" => LogRecord::new_insert_delete_record(id, last, T::ApplyDelete, rid, Arc::new(ot.clone())),
                    _ => {
                        m.set_deleted(op == "mark");
                        marked.insert(k, rid);
                        p.update_tuple_meta(m, &rid).expect("meta");
                        let ty = if op == "mark" { T::MarkDelete } else { T::RollbackDelete };
                        LogRecord::new_insert_delete_record(id, last, ty, rid, Arc::new(ot.clone()))
                    }
                };
                append(&up, rec);
                undo.get_mut(&t).unwrap().push((rid, om, Some(ot)));
                json!(1)
            }
            "newpage" => {
                append(&up, LogRecord::new_page_record(id, last, T::NewPage, INVALID_LSN, pages[u(c, "p")]));
                json!(1)
            }
            "commit" => {
                let l = append(&up, LogRecord::new_transaction_record(id, last, T::Commit));
                floor = Some(floor.map_or(l, |f| f.max(l)));
                json!(1)
            }
            "abort" => {
                for (rid, m, x) in undo.remove(&t).unwrap().into_iter().rev() {
                    let g = page(&up, rid);
                    let mut p = g.write();
                    match x {
                        Some(x) => p.update_tuple(m, &x, rid).expect("undo"),
                        None => p.update_tuple_meta(m, &rid).expect("undo"),
                    }
                }
                append(&up, LogRecord::new_transaction_record(id, last, T::Abort));
                json!(1)
            }
            "flush" => {
                // write-ahead rule: everything the page may contain is in the log first
                if let Some(l) = recs.last() {
                    wait_log(&up, *l);
                    floor = Some(floor.map_or(*l, |f| f.max(*l)));
                }
                let p = pages[u(c, "p")];
                let h = enter(&rts);
                // a page recovery had nothing to restore on is not resident and stays as it is
                let resident = up.bpm.get_page_table().read().contains_key(&p);
                if resident {
                    h.block_on(up.bpm.flush_page_async(p)).expect("flush");
                }
                h.block_on(up.dm.force_flush_all()).expect("force");
                json!(1)
            }
            "crash" => {
                let next = up.lm.read().get_next_lsn();
                if next > 0 {
                    wait_log(&up, next - 1);
                }
                let bytes = std::fs::read(&wal).unwrap_or_default();
                let fs = frames(&bytes);
                let must = fs.iter().position(|f| floor.is_none_or(|l| f.2 > l)).unwrap_or(fs.len());
                let keep = must.max(fs.len().saturating_sub(u(c, "d")));
                let end = if keep == 0 { 0 } else { fs[keep - 1].1 };
                let mut out = bytes[..end].to_vec();
                // what the interrupted write of the next record may have left behind
                let next = if keep < fs.len() { bytes[fs[keep].0..fs[keep].1].to_vec() } else {
                    LogRecord::new_transaction_record(77, 5, T::Commit).to_bytes().unwrap()
                };
                match i(c, "torn") {
                    0 => {}
                    1 => out.extend(&next[..next.len() / 2]),
                    2 => out.extend(&next[..next.len() - 1]),
                    3 => out.extend(&next[..3]),
                    4 => out.extend(vec![0u8; 50]),
                    5 => {
                        // the length reached the disk, the body did not
                        let mut n = next.clone();
                        n[4..].fill(0);
                        out.extend(&n);
                    }
                    _ => out.extend((0..40u32).map(|k| (k * 37 + keep as u32 * 11 + 1) as u8)),
                }
                let lsns: Vec<Lsn> = fs[..keep].iter().map(|f| f.2).collect();
                recs.retain(|l| lsns.contains(l));
                for v in rids.values_mut() {
                    v.retain(|x| lsns.contains(&x.0));
                }
                floor = lsns.last().copied();
                prev.clear();
                undo.clear();
                round += 1;
                let (d2, w2) = (dir.path(&format!("t{round}.db")), dir.path(&format!("t{round}.log")));
                std::fs::copy(&db, &d2).expect("db image");
                std::fs::write(&w2, &out).expect("log image");
                (db, wal) = (d2, w2);
                json!(recs.len())
            }
            "recover" => {
                if i(c, "again") == 0 {
                    drop(g);
                    // the old process is gone: its tasks must not keep running beside the new one
                    let old: Vec<Rt> = rts.drain(..).collect();
                    up = start(&mut rts, &db, &wal);
                    drop(old);
                    let h = enter(&rts);
                    // the guard must outlive this iteration
                    let h: &'static tokio::runtime::Handle = Box::leak(Box::new(h));
                    g = h.enter();
                } else {
                    let next = up.lm.read().get_next_lsn();
                    if next > 0 {
                        wait_log(&up, next - 1);
                    }
                }
                let m = LogRecoveryManager::new(up.dm.clone(), up.lm.clone(), up.bpm.clone());
                json!(enter(&rts).block_on(m.start_recovery()).is_ok() as i64)
            }
            "scan" => {
                let mut n = 0;
                for id in &pages.iter().copied().collect::<std::collections::BTreeSet<_>>() {
                    if let Some(p) = up.bpm.fetch_page::<TablePage>(*id) {
                        let p = p.read();
                        n += (0..p.get_num_tuples() as u32).filter(|s| p.get_tuple(&RID::new(*id, *s), false).is_ok()).count();
                    }
                }
                json!(n)
            }
            "read" => {
                match rid.map(|rid| page(&up, rid).read().get_tuple(&rid, false)) {
                    Some(Ok((m, x))) => {
                        let d = decode(&x);
                        json!([d[0], d[1], m.is_committed() as i64])
                    }
                    _ => json!([]),
                }
            }
            o => panic!("harness: op {o}"),
        };
        log.ok(c, r);
    }
    drop(g);
}

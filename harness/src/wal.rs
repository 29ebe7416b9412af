//! R01: several threads append to the write-ahead log; what is in the file is looked at meanwhile.
//! R03: log records are written, the file is damaged, and the log is read back.
use crate::conc;
use crate::disk::config;
use crate::heap::{decode, schema, text};
use crate::recovery::frames;
use crate::shim::{self, CaseDir, Plan, Rt, synced_path};
use crate::{Log, i, st, u};
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::buffer::lru_k_replacer::LRUKReplacer;
use ferrite::common::config::INVALID_LSN;
use ferrite::common::rid::RID;
use ferrite::recovery::log_iterator::LogIterator;
use ferrite::recovery::log_manager::LogManager;
use ferrite::recovery::log_record::{LogRecord, LogRecordType as T};
use ferrite::recovery::log_recovery::LogRecoveryManager;
use ferrite::storage::disk::async_disk::AsyncDiskManager;
use ferrite::storage::table::tuple::Tuple;
use ferrite::types_db::value::Value as V;
use parking_lot::RwLock;
use serde_json::{Value, json};
use std::sync::Arc;

fn num(x: u64) -> i64 {
    if x == u64::MAX { -1 } else { x as i64 }
}

struct Up {
    rt: Rt,
    dm: Arc<AsyncDiskManager>,
    lm: Arc<RwLock<LogManager>>,
    wal: String,
}
fn start(cfg: &Value, db: String, wal: String) -> Up {
    let rt = Rt::new(1);
    let g = rt.r().enter();
    let dm = Arc::new(rt.r().block_on(AsyncDiskManager::new(db, wal.clone(), config(cfg))).expect("open"));
    let mut lm = LogManager::new(dm.clone());
    lm.run_flush_thread();
    drop(g);
    Up { rt, dm, lm: Arc::new(RwLock::new(lm)), wal }
}

/// ids of the records in the durable part of the log; `begun` ones may be followed by an abort record of recovery's
fn on_disk(up: &Up, cfg: &Value, aborts: &RwLock<Vec<u64>>) -> Value {
    let f = if cfg["fsync"].as_i64() == Some(0) { up.wal.clone() } else { synced_path(&up.wal) };
    let bytes = std::fs::read(f).unwrap_or_default();
    let fs = frames(&bytes);
    json!(
        fs.iter()
            .filter(|f| f.3.get_log_record_type() != T::Abort || aborts.read().contains(&f.3.get_txn_id()))
            .map(|f| json!([f.3.get_txn_id(), num(f.2)]))
            .collect::<Vec<_>>()
    )
}

/// kind: "b" begin, "c" commit, "a" abort, "p" new page
fn record(c: &Value) -> LogRecord {
    let id = i(c, "id") as u64;
    match st(c, "kind") {
        "b" => LogRecord::new_transaction_record(id, INVALID_LSN, T::Begin),
        "c" => LogRecord::new_transaction_record(id, INVALID_LSN, T::Commit),
        "a" => LogRecord::new_transaction_record(id, INVALID_LSN, T::Abort),
        _ => {
            let t = Tuple::new(&[V::new(id as i32), V::new(text(id as i64, 300))], &schema(), RID::new(1, 1));
            LogRecord::new_update_record(id, INVALID_LSN, T::Update, RID::new(1 << 40, 1), Arc::new(t.clone()), Arc::new(t))
        }
    }
}

pub fn run(cfg: &Value, cmds: &[Value], log: &Log) {
    let dir = CaseDir::new();
    let (db, wal) = (dir.path("t0.db"), dir.path("t0.log"));
    let up = RwLock::new(Some(start(cfg, db, wal)));
    let aborts = RwLock::new(vec![]);
    let n = std::sync::atomic::AtomicU64::new(0);
    let exec = |c: &Value| -> Value {
        if matches!(st(c, "op"), "crash" | "restart") {
            let mut g = up.write();
            let old = g.take().unwrap();
            shim::clear(&old.wal);
            let k = n.fetch_add(1, std::sync::atomic::Ordering::SeqCst) + 1;
            let (db, wal) = (dir.path(&format!("t{k}.db")), dir.path(&format!("t{k}.log")));
            // an orderly restart keeps the file, a crash what was synced
            let src = if st(c, "op") == "crash" && cfg["fsync"].as_i64() != Some(0) { synced_path(&old.wal) } else { old.wal.clone() };
            std::fs::write(&wal, std::fs::read(src).unwrap_or_default()).expect("log image");
            let new = start(cfg, db, wal.clone());
            if !std::fs::exists(synced_path(&wal)).unwrap() {
                std::fs::copy(&wal, synced_path(&wal)).expect("log image");
            }
            let h = new.rt.r().enter();
            let bpm = BufferPoolManager::new(16, new.dm.clone(), Arc::new(RwLock::new(LRUKReplacer::new(16, 2)))).expect("bpm");
            let m = LogRecoveryManager::new(new.dm.clone(), new.lm.clone(), Arc::new(bpm));
            let ok = new.rt.r().block_on(m.start_recovery()).is_ok();
            drop(h);
            *g = Some(new);
            return json!(ok);
        }
        let g = up.read();
        let up = g.as_ref().unwrap();
        let _h = up.rt.r().enter();
        match st(c, "op") {
            "append" => {
                if st(c, "kind") == "a" {
                    aborts.write().push(i(c, "id") as u64);
                }
                let r = Arc::new(record(c));
                json!(num(up.lm.write().append_log_record(r)))
            }
            "next" => json!(num(up.lm.read().get_next_lsn())),
            "persistent" => json!(num(up.lm.read().get_persistent_lsn())),
            "disk" => on_disk(up, cfg, &aborts),
            "wait" => {
                // long enough for the flusher to come round; nothing is promised about it
                std::thread::sleep(std::time::Duration::from_millis(i(c, "ms") as u64));
                json!(0)
            }
            "fault" => {
                let p = Some((i(c, "after") as u64, i(c, "count") as u64));
                shim::plan(&up.wal, if i(c, "sync") == 1 { Plan { write: None, sync: p } } else { Plan { write: p, sync: None } });
                json!(0)
            }
            "shutdown" => {
                up.lm.write().shut_down();
                json!(0)
            }
            o => panic!("harness: op {o}"),
        }
    };
    conc::run(cmds, log, &exec);
    if let Some(g) = up.write().take() {
        shim::clear(&g.wal);
    }
}

const N: [u64; 7] = [0, 1, 127, 300, 1 << 32, u64::MAX - 1, u64::MAX];
const S: [u32; 4] = [0, 1, 200, u32::MAX - 1];

fn ctup(n: i64, l: i64, rid: RID) -> Tuple {
    Tuple::new(&[V::new(n as i32), V::new(text(n, l))], &schema(), rid)
}
fn code(x: Option<u64>) -> i64 {
    x.map_or(-9, |x| N.iter().position(|y| *y == x).map_or(-1, |y| y as i64))
}
/// [kind, lsn, txn, prev, page, slot, n, l, n2, l2]
fn crec(c: &Value) -> LogRecord {
    let f: Vec<i64> = c["f"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
    let (txn, prev, page) = (N[f[2] as usize], N[f[3] as usize], N[f[4] as usize]);
    let rid = RID::new(page, S[f[5] as usize]);
    let t = |a, b| Arc::new(ctup(f[a], f[b], rid));
    let r = match f[0] {
        1 => LogRecord::new_insert_delete_record(txn, prev, T::Insert, rid, t(6, 7)),
        2 => LogRecord::new_insert_delete_record(txn, prev, T::MarkDelete, rid, t(6, 7)),
        3 => LogRecord::new_insert_delete_record(txn, prev, T::ApplyDelete, rid, t(6, 7)),
        4 => LogRecord::new_insert_delete_record(txn, prev, T::RollbackDelete, rid, t(6, 7)),
        5 => LogRecord::new_update_record(txn, prev, T::Update, rid, t(6, 7), t(8, 9)),
        6 => LogRecord::new_transaction_record(txn, prev, T::Begin),
        7 => LogRecord::new_transaction_record(txn, prev, T::Commit),
        8 => LogRecord::new_transaction_record(txn, prev, T::Abort),
        _ => LogRecord::new_page_record(txn, prev, T::NewPage, N[f[8] as usize % 7], page),
    };
    r.set_lsn(N[f[1] as usize]);
    r
}
fn fields(r: &LogRecord) -> Value {
    let kind = r.get_log_record_type() as i64;
    let rid = r.get_insert_rid().or(r.get_delete_rid()).or(r.get_update_rid());
    let page = rid.map(|x| x.get_page_id()).or(r.get_page_id().copied());
    let slot = rid.map_or(-9, |x| S.iter().position(|y| *y == x.get_slot_num()).map_or(-1, |y| y as i64));
    let d = |t: Option<&Tuple>| t.map_or(json!([-9, -9]), decode);
    let a = d(r.get_insert_tuple().or(r.get_delete_tuple()).or(r.get_original_tuple()));
    let b = if kind == 9 { json!([code(r.get_new_page_record()), -9]) } else { d(r.get_update_tuple()) };
    let some = [r.get_insert_rid().is_some(), r.get_delete_rid().is_some(), r.get_update_rid().is_some(), r.get_page_id().is_some()];
    json!([kind, code(Some(r.get_lsn())), code(Some(r.get_txn_id())), code(Some(r.get_prev_lsn())), code(page), slot, a[0], a[1], b[0], b[1],
        some.iter().filter(|x| **x).count()])
}

pub fn run_codec(cfg: &Value, cmds: &[Value], log: &Log) {
    let dir = CaseDir::new();
    let (db, wal) = (dir.path("t.db"), dir.path("t.log"));
    let mut up = start(cfg, db.clone(), wal.clone());
    let mut recs: Vec<(u64, Vec<u8>)> = vec![];
    for c in cmds {
        let h = up.rt.r().handle().clone();
        let _g = h.enter();
        let at = |k: &str| c[k].as_i64().map(|x| recs[x as usize - 1].clone());
        let r = match st(c, "op") {
            "put" => {
                let r = crec(c);
                let off = h.block_on(up.dm.write_log(&r)).expect("write_log");
                h.block_on(up.dm.sync_log_direct()).expect("sync");
                let b = r.to_bytes().expect("encode");
                recs.push((off, b.clone()));
                json!([off, b.len()])
            }
            "scan" => {
                // from the start, or from the beginning of record c.at
                let mut it = match at("at") {
                    Some(x) => LogIterator::with_offset(up.dm.clone(), x.0),
                    None => LogIterator::new(up.dm.clone()),
                };
                let out: Vec<Value> = h.block_on(it.collect()).iter().map(fields).collect();
                assert!(it.is_end() && h.block_on(it.next()).is_none(), "scan goes on after its end");
                json!([out, it.get_offset()])
            }
            "read" => up.lm.read().read_log_record(at("at").unwrap().0).map_or(json!([]), |r| fields(&r)),
            "decode" => {
                // the record's bytes, all of them or cut short, as they are or with one bit changed
                let (_, mut b) = at("at").unwrap();
                let n = (i(c, "cut") as usize).min(b.len());
                b.truncate(n);
                if i(c, "flip") > 0 && n > 0 {
                    let k = (i(c, "flip") - 1) as usize % (n * 8);
                    b[k / 8] ^= 1 << (k % 8);
                }
                LogRecord::from_bytes(&b).map_or(json!([]), |r| fields(&r))
            }
            "junk" => {
                let mut x = i(c, "seed") as u64 + 1;
                let b: Vec<u8> = (0..u(c, "n"))
                    .map(|_| {
                        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        (x >> 56) as u8
                    })
                    .collect();
                json!(LogRecord::from_bytes(&b).is_ok())
            }
            "damage" => {
                // which records still have all the bytes that were written
                let old = std::fs::read(&wal).unwrap();
                let mut b = old;
                let at = (u(c, "b")).min(b.len());
                match st(c, "how") {
                    "cut" => b.truncate(at),
                    "zero" => b[at..].fill(0),
                    "zeropage" => {
                        b.truncate(at);
                        b.resize((at / 4096 + 1) * 4096 + 100, 0);
                    }
                    "flip" => {
                        if at < b.len() {
                            b[at] ^= 1 << (i(c, "bit"));
                        }
                    }
                    "ones" => b[at..].fill(0xff),
                    "over" => {
                        // old bytes reappear, out of step with the records
                        let src = b[1.min(at)..at.min(b.len() - at).max(1.min(at))].to_vec();
                        let n = src.len();
                        b[at..at + n].copy_from_slice(&src);
                    }
                    "append" => b.extend((0..i(c, "n")).map(|k| (k * 29 + at as i64 * 3 + 1) as u8)),
                    o => panic!("harness: damage {o}"),
                }
                let ok: Vec<bool> = recs.iter().map(|(o, x)| b.get(*o as usize..*o as usize + x.len()) == Some(&x[..])).collect();
                drop(_g);
                // the file is read again by a new process
                let old_up = std::mem::replace(&mut up, {
                    std::fs::write(&wal, &b).unwrap();
                    start(cfg, db.clone(), wal.clone())
                });
                drop(old_up);
                json!(ok)
            }
            o => panic!("harness: op {o}"),
        };
        log.ok(c, r);
    }
}

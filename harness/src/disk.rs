use crate::shim::{CaseDir, Rt, synced_path};
use crate::{Log, i, st, u};
use ferrite::storage::disk::async_disk::config::{DiskManagerConfig, DurabilityLevel, FsyncPolicy, IOPriority};
use ferrite::storage::disk::async_disk::AsyncDiskManager;
use serde_json::{Value, json};
use std::time::Duration;

pub const PAGE: usize = 4096;
/// A page holding version v of page p, recognisable in full.
pub fn page(p: u64, v: i64) -> Vec<u8> {
    let mut d = vec![0u8; PAGE];
    if v != 0 {
        for (k, w) in d.chunks_mut(8).enumerate() {
            let x = (v as u64) << 32 | (p & 0xffff) << 16 | (k as u64 & 0xffff);
            w.copy_from_slice(&x.to_le_bytes());
        }
    }
    d
}
/// The version a page image holds: 0 all zero, -2 anything that is not exactly one version of page p.
pub fn version(p: u64, d: &[u8]) -> i64 {
    if d.len() < 8 {
        return -1;
    }
    let v = (u64::from_le_bytes(d[..8].try_into().unwrap()) >> 32) as i64;
    if d.len() == PAGE && d == &page(p, v)[..] { v } else { -2 }
}
pub fn file_version(path: &str, p: u64) -> i64 {
    use std::os::unix::fs::FileExt;
    let Ok(f) = std::fs::File::open(path) else { return -1 };
    let mut d = vec![0u8; PAGE];
    match f.read_exact_at(&mut d, p * PAGE as u64) {
        Ok(()) => version(p, &d),
        Err(_) => -1,
    }
}
pub fn config(cfg: &Value) -> DiskManagerConfig {
    let g = |k: &str, d: i64| cfg[k].as_i64().unwrap_or(d);
    DiskManagerConfig {
        io_threads: g("threads", 2) as usize,
        batch_size: g("batch", 64) as usize,
        direct_io: g("direct", 0) == 1,
        cache_size_mb: g("cache", 8) as usize,
        hot_cache_ratio: g("hot", 10) as f64 / 100.0,
        warm_cache_ratio: g("warm", 30) as f64 / 100.0,
        write_buffer_size_mb: g("buffer", 1) as usize,
        flush_threshold_pages: g("threshold", 128) as usize,
        flush_interval_ms: g("interval", 1_000_000) as u64,
        compression_enabled: g("compress", 0) == 1,
        deduplication_enabled: g("dedup", 0) == 1,
        fsync_policy: match g("fsync", 1) {
            0 => FsyncPolicy::Never,
            1 => FsyncPolicy::OnFlush,
            2 => FsyncPolicy::PerWrite,
            _ => FsyncPolicy::Periodic(Duration::from_millis(50)),
        },
        durability_level: match g("level", 2) {
            0 => DurabilityLevel::None,
            1 => DurabilityLevel::Buffer,
            2 => DurabilityLevel::Sync,
            _ => DurabilityLevel::Durable,
        },
        wal_enabled: g("wal", 1) == 1,
        work_stealing_enabled: g("steal", 1) == 1,
        ..DiskManagerConfig::default()
    }
}
fn b(x: std::io::Result<()>) -> i64 {
    if x.is_ok() { 0 } else { -1 }
}
fn prio(c: &Value) -> IOPriority {
    match c["pr"].as_i64().unwrap_or(1) {
        0 => IOPriority::Low,
        1 => IOPriority::Normal,
        2 => IOPriority::High,
        _ => IOPriority::Critical,
    }
}
pub fn ints(c: &Value, k: &str) -> Vec<i64> {
    c[k].as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default()
}

pub fn run(cfg: &Value, cmds: &[Value], log: &Log) {
    let dir = CaseDir::new();
    let (db, wal) = (dir.path("t.db"), dir.path("t.log"));
    let rt = Rt::new(2);
    rt.r().block_on(async {
        let mut open = config(cfg);
        let mut dm = match AsyncDiskManager::new(db.clone(), wal.clone(), open.clone()).await {
            Ok(d) => d,
            Err(_) if open.direct_io => {
                open.direct_io = false; // the file system here does not support O_DIRECT
                AsyncDiskManager::new(db.clone(), wal.clone(), open.clone()).await.expect("open")
            }
            Err(e) => panic!("open: {e}"),
        };
        let mut old = vec![];
        for c in cmds {
            match st(c, "op") {
                "write" => {
                    let (p, v) = (i(c, "p") as u64, i(c, "v"));
                    let r = dm.write_page_with_priority(p, page(p, v), prio(c)).await;
                    log.ok(c, b(r));
                }
                "wbatch" => {
                    let (ps, vs) = (ints(c, "ps"), ints(c, "vs"));
                    let l = ps.iter().zip(&vs).map(|(&p, &v)| (p as u64, page(p as u64, v))).collect();
                    let r = dm.write_pages_batch(l).await;
                    log.ok(c, b(r));
                }
                "read" => {
                    let p = i(c, "p") as u64;
                    let r = dm.read_page_with_priority(p, prio(c)).await;
                    log.ok(c, r.map(|d| version(p, &d)).unwrap_or(-1));
                }
                "rbatch" => {
                    let ps = ints(c, "ps");
                    let r = dm.read_pages_batch(ps.iter().map(|&p| p as u64).collect()).await;
                    log.ok(
                        c,
                        match r {
                            Ok(l) => json!(if l.len() == ps.len() {
                                ps.iter().zip(&l).map(|(&p, d)| version(p as u64, d)).collect::<Vec<i64>>()
                            } else {
                                vec![-9]
                            }),
                            Err(_) => json!(Vec::<i64>::new()),
                        },
                    );
                }
                "flush" => log.ok(c, b(dm.flush().await)),
                "force" => log.ok(c, b(dm.force_flush_all().await)),
                "sync" => log.ok(c, b(dm.sync().await)),
                "file" => log.ok(c, file_version(&db, u(c, "p") as u64)),
                "synced" => log.ok(c, file_version(&synced_path(&db), u(c, "p") as u64)),
                "reopen" => {
                    let r = b(dm.shutdown().await);
                    dm = AsyncDiskManager::new(db.clone(), wal.clone(), open.clone()).await.expect("reopen");
                    log.ok(c, r);
                }
                "crash" => {
                    // abandon the manager with whatever it has only in memory
                    let n = AsyncDiskManager::new(db.clone(), wal.clone(), open.clone()).await.expect("reopen");
                    old.push(std::mem::replace(&mut dm, n));
                    log.ok(c, 0);
                }
                "powerloss" => {
                    old.push(dm);
                    // nothing runs in the abandoned manager; put the synced image in place of the file
                    std::fs::remove_file(&db).ok();
                    if std::fs::copy(synced_path(&db), &db).is_err() {
                        std::fs::write(&db, b"").unwrap();
                    }
                    dm = AsyncDiskManager::new(db.clone(), wal.clone(), open.clone()).await.expect("reopen");
                    log.ok(c, 0);
                }
                o => panic!("harness: op {o}"),
            }
        }
        drop(old);
        drop(dm);
    });
}

use crate::disk::{config, file_version, ints, page, version};
use crate::shim::{CaseDir, Rt};
use crate::{Log, i, st, u};
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::buffer::lru_k_replacer::LRUKReplacer;
use ferrite::storage::disk::async_disk::AsyncDiskManager;
use ferrite::storage::page::page_guard::PageGuard;
use ferrite::storage::page::page_types::table_page::TablePage;
use ferrite::storage::page::{BasicPage, PageTrait};
use parking_lot::RwLock;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::sync::Arc;

/// Page content for version v: as for the disk, but byte 0 is the page type and belongs to the pool.
fn put(d: &mut [u8], p: u64, v: i64) {
    d[1..].copy_from_slice(&page(p, v)[1..]);
}
fn get(p: u64, d: &[u8]) -> i64 {
    let mut x = d.to_vec();
    x[0] = p as u8 & 0; // the low byte of word 0 is the word's index, zero
    version(p, &x)
}

pub fn run(cfg: &Value, cmds: &[Value], log: &Log) {
    let dir = CaseDir::new();
    let (db, wal) = (dir.path("t.db"), dir.path("t.log"));
    let rt = Rt::new(2);
    let _g = rt.r().enter();
    let dc = config(cfg);
    let dm = Arc::new(rt.r().block_on(AsyncDiskManager::new(db.clone(), wal, dc)).expect("open"));
    let n = u(cfg, "pool");
    let bpm = Arc::new(
        BufferPoolManager::new(n, dm.clone(), Arc::new(RwLock::new(LRUKReplacer::new(n, u(cfg, "k"))))).expect("bpm"),
    );
    let mut held: BTreeMap<i64, PageGuard<BasicPage>> = BTreeMap::new();
    for c in cmds {
        let pid = c["p"].as_i64().unwrap_or(0) as u64;
        let h = c["h"].as_i64().unwrap_or(0);
        let v: Value = match st(c, "op") {
            "new" => match bpm.new_page::<BasicPage>() {
                Some(g) => {
                    let id = g.get_page_id() as i64;
                    held.insert(h, g);
                    json!(id)
                }
                None => json!(-1),
            },
            "fetch" => match bpm.fetch_page::<BasicPage>(pid) {
                Some(g) => {
                    let x = get(pid, g.read().get_data());
                    held.insert(h, g);
                    json!(x)
                }
                None => json!(-1),
            },
            "fetchbad" => match bpm.fetch_page::<TablePage>(pid) {
                Some(_) => json!(1),
                None => json!(-1),
            },
            "batch" => {
                let ps = ints(c, "ps");
                let gs = rt.r().block_on(bpm.load_pages_batch::<BasicPage>(ps.iter().map(|&x| x as u64).collect()));
                let mut out = vec![];
                for (k, g) in gs.into_iter().enumerate() {
                    match g {
                        Some(g) => {
                            out.push(get(ps[k] as u64, g.read().get_data()));
                            held.insert(h + k as i64, g);
                        }
                        None => out.push(-1),
                    }
                }
                json!(out)
            }
            "write" => {
                let g = held.get(&h);
                match g {
                    Some(g) => {
                        let p = g.get_page_id();
                        put(&mut g.write().get_data_mut()[..], p, i(c, "v"));
                        json!(0)
                    }
                    None => json!(-1),
                }
            }
            "wpage" => {
                let mut d = [0u8; 4096];
                put(&mut d, pid, i(c, "v"));
                bpm.write_page(pid, d);
                json!(0)
            }
            "read" => match held.get(&h) {
                Some(g) => json!(get(g.get_page_id(), g.read().get_data())),
                None => json!(-1),
            },
            "drop" => json!(if held.remove(&h).is_some() { 0 } else { -1 }),
            "flush" => json!(if rt.r().block_on(bpm.flush_page_async(pid)).is_ok() { 0 } else { -1 }),
            "flushall" => json!(if rt.r().block_on(bpm.flush_all_pages_durable()).is_ok() { 0 } else { -1 }),
            "flushdirty" => {
                json!(rt.r().block_on(bpm.flush_dirty_pages_batch_async(u(c, "n"))).map(|x| x as i64).unwrap_or(-1))
            }
            "delete" => json!(match bpm.delete_page(pid) {
                Ok(()) => 0,
                Err(ferrite::common::exception::DeletePageError::PagePinned(_)) => 1,
                Err(_) => 2,
            }),
            "disk" => json!(rt.r().block_on(dm.read_page(pid)).map(|d| get(pid, &d)).unwrap_or(-1)),
            "file" => {
                // the type byte differs from the plain disk image
                let x = file_version(&db, pid);
                json!(if x == -2 { typed_file_version(&db, pid) } else { x })
            }
            "free" => json!(bpm.get_free_list_size() as i64),
            o => panic!("harness: op {o}"),
        };
        let mask: i64 = bpm.get_page_table().read().keys().map(|&p| 1i64 << p).sum();
        log.ok(c, json!({"v": v, "m": mask}));
    }
    drop(held);
    drop(bpm);
    drop(dm);
}
fn typed_file_version(path: &str, p: u64) -> i64 {
    use std::os::unix::fs::FileExt;
    let Ok(f) = std::fs::File::open(path) else { return -1 };
    let mut d = vec![0u8; 4096];
    if f.read_exact_at(&mut d, p * 4096).is_err() {
        return -1;
    }
    get(p, &d)
}

use crate::disk::config;
use crate::shim::{CaseDir, Rt};
use crate::{Log, i, st, u};
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::buffer::lru_k_replacer::LRUKReplacer;
use ferrite::common::rid::RID;
use ferrite::container::disk_extendable_hash_table::DiskExtendableHashTable;
use ferrite::container::hash_function::HashFunction;
use ferrite::storage::disk::async_disk::AsyncDiskManager;
use ferrite::storage::page::Page;
use ferrite::storage::page::page_types::extendable_hash_table_directory_page::ExtendableHTableDirectoryPage as Dir;
use ferrite::storage::page::page_types::extendable_hash_table_header_page::ExtendableHTableHeaderPage as Head;
use ferrite::types_db::value::Value as V;
use parking_lot::RwLock;
use serde_json::{Value, json};
use std::sync::Arc;

/// What the directory looks like: depths, and for each slot the first slot holding the same bucket.
fn shape(d: &Dir) -> Value {
    let n = d.get_size() as usize;
    let ids: Vec<u64> = (0..n).map(|x| d.get_bucket_page_id(x).unwrap_or(u64::MAX)).collect();
    let first = |x: &u64| ids.iter().position(|y| y == x).unwrap();
    let ld: Vec<u32> = (0..n).map(|x| d.get_local_depth(x as u32)).collect();
    json!({"gd": d.get_global_depth(), "ld": ld, "bk": ids.iter().map(first).collect::<Vec<_>>()})
}

fn key(cfg: &Value, k: i64) -> V {
    match st(cfg, "kt") {
        "str" => V::new(format!("key-{k}")),
        "big" => V::new(k * 4_294_967_311),
        _ => V::new(k as i32),
    }
}

/// The pool every structure test runs on: large enough that nothing is ever evicted.
pub fn big_pool(n: usize) -> (CaseDir, Rt, Arc<BufferPoolManager>) {
    let dir = CaseDir::new();
    let (db, wal) = (dir.path("t.db"), dir.path("t.log"));
    let rt = Rt::new(1);
    let _g = rt.r().enter();
    let dm = Arc::new(rt.r().block_on(AsyncDiskManager::new(db, wal, config(&json!({})))).expect("open"));
    let bpm = Arc::new(BufferPoolManager::new(n, dm, Arc::new(RwLock::new(LRUKReplacer::new(n, 2)))).expect("bpm"));
    (dir, rt, bpm)
}

pub fn run(cfg: &Value, cmds: &[Value], log: &Log) {
    let (_dir, rt, bpm) = big_pool(u(cfg, "pool"));
    let _g = rt.r().enter();
    let h: HashFunction<V> = HashFunction::new();
    let mut t = DiskExtendableHashTable::new(
        "t".into(),
        bpm.clone(),
        HashFunction::new(),
        u(cfg, "head") as u32,
        u(cfg, "max") as u32,
        u(cfg, "cap") as u32,
    )
    .expect("table");
    let nk = i(cfg, "keys");
    for c in cmds {
        let mut c = c.clone();
        let k = key(cfg, i(&c, "k"));
        c["h"] = json!((h.get_hash(&k) as u32 & 511) as i64);
        let v = match st(&c, "op") {
            "ins" => json!(t.insert(k, RID::new(i(&c, "v") as u64, i(&c, "v") as u32 + 7)) as i64),
            "del" => json!(t.remove(&k) as i64),
            "get" => json!(rid(t.get_value(&k))),
            o => panic!("harness: op {o}"),
        };
        let all: Vec<i64> = (0..nk).map(|k| rid(t.get_value(&key(cfg, k)))).collect();
        let head = bpm.fetch_page::<Head>(0).expect("header page");
        let did = head.read().get_directory_page_id(0).expect("dir");
        let d = bpm.fetch_page::<Dir>(did).expect("directory page");
        let sh = shape(&d.read());
        log.ok(&c, json!({"v": v, "all": all, "d": sh}));
    }
}
fn rid(r: Option<RID>) -> i64 {
    match r {
        Some(r) if r.get_slot_num() as u64 == r.get_page_id() + 7 => r.get_page_id() as i64,
        Some(_) => -2,
        None => -1,
    }
}

/// The directory page on its own.
pub fn run_dir(cfg: &Value, cmds: &[Value], log: &Log) {
    let mut d = Dir::new(1);
    d.init(u(cfg, "max") as u32);
    d.set_bucket_page_id(0, 100);
    for c in cmds {
        let n = d.get_size() as usize;
        let x = c["i"].as_i64().unwrap_or(0) as usize % n;
        let b = c["b"].as_i64().unwrap_or(0) as u64;
        let v: i64 = match st(c, "op") {
            "split" => d.update_directory_for_split(x, b).map(|x| x as i64).unwrap_or(-1),
            "split2" => {
                d.split_bucket(x, b);
                0
            }
            "merge" => d.merge_bucket(x).map(|x| x as i64).unwrap_or(-1),
            "shrink" => {
                let s = d.can_shrink();
                if s {
                    d.decr_global_depth();
                }
                s as i64
            }
            "grow" => {
                d.incr_global_depth();
                0
            }
            "index" => d.hash_to_bucket_index(i(c, "h") as u32) as i64,
            "mask" => d.get_local_depth_mask(x as u32) as i64,
            "image" => d.get_split_image_index(x as u32) as i64,
            o => panic!("harness: op {o}"),
        };
        let n = d.get_size() as usize;
        let bk: Vec<i64> = (0..n).map(|x| d.get_bucket_page_id(x).unwrap() as i64).collect();
        let ld: Vec<u32> = (0..n).map(|x| d.get_local_depth(x as u32)).collect();
        if cfg["verify"].as_i64() == Some(1) {
            d.verify_integrity();
        }
        log.ok(c, json!({"v": v, "gd": d.get_global_depth(), "ld": ld, "bk": bk}));
    }
}

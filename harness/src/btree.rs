use crate::exthash::big_pool;
use crate::{Log, i, st, u};
use ferrite::buffer::buffer_pool_manager_async::BufferPoolManager;
use ferrite::catalog::schema::Schema;
use ferrite::common::rid::RID;
use ferrite::storage::index::b_plus_tree_index::BPlusTreeIndex;
use ferrite::storage::index::types::comparators::{I32Comparator, i32_comparator};
use ferrite::storage::index::{IndexInfo, IndexType};
use ferrite::storage::page::page_types::b_plus_tree_internal_page::BPlusTreeInternalPage;
use ferrite::storage::page::page_types::b_plus_tree_leaf_page::BPlusTreeLeafPage;
use serde_json::{Value, json};
use std::sync::Arc;

type Tree = BPlusTreeIndex<i32, RID, I32Comparator>;
type Leaf = BPlusTreeLeafPage<i32, RID, I32Comparator>;
type Inner = BPlusTreeInternalPage<i32, I32Comparator>;

fn rid(v: i64) -> RID {
    RID::new(v as u64, v as u32 + 3)
}
fn unrid(r: &RID) -> i64 {
    if r.get_slot_num() as u64 == r.get_page_id() + 3 { r.get_page_id() as i64 } else { -2 }
}

/// The nodes reachable from the root, parents before children: [{id, d, k, c}] or [{id, d, k, v, nx}].
fn dump(bpm: &Arc<BufferPoolManager>, t: &Tree) -> Value {
    let none = json!([]);
    if t.is_empty() {
        return none;
    }
    let h = t.get_height();
    let mut out = vec![];
    let mut todo = vec![(t.get_root_page_id(), 1u32)];
    while let Some((p, d)) = todo.pop() {
        if out.len() > 4000 {
            break;
        }
        if let Some(l) = bpm.fetch_page::<Leaf>(p) {
            let l = l.read();
            let k: Vec<i32> = (0..l.get_size()).filter_map(|x| l.get_key_at(x).copied()).collect();
            let v: Vec<i64> = (0..l.get_size()).filter_map(|x| l.get_value_at(x).map(unrid)).collect();
            let nx = l.get_next_page_id().map(|x| x as i64).filter(|&x| x < 1 << 30).unwrap_or(-1);
            out.push(json!({"id": p, "d": d, "leaf": 1, "k": k, "v": v, "c": [], "nx": nx}));
        } else if let Some(n) = bpm.fetch_page::<Inner>(p) {
            let n = n.read();
            let k: Vec<i32> = (0..n.get_size()).filter_map(|x| n.get_key_at(x)).collect();
            let c: Vec<u64> = (0..=n.get_size()).filter_map(|x| n.get_value_at(x)).collect();
            for &x in c.iter().rev() {
                if d <= h {
                    todo.push((x, d + 1));
                }
            }
            out.push(json!({"id": p, "d": d, "leaf": 0, "k": k, "v": [], "c": c, "nx": -1}));
        } else {
            out.push(json!({"id": p, "d": d, "leaf": -1, "k": [], "v": [], "c": [], "nx": -1}));
        }
    }
    json!(out)
}

pub fn run(cfg: &Value, cmds: &[Value], log: &Log) {
    let (_dir, rt, bpm) = big_pool(u(cfg, "pool"));
    let _g = rt.r().enter();
    let meta = IndexInfo::new(Schema::new(vec![]), "i".into(), 0, "t".into(), 4, false, IndexType::BPlusTreeIndex, vec![]);
    let mut t = Tree::new(i32_comparator as I32Comparator, meta, bpm.clone());
    t.init_with_order(u(cfg, "order") as u32).expect("init");
    for c in cmds {
        let k = c["k"].as_i64().unwrap_or(0) as i32;
        let e = |r: bool| if r { 0 } else { -9 };
        let v = match st(c, "op") {
            "ins" => json!(e(t.insert(k, rid(i(c, "v"))).is_ok())),
            "lins" => json!(e(t.insert_with_latch_crabbing(k, rid(i(c, "v"))).is_ok())),
            "del" => json!(t.remove(&k).map(|b| b as i64).unwrap_or(-9)),
            "ldel" => json!(t.remove_with_latch_crabbing(&k).map(|b| b as i64).unwrap_or(-9)),
            "get" => json!(t.search(&k).map(|r| r.map(|r| unrid(&r)).unwrap_or(-1)).unwrap_or(-9)),
            "range" => match t.range_scan(&k, &(i(c, "k2") as i32)) {
                Ok(r) => json!(r.iter().map(|(k, v)| json!([k, unrid(v)])).collect::<Vec<_>>()),
                Err(_) => json!(-9),
            },
            "scan" => match t.in_order_traversal() {
                Ok(r) => json!(r),
                Err(_) => json!(-9),
            },
            "valid" => json!(e(t.validate_tree().is_ok_and(|s| s.is_balanced()) && t.health_check().is_ok())),
            "order" => {
                let f = |r: Result<Vec<u64>, _>| r.unwrap_or_default();
                json!([f(t.pre_order_traversal()), f(t.post_order_traversal())])
            }
            o => panic!("harness: op {o}"),
        };
        log.ok(c, json!({"v": v, "n": t.get_size(), "e": t.is_empty() as i64, "h": t.get_height(), "root": if t.is_empty() { -1 } else { t.get_root_page_id() as i64 }, "t": dump(&bpm, &t)}));
    }
}

use crate::{Log, i, st};
use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::rid::RID;
use ferrite::concurrency::transaction::{IsolationLevel, Transaction};
use ferrite::storage::index::b_plus_tree::BPlusTree;
use ferrite::storage::index::{Index, IndexInfo, IndexType};
use ferrite::storage::table::tuple::Tuple;
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::Value as V;
use serde_json::{Value, json};
use std::sync::Arc;

fn rid(p: i64) -> RID {
    RID::new(p as u64 * 3, (p % 7) as u32)
}
fn unrid(r: &RID) -> i64 {
    let p = r.get_page_id() as i64;
    if p % 3 == 0 && r.get_slot_num() as i64 == p / 3 % 7 { p / 3 } else { -1 }
}
fn key(k: i64, strs: bool) -> V {
    if strs { V::new(format!("k{k:06}")) } else { V::new(k as i32) }
}

/// Parses the tree's own rendering: one line per node, four blanks per level.
fn dump(t: &BPlusTree) -> Value {
    let unkey = |s: &str| -> i64 { s.trim_start_matches('k').parse().unwrap_or(-7777777) };
    let mut out = vec![];
    for l in t.visualize().lines() {
        let d = l.len() - l.trim_start().len();
        let leaf = l.contains("] Leaf: [");
        if !leaf && !l.contains("] Internal: [") {
            continue;
        }
        let body = &l[l.find(": [").unwrap() + 3..l.len() - 1];
        let (mut k, mut v) = (vec![], vec![]);
        for x in body.split('|').filter(|x| !x.is_empty()) {
            match x.split_once('→') {
                Some((a, b)) => {
                    k.push(unkey(a));
                    let n: Vec<u64> = b.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
                    v.push(if n.len() == 2 { unrid(&RID::new(n[0], n[1] as u32)) } else { -1 });
                }
                None => k.push(unkey(x)),
            }
        }
        out.push(json!({"d": d / 4, "leaf": leaf as i32, "k": k, "v": v}));
    }
    json!(out)
}

pub fn run(cfg: &Value, cmds: &[Value], log: &Log) {
    let strs = i(cfg, "strs") == 1;
    let ty = if strs { TypeId::VarChar } else { TypeId::Integer };
    let schema = Schema::new(vec![Column::new("pad", TypeId::Integer), Column::new("k", ty)]);
    let info = IndexInfo::new(Schema::new(vec![Column::new("k", ty)]), "i".into(), 1, "t".into(), 4, false, IndexType::BPlusTreeIndex, vec![1]);
    let mut t = BPlusTree::new(i(cfg, "order") as usize, Arc::new(info));
    let tx = Transaction::new(1, IsolationLevel::ReadCommitted);
    let tup = |k: i64| Tuple::new(&[V::new(-5), key(k, strs)], &schema, RID::new(0, 0));
    let rows = |x: &[(V, RID)]| json!(x.iter().map(|(k, r)| if *k == key(unrid(r) / 10, strs) { unrid(r) } else { -1 }).collect::<Vec<_>>());
    for c in cmds {
        let a = c["a"].as_i64().unwrap_or(0);
        let b = c["b"].as_i64().unwrap_or(0);
        let by_tuple = c["t"].as_i64().unwrap_or(0) == 1;
        let v = match st(c, "op") {
            "ins" => {
                let p = i(c, "p");
                json!(if by_tuple { t.insert_entry(&tup(p / 10), rid(p), &tx) } else { t.insert(key(p / 10, strs), rid(p)) } as i32)
            }
            "del" => {
                let p = i(c, "p");
                json!(if by_tuple { t.delete_entry(&tup(p / 10), rid(p), &tx) } else { t.delete(&key(p / 10, strs), rid(p)) } as i32)
            }
            "full" => rows(&t.scan_full().unwrap()),
            "range" => rows(&t.scan_range(&tup(a), &tup(b), i(c, "incl") == 1).unwrap()),
            "key" => rows(&t.scan_key(&tup(a), &tx).unwrap()),
            "point" => json!(t.create_point_iterator(&tup(a)).take(5000).map(|r| unrid(&r)).collect::<Vec<_>>()),
            "iter" => json!(t.create_iterator(Some(tup(a)), Some(tup(b))).take(5000).map(|r| unrid(&r)).collect::<Vec<_>>()),
            "all" => json!(t.create_iterator(None, None).take(5000).map(|r| unrid(&r)).collect::<Vec<_>>()),
            "seek" => {
                let mut it = t.create_iterator(Some(tup(a)), Some(tup(b)));
                let mut out = vec![];
                for _ in 0..i(c, "skip") {
                    it.next();
                }
                if let Some(r) = it.seek(&tup(i(c, "k"))) {
                    out.push(unrid(&r));
                    out.extend(it.take(5000).map(|r| unrid(&r)));
                }
                json!(out)
            }
            "ends" => {
                let mut it = t.create_iterator(Some(tup(a)), Some(tup(b)));
                let (mut f, mut bk) = (vec![], vec![]);
                for x in c["pat"].as_array().unwrap() {
                    if x.as_i64() == Some(1) {
                        bk.extend(it.next_back().map(|r| unrid(&r)));
                    } else {
                        f.extend(it.next().map(|r| unrid(&r)));
                    }
                }
                while let Some(r) = it.next() {
                    f.push(unrid(&r));
                    if f.len() > 5000 {
                        break;
                    }
                }
                it.reset();
                let again: Vec<i64> = it.take(5000).map(|r| unrid(&r)).collect();
                json!({"f": f, "b": bk, "again": again})
            }
            x => panic!("harness: op {x}"),
        };
        log.ok(c, json!({"v": v, "t": dump(&t)}));
    }
}

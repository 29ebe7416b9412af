use crate::exthash::big_pool;
use crate::{Log, i, st, u};
use ferrite::catalog::column::Column;
use ferrite::catalog::schema::Schema;
use ferrite::common::config::INVALID_PAGE_ID;
use ferrite::common::rid::RID;
use ferrite::storage::page::BasicPage;
use ferrite::storage::table::table_heap::{TableHeap, TableInfo};
use ferrite::storage::table::table_iterator::TableScanIterator;
use ferrite::storage::table::tuple::{Tuple, TupleMeta};
use ferrite::types_db::type_id::TypeId;
use ferrite::types_db::value::Value as V;
use serde_json::{Value, json};
use std::sync::Arc;

const TXN: [u64; 8] = [0, 1, 2, 127, 300, 1 << 33, 1 << 62, u64::MAX - 7];
const TS: [u64; 6] = [1, 100, 200, 1 << 20, 1 << 40, u64::MAX - 9];

pub fn schema() -> Schema {
    Schema::new(vec![Column::new("n", TypeId::Integer), Column::new("s", TypeId::VarChar)])
}
pub fn text(n: i64, len: i64) -> String {
    (0..len).map(|k| (b'a' + (n * 7 + k * 3).rem_euclid(26) as u8) as char).collect()
}
fn vals(c: &Value) -> Vec<V> {
    vec![V::new(i(c, "n") as i32), V::new(text(i(c, "n"), i(c, "l")))]
}
fn tup(c: &Value, rid: RID) -> Tuple {
    Tuple::new(&vals(c), &schema(), rid)
}
/// [n, len] when the tuple is exactly one the driver writes, [-1, -1] otherwise
pub fn decode(t: &Tuple) -> Value {
    let v = t.get_values();
    let n = match v.first().map(|x| x.get_val().clone()) {
        Some(ferrite::types_db::value::Val::Integer(n)) => n as i64,
        _ => return json!([-1, -1]),
    };
    let s = match v.get(1).map(|x| x.get_val().clone()) {
        Some(ferrite::types_db::value::Val::VarLen(s)) => s,
        Some(ferrite::types_db::value::Val::ConstLen(s)) => s,
        _ => return json!([-1, -2]),
    };
    if v.len() != 2 || s != text(n, s.len() as i64) {
        return json!([-1, -3]);
    }
    json!([n, s.len()])
}
fn meta(c: &Value) -> TupleMeta {
    let mut m = TupleMeta::new_with_delete(TXN[u(c, "c")], c["del"].as_i64() == Some(1));
    if i(c, "ts") >= 0 {
        m.set_commit_timestamp(TS[u(c, "ts")]);
    }
    if let Some(x) = c["ul"].as_i64()
        && x > 0
    {
        m.set_undo_log_idx(if x == 9 { usize::MAX - 3 } else { x as usize }).unwrap();
    }
    m
}
fn unmeta(m: &TupleMeta) -> Value {
    let c = TXN.iter().position(|x| *x == m.get_creator_txn_id()).map_or(-1, |x| x as i64);
    let ts = m.get_commit_timestamp().map_or(-1, |t| TS.iter().position(|x| *x == t).map_or(-2, |x| x as i64));
    let ul = m.try_get_undo_log_idx_opt().ok().flatten().map_or(0, |x| if x == usize::MAX - 3 { 9 } else { x as i64 });
    json!([c, ts, m.is_deleted() as i64, ul])
}
fn row(m: &TupleMeta, t: &Tuple) -> Value {
    let (mut a, b) = (unmeta(m), decode(t));
    a.as_array_mut().unwrap().extend(b.as_array().unwrap().clone());
    a
}
fn num(r: RID) -> i64 {
    r.get_page_id() as i64 * 10000 + r.get_slot_num() as i64
}

pub fn run(cfg: &Value, cmds: &[Value], log: &Log) {
    let (_dir, rt, bpm) = big_pool(u(cfg, "pool"));
    let _g = rt.r().enter();
    let mut heap = Arc::new(TableHeap::new(bpm.clone(), 5));
    let mut rids: Vec<RID> = vec![];
    for c in cmds {
        let rid = c["k"].as_i64().map(|k| rids[k as usize % rids.len().max(1)]);
        let mut c = c.clone();
        if let Some(r) = rid {
            c["rid"] = json!(num(r));
        }
        let r = match st(&c, "op") {
            "ins" => {
                let m = Arc::new(meta(&c));
                let r = match i(&c, "how") {
                    0 => heap.insert_tuple_from_values(vals(&c), &schema(), m),
                    how => {
                        // the caller names the slot the tuple will go to
                        let last = heap.get_last_page_id_raw();
                        let next = if last == INVALID_PAGE_ID {
                            RID::new(0, 0)
                        } else {
                            heap.get_page(last).expect("last page").read().get_next_rid()
                        };
                        let t = tup(&c, next);
                        if how == 1 { heap.insert_tuple(m, &t) } else { heap.insert_tuple_internal(m, &t) }
                    }
                };
                match r {
                    Ok(r) => {
                        rids.push(r);
                        json!(num(r))
                    }
                    Err(_) => json!(-1),
                }
            }
            "upd" => {
                let t = tup(&c, rid.unwrap());
                let m = Arc::new(meta(&c));
                let r = if i(&c, "how") == 0 {
                    heap.update_tuple(m, &t, rid.unwrap(), None)
                } else {
                    heap.update_tuple_internal(m, &t, rid.unwrap())
                };
                r.map_or(json!(-1), |r| json!(num(r)))
            }
            "meta" => json!(heap.update_tuple_meta(Arc::new(meta(&c)), rid.unwrap()).is_ok()),
            "get" => heap.get_tuple(rid.unwrap()).map_or(json!([]), |(m, t)| {
                assert!(t.get_rid() == rid.unwrap(), "rid of the tuple read");
                row(&m, &t)
            }),
            "getany" => heap.get_tuple_internal(rid.unwrap(), true).map_or(json!([]), |(m, t)| row(&m, &t)),
            "getmeta" => heap.get_tuple_meta(rid.unwrap()).map_or(json!([]), |m| unmeta(&m)),
            "bad" => {
                // record ids never handed out
                let r = if i(&c, "which") == 0 {
                    RID::new(rids.last().map_or(0, |r| r.get_page_id()), 5000)
                } else {
                    RID::new(1 << 40, 0)
                };
                json!(heap.get_tuple(r).is_ok() || heap.get_tuple_internal(r, true).is_ok())
            }
            "scan" => {
                let info = TableInfo::new(schema(), "t".into(), heap.clone(), 5);
                let mut it = TableScanIterator::new(Arc::new(info));
                if i(&c, "reset") == 1 {
                    it.next();
                    it.next();
                    it.reset();
                }
                let mut out = vec![];
                while let Some((m, t)) = it.next() {
                    let at = it.get_rid();
                    let mut r = vec![json!(num(t.get_rid())), json!(num(at))];
                    r.extend(row(&m, &t).as_array().unwrap().clone());
                    out.push(json!(r));
                }
                assert!(it.next().is_none(), "iterator restarted");
                json!(out)
            }
            "count" => json!([heap.get_num_tuples(), heap.get_num_pages()]),
            "churn" => {
                for _ in 0..i(&c, "n") {
                    drop(bpm.new_page::<BasicPage>());
                }
                json!(true)
            }
            "reopen" => {
                heap = Arc::new(TableHeap::reopen(
                    bpm.clone(),
                    5,
                    heap.get_first_page_id_raw(),
                    if i(&c, "last") == 1 { heap.get_last_page_id_raw() } else { heap.get_last_page_id() },
                ));
                json!(true)
            }
            o => panic!("harness: unknown op {o}"),
        };
        log.ok(&c, r);
    }
}

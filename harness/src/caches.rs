use crate::{Log, i, st, tick, u};
use ferrite::storage::disk::async_disk::cache::cache_traits::*;
use ferrite::storage::disk::async_disk::cache::{
    fifo::FIFOCache, heap_lfu::HeapLFUCache, lfu::LFUCache, lru::ConcurrentLRUCache, lru::LRUCore, lru_k::LRUKCache,
};
use serde_json::{Value, json};
use std::sync::Arc;

fn o<T: Copy + Into<i64>>(v: Option<T>) -> Value {
    json!(v.map(|x| x.into()).unwrap_or(-1))
}
fn kv(v: Option<(i64, i64)>) -> Value {
    json!(v.map(|(a, b)| a * 1000 + b).unwrap_or(-1))
}

fn core<C: CoreCache<i64, i64>>(c: &mut C, e: &Value, log: &Log) -> bool {
    match st(e, "op") {
        "insert" => {
            let r = c.insert(i(e, "k"), i(e, "v"));
            log.ok(e, o(r))
        }
        "get" => {
            let r = c.get(&i(e, "k")).copied();
            log.ok(e, o(r))
        }
        "contains" => log.ok(e, c.contains(&i(e, "k")) as i64),
        "len" => log.ok(e, c.len() as i64),
        "clear" => {
            c.clear();
            log.ok(e, 0)
        }
        _ => return false,
    }
    true
}
fn lfu<C: LFUCacheTrait<i64, i64>>(c: &mut C, e: &Value, log: &Log) {
    if core(c, e, log) {
        return;
    }
    match st(e, "op") {
        "remove" => {
            let r = c.remove(&i(e, "k"));
            log.ok(e, o(r))
        }
        "pop" => {
            let r = c.pop_lfu();
            log.ok(e, kv(r))
        }
        "peek" => log.ok(e, kv(c.peek_lfu().map(|(a, b)| (*a, *b)))),
        "info" => log.ok(e, o(c.frequency(&i(e, "k")).map(|x| x as i64))),
        "touch" => {
            let r = c.increment_frequency(&i(e, "k")).map(|x| x as i64);
            log.ok(e, o(r))
        }
        "reset" => {
            let r = c.reset_frequency(&i(e, "k")).map(|x| x as i64);
            log.ok(e, o(r))
        }
        x => panic!("harness: op {x}"),
    }
}

pub fn run(cfg: &Value, cmds: &[Value], log: &Log) {
    let cap = u(cfg, "cap");
    match st(cfg, "kind") {
        "fifo" => {
            let mut c: FIFOCache<i64, i64> = FIFOCache::new(cap);
            for e in cmds {
                if core(&mut c, e, log) {
                    continue;
                }
                match st(e, "op") {
                    "pop" => {
                        let r = c.pop_oldest();
                        log.ok(e, kv(r))
                    }
                    "peek" => log.ok(e, kv(c.peek_oldest().map(|(a, b)| (*a, *b)))),
                    "rank" => log.ok(e, o(c.age_rank(&i(e, "k")).map(|x| x as i64))),
                    x => panic!("harness: op {x}"),
                }
            }
        }
        "lru" => {
            let mut c: LRUCore<i64, i64> = LRUCore::new(cap);
            let g = |v: Option<Arc<i64>>| o(v.map(|x| *x));
            for e in cmds {
                match st(e, "op") {
                    "insert" => {
                        let r = c.insert(i(e, "k"), Arc::new(i(e, "v")));
                        log.ok(e, g(r))
                    }
                    "get" => {
                        let r = c.get(&i(e, "k")).cloned();
                        log.ok(e, g(r))
                    }
                    "contains" => log.ok(e, c.contains(&i(e, "k")) as i64),
                    "len" => log.ok(e, c.len() as i64),
                    "clear" => {
                        c.clear();
                        log.ok(e, 0)
                    }
                    "remove" => {
                        let r = c.remove(&i(e, "k"));
                        log.ok(e, g(r))
                    }
                    "pop" => {
                        let r = c.pop_lru().map(|(a, b)| (a, *b));
                        log.ok(e, kv(r))
                    }
                    "peek" => log.ok(e, kv(c.peek_lru().map(|(a, b)| (*a, **b)))),
                    "peekkey" => log.ok(e, g(c.peek(&i(e, "k")))),
                    "rank" => log.ok(e, o(c.recency_rank(&i(e, "k")).map(|x| x as i64))),
                    "touch" => {
                        let r = c.touch(&i(e, "k"));
                        log.ok(e, r as i64)
                    }
                    x => panic!("harness: op {x}"),
                }
            }
        }
        "clru" => {
            let c: ConcurrentLRUCache<i64, i64> = ConcurrentLRUCache::new(cap);
            let g = |v: Option<Arc<i64>>| o(v.map(|x| *x));
            for e in cmds {
                match st(e, "op") {
                    "insert" => log.ok(e, g(c.insert(i(e, "k"), i(e, "v")))),
                    "get" => log.ok(e, g(c.get(&i(e, "k")))),
                    "contains" => log.ok(e, c.contains(&i(e, "k")) as i64),
                    "len" => log.ok(e, c.len() as i64),
                    "clear" => {
                        c.clear();
                        log.ok(e, 0)
                    }
                    "remove" => log.ok(e, g(c.remove(&i(e, "k")))),
                    "pop" => log.ok(e, kv(c.pop_lru().map(|(a, b)| (a, *b)))),
                    "peek" => log.ok(e, kv(c.peek_lru().map(|(a, b)| (a, *b)))),
                    "peekkey" => log.ok(e, g(c.peek(&i(e, "k")))),
                    "touch" => log.ok(e, c.touch(&i(e, "k")) as i64),
                    x => panic!("harness: op {x}"),
                }
            }
        }
        "lfu" => {
            let mut c: LFUCache<i64, i64> = LFUCache::new(cap);
            for e in cmds {
                lfu(&mut c, e, log)
            }
        }
        "heaplfu" => {
            let mut c: HeapLFUCache<i64, i64> = HeapLFUCache::new(cap);
            for e in cmds {
                lfu(&mut c, e, log)
            }
        }
        "lruk" => {
            let mut c: LRUKCache<i64, i64> = LRUKCache::with_k(cap, u(cfg, "k"));
            for e in cmds {
                tick();
                if core(&mut c, e, log) {
                    continue;
                }
                match st(e, "op") {
                    "remove" => {
                        let r = c.remove(&i(e, "k"));
                        log.ok(e, o(r))
                    }
                    "pop" => {
                        let r = c.pop_lru_k();
                        log.ok(e, kv(r))
                    }
                    "peek" => log.ok(e, kv(c.peek_lru_k().map(|(a, b)| (*a, *b)))),
                    "info" => log.ok(e, o(c.access_count(&i(e, "k")).map(|x| x as i64))),
                    "touch" => {
                        let r = c.touch(&i(e, "k"));
                        log.ok(e, r as i64)
                    }
                    // number of entries whose remembered k-distance access is older than this key's
                    "older" => {
                        let k = i(e, "k");
                        let h = c.access_history(&k).map(|h| h.len() as i64);
                        let d = c.k_distance(&k).is_some() as i64;
                        log.ok(e, json!(h.map(|x| x * 10 + d).unwrap_or(-1)))
                    }
                    x => panic!("harness: op {x}"),
                }
            }
        }
        x => panic!("harness: kind {x}"),
    }
}

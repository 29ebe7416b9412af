use crate::{Log, i, st, tick, u};
use ferrite::buffer::lru_k_replacer::{AccessType, LRUKReplacer};
use serde_json::Value;

pub fn run(cfg: &Value, cmds: &[Value], log: &Log) {
    let mut r = LRUKReplacer::new(u(cfg, "size"), u(cfg, "k"));
    for c in cmds {
        tick();
        let f = |k: &str| i(c, k) as _;
        match st(c, "op") {
            "access" => {
                let t = match i(c, "t") {
                    0 => AccessType::Unknown,
                    1 => AccessType::Lookup,
                    2 => AccessType::Scan,
                    _ => AccessType::Index,
                };
                r.record_access(f("f"), t);
                log.ok(c, 0)
            }
            "set" => {
                let b = r.set_evictable(f("f"), i(c, "b") == 1);
                log.ok(c, b as i64)
            }
            "evict" => {
                let v = r.evict().map(|x| x as i64).unwrap_or(-1);
                log.ok(c, v)
            }
            "remove" => {
                r.remove(f("f"));
                log.ok(c, 0)
            }
            "frames" => log.ok(c, r.total_frames() as i64),
            "evictable" => log.ok(c, r.total_evictable_frames() as i64),
            o => panic!("harness: op {o}"),
        }
    }
}

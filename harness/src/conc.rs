//! Runs a case's commands on several threads and records when each call began and ended.
use crate::Log;
use serde_json::{Value, json};
use std::sync::Barrier;

fn call(c: &Value, log: &Log, exec: &(dyn Fn(&Value) -> Value + Sync)) -> bool {
    let at = {
        let mut l = log.0.lock().unwrap();
        let mut e = c.clone();
        e["c"] = json!(1);
        e["x"] = json!("ok");
        l.push(e);
        l.len() - 1
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec(c)));
    let mut l = log.0.lock().unwrap();
    match r {
        Ok(r) => {
            l[at]["r"] = r;
            l.push(json!({"c": 0, "p": c["p"], "x": "ok"}));
            true
        }
        Err(m) => {
            let m = m.downcast_ref::<String>().cloned().unwrap_or_else(|| m.downcast_ref::<&str>().map(|s| s.to_string()).unwrap_or_default());
            if m.starts_with("harness:") {
                eprintln!("{m}");
                std::process::exit(2);
            }
            l.push(json!({"c": 0, "p": c["p"], "op": c["op"], "x": "panic", "msg": m}));
            false
        }
    }
}

/// Commands with p = 0 run first, those with p = 9 last, the others each on the thread named p.
pub fn run(cmds: &[Value], log: &Log, exec: &(dyn Fn(&Value) -> Value + Sync)) {
    let of = |p: u64| cmds.iter().filter(move |c| c["p"].as_u64() == Some(p));
    for c in of(0) {
        if !call(c, log, exec) {
            return;
        }
    }
    let ps: Vec<u64> = (1..9).filter(|p| of(*p).next().is_some()).collect();
    let gate = Barrier::new(ps.len());
    let h = tokio::runtime::Handle::try_current().ok();
    std::thread::scope(|s| {
        for p in &ps {
            let (gate, of, h) = (&gate, &of, h.clone());
            s.spawn(move || {
                let _g = h.as_ref().map(|h| h.enter());
                let mut x = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().subsec_nanos() as u64 * 2 + *p * 7919 + 1;
                gate.wait();
                for c in of(*p) {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    for _ in 0..x % 400 {
                        std::hint::spin_loop();
                    }
                    if x.is_multiple_of(17) {
                        std::thread::yield_now();
                    }
                    if !call(c, log, exec) {
                        return;
                    }
                }
            });
        }
    });
    for c in of(9) {
        if !call(c, log, exec) {
            return;
        }
    }
}

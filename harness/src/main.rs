//! Conformance driver: executes command sequences against the real code and records what it did.
//! usage: vh <subsystem> <cases.ndjson> <traces.ndjson> [threads] [case_timeout_ms]
//! A case is {"cfg":{..},"cmds":[{"op":..,..},..]}; the trace written for it is
//! {"cfg":{..},"ev":[{..cmd.., "x":"ok"|"panic"|"hang", "r":result},..]}.
//! Nothing here judges a result: the TLA+ specifications in /verif/spec do.
use serde_json::{Value, json};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, mpsc};
use std::time::Duration;

mod btree;
mod caches;
mod conc;
mod disk;
mod durable;
mod exthash;
mod locks;
mod membtree;
mod heap;
mod ioeng;
mod mvcc;
mod lruk;
mod pool;
mod recovery;
mod shim;
mod catalog;
mod sql;
mod sess;
mod strfn;
mod values;
mod wal;

pub type Ev = Arc<Mutex<Vec<Value>>>;
/// Collects the events of one case.
#[derive(Clone)]
pub struct Log(pub Ev);
impl Log {
    pub fn ok<T: Into<Value>>(&self, cmd: &Value, r: T) {
        let mut e = cmd.clone();
        e["x"] = json!("ok");
        e["r"] = r.into();
        self.0.lock().unwrap().push(e);
    }
    pub fn raw(&self, e: Value) {
        self.0.lock().unwrap().push(e);
    }
}

pub fn i(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or_else(|| panic!("harness: missing int field {k} in {v}"))
}
pub fn u(v: &Value, k: &str) -> usize {
    i(v, k) as usize
}
pub fn st<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("harness: missing str field {k} in {v}"))
}

pub type Runner = fn(&Value, &[Value], &Log);

fn runner(name: &str) -> Runner {
    match name {
        "lruk" => lruk::run,
        "caches" => caches::run,
        "disk" => disk::run,
        "pool" => pool::run,
        "btree" => btree::run,
        "membtree" => membtree::run,
        "heap" => heap::run,
        "durable" => durable::run,
        "mvcc" => mvcc::run,
        "mvccconc" => mvcc::run_conc,
        "watermark" => mvcc::run_watermark,
        "locks" => locks::run,
        "recovery" => recovery::run,
        "wal" => wal::run,
        "sess" => sess::run,
        "strfn" => strfn::run,
        "values" => values::run,
        "sql" => sql::run,
        "catalog" => catalog::run,
        "logcodec" => wal::run_codec,
        "ioqueue" => ioeng::run_queue,
        "ioplan" => ioeng::run_plan,
        "ioconc" => ioeng::run_conc,
        "iotrack" => ioeng::run_track,
        "iotrackconc" => ioeng::run_track_conc,
        "deadlock" => locks::run_dead,
        "exthash" => exthash::run,
        "extdir" => exthash::run_dir,
        _ => {
            eprintln!("unknown subsystem {name}");
            std::process::exit(2)
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let run = runner(&a[1]);
    let cases: Vec<Value> = std::io::BufReader::new(std::fs::File::open(&a[2]).expect("cases"))
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).expect("case json"))
        .collect();
    let threads: usize = a.get(4).map(|s| s.parse().unwrap()).unwrap_or(8);
    let timeout = Duration::from_millis(a.get(5).map(|s| s.parse().unwrap()).unwrap_or(20000));
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("VH_PANIC").is_ok() {
            eprintln!("panic: {i}");
        }
    }));
    let cases = Arc::new(cases);
    let next = Arc::new(AtomicUsize::new(0));
    let out: Arc<Mutex<Vec<Option<Value>>>> = Arc::new(Mutex::new(vec![None; cases.len()]));
    let hangs = Arc::new(AtomicUsize::new(0));
    let mut hs = vec![];
    for _ in 0..threads {
        let (cases, next, out, hangs) = (cases.clone(), next.clone(), out.clone(), hangs.clone());
        hs.push(std::thread::spawn(move || {
            loop {
                let n = next.fetch_add(1, Ordering::SeqCst);
                if n >= cases.len() {
                    break;
                }
                if hangs.load(Ordering::SeqCst) >= 4 {
                    // enough evidence; every further case would cost a full timeout
                    out.lock().unwrap()[n] = Some(json!({"cfg": cases[n]["cfg"], "ev": []}));
                    continue;
                }
                let ev: Ev = Arc::new(Mutex::new(vec![]));
                let (tx, rx) = mpsc::channel();
                let (c2, l2) = (cases.clone(), Log(ev.clone()));
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn(move || {
                        let c = &c2[n];
                        let cmds = c["cmds"].as_array().cloned().unwrap_or_default();
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            run(&c["cfg"], &cmds, &l2)
                        }));
                        let _ = tx.send(r.map_err(|e| {
                            e.downcast_ref::<String>().cloned().unwrap_or_else(|| {
                                e.downcast_ref::<&str>().map(|s| s.to_string()).unwrap_or_default()
                            })
                        }));
                    })
                    .expect("spawn");
                let verdict = match rx.recv_timeout(timeout) {
                    Ok(Ok(())) => None,
                    Ok(Err(m)) => {
                        if m.starts_with("harness:") {
                            eprintln!("{m}");
                            std::process::exit(2);
                        }
                        Some(("panic", m))
                    }
                    Err(_) => {
                        hangs.fetch_add(1, Ordering::SeqCst);
                        Some(("hang", String::new()))
                    }
                };
                let mut evs = ev.lock().unwrap_or_else(|p| p.into_inner()).clone();
                if let Some((x, m)) = verdict {
                    let mut e = cases[n]["cmds"].get(evs.len()).cloned().unwrap_or(json!({"op":"end"}));
                    e["x"] = json!(x);
                    e["msg"] = json!(m);
                    evs.push(e);
                }
                out.lock().unwrap()[n] = Some(json!({"cfg": cases[n]["cfg"], "ev": evs}));
            }
        }));
    }
    for h in hs {
        h.join().expect("worker");
    }
    let mut w = std::io::BufWriter::new(std::fs::File::create(&a[3]).expect("out"));
    for t in out.lock().unwrap().iter() {
        writeln!(w, "{}", t.as_ref().unwrap()).unwrap();
    }
    w.flush().unwrap();
    // hung case threads must not keep the process alive
    std::process::exit(0);
}

/// Spin until the microsecond wall clock has moved, so that two accesses never share a timestamp.
pub fn tick() {
    let now = || std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_micros();
    let t = now();
    while now() == t {
        std::hint::spin_loop();
    }
}

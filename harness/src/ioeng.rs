//! D03: the I/O engine: its queue, its tracker, and the engine as a whole.
use crate::conc;
use crate::disk::{PAGE, ints, page, version};
use crate::shim::{self, CaseDir, Plan, Rt};
use crate::{Log, i, st, u};
use ferrite::storage::disk::async_disk::io::AsyncIOEngine;
use ferrite::storage::disk::async_disk::io::operations::IOOperationType;
use ferrite::storage::disk::async_disk::io::queue::IOQueueManager;
use serde_json::{Value, json};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::fs::File;
use tokio::sync::Mutex;

// ---------------------------------------------------------------- the queue
pub fn run_queue(_cfg: &Value, cmds: &[Value], log: &Log) {
    let rt = Rt::new(2);
    let q = IOQueueManager::new();
    let h = rt.r().handle().clone();
    conc::run(cmds, log, &|c| {
        h.block_on(async {
            match st(c, "op") {
                "enq" => {
                    q.enqueue_operation(IOOperationType::Sync, i(c, "pr") as u8, i(c, "id") as u64).await;
                    json!(0)
                }
                "deq" => json!(q.dequeue_operation().await.map(|o| o.id as i64).unwrap_or(-1)),
                "size" => json!(q.queue_size().await),
                "empty" => json!(q.is_empty().await as i64),
                "peek" => json!(q.peek_highest_priority().await.map(|p| p as i64).unwrap_or(-1)),
                "drain" => json!(q.drain_queue().await.iter().map(|o| o.id).collect::<Vec<_>>()),
                "clear" => json!(q.clear_queue().await),
                o => panic!("harness: op {o}"),
            }
        })
    });
}

// ---------------------------------------------------------------- the engine
const HUGE: u64 = 1 << 52; // its byte offset does not fit in 64 bits
fn bytes(c: &Value) -> Vec<u8> {
    ints(c, "d").iter().map(|&x| x as u8).collect()
}
async fn open(p: &str) -> Arc<Mutex<File>> {
    let f = tokio::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(p).await.expect("harness: open");
    Arc::new(Mutex::new(f))
}
fn page_no(c: &Value) -> u64 {
    let p = i(c, "p");
    if p < 0 { HUGE.wrapping_add((-1 - p) as u64) } else { p as u64 }
}
type Res = (i64, Value);
fn done<T>(r: std::io::Result<T>, f: impl FnOnce(T) -> Value) -> Res {
    match r {
        Ok(x) => (0, f(x)),
        Err(_) => (1, json!([])),
    }
}
async fn exec(e: &AsyncIOEngine, c: &Value, pr: Option<u8>) -> Res {
    let none = |_: ()| json!([]);
    match st(c, "a") {
        "rp" => {
            let p = page_no(c);
            let f = |d: Vec<u8>| json!([version(p, &d)]);
            done(if let Some(x) = pr { e.read_page_with_priority(p, x).await } else { e.read_page(p).await }, f)
        }
        "wp" => {
            let p = page_no(c);
            let d = if i(c, "v") < 0 { vec![1; PAGE / 2] } else { page(p, i(c, "v")) };
            done(if let Some(x) = pr { e.write_page_with_priority(p, &d, x).await } else { e.write_page(p, &d).await }, none)
        }
        "al" => {
            let d = bytes(c);
            done(if let Some(x) = pr { e.append_log_with_priority(&d, x).await } else { e.append_log(&d).await }, |o| json!([o]))
        }
        "wl" => {
            let (d, o) = (bytes(c), u(c, "p") as u64);
            done(if let Some(x) = pr { e.write_log_with_priority(&d, o, x).await } else { e.write_log(&d, o).await }, none)
        }
        "rl" => {
            let (o, n) = (u(c, "p") as u64, u(c, "v"));
            done(if let Some(x) = pr { e.read_log_with_priority(o, n, x).await } else { e.read_log(o, n).await }, |d| json!(d))
        }
        "sy" => done(if let Some(x) = pr { e.sync_with_priority(x).await } else { e.sync().await }, none),
        "sl" => done(if let Some(x) = pr { e.sync_log_with_priority(x).await } else { e.sync_log().await }, none),
        o => panic!("harness: action {o}"),
    }
}
fn poll1<T>(f: Pin<&mut (dyn Future<Output = T> + '_)>) -> Option<T> {
    match f.poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(x) => Some(x),
        Poll::Pending => None,
    }
}
/// bytes printed by Debug: "Success([1, 2])" / "Error(\"..\")"
fn result_of(dbg: &str, c: &Value) -> Value {
    let kind = if dbg.starts_with("Success") { 0 } else { 1 };
    let b: Vec<u8> = if kind == 0 {
        dbg[dbg.find('[').unwrap_or(0)..].trim_matches(|c| "[]()".contains(c)).split(", ").filter_map(|x| x.parse::<u8>().ok()).collect()
    } else {
        vec![]
    };
    let v = match (kind, st(c, "a")) {
        (0, "rp") => json!([version(page_no(c), &b)]),
        (0, "rl") => json!(b),
        (0, "al") => json!([b.get(..8).map(|x| u64::from_le_bytes(x.try_into().unwrap()) as i64).unwrap_or(-9)]),
        _ => json!([]),
    };
    json!([kind, v])
}

/// One client: operations are submitted while no worker runs, then one worker is let loose on them.
pub fn run_plan(_cfg: &Value, cmds: &[Value], log: &Log) {
    let dir = CaseDir::new();
    let (db, wal) = (dir.path("t.db"), dir.path("t.log"));
    let rt = Rt::new(1);
    rt.r().block_on(async {
        let (fd, fl) = (open(&db).await, open(&wal).await);
        let e = Box::leak(Box::new(AsyncIOEngine::new(fd, fl).expect("engine")));
        let e: *mut AsyncIOEngine = e;
        // the futures borrow the engine; starting and stopping workers does not touch what they use
        let sh: &'static AsyncIOEngine = unsafe { &*e };
        let first = sh.completion_tracker().start_operation(None).await.0;
        let _ = sh.completion_tracker().complete_operation(first, vec![]).await;
        let mut events = sh.completion_tracker().subscribe_to_events();
        let mut futs: Vec<(Value, Pin<Box<dyn Future<Output = Res>>>, Option<Res>)> = vec![];
        let mut plans = (Plan::default(), Plan::default());
        for c in cmds {
            match st(c, "op") {
                "submit" => {
                    let (a, pr) = (c["c"].clone(), c["pr"].as_u64().map(|x| x as u8));
                    let deflt = c["def"].as_i64() == Some(1);
                    let mut f: Pin<Box<dyn Future<Output = Res>>> = {
                        let a = a.clone();
                        Box::pin(async move { exec(sh, &a, if deflt { None } else { pr }).await })
                    };
                    // poll until it is in the queue (no worker is running)
                    let n = sh.queue_size().await;
                    let mut r = None;
                    while r.is_none() && sh.queue_size().await == n {
                        r = poll1(f.as_mut());
                        tokio::task::yield_now().await;
                    }
                    futs.push((a, f, r));
                    log.ok(c, 0);
                }
                "run" | "halt" => {
                    unsafe { (*e).start(1) };
                    if st(c, "op") == "run" {
                        while sh.pending_operations_count().await > 0 {
                            tokio::time::sleep(Duration::from_micros(200)).await;
                        }
                    } else {
                        let us = c["us"].as_u64().unwrap_or(0);
                        if us == 0 {
                            tokio::task::yield_now().await;
                        } else {
                            let t = std::time::Instant::now();
                            while t.elapsed() < Duration::from_micros(us) {
                                tokio::task::yield_now().await;
                            }
                        }
                    }
                    unsafe { (*e).stop().await };
                    let mut l = vec![];
                    while let Ok(ev) = events.try_recv() {
                        let k = ev.operation_id.wrapping_sub(first) as usize;
                        let d = format!("{:?}", ev.result);
                        let r = futs.get(k.wrapping_sub(1)).map(|f| result_of(&d, &f.0)).unwrap_or(json!([7, []]));
                        l.push(json!([k, r[0], r[1]]));
                    }
                    log.ok(c, json!(l));
                }
                "cancelall" | "clear" => {
                    let n = if st(c, "op") == "clear" { sh.clear_queue().await } else { sh.cancel_all_pending_operations("stop").await };
                    while events.try_recv().is_ok() {}
                    log.ok(c, n as i64);
                }
                "cancel" => {
                    let r = sh.completion_tracker().cancel_operation(first + i(c, "k") as u64, "no".into()).await.is_ok();
                    while events.try_recv().is_ok() {}
                    log.ok(c, r as i64);
                }
                "qsize" => log.ok(c, sh.queue_size().await as i64),
                "pending" => log.ok(c, sh.pending_operations_count().await as i64),
                "get" => {
                    tokio::task::yield_now().await;
                    let r = futs.get_mut(u(c, "k").wrapping_sub(1)).and_then(|(_, f, r)| {
                        if r.is_none() {
                            *r = poll1(f.as_mut());
                        }
                        r.clone()
                    });
                    log.ok(c, r.map(|(k, v)| json!([k, v])).unwrap_or(json!([9, []])));
                }
                "fault" => {
                    let n = Some((0, u(c, "n") as u64));
                    match st(c, "w") {
                        "fdb" => plans.0.write = n,
                        "flog" => plans.1.write = n,
                        "sdb" => plans.0.sync = n,
                        _ => plans.1.sync = n,
                    }
                    // plans already under way continue where they are; only one kind per file is used in a case
                    let p = if st(c, "w").ends_with("db") { (&db, &plans.0) } else { (&wal, &plans.1) };
                    shim::plan(p.0, Plan { write: p.1.write, sync: p.1.sync });
                    log.ok(c, 0);
                }
                "direct" => {
                    let r = match st(&c["c"], "a") {
                        "al" => done(sh.append_log_direct(&bytes(&c["c"])).await, |o| json!([o])),
                        _ => done(sh.sync_log_direct().await, |_| json!([])),
                    };
                    log.ok(c, json!([r.0, r.1]));
                }
                "truncate" => {
                    sh.truncate_log(u(c, "n") as u64).await.expect("truncate");
                    log.ok(c, 0);
                }
                "dbsize" => log.ok(c, sh.get_db_file_size().await.map(|n| n as i64 / PAGE as i64).unwrap_or(-1)),
                o => panic!("harness: op {o}"),
            }
        }
        drop(futs);
        drop(unsafe { Box::from_raw(e) });
    });
    shim::clear(&db);
    shim::clear(&wal);
}

/// Several clients and workers.
pub fn run_conc(cfg: &Value, cmds: &[Value], log: &Log) {
    let dir = CaseDir::new();
    let (db, wal) = (dir.path("t.db"), dir.path("t.log"));
    let rt = Rt::new(2);
    let h = rt.r().handle().clone();
    let mut e = h.block_on(async {
        let (fd, fl) = (open(&db).await, open(&wal).await);
        let mut e = AsyncIOEngine::new(fd, fl).expect("engine");
        e.start(u(cfg, "workers"));
        e
    });
    conc::run(cmds, log, &|c| {
        h.block_on(async {
            match st(c, "op") {
                "do" => {
                    let r = exec(&e, &c["m"], c["pr"].as_u64().map(|x| x as u8)).await;
                    json!([r.0, r.1])
                }
                // the count is what the cancellation in between reports
                "cxbegin" => json!(0),
                "cxend" => json!(CX.with(|x| x.get())),
                "cx" => {
                    let n = e.cancel_all_pending_operations("stop").await;
                    CX.with(|x| x.set(n as i64));
                    json!(0)
                }
                "pending" => json!(e.pending_operations_count().await),
                o => panic!("harness: op {o}"),
            }
        })
    });
    h.block_on(e.stop());
}
thread_local!(static CX: std::cell::Cell<i64> = const { std::cell::Cell::new(0) });

// ---------------------------------------------------------------- the tracker
fn outcome(dbg: &str) -> (i64, i64) {
    let num = |s: &str| s.chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(-9i64);
    if dbg.contains("not found") {
        (4, 0)
    } else if dbg.contains("ancelled") {
        (2, num(&dbg[dbg.find("ancelled").unwrap()..]))
    } else if dbg.contains("Timeout waiting") {
        (5, 0)
    } else if dbg.contains("timed out") {
        (3, 0)
    } else if let Some(p) = dbg.find("Success") {
        (0, num(&dbg[p..]))
    } else if let Some(p) = dbg.find("msg") {
        (1, num(&dbg[p..]))
    } else {
        (7, 0)
    }
}
pub fn run_track(_cfg: &Value, cmds: &[Value], log: &Log) {
    let dir = CaseDir::new();
    let (db, wal) = (dir.path("t.db"), dir.path("t.log"));
    let files = {
        let rt = Rt::new(1);
        rt.r().block_on(async { (open(&db).await, open(&wal).await) })
    };
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().expect("rt");
    // every task gets to run as far as it can
    async fn settle() {
        for _ in 0..12 {
            tokio::task::yield_now().await;
        }
    }
    rt.block_on(tokio::task::unconstrained(async {
        let e = AsyncIOEngine::new(files.0, files.1).expect("engine");
        let t = e.completion_tracker();
        let mut events = t.subscribe_to_events();
        settle().await;
        let mut id: Vec<u64> = vec![];
        let mut rx = vec![];
        let mut got: Vec<Option<(i64, i64)>> = vec![];
        let mut waits: Vec<tokio::task::JoinHandle<Value>> = vec![];
        let mut wres: Vec<Option<Value>> = vec![];
        let real = |id: &Vec<u64>, k: usize| id.get(k.wrapping_sub(1)).copied().unwrap_or(u64::MAX - 7);
        for c in cmds {
            let m = || format!("msg {}", i(c, "v"));
            match st(c, "op") {
                "start" => {
                    let (n, r) = t.start_operation((i(c, "to") == 1).then_some(Duration::ZERO)).await;
                    let fresh = !id.contains(&n);
                    id.push(n);
                    rx.push(r);
                    got.push(None);
                    crate::tick();
                    log.ok(c, fresh as i64);
                }
                "complete" => {
                    let r = t.complete_operation(real(&id, u(c, "k")), vec![i(c, "v") as u8]).await;
                    log.ok(c, r.is_err() as i64);
                }
                "fail" => log.ok(c, t.fail_operation(real(&id, u(c, "k")), m()).await.is_err() as i64),
                "cancel" => log.ok(c, t.cancel_operation(real(&id, u(c, "k")), m()).await.is_err() as i64),
                "status" => log.ok(c, t.get_operation_status(real(&id, u(c, "k"))).await.map(|b| b as i64).unwrap_or(9)),
                "ispending" => log.ok(c, t.is_operation_pending(real(&id, u(c, "k"))).await as i64),
                "recv" => {
                    let k = u(c, "k").wrapping_sub(1);
                    let r = if k >= rx.len() {
                        (9, 0)
                    } else {
                        if got[k].is_none() {
                            got[k] = match rx[k].try_recv() {
                                Ok(r) => Some(outcome(&format!("{r:?}"))),
                                Err(x) if format!("{x:?}") == "Empty" => None,
                                Err(_) => Some((2, 0)),
                            };
                        }
                        got[k].unwrap_or((9, 0))
                    };
                    log.ok(c, json!([r.0, r.1]));
                }
                "cancelall" => log.ok(c, t.cancel_all_pending(m()).await as i64),
                "timeouts" => log.ok(c, t.check_timeouts().await as i64),
                "adv" | "tick" => {
                    settle().await;
                    tokio::time::advance(Duration::from_millis(1)).await;
                    settle().await;
                    if st(c, "op") == "tick" {
                        tokio::time::advance(Duration::from_secs(60)).await;
                        settle().await;
                    }
                    log.ok(c, 0);
                }
                "wait" => {
                    let ks: Vec<usize> = ints(c, "ks").iter().map(|&k| k as usize).collect();
                    let ids: Vec<u64> = ks.iter().map(|&k| real(&id, k)).collect();
                    let lim = if i(c, "short") == 1 { Duration::from_millis(1) } else { Duration::from_secs(1 << 30) };
                    let t2 = t.clone();
                    let many = i(c, "many") == 1;
                    waits.push(tokio::spawn(tokio::task::unconstrained(async move {
                        if many {
                            match t2.wait_for_operations(&ids, lim).await {
                                Ok(l) => {
                                    let mut v: Vec<(usize, i64, i64)> = l
                                        .iter()
                                        .map(|(n, r)| {
                                            let o = outcome(&format!("{r:?}"));
                                            (ks.get(ids.iter().position(|x| x == n).unwrap_or(99)).copied().unwrap_or(0), o.0, o.1)
                                        })
                                        .collect();
                                    v.sort();
                                    json!(v)
                                }
                                Err(m) => {
                                    let o = outcome(&m);
                                    json!([[0, o.0, o.1]])
                                }
                            }
                        } else {
                            let r = t2.wait_for_operation(ids[0], lim).await;
                            let o = match r {
                                Ok(r) => outcome(&format!("{r:?}")),
                                Err(m) => outcome(&m),
                            };
                            json!([[if o.0 == 4 || o.0 == 5 { 0 } else { ks[0] }, o.0, o.1]])
                        }
                    })));
                    wres.push(None);
                    settle().await;
                    log.ok(c, 0);
                }
                "poll" => {
                    settle().await;
                    let h = u(c, "h").wrapping_sub(1);
                    let r = if h >= waits.len() {
                        json!([])
                    } else {
                        if wres[h].is_none() && waits[h].is_finished() {
                            wres[h] = Some((&mut waits[h]).await.unwrap_or(json!([[0, 8, 0]])));
                        }
                        wres[h].clone().unwrap_or(json!([]))
                    };
                    log.ok(c, r);
                }
                "events" => {
                    let mut l = vec![];
                    while let Ok(ev) = events.try_recv() {
                        let o = outcome(&format!("{:?}", ev.result));
                        l.push(json!([id.iter().position(|&x| x == ev.operation_id).map(|p| p + 1).unwrap_or(0), o.0, o.1]));
                    }
                    log.ok(c, json!(l));
                }
                "burst" => {
                    for _ in 0..i(c, "n") {
                        let (n, _r) = t.start_operation(None).await;
                        let _ = t.complete_operation(n, vec![]).await;
                    }
                    while events.try_recv().is_ok() || events.try_recv().is_ok() {}
                    log.ok(c, 0);
                }
                "stats" => {
                    let s = t.get_operation_stats().await;
                    log.ok(c, json!([s.pending_count, s.completed_count, s.cancelled_count, s.timed_out_count]));
                }
                o => panic!("harness: op {o}"),
            }
        }
        drop(waits);
    }));
}
/// Several clients of the tracker at once.
pub fn run_track_conc(_cfg: &Value, cmds: &[Value], log: &Log) {
    let dir = CaseDir::new();
    let (db, wal) = (dir.path("t.db"), dir.path("t.log"));
    let rt = Rt::new(2);
    let h = rt.r().handle().clone();
    let _g = h.enter();
    let e = h.block_on(async { AsyncIOEngine::new(open(&db).await, open(&wal).await).expect("engine") });
    let t = e.completion_tracker();
    let ids = parking_lot::Mutex::new(vec![]);
    let rxs = parking_lot::Mutex::new(vec![]);
    let real = |k: usize| ids.lock().get(k.wrapping_sub(1)).copied().unwrap_or(u64::MAX - 7);
    conc::run(cmds, log, &|c| {
        let m = || format!("msg {}", i(c, "v"));
        h.block_on(async {
            match st(c, "op") {
                "start" => {
                    let (n, r) = t.start_operation((i(c, "to") == 1).then_some(Duration::ZERO)).await;
                    let fresh = !ids.lock().contains(&n);
                    ids.lock().push(n);
                    rxs.lock().push(r);
                    crate::tick();
                    json!(fresh as i64)
                }
                "complete" => json!(t.complete_operation(real(u(c, "k")), vec![i(c, "v") as u8]).await.is_err() as i64),
                "fail" => json!(t.fail_operation(real(u(c, "k")), m()).await.is_err() as i64),
                "cancel" => json!(t.cancel_operation(real(u(c, "k")), m()).await.is_err() as i64),
                "status" => json!(t.get_operation_status(real(u(c, "k"))).await.map(|b| b as i64).unwrap_or(9)),
                "ispending" => json!(t.is_operation_pending(real(u(c, "k"))).await as i64),
                "await" => {
                    let id = real(u(c, "k"));
                    let lim = Duration::from_millis(1500);
                    let d = if i(c, "many") == 1 {
                        match t.wait_for_operations(&[id], lim).await {
                            Ok(l) if l.len() == 1 && l[0].0 == id => format!("{:?}", l[0].1),
                            Ok(_) => "wrong".into(),
                            Err(x) => x,
                        }
                    } else {
                        match t.wait_for_operation(id, lim).await {
                            Ok(r) => format!("{r:?}"),
                            Err(x) => x,
                        }
                    };
                    let o = outcome(&d);
                    json!([o.0, o.1])
                }
                "cancelall" => json!(t.cancel_all_pending(m()).await),
                "timeouts" => json!(t.check_timeouts().await),
                "recv" => {
                    let o = match rxs.lock()[u(c, "k") - 1].try_recv() {
                        Ok(r) => outcome(&format!("{r:?}")),
                        Err(x) if format!("{x:?}") == "Empty" => (9, 0),
                        Err(_) => (2, 0),
                    };
                    json!([o.0, o.1])
                }
                "stats" => {
                    let s = t.get_operation_stats().await;
                    json!([s.pending_count, s.completed_count, s.cancelled_count, s.timed_out_count])
                }
                o => panic!("harness: op {o}"),
            }
        })
    });
}

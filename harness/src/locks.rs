use crate::{Log, i, st};
use ferrite::common::exception::LockError;
use ferrite::common::rid::RID;
use ferrite::concurrency::lock_manager::{DeadlockDetector, LockManager, LockMode, LockStateManager};
use ferrite::concurrency::transaction::{IsolationLevel, Transaction, TransactionState};
use serde_json::{Value, json};
use std::sync::Arc;
use std::time::{Duration, Instant};

fn mode(s: &str) -> LockMode {
    match s {
        "IS" => LockMode::IntentionShared,
        "IX" => LockMode::IntentionExclusive,
        "S" => LockMode::Shared,
        "SIX" => LockMode::SharedIntentionExclusive,
        "X" => LockMode::Exclusive,
        _ => panic!("harness: mode {s}"),
    }
}
pub fn iso(s: &str) -> IsolationLevel {
    match s {
        "RU" => IsolationLevel::ReadUncommitted,
        "RC" => IsolationLevel::ReadCommitted,
        "RR" => IsolationLevel::RepeatableRead,
        "SER" => IsolationLevel::Serializable,
        "SNAP" => IsolationLevel::Snapshot,
        _ => panic!("harness: isolation {s}"),
    }
}
fn state(s: &str) -> TransactionState {
    match s {
        "RUNNING" => TransactionState::Running,
        "TAINTED" => TransactionState::Tainted,
        "COMMITTED" => TransactionState::Committed,
        "ABORTED" => TransactionState::Aborted,
        "SHRINKING" => TransactionState::Shrinking,
        "GROWING" => TransactionState::Growing,
        _ => panic!("harness: state {s}"),
    }
}
/// rows of different tables get different ids, unrelated to the table's id
fn rid(row: i64) -> RID {
    RID::new(7000 + row as u64, (row % 10) as u32)
}
fn unrid(r: &RID) -> i64 {
    r.get_page_id() as i64 - 7000
}
fn code(r: Result<bool, LockError>) -> String {
    match r {
        Ok(true) => "yes".into(),
        Ok(false) => "wait".into(),
        Err(e) => format!("{e:?}"),
    }
}
const OID: u64 = 40;
/// held modes per table and transaction, as a bit mask of what they cover
fn view(lm: &LockManager, nt: i64, nx: usize) -> Value {
    let mut out = vec![vec![0u8; nx]; nt as usize];
    let mut cur = 0usize;
    for l in lm.debug_state().lines() {
        if let Some(x) = l.strip_prefix("Table ") {
            cur = (x.trim_end_matches(':').parse::<u64>().unwrap() - OID) as usize;
        } else if let Some(x) = l.strip_prefix("  Txn:") {
            let mut p = x.split_whitespace();
            let t: usize = p.next().unwrap().parse().unwrap();
            let m = p.next().unwrap().trim_start_matches("Mode:").to_string();
            if p.next().unwrap() == "Granted:true" {
                out[cur - 1][t - 1] |= match m.as_str() {
                    "IntentionShared" => 1,
                    "IntentionExclusive" => 3,
                    "Shared" => 5,
                    "SharedIntentionExclusive" => 7,
                    _ => 15,
                };
            }
        }
    }
    json!(out)
}

pub fn run(cfg: &Value, cmds: &[Value], log: &Log) {
    let isos: Vec<String> = cfg["iso"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let (nt, nr) = (i(cfg, "nt"), i(cfg, "nr"));
    if isos[0] == "NONE" {
        return bare(isos.len() as u64, nt, nr, cmds, log);
    }
    let lm = LockManager::new();
    let ts: Vec<Arc<Transaction>> = isos.iter().enumerate().map(|(n, x)| Arc::new(Transaction::new(n as u64 + 1, iso(x)))).collect();
    for c in cmds {
        let t = ts[(c["t"].as_i64().unwrap_or(1) - 1) as usize].clone();
        let oid = OID + c["tb"].as_u64().unwrap_or(0);
        let row = || rid(i(c, "row"));
        let r = match st(c, "op") {
            "lockT" => code(lm.lock_table(t.clone(), mode(st(c, "m")), oid)),
            "lockR" => code(lm.lock_row(t.clone(), mode(st(c, "m")), oid, row())),
            "unlockT" => code(lm.unlock_table(t.clone(), mode(st(c, "m")), oid)),
            "unlockR" => code(lm.unlock_row(t.clone(), mode(st(c, "m")), oid, row())),
            "force" => code(lm.force_release_txn(t.get_transaction_id()).map(|_| true)),
            "all" => code(lm.unlock_all()),
            "state" => {
                t.set_state(state(st(c, "to")));
                "yes".into()
            }
            "dead" => {
                // the detector polls in the background: give it time to see what there is to see
                let end = Instant::now() + Duration::from_millis(i(c, "ms") as u64);
                loop {
                    if lm.check_deadlock(t.clone()).unwrap() {
                        break "victim".into();
                    }
                    if Instant::now() >= end {
                        break "no".to_string();
                    }
                    std::thread::sleep(Duration::from_millis(5));
                }
            }
            x => panic!("harness: op {x}"),
        };
        let sts: Vec<String> = ts.iter().map(|t| t.get_state().to_string()).collect();
        log.ok(c, json!({"c": r, "st": sts, "v": view(&lm, nt, ts.len())}));
    }
}

fn bare(nx: u64, nt: i64, _nr: i64, cmds: &[Value], log: &Log) {
    let m = LockStateManager::new();
    for c in cmds {
        let t = i(c, "t") as u64;
        let oid = OID + c["tb"].as_u64().unwrap_or(0);
        let row = || rid(i(c, "row"));
        let g = |b: bool| if b { "yes".to_string() } else { "wait".to_string() };
        let r = match st(c, "op") {
            "lockT" => g(m.grant_table_lock(t, mode(st(c, "m")), oid)),
            "lockR" => g(m.grant_row_lock(t, mode(st(c, "m")), oid, row())),
            "unlockT" => code(m.release_table_lock(t, oid).map(|_| true)),
            "unlockR" => code(m.release_row_lock(t, row()).map(|_| true)),
            "force" => code(m.force_release_txn(t).map(|_| true)),
            x => panic!("harness: op {x}"),
        };
        let has: Vec<Vec<i32>> =
            (1..=nt as u64).map(|tb| (1..=nx).map(|t| m.has_table_lock(t, OID + tb) as i32).collect()).collect();
        let rows: Vec<Vec<Vec<i64>>> = (1..=nt as u64)
            .map(|tb| {
                (1..=nx)
                    .map(|t| {
                        let mut v: Vec<i64> = m.get_row_locks_for_table(t, OID + tb).iter().map(unrid).collect();
                        v.sort();
                        v
                    })
                    .collect()
            })
            .collect();
        log.ok(c, json!({"c": r, "t": has, "w": rows}));
    }
}

/// The deadlock detector alone.
pub fn run_dead(_cfg: &Value, cmds: &[Value], log: &Log) {
    let mut d = DeadlockDetector::new();
    for c in cmds {
        let r = match st(c, "op") {
            "add" => {
                d.add_edge(i(c, "a") as u64, i(c, "b") as u64);
                0
            }
            "rem" => {
                d.remove_edge(i(c, "a") as u64);
                0
            }
            "watch" => {
                d.start_detection();
                0
            }
            "cycle" => {
                let mut v = 0;
                if d.has_cycle(&mut v) { v as i64 } else { 0 }
            }
            "poll" => {
                // drop what an earlier round of the background thread may have left, then wait for a fresh round
                let _ = d.get_and_clear_abort_txn();
                std::thread::sleep(Duration::from_millis(120));
                let _ = d.get_and_clear_abort_txn();
                let end = Instant::now() + Duration::from_millis(i(c, "ms") as u64);
                loop {
                    if let Some(v) = d.get_and_clear_abort_txn() {
                        break v as i64;
                    }
                    if Instant::now() >= end {
                        break 0;
                    }
                    std::thread::sleep(Duration::from_millis(5));
                }
            }
            x => panic!("harness: op {x}"),
        };
        log.ok(c, json!(r));
    }
}

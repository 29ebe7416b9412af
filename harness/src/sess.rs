//! Client sessions of a whole database instance: requests of several clients, recorded for spec/Session.tla.
use crate::shim::{CaseDir, Rt};
use crate::{Log, i, st};
use ferrite::common::db_instance::{DBConfig, DBInstance};
use ferrite::concurrency::transaction::IsolationLevel;
use ferrite::server::{DatabaseRequest, DatabaseResponse};
use ferrite::types_db::value::Val;
use serde_json::{Value as J, json};

fn iso(s: &str) -> IsolationLevel {
    match s {
        "RU" => IsolationLevel::ReadUncommitted,
        "RC" => IsolationLevel::ReadCommitted,
        "RR" => IsolationLevel::RepeatableRead,
        "SN" => IsolationLevel::Snapshot,
        _ => IsolationLevel::Serializable,
    }
}

fn num(v: &Val) -> i64 {
    match v {
        Val::Integer(n) => *n as i64,
        Val::BigInt(n) => *n,
        Val::SmallInt(n) => *n as i64,
        Val::TinyInt(n) => *n as i64,
        _ => -1,
    }
}

pub fn run(cfg: &J, cmds: &[J], log: &Log) {
    let dir = CaseDir::new();
    let rt = Rt::new(2);
    let conf = DBConfig {
        db_filename: dir.path("t.db"),
        db_log_filename: dir.path("t.log"),
        buffer_pool_size: i(cfg, "pool") as usize,
        ..Default::default()
    };
    let db = rt.r().block_on(DBInstance::new(conf)).unwrap_or_else(|e| panic!("open: {e}"));
    let send = |client: u64, q: DatabaseRequest| -> (bool, Vec<(i64, i64)>) {
        match rt.r().block_on(db.handle_network_query(q, client)) {
            Ok(DatabaseResponse::Results(r)) => {
                let mut rows: Vec<(i64, i64)> = r.rows.iter().map(|x| (num(x[0].get_val()), x.get(1).map_or(0, |v| num(v.get_val())))).collect();
                rows.sort();
                (true, rows)
            },
            _ => (false, vec![]),
        }
    };
    db.create_client_session(999);
    let (ok, _) = send(999, DatabaseRequest::Query(format!("CREATE TABLE t (k INTEGER{}, v INTEGER)", if i(cfg, "pk") == 1 { " PRIMARY KEY" } else { "" })));
    if !ok {
        panic!("CREATE TABLE refused");
    }
    for c in cmds {
        let cl = i(c, "c") as u64;
        let q = |s: String| send(cl, DatabaseRequest::Query(s));
        let (ok, rows) = match st(c, "op") {
            "open" => {
                db.create_client_session(cl);
                (true, vec![])
            },
            "close" => {
                db.remove_client_session(cl);
                (true, vec![])
            },
            "begin" if c["via"] == 1 => {
                let level = match st(c, "iso") {
                    "RU" => " ISOLATION LEVEL READ UNCOMMITTED",
                    "RC" => " isolation level read committed",
                    "RR" => " ISOLATION LEVEL REPEATABLE READ",
                    "SN" => " ISOLATION LEVEL SNAPSHOT",
                    "SE" => " ISOLATION LEVEL SERIALIZABLE",
                    _ => "",
                };
                q(format!("{}{level}", ["BEGIN", "START TRANSACTION", "begin transaction"][i(c, "v") as usize % 3]))
            },
            "commit" if c["via"] == 1 => q(["COMMIT", "commit", "COMMIT;", "COMMIT WORK", "END"][i(c, "v") as usize % 5].into()),
            "rollback" if c["via"] == 1 => q(["ROLLBACK", "rollback;", "ROLLBACK WORK"][i(c, "v") as usize % 3].into()),
            "begin" => send(cl, DatabaseRequest::BeginTransaction { isolation_level: iso(st(c, "iso")) }),
            "commit" => send(cl, DatabaseRequest::Commit),
            "rollback" => send(cl, DatabaseRequest::Rollback),
            "ins" => q(format!("INSERT INTO t VALUES ({}, {})", i(c, "k"), i(c, "v"))),
            "ins2" => q(format!("INSERT INTO t VALUES ({}, {}), ({}, {})", i(c, "k"), i(c, "v"), i(c, "k2"), i(c, "v"))),
            "updall" => q(format!("UPDATE t SET v = v + {}", i(c, "v"))),
            "upd" => q(format!("UPDATE t SET v = {} WHERE k = {}", i(c, "v"), i(c, "k"))),
            "del" => q(format!("DELETE FROM t WHERE k = {}", i(c, "k"))),
            "sel" => q("SELECT k, v FROM t".into()),
            "selk" => q(format!("SELECT k, v FROM t WHERE k = {}", i(c, "k"))),
            "bad" => q(["SELECT * FROM nowhere", "SELEC 1", "INSERT INTO t VALUES (1)", "DELETE t", "UPDATE t SET w = 1"][i(c, "k") as usize % 5].into()),
            o => panic!("harness: op {o}"),
        };
        let flat: Vec<J> = rows.iter().map(|(k, v)| json!([k, v])).collect();
        let mut e = c.clone();
        let sel = st(c, "op").starts_with("sel") && ok;
        log.ok(&e, json!({"ok": ok as i64, "rows": if sel { flat } else { vec![] }}));
    }
}

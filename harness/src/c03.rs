//! C03: nothing remains of what was rolled back, abandoned or failed.
use crate::{c06::probes, core::*, db::*, hist::*, sqlmodel::*};
use axmosdb::{DBConfig, Database};
use std::path::Path;

pub struct C03;
impl Property for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "one case = a generated history of autocommit statements, sessions (committed, dropped, rolled back), batches, failing statements, VACUUM and reopening over up to 4 tables with DML and DDL; after every event that did not take effect all tables, the names that exist, index look-ups and (later in the history) re-inserted keys are compared with the model in which it never ran. Non-trivial: a transaction that had changed something and was undone"
    }
    fn plan(&self, thorough: bool) -> Plan {
        Plan { cases: if thorough { 300_000 } else { 8_000 }, batch: 25, timeout_s: 60, shrink_s: 60, workers: 8, budget_s: if thorough { 2400 } else { 240 } }
    }
    fn run_case(&self, src: &mut Src, cx: &mut Cx) -> Res {
        let src = &*src;
        let mut w = World::new(cx, DBConfig::new(4096, 3000, 2, 3, 2))?;
        w.ddl_in_tx = *src.pick(&[12, 0, 40]);
        w.fill(src, cx, 1 + src.usize(3), 25)?;
        let weights = W { dml: 14, ddl: 5, bad: 6, select: 0, sess: 40, batch: 22, vacuum: 4, reopen: 4, analyze: 2, flush: 3 };
        for i in 0..4 + src.usize(12) {
            let n = cx.log_len();
            let did = w.op(src, cx, &weights)?;
            let undone = did.rolled_back();
            cx.eval(undone && cx.log_len() > n + 1 || matches!(did, Did::Failed | Did::BatchFailed));
            if undone {
                cx.class(&format!("{did:?}"));
                cx.distinct(cx.trace_hash());
                w.compare(&format!("after event {i} ({did:?})"))?;
                if src.chance(1, 3) {
                    let db = w.db();
                    probes(src, cx, &w.st, db, &mut |s| exec(db, s))?;
                }
                if src.chance(1, 6) {
                    // the same from a session, and after reopening
                    let mut s = w.db().session().map_err(err("session"))?;
                    compare_all(&w.st, "in a later session", &mut |q| sess(&mut s, q))?;
                }
                if src.chance(1, 10) {
                    w.close();
                    w.open()?;
                    w.compare("after reopening")?;
                }
            }
        }
        w.compare("at the end")
    }
    fn probe(&self, finding: &str, dir: &Path) -> Option<bool> {
        if finding != "C03-explicit-abort-keeps-updates" {
            return None;
        }
        let db = Database::create(dir.join("p"), DBConfig::new(4096, 500, 1, 3, 2)).ok()?;
        exec(&db, "CREATE TABLE t (a INT, b INT)").ok()?;
        exec(&db, "INSERT INTO t VALUES (1, 10)").ok()?;
        let mut s = db.session().ok()?;
        sess(&mut s, "UPDATE t SET b = 20 WHERE a = 1").ok()?;
        s.abort_transaction().ok()?;
        let r = rows_of(&exec(&db, "SELECT b FROM t").ok()?.rows());
        Some(r == vec![vec![V::Int(20)]])
    }
}

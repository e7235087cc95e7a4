//! C15: schema changes and the catalog.
use crate::{c06::probes, core::*, db::*, hist::*, sqlgen, sqlmodel::*};
use axmosdb::DBConfig;

pub struct C15;
impl Property for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "one case = a generated history in which most statements are CREATE/DROP TABLE, CREATE UNIQUE INDEX and ALTER TABLE, alone, in sessions that commit, are dropped or rolled back, and in batches, mixed with DML, VACUUM and reopening; after each event every table (own and unaffected), absent names, column names and insert arity are compared with the model, from inside and outside the transaction. Non-trivial: a schema change on a table with rows, or one that was undone"
    }
    fn plan(&self, thorough: bool) -> Plan {
        Plan { cases: if thorough { 300_000 } else { 8_000 }, batch: 25, timeout_s: 60, shrink_s: 60, workers: 8, budget_s: if thorough { 2400 } else { 240 } }
    }
    fn run_case(&self, src: &mut Src, cx: &mut Cx) -> Res {
        let src = &*src;
        let mut w = World::new(cx, DBConfig::new(4096, 3000, 2, 3, 2))?;
        w.ddl_in_tx = *src.pick(&[50, 80, 25]);
        w.fill(src, cx, 1 + src.usize(3), 15)?;
        let weights = W { dml: 16, ddl: 36, bad: 2, select: 4, sess: 22, batch: 10, vacuum: 3, reopen: 5, analyze: 2, flush: 1 };
        for i in 0..5 + src.usize(20) {
            let before = w.st.clone();
            let n = cx.log_len();
            let did = w.op(src, cx, &weights)?;
            if did == Did::Nothing {
                continue;
            }
            let ddl = cx.tail(n).iter().any(|s| s.contains("CREATE") || s.contains("ALTER") || s.contains("DROP"));
            cx.eval(ddl && (did.rolled_back() || before.tables.values().any(|t| !t.rows.is_empty())));
            if ddl {
                cx.distinct(cx.trace_hash());
            }
            w.compare(&format!("after event {i} ({did:?})"))?;
            if src.chance(1, 3) {
                shapes(src, cx, &w)?;
            }
            if src.chance(1, 5) {
                let db = w.db();
                probes(src, cx, &w.st, db, &mut |s| exec(db, s))?;
            }
        }
        w.close();
        w.open()?;
        w.compare("after reopening")?;
        shapes(src, cx, &w)
    }
}
/// Columns by name, defaults and constraints, each tried in a session that is thrown away.
pub fn shapes(src: &Src, cx: &mut Cx, w: &World) -> Res {
    for t in w.st.tables.values() {
        let db = w.db();
        let mut st = w.st.clone();
        let mut s = db.session().map_err(err("session"))?;
        let mut run = |q: &str| sess(&mut s, q);
        for c in &t.cols {
            let q = format!("SELECT {} FROM {}", c.name, t.name);
            let got = run(&q);
            panics()?;
            let i = t.cols.iter().position(|x| x.name == c.name).unwrap();
            match got {
                Ok(Out::Rows(1, r)) => same_set(t.rows.values().map(|r| vec![r[i].clone()]).collect(), rows_of(&r)).map_err(|e| Violation { kind: "column".into(), msg: format!("{q}: {e}") })?,
                o => return viol("column", format!("{q}: {o:?}")),
            }
        }
        for k in 0..9 {
            let n = format!("c{k}");
            if !t.cols.iter().any(|c| c.name == n) {
                if let Ok(o) = run(&format!("SELECT {n} FROM {}", t.name)) {
                    return viol("ghost-column", format!("{} has no column {n}, yet it can be selected: {}", t.name, show_out(&o)));
                }
            }
        }
        // defaults, NOT NULL and uniqueness as the catalog has them
        for _ in 0..1 + src.usize(3) {
            let t = st.tables[&t.name].clone();
            step(cx, &mut st, &sqlgen::insert(src, &t, 1), &mut run)?;
        }
        compare_all(&st, "with rows added by a session", &mut run)?;
    }
    Ok(())
}

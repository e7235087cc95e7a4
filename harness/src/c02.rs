//! C02: a crash leaves no trace of unfinished or rolled-back transactions.
use crate::{core::*, crash::*, db::*, hist::*, sqlmodel::*};
use axmosdb::{DBConfig, Database};
use std::path::Path;

pub struct C02;
impl Property for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "one case = a generated history of transactions that commit, are dropped, are rolled back or fail (single statements, sessions one after another or up to 5 at once with some left open, batches; DML and DDL), with checkpoints in the middle of transactions and caches from 12 frames up, so that their pages reach the file, every file mutation recorded; at up to 14 crash points the image is opened and the contents have to be exactly those of the acknowledged commits, or those plus the one commit in progress. One evaluation = one crash point; non-trivial: changes of a transaction that was open, had been rolled back, or was committing in several statements, before that point"
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the process dies, the operating system does not: file writes reach the file in the order they were issued, and each is whole".into(), "UPDATE followed by an explicit Session::abort_transaction is left out (known finding of C03); dropped sessions, failed batches and failed statements are not".into()]
    }
    fn plan(&self, thorough: bool) -> Plan {
        Plan { cases: if thorough { 400_000 } else { 9_000 }, batch: 5, timeout_s: 120, shrink_s: 90, workers: 8, budget_s: if thorough { 2700 } else { 260 } }
    }
    fn run_case(&self, src: &mut Src, cx: &mut Cx) -> Res {
        let src = &*src;
        let thorough = cx.tier_thorough;
        let o = Opts {
            world: W { dml: 14, ddl: 6, bad: 4, select: 0, sess: 50, batch: 16, vacuum: 2, reopen: 2, analyze: 1, flush: 5 },
            ddl_in_tx: 15,
            steps: *src.pick(&[14, 5, 40]),
            multi: 50,
            vacuum: 1,
        };
        let h = history(src, cx, &o)?;
        cx.class_n("commits acknowledged", h.commits() as u64);
        cx.class_n("file operations recorded", h.events() as u64);
        let mut img = h.image();
        let mut at_k = h.first();
        for k in h.points(src, if thorough { 30 } else { 14 }) {
            h.forward(&mut img, at_k, k);
            at_k = k;
            let at = h.describe(k);
            let ((must, _), may) = h.states(k);
            let dirty = h.seg(k).is_some_and(|s| s.dirt > 0);
            cx.eval(dirty);
            if dirty {
                cx.distinct(mix(&[cx.trace_hash(), k as u64]));
            }
            cx.class(&format!("crash in {}", h.seg(k).map_or("-", |s| s.label)));
            if may.is_some() {
                cx.class("one commit in progress");
            }
            if img.len_of("db-journal") > 0 {
                cx.class("pages written since the checkpoint");
            }
            let dir = cx.fresh_dir("image");
            img.put(&dir);
            let db = reopen(&dir, h.cfg, &at)?;
            let st: Vec<_> = [Some(&must), may.as_ref()].into_iter().flatten().collect();
            let d = dump(&db, &st)?;
            let diffs: Vec<_> = st.iter().map(|s| differs(&d, s)).collect();
            if diffs.iter().all(|x| x.is_some()) {
                let e = diffs.into_iter().flatten().collect::<Vec<_>>();
                let e = if e.len() == 2 { format!("compared with the acknowledged commits: {}\n  compared with one more: {}", e[0], e[1]) } else { e[0].clone() };
                return viol("trace", format!("{at}\n  after opening: {e}"));
            }
            if diffs[0].is_some() {
                cx.class("the commit in progress counts");
            }
            // what is gone stays gone
            if src.chance(1, 5) {
                let _ = db.vacuum();
                let again = dump(&db, &st)?;
                if again != d {
                    return viol("trace", format!("{at}\n  after opening and VACUUM the contents are others"));
                }
                cx.class("VACUUM after opening");
            }
        }
        Ok(())
    }
    fn probe(&self, finding: &str, dir: &Path) -> Option<bool> {
        if finding != "C02-explicit-abort-keeps-updates" {
            return None;
        }
        let cfg = DBConfig::new(4096, 500, 1, 3, 2);
        let here = dir.join("p");
        std::fs::create_dir_all(&here).ok()?;
        let tape = Tape::start(&here);
        let run = || -> Option<()> {
            let db = Database::create(here.join("db"), cfg).ok()?;
            exec(&db, "CREATE TABLE t (a INT, b INT)").ok()?;
            exec(&db, "INSERT INTO t VALUES (1, 10)").ok()?;
            let mut s = db.session().ok()?;
            sess(&mut s, "UPDATE t SET b = 20 WHERE a = 1").ok()?;
            s.abort_transaction().ok()?;
            db.flush().ok()?;
            Tape::stop();
            Some(())
        };
        let r = run();
        Tape::stop();
        r?;
        let mut img = Image::default();
        tape.forward(&mut img, 0, tape.len());
        let there = dir.join("q");
        std::fs::create_dir_all(&there).ok()?;
        img.put(&there);
        let db = Database::open(there.join("db"), cfg).ok()?;
        let r = rows_of(&exec(&db, "SELECT b FROM t").ok()?.rows());
        Some(r == vec![vec![V::Int(20)]])
    }
}

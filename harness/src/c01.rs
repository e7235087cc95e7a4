//! C01: acknowledged commits survive a crash at any later instant.
use crate::{c06::probes, c15::shapes, core::*, crash::*, db::*, hist::*};

pub struct C01;
impl Property for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "one case = a generated history (autocommit DML and DDL, long values, sessions one after another or up to 5 at once, batches, flush, VACUUM, ANALYZE, close and open, small and large caches) with every file mutation recorded; at up to 14 crash points (prefixes of the recorded mutations, also in the middle of commits, checkpoints, evictions and VACUUM) the image is opened and everything acknowledged by then has to be there: rows, absent rows, tables, columns, and (sampled) constraints and index look-ups. One evaluation = one crash point; non-trivial: the image has log records on top of a checkpoint and acknowledged rows"
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the process dies, the operating system does not: file writes reach the file in the order they were issued, and each is whole".into(), "Database::create has returned".into()]
    }
    fn plan(&self, thorough: bool) -> Plan {
        Plan { cases: if thorough { 400_000 } else { 9_000 }, batch: 5, timeout_s: 120, shrink_s: 90, workers: 8, budget_s: if thorough { 2700 } else { 260 } }
    }
    fn run_case(&self, src: &mut Src, cx: &mut Cx) -> Res {
        let src = &*src;
        let thorough = cx.tier_thorough;
        let o = Opts {
            world: W { dml: 50, ddl: 10, bad: 1, select: 0, sess: 22, batch: 8, vacuum: 2, reopen: 2, analyze: 1, flush: 4 },
            ddl_in_tx: 12,
            steps: *src.pick(&[20, 6, 60, 120]),
            multi: 30,
            vacuum: 1,
        };
        let h = history(src, cx, &o)?;
        cx.class_n("commits acknowledged", h.commits() as u64);
        cx.class_n("file operations recorded", h.events() as u64);
        let mut img = h.image();
        let mut at_k = h.first();
        for k in h.points(src, if thorough { 30 } else { 14 }) {
            h.forward(&mut img, at_k, k);
            at_k = k;
            let at = h.describe(k);
            let ((must, n), may) = h.states(k);
            let log = img.len_of("axmos.log");
            let some = must.tables.values().any(|t| !t.rows.is_empty());
            cx.eval(log > 0 && some);
            if log > 0 && some {
                cx.distinct(mix(&[cx.trace_hash(), k as u64]));
            }
            cx.class(&format!("crash in {}", h.seg(k).map_or("-", |s| s.label)));
            if log > 2 * 40960 {
                cx.class("log of several blocks");
            }
            if img.len_of("db-journal") > 0 {
                cx.class("pages written since the checkpoint");
            }
            let dir = cx.fresh_dir("image");
            img.put(&dir);
            let db = match reopen(&dir, h.cfg, &at) {
                Ok(db) => db,
                Err(_) if n == 0 => {
                    cx.class("does not open, nothing acknowledged (C08)");
                    continue;
                }
                Err(v) => return Err(v),
            };
            let st: Vec<_> = [Some(&must), may.as_ref()].into_iter().flatten().collect();
            let d = dump(&db, &st)?;
            let same = st.iter().find(|s| differs(&d, s).is_none());
            match same {
                Some(s) => {
                    if src.chance(1, 3) && only(&d, &st) {
                        let w = World::around(dir.join("db"), h.cfg, db, (*s).clone());
                        let wrap = |v: Violation| Violation { kind: v.kind, msg: format!("{at}: after opening: {}", v.msg) };
                        let db = w.db();
                        probes(src, cx, &w.st, db, &mut |q| exec(db, q)).map_err(wrap)?;
                        shapes(src, cx, &w).map_err(wrap)?;
                        cx.class("looked at through indexes and constraints");
                    }
                }
                None => {
                    let l: Vec<_> = st.iter().map(|s| h.lost(&d, s)).collect();
                    if let Some(Some(e)) = l.first().filter(|_| l.iter().all(|x| x.is_some())) {
                        return viol("lost", format!("{at}\n  after opening: {e}"));
                    }
                    cx.class("contents of others on top (C02)");
                }
            }
        }
        Ok(())
    }
}

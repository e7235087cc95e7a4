//! C04: snapshot isolation, at statement granularity.
use crate::{core::*, hist::*, multi::*};
use axmosdb::DBConfig;

pub struct C04;
impl Property for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "one case = an interleaving of up to 5 open sessions and autocommit statements over tables with few rows and keys, sessions ending by COMMIT, drop or rollback, with VACUUM; after a step every open session and a new transaction read every table (by scan and through indexes) and must see the state committed at their begin plus their own changes; a statement or COMMIT may be refused only when a concurrent transaction changed the same row or claimed the same key, and two such never both commit. Non-trivial: a read by a session while others committed changes since it began, or over its own changes"
    }
    fn plan(&self, thorough: bool) -> Plan {
        Plan { cases: if thorough { 500_000 } else { 30_000 }, batch: 25, timeout_s: 60, shrink_s: 60, workers: 8, budget_s: if thorough { 2400 } else { 240 } }
    }
    fn run_case(&self, src: &mut Src, cx: &mut Cx) -> Res {
        let src = &*src;
        let mut w = World::new(cx, DBConfig::new(4096, 3000, 2, 3, 2))?;
        w.fill(src, cx, 1 + src.usize(2), *src.pick(&[6, 3, 20, 60]))?;
        let mut m = Multi::new(w);
        let mw = MW { begin: 12, stmt: 44, auto: 12, end: 13, check: 18, vacuum: if src.chance(1, 3) { 2 } else { 0 } };
        for _ in 0..10 + src.usize(50) {
            m.op(src, cx, &mw)?;
        }
        m.check(src, cx, true)?;
        cx.distinct(cx.trace_hash());
        m.open.clear();
        m.check(src, cx, true)?;
        if src.chance(1, 4) {
            m.w.close();
            m.w.open()?;
            m.check(src, cx, false)?;
        }
        Ok(())
    }
}

//! C09: close and open.
use crate::{c06::probes, c15::shapes, core::*, db::*, hist::*, sqlmodel::*};

pub struct C09;
impl Property for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "one case = 2..8 rounds of generated work (DML, DDL, sessions that commit or not, batches, VACUUM) each followed by flush or drop of the handle and an open with settings of its own; after each open all tables, columns, constraints, index look-ups and absent names are compared with the model, and row, object and transaction ids handed out before and after are checked for reuse. Non-trivial: a reopen after work of which some was committed and some rolled back"
    }
    fn plan(&self, thorough: bool) -> Plan {
        Plan { cases: if thorough { 200_000 } else { 4_000 }, batch: 20, timeout_s: 60, shrink_s: 60, workers: 8, budget_s: if thorough { 2400 } else { 240 } }
    }
    fn run_case(&self, src: &mut Src, cx: &mut Cx) -> Res {
        let src = &*src;
        let cfg = config(src);
        let mut w = World::new(cx, cfg)?;
        w.odd_reopen = true;
        w.outside = src.chance(1, 4);
        w.ddl_in_tx = *src.pick(&[12, 0, 40]);
        w.fill(src, cx, 1 + src.usize(3), *src.pick(&[15, 60, 200]))?;
        let weights = W { dml: 30, ddl: 14, bad: 2, select: 0, sess: 24, batch: 10, vacuum: 3, reopen: 0, analyze: 3, flush: 4 };
        let mut ids = Ids::default();
        for round in 0..2 + src.usize(7) {
            let (mut did, mut undone) = (false, false);
            for _ in 0..src.usize(7) {
                let d = w.op(src, cx, &weights)?;
                did |= matches!(d, Did::Statement | Did::Committed | Did::BatchOk);
                undone |= d.rolled_back();
            }
            ids.note(&w, "before closing")?;
            // sessions still open when the handle goes away are rolled back
            let open = if src.chance(1, 4) {
                let mut s = w.db().session().map_err(err("session"))?;
                let mut own = w.st.clone();
                for _ in 0..1 + src.usize(3) {
                    if let Some(x) = crate::sqlgen::dml(src, &own) {
                        step(cx, &mut own, &x, &mut |q| sess(&mut s, q))?;
                    }
                }
                undone = true;
                Some(s)
            } else {
                None
            };
            let pages = match src.usize(3) {
                0 => {
                    w.db().flush().map_err(err("flush"))?;
                    "flush, drop"
                }
                1 => {
                    for _ in 0..2 {
                        w.db().flush().map_err(err("flush"))?;
                    }
                    "flush twice, drop"
                }
                _ => "drop",
            };
            cx.log(format!("-- round {round}: {pages}, open"));
            drop(open);
            w.close();
            w.cfg = config(src);
            w.open()?;
            cx.eval(did && undone);
            cx.distinct(cx.trace_hash());
            let at = format!("after reopening in round {round}");
            w.compare(&at)?;
            ids.note(&w, &at)?;
            if src.chance(1, 2) {
                let db = w.db();
                probes(src, cx, &w.st, db, &mut |s| exec(db, s))?;
            }
            if src.chance(1, 3) {
                shapes(src, cx, &w)?;
            }
        }
        Ok(())
    }
}
/// Counters only grow, and what is handed out anew was not in use.
#[derive(Default)]
struct Ids {
    last_tid: u64,
    last_object: u64,
    next_row: std::collections::BTreeMap<u64, u64>,
}
impl Ids {
    fn note(&mut self, w: &World, at: &str) -> Res {
        let v = axmosdb::verif::VDb(w.db());
        let h = v.header();
        if (h.last_created as u64) < self.last_tid {
            return viol("transaction-ids", format!("{at}: the last transaction id went from {} back to {}", self.last_tid, h.last_created));
        }
        self.last_tid = h.last_created as u64;
        if (h.last_object as u64) < self.last_object {
            return viol("object-ids", format!("{at}: the last object id went from {} back to {}", self.last_object, h.last_object));
        }
        self.last_object = h.last_object as u64;
        let rel = v.relations().map_err(|e| Violation { kind: "catalog".into(), msg: format!("{at}: {e}") })?;
        let mut seen = std::collections::BTreeMap::new();
        for r in &rel {
            if r.id > self.last_object {
                return viol("object-ids", format!("{at}: relation {} has id {}, beyond the last object id {}", r.name, r.id, self.last_object));
            }
            if let Some(other) = seen.insert(r.id, r.name.clone()) {
                return viol("object-ids", format!("{at}: relations {} and {} share the id {}", r.name, other, r.id));
            }
            if r.is_table {
                if let Some(n) = r.next_row_id {
                    let e = self.next_row.entry(r.id).or_insert(n);
                    if n < *e {
                        return viol("row-ids", format!("{at}: the next row id of {} went from {} back to {n}", r.name, *e));
                    }
                    *e = n;
                }
            }
        }
        Ok(())
    }
}

//! C13: VACUUM.
use crate::{c06::probes, c11::audit_db, core::*, db::*, hist::*, sqlgen, sqlmodel::*};
use axmosdb::DBConfig;

pub struct C13;
impl Property for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "one case = a generated history (committed, rolled-back and superseded versions, rolled-back deletes, dropped tables, failed batches, sessions left open) with VACUUM in between; every answer after a VACUUM (tables, index look-ups, sessions begun later, after reopening) is compared with the model; some cases repeat an update/delete/insert cycle with VACUUM and watch the pages in use. Non-trivial: a VACUUM with dead versions to remove, or a full cycle"
    }
    fn plan(&self, thorough: bool) -> Plan {
        Plan { cases: if thorough { 500_000 } else { 15_000 }, batch: 20, timeout_s: 60, shrink_s: 60, workers: 8, budget_s: if thorough { 2400 } else { 240 } }
    }
    fn run_case(&self, src: &mut Src, cx: &mut Cx) -> Res {
        let src = &*src;
        let mut w = World::new(cx, DBConfig::new(4096, 3000, 2, 3, 2))?;
        w.outside = false;
        w.ddl_in_tx = *src.pick(&[12, 0, 30]);
        w.fill(src, cx, 1 + src.usize(3), *src.pick(&[20, 60, 150]))?;
        if src.chance(1, 4) {
            return cycles(src, cx, &mut w);
        }
        let weights = W { dml: 36, ddl: 8, bad: 1, select: 0, sess: 26, batch: 8, vacuum: 0, reopen: 4, analyze: 2, flush: 2 };
        for round in 0..1 + src.usize(6) {
            let mut dead = false;
            for _ in 0..src.usize(9) {
                let d = w.op(src, cx, &weights)?;
                dead |= d != Did::Nothing && d != Did::Reopen;
            }
            // sessions still open are ended by VACUUM; what they did is gone
            let mut open = vec![];
            if src.chance(1, 3) {
                for _ in 0..1 + src.usize(2) {
                    cx.log("-- BEGIN (left open)");
                    let mut s = w.db().session().map_err(err("session"))?;
                    let mut own = w.st.clone();
                    if open.is_empty() {
                        for _ in 0..src.usize(4) {
                            if let Some(x) = sqlgen::dml(src, &own) {
                                step(cx, &mut own, &x, &mut |q| sess(&mut s, q))?;
                            }
                        }
                    }
                    open.push((s, same(&own, &w.st)));
                }
                dead = true;
            }
            cx.log(format!("-- VACUUM {round}"));
            w.db().vacuum().map_err(err("vacuum"))?;
            panics()?;
            cx.eval(dead);
            cx.distinct(cx.trace_hash());
            let at = format!("after VACUUM {round}");
            w.compare(&at)?;
            {
                let db = w.db();
                probes(src, cx, &w.st, db, &mut |s| exec(db, s))?;
            }
            for (mut s, untouched) in open {
                // an ended session says so, or answers as it should
                for (n, t) in &w.st.tables {
                    if let (Ok(Out::Rows(_, r)), true) = (sess(&mut s, &format!("SELECT * FROM {n}")), untouched) {
                        same_set(t.rows.values().cloned().collect(), rows_of(&r)).map_err(|e| Violation { kind: "open-session".into(), msg: format!("{at}: a session begun before: {n}: {e}") })?;
                    }
                }
                panics()?;
                if src.chance(1, 2) {
                    let _ = s.commit_transaction();
                }
                drop(s);
                panics()?;
                w.compare(&format!("{at}, after ending a session begun before"))?;
            }
            if src.chance(1, 3) {
                let f = audit_db(w.db(), &at)?;
                cx.class_n("pages audited", f.total);
            }
            if src.chance(1, 4) {
                w.close();
                w.open()?;
                w.compare(&format!("{at} and reopening"))?;
            }
        }
        // and it is still a working database
        for _ in 0..src.usize(6) {
            w.op(src, cx, &weights)?;
        }
        w.compare("at the end")
    }
}
fn same(a: &State, b: &State) -> bool {
    a.tables.iter().all(|(n, t)| b.tables.get(n).is_some_and(|u| t.rows == u.rows))
}
/// The same work over and over with VACUUM: the storage in use stays bounded.
fn cycles(src: &Src, cx: &mut Cx, w: &mut World) -> Res {
    let t = sqlgen::pick_table(src, &w.st).unwrap().name.clone();
    let mode = src.usize(4);
    let n = 6 + src.usize(10);
    let mut used = vec![];
    for i in 0..n {
        match mode {
            0 | 1 => {
                // rewrite every row of every table with a value of the same size
                for k in 0..1 + src.usize(3) {
                    for (_, t) in w.st.tables.clone() {
                        let c = (0..t.cols.len()).find(|c| !t.uniques.iter().any(|u| u.cols.contains(c)));
                        let Some(c) = c else { continue };
                        let v = sqlgen::fresh(src, t.cols[c].ty, 100 + (i * 3 + k) as u64 % 50);
                        let x = Stmt::Update { table: t.name.clone(), sets: vec![(t.cols[c].name.clone(), E::Lit(v))], filter: None, full: false };
                        if mode == 1 && src.chance(1, 2) {
                            let mut s = w.db().session().map_err(err("session"))?;
                            let mut own = w.st.clone();
                            step(cx, &mut own, &x, &mut |q| sess(&mut s, q))?;
                        } else {
                            w.auto(cx, &x)?;
                        }
                    }
                }
            }
            2 => {
                // take everything out and put as many rows back
                let tb = w.st.tables[&t].clone();
                let rows: Vec<Vec<V>> = tb.rows.values().cloned().collect();
                w.auto(cx, &Stmt::Delete { table: t.clone(), filter: None, full: false })?;
                for c in rows.chunks(20) {
                    w.auto(cx, &Stmt::Insert { table: t.clone(), cols: None, rows: c.to_vec() })?;
                }
            }
            _ => {
                // a table that comes and goes
                let name = "t9".to_string();
                let mut tb = (*w.st.tables[&t]).clone();
                let rows: Vec<Vec<V>> = tb.rows.values().cloned().collect();
                tb.name = name.clone();
                tb.rows.clear();
                tb.uniques.iter_mut().for_each(|u| u.index = None);
                // rows as they are may break constraints the old table got later: none is added here
                w.auto(cx, &Stmt::CreateTable { t: tb, if_not_exists: false })?;
                for c in rows.chunks(20) {
                    w.auto(cx, &Stmt::Insert { table: name.clone(), cols: None, rows: c.to_vec() })?;
                }
                w.auto(cx, &Stmt::DropTable { name, if_exists: false })?;
            }
        }
        cx.log("-- VACUUM");
        w.db().vacuum().map_err(err("vacuum"))?;
        panics()?;
        let f = audit_db(w.db(), &format!("after VACUUM {i} of a cycle"))?;
        used.push((f.total, f.total - f.free));
    }
    cx.eval(true);
    cx.class("update/vacuum cycles");
    cx.distinct(cx.trace_hash());
    // after the first cycles have set the level, a later one needs no more than a little above it
    let warm = 3;
    let level = used[..warm].iter().map(|u| u.1).max().unwrap();
    let total = used[..warm].iter().map(|u| u.0).max().unwrap();
    for (i, u) in used.iter().enumerate().skip(warm) {
        if u.1 > level + level / 4 + 4 || u.0 > total + total / 4 + 8 {
            return viol("growth", format!("pages (file, in use) after each cycle of the same work and VACUUM: {used:?}; cycle {i} is above what the first {warm} needed"));
        }
    }
    w.compare("after the cycles")
}

//! C07: UNIQUE, PRIMARY KEY and NOT NULL.
use crate::{c06::probes, core::*, db::*, hist::*, multi::*, sqlgen, sqlmodel::*};
use axmosdb::DBConfig;

pub struct C07;
impl Property for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "one case = a history over tables with UNIQUE / PRIMARY KEY / NOT NULL and few distinct keys: either one statement, session or batch at a time (keys deleted, moved, rolled back and taken again, constraints and unique indexes added over existing rows, VACUUM, reopening) or interleaved sessions competing for keys; every statement has to be accepted or refused as the model says, and the committed rows are read back. Non-trivial: a statement decided by a constraint, or one that reuses a freed key"
    }
    fn plan(&self, thorough: bool) -> Plan {
        Plan { cases: if thorough { 500_000 } else { 30_000 }, batch: 25, timeout_s: 60, shrink_s: 60, workers: 8, budget_s: if thorough { 2400 } else { 240 } }
    }
    fn run_case(&self, src: &mut Src, cx: &mut Cx) -> Res {
        let src = &*src;
        let mut w = World::new(cx, DBConfig::new(4096, 3000, 2, 3, 2))?;
        w.outside = false;
        for i in 0..1 + src.usize(2) {
            let mut t = sqlgen::table(src, &format!("t{i}"), &sqlgen::FULL);
            while t.uniques.is_empty() || src.chance(1, 4) {
                let mut cols = vec![src.usize(t.cols.len())];
                if src.chance(1, 3) {
                    let d = src.usize(t.cols.len());
                    if d != cols[0] {
                        cols.push(d);
                    }
                }
                let pk = !t.uniques.iter().any(|u| u.pk) && src.chance(1, 3);
                t.uniques.push(Uniq { cols, pk, index: None });
                if t.uniques.len() > 3 {
                    break;
                }
            }
            w.auto(cx, &Stmt::CreateTable { t, if_not_exists: false })?;
        }
        if src.chance(2, 5) {
            cx.class("interleaved sessions");
            let mut m = Multi::new(w);
            let mw = MW { begin: 12, stmt: 50, auto: 14, end: 16, check: 6, vacuum: if src.chance(1, 4) { 2 } else { 0 } };
            for _ in 0..10 + src.usize(50) {
                m.op(src, cx, &mw)?;
                cx.eval(true);
            }
            m.check(src, cx, true)?;
            cx.distinct(cx.trace_hash());
            return Ok(());
        }
        let weights = W { dml: 6, ddl: 0, bad: 0, select: 0, sess: 10, batch: 8, vacuum: 4, reopen: 4, analyze: 1, flush: 1 };
        w.ddl_in_tx = 0;
        for i in 0..10 + src.usize(40) {
            match src.weighted(&[70, 26, 4]) {
                0 => {
                    let Some(x) = collide(src, &w.st) else { continue };
                    let r = w.auto(cx, &x)?;
                    cx.eval(r == Some(false) || matches!(x, Stmt::Update { .. }));
                    if r == Some(false) {
                        cx.distinct(hash_str(&x.sql(&w.st)));
                    }
                }
                1 => {
                    w.op(src, cx, &weights)?;
                }
                _ => {
                    let t = sqlgen::pick_table(src, &w.st).unwrap();
                    let c = t.cols[src.usize(t.cols.len())].name.clone();
                    let table = t.name.clone();
                    let x = match src.usize(4) {
                        0 => Stmt::AddUnique { table, cols: vec![c], pk: src.chance(1, 3) },
                        1 => Stmt::SetNotNull { table, col: c, on: src.chance(3, 4) },
                        _ => Stmt::CreateIndex { table, name: format!("x{}", src.usize(4)), cols: vec![c], if_not_exists: false },
                    };
                    let r = w.auto(cx, &x)?;
                    cx.eval(r.is_some());
                }
            }
            if src.chance(1, 6) {
                w.compare(&format!("after step {i}"))?;
                let db = w.db();
                probes(src, cx, &w.st, db, &mut |q| exec(db, q))?;
            }
        }
        cx.distinct(cx.trace_hash());
        w.compare("at the end")
    }
}
/// Statements whose fate hangs on a constraint.
fn collide(src: &Src, st: &State) -> Option<Stmt> {
    let t = sqlgen::pick_table(src, st)?;
    let ucols: Vec<usize> = t.uniques.iter().flat_map(|u| u.cols.clone()).collect();
    Some(match src.weighted(&[40, 30, 20, 10]) {
        0 => hot(src, st)?,
        1 => {
            // shift or swap keys
            let c = *src.pick(&ucols);
            let e = match t.cols[c].ty.class() {
                Cls::Int | Cls::Flt | Cls::Num => bin(*src.pick(&[Op::Add, Op::Sub]), E::Col(c), E::Lit(V::Int(src.range(1, 3) as i128))),
                Cls::Text => bin(Op::Concat, E::Col(c), E::Lit(V::S("x".into()))),
                Cls::Bool => E::Not(bx(E::Col(c))),
            };
            let filter = if src.chance(1, 2) { None } else { sqlgen::where_(src, t) };
            Stmt::Update { table: t.name.clone(), sets: vec![(t.cols[c].name.clone(), e)], filter, full: false }
        }
        2 => {
            // a row like one that is, or was, there
            let ids: Vec<&u64> = t.rows.keys().collect();
            if ids.is_empty() {
                return hot(src, st);
            }
            let mut r = t.rows[*src.pick(&ids)].clone();
            for c in 0..r.len() {
                if src.chance(1, 3) {
                    r[c] = if src.chance(1, 3) { V::Null } else { sqlgen::fresh(src, t.cols[c].ty, src.below(14)) };
                }
            }
            Stmt::Insert { table: t.name.clone(), cols: None, rows: vec![r] }
        }
        _ => {
            let c = src.usize(t.cols.len());
            Stmt::Update { table: t.name.clone(), sets: vec![(t.cols[c].name.clone(), E::Lit(V::Null))], filter: sqlgen::where_(src, t), full: false }
        }
    })
}

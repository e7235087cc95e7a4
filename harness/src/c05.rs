//! C05: query answers and DML counts against the reference model.
use crate::{core::*, db::*, sqlgen, sqlmodel::*};
use axmosdb::{DBConfig, Database};
use std::sync::Arc;

pub struct C05;
impl Property for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "one case = a generated schema with rows, then generated SELECT/INSERT/UPDATE/DELETE statements, each compared with the reference evaluator; non-trivial: a SELECT whose expected answer has at least one row, or a DML statement that changed a row"
    }
    fn plan(&self, thorough: bool) -> Plan {
        Plan { cases: if thorough { 1_500_000 } else { 30_000 }, batch: 100, timeout_s: 60, shrink_s: 60, workers: 8, budget_s: if thorough { 1800 } else { 240 } }
    }
    fn run_case(&self, src: &mut Src, cx: &mut Cx) -> Res {
        let src = &*src;
        let dir = cx.fresh_dir("db");
        let db = Database::create(dir.join("db"), DBConfig::new(4096, 3000, 2, 3, 2)).map_err(|e| Violation { kind: "create".into(), msg: e.to_string() })?;
        let mut st = State::default();
        let mut run = |sql: &str| exec(&db, sql);
        setup(src, cx, &mut st, 3, &mut run)?;
        let n = 6 + src.usize(26);
        for _ in 0..n {
            let s = match src.weighted(&[76, 18, 4, 2]) {
                0 => Stmt::Select(sqlgen::query(src, &st, &sqlgen::QFULL)),
                1 => match sqlgen::dml(src, &st) {
                    Some(s) => s,
                    None => continue,
                },
                2 => sqlgen::bad(src, &st),
                _ => {
                    db.analyze(1.0, 10000).map_err(|e| Violation { kind: "analyze".into(), msg: e.to_string() })?;
                    panics()?;
                    cx.log("ANALYZE");
                    continue;
                }
            };
            note(cx, &s, &st);
            step(cx, &mut st, &s, &mut run)?;
        }
        compare_all(&st, "at the end", &mut run)
    }
}

/// Classes of one statement, and whether it counts as non-trivial.
pub fn note(cx: &mut Cx, s: &Stmt, st: &State) {
    match s {
        Stmt::Select(q) => {
            let mut nontrivial = false;
            if let Ok(o) = q.eval(st) {
                nontrivial = !o.rows.is_empty();
            }
            cx.eval(nontrivial);
            if nontrivial {
                cx.distinct(hash_str(&q.sql(st)));
            }
            let j = joins(&q.from);
            if j > 0 {
                cx.class(&format!("joins {j}"));
            }
            if q.grouped() {
                cx.class("grouped");
            }
            if !q.order.is_empty() {
                cx.class("ordered");
            }
            if q.distinct {
                cx.class("distinct");
            }
        }
        _ => cx.eval(s.is_dml()),
    }
}
fn joins(f: &From) -> usize {
    match f {
        From::Join { l, .. } => 1 + joins(l),
        _ => 0,
    }
}

/// Tables with rows, through the given way of running statements.
pub fn setup(src: &Src, cx: &mut Cx, st: &mut State, max_tables: usize, run: &mut dyn FnMut(&str) -> Result<Out, String>) -> Res {
    for i in 0..1 + src.usize(max_tables) {
        let t = sqlgen::table(src, &format!("t{i}"), &sqlgen::FULL);
        step(cx, st, &Stmt::CreateTable { t, if_not_exists: false }, run)?;
        let n = [0, 3, 12, 40, 150][src.weighted(&[4, 30, 40, 22, 4])];
        let mut left = if n == 0 { 0 } else { 1 + src.usize(n) };
        let mut misses = 0;
        while left > 0 && misses < 4 {
            let k = left.min(1 + src.usize(10));
            let t: Arc<Table> = st.tables[&format!("t{i}")].clone();
            match step(cx, st, &sqlgen::insert(src, &t, k), run)? {
                Some(true) => left -= k,
                _ => misses += 1,
            }
        }
    }
    Ok(())
}

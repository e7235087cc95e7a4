//! Small conveniences over the public SQL API, shared by the SQL-level checks.
use axmosdb::types::DataType;
use axmosdb::runtime::QueryResult;
use axmosdb::tcp::session::Session;
use axmosdb::{DBConfig, Database};
use std::path::Path;

#[derive(Debug, Clone)]
pub enum Out {
    Rows(usize, Vec<Vec<DataType>>),
    Affected(u64),
    Ddl(String),
}

pub fn out_of(r: QueryResult) -> Out {
    match r {
        QueryResult::Rows(rows) => {
            let v: Vec<Vec<DataType>> = rows.iterrows().map(|r| (0..r.len()).map(|i| r[i].clone()).collect()).collect();
            Out::Rows(rows.num_columns(), v)
        }
        QueryResult::RowsAffected(n) => Out::Affected(n),
        QueryResult::Ddl(o) => Out::Ddl(format!("{:?}", o)),
    }
}

impl Out {
    pub fn rows(self) -> Vec<Vec<DataType>> {
        match self {
            Out::Rows(_, r) => r,
            _ => vec![],
        }
    }
    pub fn affected(&self) -> Option<u64> {
        if let Out::Affected(n) = self { Some(*n) } else { None }
    }
}

pub fn show_out(o: &Out) -> String {
    match o {
        Out::Rows(n, r) => {
            let mut s = format!("{} cols, {} rows:", n, r.len());
            for x in r.iter().take(40) {
                s.push_str("\n  ");
                s.push_str(&crate::values::show_row(x));
            }
            s
        }
        o => format!("{:?}", o),
    }
}

thread_local! {
    /// Called before (None) and after every statement of this thread.
    static PACE: std::cell::RefCell<Option<Box<dyn Fn(&str, Option<&Result<Out, String>>)>>> = const { std::cell::RefCell::new(None) };
}
pub fn set_pace(f: Option<Box<dyn Fn(&str, Option<&Result<Out, String>>)>>) {
    PACE.with(|p| *p.borrow_mut() = f);
}
pub fn paced(sql: &str, run: impl FnOnce() -> Result<Out, String>) -> Result<Out, String> {
    PACE.with(|p| if let Some(f) = &*p.borrow() { f(sql, None) });
    let r = run();
    PACE.with(|p| if let Some(f) = &*p.borrow() { f(sql, Some(&r)) });
    r
}

pub fn exec(db: &Database, sql: &str) -> Result<Out, String> {
    paced(sql, || db.execute(sql).map(out_of).map_err(|e| e.to_string()))
}

pub fn sess(s: &mut Session, sql: &str) -> Result<Out, String> {
    paced(sql, || s.execute(sql).map(out_of).map_err(|e| e.to_string()))
}

/// `axharness sql <dir> [page cache]`: statements from stdin; lines `#s1 stmt` run in session 1 and so on.
pub fn repl(dir: &str) {
    let path = Path::new(dir).join("db");
    let cfg = DBConfig::new(4096, 2000, 2, 3, 2);
    let mut db = Some(Database::open_or_create(&path, cfg.clone()).expect("open"));
    let mut sessions: std::collections::HashMap<String, Session> = Default::default();
    for line in std::io::stdin().lines() {
        let line = line.unwrap();
        let line = line.trim();
        if line.is_empty() {
            continue;
        }
        println!("> {line}");
        let d = db.as_ref().unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> String {
            if let Some(rest) = line.strip_prefix("#e ") {
                return match d.explain(rest) {
                    Ok(s) => s,
                    Err(e) => format!("ERR {e}"),
                };
            }
            if line == "#vacuum" {
                return format!("{:?}", d.vacuum().map(|_| ()));
            }
            if line == "#analyze" {
                return format!("{:?}", d.analyze(1.0, 10000).map(|_| ()));
            }
            if line == "#flush" {
                return format!("{:?}", d.flush());
            }
            if let Some(rest) = line.strip_prefix("#b ") {
                let v: Vec<&str> = rest.split(';').collect();
                return match d.execute_batch(&v) {
                    Ok(v) => v.into_iter().map(|r| show_out(&out_of(r))).collect::<Vec<_>>().join("\n"),
                    Err(e) => format!("ERR {e}"),
                };
            }
            if let Some(rest) = line.strip_prefix('#') {
                if rest == "reopen" {
                    return "reopen".into();
                }
                let (name, stmt) = rest.split_once(' ').unwrap();
                if stmt == "commit" {
                    return format!("{:?}", sessions.remove(name).map(|mut s| s.commit_transaction()));
                }
                if stmt == "abort" {
                    return format!("{:?}", sessions.remove(name).map(|mut s| s.abort_transaction()));
                }
                let s = sessions.entry(name.to_string()).or_insert_with(|| d.session().unwrap());
                return match sess(s, stmt) {
                    Ok(o) => show_out(&o),
                    Err(e) => format!("ERR {e}"),
                };
            }
            match exec(d, line) {
                Ok(o) => show_out(&o),
                Err(e) => format!("ERR {e}"),
            }
        }));
        match r {
            Ok(s) => println!("{s}"),
            Err(_) => println!("PANIC"),
        }
        if line == "#reopen" {
            sessions.clear();
            drop(db.take());
            db = Some(Database::open(&path, cfg.clone()).expect("reopen"));
        }
    }
}

// ------------------------------------------------------------------ statements against the reference model

use crate::core::{Cx, Res, Violation, take_panics, viol};
use crate::sqlmodel::*;

pub fn panics() -> Res {
    let p = take_panics();
    if let Some(l) = p.last() {
        if l.contains("harness/src") || l.contains("@ src/") {
            return viol("HARNESS", format!("harness panic: {l}"));
        }
        return viol(&crate::core::panic_kind(l), format!("panic inside the engine: {}", p.join(" | ")));
    }
    Ok(())
}
/// Compares one outcome with what the model expects.
pub fn judge(sql: &str, ex: &Expect, got: &Result<Out, String>) -> Res {
    panics()?;
    match (ex, got) {
        (Expect::Fail(m), Ok(o)) => viol("accepted", format!("{sql}\n  must fail ({m}) but returned {}", show_out(o))),
        (Expect::Fail(_), Err(_)) => Ok(()),
        (Expect::Rows(q), Err(e)) => {
            // filters may run before joins drop rows, or not: arithmetic errors depend on it
            let arithmetic = e.contains("numeric value out of range") || e.contains("division by zero") || e.contains("invalid arguments for function ABS") || e.contains("unexpected data type: Big");
            if q.may_err || (q.reorder && arithmetic) { Ok(()) } else { viol("rejected", format!("{sql}\n  failed: {e}")) }
        }
        (_, Err(e)) => viol("rejected", format!("{sql}\n  failed: {e}")),
        (Expect::Rows(q), Ok(Out::Rows(n, r))) => {
            if *n != q.cols.len() {
                return viol("columns", format!("{sql}\n  returned {n} columns instead of {}", q.cols.len()));
            }
            q.check(&rows_of(r)).map_err(|e| Violation { kind: "rows".into(), msg: format!("{sql}\n  {e}") })
        }
        (Expect::Affected(k), Ok(Out::Affected(g))) => {
            if k == g { Ok(()) } else { viol("count", format!("{sql}\n  reported {g} rows, {k} were addressed")) }
        }
        (Expect::Ddl, Ok(Out::Ddl(_))) => Ok(()),
        (_, Ok(o)) => viol("outcome", format!("{sql}\n  returned {}", show_out(o))),
    }
}
fn too_large(e: &str) -> bool {
    e.strip_prefix("runtime error").is_some()
        && e.split("Record size ").nth(1).and_then(|r| r.split(' ').next()).and_then(|n| n.parse::<usize>().ok()).is_some_and(|n| n > 40_000)
}
/// Runs one statement on both sides. None: not determined by SQL, not run.
pub fn step(cx: &mut Cx, st: &mut State, s: &Stmt, run: &mut dyn FnMut(&str) -> Result<Out, String>) -> Result<Option<bool>, Violation> {
    Ok(step_ex(cx, st, s, run)?.map(|(_, e)| !matches!(e, Expect::Fail(_))))
}
pub fn step_ex(cx: &mut Cx, st: &mut State, s: &Stmt, run: &mut dyn FnMut(&str) -> Result<Out, String>) -> Result<Option<(String, Expect)>, Violation> {
    let sql = s.sql(st);
    let mut next = st.clone();
    let ex = match s.apply(&mut next) {
        Ok(e) => e,
        Err(_) => {
            cx.class("not determined, not run");
            return Ok(None);
        }
    };
    cx.log(if sql.len() > 400 { format!("{}.. [{}]", sql.chars().take(400).collect::<String>(), sql.len()) } else { sql.clone() });
    let got = run(&sql);
    if s.is_dml() && matches!(&got, Err(e) if too_large(e)) {
        // a row that a log record cannot hold: refused as a whole
        panics()?;
        cx.class("larger than a log record, refused");
        return Ok(None);
    }
    judge(&sql, &ex, &got)?;
    let ok = !matches!(ex, Expect::Fail(_));
    cx.class(&format!("{}{}", s.kind(), if ok { "" } else { " (rejected)" }));
    *st = next;
    Ok(Some((sql, ex)))
}
/// The whole contents, table by table.
pub fn compare_all(st: &State, at: &str, run: &mut dyn FnMut(&str) -> Result<Out, String>) -> Res {
    for (n, t) in &st.tables {
        let sql = format!("SELECT * FROM {n}");
        let got = run(&sql);
        panics()?;
        match got {
            Ok(Out::Rows(c, r)) => {
                if c != t.cols.len() {
                    return viol("columns", format!("{at}: {n} has {c} columns, expected {}", t.cols.len()));
                }
                same_set(t.rows.values().cloned().collect(), rows_of(&r)).map_err(|e| Violation { kind: "contents".into(), msg: format!("{at}: table {n}: {e}") })?;
            }
            o => return viol("contents", format!("{at}: {sql}: {o:?}")),
        }
    }
    Ok(())
}

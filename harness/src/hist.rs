//! Generated histories of a database: autocommit statements, sessions that commit or do not, batches, VACUUM, ANALYZE,
//! flush, close and open; every outcome compared with the reference model. Shared by the SQL-level checks.
use crate::{core::*, db::*, sqlgen, sqlmodel::*};
use axmosdb::tcp::session::Session;
use axmosdb::{DBConfig, Database};
use std::path::PathBuf;

pub fn err(k: &str) -> impl Fn(axmosdb::DatabaseError) -> Violation + '_ {
    move |e| Violation { kind: k.into(), msg: e.to_string() }
}

/// Relative frequencies of what a history does next.
#[derive(Clone, Copy)]
pub struct W {
    pub dml: u32,
    pub ddl: u32,
    pub bad: u32,
    pub select: u32,
    pub sess: u32,
    pub batch: u32,
    pub vacuum: u32,
    pub reopen: u32,
    pub analyze: u32,
    pub flush: u32,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Did {
    Nothing,
    Statement,
    Failed,
    Committed,
    Dropped,
    Aborted,
    BatchOk,
    BatchFailed,
    Vacuum,
    Reopen,
    Analyze,
    Flush,
}
impl Did {
    pub fn rolled_back(self) -> bool {
        matches!(self, Did::Failed | Did::Dropped | Did::Aborted | Did::BatchFailed)
    }
}
/// What was run, for running it again elsewhere.
pub enum Rec {
    Auto(String, Expect),
    Begin,
    In(String, Expect),
    End(Did),
    /// None: must fail.
    Batch(Vec<String>, Option<Vec<Expect>>),
    Vacuum,
    Reopen,
    Analyze,
    Flush,
    /// The committed contents at this point.
    State(State),
}
pub struct World {
    pub rec: Option<Vec<Rec>>,
    pub path: PathBuf,
    pub cfg: DBConfig,
    db: Option<std::sync::Arc<Database>>,
    pub st: State,
    pub max_tables: usize,
    /// DDL among the statements of sessions and batches, in percent.
    pub ddl_in_tx: u64,
    /// Close and open with settings of its own.
    pub odd_reopen: bool,
    /// Compare what other transactions see while a session is open.
    pub outside: bool,
    pub schema: sqlgen::SchemaOpts,
    /// Where acknowledged commits are marked.
    pub tape: Option<std::sync::Arc<crate::crash::Tape>>,
    /// Checkpoints between the statements of a session.
    pub mid_flush: bool,
}
pub const PAGES: [usize; 5] = [4096, 4096, 8192, 16384, 65536];
pub fn config(src: &Src) -> DBConfig {
    DBConfig::new(*src.pick(&PAGES), *src.pick(&[2000, 500, 10_000]), 1 + src.usize(4), 3 + src.usize(4), 1 + src.usize(3))
}

impl World {
    pub fn new(cx: &mut Cx, cfg: DBConfig) -> Result<World, Violation> {
        let path = cx.fresh_dir("db").join("db");
        let db = Database::create(&path, cfg).map_err(err("create"))?;
        Ok(World { rec: None, path, cfg, db: Some(db.into()), st: State::default(), max_tables: 4, ddl_in_tx: 12, odd_reopen: false, outside: true, schema: sqlgen::FULL, tape: None, mid_flush: false })
    }
    pub fn db(&self) -> &Database {
        self.db.as_ref().unwrap()
    }
    /// One autocommit statement.
    pub fn auto(&mut self, cx: &mut Cx, x: &Stmt) -> Result<Option<bool>, Violation> {
        let db = self.db.as_ref().unwrap();
        let from = self.events();
        let Some((q, e)) = step_ex(cx, &mut self.st, x, &mut |q| exec(db, q))? else { return Ok(None) };
        let ok = !matches!(e, Expect::Fail(_));
        self.acked(from);
        self.note(Rec::Auto(q, e));
        Ok(Some(ok))
    }
    /// A world around a database that is there already.
    pub fn around(path: PathBuf, cfg: DBConfig, db: impl Into<std::sync::Arc<Database>>, st: State) -> World {
        World { rec: None, path, cfg, db: Some(db.into()), st, max_tables: 4, ddl_in_tx: 12, odd_reopen: false, outside: true, schema: sqlgen::FULL, tape: None, mid_flush: false }
    }
    pub fn events(&self) -> usize {
        self.tape.as_ref().map_or(0, |t| t.len())
    }
    /// The state is committed, by what began at that event.
    pub fn acked(&self, from: usize) {
        if let Some(t) = &self.tape {
            t.mark(from, &self.st);
        }
    }
    fn note(&mut self, r: Rec) {
        if let Some(v) = &mut self.rec {
            v.push(r);
        }
    }
    /// Marks a point where the contents are to be compared when the recording is run again.
    pub fn note_state(&mut self) {
        let st = self.st.clone();
        self.note(Rec::State(st));
    }
    pub fn close(&mut self) {
        drop(self.db.take());
    }
    pub fn open(&mut self) -> Res {
        self.db = Some(Database::open(&self.path, self.cfg).map_err(err("open"))?.into());
        panics()
    }
    pub fn compare(&self, at: &str) -> Res {
        compare_all(&self.st, at, &mut |s| exec(self.db(), s))?;
        self.absent(at)
    }
    /// Names nothing has are not found.
    pub fn absent(&self, at: &str) -> Res {
        for i in 0..6 {
            let n = sqlgen::named("t", i);
            if !self.st.tables.contains_key(&n) {
                if let Ok(o) = exec(self.db(), &format!("SELECT * FROM {n}")) {
                    return viol("ghost-table", format!("{at}: {n} does not exist, yet SELECT * FROM {n} returns {}", show_out(&o)));
                }
            }
        }
        panics()
    }
    /// Starts with a few filled tables.
    pub fn fill(&mut self, src: &Src, cx: &mut Cx, tables: usize, rows: usize) -> Res {
        for i in 0..tables {
            let n = sqlgen::named("t", i);
            let t = sqlgen::table(src, &n, &self.schema);
            self.auto(cx, &Stmt::CreateTable { t, if_not_exists: false })?;
            let mut left = if rows == 0 { 0 } else { src.usize(rows) };
            let mut misses = 0;
            while left > 0 && misses < 4 {
                let k = left.min(1 + src.usize(20));
                let t = self.st.tables[&n].clone();
                match self.auto(cx, &sqlgen::insert(src, &t, k))? {
                    Some(true) => left -= k,
                    _ => misses += 1,
                }
            }
        }
        Ok(())
    }
    fn tx_stmt(&self, src: &Src, st: &State) -> Option<Stmt> {
        if src.chance(self.ddl_in_tx, 100) {
            sqlgen::ddl(src, st, self.max_tables)
        } else if src.chance(1, 14) {
            Some(sqlgen::bad(src, st))
        } else if src.chance(1, 8) {
            Some(Stmt::Select(sqlgen::query(src, st, &sqlgen::QOpts { max_joins: 1, nested: 1, max_product: 2000 })))
        } else {
            sqlgen::dml(src, st)
        }
    }
    /// One more event.
    pub fn op(&mut self, src: &Src, cx: &mut Cx, w: &W) -> Result<Did, Violation> {
        let k = src.weighted(&[w.dml, w.ddl, w.bad, w.select, w.sess, w.batch, w.vacuum, w.reopen, w.analyze, w.flush]);
        match k {
            0..=3 => {
                let s = match k {
                    0 => sqlgen::dml(src, &self.st),
                    1 => sqlgen::ddl(src, &self.st, self.max_tables),
                    2 => Some(sqlgen::bad(src, &self.st)),
                    _ => Some(Stmt::Select(sqlgen::query(src, &self.st, &sqlgen::QOpts { max_joins: 2, nested: 1, max_product: 3000 }))),
                };
                let Some(s) = s else { return Ok(Did::Nothing) };
                Ok(match self.auto(cx, &s)? {
                    None => Did::Nothing,
                    Some(true) => Did::Statement,
                    Some(false) => Did::Failed,
                })
            }
            4 => self.session(src, cx),
            5 => self.batch(src, cx),
            6 => {
                cx.log("-- VACUUM");
                self.note(Rec::Vacuum);
                self.db().vacuum().map_err(err("vacuum"))?;
                panics()?;
                Ok(Did::Vacuum)
            }
            7 => {
                cx.log("-- close and open");
                self.note(Rec::Reopen);
                if src.chance(1, 2) {
                    self.db().flush().map_err(err("flush"))?;
                }
                self.close();
                if self.odd_reopen {
                    self.cfg = config(src);
                }
                self.open()?;
                Ok(Did::Reopen)
            }
            8 => {
                cx.log("-- ANALYZE");
                self.note(Rec::Analyze);
                self.db().analyze(1.0, 10000).map_err(err("analyze"))?;
                panics()?;
                Ok(Did::Analyze)
            }
            _ => {
                cx.log("-- flush");
                self.note(Rec::Flush);
                self.db().flush().map_err(err("flush"))?;
                panics()?;
                Ok(Did::Flush)
            }
        }
    }
    fn session(&mut self, src: &Src, cx: &mut Cx) -> Result<Did, Violation> {
        let mut s: Session = self.db().session().map_err(err("session"))?;
        cx.log("-- BEGIN");
        self.note(Rec::Begin);
        let mut own = self.st.clone();
        let mut updated = false;
        for _ in 0..1 + src.usize(7) {
            let Some(x) = self.tx_stmt(src, &own) else { continue };
            let before = own.clone();
            if let Some((q, e)) = step_ex(cx, &mut own, &x, &mut |q| sess(&mut s, q))? {
                updated |= matches!(x, Stmt::Update { .. }) && !matches!(e, Expect::Fail(_)) && !same_rows(&before, &own);
                self.note(Rec::In(q, e));
            }
            if self.mid_flush && src.chance(1, 5) {
                cx.log("-- flush");
                self.db().flush().map_err(err("flush"))?;
                panics()?;
            }
            if self.outside && src.chance(1, 3) {
                compare_all(&own, "inside the transaction", &mut |q| sess(&mut s, q))?;
            }
            if self.outside && src.chance(1, 4) {
                self.compare("outside an open transaction")?;
            }
        }
        // an explicit abort keeps updates: a known finding, met only by its own probe
        match src.weighted(&[40, 30, if updated { 0 } else { 30 }]) {
            0 => {
                cx.log("-- COMMIT");
                let from = self.events();
                s.commit_transaction().map_err(|e| Violation { kind: "commit".into(), msg: e.to_string() })?;
                panics()?;
                self.st = own;
                self.acked(from);
                self.note(Rec::End(Did::Committed));
                Ok(Did::Committed)
            }
            1 => {
                cx.log("-- session dropped");
                drop(s);
                panics()?;
                self.note(Rec::End(Did::Dropped));
                Ok(Did::Dropped)
            }
            _ => {
                cx.log("-- ROLLBACK");
                s.abort_transaction().map_err(|e| Violation { kind: "abort".into(), msg: e.to_string() })?;
                panics()?;
                self.note(Rec::End(Did::Aborted));
                Ok(Did::Aborted)
            }
        }
    }
    fn batch(&mut self, src: &Src, cx: &mut Cx) -> Result<Did, Violation> {
        let mut own = self.st.clone();
        let mut sqls: Vec<String> = vec![];
        let mut want: Vec<Expect> = vec![];
        let n = 1 + src.usize(6);
        let mut failing = false;
        for i in 0..n {
            let x = if i > 0 && src.chance(1, 12) { Some(sqlgen::bad(src, &own)) } else { self.tx_stmt(src, &own) };
            let Some(x) = x else { continue };
            let sql = x.sql(&own);
            let mut next = own.clone();
            let Ok(e) = x.apply(&mut next) else { continue };
            if let Expect::Rows(q) = &e {
                if q.may_err || q.reorder {
                    continue;
                }
            }
            sqls.push(sql);
            let f = matches!(e, Expect::Fail(_));
            want.push(e);
            if f {
                // whatever follows is not reached
                failing = true;
                if src.chance(1, 2) {
                    sqls.push(format!("DELETE FROM {}", sqlgen::named("t", 0)));
                }
                break;
            }
            own = next;
        }
        if sqls.is_empty() {
            return Ok(Did::Nothing);
        }
        let all = sqls.join("; ");
        cx.log(format!("-- batch: {}", if all.len() > 700 { format!("{}..", all.chars().take(700).collect::<String>()) } else { all.clone() }));
        let refs: Vec<&str> = sqls.iter().map(|s| s.as_str()).collect();
        let from = self.events();
        let got = self.db().execute_batch(&refs);
        panics()?;
        match got {
            Err(e) => {
                if !failing {
                    return viol("batch-rejected", format!("batch {all}\n  failed: {e}"));
                }
                self.note(Rec::Batch(sqls, None));
                Ok(Did::BatchFailed)
            }
            Ok(r) => {
                if failing {
                    return viol("batch-accepted", format!("batch {all}\n  must fail"));
                }
                if r.len() != want.len() {
                    return viol("batch-results", format!("batch {all}\n  returned {} results for {} statements", r.len(), want.len()));
                }
                for ((r, e), q) in r.into_iter().zip(&want).zip(&sqls) {
                    judge(q, e, &Ok(out_of(r)))?;
                }
                self.st = own;
                self.acked(from);
                self.note(Rec::Batch(sqls, Some(want)));
                Ok(Did::BatchOk)
            }
        }
    }
}
fn same_rows(a: &State, b: &State) -> bool {
    a.tables.len() == b.tables.len() && a.tables.iter().all(|(n, t)| b.tables.get(n).is_some_and(|u| std::sync::Arc::ptr_eq(t, u) || t.rows == u.rows))
}

//! C14: several client threads on one database. Every family of clients works on tables of its own and brings its own
//! oracle; what they have in common is the engine underneath (latches, cache, log, catalog, coordinator, workers).
use crate::ensure;
use crate::{c11::audit_db, core::*, db::*, hist::*, sqlgen, sqlmodel::*};
use axmosdb::tcp::session::Session;
use axmosdb::verif::sched;
use axmosdb::{DBConfig, Database};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::sync::{
    Arc, Mutex,
    atomic::{AtomicBool, AtomicU64, Ordering::SeqCst},
};
use std::time::{Duration, Instant};

type Log = Vec<(u64, u64, usize, String)>;

/// What the threads of a case share.
pub struct Run {
    seq: AtomicU64,
    stop: AtomicBool,
    fails: Mutex<Vec<(u64, Violation)>>,
    now: Mutex<HashMap<usize, String>>,
    log: Mutex<Log>,
    vacuum: bool,
    dir: PathBuf,
}
pub struct Th {
    id: usize,
    src: Src,
    steps: usize,
    sh: Arc<Run>,
    db: Arc<Database>,
}
/// Why a transaction did not go on.
enum Stop {
    Refused,
    V(Violation),
}
impl std::convert::From<Violation> for Stop {
    fn from(v: Violation) -> Stop {
        Stop::V(v)
    }
}
type Go<T> = Result<T, Stop>;
fn bad<T>(kind: &str, msg: impl Into<String>) -> Go<T> {
    Err(Stop::V(Violation { kind: kind.into(), msg: msg.into() }))
}

fn conflict(e: &str) -> bool {
    e.contains(" conflict on tuple ")
}
fn duplicate(e: &str) -> bool {
    e.contains("constraint validation error")
}
/// The transaction had been ended by VACUUM.
fn ended(e: &str) -> bool {
    e.contains("has not started yet") || e.contains("Invalid state transition") || e.contains("invalid transaction state") || (e.contains("Transaction") && (e.contains("aborted") || e.contains("is not active") || e.contains("not found")))
}

impl Th {
    fn go(&self) -> bool {
        !self.sh.stop.load(SeqCst)
    }
    fn seq(&self) -> u64 {
        self.sh.seq.fetch_add(1, SeqCst)
    }
    fn auto(&self, sql: &str) -> Result<Out, String> {
        exec(&self.db, sql)
    }
    /// An autocommit statement that may only fail for a conflict.
    fn try_auto(&self, sql: &str) -> Result<Option<Out>, Violation> {
        match self.auto(sql) {
            Ok(o) => Ok(Some(o)),
            Err(e) if conflict(&e) => Ok(None),
            Err(e) => viol("failed", format!("t{}: {sql}\n  failed: {e}", self.id)),
        }
    }
    /// One that must succeed.
    fn must(&self, sql: &str) -> Result<Out, Violation> {
        self.auto(sql).map_err(|e| Violation { kind: "failed".into(), msg: format!("t{}: {sql}\n  failed: {e}", self.id) })
    }
    fn rows(&self, sql: &str) -> Result<Vec<Vec<V>>, Violation> {
        Ok(rows_of(&self.must(sql)?.rows()))
    }
    fn begin(&self) -> Result<Tx<'_>, Violation> {
        let mut s = None;
        let _ = paced("BEGIN", || {
            s = Some(self.db.session());
            Ok(Out::Ddl(String::new()))
        });
        Ok(Tx { th: self, s: s.unwrap().map_err(err("session"))? })
    }
    /// A transaction; Some: it committed.
    fn tx<T>(&self, commit: bool, f: impl FnOnce(&mut Tx) -> Go<T>) -> Result<Option<T>, Violation> {
        let mut t = self.begin()?;
        match f(&mut t) {
            Ok(v) if commit => Ok(t.commit()?.then_some(v)),
            Ok(_) | Err(Stop::Refused) => {
                t.drop();
                Ok(None)
            }
            Err(Stop::V(v)) => Err(v),
        }
    }
}
struct Tx<'a> {
    th: &'a Th,
    s: Session,
}
impl Tx<'_> {
    /// A statement that may only fail for a conflict.
    fn run(&mut self, sql: &str) -> Go<Out> {
        match sess(&mut self.s, sql) {
            Ok(o) => Ok(o),
            Err(e) if conflict(&e) || self.th.sh.vacuum && ended(&e) => Err(Stop::Refused),
            Err(e) => bad("failed", format!("t{} (in a session): {sql}\n  failed: {e}", self.th.id)),
        }
    }
    fn rows(&mut self, sql: &str) -> Go<Vec<Vec<V>>> {
        Ok(rows_of(&self.run(sql)?.rows()))
    }
    fn count(&mut self, sql: &str, n: u64) -> Go<()> {
        let o = self.run(sql)?;
        if o.affected() != Some(n) {
            return bad("count", format!("t{} (in a session): {sql}\n  reports {}, {n} rows are addressed", self.th.id, show_out(&o)));
        }
        Ok(())
    }
    /// Whether it committed.
    fn commit(mut self) -> Result<bool, Violation> {
        let mut r = None;
        let _ = paced("COMMIT", || {
            let c = self.s.commit_transaction().map_err(|e| e.to_string());
            r = Some(c.clone());
            c.map(|_| Out::Ddl(String::new()))
        });
        match r.unwrap() {
            Ok(()) => Ok(true),
            Err(e) if conflict(&e) || self.th.sh.vacuum && ended(&e) => Ok(false),
            Err(e) => viol("failed", format!("t{}: COMMIT failed: {e}", self.th.id)),
        }
    }
    fn drop(self) {
        let _ = paced("(session dropped)", || {
            drop(self.s);
            Ok(Out::Ddl(String::new()))
        });
    }
}
fn int(v: &V) -> Option<i64> {
    if let V::Int(i) = v { Some(*i as i64) } else { None }
}
/// Rows of two integers.
fn pairs(rows: &[Vec<V>]) -> Result<Vec<(i64, i64)>, Violation> {
    rows.iter()
        .map(|r| match (r.len(), r.first().and_then(int), r.get(1).and_then(int)) {
            (2, Some(a), Some(b)) => Ok((a, b)),
            _ => viol("rows", format!("a row of two integers was stored, this is {}", show_vs(r))),
        })
        .collect()
}

pub trait Family: Send + Sync {
    fn name(&self) -> &'static str;
    fn setup(&self, db: &Database) -> Res;
    fn client(&self, th: &mut Th) -> Res;
    /// When every client is done, and again after reopening.
    fn check(&self, db: &Database, at: &str) -> Res;
}
fn ok(db: &Database, sql: &str) -> Result<Out, Violation> {
    exec(db, sql).map_err(|e| Violation { kind: "failed".into(), msg: format!("{sql}\n  failed: {e}") })
}
fn all(db: &Database, sql: &str) -> Result<Vec<Vec<V>>, Violation> {
    Ok(rows_of(&ok(db, sql)?.rows()))
}

// ------------------------------------------------------------------ whole histories on tables of one's own

/// Generated DDL, DML, queries, sessions and batches, each thread on its own tables, against the reference model.
#[derive(Default)]
struct Own {
    vacuum: bool,
    done: Mutex<Vec<State>>,
}
impl Family for Own {
    fn name(&self) -> &'static str {
        "own tables"
    }
    fn setup(&self, _: &Database) -> Res {
        Ok(())
    }
    fn client(&self, th: &mut Th) -> Res {
        sqlgen::set_prefix(&format!("w{}_", th.id));
        let mut cx = Cx::new(th.sh.dir.join(format!("own{}", th.id)), false, 0);
        let src = &th.src;
        let mut w = World::around(PathBuf::new(), DBConfig::new(4096, 100, 1, 3, 2), th.db.clone(), State::default());
        w.outside = src.chance(1, 3);
        let r = (|| {
            w.fill(src, &mut cx, 1 + src.usize(2), 12)?;
            let s = if self.vacuum { 0 } else { 10 };
            let weights = W { dml: 20, ddl: 8, bad: 2, select: 14, sess: s, batch: 6, vacuum: 0, reopen: 0, analyze: 2, flush: 2 };
            for _ in 0..th.steps / 2 {
                if !th.go() {
                    break;
                }
                w.op(src, &mut cx, &weights)?;
                if src.chance(1, 8) {
                    w.compare(&format!("t{} in between", th.id))?;
                }
            }
            w.compare(&format!("t{} when it is done", th.id))
        })();
        w.close();
        self.done.lock().unwrap().push(w.st);
        sqlgen::set_prefix("");
        r.map_err(|v: Violation| Violation { kind: v.kind, msg: format!("t{}: {}", th.id, v.msg) })
    }
    fn check(&self, db: &Database, at: &str) -> Res {
        for st in self.done.lock().unwrap().iter() {
            compare_all(st, at, &mut |q| exec(db, q))?;
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ rows of one's own in a shared table

type Mine = BTreeMap<i64, (i64, String)>;
/// Threads work on different rows of one table; the rows lie next to each other. Nothing here conflicts.
#[derive(Default)]
struct Rows {
    vacuum: bool,
    keyed: bool,
    long: bool,
    done: Mutex<Vec<(usize, Mine)>>,
}
impl Rows {
    fn text(&self, src: &Src, n: i64) -> String {
        let len = if self.long { *src.pick(&[3, 40, 900, 5000]) } else { src.usize(30) };
        let mut s = format!("s{n}.");
        while s.len() < len {
            s.push((b'a' + (s.len() as u8 % 26)) as char);
        }
        s
    }
    fn one(&self, src: &Src, id: usize, k: &mut i64, m: &mut Mine, run: &mut dyn FnMut(&str) -> Go<Out>) -> Go<()> {
        let some = |src: &Src, m: &Mine| m.keys().nth(src.usize(m.len().max(1))).copied();
        let kind = if m.is_empty() { 0 } else { src.weighted(&[30, 26, 14, 20, 6, 4]) };
        let expect = |sql: &str, o: Out, n: usize| {
            if o.affected() != Some(n as u64) { bad("count", format!("t{id}: {sql}\n  reports {}, {n} rows are addressed", show_out(&o))) } else { Ok(()) }
        };
        let same = |sql: &str, o: Out, want: Vec<Vec<V>>| match same_set(want, rows_of(&o.rows())) {
            Ok(()) => Ok(()),
            Err(e) => bad("rows", format!("t{id}: {sql}\n  {e}")),
        };
        let row = |k: i64, v: &(i64, String)| vec![V::Int(k as i128), V::Int(id as i128), V::Int(v.0 as i128), V::S(v.1.clone())];
        match kind {
            0 => {
                let n = 1 + src.usize(4);
                let mut vals = vec![];
                for _ in 0..n {
                    let key = *k * 16 + id as i64;
                    *k += 1;
                    let v = (src.range(0, 100), self.text(src, key));
                    vals.push(format!("({key}, {id}, {}, '{}')", v.0, v.1));
                    m.insert(key, v);
                }
                let sql = format!("INSERT INTO rws VALUES {}", vals.join(", "));
                let o = run(&sql)?;
                expect(&sql, o, n)
            }
            1 => {
                let key = some(src, m).unwrap();
                let e = m.get_mut(&key).unwrap();
                let sql = if src.chance(1, 3) {
                    e.1 = self.text(src, key + 1);
                    format!("UPDATE rws SET s = '{}' WHERE id = {key}", e.1)
                } else {
                    e.0 += 3;
                    format!("UPDATE rws SET v = v + 3 WHERE id = {key}")
                };
                let o = run(&sql)?;
                expect(&sql, o, 1)
            }
            2 => {
                let key = some(src, m).unwrap();
                m.remove(&key);
                let sql = format!("DELETE FROM rws WHERE id = {key}");
                let o = run(&sql)?;
                expect(&sql, o, 1)
            }
            3 => {
                let key = some(src, m).unwrap();
                let sql = format!("SELECT * FROM rws WHERE id = {key}");
                let o = run(&sql)?;
                same(&sql, o, m.get(&key).map(|v| row(key, v)).into_iter().collect())
            }
            4 => {
                let sql = format!("SELECT * FROM rws WHERE owner = {id}");
                let o = run(&sql)?;
                same(&sql, o, m.iter().map(|(k, v)| row(*k, v)).collect())
            }
            _ => {
                let n = m.len();
                m.values_mut().for_each(|v| v.0 += 1);
                let sql = format!("UPDATE rws SET v = v + 1 WHERE owner = {id}");
                let o = run(&sql)?;
                expect(&sql, o, n)
            }
        }
    }
}
impl Family for Rows {
    fn name(&self) -> &'static str {
        "own rows"
    }
    fn setup(&self, db: &Database) -> Res {
        ok(db, &format!("CREATE TABLE rws (id BIGINT, owner INT, v BIGINT, s TEXT{})", if self.keyed { ", PRIMARY KEY (id)" } else { "" })).map(|_| ())
    }
    fn client(&self, th: &mut Th) -> Res {
        let mut m = Mine::new();
        let mut k = 0;
        let id = th.id;
        let src = &th.src;
        for _ in 0..th.steps {
            if !th.go() {
                break;
            }
            if !self.vacuum && src.chance(1, 5) {
                let mut own = m.clone();
                let commit = src.chance(2, 3);
                let done = th.tx(commit, |t| {
                    for _ in 0..1 + src.usize(4) {
                        self.one(src, id, &mut k, &mut own, &mut |q| t.run(q))?;
                    }
                    Ok(())
                })?;
                if commit && done.is_none() {
                    return viol("refused", format!("t{id}: a transaction on rows nobody else touches was refused as a conflict"));
                }
                if done.is_some() {
                    m = own;
                }
            } else {
                match self.one(src, id, &mut k, &mut m, &mut |q| th.must(q).map_err(Stop::V)) {
                    Ok(()) => {}
                    Err(Stop::V(v)) => return Err(v),
                    Err(Stop::Refused) => unreachable!(),
                }
            }
        }
        self.done.lock().unwrap().push((id, m));
        Ok(())
    }
    fn check(&self, db: &Database, at: &str) -> Res {
        let done = self.done.lock().unwrap();
        let mut want = vec![];
        for (id, m) in done.iter() {
            for (k, v) in m {
                want.push(vec![V::Int(*k as i128), V::Int(*id as i128), V::Int(v.0 as i128), V::S(v.1.clone())]);
            }
        }
        same_set(want.clone(), all(db, "SELECT * FROM rws")?).map_err(|e| Violation { kind: "contents".into(), msg: format!("{at}: table rws: {e}") })?;
        for w in want.iter().step_by(3) {
            let q = format!("SELECT * FROM rws WHERE id = {}", int(&w[0]).unwrap());
            same_set(vec![w.clone()], all(db, &q)?).map_err(|e| Violation { kind: "contents".into(), msg: format!("{at}: {q}: {e}") })?;
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ transfers

/// Money moves between accounts: every snapshot has the same total.
struct Transfers {
    accounts: i64,
    keyed: bool,
    moved: Mutex<BTreeMap<i64, i64>>,
}
const EACH: i64 = 1000;
impl Transfers {
    fn total(&self, rows: Vec<Vec<V>>, who: &str) -> Result<Vec<(i64, i64)>, Violation> {
        let mut p = pairs(&rows)?;
        p.sort();
        let ids: Vec<i64> = p.iter().map(|x| x.0).collect();
        let sum: i64 = p.iter().map(|x| x.1).sum();
        if ids != (0..self.accounts).collect::<Vec<_>>() || sum != self.accounts * EACH {
            return viol("snapshot", format!("{who}: the {} accounts hold {} together at any time, this snapshot shows {sum}: {p:?}", self.accounts, self.accounts * EACH));
        }
        Ok(p)
    }
}
impl Family for Transfers {
    fn name(&self) -> &'static str {
        "transfers"
    }
    fn setup(&self, db: &Database) -> Res {
        ok(db, &format!("CREATE TABLE acc (id INT, bal BIGINT{})", if self.keyed { ", PRIMARY KEY (id)" } else { "" }))?;
        for i in 0..self.accounts {
            ok(db, &format!("INSERT INTO acc VALUES ({i}, {EACH})"))?;
        }
        Ok(())
    }
    fn client(&self, th: &mut Th) -> Res {
        let src = &th.src;
        let who = format!("t{}", th.id);
        for _ in 0..th.steps {
            if !th.go() {
                break;
            }
            let i = src.range(0, self.accounts - 1);
            let j = (i + 1 + src.range(0, self.accounts - 2)) % self.accounts;
            let x = src.range(1, 40);
            match src.weighted(&[30, 14, 14, 14, 12]) {
                k @ 0..=1 => {
                    let commit = src.chance(5, 6);
                    let look = src.chance(1, 3);
                    let done = th.tx(commit, |t| {
                        if look {
                            self.total(t.rows("SELECT id, bal FROM acc")?, &who)?;
                        }
                        if k == 0 {
                            t.count(&format!("UPDATE acc SET bal = bal - {x} WHERE id = {i}"), 1)?;
                            t.count(&format!("UPDATE acc SET bal = bal + {x} WHERE id = {j}"), 1)?;
                        } else {
                            let get = |t: &mut Tx, i: i64| -> Go<i64> {
                                let r = t.rows(&format!("SELECT bal FROM acc WHERE id = {i}"))?;
                                match r.first().and_then(|r| int(&r[0])) {
                                    Some(b) if r.len() == 1 => Ok(b),
                                    _ => bad("snapshot", format!("{who}: account {i} is {} rows", r.len())),
                                }
                            };
                            let (a, b) = (get(t, i)?, get(t, j)?);
                            t.count(&format!("UPDATE acc SET bal = {} WHERE id = {i}", a - x), 1)?;
                            t.count(&format!("UPDATE acc SET bal = {} WHERE id = {j}", b + x), 1)?;
                        }
                        if look {
                            self.total(t.rows("SELECT id, bal FROM acc")?, &who)?;
                        }
                        Ok(())
                    })?;
                    if done.is_some() {
                        let mut m = self.moved.lock().unwrap();
                        *m.entry(i).or_default() -= x;
                        *m.entry(j).or_default() += x;
                    }
                }
                2 => {
                    let (a, b) = (format!("UPDATE acc SET bal = bal - {x} WHERE id = {i}"), format!("UPDATE acc SET bal = bal + {x} WHERE id = {j}"));
                    let r = paced(&format!("[{a}; {b}]"), || th.db.execute_batch(&[&a, &b]).map(|_| Out::Ddl(String::new())).map_err(|e| e.to_string()));
                    match r {
                        Ok(_) => {
                            let mut m = self.moved.lock().unwrap();
                            *m.entry(i).or_default() -= x;
                            *m.entry(j).or_default() += x;
                        }
                        Err(e) if conflict(&e) => {}
                        Err(e) => return viol("failed", format!("{who}: batch [{a}; {b}] failed: {e}")),
                    }
                }
                3 => {
                    self.total(th.rows("SELECT id, bal FROM acc")?, &who)?;
                }
                _ => {
                    // the same snapshot in every statement of a session
                    th.tx(src.chance(1, 2), |t| {
                        let a = self.total(t.rows("SELECT id, bal FROM acc")?, &who)?;
                        for _ in 0..1 + src.usize(3) {
                            if src.chance(1, 2) {
                                let r = t.rows("SELECT SUM(bal), COUNT(*) FROM acc")?;
                                let ok = r.len() == 1 && format!("{:?}", r[0][0]).contains(&(self.accounts * EACH).to_string());
                                if !ok {
                                    return bad("snapshot", format!("{who}: SUM(bal), COUNT(*) is {} over {} accounts of {EACH} each", show_vs(&r[0]), self.accounts));
                                }
                            } else if src.chance(1, 2) {
                                let i = src.range(0, self.accounts - 1);
                                let r = t.rows(&format!("SELECT id, bal FROM acc WHERE id = {i}"))?;
                                if pairs(&r)? != vec![a[i as usize]] {
                                    return bad("snapshot", format!("{who}: account {i} was {:?} in this transaction, now it is {:?}", a[i as usize], pairs(&r)?));
                                }
                            } else {
                                let b = self.total(t.rows("SELECT id, bal FROM acc")?, &who)?;
                                if a != b {
                                    return bad("snapshot", format!("{who}: one transaction reads {a:?}, then {b:?}"));
                                }
                            }
                        }
                        Ok(())
                    })?;
                }
            }
        }
        Ok(())
    }
    fn check(&self, db: &Database, at: &str) -> Res {
        let p = self.total(all(db, "SELECT id, bal FROM acc")?, at)?;
        let m = self.moved.lock().unwrap();
        let want: Vec<(i64, i64)> = (0..self.accounts).map(|i| (i, EACH + m.get(&i).copied().unwrap_or(0))).collect();
        if p != want {
            return viol("serial", format!("{at}: the transfers that were acknowledged leave {want:?}, the table has {p:?}"));
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ counters

struct Counters {
    n: i64,
    acks: Vec<AtomicU64>,
}
impl Family for Counters {
    fn name(&self) -> &'static str {
        "counters"
    }
    fn setup(&self, db: &Database) -> Res {
        ok(db, "CREATE TABLE cnt (id INT, n BIGINT)")?;
        for i in 0..self.n {
            ok(db, &format!("INSERT INTO cnt VALUES ({i}, 0)"))?;
        }
        Ok(())
    }
    fn client(&self, th: &mut Th) -> Res {
        let src = &th.src;
        let mut seen = vec![0i64; self.n as usize];
        for _ in 0..th.steps {
            if !th.go() {
                break;
            }
            let i = src.range(0, self.n - 1);
            let up = format!("UPDATE cnt SET n = n + 1 WHERE id = {i}");
            match src.weighted(&[40, 14, 20]) {
                0 => {
                    if let Some(o) = th.try_auto(&up)? {
                        ensure!(o.affected() == Some(1), "count", "t{}: {up}\n  reports {}", th.id, show_out(&o));
                        self.acks[i as usize].fetch_add(1, SeqCst);
                    }
                }
                1 => {
                    let k = 1 + src.below(3);
                    let done = th.tx(src.chance(4, 5), |t| {
                        for _ in 0..k {
                            t.count(&up, 1)?;
                        }
                        Ok(())
                    })?;
                    if done.is_some() {
                        self.acks[i as usize].fetch_add(k, SeqCst);
                    }
                }
                _ => {
                    let least: Vec<u64> = self.acks.iter().map(|a| a.load(SeqCst)).collect();
                    let mut p = pairs(&th.rows("SELECT id, n FROM cnt")?)?;
                    p.sort();
                    ensure!(p.len() == self.n as usize, "rows", "t{}: SELECT id, n FROM cnt has {} rows of {}", th.id, p.len(), self.n);
                    for (id, n) in p {
                        let s = &mut seen[id as usize];
                        ensure!(n >= *s, "backwards", "t{}: counter {id} was {s} and is {n} in a later transaction", th.id);
                        ensure!(n >= least[id as usize] as i64, "lost-update", "t{}: counter {id} is {n}, {} increments had been acknowledged before", th.id, least[id as usize]);
                        *s = n;
                    }
                }
            }
        }
        Ok(())
    }
    fn check(&self, db: &Database, at: &str) -> Res {
        let mut p = pairs(&all(db, "SELECT id, n FROM cnt")?)?;
        p.sort();
        let want: Vec<(i64, i64)> = (0..self.n).map(|i| (i, self.acks[i as usize].load(SeqCst) as i64)).collect();
        ensure!(p == want, "serial", "{at}: the increments that were acknowledged leave {want:?}, the table has {p:?}");
        Ok(())
    }
}

// ------------------------------------------------------------------ unique keys

struct Unique {
    keys: i64,
    how: usize,
    tags: AtomicU64,
    /// Per key: the tags whose insertion was acknowledged, and how many deletions hit.
    book: Mutex<BTreeMap<i64, (BTreeSet<i64>, u64)>>,
}
impl Unique {
    fn insert(&self, i: i64, tag: i64) {
        self.book.lock().unwrap().entry(i).or_default().0.insert(tag);
    }
}
impl Family for Unique {
    fn name(&self) -> &'static str {
        "unique keys"
    }
    fn setup(&self, db: &Database) -> Res {
        ok(db, ["CREATE TABLE unq (k INT, tag BIGINT, PRIMARY KEY (k))", "CREATE TABLE unq (k INT, tag BIGINT, UNIQUE (k))", "CREATE TABLE unq (k INT, tag BIGINT)"][self.how])?;
        if self.how == 2 {
            ok(db, "CREATE UNIQUE INDEX unqi ON unq (k)")?;
        }
        Ok(())
    }
    fn client(&self, th: &mut Th) -> Res {
        let src = &th.src;
        for _ in 0..th.steps {
            if !th.go() {
                break;
            }
            let i = src.range(0, self.keys - 1);
            let tag = self.tags.fetch_add(1, SeqCst) as i64;
            let ins = format!("INSERT INTO unq VALUES ({i}, {tag})");
            match src.weighted(&[34, 14, 20, 20, 8]) {
                0 => match th.auto(&ins) {
                    Ok(_) => self.insert(i, tag),
                    Err(e) if conflict(&e) || duplicate(&e) => {}
                    Err(e) => return viol("failed", format!("t{}: {ins}\n  failed: {e}", th.id)),
                },
                1 => {
                    let j = (i + 1) % self.keys;
                    let ins2 = format!("INSERT INTO unq VALUES ({j}, {tag})");
                    let done = th.tx(src.chance(3, 4), |t| {
                        for q in [&ins, &ins2] {
                            match sess(&mut t.s, q) {
                                Ok(_) => {}
                                Err(e) if conflict(&e) || duplicate(&e) || th.sh.vacuum && ended(&e) => return Err(Stop::Refused),
                                Err(e) => return bad("failed", format!("t{} (in a session): {q}\n  failed: {e}", th.id)),
                            }
                        }
                        Ok(())
                    })?;
                    if done.is_some() {
                        self.insert(i, tag);
                        self.insert(j, tag);
                    }
                }
                2 => {
                    if let Some(o) = th.try_auto(&format!("DELETE FROM unq WHERE k = {i}"))? {
                        match o.affected() {
                            Some(0) => {}
                            Some(1) => self.book.lock().unwrap().entry(i).or_default().1 += 1,
                            _ => return viol("duplicate", format!("t{}: DELETE of the unique key {i} reports {}", th.id, show_out(&o))),
                        }
                    }
                }
                3 => {
                    let p = pairs(&th.rows("SELECT k, tag FROM unq")?)?;
                    let s: BTreeSet<i64> = p.iter().map(|x| x.0).collect();
                    ensure!(s.len() == p.len(), "duplicate", "t{}: SELECT k, tag FROM unq shows a key twice: {p:?}", th.id);
                }
                _ => {
                    let r = th.rows(&format!("SELECT k, tag FROM unq WHERE k = {i}"))?;
                    ensure!(r.len() <= 1, "duplicate", "t{}: key {i} has {} rows", th.id, r.len());
                }
            }
        }
        Ok(())
    }
    fn check(&self, db: &Database, at: &str) -> Res {
        let p = pairs(&all(db, "SELECT k, tag FROM unq")?)?;
        let book = self.book.lock().unwrap();
        for i in 0..self.keys {
            let none = (BTreeSet::new(), 0);
            let (tags, gone) = book.get(&i).unwrap_or(&none);
            let there: Vec<i64> = p.iter().filter(|x| x.0 == i).map(|x| x.1).collect();
            let left = tags.len() as i64 - *gone as i64;
            ensure!(there.len() as i64 == left, "serial", "{at}: key {i} was inserted {} times and deleted {gone} times, and is there {} times", tags.len(), there.len());
            ensure!(left <= 1, "duplicate", "{at}: key {i} is there {left} times");
            ensure!(there.iter().all(|t| tags.contains(t)), "serial", "{at}: key {i} has tag {there:?}, acknowledged were {tags:?}");
            let q = format!("SELECT k, tag FROM unq WHERE k = {i}");
            let by = pairs(&all(db, &q)?)?;
            ensure!(by.iter().map(|x| x.1).collect::<Vec<_>>() == there, "index", "{at}: {q} has {by:?}, the table {there:?}");
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ registers

#[derive(Clone, Debug)]
struct Txn {
    who: usize,
    from: u64,
    to: u64,
    reads: Vec<(i64, i64)>,
    /// Key, version replaced, version written.
    writes: Vec<(i64, i64, i64)>,
}
/// Transactions replace versions they have read; what committed must fit one serial order.
struct Registers {
    n: i64,
    keyed: bool,
    vers: AtomicU64,
    book: Mutex<Vec<Txn>>,
}
impl Registers {
    fn whole(&self, rows: Vec<Vec<V>>, who: usize) -> Result<Vec<(i64, i64)>, Violation> {
        let mut p = pairs(&rows)?;
        p.sort();
        ensure!(p.iter().map(|x| x.0).eq(0..self.n), "rows", "t{who}: the {} registers read as {p:?}", self.n);
        Ok(p)
    }
    fn get(&self, t: &mut Tx, k: i64) -> Go<i64> {
        let r = t.rows(&format!("SELECT v FROM reg WHERE id = {k}"))?;
        match r.first().and_then(|r| int(&r[0])) {
            Some(v) if r.len() == 1 => Ok(v),
            _ => bad("rows", format!("t{}: register {k} is {} rows", t.th.id, r.len())),
        }
    }
}
impl Family for Registers {
    fn name(&self) -> &'static str {
        "registers"
    }
    fn setup(&self, db: &Database) -> Res {
        ok(db, &format!("CREATE TABLE reg (id INT, v BIGINT{})", if self.keyed { ", PRIMARY KEY (id)" } else { "" }))?;
        for i in 0..self.n {
            ok(db, &format!("INSERT INTO reg VALUES ({i}, {i})"))?;
        }
        Ok(())
    }
    fn client(&self, th: &mut Th) -> Res {
        let src = &th.src;
        for _ in 0..th.steps {
            if !th.go() {
                break;
            }
            let from = th.seq();
            let done: Option<(Vec<(i64, i64)>, Vec<(i64, i64, i64)>)> = match src.weighted(&[50, 16, 16]) {
                0 => {
                    let mut keys: Vec<i64> = (0..self.n).collect();
                    let k = (1 + src.usize(3)).min(keys.len());
                    let keys: Vec<i64> = (0..k).map(|_| keys.swap_remove(src.usize(keys.len()))).collect();
                    let at_once = src.chance(1, 2);
                    th.tx(src.chance(7, 8), |t| {
                        let (mut reads, mut writes) = (vec![], vec![]);
                        if at_once {
                            for k in &keys {
                                reads.push((*k, self.get(t, *k)?));
                            }
                        }
                        for k in &keys {
                            if !at_once {
                                reads.push((*k, self.get(t, *k)?));
                            }
                            let old = reads.iter().find(|r| r.0 == *k).unwrap().1;
                            let new = 1000 + self.vers.fetch_add(1, SeqCst) as i64;
                            t.count(&format!("UPDATE reg SET v = {new} WHERE id = {k}"), 1)?;
                            writes.push((*k, old, new));
                            if src.chance(1, 4) {
                                let now = self.get(t, *k)?;
                                if now != new {
                                    return bad("own-write", format!("t{}: register {k} was set to {new} in this transaction, it reads {now}", th.id));
                                }
                            }
                        }
                        Ok((reads, writes))
                    })?
                }
                1 => Some((self.whole(th.rows("SELECT id, v FROM reg")?, th.id)?, vec![])),
                _ => th.tx(true, |t| {
                    let mut r = vec![];
                    for k in 0..self.n {
                        r.push((k, self.get(t, k)?));
                    }
                    let w = self.whole(t.rows("SELECT id, v FROM reg")?, th.id)?;
                    if w != r {
                        return bad("snapshot", format!("t{}: one transaction reads {r:?}, then {w:?}", th.id));
                    }
                    Ok((r, vec![]))
                })?,
            };
            let to = th.seq();
            if let Some((reads, writes)) = done {
                self.book.lock().unwrap().push(Txn { who: th.id, from, to, reads, writes });
            }
        }
        Ok(())
    }
    fn check(&self, db: &Database, at: &str) -> Res {
        let last = self.whole(all(db, "SELECT id, v FROM reg")?, 99)?;
        let book = self.book.lock().unwrap();
        serial(self.n, &book, &last).map_err(|e| Violation { kind: "serial".into(), msg: format!("{at}: {e}") })
    }
}
/// Whether what committed fits one serial order, which also respects that a transaction that began after another had
/// ended comes later.
fn serial(n: i64, book: &[Txn], last: &[(i64, i64)]) -> Result<(), String> {
    let mut writer: HashMap<(i64, i64), usize> = HashMap::new();
    let mut heir: HashMap<(i64, i64), usize> = HashMap::new();
    for (i, t) in book.iter().enumerate() {
        for (k, old, new) in &t.writes {
            writer.insert((*k, *new), i);
            if let Some(j) = heir.insert((*k, *old), i) {
                return Err(format!("version {old} of register {k} was replaced by two transactions that committed: t{} {:?} and t{} {:?}", book[j].who, book[j].writes, t.who, t.writes));
            }
        }
    }
    for k in 0..n {
        // from the first version to the last one
        let (mut v, mut steps) = (k, 0);
        while let Some(i) = heir.get(&(k, v)) {
            v = book[*i].writes.iter().find(|w| w.0 == k).unwrap().2;
            steps += 1;
        }
        let all = book.iter().flat_map(|t| &t.writes).filter(|w| w.0 == k).count();
        if steps != all {
            return Err(format!("register {k}: {all} committed writes, {steps} of them follow each other from the first version"));
        }
        if last[k as usize].1 != v {
            return Err(format!("register {k} holds {}, the last committed version is {v}", last[k as usize].1));
        }
    }
    let m = book.len();
    let mut next: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); m];
    for (i, t) in book.iter().enumerate() {
        for (k, v) in &t.reads {
            match writer.get(&(*k, *v)) {
                Some(j) if *j != i => {
                    next[*j].insert(i);
                }
                None if *v >= n => return Err(format!("t{} read version {v} of register {k}, which no committed transaction wrote", t.who)),
                _ => {}
            }
            if let Some(j) = heir.get(&(*k, *v)) {
                if *j != i {
                    next[i].insert(*j);
                }
            }
        }
        for (j, u) in book.iter().enumerate() {
            if t.to < u.from {
                next[i].insert(j);
            }
        }
    }
    let mut deg = vec![0usize; m];
    for s in &next {
        for j in s {
            deg[*j] += 1;
        }
    }
    let mut ready: Vec<usize> = (0..m).filter(|i| deg[*i] == 0).collect();
    let mut done = 0;
    while let Some(i) = ready.pop() {
        done += 1;
        for j in &next[i] {
            deg[*j] -= 1;
            if deg[*j] == 0 {
                ready.push(*j);
            }
        }
    }
    if done == m {
        return Ok(());
    }
    // walk back along what is left until it repeats
    let stuck: Vec<usize> = (0..m).filter(|i| deg[*i] > 0).collect();
    let mut path = vec![stuck[0]];
    loop {
        let x = *path.last().unwrap();
        let p = *stuck.iter().find(|p| next[**p].contains(&x)).unwrap();
        if let Some(at) = path.iter().position(|y| *y == p) {
            let cyc: Vec<String> = path[at..].iter().rev().map(|i| format!("t{} [{}..{}] read {:?} wrote {:?}", book[*i].who, book[*i].from, book[*i].to, book[*i].reads, book[*i].writes)).collect();
            return Err(format!("no serial order: {}", cyc.join("\n    before ")));
        }
        path.push(p);
    }
}

// ------------------------------------------------------------------ scans

/// Some rows never change; others come and go around them, so that pages split and merge under the scans.
struct Scan {
    n: i64,
    pad: usize,
    keyed: bool,
    left: Mutex<BTreeSet<i64>>,
}
impl Scan {
    fn fixed(&self, r: Vec<Vec<V>>, lo: i64, hi: i64, who: &str) -> Res {
        let p = pairs(&r)?;
        let mut ids: Vec<i64> = p.iter().map(|x| x.0).collect();
        ids.sort();
        if let Some(d) = ids.windows(2).find(|w| w[0] == w[1]) {
            return viol("twice", format!("{who}: row {} appears twice in one scan", d[0]));
        }
        for (id, v) in &p {
            ensure!(*v == *id * 7, "rows", "{who}: row {id} reads {v}, it was stored as {}", id * 7);
        }
        let still: Vec<i64> = ids.into_iter().filter(|i| i % 10 == 0).collect();
        let want: Vec<i64> = (0..self.n).map(|i| i * 10).filter(|i| (lo..=hi).contains(i)).collect();
        if still != want {
            let miss: Vec<&i64> = want.iter().filter(|i| !still.contains(i)).take(10).collect();
            return viol("missing", format!("{who}: rows that never change are missing from a scan: {miss:?} ({} of {} are there)", still.len(), want.len()));
        }
        Ok(())
    }
}
impl Family for Scan {
    fn name(&self) -> &'static str {
        "scans"
    }
    fn setup(&self, db: &Database) -> Res {
        ok(db, &format!("CREATE TABLE scn (id BIGINT, v BIGINT, pad TEXT{})", if self.keyed { ", PRIMARY KEY (id)" } else { "" }))?;
        let ids: Vec<i64> = (0..self.n).map(|i| i * 10).collect();
        for c in ids.chunks(20) {
            let v: Vec<String> = c.iter().map(|i| format!("({i}, {}, '{}')", i * 7, "p".repeat(self.pad))).collect();
            ok(db, &format!("INSERT INTO scn VALUES {}", v.join(", ")))?;
        }
        Ok(())
    }
    fn client(&self, th: &mut Th) -> Res {
        let src = &th.src;
        let who = format!("t{}", th.id);
        let writer = src.chance(1, 2);
        let mine = (th.id % 9) as i64 + 1;
        let mut own: BTreeSet<i64> = BTreeSet::new();
        for _ in 0..th.steps {
            if !th.go() {
                break;
            }
            if writer && src.chance(3, 4) {
                if own.len() > 30 || !own.is_empty() && src.chance(1, 3) {
                    let lo = *own.iter().nth(src.usize(own.len())).unwrap();
                    let some: Vec<i64> = own.range(lo..).take(1 + src.usize(12)).copied().collect();
                    for i in some {
                        let q = format!("DELETE FROM scn WHERE id = {i}");
                        let o = th.must(&q)?;
                        ensure!(o.affected() == Some(1), "count", "{who}: {q}\n  reports {}", show_out(&o));
                        own.remove(&i);
                    }
                } else {
                    let mut v = vec![];
                    let at = src.range(0, self.n - 1);
                    for i in at..at + 1 + src.range(0, 12) {
                        let id = i * 10 + mine;
                        if own.insert(id) {
                            v.push(format!("({id}, {}, '{}')", id * 7, "q".repeat(src.usize(self.pad + 1))));
                        }
                    }
                    if !v.is_empty() {
                        th.must(&format!("INSERT INTO scn VALUES {}", v.join(", ")))?;
                    }
                }
                continue;
            }
            match src.weighted(&[20, 10, 14, 10]) {
                0 => self.fixed(th.rows("SELECT id, v FROM scn")?, 0, i64::MAX, &who)?,
                1 => {
                    let r = th.rows("SELECT id, v FROM scn ORDER BY id")?;
                    let p = pairs(&r)?;
                    ensure!(p.windows(2).all(|w| w[0].0 < w[1].0), "order", "{who}: ORDER BY id is not in order");
                    self.fixed(r, 0, i64::MAX, &who)?;
                }
                2 => {
                    let i = src.range(0, self.n - 1) * 10;
                    self.fixed(th.rows(&format!("SELECT id, v FROM scn WHERE id = {i}"))?, i, i, &who)?;
                }
                _ => {
                    let lo = src.range(0, self.n * 10);
                    let hi = lo + src.range(0, self.n * 4);
                    self.fixed(th.rows(&format!("SELECT id, v FROM scn WHERE id >= {lo} AND id <= {hi}"))?, lo, hi, &who)?;
                }
            }
        }
        self.left.lock().unwrap().extend(own);
        Ok(())
    }
    fn check(&self, db: &Database, at: &str) -> Res {
        let r = all(db, "SELECT id, v FROM scn")?;
        self.fixed(r.clone(), 0, i64::MAX, at)?;
        let ids: BTreeSet<i64> = pairs(&r)?.iter().map(|x| x.0).collect();
        let mut want = self.left.lock().unwrap().clone();
        want.extend((0..self.n).map(|i| i * 10));
        ensure!(ids == want, "contents", "{at}: table scn has {} rows of {}; too many {:?}, missing {:?}", ids.len(), want.len(), ids.difference(&want).take(5).collect::<Vec<_>>(), want.difference(&ids).take(5).collect::<Vec<_>>());
        Ok(())
    }
}

// ------------------------------------------------------------------ shared DDL

/// Several threads create and drop the same tables.
#[derive(Default)]
struct Names {
    /// Acknowledged CREATE and DROP per name.
    book: Mutex<BTreeMap<usize, (u64, u64)>>,
}
const NAMES: usize = 2;
impl Family for Names {
    fn name(&self) -> &'static str {
        "shared names"
    }
    fn setup(&self, _: &Database) -> Res {
        Ok(())
    }
    fn client(&self, th: &mut Th) -> Res {
        let src = &th.src;
        for _ in 0..th.steps / 2 {
            if !th.go() {
                break;
            }
            let i = src.usize(NAMES);
            let k = src.weighted(&[30, 26, 14, 14]);
            let q = match k {
                0 => format!("CREATE TABLE nam{i} (a INT, b INT, PRIMARY KEY (a))"),
                1 => format!("DROP TABLE nam{i}"),
                2 => format!("INSERT INTO nam{i} VALUES ({}, 1)", src.usize(50)),
                _ => format!("SELECT * FROM nam{i}"),
            };
            match th.auto(&q) {
                Ok(_) => {
                    let mut b = self.book.lock().unwrap();
                    let e = b.entry(i).or_default();
                    match k {
                        0 => e.0 += 1,
                        1 => e.1 += 1,
                        _ => {}
                    }
                }
                Err(e) if conflict(&e) || duplicate(&e) && k == 2 => {}
                Err(e) if e.contains("already exists") && k == 0 => {}
                Err(e) if (e.contains("not found") || e.contains("does not exist")) && k > 0 => {}
                Err(e) => return viol("failed", format!("t{}: {q}\n  failed: {e}", th.id)),
            }
        }
        Ok(())
    }
    fn check(&self, db: &Database, at: &str) -> Res {
        let b = self.book.lock().unwrap();
        for i in 0..NAMES {
            let (c, d) = b.get(&i).copied().unwrap_or((0, 0));
            let there = exec(db, &format!("SELECT * FROM nam{i}")).is_ok();
            ensure!(c == d + there as u64, "serial", "{at}: nam{i} was created {c} times and dropped {d} times, and is {}", if there { "there" } else { "not there" });
        }
        Ok(())
    }
}

/// One thread changes a table that others write to.
#[derive(Default)]
struct Evolve {
    first: AtomicBool,
    next: AtomicU64,
    ids: Mutex<BTreeSet<i64>>,
    cols: Mutex<BTreeSet<String>>,
}
impl Family for Evolve {
    fn name(&self) -> &'static str {
        "changing table"
    }
    fn setup(&self, db: &Database) -> Res {
        ok(db, "CREATE TABLE evo (id BIGINT, v BIGINT)").map(|_| ())
    }
    fn client(&self, th: &mut Th) -> Res {
        let src = &th.src;
        let changes = !self.first.swap(true, SeqCst);
        let mut made = 0;
        let mut own: Vec<i64> = vec![];
        for _ in 0..th.steps {
            if !th.go() {
                break;
            }
            if changes && src.chance(1, 4) {
                let cols = self.cols.lock().unwrap().clone();
                let c = cols.iter().next().cloned();
                match src.weighted(&[30, 14, 14]) {
                    0 => {
                        made += 1;
                        if th.try_auto(&format!("ALTER TABLE evo ADD COLUMN x{made} INT DEFAULT {made}"))?.is_some() {
                            self.cols.lock().unwrap().insert(format!("x{made}"));
                        }
                    }
                    1 if c.is_some() => {
                        let c = c.unwrap();
                        if th.try_auto(&format!("ALTER TABLE evo DROP COLUMN {c}"))?.is_some() {
                            self.cols.lock().unwrap().remove(&c);
                        }
                    }
                    _ => {
                        th.try_auto("CREATE UNIQUE INDEX IF NOT EXISTS evoi ON evo (id)")?;
                    }
                }
                continue;
            }
            match src.weighted(&[30, 14, 14, 10]) {
                0 => {
                    let id = self.next.fetch_add(1, SeqCst) as i64;
                    if th.try_auto(&format!("INSERT INTO evo (id, v) VALUES ({id}, {})", id * 3))?.is_some() {
                        own.push(id);
                        self.ids.lock().unwrap().insert(id);
                    }
                }
                1 if !own.is_empty() => {
                    let id = own.swap_remove(src.usize(own.len()));
                    // what is known of the row has to be known before it goes
                    self.ids.lock().unwrap().remove(&id);
                    let q = format!("DELETE FROM evo WHERE id = {id}");
                    match th.try_auto(&q)? {
                        Some(o) => ensure!(o.affected() == Some(1), "count", "t{}: {q}\n  reports {}", th.id, show_out(&o)),
                        None => {
                            own.push(id);
                            self.ids.lock().unwrap().insert(id);
                        }
                    }
                }
                2 if !own.is_empty() => {
                    let id = own[src.usize(own.len())];
                    let q = format!("SELECT id, v FROM evo WHERE id = {id}");
                    let p = pairs(&th.rows(&q)?)?;
                    ensure!(p == vec![(id, id * 3)], "rows", "t{}: {q}\n  has {p:?}, this thread had inserted ({id}, {})", th.id, id * 3);
                }
                _ => {
                    let p = pairs(&th.rows("SELECT id, v FROM evo")?)?;
                    let mut seen = BTreeSet::new();
                    for (id, v) in p {
                        ensure!(seen.insert(id) && v == id * 3, "rows", "t{}: SELECT id, v FROM evo has ({id}, {v})", th.id);
                    }
                    for id in &own {
                        ensure!(seen.contains(id), "missing", "t{}: row {id} that this thread inserted is missing from a scan", th.id);
                    }
                }
            }
        }
        Ok(())
    }
    fn check(&self, db: &Database, at: &str) -> Res {
        let want = self.ids.lock().unwrap().clone();
        let cols = self.cols.lock().unwrap().clone();
        let p = pairs(&all(db, "SELECT id, v FROM evo")?)?;
        let ids: BTreeSet<i64> = p.iter().map(|x| x.0).collect();
        ensure!(p.len() == ids.len() && ids == want, "contents", "{at}: table evo has {} rows, {} were acknowledged; too many {:?}, missing {:?}", p.len(), want.len(), ids.difference(&want).take(5).collect::<Vec<_>>(), want.difference(&ids).take(5).collect::<Vec<_>>());
        for id in want.iter() {
            let q = format!("SELECT id, v FROM evo WHERE id = {id}");
            ensure!(pairs(&all(db, &q)?)? == vec![(*id, id * 3)], "index", "{at}: {q} does not have the row");
        }
        for c in &cols {
            let n: i64 = c[1..].parse().unwrap();
            let r = all(db, &format!("SELECT {c} FROM evo"))?;
            ensure!(r.len() == want.len() && r.iter().all(|r| r[0] == V::Int(n as i128)), "contents", "{at}: column {c} with default {n} has {:?}", r.iter().map(|r| show_vs(r)).take(6).collect::<Vec<_>>());
        }
        let w = match ok(db, "SELECT * FROM evo")? {
            Out::Rows(n, _) => n,
            _ => 0,
        };
        ensure!(w == 2 + cols.len(), "columns", "{at}: table evo has {w} columns, {} are expected", 2 + cols.len());
        Ok(())
    }
}

/// Checkpoints, statistics and VACUUM while everything else runs.
struct Upkeep {
    vacuum: bool,
}
impl Family for Upkeep {
    fn name(&self) -> &'static str {
        "upkeep"
    }
    fn setup(&self, _: &Database) -> Res {
        Ok(())
    }
    fn client(&self, th: &mut Th) -> Res {
        for _ in 0..2 + th.steps / 6 {
            if !th.go() {
                break;
            }
            let (what, r) = match th.src.weighted(&[20, 14, 4, if self.vacuum { 20 } else { 0 }]) {
                0 => ("flush", paced("(flush)", || th.db.flush().map(|_| Out::Ddl(String::new())).map_err(|e| e.to_string()))),
                1 => ("analyze", paced("(analyze)", || th.db.analyze(1.0, 10_000).map(|_| Out::Ddl(String::new())).map_err(|e| e.to_string()))),
                2 => ("sync", paced("(sync)", || th.db.sync().map(|_| Out::Ddl(String::new())).map_err(|e| e.to_string()))),
                _ => ("vacuum", paced("(vacuum)", || th.db.vacuum().map(|_| Out::Ddl(String::new())).map_err(|e| e.to_string()))),
            };
            if let Err(e) = r {
                return viol("failed", format!("t{}: {what} failed: {e}", th.id));
            }
            std::thread::sleep(Duration::from_micros(th.src.below(3000)));
        }
        Ok(())
    }
    fn check(&self, _: &Database, _: &str) -> Res {
        Ok(())
    }
}

// ------------------------------------------------------------------ the case

/// Whether any thread of this process but the calling one can run.
fn runnable() -> bool {
    let me = unsafe { libc::syscall(libc::SYS_gettid) } as i64;
    let Ok(dir) = std::fs::read_dir("/proc/self/task") else { return true };
    for e in dir.flatten() {
        if e.file_name().to_string_lossy().parse::<i64>().ok() == Some(me) {
            continue;
        }
        let Ok(s) = std::fs::read_to_string(e.path().join("stat")) else { continue };
        let state = s.rsplit(')').next().unwrap_or("").trim_start().chars().next().unwrap_or('R');
        if state != 'S' {
            return true;
        }
    }
    false
}
pub struct C14;
impl Property for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "one case = 2 to 8 client threads of one to three families on one database (generated histories on tables of their own; rows of their own in a shared table; transfers with a constant total; counters; contended unique keys; registers whose committed versions must fit one serial order; scans over rows that never change while others split and merge pages; the same names created and dropped; a table altered while written to) next to checkpoints, ANALYZE and VACUUM, with random cache and pool sizes, random pacing, and yields and sleeps injected where latches and shared locks are taken; every call must return, fail only for a conflict, constraint or VACUUM, and agree with its family's oracle in between, at the end, and after reopening; the page graph is audited. Non-trivial: at least 10 calls overlapped with calls of another thread"
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "schedules are sampled by real threads with injected yields and sleeps, they cannot be replayed exactly: a replay file holds the plan and the observed history".into(),
            "transactions that read what they do not write also write nothing (write skew is a listed finding)".into(),
        ]
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn flaky(&self) -> bool {
        true
    }
    fn plan(&self, thorough: bool) -> Plan {
        Plan { cases: if thorough { 200_000 } else { 14_000 }, batch: 5, timeout_s: 100, shrink_s: 40, workers: 6, budget_s: if thorough { 2400 } else { 260 } }
    }
    fn run_case(&self, src: &mut Src, cx: &mut Cx) -> Res {
        let src = &*src;
        let vacuum = src.chance(1, 3);
        let mut fams: Vec<Arc<dyn Family>> = vec![];
        for _ in 0..1 + src.usize(3) {
            let f: Arc<dyn Family> = match src.weighted(&[10, 12, 14, 8, 12, 16, 14, 6, 8]) {
                0 => Arc::new(Own { vacuum, ..Default::default() }),
                1 => Arc::new(Rows { vacuum, keyed: src.chance(2, 3), long: src.chance(1, 3), ..Default::default() }),
                2 => Arc::new(Transfers { accounts: src.range(2, 6), keyed: src.chance(1, 2), moved: Mutex::default() }),
                3 => {
                    let n = src.range(1, 3);
                    Arc::new(Counters { n, acks: (0..n).map(|_| AtomicU64::new(0)).collect() })
                }
                4 => Arc::new(Unique { keys: src.range(1, 6), how: src.usize(3), tags: AtomicU64::new(1), book: Mutex::default() }),
                5 => Arc::new(Registers { n: src.range(2, 6), keyed: src.chance(1, 2), vers: AtomicU64::new(0), book: Mutex::default() }),
                6 => Arc::new(Scan { n: *src.pick(&[20, 60, 150]), pad: *src.pick(&[10, 200, 1500]), keyed: src.chance(2, 3), left: Mutex::default() }),
                7 => Arc::new(Names::default()),
                _ => Arc::new(Evolve::default()),
            };
            if !fams.iter().any(|g| g.name() == f.name()) {
                fams.push(f);
            }
        }
        let clients = fams.len().max(2 + src.usize(7));
        let cache = *src.pick(&[500, 8, 16, 40, 120, 3000]);
        let cfg = DBConfig::new(4096, cache, 1 + src.usize(8), 3, 2);
        let mut who: Vec<Arc<dyn Family>> = (0..clients).map(|i| fams[if i < fams.len() { i } else { src.usize(fams.len()) }].clone()).collect();
        if vacuum || src.chance(1, 2) {
            who.push(Arc::new(Upkeep { vacuum }));
        }
        let steps = *src.pick(&[12, 25, 40]);
        let (yields, sleeps) = *src.pick(&[(3000, 60), (0, 0), (20000, 0), (1000, 500), (0, 1500)]);
        let seed = src.raw();
        cx.log(format!("-- {} clients: {}; cache {cache} pages, {} workers, {steps} steps, yields {yields} sleeps {sleeps} of 65536", who.len(), who.iter().map(|f| f.name()).collect::<Vec<_>>().join(", "), cfg.pool_size));
        let path = cx.fresh_dir("db").join("db");
        let db = Arc::new(Database::create(&path, cfg).map_err(err("create"))?);
        for f in &fams {
            f.setup(&db)?;
            cx.class(f.name());
        }
        if src.chance(1, 3) {
            db.flush().map_err(err("flush"))?;
        }
        if vacuum {
            cx.class("with VACUUM");
        }
        let sh = Arc::new(Run { seq: AtomicU64::new(0), stop: AtomicBool::new(false), fails: Mutex::default(), now: Mutex::default(), log: Mutex::default(), vacuum, dir: cx.dir.clone() });
        sched::set(seed, yields, sleeps);
        let handles: Vec<_> = who
            .iter()
            .enumerate()
            .map(|(id, f)| {
                let (f, sh, db) = (f.clone(), sh.clone(), db.clone());
                let s = mix(&[seed, id as u64]);
                let pace = *src.pick(&[0u64, 30, 200]);
                std::thread::spawn(move || {
                    let start: std::cell::Cell<u64> = Default::default();
                    let (s2, own) = (sh.clone(), Src::random(mix(&[s, 1])));
                    let lines: std::rc::Rc<std::cell::RefCell<Log>> = Default::default();
                    let l2 = lines.clone();
                    set_pace(Some(Box::new(move |sql, r| {
                        match r {
                            None => {
                                if pace > 0 && own.chance(1, 3) {
                                    std::thread::sleep(Duration::from_micros(own.below(pace)));
                                }
                                start.set(s2.seq.fetch_add(1, SeqCst));
                                s2.now.lock().unwrap().insert(id, sql.chars().take(120).collect());
                            }
                            Some(r) => {
                                s2.now.lock().unwrap().remove(&id);
                                let end = s2.seq.fetch_add(1, SeqCst);
                                let out = match r {
                                    Ok(Out::Affected(n)) => format!("{n} rows"),
                                    Ok(Out::Rows(_, r)) if r.len() <= 8 => r.iter().map(|x| crate::values::show_row(x)).collect::<Vec<_>>().join(" "),
                                    Ok(Out::Rows(_, r)) => format!("{} rows", r.len()),
                                    Ok(_) => "ok".into(),
                                    Err(e) => format!("ERR {e}"),
                                };
                                l2.borrow_mut().push((start.get(), end, id, format!("{} -> {}", sql.chars().take(160).collect::<String>(), out.chars().take(160).collect::<String>())));
                            }
                        };
                    })));
                    let mut th = Th { id, src: Src::random(s), steps, sh: sh.clone(), db, };
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.client(&mut th)));
                    set_pace(None);
                    let v = match r {
                        Ok(Ok(())) => None,
                        Ok(Err(v)) => Some(v),
                        Err(_) => Some(Violation { kind: "panic".into(), msg: format!("t{id} panicked") }),
                    };
                    if let Some(v) = v {
                        sh.stop.store(true, SeqCst);
                        sh.fails.lock().unwrap().push((sh.seq.load(SeqCst), v));
                    }
                    drop(th);
                    sh.log.lock().unwrap().append(&mut lines.borrow_mut());
                })
            })
            .collect();
        // wait; a standstill is a deadlock
        let (mut last, mut since) = (u64::MAX, Instant::now());
        while !handles.iter().all(|h| h.is_finished()) {
            std::thread::sleep(Duration::from_millis(5));
            let s = sh.seq.load(SeqCst);
            if s != last || runnable() {
                last = s;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(4) {
                let now: Vec<String> = sh.now.lock().unwrap().iter().map(|(t, q)| format!("t{t}: {q}")).collect();
                std::mem::forget(db);
                std::mem::forget(handles);
                sched::set(0, 0, 0);
                let p = take_panics();
                return viol("deadlock", format!("nothing moves any more: no thread has run for 4 s; waiting: {}{}", now.join(" | "), if p.is_empty() { String::new() } else { format!("; panics: {}", p.join(" | ")) }));
            }
        }
        for h in handles {
            let _ = h.join();
        }
        sched::set(0, 0, 0);
        let mut log = std::mem::take(&mut *sh.log.lock().unwrap());
        log.sort();
        let overlaps = log.iter().filter(|l| l.1 > l.0 + 1).count();
        for (a, b, t, q) in &log {
            cx.log(format!("[{a}..{b}] t{t}: {q}"));
        }
        cx.class_n("calls", log.len() as u64);
        cx.class_n("overlapping calls", overlaps as u64);
        cx.class_n("refused", log.iter().filter(|l| l.3.contains("-> ERR")).count() as u64);
        cx.eval(overlaps >= 10);
        cx.distinct(cx.trace_hash());
        panics()?;
        let mut fails = std::mem::take(&mut *sh.fails.lock().unwrap());
        fails.sort_by_key(|f| f.0);
        if let Some((_, v)) = fails.into_iter().next() {
            return Err(v);
        }
        for f in &fams {
            f.check(&db, "when all clients were done")?;
            panics()?;
        }
        audit_db(&db, "when all clients were done")?;
        let active = axmosdb::verif::VDb(&db).active_transactions();
        ensure!(active == 0, "left-active", "{active} transactions are still active although every client is done");
        let Some(db) = Arc::into_inner(db) else { return viol("HARNESS", "the database is still shared") };
        drop(db);
        let db = Database::open(&path, cfg).map_err(err("open"))?;
        for f in &fams {
            f.check(&db, "after reopening")?;
            panics()?;
        }
        Ok(())
    }
    fn probe(&self, finding: &str, dir: &Path) -> Option<bool> {
        if finding != "C14-write-skew" {
            return None;
        }
        let db = Database::create(dir.join("p"), DBConfig::new(4096, 500, 2, 3, 2)).ok()?;
        exec(&db, "CREATE TABLE t (id INT, v INT)").ok()?;
        exec(&db, "INSERT INTO t VALUES (1, 1), (2, 1)").ok()?;
        let (mut a, mut b) = (db.session().ok()?, db.session().ok()?);
        let read = |s: &mut Session| sess(s, "SELECT SUM(v) FROM t").ok().map(|o| rows_of(&o.rows()));
        // each takes its row out only as long as both are in
        let both = read(&mut a)? == read(&mut b)?;
        sess(&mut a, "UPDATE t SET v = 0 WHERE id = 1").ok()?;
        let second = sess(&mut b, "UPDATE t SET v = 0 WHERE id = 2").is_ok();
        let c1 = a.commit_transaction().is_ok();
        let c2 = b.commit_transaction().is_ok();
        Some(both && second && c1 && c2)
    }
}

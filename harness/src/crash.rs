//! Crashes: every file mutation of a history is recorded through the I/O tap; a crash image is what a prefix of them
//! leaves on disk. Shared by C01, C02 and C08.
use crate::{core::*, db::*, hist::*, multi::*, sqlgen, sqlmodel::*};
use axmosdb::verif::tap::{self, IoEvent, Sink};
use axmosdb::{DBConfig, Database};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
enum Ev {
    Create(String),
    Write(String, u64, Vec<u8>),
    SetLen(String, u64),
    Remove(String),
}
impl Ev {
    fn show(&self) -> String {
        match self {
            Ev::Create(f) => format!("create {f}"),
            Ev::Write(f, o, d) => format!("write {f} at {o}, {} bytes", d.len()),
            Ev::SetLen(f, n) => format!("set length of {f} to {n}"),
            Ev::Remove(f) => format!("remove {f}"),
        }
    }
}
/// A transaction whose commit was acknowledged: the events issued when it was asked for and when it returned.
#[derive(Clone)]
struct Mark {
    from: usize,
    to: usize,
    after: State,
}
#[derive(Default)]
struct Rolls {
    events: Vec<Ev>,
    marks: Vec<Mark>,
}
pub struct Tape {
    dir: PathBuf,
    r: Mutex<Rolls>,
}
impl Sink for Tape {
    fn event(&self, ev: &IoEvent<'_>) -> std::io::Result<()> {
        let name = |p: &Path| p.strip_prefix(&self.dir).ok().map(|p| p.to_string_lossy().into_owned());
        let ev = match ev {
            IoEvent::Create { path } => name(path).map(Ev::Create),
            IoEvent::Write { path, offset, data } => name(path).map(|n| Ev::Write(n, *offset, data.to_vec())),
            IoEvent::SetLen { path, len } => name(path).map(|n| Ev::SetLen(n, *len)),
            IoEvent::Sync { .. } => None,
            IoEvent::Remove { path } => name(path).map(Ev::Remove),
        };
        if let Some(ev) = ev {
            self.r.lock().unwrap_or_else(|e| e.into_inner()).events.push(ev);
        }
        Ok(())
    }
}
impl Tape {
    /// Records what happens to the files of a directory from now on.
    pub fn start(dir: &Path) -> Arc<Tape> {
        let t = Arc::new(Tape { dir: dir.to_path_buf(), r: Mutex::default() });
        tap::install(Some(t.clone()));
        t
    }
    pub fn stop() {
        tap::install(None);
    }
    pub fn len(&self) -> usize {
        self.r.lock().unwrap_or_else(|e| e.into_inner()).events.len()
    }
    /// A commit asked for at event `from` has been acknowledged.
    pub fn mark(&self, from: usize, after: &State) {
        let mut r = self.r.lock().unwrap_or_else(|e| e.into_inner());
        let to = r.events.len();
        r.marks.push(Mark { from, to, after: after.clone() });
    }
}
#[derive(Clone, Default)]
pub struct Image {
    files: BTreeMap<String, Vec<u8>>,
}
impl Image {
    fn apply(&mut self, ev: &Ev) {
        match ev {
            Ev::Create(f) => {
                self.files.insert(f.clone(), vec![]);
            }
            Ev::Write(f, o, d) => {
                let b = self.files.entry(f.clone()).or_default();
                let end = *o as usize + d.len();
                if b.len() < end {
                    b.resize(end, 0);
                }
                b[*o as usize..end].copy_from_slice(d);
            }
            Ev::SetLen(f, n) => self.files.entry(f.clone()).or_default().resize(*n as usize, 0),
            Ev::Remove(f) => {
                self.files.remove(f);
            }
        }
    }
    pub fn put(&self, dir: &Path) {
        for (n, b) in &self.files {
            std::fs::write(dir.join(n), b).expect("scratch file");
        }
    }
    pub fn len_of(&self, f: &str) -> usize {
        self.files.get(f).map_or(0, |b| b.len())
    }
}
/// What the driver did, and the events it took.
pub struct Seg {
    pub label: &'static str,
    pub from: usize,
    pub to: usize,
    /// Transactions with changes that were open, or had been rolled back, by then.
    pub dirt: usize,
}
pub struct History {
    pub cfg: DBConfig,
    pub segs: Vec<Seg>,
    first: usize,
    rolls: Rolls,
    /// Rows that some committed state had, by table.
    past: HashMap<String, BTreeSet<String>>,
}
pub struct Opts {
    pub world: W,
    pub ddl_in_tx: u64,
    pub steps: u64,
    pub multi: u64,
    pub vacuum: u32,
}

pub fn config(src: &Src) -> DBConfig {
    let page = *src.pick(&[4096, 4096, 4096, 8192, 16384, 65536]);
    let cache = *src.pick(&[2000, 24, 40, 64, 100, 12]);
    DBConfig::new(page, cache, 1 + src.usize(3), 3 + src.usize(3), 1 + src.usize(2))
}
/// Runs a generated history to its end and keeps what it did to the files.
pub fn history(src: &Src, cx: &mut Cx, o: &Opts) -> Result<History, Violation> {
    let cfg = config(src);
    cx.log(format!("-- {cfg:?}"));
    let dir = cx.dir.join("db");
    let tape = Tape::start(&dir);
    let mut segs = vec![];
    let r = run(src, cx, o, cfg, &tape, &mut segs);
    Tape::stop();
    let (first, live) = match r {
        Ok(x) => x,
        Err(v) => return Err(v),
    };
    let mut rolls = std::mem::take(&mut *tape.r.lock().unwrap_or_else(|e| e.into_inner()));
    if let Some(v) = live {
        if v.kind == "HARNESS" {
            return Err(v);
        }
        if std::env::var_os("AX_STRICT").is_some() {
            return Err(v);
        }
        // an answer of the running database is for other checks; what it acknowledged up to here counts
        cx.class("stopped: a live answer was not as expected");
        cx.log(format!("-- stopped here: {}: {}", v.kind, v.msg.lines().next().unwrap_or("")));
        take_panics();
        let end = segs.pop().map_or(first, |s| s.from);
        rolls.events.truncate(end);
        rolls.marks.retain(|m| m.to <= end);
    }
    let mut past: HashMap<String, BTreeSet<String>> = HashMap::new();
    let mut seen: HashMap<String, usize> = HashMap::new();
    for m in &rolls.marks {
        for (n, t) in &m.after.tables {
            let p = Arc::as_ptr(t) as *const u8 as usize;
            if seen.insert(n.clone(), p) == Some(p) {
                continue;
            }
            let s = past.entry(n.clone()).or_default();
            s.extend(t.rows.values().map(|r| show_vs(&norm_row(r))));
        }
    }
    Ok(History { cfg, segs, first, rolls, past })
}
fn run(src: &Src, cx: &mut Cx, o: &Opts, cfg: DBConfig, tape: &Arc<Tape>, segs: &mut Vec<Seg>) -> Result<(usize, Option<Violation>), Violation> {
    let mut w = World::new(cx, cfg)?;
    w.tape = Some(tape.clone());
    w.outside = false;
    w.odd_reopen = false;
    w.ddl_in_tx = *src.pick(&[o.ddl_in_tx, 0, o.ddl_in_tx * 2]);
    w.mid_flush = src.chance(1, 2);
    let first = tape.len();
    let multi = src.chance(o.multi, 100);
    let live = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if multi { many(src, cx, o, w, tape, segs) } else { one(src, cx, o, w, tape, segs) }
    }));
    Ok((
        first,
        match live {
            Ok(r) => r.err(),
            Err(_) => {
                // a panic of the harness is reported as one
                panics().err().filter(|v| v.kind == "HARNESS").map_or(Some(Violation { kind: "panic".into(), msg: "the engine panicked".into() }), Some)
            }
        },
    ))
}
fn filled(src: &Src, cx: &mut Cx, w: &mut World, tape: &Arc<Tape>, segs: &mut Vec<Seg>) -> Res {
    let from = tape.len();
    let r = w.fill(src, cx, 1 + src.usize(2), *src.pick(&[8, 0, 40, 120, 250]));
    segs.push(Seg { label: "filling", from, to: tape.len(), dirt: 0 });
    r?;
    if src.chance(1, 2) {
        cx.log("-- flush");
        let from = tape.len();
        let r = w.db().flush();
        segs.push(Seg { label: "flush", from, to: tape.len(), dirt: 0 });
        r.map_err(err("flush"))?;
        panics()?;
    }
    Ok(())
}
fn one(src: &Src, cx: &mut Cx, o: &Opts, mut w: World, tape: &Arc<Tape>, segs: &mut Vec<Seg>) -> Res {
    filled(src, cx, &mut w, tape, segs)?;
    let mut dirt = 0;
    for i in 0..2 + src.below(o.steps) {
        let from = tape.len();
        let long = src.chance(1, 6);
        let r = if long { long_value(src, cx, &mut w, i) } else { w.op(src, cx, &o.world) };
        let label = match &r {
            Ok(Did::Statement) => "autocommit",
            Ok(Did::Committed) => "session committed",
            Ok(Did::Dropped | Did::Aborted) => "session rolled back",
            Ok(Did::BatchOk) => "batch",
            Ok(Did::BatchFailed | Did::Failed) => "failed",
            Ok(Did::Vacuum) => "vacuum",
            Ok(Did::Reopen) => "close and open",
            Ok(Did::Flush) => "flush",
            Ok(Did::Analyze) => "analyze",
            _ => "nothing",
        };
        let inside = matches!(&r, Ok(Did::Committed)) as usize;
        dirt += matches!(&r, Ok(d) if d.rolled_back()) as usize;
        segs.push(Seg { label, from, to: tape.len(), dirt: dirt + inside });
        r?;
    }
    let from = tape.len();
    if src.chance(1, 3) {
        cx.log("-- close");
        w.close();
        segs.push(Seg { label: "close", from, to: tape.len(), dirt });
    } else {
        Tape::stop();
        w.close();
    }
    Ok(())
}
fn long_value(src: &Src, cx: &mut Cx, w: &mut World, i: u64) -> Result<Did, Violation> {
    if let Some(t) = sqlgen::pick_table(src, &w.st) {
        if let Some(c) = t.cols.iter().position(|c| c.ty == Ty::Text) {
            let v = V::S(format!("{i}-").repeat(*src.pick(&[300, 40, 700, 1500, 3000])));
            let filter = if src.chance(1, 2) { None } else { sqlgen::where_(src, t) };
            let x = Stmt::Update { table: t.name.clone(), sets: vec![(t.cols[c].name.clone(), E::Lit(v))], filter, full: false };
            return Ok(match w.auto(cx, &x)? {
                Some(true) => Did::Statement,
                Some(false) => Did::Failed,
                None => Did::Nothing,
            });
        }
    }
    Ok(Did::Nothing)
}
fn many(src: &Src, cx: &mut Cx, o: &Opts, mut w: World, tape: &Arc<Tape>, segs: &mut Vec<Seg>) -> Res {
    filled(src, cx, &mut w, tape, segs)?;
    let mut m = Multi::new(w);
    let mw = MW { begin: 14, stmt: 46, auto: 14, end: 14, check: 0, vacuum: o.vacuum };
    let mut gone = 0;
    let mut created = 4;
    for _ in 0..6 + src.below(o.steps * 2) {
        let from = tape.len();
        let open = m.open.iter().filter(|s| s.changed()).count();
        let (r, label) = match src.weighted(&[84, 8, 3]) {
            0 => (m.op(src, cx, &mw), "sessions"),
            1 => {
                cx.log("-- flush");
                (m.w.db().flush().map_err(err("flush")).and_then(|_| panics()), "flush with sessions open")
            }
            _ => {
                // a table that the open sessions do not see
                let t = sqlgen::table(src, &format!("t{created}"), &sqlgen::FULL);
                created += 1;
                (m.w.auto(cx, &Stmt::CreateTable { t, if_not_exists: false }).map(|_| ()), "table created with sessions open")
            }
        };
        let now = m.open.iter().filter(|s| s.changed()).count();
        gone += open.saturating_sub(now);
        segs.push(Seg { label, from, to: tape.len(), dirt: open.max(now) + gone });
        r?;
    }
    if src.chance(1, 2) {
        Tape::stop();
    }
    let from = tape.len();
    let open = m.open.iter().filter(|s| s.changed()).count();
    cx.log("-- sessions dropped, closed");
    m.open.clear();
    m.w.close();
    if tape.len() > from {
        segs.push(Seg { label: "close", from, to: tape.len(), dirt: gone + open });
    }
    Ok(())
}
impl History {
    pub fn events(&self) -> usize {
        self.rolls.events.len()
    }
    pub fn commits(&self) -> usize {
        self.rolls.marks.len()
    }
    pub fn image(&self) -> Image {
        let mut i = Image::default();
        for e in &self.rolls.events[..self.first] {
            i.apply(e);
        }
        i
    }
    /// Crash points, ascending: how many of the events happened.
    pub fn points(&self, src: &Src, n: usize) -> Vec<usize> {
        let segs: Vec<&Seg> = self.segs.iter().filter(|s| s.to > s.from).collect();
        let mut p = BTreeSet::new();
        for _ in 0..n {
            p.insert(if src.chance(1, 3) || segs.is_empty() {
                self.first + src.usize(self.events() - self.first + 1)
            } else {
                let s = segs[src.usize(segs.len())];
                s.from + 1 + src.usize(s.to - s.from)
            });
        }
        p.into_iter().collect()
    }
    pub fn forward(&self, img: &mut Image, from: usize, to: usize) {
        for e in &self.rolls.events[from..to] {
            img.apply(e);
        }
    }
    pub fn first(&self) -> usize {
        self.first
    }
    pub fn seg(&self, k: usize) -> Option<&Seg> {
        self.segs.iter().find(|s| s.from < k && k <= s.to)
    }
    pub fn describe(&self, k: usize) -> String {
        let s = self.seg(k).map_or("before the history".to_string(), |s| format!("{} ({} of its {} file operations)", s.label, k - s.from, s.to - s.from));
        let e = if k > 0 { self.rolls.events[k - 1].show() } else { "-".into() };
        let (must, may) = self.states(k);
        format!("crash in {s}, last file operation: {e}; {} commits acknowledged{}", must.1, if may.is_some() { ", one in progress" } else { "" })
    }
    /// What has to be there after a crash, with the number of commits, and what may be there instead.
    pub fn states(&self, k: usize) -> ((State, usize), Option<State>) {
        let n = self.rolls.marks.iter().take_while(|m| m.to <= k).count();
        let must = if n == 0 { State::default() } else { self.rolls.marks[n - 1].after.clone() };
        let may = self.rolls.marks.get(n).filter(|m| m.from < k).map(|m| m.after.clone());
        ((must, n), may)
    }
}

// ------------------------------------------------------------------ contents

pub type Dump = BTreeMap<String, Result<Vec<String>, String>>;

pub fn names() -> impl Iterator<Item = String> {
    (0..48).map(|i| format!("t{i}"))
}
/// Every table, as it answers.
pub fn dump(db: &Database, st: &[&State]) -> Result<Dump, Violation> {
    let mut d = Dump::new();
    for n in names() {
        let known = st.iter().any(|s| s.tables.contains_key(&n));
        if !known && n.len() > 2 {
            continue;
        }
        let r = exec(db, &format!("SELECT * FROM {n}"));
        panics()?;
        d.insert(
            n,
            match r {
                Ok(Out::Rows(c, r)) => {
                    let mut v: Vec<String> = rows_of(&r).iter().map(|r| show_vs(&norm_row(r))).collect();
                    v.sort();
                    v.insert(0, format!("{c} columns"));
                    Ok(v)
                }
                Ok(o) => Err(show_out(&o)),
                Err(e) => Err(e),
            },
        );
    }
    Ok(d)
}
fn rows_in(t: &Table) -> Vec<String> {
    let mut v: Vec<String> = t.rows.values().map(|r| show_vs(&norm_row(r))).collect();
    v.sort();
    v
}
/// How the contents differ from a state.
pub fn differs(d: &Dump, st: &State) -> Option<String> {
    for (n, got) in d {
        match (st.tables.get(n), got) {
            (None, Err(_)) => {}
            (None, Ok(r)) => return Some(format!("table {n} is there ({} rows)", r.len() - 1)),
            (Some(_), Err(e)) => return Some(format!("table {n} is not there: {e}")),
            (Some(t), Ok(r)) => {
                if r[0] != format!("{} columns", t.cols.len()) {
                    return Some(format!("table {n} has {}, {} expected", r[0], t.cols.len()));
                }
                let (less, more) = two(&rows_in(t), &r[1..]);
                if !less.is_empty() || !more.is_empty() {
                    return Some(format!("table {n}: {} rows missing, {} too many\n  missing: {}\n  too many: {}", less.len(), more.len(), few(&less), few(&more)));
                }
            }
        }
    }
    None
}
/// What acknowledged commits did and is not there: rows and tables that are missing, and old ones that are back.
pub fn lost(d: &Dump, st: &State, past: &HashMap<String, BTreeSet<String>>) -> Option<String> {
    for (n, got) in d {
        match (st.tables.get(n), got) {
            (None, Err(_)) => {}
            (None, Ok(r)) => {
                if past.contains_key(n) {
                    return Some(format!("table {n}, which was dropped, is there ({} rows)", r.len() - 1));
                }
            }
            (Some(_), Err(e)) => return Some(format!("table {n} is not there: {e}")),
            (Some(t), Ok(r)) => {
                if r[0] != format!("{} columns", t.cols.len()) {
                    return Some(format!("table {n} has {}, {} expected", r[0], t.cols.len()));
                }
                let (less, mut more) = two(&rows_in(t), &r[1..]);
                let old = past.get(n);
                more.retain(|r| old.is_some_and(|o| o.contains(r)));
                if !less.is_empty() || !more.is_empty() {
                    return Some(format!("table {n}: {} rows missing, {} rows back that had been changed or deleted\n  missing: {}\n  back: {}", less.len(), more.len(), few(&less), few(&more)));
                }
            }
        }
    }
    None
}
impl History {
    pub fn lost(&self, d: &Dump, st: &State) -> Option<String> {
        lost(d, st, &self.past)
    }
}
fn few(v: &[String]) -> String {
    let cut = |s: &String| if s.len() > 160 { format!("{}..", s.chars().take(160).collect::<String>()) } else { s.clone() };
    v.iter().take(5).map(cut).collect::<Vec<_>>().join(" ")
}
/// Both ways difference of two sorted lists.
fn two(want: &[String], got: &[String]) -> (Vec<String>, Vec<String>) {
    let (mut less, mut more) = (vec![], vec![]);
    let (mut i, mut j) = (0, 0);
    while i < want.len() || j < got.len() {
        match (want.get(i), got.get(j)) {
            (Some(a), Some(b)) if a == b => {
                i += 1;
                j += 1;
            }
            (Some(a), Some(b)) if a < b => {
                less.push(a.clone());
                i += 1;
            }
            (Some(a), None) => {
                less.push(a.clone());
                i += 1;
            }
            (_, Some(b)) => {
                more.push(b.clone());
                j += 1;
            }
            (None, None) => break,
        }
    }
    (less, more)
}
/// Opens what a crash left.
pub fn reopen(dir: &Path, cfg: DBConfig, at: &str) -> Result<Database, Violation> {
    let r = Database::open(dir.join("db"), cfg);
    let r = match panics() {
        Err(v) => Err(Violation { kind: v.kind, msg: format!("{at}: opening: {}", v.msg) }),
        Ok(()) => r.map_err(|e| Violation { kind: "open-fails".into(), msg: format!("{at}: opening fails: {e}") }),
    };
    r
}
impl Tape {
    pub fn describe(&self, k: usize) -> String {
        let r = self.r.lock().unwrap_or_else(|e| e.into_inner());
        format!("crash inside the recovery, after {k} of {} file operations, the last: {}", r.events.len(), if k > 0 { r.events[k - 1].show() } else { "-".into() })
    }
    pub fn forward(&self, img: &mut Image, from: usize, to: usize) {
        let r = self.r.lock().unwrap_or_else(|e| e.into_inner());
        for e in &r.events[from..to] {
            img.apply(e);
        }
    }
}
/// Whether the contents tell which of the states it is: a commit in progress may have changed a schema only.
pub fn only(d: &Dump, st: &[&State]) -> bool {
    st.iter().filter(|s| differs(d, s).is_none()).count() == 1
}

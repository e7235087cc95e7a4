//! Interleaved transactions at statement granularity against a snapshot-isolation model: each session works on the
//! state committed when it began plus its own changes; two that change the same row, or claim the same unique key,
//! cannot both commit; statements and commits may fail only for a conflict that is there.
use crate::{c06::probes, core::*, db::*, hist::*, sqlgen, sqlmodel::*};
use axmosdb::tcp::session::Session;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

type Rows = BTreeMap<String, BTreeSet<u64>>;
type Keys = BTreeMap<String, BTreeSet<String>>;

#[derive(Clone, Default)]
pub struct Marks {
    pub rows: Rows,
    pub keys: Keys,
}
impl Marks {
    fn of(st: &State) -> Marks {
        let mut m = Marks::default();
        for (n, t) in &st.tables {
            m.rows.insert(n.clone(), t.touched.clone());
            m.keys.insert(n.clone(), t.keys.clone());
        }
        m
    }
    fn add(&mut self, o: &Marks) {
        for (n, r) in &o.rows {
            self.rows.entry(n.clone()).or_default().extend(r);
        }
        for (n, r) in &o.keys {
            self.keys.entry(n.clone()).or_default().extend(r.iter().cloned());
        }
    }
    fn same_row(&self, o: &Marks) -> bool {
        self.rows.iter().any(|(n, r)| o.rows.get(n).is_some_and(|x| !r.is_disjoint(x)))
    }
    fn meets(&self, o: &Marks) -> bool {
        self.same_row(o) || self.keys.iter().any(|(n, r)| o.keys.get(n).is_some_and(|x| !r.is_disjoint(x)))
    }
    fn empty(&self) -> bool {
        self.rows.values().all(|r| r.is_empty())
    }
}
fn clear(st: &mut State, next: u64) {
    for t in st.tables.values_mut() {
        let t = Arc::make_mut(t);
        t.touched.clear();
        t.keys.clear();
        t.next = next;
    }
}
/// Values shared between sessions on purpose: a small world of keys.
pub struct Sess {
    pub s: Session,
    pub name: usize,
    pub begin: usize,
    pub own: State,
    pub marks: Marks,
    /// What its statements that failed had addressed: others may be refused because of it as well.
    pub claims: Marks,
    /// UPDATEs ran: an explicit abort is a known finding.
    pub updated: bool,
}
impl Sess {
    pub fn changed(&self) -> bool {
        !self.marks.empty()
    }
}
pub struct Multi {
    pub w: World,
    pub open: Vec<Sess>,
    /// Marks of what committed, in commit order.
    pub log: Vec<Marks>,
    /// The same with what their failed statements addressed.
    claims: Vec<Marks>,
    ids: u64,
    names: usize,
    pub conflicts: u64,
}
#[derive(Clone, Copy)]
pub struct MW {
    pub begin: u32,
    pub stmt: u32,
    pub auto: u32,
    pub end: u32,
    pub check: u32,
    pub vacuum: u32,
}

impl Multi {
    pub fn new(w: World) -> Multi {
        Multi { w, open: vec![], log: vec![], claims: vec![], ids: 1_000_000, names: 0, conflicts: 0 }
    }
    fn fresh_ids(&mut self) -> u64 {
        self.ids += 1_000_000;
        self.ids
    }
    fn own(&mut self) -> State {
        let n = self.fresh_ids();
        let mut st = self.w.st.clone();
        clear(&mut st, n);
        st
    }
    pub fn begin(&mut self, cx: &mut Cx) -> Res {
        self.names += 1;
        cx.log(format!("-- s{} BEGIN", self.names));
        let s = self.w.db().session().map_err(err("session"))?;
        let own = self.own();
        self.open.push(Sess { s, name: self.names, begin: self.log.len(), own, marks: Marks::default(), claims: Marks::default(), updated: false });
        panics()
    }
    /// Whether a change by somebody concurrent stands in the way of these marks.
    fn justified(&self, m: &Marks, me: usize, begin: usize) -> bool {
        self.claims[begin..].iter().any(|o| m.meets(o)) || self.open.iter().any(|o| o.name != me && (m.meets(&o.marks) || m.meets(&o.claims)))
    }
    fn merge(&mut self, own: &State, m: &Marks, claims: &Marks, begin: usize, who: &str) -> Res {
        if let Some(o) = self.log[begin..].iter().find(|o| m.same_row(o)) {
            let _ = o;
            return viol("lost-update", format!("{who} committed changes to a row that another transaction changed and committed after {who} began"));
        }
        for (n, ids) in &m.rows {
            let Some(t) = self.w.st.tables.get_mut(n) else { continue };
            let t = Arc::make_mut(t);
            for id in ids {
                match own.t(n).and_then(|t| t.rows.get(id)) {
                    Some(r) => {
                        t.rows.insert(*id, r.clone());
                    }
                    None => {
                        t.rows.remove(id);
                    }
                }
            }
        }
        for (n, t) in &self.w.st.tables {
            if let Some(b) = t.broken() {
                return viol("constraint", format!("{who} committed, and {n} now has {b}"));
            }
        }
        self.log.push(m.clone());
        let mut c = m.clone();
        c.add(claims);
        self.claims.push(c);
        Ok(())
    }
    /// One statement of session k (None: autocommit).
    fn stmt(&mut self, src: &Src, cx: &mut Cx, k: Option<usize>) -> Result<(), Violation> {
        let mut own = match k {
            Some(k) => self.open[k].own.clone(),
            None => self.own(),
        };
        for t in own.tables.values_mut() {
            let t = Arc::make_mut(t);
            t.touched.clear();
            t.keys.clear();
        }
        let x = if src.chance(1, 6) {
            Stmt::Select(sqlgen::query(src, &own, &sqlgen::QOpts { max_joins: 1, nested: 0, max_product: 2000 }))
        } else {
            match hot(src, &own) {
                Some(x) => x,
                None => return Ok(()),
            }
        };
        let who = match k {
            Some(k) => format!("s{}", self.open[k].name),
            None => "autocommit".into(),
        };
        let sql = x.sql(&own);
        let mut next = own.clone();
        let Ok(ex) = x.apply(&mut next) else { return Ok(()) };
        if let (Expect::Fail(_), Some(k)) = (&ex, k) {
            // a key its snapshot still shows on a row somebody has changed since: free to take or not
            let mut alt = own.clone();
            for m in &self.log[self.open[k].begin..] {
                for (n, ids) in &m.rows {
                    if let Some(t) = alt.tables.get_mut(n) {
                        Arc::make_mut(t).rows.retain(|id, _| !ids.contains(id));
                    }
                }
            }
            if !matches!(x.apply(&mut alt), Ok(Expect::Fail(_))) {
                cx.class("not determined, not run");
                return Ok(());
            }
        }
        cx.log(format!("{who}: {}", sql.chars().take(400).collect::<String>()));
        let from = self.w.events();
        let got = match k {
            Some(k) => sess(&mut self.open[k].s, &sql),
            None => exec(self.w.db(), &sql),
        };
        panics()?;
        let m = Marks::of(&next);
        let (name, begin) = match k {
            Some(k) => (self.open[k].name, self.open[k].begin),
            None => (0, self.log.len()),
        };
        if x.is_dml() && !matches!(ex, Expect::Fail(_)) {
            if let Err(e) = &got {
                if self.justified(&m, name, begin) {
                    if let Some(k) = k {
                        self.open[k].claims.add(&m);
                    }
                    self.conflicts += 1;
                    cx.class("conflict refused");
                    return Ok(());
                }
                return viol("rejected", format!("{who}: {sql}\n  failed: {e}\n  although nobody concurrent touched those rows or keys"));
            }
        }
        judge(&sql, &ex, &got).map_err(|v| Violation { kind: v.kind, msg: format!("{who}: {}", v.msg) })?;
        if matches!(ex, Expect::Fail(_)) {
            cx.class("constraint refused");
            if let Some(k) = k {
                self.open[k].claims.add(&m);
            }
            return Ok(());
        }
        cx.class(&format!("{} {}", if k.is_some() { "session" } else { "autocommit" }, x.kind()));
        match k {
            Some(k) => {
                let s = &mut self.open[k];
                s.own = next;
                s.marks.add(&m);
                s.updated |= matches!(x, Stmt::Update { .. }) && !m.empty();
            }
            None => {
                let b = self.log.len();
                self.merge(&next, &m, &Marks::default(), b, &who)?;
                self.w.acked(from);
            }
        }
        Ok(())
    }
    fn end(&mut self, src: &Src, cx: &mut Cx, k: usize) -> Res {
        let mut s = self.open.swap_remove(k);
        let who = format!("s{}", s.name);
        match src.weighted(&[60, 24, if s.updated { 0 } else { 16 }]) {
            0 => {
                cx.log(format!("-- {who} COMMIT"));
                let from = self.w.events();
                let r = s.s.commit_transaction();
                panics()?;
                match r {
                    Ok(()) => {
                        cx.class("commit");
                        self.merge(&s.own, &s.marks, &s.claims, s.begin, &who)?;
                        self.w.acked(from);
                    }
                    Err(e) => {
                        if !self.justified(&s.marks, s.name, s.begin) {
                            return viol("commit-rejected", format!("{who}: COMMIT failed ({e}) although nobody concurrent touched its rows or keys"));
                        }
                        cx.class("commit refused");
                    }
                }
            }
            1 => {
                cx.log(format!("-- {who} dropped"));
                cx.class("session dropped");
                drop(s);
                panics()?;
            }
            _ => {
                cx.log(format!("-- {who} ROLLBACK"));
                cx.class("rollback");
                s.s.abort_transaction().map_err(|e| Violation { kind: "abort".into(), msg: e.to_string() })?;
                panics()?;
            }
        }
        Ok(())
    }
    /// Every open session and a new transaction see exactly what they are entitled to.
    pub fn check(&mut self, src: &Src, cx: &mut Cx, deep: bool) -> Res {
        for s in self.open.iter_mut() {
            let who = format!("s{} (began after {} commits, {} since)", s.name, s.begin, self.log.len() - s.begin);
            compare_all(&s.own, &who, &mut |q| sess(&mut s.s, q))?;
            cx.eval(self.log.len() > s.begin && self.log[s.begin..].iter().any(|m| !m.empty()) || !s.marks.empty());
            if deep {
                let own = s.own.clone();
                let ss = &mut s.s;
                probes(src, cx, &own, self.w.db(), &mut |q| sess(ss, q)).map_err(|v| Violation { kind: v.kind, msg: format!("{who}: {}", v.msg) })?;
            }
        }
        compare_all(&self.w.st, "a new transaction", &mut |q| exec(self.w.db(), q))?;
        if deep {
            let db = self.w.db();
            probes(src, cx, &self.w.st, db, &mut |q| exec(db, q))?;
        }
        Ok(())
    }
    pub fn op(&mut self, src: &Src, cx: &mut Cx, m: &MW) -> Res {
        let n = self.open.len();
        let any = |x: u32| if n == 0 { 0 } else { x };
        match src.weighted(&[if n < 5 { m.begin } else { 0 }, any(m.stmt), m.auto, any(m.end), m.check, m.vacuum]) {
            0 => self.begin(cx),
            1 => {
                let k = src.usize(n);
                self.stmt(src, cx, Some(k))
            }
            2 => self.stmt(src, cx, None),
            3 => {
                let k = src.usize(n);
                self.end(src, cx, k)
            }
            4 => {
                let deep = src.chance(1, 3);
                self.check(src, cx, deep)
            }
            _ => {
                // ends every open transaction
                cx.log("-- VACUUM");
                self.w.db().vacuum().map_err(err("vacuum"))?;
                panics()?;
                for mut s in std::mem::take(&mut self.open) {
                    for (n, t) in &s.own.tables {
                        if let Ok(Out::Rows(_, r)) = sess(&mut s.s, &format!("SELECT * FROM {n}")) {
                            if s.marks.empty() {
                                same_set(t.rows.values().cloned().collect(), rows_of(&r)).map_err(|e| Violation { kind: "open-session".into(), msg: format!("s{} after VACUUM: {n}: {e}", s.name) })?;
                            }
                        }
                    }
                    panics()?;
                    if s.s.commit_transaction().is_ok() && !s.marks.empty() {
                        return viol("vacuumed-commit", format!("s{} was ended by VACUUM, yet its COMMIT succeeds", s.name));
                    }
                }
                panics()?;
                compare_all(&self.w.st, "after VACUUM", &mut |q| exec(self.w.db(), q))
            }
        }
    }
}
/// DML that several sessions are likely to collide on.
pub fn hot(src: &Src, st: &State) -> Option<Stmt> {
    let t = sqlgen::pick_table(src, st)?;
    Some(match src.weighted(&[30, 22, 26, 22]) {
        0 => {
            // keys from a small range
            let rows = (0..1 + src.usize(2))
                .map(|_| {
                    let mut r = sqlgen::row(src, t, src.below(12));
                    for u in &t.uniques {
                        for c in &u.cols {
                            if r[*c] != V::Null {
                                r[*c] = sqlgen::fresh(src, t.cols[*c].ty, src.below(14));
                            }
                        }
                    }
                    r
                })
                .collect();
            Stmt::Insert { table: t.name.clone(), cols: None, rows }
        }
        1 => {
            // one column of few rows, often a key
            let c = src.usize(t.cols.len());
            let v = sqlgen::fresh(src, t.cols[c].ty, src.below(14));
            Stmt::Update { table: t.name.clone(), sets: vec![(t.cols[c].name.clone(), E::Lit(v))], filter: sqlgen::where_(src, t), full: false }
        }
        2 => sqlgen::dml(src, st)?,
        _ => sqlgen::delete(src, t),
    })
}

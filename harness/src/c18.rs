//! C18: row versions decode to the right values for every snapshot.
//!
//! A timeline of transactions works on one stored row under a row lock (one open writer at a
//! time, which sees the row first), while other transactions begin, commit and roll back around
//! it. The model is the plain list of physical versions with creator and deleter; a snapshot is
//! judged from the commit status the timeline gave each transaction at the snapshot's instant.
use crate::{c19, core::*, ensure, values::*};
use axmosdb::types::*;
use axmosdb::verif::{SnapshotSpec, VTuple};
use axmosdb::DataTypeKind as Kind;
use std::collections::BTreeSet;

pub struct C18;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Active,
    Committed,
    Aborted,
}

struct Snap {
    spec: SnapshotSpec,
    /// Transactions committed at the snapshot's instant.
    committed: BTreeSet<u64>,
}

struct World {
    kinds: Vec<Kind>,
    keys: usize,
    tuple: VTuple,
    /// Oldest first: creator, full row.
    versions: Vec<(u64, Vec<DataType>)>,
    deleter: Option<u64>,
    tx: Vec<St>, // index = id
    snaps: Vec<Snap>,
    ops: Vec<String>,
}

impl World {
    fn begin(&mut self) -> u64 {
        self.tx.push(St::Active);
        self.tx.len() as u64 - 1
    }
    fn ids(&self, s: St) -> Vec<u64> {
        (0..self.tx.len()).filter(|&i| self.tx[i] == s).map(|i| i as u64).collect()
    }
    /// The snapshot `xid` would hold now.
    fn snapshot(&mut self, xid: u64) {
        let active: Vec<u64> = self.ids(St::Active).into_iter().filter(|&i| i != xid).collect();
        let committed: BTreeSet<u64> = self.ids(St::Committed).into_iter().collect();
        let xmin = active.iter().copied().chain([xid]).min().unwrap();
        let spec = SnapshotSpec { xid, xmin, xmax: Some(*committed.iter().max().unwrap_or(&0)), active, aborted: self.ids(St::Aborted) };
        self.snaps.push(Snap { spec, committed });
    }
    fn expect(&self, s: &Snap) -> Option<&Vec<DataType>> {
        let sees = |x: u64| x == s.spec.xid || s.committed.contains(&x);
        if self.deleter.is_some_and(sees) {
            return None;
        }
        self.versions.iter().rev().find(|(x, _)| sees(*x)).map(|(_, r)| r)
    }
    fn check(&self, cx: &mut Cx, why: &str) -> Res {
        let last = match self.tuple.decode_last() {
            Ok(r) => r,
            Err(e) => return viol("decode", format!("newest version unreadable {why}: {e}")),
        };
        let want = &self.versions.last().unwrap().1;
        ensure!(same_row(&last, want), "newest", "newest version {why} is {}, stored {}", show_row(&last), show_row(want));
        for s in &self.snaps {
            for x in 1..self.tx.len() as u64 {
                let (got, want) = (s.spec.sees(x), s.committed.contains(&x));
                ensure!(x == s.spec.xid || got == want, "snapshot", "{why}: {:?} counts transaction {x} as committed: {got}, the timeline says {want}", s.spec);
            }
            let got = match self.tuple.decode(&s.spec) {
                Ok(r) => r,
                Err(e) => return viol("decode", format!("{why}: {:?} can not decode: {e}", s.spec)),
            };
            let want = self.expect(s);
            let ok = match (&got, want) {
                (None, None) => true,
                (Some(a), Some(b)) => same_row(a, b),
                _ => false,
            };
            ensure!(
                ok,
                "version",
                "{why}: {:?} reads {}, entitled to {}\nversions oldest first: {}; deleted by {:?}",
                s.spec,
                got.as_ref().map(|r| show_row(r)).unwrap_or("nothing".into()),
                want.map(|r| show_row(r)).unwrap_or("nothing".into()),
                self.versions.iter().map(|(x, r)| format!("{x}:{}", show_row(r))).collect::<Vec<_>>().join(" "),
                self.deleter
            );
            cx.eval(true);
        }
        Ok(())
    }
}

fn cell(src: &Src, k: Kind, null_ok: bool) -> DataType {
    if null_ok && src.chance(1, 4) {
        return DataType::Null;
    }
    if k == Kind::Blob && src.chance(2, 3) {
        let n = [0usize, 1, 2, 3, 5, 7, 8, 13, 40, 63, 64, 127, 128, 129, 300, 5000][src.weighted(&[3, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1])];
        let b = src.raw() as u8;
        return blob(&(0..n).map(|i| b.wrapping_add(i as u8)).collect::<Vec<_>>());
    }
    c19::value(src, k)
}

impl Property for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "a case is one stored row (1-3 key and 0-12, rarely up to 300, value columns of all types) taken through 2-24 (rarely 600) updates, deletes, reloads and trims by interleaved transactions, read at each step through every snapshot collected so far; it is distinct by its history and non-trivial when some snapshot had to read a version older than the newest or nothing"
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "one writer of a row at a time (the row lock the engine's conflict rule stands for); a writer changes the version it sees, so after a rolled-back update it restates every value column".into(),
            "a snapshot is `at or above` a horizon when every transaction it counts as unfinished has an id of at least the horizon; trimming is told which transactions rolled back".into(),
        ]
    }
    fn plan(&self, thorough: bool) -> Plan {
        Plan { cases: if thorough { 8_000_000 } else { 160_000 }, batch: 500, timeout_s: 60, shrink_s: 45, workers: 8, budget_s: if thorough { 800 } else { 200 } }
    }
    fn run_case(&self, src: &mut Src, cx: &mut Cx) -> Res {
        let src = &*src;
        let keys = 1 + src.usize(3);
        let nv = match src.weighted(&[1, 12, 6, 1]) {
            0 => 0,
            1 => 1 + src.usize(5),
            2 => 6 + src.usize(12),
            _ => [64, 255, 256, 257, 300][src.usize(5)],
        };
        let kinds: Vec<Kind> = (0..keys + nv).map(|_| c19::KINDS[src.usize(8)]).collect();
        let row: Vec<DataType> = kinds.iter().enumerate().map(|(i, k)| cell(src, *k, i >= keys)).collect();
        // transaction 0 does not exist; a prefix of others already over
        let mut w = World { tuple: match VTuple::build(&kinds, keys, &row, 1) {
            Ok(t) => t,
            Err(e) => return viol("encode", format!("row {} is refused: {e}", show_row(&row))),
        }, kinds, keys, versions: vec![], deleter: None, tx: vec![St::Aborted], snaps: vec![], ops: vec![] };
        w.tx[0] = St::Committed; // placeholder so that ids start at 1
        let creator = w.begin();
        w.versions.push((creator, row));
        cx.log(format!("{keys} keys, kinds {:?}", w.kinds.iter().map(|k| format!("{k:?}")).take(20).collect::<Vec<_>>().join(" ")));
        cx.log(format!("build by {creator}: {}", show_row(&w.versions[0].1).chars().take(400).collect::<String>()));
        w.snapshot(creator);
        let mut writer: Option<u64> = Some(creator);
        let mut others: Vec<u64> = vec![];
        let long = src.chance(1, 60);
        let steps = if long { 300 + src.usize(500) } else { 2 + src.usize(22) };
        if src.chance(9, 10) {
            w.tx[creator as usize] = St::Committed;
            writer = None;
            w.ops.push("commit".into());
        }
        let (mut old_reads, mut trims) = (0, 0);
        for step in 0..steps {
            let weights: [u32; 8] = if long { [6, 1, 1, 4, 0, 1, 0, 1] } else { [8, 2, 2, 4, 3, 2, 2, 2] };
            let op = src.weighted(&weights);
            let mut what = String::new();
            match op {
                0 | 1 => {
                    // a writer that sees the row
                    let x = match writer {
                        Some(x) => x,
                        None => {
                            let x = w.begin();
                            w.snapshot(x);
                            writer = Some(x);
                            x
                        }
                    };
                    let finished = |d: u64| w.tx[d as usize] == St::Committed || d == x;
                    if w.deleter.is_some_and(finished) || !w.versions.iter().any(|(c, _)| *c == x || w.tx[*c as usize] == St::Committed) {
                        continue;
                    }
                    if op == 1 || nv == 0 {
                        if let Err(e) = w.tuple.delete(x) {
                            return viol("delete", format!("delete by {x}: {e}"));
                        }
                        w.deleter = Some(x);
                        what = format!("delete by {x}");
                    } else {
                        let seen = w.versions.iter().rev().find(|(c, _)| *c == x || w.tx[*c as usize] == St::Committed).unwrap().1.clone();
                        let stale = w.tx[w.versions.last().unwrap().0 as usize] == St::Aborted;
                        let p = 1 + src.below(4);
                        let mut idx: Vec<usize> = (0..nv).filter(|_| src.chance(p, 5)).collect();
                        if idx.is_empty() {
                            idx.push(src.usize(nv));
                        }
                        if src.chance(1, 12) {
                            idx = (0..nv).collect();
                        }
                        let mut next = seen;
                        for &i in &idx {
                            if !src.chance(1, 8) {
                                next[keys + i] = cell(src, w.kinds[keys + i], true);
                            }
                        }
                        if stale {
                            idx = (0..nv).collect();
                        }
                        let changes: Vec<(usize, DataType)> = idx.iter().map(|&i| (i, next[keys + i].clone())).collect();
                        what = format!("update by {x}: {}", changes.iter().map(|(i, v)| format!("{i}={}", show(v))).collect::<Vec<_>>().join(" ").chars().take(300).collect::<String>());
                        if let Err(e) = w.tuple.add_version(&changes, x) {
                            return viol("update", format!("{what}: {e}"));
                        }
                        w.versions.push((x, next));
                        w.deleter = None;
                        cx.class("update");
                    }
                }
                2 => {
                    // reader begins
                    let x = w.begin();
                    w.snapshot(x);
                    others.push(x);
                    what = format!("begin {x}");
                }
                3 => {
                    if let Some(x) = writer.take() {
                        w.tx[x as usize] = St::Committed;
                        what = format!("commit {x}");
                    }
                }
                4 => {
                    if let Some(x) = writer.take() {
                        w.tx[x as usize] = St::Aborted;
                        what = format!("abort {x}");
                        cx.class("rollback");
                    }
                }
                5 => {
                    if !others.is_empty() {
                        let x = others.swap_remove(src.usize(others.len()));
                        w.tx[x as usize] = if src.chance(2, 3) { St::Committed } else { St::Aborted };
                        what = format!("reader {x} {:?}", w.tx[x as usize]);
                    }
                }
                6 => {
                    if let Err(e) = w.tuple.reload() {
                        return viol("reload", format!("{e}"));
                    }
                    what = "reload".into();
                }
                _ => {
                    // horizon up to the oldest running transaction
                    let top = w.ids(St::Active).first().copied().unwrap_or(w.tx.len() as u64);
                    let h = if src.chance(1, 2) { top } else { src.below(top + 1) };
                    let aborted = w.ids(St::Aborted);
                    what = format!("trim below {h}");
                    if let Err(e) = w.tuple.vacuum(h, &aborted) {
                        return viol("trim", format!("{what}: {e}"));
                    }
                    w.snaps.retain(|s| s.spec.xmin >= h);
                    trims += 1;
                    cx.class("trim");
                }
            }
            if what.is_empty() {
                continue;
            }
            cx.log(what.clone());
            if w.snaps.len() > 12 {
                let i = src.usize(w.snaps.len());
                w.snaps.swap_remove(i);
            }
            // a fresh reader at this very instant
            let x = w.tx.len() as u64;
            w.tx.push(St::Active);
            w.snapshot(x);
            let probe = w.snaps.len() - 1;
            w.tx.pop();
            if !long || step % 16 == 0 || step + 1 == steps {
                w.check(cx, &format!("after step {step} ({what})"))?;
                old_reads += w.snaps.iter().filter(|s| w.expect(s).is_none_or(|r| !std::ptr::eq(r, &w.versions.last().unwrap().1))).count();
            }
            if src.chance(2, 3) {
                w.snaps.remove(probe);
            }
        }
        let _ = w.keys;
        if trims > 0 && old_reads > 0 {
            cx.class("old version after trims");
        }
        if long {
            cx.class("long history");
        }
        if old_reads > 0 {
            cx.class("nontrivial");
            cx.distinct(cx.trace_hash());
        }
        Ok(())
    }
}

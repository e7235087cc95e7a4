//! C17: the write-ahead log returns exactly what was appended.
use crate::{core::*, ensure};
use axmosdb::verif::{LogRecord, RECORD_KINDS, VLog};

pub struct C17;

#[derive(Default)]
struct Model {
    /// Records appended since the last truncation.
    recs: Vec<LogRecord>,
    forced: usize,
    /// Blocks worth of bytes, to describe the case.
    bytes: usize,
}

fn payload(src: &mut Src, max: usize, fill: u64) -> Vec<u8> {
    let len = match src.weighted(&[30, 30, 20, 8, 4, 2]) {
        0 => 0,
        1 => src.usize(64.min(max + 1)),
        2 => src.usize(600.min(max + 1)),
        3 => src.usize(5000.min(max + 1)),
        4 => src.usize(max + 1),
        _ => max - src.usize(9.min(max)),
    };
    let len = len.min(max);
    let mut x = fill.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    (0..len)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x as u8
        })
        .collect()
}

fn opt(src: &mut Src) -> Option<u64> {
    match src.weighted(&[2, 6, 1, 1]) {
        0 => None,
        1 => Some(src.below(50)),
        2 => Some(0),
        _ => Some(src.raw()),
    }
}

fn show(r: &LogRecord) -> String {
    format!("lsn={} tid={} prev={:?} oid={:?} row={:?} kind={} undo[{}] redo[{}]", r.lsn, r.tid, r.prev_lsn, r.object_id, r.row_id, r.kind, r.undo.len(), r.redo.len())
}

fn check(log: &mut VLog, m: &Model, ahead: usize, exact: bool, at: &str) -> Res {
    let got = match log.read_all(ahead) {
        Ok(g) => g,
        Err(e) => return viol("read-error", format!("{at}: reading the log back failed: {e}")),
    };
    // What was forced must be there; a record that was appended but not forced may be, as long as it is the next one.
    ensure!(got.len() >= m.forced, "lost", "{at}: {} records read back, {} were appended and forced (of {})", got.len(), m.forced, m.recs.len());
    let most = if exact { m.forced } else { m.recs.len() };
    ensure!(got.len() <= most, "extra", "{at}: {} records read back, only {} expected", got.len(), most);
    for (i, (g, w)) in got.iter().zip(&m.recs).enumerate() {
        ensure!(g == w, "differs", "{at}: record {i} read back as {} but was appended as {}{}", show(g), show(w),
            if g.undo != w.undo || g.redo != w.redo { " (payload bytes differ)" } else { "" });
    }
    for w in got.windows(2) {
        ensure!(w[1].lsn > w[0].lsn, "lsn-order", "{at}: sequence numbers not strictly increasing: {} then {}", w[0].lsn, w[1].lsn);
    }
    Ok(())
}

impl Property for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "a case is a random history of append / force / read back / analysis / close+reopen / drop+reopen / truncate on one log file; it is distinct by its history and non-trivial when the log held records in at least two blocks and saw at least two forces or a reopen with records in it"
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["sequence numbers are assigned as Pager::push_to_log does (last_lsn + 1)".into(), "records larger than max_record_size must be refused and leave the log unchanged".into()]
    }
    fn plan(&self, thorough: bool) -> Plan {
        Plan { cases: if thorough { 1500000 } else { 40000 }, batch: 200, timeout_s: 20, shrink_s: 30, workers: 8, budget_s: if thorough { 800 } else { 200 } }
    }
    fn run_case(&self, src: &mut Src, cx: &mut Cx) -> Res {
        let dir = cx.fresh_dir("wal");
        let path = dir.join("axmos.log");
        let mut log = VLog::create(&path).map_err(|e| Violation { kind: "create".into(), msg: e })?;
        let max = log.max_record_size();
        let mut m = Model::default();
        let header = 80; // only steers generation
        let long = src.chance(1, 4);
        let ops = 3 + src.usize(if long { 60 } else { 20 });
        let bulk_profile = src.usize(3);
        let (mut forces, mut reopens, mut maxblocks, mut truncs) = (0u64, 0u64, 0usize, 0u64);
        for step in 0..ops {
            match src.weighted(&[40, 18, 14, 10, 4, 6]) {
                0 => {
                    let n = match src.weighted(&[6, 3, 2]) {
                        0 => 1,
                        1 => 1 + src.usize(10),
                        _ => 1 + src.usize(120),
                    };
                    let mut sizes = vec![];
                    for _ in 0..n {
                        let fill = src.below(1 << 20);
                        let cap = match bulk_profile {
                            0 => 400,
                            1 => 6000,
                            _ => max - header,
                        };
                        let undo = payload(src, cap, fill);
                        let rest = (max - header).saturating_sub(undo.len()).min(cap);
                        let redo = if src.chance(1, 40) {
                            // exactly at, or just beyond, the largest record that fits
                            let k = (max - header).saturating_sub(undo.len()) as i64 + src.range(-8, 24);
                            vec![7u8; k.max(0) as usize]
                        } else {
                            payload(src, rest, fill ^ 0xABCD)
                        };
                        let rec = LogRecord {
                            lsn: 0,
                            tid: if src.chance(1, 10) { src.raw() } else { src.below(6) },
                            prev_lsn: opt(src),
                            object_id: opt(src),
                            row_id: opt(src),
                            kind: *src.pick(&RECORD_KINDS),
                            undo,
                            redo,
                        };
                        let total = rec.undo.len() + rec.redo.len();
                        let before = log.last_lsn();
                        match log.append(&rec) {
                            Ok(lsn) => {
                                let last = m.recs.last().map(|r| r.lsn);
                                ensure!(last.is_none_or(|l| lsn > l), "lsn-order", "append gave sequence number {lsn} after {last:?}");
                                ensure!(log.last_lsn() == Some(lsn), "last-lsn", "last_lsn() is {:?} right after {lsn} was appended", log.last_lsn());
                                sizes.push(total);
                                m.bytes += total + header;
                                m.recs.push(LogRecord { lsn, ..rec });
                            }
                            Err(e) => {
                                ensure!(total + header + 16 > max, "refused", "a record of {total} payload bytes was refused (max {max}): {e}");
                                ensure!(log.last_lsn() == before, "refused-lsn", "a refused record of {total} payload bytes (largest record {max}) changed last_lsn: {e}");
                                sizes.push(usize::MAX);
                                cx.class("refused");
                            }
                        }
                    }
                    maxblocks = maxblocks.max(m.bytes / max + 1);
                    cx.log(format!("append {:?}", sizes.iter().map(|s| if *s == usize::MAX { "refused".into() } else { s.to_string() }).collect::<Vec<String>>()));
                }
                1 => {
                    cx.log("force");
                    if let Err(e) = log.force() {
                        return viol("force-error", format!("step {step}: force failed: {e}"));
                    }
                    m.forced = m.recs.len();
                    forces += 1;
                    cx.eval(m.recs.len() > 1);
                    let ahead = 1 + src.usize(5);
                    check(&mut log, &m, ahead, true, &format!("step {step}, after force"))?;
                }
                2 => {
                    let ahead = 1 + src.usize(5);
                    cx.log(format!("read, {} of {} forced", m.forced, m.recs.len()));
                    cx.eval(m.forced > 1);
                    check(&mut log, &m, ahead, false, &format!("step {step}, read"))?;
                    if src.chance(1, 2) && (forces > 0 || reopens > 0) {
                        // what a process that died now would find
                        let copy = dir.join("copy.log");
                        std::fs::copy(&path, &copy).expect("copy");
                        match VLog::open(&copy) {
                            Ok(mut l) => check(&mut l, &m, ahead, false, &format!("step {step}, copy of the file"))?,
                            Err(e) => return viol("open-copy", format!("step {step}: opening a copy of the log failed: {e}")),
                        }
                    }
                }
                3 => {
                    // Dropping the handle forces the log.
                    cx.log("close+open");
                    drop(log);
                    m.forced = m.recs.len();
                    reopens += 1;
                    log = match VLog::open(&path) {
                        Ok(l) => l,
                        Err(e) => return viol("open-error", format!("step {step}: open failed: {e}")),
                    };
                    ensure!(log.last_lsn() == m.recs.last().map(|r| r.lsn), "reopen-lsn", "step {step}: last_lsn() {:?} after reopen, {:?} expected", log.last_lsn(), m.recs.last().map(|r| r.lsn));
                    cx.eval(m.recs.len() > 1);
                    let ahead = 1 + src.usize(5);
                    check(&mut log, &m, ahead, true, &format!("step {step}, after reopen"))?;
                }
                4 => {
                    cx.log("truncate");
                    if let Err(e) = log.truncate() {
                        return viol("truncate-error", format!("step {step}: {e}"));
                    }
                    m = Model::default();
                    truncs += 1;
                    if src.chance(1, 3) {
                        // a process that dies here leaves an empty file; opening it must work
                        let copy = dir.join("copy.log");
                        std::fs::copy(&path, &copy).expect("copy");
                        match VLog::open(&copy) {
                            Ok(mut l) => check(&mut l, &m, 2, true, "copy of a truncated log")?,
                            Err(e) => return viol("open-truncated", format!("step {step}: opening a truncated log failed: {e}")),
                        }
                    }
                }
                _ => {
                    // Analysis must classify exactly the forced records.
                    log.force().map_err(|e| Violation { kind: "force-error".into(), msg: e })?;
                    m.forced = m.recs.len();
                    forces += 1;
                    let needs_ids = m.recs.iter().any(|r| match r.kind {
                        6 | 7 | 8 => r.object_id.is_none() || r.row_id.is_none(),
                        9 | 10 | 11 => r.row_id.is_none(),
                        _ => false,
                    });
                    if needs_ids {
                        cx.log("analysis skipped: records without ids");
                        continue;
                    }
                    cx.log("analysis");
                    cx.eval(true);
                    let a = match log.analysis() {
                        Ok(a) => a,
                        Err(e) => return viol("analysis-error", format!("step {step}: {e}")),
                    };
                    let of = |k: u8| -> Vec<u64> { m.recs.iter().filter(|r| r.kind == k).map(|r| r.lsn).collect() };
                    for (name, k, got) in [("insert", 8u8, &a.inserts), ("delete", 7, &a.deletes), ("update", 6, &a.updates), ("create", 9, &a.creates), ("alter", 11, &a.alters), ("drop", 10, &a.drops)] {
                        ensure!(*got == of(k), "analysis", "step {step}: analysis found {name} records {:?}, the log holds {:?}", got, of(k));
                    }
                    let mut chains: std::collections::BTreeMap<u64, Vec<u64>> = Default::default();
                    for r in &m.recs {
                        chains.entry(r.tid).or_default().push(r.lsn);
                    }
                    let want: Vec<(u64, Vec<u64>)> = chains.into_iter().collect();
                    ensure!(a.chains == want, "analysis-chains", "step {step}: per-transaction chains differ: {:?} vs {:?}", a.chains, want);
                }
            }
            if cx.trace.len() > 400 {
                break;
            }
        }
        // final: close and read everything
        drop(log);
        m.forced = m.recs.len();
        let mut log = match VLog::open(&path) {
            Ok(l) => l,
            Err(e) => return viol("open-error", format!("end: open failed: {e}")),
        };
        cx.eval(m.recs.len() > 1);
        check(&mut log, &m, 4, true, "end")?;
        if maxblocks >= 2 {
            cx.class("multi-block");
        }
        if truncs > 0 {
            cx.class("truncated");
        }
        if reopens > 0 {
            cx.class("reopened");
        }
        if maxblocks >= 2 && (forces >= 2 || reopens >= 1) {
            cx.class("nontrivial");
            cx.distinct(cx.trace_hash());
        }
        Ok(())
    }
}

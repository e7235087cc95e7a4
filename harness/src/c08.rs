//! C08: the database always reopens after a crash, and recovery can be repeated.
use crate::{c06::probes, c11::audit_db, c15::shapes, core::*, crash::*, db::*, hist::*};
use axmosdb::verif::VDb;

pub struct C08;
impl Property for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "one case = a generated history (as for C01 and C02, with more DDL, checkpoints and VACUUM) with every file mutation recorded; at up to 6 crash points the image is opened with the mutations of the recovery recorded as well, crashed again inside that recovery at up to 3 points (and once more inside the recovery of those), and opened: every opening has to succeed and the contents have to be those of the first, uninterrupted recovery; the page graph is audited, further statements, VACUUM and index look-ups run against the model, and opening again, one or several times, changes neither contents nor the number of pages. One evaluation = one opening; non-trivial: a recovery that wrote to the files, or one that had been interrupted"
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the process dies, the operating system does not: file writes reach the file in the order they were issued, and each is whole".into(), "Database::create has returned".into()]
    }
    fn plan(&self, thorough: bool) -> Plan {
        Plan { cases: if thorough { 300_000 } else { 7_000 }, batch: 5, timeout_s: 120, shrink_s: 90, workers: 8, budget_s: if thorough { 2700 } else { 260 } }
    }
    fn run_case(&self, src: &mut Src, cx: &mut Cx) -> Res {
        let src = &*src;
        let thorough = cx.tier_thorough;
        let weights = W { dml: 24, ddl: 18, bad: 1, select: 0, sess: 26, batch: 9, vacuum: 6, reopen: 4, analyze: 2, flush: 6 };
        let o = Opts { world: weights, ddl_in_tx: 25, steps: *src.pick(&[14, 5, 40]), multi: 30, vacuum: 4 };
        let h = history(src, cx, &o)?;
        cx.class_n("file operations recorded", h.events() as u64);
        let mut img = h.image();
        let mut at_k = h.first();
        for k in h.points(src, if thorough { 12 } else { 6 }) {
            h.forward(&mut img, at_k, k);
            at_k = k;
            let at = h.describe(k);
            cx.class(&format!("crash in {}", h.seg(k).map_or("-", |s| s.label)));
            let ((must, _), may) = h.states(k);
            let st: Vec<_> = [Some(&must), may.as_ref()].into_iter().flatten().collect();

            // recovery, to its end
            let dir = cx.fresh_dir("image");
            img.put(&dir);
            let tape = Tape::start(&dir);
            let r = reopen(&dir, h.cfg, &at);
            Tape::stop();
            let db = r?;
            let n = tape.len();
            cx.eval(n > 0);
            if n > 0 {
                cx.distinct(mix(&[cx.trace_hash(), k as u64]));
                cx.class("recovery wrote to the files");
                cx.class_n("file operations of recoveries", n as u64);
            }
            let first = dump(&db, &st)?;

            // crashes inside of it
            for _ in 0..if n > 0 { 1 + src.usize(3) } else { 0 } {
                let j = 1 + src.usize(n);
                let at = format!("{at}; then {}", tape.describe(j));
                let mut img2 = img.clone();
                tape.forward(&mut img2, 0, j);
                let dir2 = cx.fresh_dir("image2");
                img2.put(&dir2);
                let tape2 = Tape::start(&dir2);
                let r = reopen(&dir2, h.cfg, &at);
                Tape::stop();
                let db2 = r?;
                cx.eval(true);
                cx.class("crash inside recovery");
                let d2 = dump(&db2, &st)?;
                if d2 != first {
                    return viol("recovery-differs", format!("{at}\n  {}", between(&first, &d2)));
                }
                drop(db2);
                let n2 = tape2.len();
                if n2 > 0 && src.chance(1, 3) {
                    let i = 1 + src.usize(n2);
                    let at = format!("{at}; then {}", tape2.describe(i));
                    tape2.forward(&mut img2, 0, i);
                    let dir3 = cx.fresh_dir("image3");
                    img2.put(&dir3);
                    let db3 = reopen(&dir3, h.cfg, &at)?;
                    cx.eval(true);
                    cx.class("crash inside the recovery of an interrupted recovery");
                    let d3 = dump(&db3, &st)?;
                    if d3 != first {
                        return viol("recovery-differs", format!("{at}\n  {}", between(&first, &d3)));
                    }
                    sound(&db3, &at)?;
                } else if src.chance(1, 3) {
                    let db2 = reopen(&dir2, h.cfg, &at)?;
                    sound(&db2, &at)?;
                }
            }

            // sound, and the same however often it is opened
            sound(&db, &at)?;
            drop(db);
            let mut size = None;
            for i in 0..1 + src.usize(3) {
                let db = reopen(&dir, h.cfg, &at)?;
                cx.eval(false);
                let hd = VDb(&db).header();
                let pages = (hd.total_pages, sound(&db, &at)?);
                if size.is_some_and(|s| s != pages) {
                    return viol("reopening-changes", format!("{at}\n  opening again changed the pages of the file (all, free) from {size:?} to {pages:?}"));
                }
                size = Some(pages);
                // the dump runs transactions of its own: not on every opening
                if i == 0 || src.chance(1, 2) {
                    let d = dump(&db, &st)?;
                    if d != first {
                        return viol("reopening-changes", format!("{at}\n  opening again: {}", between(&first, &d)));
                    }
                }
            }

            // and fully usable
            let Some(s) = st.iter().find(|s| differs(&first, s).is_none()) else {
                cx.class("contents are not those acknowledged (C01, C02)");
                continue;
            };
            if src.chance(1, 2) && only(&first, &st) {
                let db = reopen(&dir, h.cfg, &at)?;
                let mut w = World::around(dir.join("db"), h.cfg, db, (*s).clone());
                w.outside = src.chance(1, 2);
                let wrap = |v: Violation| Violation { kind: v.kind, msg: format!("{at}: used after opening: {}", v.msg) };
                usable(src, cx, &mut w, &weights).map_err(wrap)?;
                cx.class("used after opening");
            }
        }
        Ok(())
    }
}
fn usable(src: &Src, cx: &mut Cx, w: &mut World, weights: &W) -> Res {
    cx.log("-- after opening");
    for _ in 0..2 + src.usize(6) {
        w.op(src, cx, weights)?;
    }
    w.compare("after further statements")?;
    {
        let db = w.db();
        probes(src, cx, &w.st, db, &mut |q| exec(db, q))?;
    }
    shapes(src, cx, w)?;
    w.db().vacuum().map_err(err("vacuum"))?;
    w.compare("after VACUUM")?;
    sound(w.db(), "after VACUUM")?;
    w.close();
    w.open()?;
    w.compare("after closing and opening")
}
/// Audits the page graph. The free pages.
fn sound(db: &axmosdb::Database, at: &str) -> Result<u64, Violation> {
    Ok(audit_db(db, at)?.free)
}
fn between(a: &Dump, b: &Dump) -> String {
    for (n, x) in a {
        let y = &b[n];
        if x != y {
            let s = |x: &Result<Vec<String>, String>| match x {
                Ok(r) => format!("{} rows", r.len() - 1),
                Err(e) => e.clone(),
            };
            return format!("table {n} was: {}; now: {}", s(x), s(y));
        }
    }
    String::new()
}

//! C11: page ownership: trees, overflow chains and the free list partition the file; freed pages are used before it grows.
use crate::{audit::*, c10, core::*, db::*, hist::*, sqlgen, sqlmodel::*};
use axmosdb::verif::{HeaderView, OverflowPageDump, VDb, VTree};
use axmosdb::{DBConfig, Database};
use std::collections::BTreeMap;

pub struct Pages {
    pub total: u64,
    pub free: u64,
    pub overflow: u64,
    /// Tree name, node pages, rows in its leaves.
    pub trees: Vec<(String, usize, usize)>,
}

/// Who owns which page.
struct Owners<'a> {
    at: &'a str,
    total: u64,
    own: BTreeMap<u64, String>,
}
impl Owners<'_> {
    fn take(&mut self, id: u64, who: String) -> Res {
        if id == 0 || id >= self.total {
            return viol("page-range", format!("{}: {who} refers to page {id}, the file has pages 0..{}", self.at, self.total));
        }
        match self.own.insert(id, who.clone()) {
            Some(o) => viol("two-owners", format!("{}: page {id} belongs to {o} and to {who}", self.at)),
            None => Ok(()),
        }
    }
    fn tree(&mut self, name: &str, f: &TreeFacts, ov: &dyn Fn(u64) -> Result<OverflowPageDump, String>) -> Result<u64, Violation> {
        for p in &f.pages {
            self.take(*p, format!("{name} (node)"))?;
        }
        let mut n = 0;
        for (first, page, slot) in f.leaf_chains.iter().chain(&f.inner_chains) {
            let mut next = Some(*first);
            while let Some(id) = next {
                self.take(id, format!("{name} (overflow of page {page} slot {slot})"))?;
                n += 1;
                let p = ov(id).map_err(|e| Violation { kind: "chain".into(), msg: format!("{}: {name}: overflow page {id} of page {page} slot {slot}: {e}", self.at) })?;
                if p.header_id != id {
                    return viol("page-id", format!("{}: page {id} calls itself {}", self.at, p.header_id));
                }
                next = p.next;
            }
        }
        Ok(n)
    }
    fn free(&mut self, h: &HeaderView, ov: &dyn Fn(u64) -> Result<OverflowPageDump, String>) -> Result<u64, Violation> {
        let mut n = 0;
        let mut last = None;
        let mut next = h.first_free;
        while let Some(id) = next {
            self.take(id, "the free list".into())?;
            n += 1;
            last = Some(id);
            next = ov(id).map_err(|e| Violation { kind: "free-list".into(), msg: format!("{}: free page {id}: {e}", self.at) })?.next;
        }
        if last != h.last_free {
            return viol("free-list-tail", format!("{}: the free list ends at {last:?}, the header names {:?}", self.at, h.last_free));
        }
        Ok(n)
    }
    fn all(&self) -> Res {
        for id in 1..self.total {
            if !self.own.contains_key(&id) {
                return viol("lost-page", format!("{}: page {id} of {} belongs to no tree, no overflow chain and not to the free list", self.at, self.total));
            }
        }
        Ok(())
    }
}

pub fn audit_db(db: &Database, at: &str) -> Result<Pages, Violation> {
    let v = VDb(db);
    let h = v.header();
    let cat = |e: String| Violation { kind: "catalog".into(), msg: format!("{at}: {e}") };
    let wrap = |x: Violation| Violation { kind: x.kind, msg: format!("{at}: {}", x.msg) };
    let mut o = Owners { at, total: h.total_pages, own: BTreeMap::new() };
    let ov = |id: u64| v.overflow(id);
    let mut out = Pages { total: h.total_pages, free: 0, overflow: 0, trees: vec![] };
    let roots = v.meta_roots();
    for (which, root) in [(0, roots.0), (1, roots.1)] {
        let f = audit_tree(root, 1, false, &mut |id| v.meta_page(which, id)).map_err(|x| Violation { kind: x.kind, msg: format!("{at}: catalog tree {which}: {}", x.msg) })?;
        out.overflow += o.tree(["meta table", "meta index"][which], &f, &ov)?;
        out.trees.push((["meta table", "meta index"][which].into(), f.pages.len(), f.rows.len()));
    }
    for r in v.relations().map_err(cat)? {
        let f = audit_tree(r.root, r.num_keys, true, &mut |id| v.page(&r, id)).map_err(|x| Violation { kind: x.kind, msg: format!("{at}: relation {} ({}): {}", r.name, r.id, x.msg) })?;
        let name = format!("{} ({})", r.name, r.id);
        out.overflow += o.tree(&name, &f, &ov)?;
        out.trees.push((r.name.clone(), f.pages.len(), f.rows.len()));
    }
    out.free = o.free(&h, &ov).map_err(wrap)?;
    o.all()?;
    panics()?;
    Ok(out)
}
fn free_len(h: &HeaderView, ov: &dyn Fn(u64) -> Result<OverflowPageDump, String>) -> u64 {
    let (mut n, mut next) = (0, h.first_free);
    while let Some(id) = next {
        n += 1;
        if n > h.total_pages {
            break;
        }
        next = ov(id).ok().and_then(|p| p.next);
    }
    n
}

pub struct C11;
impl Property for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "a case is a history on several trees of one file (bulk and single inserts, updates, removals, whole-tree release) or on a database (DML with long values, DDL, sessions that commit or not, VACUUM, reopening); at every quiescent point the whole file is walked and every page must have exactly one owner; operations that grow the file must have used the free pages first. Non-trivial: an audit with at least one free page, overflow page or released tree"
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["every page fits the cache".into(), "an operation on one row needs at most the pages of its overflow chain plus a few per tree level".into()]
    }
    fn plan(&self, thorough: bool) -> Plan {
        Plan { cases: if thorough { 1_000_000 } else { 20_000 }, batch: 20, timeout_s: 60, shrink_s: 60, workers: 8, budget_s: if thorough { 1800 } else { 240 } }
    }
    fn run_case(&self, src: &mut Src, cx: &mut Cx) -> Res {
        let src = &*src;
        if src.chance(1, 2) { trees(src, cx) } else { database(src, cx) }
    }
}

fn trees(src: &Src, cx: &mut Cx) -> Res {
    let first = c10::shape(src);
    cx.log(c10::describe(&first));
    let dir = cx.fresh_dir("tree");
    let cfg = DBConfig::new(first.page, 60000, 1, first.min_keys, first.siblings);
    let e = |e: String| Violation { kind: "tree-error".into(), msg: e };
    let t0 = VTree::create(&dir.join("t.db"), cfg, &first.kinds, first.nkeys).map_err(e)?;
    // a file of several trees
    let mut all: Vec<(c10::Shape, VTree, c10::Model)> = vec![(first, t0, c10::Model::new())];
    for _ in 0..src.usize(3) {
        let mut s = c10::shape(src);
        (s.page, s.min_keys, s.siblings) = (all[0].0.page, all[0].0.min_keys, all[0].0.siblings);
        cx.log(c10::describe(&s));
        let t = all[0].1.sibling(cfg, &s.kinds, s.nkeys).map_err(e)?;
        all.push((s, t, c10::Model::new()));
    }
    let audit = |all: &Vec<(c10::Shape, VTree, c10::Model)>, extra: Option<(&c10::Shape, &VTree)>, at: &str, cx: &mut Cx| -> Result<(u64, u64), Violation> {
        let h = all[0].1.header();
        let mut o = Owners { at, total: h.total_pages, own: BTreeMap::new() };
        let any = &all[0].1;
        let ov = |id: u64| any.overflow(id);
        let mut n = 0;
        let list = all.iter().map(|x| (&x.0, &x.1)).chain(extra);
        for (i, (s, t)) in list.enumerate() {
            let f = audit_tree(t.root(), s.nkeys, true, &mut |id| t.page(id)).map_err(|v| Violation { kind: v.kind, msg: format!("{at}: {}", v.msg) })?;
            n += o.tree(&format!("tree {i}"), &f, &ov)?;
        }
        let free = o.free(&h, &ov)?;
        o.all()?;
        cx.class_n("pages audited", h.total_pages);
        cx.class_n("free pages seen", free);
        cx.class_n("overflow pages seen", n);
        Ok((free, n))
    };
    let rounds = 1 + src.usize(6);
    for r in 0..rounds {
        if all.len() > 1 && src.chance(1, 5) {
            // a tree goes, and its pages with it
            let i = 1 + src.usize(all.len() - 1);
            let (s, t, _) = all.swap_remove(i);
            let f = audit_tree(t.root(), s.nkeys, false, &mut |id| t.page(id))?;
            let before = free_len(&all[0].1.header(), &|id| all[0].1.overflow(id));
            cx.log(format!("release of a tree with {} pages", f.pages.len()));
            t.dealloc().map_err(e)?;
            let (free, _) = audit(&all, None, &format!("round {r}: after releasing a tree"), cx)?;
            if free < before + f.pages.len() as u64 {
                return viol("release", format!("round {r}: a tree of {} pages was released, the free list went from {before} to {free}", f.pages.len()));
            }
            cx.eval(true);
            continue;
        }
        let i = src.usize(all.len());
        let (s, t, mut m) = all.swap_remove(i);
        if all.is_empty() {
            // the only tree: audited through itself
            let mut only = vec![(s, t, m)];
            grow(src, cx, &mut only, r, &audit)?;
            all = only;
            continue;
        }
        let page = s.page as u64;
        let mut res = Ok(());
        {
            let all = &all;
            let s = &s;
            let slack = |len: u64, height: u64| len / (page - 200) + 2 + 2 + height * (2 * s.siblings as u64 + 4) + 6;
            let mut last = t.header().total_pages;
            let phases = 1 + src.usize(2);
            let mut free_at = free_len(&t.header(), &|id| t.overflow(id));
            let longest = (s.page * 3 + s.key_len * 2) as u64;
            if let Err(v) = c10::drive_tree(src, cx, s, &t, &mut m, phases, &mut |t, _m, at, cx| {
                let at = format!("round {r}: {at}");
                let (free, ov) = audit(all, Some((s, t)), &at, cx)?;
                cx.eval(free > 0 || ov > 0);
                let total = t.header().total_pages;
                let h = t.height().unwrap_or(1) as u64;
                // since the last audit the file grew although pages were free and still are
                if total > last && free > slack(longest, h) && free_at > slack(longest, h) {
                    return viol("growth", format!("{at}: the file grew from {last} to {total} pages while {free_at} and then {free} pages were free"));
                }
                last = total;
                free_at = free;
                Ok(())
            }) {
                res = Err(v);
            }
        }
        all.push((s, t, m));
        res?;
    }
    cx.distinct(cx.trace_hash());
    Ok(())
}
/// One tree alone, each operation watched.
fn grow(
    src: &Src,
    cx: &mut Cx,
    only: &mut Vec<(c10::Shape, VTree, c10::Model)>,
    r: usize,
    audit: &dyn Fn(&Vec<(c10::Shape, VTree, c10::Model)>, Option<(&c10::Shape, &VTree)>, &str, &mut Cx) -> Result<(u64, u64), Violation>,
) -> Res {
    let n = 1 + src.usize(200);
    let kind = src.usize(3);
    cx.log(format!("round {r}: {n} operations, kind {kind}"));
    for i in 0..n {
        let (s, t, m) = &mut only[0];
        let h = t.header();
        let before = (h.total_pages, free_len(&h, &|id| t.overflow(id)));
        let op = match kind {
            0 => src.weighted(&[5, 2, 2, 2, 1]),
            1 => src.weighted(&[0, 1, 1, 4, 2]),
            _ => src.weighted(&[2, 4, 4, 1, 0]),
        };
        let k = src.below(s.key_space);
        let at = format!("round {r} operation {i} {}({k})", c10::OPN[op]);
        c10::one_op(src, s, t, m, op, k, &at)?;
        let total = t.header().total_pages;
        let height = t.height().unwrap_or(1) as u64;
        let need = (s.page as u64 * 3 + s.key_len as u64 * 2) / (s.page as u64 - 200) + 4 + height * (2 * s.siblings as u64 + 4);
        if total > before.0 && before.1 > need {
            return viol("growth", format!("{at}: the file grew from {} to {total} pages with {} pages free", before.0, before.1));
        }
        if i % 16 == 15 || i + 1 == n {
            let (free, ov) = audit(only, None, &at, cx)?;
            cx.eval(free > 0 || ov > 0);
        }
    }
    Ok(())
}

fn database(src: &Src, cx: &mut Cx) -> Res {
    let mut cfg = config(src);
    cfg.cache_size = 10_000;
    let mut w = World::new(cx, cfg)?;
    w.outside = false;
    w.ddl_in_tx = *src.pick(&[12, 0, 40]);
    w.fill(src, cx, 1 + src.usize(3), *src.pick(&[20, 80, 200]))?;
    audit_db(w.db(), "after filling")?;
    let weights = W { dml: 40, ddl: 14, bad: 1, select: 0, sess: 22, batch: 8, vacuum: 8, reopen: 5, analyze: 2, flush: 2 };
    for i in 0..4 + src.usize(16) {
        // long values come and go
        if src.chance(1, 4) {
            if let Some(t) = sqlgen::pick_table(src, &w.st) {
                if let Some(c) = t.cols.iter().position(|c| c.ty == Ty::Text) {
                    let n = *src.pick(&[3000, 1200, 9000, 20]);
                    let v = V::S(format!("{i}").repeat(n / 2));
                    let filter = sqlgen::where_(src, t);
                    let x = Stmt::Update { table: t.name.clone(), sets: vec![(t.cols[c].name.clone(), E::Lit(v))], filter, full: false };
                    w.auto(cx, &x)?;
                }
            }
        }
        let v = VDb(w.db());
        let before = v.header();
        let free_before = free_len(&before, &|id| v.overflow(id));
        let n = cx.log_len();
        let did = w.op(src, cx, &weights)?;
        let at = format!("after event {i} ({did:?})");
        let f = audit_db(w.db(), &at)?;
        cx.eval(f.free > 0 || f.overflow > 0);
        cx.class_n("pages audited", f.total);
        cx.class_n("free pages seen", f.free);
        cx.class_n("overflow pages seen", f.overflow);
        if did == Did::Statement && cx.log_len() == n + 1 {
            let s = &cx.tail(n)[0];
            let dml = ["INSERT", "UPDATE", "DELETE"].iter().any(|k| s.starts_with(k));
            if dml && f.total > before.total_pages && free_before > 24 && f.free > 24 {
                return viol("growth", format!("{at}: the file grew from {} to {} pages while {free_before} and then {} pages were free", before.total_pages, f.total, f.free));
            }
            if s.starts_with("DROP TABLE") && !s.contains("IF EXISTS") && f.free <= free_before && w.st.tables.len() > 0 {
                return viol("drop-frees", format!("{at}: dropping a table left the free list at {} pages (it had {free_before})", f.free));
            }
        }
        if did == Did::Vacuum {
            live_only(&w, &f, &at)?;
        }
    }
    if src.chance(1, 2) {
        // everything goes: what is left is the catalog
        let names: Vec<String> = w.st.tables.keys().cloned().collect();
        for n in names {
            w.auto(cx, &Stmt::DropTable { name: n, if_exists: false })?;
        }
        w.db().vacuum().map_err(err("vacuum"))?;
        let f = audit_db(w.db(), "after dropping every table and VACUUM")?;
        let used = f.total - 1 - f.free;
        cx.class("everything dropped");
        if used > 6 {
            return viol("drop-frees", format!("after dropping every table and VACUUM {used} pages are still in use: {:?}", f.trees));
        }
        cx.eval(true);
    }
    w.close();
    w.open()?;
    audit_db(w.db(), "after reopening")?;
    w.compare("after reopening")?;
    cx.distinct(cx.trace_hash());
    Ok(())
}
/// With no transaction running, VACUUM leaves a table tree with its live rows only.
pub fn live_only(w: &World, f: &Pages, at: &str) -> Res {
    for (n, pages, rows) in &f.trees {
        if let Some(t) = w.st.tables.get(n) {
            if *rows != t.rows.len() {
                return viol("dead-rows", format!("{at}: the tree of {n} holds {rows} rows in {pages} pages, {} are live", t.rows.len()));
            }
            if t.rows.is_empty() && *pages > 1 {
                return viol("dead-pages", format!("{at}: the tree of the empty table {n} holds {pages} pages"));
            }
        }
    }
    Ok(())
}

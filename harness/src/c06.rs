//! C06: one query, many plans: with and without usable indexes, before and after ANALYZE, with the join written the
//! other way round, with predicates an index cannot serve, after DML, VACUUM and reopening; all judged by the model.
use crate::{core::*, db::*, sqlgen, sqlmodel::*};
use axmosdb::{DBConfig, Database};
use std::sync::Arc;

pub struct C06;

fn err(k: &str) -> impl Fn(axmosdb::DatabaseError) -> Violation + '_ {
    move |e| Violation { kind: k.into(), msg: e.to_string() }
}

/// Tables whose indexes have several pages.
fn big_table(src: &Src, cx: &mut Cx, st: &mut State, i: usize, run: &mut dyn FnMut(&str) -> Result<Out, String>) -> Res {
    let n = 2 + src.usize(3);
    let o = sqlgen::SchemaOpts { max_cols: 1, uniques: false, not_null: true, defaults: false };
    let cols: Vec<Col> = (0..n).map(|k| sqlgen::column(src, &format!("c{k}"), &o)).collect();
    let mut t = Table { name: format!("t{i}"), cols, uniques: vec![], rows: Default::default(), next: 1, touched: Default::default(), keys: Default::default() };
    for k in 0..1 + src.usize(2) {
        let mut c = vec![src.usize(n)];
        if src.chance(1, 3) {
            let d = src.usize(n);
            if d != c[0] {
                c.push(d);
            }
        }
        if c.iter().any(|c| t.cols[*c].ty != Ty::Bool) {
            t.uniques.push(Uniq { cols: c, pk: k == 0 && src.chance(1, 2), index: None });
        }
    }
    let name = t.name.clone();
    step(cx, st, &Stmt::CreateTable { t, if_not_exists: false }, run)?;
    let rows = [10, 60, 250, 600][src.weighted(&[25, 40, 25, 10])];
    let mut left = 1 + src.usize(rows);
    let mut misses = 0;
    while left > 0 && misses < 10 {
        let k = left.min(1 + src.usize(40));
        let t: Arc<Table> = st.tables[&name].clone();
        // mostly distinct keys, in scattered order
        let rows = (0..k as u64)
            .map(|j| {
                let mut r = sqlgen::row(src, &t, t.next + j);
                for u in &t.uniques {
                    let c = u.cols[0];
                    if r[c] != V::Null {
                        r[c] = sqlgen::fresh(src, t.cols[c].ty, (t.next + j) * 7919 % 1009 + (t.next + j) / 1009 * 1009);
                    }
                }
                r
            })
            .collect();
        match step(cx, st, &Stmt::Insert { table: name.clone(), cols: None, rows }, run)? {
            Some(true) => left -= k,
            _ => misses += 1,
        }
    }
    Ok(())
}

fn map(e: &E, f: &dyn Fn(usize) -> usize) -> E {
    let m = |e: &E| map(e, f);
    let b = |e: &E| bx(map(e, f));
    match e {
        E::Lit(_) => e.clone(),
        E::Col(i) => E::Col(f(*i)),
        E::Neg(x) => E::Neg(b(x)),
        E::Not(x) => E::Not(b(x)),
        E::Bin(o, x, y) => E::Bin(*o, b(x), b(y)),
        E::IsNull(x, n) => E::IsNull(b(x), *n),
        E::Between(x, l, h, n) => E::Between(b(x), b(l), b(h), *n),
        E::In(x, l, n) => E::In(b(x), l.iter().map(m).collect(), *n),
        E::Like(x, p, n) => E::Like(b(x), b(p), *n),
        E::Case(o, w, d) => E::Case(o.as_ref().map(|x| b(x)), w.iter().map(|(x, y)| (m(x), m(y))).collect(), d.as_ref().map(|x| b(x))),
        E::Fun(g, a) => E::Fun(*g, a.iter().map(m).collect()),
        E::Agg(g, d, x) => E::Agg(*g, *d, x.as_ref().map(|x| b(x))),
    }
}
/// Comparisons of a bare column become ones an index cannot serve.
fn blind(e: &E, scope: &[SCol]) -> E {
    let hide = |e: &E| match e {
        E::Col(i) => match scope[*i].cls {
            Cls::Text => bin(Op::Concat, e.clone(), E::Lit(V::S(String::new()))),
            Cls::Bool => E::Not(bx(E::Not(bx(e.clone())))),
            _ => E::Fun(Fun::Coalesce, vec![e.clone(), E::Lit(V::Null)]),
        },
        e => e.clone(),
    };
    match e {
        E::Bin(op @ (Op::And | Op::Or), a, b) => bin(*op, blind(a, scope), blind(b, scope)),
        E::Bin(op, a, b) => bin(*op, hide(a), hide(b)),
        E::Between(x, a, b, n) => E::Between(bx(hide(x)), a.clone(), b.clone(), *n),
        E::In(x, l, n) => E::In(bx(hide(x)), l.clone(), *n),
        E::Not(x) => E::Not(bx(blind(x, scope))),
        e => e.clone(),
    }
}
/// A query that has to give the same answer.
fn variants(src: &Src, q: &Query, st: &State) -> Vec<(&'static str, Query)> {
    let mut v = vec![];
    let scope = if q.with.is_empty() { q.from.scope(st, &vec![]) } else { vec![] };
    if q.limit.is_some() || q.offset.is_some() || !q.with.is_empty() {
        return v;
    }
    if let Some(f) = &q.filter {
        let mut b = q.clone();
        b.filter = Some(blind(f, &scope));
        v.push(("predicate hidden from indexes", b));
        let mut d = q.clone();
        d.filter = Some(match src.usize(3) {
            0 => E::Not(bx(E::Not(bx(f.clone())))),
            1 => bin(Op::And, E::Lit(V::Bool(true)), f.clone()),
            _ => bin(Op::Or, f.clone(), E::Lit(V::Bool(false))),
        });
        v.push(("predicate rewritten", d));
        if let E::Bin(Op::And, a, b) = f {
            let mut s = q.clone();
            s.filter = Some(E::Bin(Op::And, b.clone(), a.clone()));
            v.push(("conjuncts swapped", s));
        }
    }
    if let From::Join { l, kind, r, on } = &q.from {
        let flipped = match kind {
            Join::Left => Join::Right,
            Join::Right => Join::Left,
            k => *k,
        };
        if !matches!(**l, From::Join { .. }) && !q.star {
            let (n, m) = (l.scope(st, &vec![]).len(), r.scope(st, &vec![]).len());
            let f = move |i: usize| if i < n { i + m } else { i - n };
            let mut s = q.clone();
            s.from = From::Join { l: r.clone(), kind: flipped, r: l.clone(), on: on.as_ref().map(|e| map(e, &f)) };
            for it in s.items.iter_mut() {
                it.e = map(&it.e, &f);
            }
            s.filter = s.filter.map(|e| map(&e, &f));
            s.group = s.group.iter().map(|e| map(e, &f)).collect();
            s.having = s.having.map(|e| map(&e, &f));
            for o in s.order.iter_mut() {
                o.e = map(&o.e, &f);
            }
            v.push(("join written the other way round", s));
        }
        if let (Join::Inner, Some(on)) = (kind, on) {
            // the condition in WHERE over a cross product
            let mut s = q.clone();
            s.from = From::Join { l: l.clone(), kind: Join::Cross, r: r.clone(), on: None };
            s.filter = Some(match &q.filter {
                Some(f) => bin(Op::And, on.clone(), f.clone()),
                None => on.clone(),
            });
            v.push(("join condition in WHERE", s));
        }
    }
    if !q.grouped() && !q.distinct && src.chance(1, 3) && q.filter.is_some() && q.order.is_empty() {
        // the filter outside of a derived table
        let mut inner = q.clone();
        inner.star = false;
        inner.items = (0..scope.len()).map(|i| Item { e: E::Col(i), alias: Some(format!("d{i}")) }).collect();
        inner.filter = None;
        let mut o = q.clone();
        o.from = From::Sub { q: Box::new(inner), alias: "dt".into() };
        if !q.star || scope.len() > 0 {
            v.push(("filter over a derived table", o));
        }
    }
    v
}

impl Property for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "one case = tables with unique indexes, then rounds of queries each run as written and in equivalent forms (join sides swapped, join condition in WHERE, predicates hidden from indexes, filter outside a derived table), again after ANALYZE / CREATE UNIQUE INDEX / DML / VACUUM / reopening, every answer compared with the reference evaluator; plus look-ups through every index for every kind of row. Non-trivial: a query answered under at least two different plans"
    }
    fn plan(&self, thorough: bool) -> Plan {
        Plan { cases: if thorough { 200_000 } else { 6_000 }, batch: 10, timeout_s: 60, shrink_s: 60, workers: 8, budget_s: if thorough { 2400 } else { 260 } }
    }
    fn run_case(&self, src: &mut Src, cx: &mut Cx) -> Res {
        let src = &*src;
        let dir = cx.fresh_dir("db");
        let cfg = DBConfig::new(4096, 3000, 2, 3, 2);
        let mut db = Some(Database::create(dir.join("db"), cfg.clone()).map_err(err("create"))?);
        let mut st = State::default();
        let tables = 1 + src.usize(3);
        for i in 0..tables {
            let d = db.as_ref().unwrap();
            let mut run = |sql: &str| exec(d, sql);
            if src.chance(2, 3) {
                big_table(src, cx, &mut st, i, &mut run)?;
            } else {
                let t = sqlgen::table(src, &format!("t{i}"), &sqlgen::FULL);
                step(cx, &mut st, &Stmt::CreateTable { t, if_not_exists: false }, &mut run)?;
            }
        }
        let qo = sqlgen::QOpts { max_joins: 3, nested: 1, max_product: 8_000 };
        // queries to run again under later circumstances
        let mut pool: Vec<Query> = vec![];
        for _ in 0..3 + src.usize(10) {
            let d = db.as_ref().unwrap();
            let mut run = |sql: &str| exec(d, sql);
            // something that may change plans or contents
            match src.weighted(&[30, 20, 12, 14, 8, 10]) {
                0 => {
                    for _ in 0..1 + src.usize(3) {
                        if let Some(s) = sqlgen::dml(src, &st) {
                            step(cx, &mut st, &s, &mut run)?;
                        }
                    }
                }
                1 => {
                    d.analyze(1.0, 10000).map_err(err("analyze"))?;
                    panics()?;
                    cx.log("-- ANALYZE");
                }
                2 => {
                    let t = sqlgen::pick_table(src, &st).unwrap();
                    let c = t.cols[src.usize(t.cols.len())].name.clone();
                    let s = Stmt::CreateIndex { table: t.name.clone(), name: format!("x{}", src.usize(5)), cols: vec![c], if_not_exists: false };
                    step(cx, &mut st, &s, &mut run)?;
                }
                3 => {
                    d.vacuum().map_err(err("vacuum"))?;
                    panics()?;
                    cx.log("-- VACUUM");
                }
                4 => {
                    cx.log("-- close and open");
                    drop(db.take());
                    db = Some(Database::open(dir.join("db"), cfg.clone()).map_err(err("open"))?);
                }
                _ => {
                    // a change that did not happen: entries of rolled-back versions stay behind in the indexes
                    let mut s = d.session().map_err(err("session"))?;
                    let mut scratch = st.clone();
                    for _ in 0..1 + src.usize(3) {
                        if let Some(x) = sqlgen::dml(src, &scratch) {
                            step(cx, &mut scratch, &x, &mut |sql| sess(&mut s, sql))?;
                        }
                    }
                    cx.log("-- session dropped");
                    drop(s);
                }
            }
            let d = db.as_ref().unwrap();
            let mut run = |sql: &str| exec(d, sql);
            for _ in 0..1 + src.usize(3) {
                let mut q = if !pool.is_empty() && src.chance(1, 2) { src.pick(&pool).clone() } else { sqlgen::query(src, &st, &qo) };
                if sqlgen::weight(&q.from, &st, &q.with) > 2 * qo.max_product {
                    // the tables have grown since
                    q = sqlgen::query(src, &st, &qo);
                }
                if pool.len() < 8 {
                    pool.push(q.clone());
                }
                let mut plans: Vec<String> = vec![];
                let mut forms = vec![("as written", q.clone())];
                forms.extend(variants(src, &q, &st));
                for (what, f) in &forms {
                    let sql = f.sql(&st);
                    if let Ok(p) = d.explain(&sql) {
                        let ops: Vec<String> = p.lines().filter_map(|l| l.split("─ ").nth(1)).map(|l| l.split(" (cost").next().unwrap_or("").to_string()).collect();
                        for o in &ops {
                            let o = o.split('(').next().unwrap_or("");
                            if o.contains("Join") || o.contains("Scan") {
                                cx.class(&format!("plan uses {o}"));
                            }
                        }
                        let p = ops.join(";");
                        if !plans.contains(&p) {
                            plans.push(p);
                        }
                    }
                    cx.class(what);
                    step(cx, &mut st, &Stmt::Select(f.clone()), &mut run)?;
                }
                cx.eval(plans.len() > 1);
                if plans.len() > 1 {
                    cx.distinct(hash_str(&q.sql(&st)));
                }
            }
            probes(src, cx, &st, d, &mut run)?;
        }
        let d = db.as_ref().unwrap();
        compare_all(&st, "at the end", &mut |sql| exec(d, sql))
    }
}

/// Look-ups by indexed columns: rows that are there, values that are not, ranges.
pub fn probes(src: &Src, cx: &mut Cx, st: &State, d: &Database, run: &mut dyn FnMut(&str) -> Result<Out, String>) -> Res {
    for t in st.tables.values() {
        for u in &t.uniques {
            for k in 0..4 {
                let mut q = Query::table(&t.name);
                let ids: Vec<&u64> = t.rows.keys().collect();
                let at = if ids.is_empty() || src.chance(1, 4) { None } else { Some(*src.pick(&ids)) };
                let mut e: Option<E> = None;
                for c in &u.cols {
                    let v = match at {
                        Some(id) => t.rows[id][*c].clone(),
                        None => sqlgen::value(src, t.cols[*c].ty),
                    };
                    if v == V::Null {
                        continue;
                    }
                    let p = match k {
                        0 | 1 => bin(Op::Eq, E::Col(*c), E::Lit(v)),
                        2 => bin(*src.pick(&[Op::Gt, Op::Ge, Op::Lt, Op::Le]), E::Col(*c), E::Lit(v)),
                        _ => E::Between(bx(E::Col(*c)), bx(E::Lit(v)), bx(E::Lit(sqlgen::fresh(src, t.cols[*c].ty, src.below(t.next + 2)))), false),
                    };
                    e = Some(match e {
                        None => p,
                        Some(x) => bin(Op::And, x, p),
                    });
                    if src.chance(1, 5) {
                        break;
                    }
                }
                q.filter = e;
                if q.filter.is_none() {
                    continue;
                }
                let sql = q.sql(st);
                if d.explain(&sql).is_ok_and(|p| p.contains("IndexScan")) {
                    cx.class("look-up through an index");
                }
                let mut s = st.clone();
                step(cx, &mut s, &Stmt::Select(q), run)?;
            }
        }
    }
    Ok(())
}

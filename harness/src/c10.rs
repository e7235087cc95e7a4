//! C10: each B+tree is a correct ordered map with sound structure.
use crate::{audit::*, core::*, ensure, values::*};
use axmosdb::types::*;
use axmosdb::verif::VTree;
use axmosdb::{DBConfig, DataTypeKind as Kind};
use std::collections::BTreeMap;

pub struct C10;

pub struct Shape {
    pub kinds: Vec<Kind>,
    pub nkeys: usize,
    pub page: usize,
    pub min_keys: usize,
    pub siblings: usize,
    pub key_space: u64,
    pub key_len: usize,
    pub pay: u8,
}

pub fn shape(src: &Src) -> Shape {
    let page = 4096usize << [0, 0, 0, 0, 1, 2, 3, 4][src.usize(8)];
    let min_keys = 3 + src.usize(if src.chance(1, 4) { 8 } else { 2 });
    let siblings = 1 + src.usize(4);
    let (mut kinds, nkeys) = match src.weighted(&[6, 2, 3, 1, 6, 1, 1, 2, 2]) {
        0 => (vec![Kind::BigUInt], 1),
        1 => (vec![Kind::Int], 1),
        2 => (vec![Kind::BigInt], 1),
        3 => (vec![Kind::UInt], 1),
        4 => (vec![Kind::Blob], 1),
        5 => (vec![Kind::Double], 1),
        6 => (vec![Kind::Float], 1),
        7 => (vec![Kind::BigInt, Kind::Blob], 2),
        _ => (vec![Kind::Blob, Kind::BigUInt], 2),
    };
    if src.chance(1, 5) {
        kinds.push(Kind::Int);
    }
    kinds.push(Kind::Blob);
    Shape {
        kinds,
        nkeys,
        page,
        min_keys,
        siblings,
        key_space: [12, 60, 400, 3000][src.usize(4)],
        key_len: [4, 20, 120, 700, 3000][src.weighted(&[8, 6, 3, 2, 1])],
        pay: src.usize(6) as u8,
    }
}

fn expand(n: usize, seed: u64) -> Vec<u8> {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            b'a' + (x % 26) as u8
        })
        .collect()
}

/// The n-th key; distinct n give distinct keys, order by n is the key order for one-column numeric keys.
pub fn key(s: &Shape, n: u64) -> Vec<DataType> {
    let one = |k: Kind, n: u64| -> DataType {
        match k {
            Kind::BigUInt => DataType::BigUInt(UInt64(n * 3)),
            Kind::UInt => DataType::UInt(UInt32(n as u32 * 3)),
            Kind::Int => DataType::Int(Int32(n as i32 * 7 - 500)),
            Kind::BigInt => DataType::BigInt(Int64(n as i64 * 1_000_003 - 40_000_000)),
            Kind::Double => DataType::Double(Float64(n as f64 * 0.5 - 100.0)),
            Kind::Float => DataType::Float(Float32(n as f32 * 0.5 - 100.0)),
            Kind::Blob => {
                // same prefix for long stretches, lengths vary with n
                let l = s.key_len / 2 + (n as usize * 7) % (s.key_len / 2 + 1);
                let mut b = format!("{:04}", n / 4).into_bytes();
                b.extend(expand(l, n / 4));
                b.extend(format!("{}", n % 4).into_bytes());
                blob(&b)
            }
            _ => unreachable!(),
        }
    };
    if s.nkeys == 1 {
        vec![one(s.kinds[0], n)]
    } else {
        // few distinct leading values
        let (hi, lo) = (n / 7, n % 7);
        vec![one(s.kinds[0], hi), one(s.kinds[1], lo)]
    }
}

pub fn row(s: &Shape, n: u64, pay: usize, fill: u64) -> Vec<DataType> {
    let mut r = key(s, n);
    if s.kinds.len() > s.nkeys + 1 {
        r.push(if fill % 5 == 0 { DataType::Null } else { DataType::Int(Int32(fill as i32)) });
    }
    r.push(if fill % 17 == 3 { DataType::Null } else { blob(&expand(pay, fill)) });
    r
}

pub fn pay_len(s: &Shape, src: &Src) -> usize {
    let cap = s.page;
    match s.pay {
        0 => src.usize(40),
        1 => 30 + src.usize(200),
        2 => src.usize(cap / s.min_keys / 2),
        3 => cap / s.min_keys / 2 + src.usize(cap / s.min_keys), // around the inline limit
        4 => match src.weighted(&[5, 3, 2]) {
            0 => src.usize(60),
            1 => src.usize(cap / 2),
            _ => src.usize(cap * 3),
        },
        _ => src.usize(cap * 2),
    }
}

pub type Model = BTreeMap<Vec<K>, Vec<DataType>>;

pub fn check_all(t: &VTree, s: &Shape, m: &Model, at: &str) -> Result<TreeFacts, Violation> {
    let scan = match t.scan() {
        Ok(x) => x,
        Err(e) => return viol("scan-error", format!("{at}: scan failed: {e}")),
    };
    let want: Vec<&Vec<DataType>> = m.values().collect();
    for (i, (g, w)) in scan.iter().zip(&want).enumerate() {
        ensure!(same_row(g, w), "scan-differs", "{at}: scan row {i} of {} is {}, expected {} (of {})", scan.len(), show_row(g), show_row(w), want.len());
    }
    ensure!(scan.len() == want.len(), "scan-count", "{at}: scan returned {} rows, {} are in the tree", scan.len(), want.len());
    let f = audit_tree(t.root(), s.nkeys, true, &mut |id| t.page(id)).map_err(|v| Violation { kind: v.kind, msg: format!("{at}: {}", v.msg) })?;
    ensure!(f.rows.len() == want.len(), "audit-count", "{at}: the leaves hold {} rows, {} expected", f.rows.len(), want.len());
    let e = t.is_empty().map_err(|e| Violation { kind: "is-empty-error".into(), msg: e })?;
    if want.is_empty() || f.height == 1 {
        ensure!(e == want.is_empty(), "is-empty", "{at}: is_empty() is {e} with {} rows", want.len());
    }
    Ok(f)
}

fn lookup(t: &VTree, m: &Model, probe: &[DataType], nkeys: usize, at: &str) -> Res {
    let k = row_k(&probe[..nkeys]);
    match (t.get(probe), m.get(&k)) {
        (Ok(Some(g)), Some(w)) => ensure!(same_row(&g, w), "lookup-differs", "{at}: lookup of {} gave {}, expected {}", show_row(&probe[..nkeys]), show_row(&g), show_row(w)),
        (Ok(None), None) => {}
        (Ok(Some(g)), None) => return viol("lookup-phantom", format!("{at}: lookup of {} found {}, the key is not in the tree", show_row(&probe[..nkeys]), show_row(&g))),
        (Ok(None), Some(_)) => return viol("lookup-missing", format!("{at}: lookup of {} found nothing", show_row(&probe[..nkeys]))),
        (Err(e), _) => return viol("lookup-error", format!("{at}: lookup of {}: {e}", show_row(&probe[..nkeys]))),
    }
    match t.get_by_tuple(probe) {
        Ok(f) => ensure!(f == m.contains_key(&k), "lookup-tuple", "{at}: lookup by tuple of {} says {f}", show_row(&probe[..nkeys])),
        Err(e) => return viol("lookup-error", format!("{at}: lookup by tuple: {e}")),
    }
    Ok(())
}

fn must(r: Result<(), String>, ok: bool, what: &str, at: &str) -> Res {
    match (r, ok) {
        (Ok(()), true) | (Err(_), false) => Ok(()),
        (Ok(()), false) => viol(&format!("{what}-accepted"), format!("{at}: {what} succeeded, it must fail")),
        (Err(e), true) => viol(&format!("{what}-error"), format!("{at}: {what} failed: {e}")),
    }
}

/// One random operation against tree and model. Returns a short description.
pub fn one_op(src: &Src, s: &Shape, t: &VTree, m: &mut Model, op: usize, n: u64, at: &str) -> Res {
    let r = row(s, n, pay_len(s, src), src.below(1 << 16));
    let k = row_k(&r[..s.nkeys]);
    let present = m.contains_key(&k);
    match op {
        0 => {
            must(t.insert(&r), !present, "insert", at)?;
            if !present {
                m.insert(k, r);
            }
        }
        1 => {
            must(t.upsert(&r), true, "upsert", at)?;
            m.insert(k, r);
        }
        2 => {
            must(t.update(&r), present, "update", at)?;
            if present {
                m.insert(k, r);
            }
        }
        3 => {
            must(t.remove_key(&r), present, "remove", at)?;
            m.remove(&k);
        }
        _ => {
            must(t.remove_tuple(&r), present, "remove-tuple", at)?;
            m.remove(&k);
        }
    }
    Ok(())
}

pub static OPN: [&str; 5] = ["insert", "upsert", "update", "remove", "remove_tuple"];

pub fn drive_tree(src: &Src, cx: &mut Cx, s: &Shape, t: &VTree, m: &mut Model, phases: usize, after: &mut dyn FnMut(&VTree, &Model, &str, &mut Cx) -> Res) -> Res {
    let cap: usize = match s.page {
        4096 => 1200,
        8192 => 1200,
        _ => 2500,
    };
    let byte_cap = s.page * 400;
    let mut bytes = 0usize;
    for ph in 0..phases {
        let kind = src.weighted(&[6, 3, 3, 3, 3, 2, 3]);
        let base = src.below(s.key_space);
        let count = match kind {
            0 => 1 + src.usize(30),
            _ => [8, 40, 150, 500][src.weighted(&[3, 4, 3, 1])].min(cap),
        };
        let names = ["mixed", "ascending", "descending", "random inserts", "range removal", "empty", "rewrite"];
        cx.log(format!("phase {ph}: {} x{count} from {base}", names[kind]));
        cx.class(names[kind]);
        let every = 1 + src.usize(if count > 40 { 60 } else { 12 });
        let dir = src.chance(1, 2);
        for i in 0..count {
            let n = match kind {
                0 | 3 | 6 => src.below(s.key_space),
                1 => base + i as u64,
                2 => (base + count as u64) - i as u64,
                4 => {
                    if dir {
                        base + i as u64
                    } else {
                        (base + count as u64) - i as u64
                    }
                }
                _ => 0,
            };
            if kind == 5 {
                // remove whatever is there, from one end or from the middle
                let Some((k, r)) = (match src.usize(3) {
                    0 => m.iter().next(),
                    1 => m.iter().next_back(),
                    _ => m.iter().nth(src.usize(m.len().max(1))),
                }) else {
                    break;
                };
                let (k, r) = (k.clone(), r.clone());
                must(t.remove_key(&r), true, "remove", &format!("phase {ph} empty step {i}"))?;
                m.remove(&k);
            } else {
                let op = match kind {
                    0 => src.weighted(&[4, 2, 2, 3, 1]),
                    1..=3 => src.weighted(&[8, 2, 0, 0, 0]),
                    4 => 3 + src.weighted(&[3, 1]),
                    _ => src.weighted(&[0, 2, 2, 0, 0]),
                };
                let at = format!("phase {ph} step {i} {}({n})", OPN[op]);
                one_op(src, s, t, m, op, n, &at)?;
            }
            bytes += 100;
            if i % every == every - 1 {
                let at = format!("phase {ph} ({}) step {i}", names[kind]);
                cx.eval(m.len() > 3);
                after(t, m, &at, cx)?;
            }
            if m.len() > cap || bytes > byte_cap {
                break;
            }
        }
        let at = format!("end of phase {ph} ({})", names[kind]);
        cx.eval(m.len() > 3);
        after(t, m, &at, cx)?;
    }
    Ok(())
}

pub fn describe(s: &Shape) -> String {
    format!("page {} min_keys {} siblings {} keys {:?}x{} space {} key_len {} payload class {}", s.page, s.min_keys, s.siblings, s.kinds, s.nkeys, s.key_space, s.key_len, s.pay)
}

impl Property for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "a case is a random history of bulk and single inserts / upserts / updates / removals on one tree of random key type, payload sizes and geometry, compared with an ordered map and audited page by page; it is distinct by its history and non-trivial when the tree reached at least two levels"
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["keys are not NULL and floating keys are not NaN (the engine refuses NULL keys)".into(), "min_keys >= 3 (the tree asserts it)".into(), "every page fits the cache".into()]
    }
    fn plan(&self, thorough: bool) -> Plan {
        Plan { cases: if thorough { 60000 } else { 2000 }, batch: 20, timeout_s: 60, shrink_s: 45, workers: 8, budget_s: if thorough { 800 } else { 250 } }
    }
    fn run_case(&self, src: &mut Src, cx: &mut Cx) -> Res {
        let src = &*src;
        let s = shape(src);
        cx.log(describe(&s));
        let dir = cx.fresh_dir("tree");
        let cfg = DBConfig::new(s.page, 60000, 1, s.min_keys, s.siblings);
        let t = VTree::create(&dir.join("t.db"), cfg, &s.kinds, s.nkeys).map_err(|e| Violation { kind: "create".into(), msg: e })?;
        let mut m = Model::new();
        let phases = 1 + src.usize(7);
        let (mut h, mut overflow, mut shrank) = (0, false, false);
        drive_tree(src, cx, &s, &t, &mut m, phases, &mut |t, m, at, cx| {
            let f = check_all(t, &s, m, at)?;
            cx.class_n("pages audited", f.pages.len() as u64);
            if f.height < h {
                shrank = true;
            }
            h = h.max(f.height);
            overflow |= !f.leaf_chains.is_empty();
            for _ in 0..4 {
                let p = row(&s, src.below(s.key_space), 0, 1);
                lookup(t, m, &p, s.nkeys, at)?;
            }
            if src.chance(1, 6) {
                for r in m.values() {
                    lookup(t, m, r, s.nkeys, at)?;
                }
            }
            Ok(())
        })?;
        cx.class(&format!("height {h}"));
        if overflow {
            cx.class("overflow cells");
        }
        if shrank {
            cx.class("tree became shallower");
        }
        if h >= 2 {
            cx.class("nontrivial");
            cx.distinct(cx.trace_hash());
        }
        Ok(())
    }
}

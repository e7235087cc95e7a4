//! C19: values compare, hash, cast and round-trip consistently.
use crate::{core::*, db::*, ensure, values::*};
use axmosdb::types::*;
use axmosdb::verif::VTree;
use axmosdb::{DBConfig, DataTypeKind as Kind, Database};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};

pub struct C19;

pub const KINDS: [Kind; 8] = [Kind::Bool, Kind::Int, Kind::BigInt, Kind::UInt, Kind::BigUInt, Kind::Float, Kind::Double, Kind::Blob];

/// Exact mathematical order over all numbers, NaN last and equal to itself; None across categories and for NULL.
pub fn oracle_cmp(a: &DataType, b: &DataType) -> Option<Ordering> {
    match (k_of(a), k_of(b)) {
        (K::Null, _) | (_, K::Null) => None,
        (K::Bool(x), K::Bool(y)) => Some(x.cmp(&y)),
        (K::Bytes(x), K::Bytes(y)) => Some(x.cmp(&y)),
        (K::Int(x), K::Int(y)) => Some(x.cmp(&y)),
        (K::F(x), K::F(y)) => Some(match (x.is_nan(), y.is_nan()) {
            (false, false) => x.partial_cmp(&y).unwrap(),
            (p, q) => p.cmp(&q),
        }),
        (K::Int(x), K::F(y)) => Some(int_float(x, y)),
        (K::F(x), K::Int(y)) => Some(int_float(y, x).reverse()),
        _ => None,
    }
}
/// Decompose the double instead of converting the integer.
fn int_float(i: i128, f: f64) -> Ordering {
    if f.is_nan() || f == f64::INFINITY {
        return Ordering::Less;
    }
    if f == f64::NEG_INFINITY {
        return Ordering::Greater;
    }
    if f == 0.0 {
        return i.cmp(&0);
    }
    let bits = f.to_bits();
    let neg = bits >> 63 == 1;
    let e = ((bits >> 52) & 0x7ff) as i32;
    let m = if e == 0 { (bits & ((1 << 52) - 1)) << 1 } else { (bits & ((1 << 52) - 1)) | (1 << 52) };
    let sh = e - 1075;
    let (int, frac) = if sh >= 0 {
        if sh > 70 {
            return if neg { Ordering::Greater } else { Ordering::Less };
        }
        ((m as i128) << sh, false)
    } else if sh <= -64 {
        (0, m != 0)
    } else {
        ((m >> -sh) as i128, m & ((1u64 << -sh) - 1) != 0)
    };
    if neg {
        match i.cmp(&-int) {
            Ordering::Equal if frac => Ordering::Greater,
            o => o,
        }
    } else {
        match i.cmp(&int) {
            Ordering::Equal if frac => Ordering::Less,
            o => o,
        }
    }
}

fn ints() -> Vec<i128> {
    let mut v = vec![0, 1, -1, 2, 3, 7, -8, 100, 255, 256];
    for p in [7u32, 8, 15, 16, 24, 31, 32, 52, 53, 54, 62, 63, 64] {
        for d in [-2i128, -1, 0, 1, 2] {
            v.push((1i128 << p) + d);
            v.push(-(1i128 << p) + d);
        }
    }
    v
}
fn floats() -> Vec<f64> {
    let mut v = vec![0.0, -0.0, 0.5, -0.5, 1.5, 0.1, -0.1, 1e-3, 3.7, f64::MIN_POSITIVE, 5e-324, -5e-324, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN, f64::from_bits(0x7ff0000000000001), 1e19, -1e19, 1.7e38, -1.7e38, 3e38, 1e300, f32::MAX as f64, f32::MIN_POSITIVE as f64, 16777217.0];
    for i in ints() {
        let f = i as f64;
        v.extend([f, f64::from_bits(f.to_bits() + 1)]);
        if f != 0.0 {
            v.push(f64::from_bits(f.to_bits() - 1));
        }
    }
    v
}
fn texts(src: &Src) -> Vec<u8> {
    match src.weighted(&[4, 6, 4, 3, 3, 2]) {
        0 => [&b""[..], b"a", b"ab", b"b", b"A", b"\0", b"a\0", b"\xff", b"a\xff", b"\x80", b"0", b" "][src.usize(12)].to_vec(),
        1 => (0..src.usize(6)).map(|_| b"ab\0\xff"[src.usize(4)]).collect(),
        2 => {
            // around the 8-byte blocks of the comparator, long equal prefixes
            let n = [7, 8, 9, 15, 16, 17, 24, 31, 33, 63, 64, 65, 127, 128, 129, 200][src.usize(16)];
            let mut b = vec![b'x'; n];
            if src.chance(2, 3) {
                let at = n - 1 - src.usize(n.min(9));
                b[at] = [b'a', b'z', 0, 0xff, 0x7f, 0x80][src.usize(6)];
            }
            b
        }
        3 => {
            // signs and byte order inside a block
            let mut b = b"xxxxxxxxxxxxxxxxxxxxxxxx".to_vec();
            for _ in 0..1 + src.usize(3) {
                b[src.usize(24)] = [0, 1, 0x7f, 0x80, 0xff][src.usize(5)];
            }
            b
        }
        4 => (0..src.usize(40)).map(|_| src.below(256) as u8).collect(),
        _ => {
            let n = [300, 8191, 8192, 8193, 20000][src.usize(5)];
            let mut b = vec![b'q'; n];
            b[n - 1 - src.usize(10)] = src.below(256) as u8;
            b
        }
    }
}

pub fn num_of(kind: Kind, i: i128) -> Option<DataType> {
    Some(match kind {
        Kind::Int => DataType::Int(Int32(i32::try_from(i).ok()?)),
        Kind::BigInt => DataType::BigInt(Int64(i64::try_from(i).ok()?)),
        Kind::UInt => DataType::UInt(UInt32(u32::try_from(i).ok()?)),
        Kind::BigUInt => DataType::BigUInt(UInt64(u64::try_from(i).ok()?)),
        Kind::Float => DataType::Float(Float32(i as f32)),
        Kind::Double => DataType::Double(Float64(i as f64)),
        _ => return None,
    })
}

/// Any value of a kind (not NULL).
pub fn value(src: &Src, kind: Kind) -> DataType {
    match kind {
        Kind::Bool => DataType::Bool(bool::Bool(src.chance(1, 2))),
        Kind::Blob => blob(&texts(src)),
        Kind::Float | Kind::Double => {
            let f = match src.weighted(&[6, 2, 2]) {
                0 => {
                    let g = floats();
                    g[src.usize(g.len())]
                }
                1 => f64::from_bits(src.raw()),
                _ => (src.below(4000) as f64 - 2000.0) / 8.0,
            };
            if kind == Kind::Float {
                DataType::Float(Float32(if src.chance(1, 8) { f32::from_bits(src.raw() as u32) } else { f as f32 }))
            } else {
                DataType::Double(Float64(f))
            }
        }
        _ => loop {
            let i = if src.chance(3, 4) {
                let g = ints();
                g[src.usize(g.len())]
            } else {
                src.raw() as i64 as i128
            };
            if let Some(v) = num_of(kind, i) {
                break v;
            }
            // fall back to something always representable
            if let Some(v) = num_of(kind, (i & 0x7fff_ffff) as i128) {
                break v;
            }
        },
    }
}

/// A value close to another one: same number in another type, a neighbour, a prefix.
fn near(src: &Src, v: &DataType) -> DataType {
    match v {
        DataType::Blob(b) => {
            let mut x = b.data().unwrap().to_vec();
            match src.usize(4) {
                0 => x.push(src.below(256) as u8),
                1 => {
                    x.pop();
                }
                2 if !x.is_empty() => {
                    let i = src.usize(x.len());
                    x[i] = x[i].wrapping_add(1);
                }
                _ => {}
            }
            blob(&x)
        }
        DataType::Bool(b) => DataType::Bool(bool::Bool(!b.0)),
        DataType::Null => DataType::Null,
        n => {
            let kind = KINDS[1 + src.usize(6)];
            let d = [0i128, 0, 0, 1, -1][src.usize(5)];
            match k_of(n) {
                K::Int(i) => num_of(kind, i + d).unwrap_or_else(|| num_of(Kind::Double, i + d).unwrap()),
                K::F(f) => {
                    if src.chance(1, 3) {
                        return DataType::Double(Float64(f64::from_bits(f.to_bits().wrapping_add(src.below(3)).wrapping_sub(1))));
                    }
                    if matches!(kind, Kind::Float) {
                        DataType::Float(Float32(f as f32))
                    } else if f.abs() < 1e30 {
                        num_of(kind, f as i128 + d).unwrap_or(DataType::Double(Float64(-f)))
                    } else {
                        DataType::Double(Float64(-f))
                    }
                }
                _ => unreachable!(),
            }
        }
    }
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// The value placed in a padded buffer, to be read back as the reference type.
struct Stored {
    words: Vec<u64>,
    cursor: usize,
    end: usize,
    kind: Kind,
    what: String,
}
fn store(v: &DataType, cursor: usize) -> Result<Stored, Violation> {
    let size = v.runtime_size() + 64 + cursor;
    let mut words = vec![0xAAAA_AAAA_AAAA_AAAAu64; size.div_ceil(8) + 1];
    let len = words.len() * 8;
    let buf: &mut [u8] = unsafe { std::slice::from_raw_parts_mut(words.as_mut_ptr() as *mut u8, len) };
    let end = match v.write_to(buf, cursor) {
        Ok(e) => e,
        Err(e) => return viol("write-error", format!("{}: write_to failed: {e}", show(v))),
    };
    ensure!(buf[end..].iter().all(|b| *b == 0xAA), "write-spill", "{}: write_to({cursor}) says it ended at {end} and wrote beyond", show(v));
    ensure!(buf[..cursor].iter().all(|b| *b == 0xAA), "write-spill", "{}: write_to({cursor}) wrote before its cursor", show(v));
    Ok(Stored { words, cursor, end, kind: v.kind(), what: show(v) })
}
impl Stored {
    fn read(&self) -> Result<DataTypeRef<'_>, Violation> {
        let buf: &[u8] = unsafe { std::slice::from_raw_parts(self.words.as_ptr() as *const u8, self.words.len() * 8) };
        match self.kind.deserialize(buf, self.cursor) {
            Ok((r, e2)) => {
                ensure!(e2 == self.end, "read-length", "{}: written up to {}, read up to {e2}", self.what, self.end);
                Ok(r)
            }
            Err(e) => viol("read-error", format!("{}: deserialize failed: {e}", self.what)),
        }
    }
}

fn check_one(src: &Src, v: &DataType) -> Res {
    if v.is_null() {
        ensure!(v == v, "reflexive", "NULL is not equal to itself as a value");
        return Ok(());
    }
    ensure!(v == v, "reflexive", "{} is not equal to itself", show(v));
    ensure!(v.partial_cmp(v) == Some(Ordering::Equal), "reflexive-order", "{} does not order equal to itself: {:?}", show(v), v.partial_cmp(v));
    let c = v.clone();
    ensure!(same(&c, v), "clone", "clone of {} is {}", show(v), show(&c));
    let cursor = src.usize(17);
    {
        let st = store(v, cursor)?;
        let r = st.read()?;
        let back = r.to_owned();
        match back {
            Some(b) => ensure!(same(&b, v), "round-trip", "{} stored at {cursor} loads as {}", show(v), show(&b)),
            None => return viol("round-trip", format!("{} loads as NULL", show(v))),
        }
        ensure!(r.hash128() == v.hash128(), "ref-hash", "{}: stored and owned value hash128 differ", show(v));
        ensure!(hash_of(&r) == hash_of(v), "ref-hash", "{}: stored and owned value hash differently", show(v));
        ensure!(r.runtime_size() == v.runtime_size(), "ref-size", "{}: stored and owned sizes differ", show(v));
    }
    let b = match v.serialize() {
        Ok(b) => b,
        Err(e) => return viol("serialize-error", format!("{}: {e}", show(v))),
    };
    ensure!(b.len() == v.runtime_size(), "serialize-size", "{}: serialize gives {} bytes, runtime_size {}", show(v), b.len(), v.runtime_size());
    // casts
    match v.try_cast(v.kind()) {
        Ok(x) => ensure!(same(&x, v), "self-cast", "{} cast to its own type is {}", show(v), show(&x)),
        Err(e) => return viol("self-cast", format!("{} cast to its own type fails: {e}", show(v))),
    }
    for k in KINDS {
        let r = v.try_cast(k);
        if let Ok(x) = &r {
            ensure!(x.kind() == k, "cast-kind", "{} cast to {:?} is {}", show(v), k, show(x));
        }
        let target_int = matches!(k, Kind::Int | Kind::BigInt | Kind::UInt | Kind::BigUInt);
        match (k_of(v), &r) {
            (K::Int(i), _) if target_int => match (num_of(k, i), &r) {
                (Some(w), Ok(x)) => ensure!(same(&w, x), "cast-value", "{} cast to {:?} is {}", show(v), k, show(x)),
                (Some(_), Err(e)) => return viol("cast-refused", format!("{} cast to {:?} fails although it fits: {e}", show(v), k)),
                (None, Ok(x)) => return viol("cast-wraps", format!("{} does not fit {:?} and casts to {}", show(v), k, show(x))),
                (None, Err(_)) => {}
            },
            (K::F(f), _) if target_int => {
                // truncation towards zero, or an error when it does not fit
                let w = if f.is_finite() && f.abs() < 1e30 { num_of(k, f.trunc() as i128) } else { None };
                match (w, &r) {
                    (Some(w), Ok(x)) => ensure!(same(&w, x), "cast-value", "{} cast to {:?} is {}", show(v), k, show(x)),
                    (None, Ok(x)) => return viol("cast-wraps", format!("{} does not fit {:?} and casts to {}", show(v), k, show(x))),
                    (Some(_), Err(e)) => ensure!(f.fract() != 0.0 || f < 0.0, "cast-refused", "{} cast to {:?} fails although it fits: {e}", show(v), k),
                    (None, Err(_)) => {}
                }
            }
            (K::Int(i), Ok(x)) if matches!(k, Kind::Double) => ensure!(matches!(k_of(x), K::F(f) if f == i as f64), "cast-value", "{} cast to DOUBLE is {}", show(v), show(x)),
            (K::Int(i), Ok(x)) if matches!(k, Kind::Float) => ensure!(matches!(x, DataType::Float(f) if f.0 == i as f32), "cast-value", "{} cast to FLOAT is {}", show(v), show(x)),
            (K::F(f), Ok(x)) if matches!(k, Kind::Double) => ensure!(matches!(k_of(x), K::F(g) if g == f || (g.is_nan() && f.is_nan())), "cast-value", "{} cast to DOUBLE is {}", show(v), show(x)),
            (K::F(f), Ok(x)) if matches!(k, Kind::Float) => ensure!(matches!(x, DataType::Float(g) if g.0 == f as f32 || (g.0.is_nan() && f.is_nan())), "cast-value", "{} cast to FLOAT is {}", show(v), show(x)),
            _ => {}
        }
        // a cast that keeps the value can be undone
        if let Ok(x) = &r {
            if v.is_numeric() && x.is_numeric() && oracle_cmp(v, x) == Some(Ordering::Equal) {
                match x.try_cast(v.kind()) {
                    Ok(back) => ensure!(oracle_cmp(&back, v) == Some(Ordering::Equal), "cast-back", "{} -> {} -> {}", show(v), show(x), show(&back)),
                    Err(e) => {
                        let nan = matches!(k_of(v), K::F(f) if !f.is_finite());
                        ensure!(nan, "cast-back", "{} -> {} does not cast back: {e}", show(v), show(x));
                    }
                }
            }
        }
    }
    Ok(())
}

fn check_pair(a: &DataType, b: &DataType) -> Res {
    let want = oracle_cmp(a, b);
    let eq = a == b;
    ensure!(eq == (b == a), "symmetry", "{} == {} is {eq}, the other way round it is not", show(a), show(b));
    ensure!((a != b) == !eq, "negation", "{} != {} contradicts ==", show(a), show(b));
    let both_null = a.is_null() && b.is_null();
    ensure!(eq == (both_null || want == Some(Ordering::Equal)), "equality", "{} == {} is {eq}, their values say {:?}", show(a), show(b), want);
    if eq {
        ensure!(hash_of(a) == hash_of(b), "hash", "{} == {} but they hash differently", show(a), show(b));
        ensure!(a.hash128() == b.hash128(), "hash128", "{} == {} but hash128 differs", show(a), show(b));
    }
    let got = a.partial_cmp(b);
    ensure!(got == want, "order", "{} <=> {} is {:?}, mathematically {:?}", show(a), show(b), got, want);
    ensure!((a < b) == (want == Some(Ordering::Less)), "less", "{} < {} is {}", show(a), show(b), a < b);
    ensure!((a <= b) == matches!(want, Some(Ordering::Less | Ordering::Equal)), "less-equal", "{} <= {} is {}", show(a), show(b), a <= b);
    if !a.is_null() && !b.is_null() {
        let (sa, sb) = (store(a, 0)?, store(b, 0)?);
        let (x, y) = (sa.read()?, sb.read()?);
        ensure!(x.partial_cmp(&y) == want, "ref-order", "stored {} <=> {} is {:?}, mathematically {:?}", show(a), show(b), x.partial_cmp(&y), want);
        ensure!((x == y) == eq, "ref-equality", "stored {} == {} is {}", show(a), show(b), x == y);
        if x == y {
            ensure!(hash_of(&x) == hash_of(&y), "ref-hash", "stored {} == {} hash differently", show(a), show(b));
        }
    }
    Ok(())
}

/// How to write the value as a literal of its column type, when SQL has one.
pub fn literal(v: &DataType) -> Option<String> {
    Some(match v {
        DataType::Null => "NULL".into(),
        DataType::Bool(b) => if b.0 { "TRUE".into() } else { "FALSE".into() },
        DataType::Blob(b) => {
            let s = std::str::from_utf8(b.data().ok()?).ok()?;
            format!("'{}'", s.replace('\'', "''"))
        }
        DataType::Float(f) => flit(f.0 as f64)?,
        DataType::Double(f) => flit(f.0)?,
        n => match k_of(n) {
            K::Int(i) => format!("{i}"),
            _ => return None,
        },
    })
}
fn flit(f: f64) -> Option<String> {
    if !f.is_finite() {
        return None;
    }
    let s = format!("{:?}", f);
    if s.contains('e') {
        let s = format!("{:.1}", f);
        return if s.parse::<f64>() == Ok(f) { Some(s) } else { None };
    }
    Some(s)
}

fn type_name(k: Kind) -> &'static str {
    match k {
        Kind::Bool => "BOOL",
        Kind::Int => "INT",
        Kind::BigInt => "BIGINT",
        Kind::UInt => "UINT",
        Kind::BigUInt => "BIGUINT",
        Kind::Float => "FLOAT",
        Kind::Double => "DOUBLE",
        _ => "TEXT",
    }
}

fn key_ord(a: &DataType, b: &DataType) -> Ordering {
    oracle_cmp(a, b).unwrap_or_else(|| a.is_null().cmp(&b.is_null()))
}

fn tree_case(src: &Src, cx: &mut Cx) -> Res {
    let kind = KINDS[src.usize(8)];
    let dir = cx.fresh_dir("tree");
    let cfg = DBConfig::new(4096, 5000, 1, 3, 1 + src.usize(3));
    let t = VTree::create(&dir.join("t.db"), cfg, &[kind, Kind::Int], 1).map_err(|e| Violation { kind: "create".into(), msg: e })?;
    cx.log(format!("index tree over {:?}", kind));
    let n = 10 + src.usize(if kind == Kind::Bool { 4 } else { 70 });
    let mut vals: Vec<DataType> = vec![];
    for i in 0..n {
        let v = if !vals.is_empty() && src.chance(1, 3) {
            let x = near(src, &vals[src.usize(vals.len())]);
            if x.kind() == kind { x } else { value(src, kind) }
        } else {
            value(src, kind)
        };
        let dup = vals.iter().any(|w| oracle_cmp(w, &v) == Some(Ordering::Equal));
        match (t.insert(&[v.clone(), DataType::Int(Int32(i as i32))]), dup) {
            (Ok(()), false) => vals.push(v),
            (Err(_), true) => {}
            (Ok(()), true) => return viol("index-duplicate", format!("the tree accepted {} although an equal key is present", show(&v))),
            (Err(e), false) => return viol("index-refused", format!("the tree refused {}: {e}", show(&v))),
        }
    }
    vals.sort_by(key_ord);
    let got = t.scan().map_err(|e| Violation { kind: "scan".into(), msg: e })?;
    ensure!(got.len() == vals.len(), "index-count", "{} keys inserted, {} scanned", vals.len(), got.len());
    for (i, (g, w)) in got.iter().zip(&vals).enumerate() {
        ensure!(same(&g[0], w), "index-order", "index position {i} holds {}, the order of the values puts {} there", show(&g[0]), show(w));
    }
    for w in &vals {
        let p = near(src, w);
        let probe = if p.kind() == kind { p } else { w.clone() };
        let want = vals.iter().any(|x| oracle_cmp(x, &probe) == Some(Ordering::Equal));
        match t.get(&[probe.clone(), DataType::Null]) {
            Ok(g) => ensure!(g.is_some() == want, "index-lookup", "lookup of {} found {}, present: {want}", show(&probe), g.is_some()),
            Err(e) => return viol("index-lookup", format!("lookup of {}: {e}", show(&probe))),
        }
    }
    cx.eval(true);
    cx.class("index tree");
    Ok(())
}

fn q(db: &Database, cx: &mut Cx, sql: &str) -> Result<Vec<Vec<DataType>>, Violation> {
    cx.eval(true);
    match exec(db, sql) {
        Ok(o) => Ok(o.rows()),
        Err(e) => viol("query-error", format!("{sql}: {e}")),
    }
}

fn sql_case(src: &Src, cx: &mut Cx) -> Res {
    let kind = KINDS[src.usize(8)];
    let dir = cx.fresh_dir("sql");
    let path = dir.join("db");
    let db = Database::create(&path, DBConfig::new(4096, 5000, 1, 3, 2)).map_err(|e| Violation { kind: "create".into(), msg: e.to_string() })?;
    let indexed = src.chance(1, 2);
    let ty = type_name(kind);
    cx.log(format!("table of {ty}{}", if indexed { " with a unique index" } else { "" }));
    let e = |r: Result<Out, String>, s: &str| r.map_err(|e| Violation { kind: "statement-error".into(), msg: format!("{s}: {e}") });
    e(exec(&db, &format!("CREATE TABLE t (n INT, v {ty})")), "create table")?;
    if indexed {
        e(exec(&db, "CREATE UNIQUE INDEX iv ON t(v)"), "create index")?;
    }
    let n = 4 + src.usize(24);
    let mut rows: Vec<(i32, DataType)> = vec![];
    for i in 0..n {
        let v = if src.chance(1, 8) && !indexed {
            DataType::Null
        } else if !rows.is_empty() && src.chance(2, 5) {
            let x = rows[src.usize(rows.len())].1.clone();
            let y = if src.chance(1, 2) { x.clone() } else { near(src, &x) };
            if y.kind() == kind { y } else { x }
        } else {
            value(src, kind)
        };
        if let DataType::Blob(b) = &v {
            if b.data().unwrap().len() > 3000 {
                continue;
            }
        }
        let Some(lit) = literal(&v) else { continue };
        let dup = indexed && rows.iter().any(|(_, w)| oracle_cmp(w, &v) == Some(Ordering::Equal));
        let sql = format!("INSERT INTO t VALUES ({i}, {lit})");
        match (exec(&db, &sql), dup) {
            (Ok(_), false) => rows.push((i as i32, v)),
            (Err(_), true) => {}
            (Ok(_), true) => return viol("unique-accepted", format!("unique index accepted {} next to an equal value", show(&v))),
            (Err(x), false) => return viol("insert-refused", format!("INSERT of {}: {x}", show(&v))),
        }
    }
    let at = |r: &[DataType]| -> i32 {
        match &r[0] {
            DataType::Int(i) => i.0,
            _ => -1,
        }
    };
    let by: BTreeMap<i32, &DataType> = rows.iter().map(|(i, v)| (*i, v)).collect();
    // load
    let got = q(&db, cx, "SELECT n, v FROM t")?;
    ensure!(got.len() == rows.len(), "load-count", "{} rows inserted, {} read", rows.len(), got.len());
    for r in &got {
        match by.get(&at(r)) {
            // a literal has no negative zero
            Some(w) => ensure!(same(&r[1], w) || (matches!(k_of(w), K::F(f) if f == 0.0) && key_ord(&r[1], w).is_eq()), "load", "row {} was stored as {} and loads as {}", at(r), show(w), show(&r[1])),
            None => return viol("load", format!("row {} was never stored", show_row(r))),
        }
    }
    // order
    for desc in [false, true] {
        let got = q(&db, cx, &format!("SELECT n, v FROM t ORDER BY v{}", if desc { " DESC" } else { "" }))?;
        ensure!(got.len() == rows.len(), "order-count", "ORDER BY returns {} of {} rows", got.len(), rows.len());
        let mut nulls = vec![];
        let mut prev: Option<&DataType> = None;
        for (i, r) in got.iter().enumerate() {
            if r[1].is_null() {
                nulls.push(i);
                continue;
            }
            if let Some(p) = prev {
                let o = key_ord(p, &r[1]);
                let o = if desc { o.reverse() } else { o };
                ensure!(o != Ordering::Greater, "order-by", "ORDER BY v{}: {} comes before {}", if desc { " DESC" } else { "" }, show(p), show(&r[1]));
            }
            prev = Some(&r[1]);
        }
        if let (Some(a), Some(b)) = (nulls.first(), nulls.last()) {
            ensure!(b - a + 1 == nulls.len() && (*a == 0 || *b == got.len() - 1), "order-nulls", "ORDER BY spreads the NULLs: {:?} of {}", nulls, got.len());
        }
    }
    // distinct and groups
    let mut classes: Vec<(DataType, u64)> = vec![];
    for (_, v) in &rows {
        match classes.iter_mut().find(|(c, _)| (c.is_null() && v.is_null()) || oracle_cmp(c, v) == Some(Ordering::Equal)) {
            Some(c) => c.1 += 1,
            None => classes.push((v.clone(), 1)),
        }
    }
    let got = q(&db, cx, "SELECT DISTINCT v FROM t")?;
    ensure!(got.len() == classes.len(), "distinct", "DISTINCT returns {} values, there are {} different ones", got.len(), classes.len());
    let got = q(&db, cx, "SELECT v, COUNT(*) FROM t GROUP BY v")?;
    ensure!(got.len() == classes.len(), "group-by", "GROUP BY forms {} groups, there are {} different values", got.len(), classes.len());
    for (c, n) in &classes {
        let g: Vec<_> = got.iter().filter(|r| (c.is_null() && r[0].is_null()) || oracle_cmp(c, &r[0]) == Some(Ordering::Equal)).collect();
        ensure!(g.len() == 1 && k_of(&g[0][1]) == K::Int(*n as i128), "group-by", "group {}: expected one with count {n}, got {:?}", show(c), g.iter().map(|r| show_row(r)).collect::<Vec<_>>());
    }
    // comparisons and lookups with literals
    for _ in 0..6 {
        let base = if rows.is_empty() { value(src, kind) } else { rows[src.usize(rows.len())].1.clone() };
        let p = near(src, &base);
        let p = if src.chance(1, 2) || p.is_null() { base } else { p };
        if p.is_null() || (!p.is_numeric() && p.kind() != kind) || (p.is_numeric() && matches!(kind, Kind::Bool | Kind::Blob)) {
            continue;
        }
        if let DataType::Blob(b) = &p {
            if b.data().unwrap().len() > 3000 {
                continue;
            }
        }
        let Some(lit) = literal(&p) else { continue };
        // what the literal denotes: its digits read exactly when integral, else a double
        let lv = if p.is_numeric() {
            match lit.parse::<i128>() {
                Ok(i) if num_of(Kind::BigInt, i).is_some() => num_of(Kind::BigInt, i).unwrap(),
                Ok(i) if num_of(Kind::BigUInt, i).is_some() => num_of(Kind::BigUInt, i).unwrap(),
                _ => DataType::Double(Float64(lit.parse::<f64>().unwrap())),
            }
        } else {
            p.clone()
        };
        for (op, f) in [("=", 0), ("<", 1), (">=", 2), ("<>", 3), ("IN", 4), ("BETWEEN", 5)] {
            if kind == Kind::Bool && f != 0 {
                continue;
            }
            let want: HashSet<i32> = rows
                .iter()
                .filter(|(_, v)| match (oracle_cmp(v, &lv), f) {
                    (None, _) => false,
                    (Some(o), 0 | 4 | 5) => o.is_eq(),
                    (Some(o), 1) => o.is_lt(),
                    (Some(o), 2) => o.is_ge(),
                    (Some(o), _) => o.is_ne(),
                })
                .map(|(i, _)| *i)
                .collect();
            let sql = match f {
                4 => format!("SELECT n FROM t WHERE v IN ({lit})"),
                5 => format!("SELECT n FROM t WHERE v BETWEEN {lit} AND {lit}"),
                _ => format!("SELECT n FROM t WHERE v {op} {lit}"),
            };
            let got = q(&db, cx, &sql)?;
            let set: HashSet<i32> = got.iter().map(|r| at(r)).collect();
            ensure!(set == want && got.len() == want.len(), "compare", "{sql}: rows {:?}, expected {:?} of {:?}", sorted(&set), sorted(&want), rows.iter().map(|(i, v)| format!("{i}:{}", show(v))).collect::<Vec<_>>());
        }
    }
    cx.class(if indexed { "sql indexed" } else { "sql" });
    Ok(())
}

fn sorted(s: &HashSet<i32>) -> Vec<i32> {
    let mut v: Vec<i32> = s.iter().copied().collect();
    v.sort();
    v
}

impl Property for C19 {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "a case is a pool of 24-40 values of all types (boundary grid, random bits, neighbours of each other) on which every pair and triple is judged against exact arithmetic, or one index tree or one single-column table of such values; it is distinct by its values and non-trivial when it holds at least one equal pair of unlike representation or one ordered triple"
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["NaN counts as equal to itself and above every other number (the type claims a total equality)".into(), "SQL literals: finite floats in decimal notation".into()]
    }
    fn plan(&self, thorough: bool) -> Plan {
        Plan { cases: if thorough { 400_000 } else { 20_000 }, batch: 50, timeout_s: 60, shrink_s: 45, workers: 8, budget_s: if thorough { 800 } else { 250 } }
    }
    fn run_case(&self, src: &mut Src, cx: &mut Cx) -> Res {
        let src = &*src;
        match src.weighted(&[5, 2, 3]) {
            1 => return tree_case(src, cx),
            2 => return sql_case(src, cx),
            _ => {}
        }
        let n = 24 + src.usize(16);
        let focus = if src.chance(1, 3) { Some(KINDS[src.usize(8)]) } else { None };
        let mut pool: Vec<DataType> = vec![DataType::Null];
        while pool.len() < n {
            let v = if pool.len() > 2 && src.chance(1, 2) { near(src, &pool[1 + src.usize(pool.len() - 1)]) } else { value(src, focus.unwrap_or(KINDS[src.usize(8)])) };
            pool.push(v);
        }
        cx.log(format!("pool of {n}: {}", pool.iter().take(12).map(show).collect::<Vec<_>>().join(", ")));
        for v in &pool {
            check_one(src, v)?;
        }
        let mut twins = 0;
        for a in &pool {
            for b in &pool {
                check_pair(a, b)?;
                if a == b && a.kind() != b.kind() {
                    twins += 1;
                }
            }
        }
        cx.eval(true);
        // transitivity as such, independent of the oracle
        let m = pool.len();
        let (mut le, mut eq) = (vec![vec![false; m]; m], vec![vec![false; m]; m]);
        for i in 0..m {
            for j in 0..m {
                le[i][j] = pool[i] <= pool[j];
                eq[i][j] = pool[i] == pool[j];
            }
        }
        for i in 0..m {
            for j in 0..m {
                for k in 0..m {
                    ensure!(!(eq[i][j] && eq[j][k]) || eq[i][k], "eq-transitive", "{} == {} == {} but not the outer two", show(&pool[i]), show(&pool[j]), show(&pool[k]));
                    ensure!(!(le[i][j] && le[j][k]) || le[i][k], "order-transitive", "{} <= {} <= {} but not the outer two", show(&pool[i]), show(&pool[j]), show(&pool[k]));
                }
            }
        }
        cx.class_n("pairs", (m * m) as u64);
        cx.class_n("triples", (m * m * m) as u64);
        if twins > 0 {
            cx.class("nontrivial");
            cx.distinct(cx.trace_hash());
        }
        Ok(())
    }
}

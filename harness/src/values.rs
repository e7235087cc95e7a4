//! Values as the oracles see them: exact, with the order the type documents.
use axmosdb::types::*;
use std::cmp::Ordering;

#[derive(Debug, Clone, PartialEq)]
pub enum K {
    Null,
    Bool(bool),
    Int(i128),
    F(f64),
    Bytes(Vec<u8>),
}

pub fn k_of(d: &DataType) -> K {
    match d {
        DataType::Null => K::Null,
        DataType::Bool(b) => K::Bool(b.0),
        DataType::Int(v) => K::Int(v.0 as i128),
        DataType::BigInt(v) => K::Int(v.0 as i128),
        DataType::UInt(v) => K::Int(v.0 as i128),
        DataType::BigUInt(v) => K::Int(v.0 as i128),
        DataType::Float(v) => K::F(v.0 as f64),
        DataType::Double(v) => K::F(v.0),
        DataType::Blob(b) => K::Bytes(b.data().map(|x| x.to_vec()).unwrap_or_else(|_| b"<bad blob>".to_vec())),
    }
}

impl Eq for K {}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
/// Order within one type (the two sides are always of one type here); -0.0 equals 0.0.
impl Ord for K {
    fn cmp(&self, o: &Self) -> Ordering {
        match (self, o) {
            (K::Bool(a), K::Bool(b)) => a.cmp(b),
            (K::Int(a), K::Int(b)) => a.cmp(b),
            (K::F(a), K::F(b)) => a.partial_cmp(b).unwrap_or_else(|| a.total_cmp(b)),
            (K::Bytes(a), K::Bytes(b)) => a.cmp(b),
            _ => rank(self).cmp(&rank(o)),
        }
    }
}
fn rank(k: &K) -> u8 {
    match k {
        K::Null => 0,
        K::Bool(_) => 1,
        K::Int(_) => 2,
        K::F(_) => 3,
        K::Bytes(_) => 4,
    }
}

pub fn row_k(r: &[DataType]) -> Vec<K> {
    r.iter().map(k_of).collect()
}

/// Same type and bit-identical value.
pub fn same(a: &DataType, b: &DataType) -> bool {
    match (a, b) {
        (DataType::Null, DataType::Null) => true,
        (DataType::Bool(x), DataType::Bool(y)) => x.0 == y.0,
        (DataType::Int(x), DataType::Int(y)) => x.0 == y.0,
        (DataType::BigInt(x), DataType::BigInt(y)) => x.0 == y.0,
        (DataType::UInt(x), DataType::UInt(y)) => x.0 == y.0,
        (DataType::BigUInt(x), DataType::BigUInt(y)) => x.0 == y.0,
        (DataType::Float(x), DataType::Float(y)) => x.0.to_bits() == y.0.to_bits(),
        (DataType::Double(x), DataType::Double(y)) => x.0.to_bits() == y.0.to_bits(),
        (DataType::Blob(x), DataType::Blob(y)) => x.data().ok() == y.data().ok() && x.data().is_ok(),
        _ => false,
    }
}
pub fn same_row(a: &[DataType], b: &[DataType]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y))
}

pub fn blob(b: &[u8]) -> DataType {
    DataType::Blob(Blob::from_unencoded_slice(b))
}
pub fn text(s: &str) -> DataType {
    blob(s.as_bytes())
}

pub fn show(d: &DataType) -> String {
    match d {
        DataType::Blob(b) => match b.data() {
            Ok(x) if x.len() > 24 => format!("Blob[{}]{:?}..#{:x}", x.len(), String::from_utf8_lossy(&x[..12]), crate::core::hash_str(&String::from_utf8_lossy(x)) & 0xffff),
            Ok(x) => format!("Blob{:?}", String::from_utf8_lossy(x)),
            Err(e) => format!("Blob(bad: {e})"),
        },
        other => format!("{:?}", other),
    }
}
pub fn show_row(r: &[DataType]) -> String {
    let mut s = String::from("(");
    for (i, d) in r.iter().enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        s.push_str(&show(d));
    }
    s.push(')');
    s
}

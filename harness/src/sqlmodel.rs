//! Reference model of the SQL dialect: values, expressions with three-valued logic, queries, tables, DML and DDL.
//! Written from SQL semantics, independent of the engine; shared by every SQL-level check.
use axmosdb::types::DataType;
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

// ------------------------------------------------------------------ values

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    Int(i128),
    F(f64),
    S(String),
}
pub fn v_of(d: &DataType) -> V {
    match d {
        DataType::Null => V::Null,
        DataType::Bool(b) => V::Bool(b.0),
        DataType::Int(v) => V::Int(v.0 as i128),
        DataType::BigInt(v) => V::Int(v.0 as i128),
        DataType::UInt(v) => V::Int(v.0 as i128),
        DataType::BigUInt(v) => V::Int(v.0 as i128),
        DataType::Float(v) => V::F(v.0 as f64),
        DataType::Double(v) => V::F(v.0),
        DataType::Blob(b) => match b.data() {
            Ok(x) => V::S(String::from_utf8_lossy(x).into_owned()),
            Err(e) => V::S(format!("<unreadable value: {e}>")),
        },
    }
}
/// Numbers with one value have one form.
pub fn norm(v: &V) -> V {
    match v {
        V::F(x) if x.fract() == 0.0 && x.abs() < 9e15 => V::Int(*x as i128),
        o => o.clone(),
    }
}
pub fn norm_row(r: &[V]) -> Vec<V> {
    r.iter().map(norm).collect()
}
pub fn rows_of(r: &[Vec<DataType>]) -> Vec<Vec<V>> {
    r.iter().map(|r| r.iter().map(v_of).collect()).collect()
}
/// Total order used for ORDER BY and for canonical forms: NULL greatest.
pub fn cmp_v(a: &V, b: &V) -> Ordering {
    fn rank(v: &V) -> u8 {
        match v {
            V::Bool(_) => 0,
            V::Int(_) | V::F(_) => 1,
            V::S(_) => 2,
            V::Null => 9,
        }
    }
    match (a, b) {
        (V::Bool(x), V::Bool(y)) => x.cmp(y),
        (V::S(x), V::S(y)) => x.as_bytes().cmp(y.as_bytes()),
        (V::Int(x), V::Int(y)) => x.cmp(y),
        (V::F(x), V::F(y)) => x.partial_cmp(y).unwrap_or_else(|| x.total_cmp(y)),
        (V::Int(x), V::F(y)) => cmp_int_f(*x, *y),
        (V::F(x), V::Int(y)) => cmp_int_f(*y, *x).reverse(),
        _ => rank(a).cmp(&rank(b)),
    }
}
fn cmp_int_f(i: i128, f: f64) -> Ordering {
    if f.abs() < 1e30 {
        let t = f.trunc();
        i.cmp(&(t as i128)).then_with(|| 0.0f64.partial_cmp(&(f - t)).unwrap_or(Ordering::Equal))
    } else if f > 0.0 {
        Ordering::Less
    } else {
        Ordering::Greater
    }
}
pub fn cmp_rows(a: &[V], b: &[V]) -> Ordering {
    for (x, y) in a.iter().zip(b) {
        let o = cmp_v(x, y);
        if o != Ordering::Equal {
            return o;
        }
    }
    a.len().cmp(&b.len())
}
pub fn show_v(v: &V) -> String {
    match v {
        V::Null => "NULL".into(),
        V::Bool(b) => format!("{b}"),
        V::Int(i) => format!("{i}"),
        V::F(f) => format!("{f:?}"),
        V::S(s) if s.len() > 40 => format!("'{}..'[{}]", s.chars().take(12).collect::<String>(), s.len()),
        V::S(s) => format!("'{s}'"),
    }
}
pub fn show_vs(r: &[V]) -> String {
    format!("({})", r.iter().map(show_v).collect::<Vec<_>>().join(", "))
}
pub fn lit(v: &V) -> String {
    match v {
        V::Null => "NULL".into(),
        V::Bool(true) => "TRUE".into(),
        V::Bool(false) => "FALSE".into(),
        V::Int(i) => format!("{i}"),
        V::F(f) => {
            let s = format!("{f}");
            if s.contains('.') { s } else { format!("{s}.0") }
        }
        V::S(s) => format!("'{}'", s.replace('\'', "''")),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Int,
    BigInt,
    UInt,
    BigUInt,
    Float,
    Double,
    Text,
    Bool,
}
impl Ty {
    pub fn sql(self) -> &'static str {
        match self {
            Ty::Int => "INT",
            Ty::BigInt => "BIGINT",
            Ty::UInt => "UINT",
            Ty::BigUInt => "BIGUINT",
            Ty::Float => "FLOAT",
            Ty::Double => "DOUBLE",
            Ty::Text => "TEXT",
            Ty::Bool => "BOOL",
        }
    }
    pub fn class(self) -> Cls {
        match self {
            Ty::Int | Ty::BigInt | Ty::UInt | Ty::BigUInt => Cls::Int,
            Ty::Float | Ty::Double => Cls::Flt,
            Ty::Text => Cls::Text,
            Ty::Bool => Cls::Bool,
        }
    }
}
/// What an expression yields: an integer, a float, either of them, text or a truth value.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cls {
    Int,
    Flt,
    Num,
    Text,
    Bool,
}
impl Cls {
    pub fn numeric(self) -> bool {
        matches!(self, Cls::Int | Cls::Flt | Cls::Num)
    }
}
/// The value a column of this type holds after `v` was stored in it; None: not storable.
pub fn store(v: &V, ty: Ty) -> Option<V> {
    let range = |lo: i128, hi: i128| -> Option<V> {
        match v {
            V::Int(i) if *i >= lo && *i <= hi => Some(V::Int(*i)),
            V::F(f) if f.fract() == 0.0 && *f >= lo as f64 && *f <= hi as f64 && f.abs() < 9e15 => Some(V::Int(*f as i128)),
            _ => None,
        }
    };
    if matches!(v, V::Null) {
        return Some(V::Null);
    }
    match ty {
        Ty::Int => range(i32::MIN as i128, i32::MAX as i128),
        Ty::BigInt => range(i64::MIN as i128, i64::MAX as i128),
        Ty::UInt => range(0, u32::MAX as i128),
        Ty::BigUInt => range(0, u64::MAX as i128),
        Ty::Float | Ty::Double => match v {
            V::Int(i) if i.unsigned_abs() < 1 << 24 => Some(V::F(*i as f64)),
            V::F(f) if ty == Ty::Double || (*f as f32) as f64 == *f => Some(V::F(*f)),
            _ => None,
        },
        Ty::Text => if let V::S(_) = v { Some(v.clone()) } else { None },
        Ty::Bool => if let V::Bool(_) = v { Some(v.clone()) } else { None },
    }
}

// ------------------------------------------------------------------ expressions

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Or,
    And,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
    Add,
    Sub,
    Concat,
    Mul,
    Div,
    Mod,
}
impl Op {
    pub fn sql(self) -> &'static str {
        match self {
            Op::Or => "OR",
            Op::And => "AND",
            Op::Eq => "=",
            Op::Ne => "<>",
            Op::Lt => "<",
            Op::Le => "<=",
            Op::Gt => ">",
            Op::Ge => ">=",
            Op::Add => "+",
            Op::Sub => "-",
            Op::Concat => "||",
            Op::Mul => "*",
            Op::Div => "/",
            Op::Mod => "%",
        }
    }
    fn level(self) -> u8 {
        match self {
            Op::Or => 0,
            Op::And => 1,
            Op::Eq | Op::Ne | Op::Lt | Op::Le | Op::Gt | Op::Ge => 3,
            Op::Add | Op::Sub | Op::Concat => 4,
            Op::Mul | Op::Div | Op::Mod => 5,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Agg {
    Count,
    Sum,
    Avg,
    Min,
    Max,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fun {
    Length,
    Upper,
    Lower,
    LTrim,
    RTrim,
    Concat,
    Abs,
    Round,
    Ceil,
    Floor,
    Sqrt,
    Coalesce,
    NullIf,
}
impl Fun {
    pub fn sql(self) -> &'static str {
        match self {
            Fun::Length => "LENGTH",
            Fun::Upper => "UPPER",
            Fun::Lower => "LOWER",
            Fun::LTrim => "LTRIM",
            Fun::RTrim => "RTRIM",
            Fun::Concat => "CONCAT",
            Fun::Abs => "ABS",
            Fun::Round => "ROUND",
            Fun::Ceil => "CEIL",
            Fun::Floor => "FLOOR",
            Fun::Sqrt => "SQRT",
            Fun::Coalesce => "COALESCE",
            Fun::NullIf => "NULLIF",
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Lit(V),
    Col(usize),
    Neg(Box<E>),
    Not(Box<E>),
    Bin(Op, Box<E>, Box<E>),
    IsNull(Box<E>, bool),
    Between(Box<E>, Box<E>, Box<E>, bool),
    In(Box<E>, Vec<E>, bool),
    Like(Box<E>, Box<E>, bool),
    Case(Option<Box<E>>, Vec<(E, E)>, Option<Box<E>>),
    Fun(Fun, Vec<E>),
    Agg(Agg, bool, Option<Box<E>>),
}
pub fn bx(e: E) -> Box<E> {
    Box::new(e)
}
pub fn bin(op: Op, a: E, b: E) -> E {
    E::Bin(op, bx(a), bx(b))
}

/// How names are written: one text per scope column.
pub struct Render<'a> {
    pub names: &'a [String],
    /// Parenthesise every operand instead of only where precedence needs it.
    pub full: bool,
}
impl Render<'_> {
    pub fn r(&self, e: &E) -> String {
        self.at(e, 0)
    }
    fn list(&self, es: &[E]) -> String {
        es.iter().map(|e| self.at(e, 0)).collect::<Vec<_>>().join(", ")
    }
    fn at(&self, e: &E, min: u8) -> String {
        let (level, s) = match e {
            E::Lit(V::Int(i)) if *i < 0 => (6, lit(&V::Int(*i))),
            E::Lit(V::F(f)) if *f < 0.0 => (6, lit(&V::F(*f))),
            E::Lit(v) => (8, lit(v)),
            E::Col(i) => (8, self.names[*i].clone()),
            E::Neg(x) => (6, format!("-{}", self.at(x, 7))),
            E::Not(x) => (2, format!("NOT {}", self.at(x, if self.full { 7 } else { 2 }))),
            E::Bin(op, a, b) => {
                let l = op.level();
                let (la, lb) = if self.full { (7, 7) } else if l == 3 { (4, 4) } else { (l, l + 1) };
                (l, format!("{} {} {}", self.at(a, la), op.sql(), self.at(b, lb)))
            }
            E::IsNull(x, n) => (3, format!("{} IS {}NULL", self.at(x, self.lv(4)), if *n { "NOT " } else { "" })),
            E::Between(x, a, b, n) => (
                3,
                format!("{} {}BETWEEN {} AND {}", self.at(x, self.lv(4)), if *n { "NOT " } else { "" }, self.at(a, self.lv(4)), self.at(b, self.lv(4))),
            ),
            E::In(x, l, n) => (3, format!("{} {}IN ({})", self.at(x, self.lv(4)), if *n { "NOT " } else { "" }, self.list(l))),
            E::Like(x, p, n) => (3, format!("{} {}LIKE {}", self.at(x, self.lv(4)), if *n { "NOT " } else { "" }, self.at(p, self.lv(4)))),
            E::Case(o, w, d) => {
                let mut s = String::from("CASE");
                if let Some(o) = o {
                    s.push(' ');
                    s.push_str(&self.at(o, 0));
                }
                for (c, t) in w {
                    s.push_str(&format!(" WHEN {} THEN {}", self.at(c, 0), self.at(t, 0)));
                }
                if let Some(d) = d {
                    s.push_str(&format!(" ELSE {}", self.at(d, 0)));
                }
                s.push_str(" END");
                (8, s)
            }
            E::Fun(f, a) => (8, format!("{}({})", f.sql(), self.list(a))),
            E::Agg(a, d, x) => {
                let n = match a {
                    Agg::Count => "COUNT",
                    Agg::Sum => "SUM",
                    Agg::Avg => "AVG",
                    Agg::Min => "MIN",
                    Agg::Max => "MAX",
                };
                (8, match x {
                    None => format!("{n}(*)"),
                    Some(x) => format!("{n}({}{})", if *d { "DISTINCT " } else { "" }, self.at(x, 0)),
                })
            }
        };
        if level < min { format!("({s})") } else { s }
    }
    fn lv(&self, l: u8) -> u8 {
        if self.full { 7 } else { l }
    }
}

/// The statement's outcome is an error, or depends on evaluation order.
#[derive(Debug, Clone, PartialEq)]
pub struct Hard(pub &'static str);

/// Evaluation over one row, or over a group.
pub struct Ev<'a> {
    pub row: &'a [V],
    pub group: Option<(&'a [E], &'a [V], &'a [Vec<V>])>,
    /// Set when a sane implementation may report an overflow.
    pub may_err: &'a Cell<bool>,
}
impl Ev<'_> {
    pub fn ev(&self, e: &E) -> Result<V, Hard> {
        if let Some((keys, vals, _)) = self.group {
            if let Some(i) = keys.iter().position(|k| k == e) {
                return Ok(vals[i].clone());
            }
        }
        Ok(match e {
            E::Lit(v) => v.clone(),
            E::Col(i) => {
                if self.group.is_some() {
                    return Err(Hard("column outside of GROUP BY"));
                }
                self.row[*i].clone()
            }
            E::Neg(x) => match self.ev(x)? {
                V::Null => V::Null,
                V::Int(i) => self.int(-i),
                V::F(f) => V::F(-f),
                _ => return Err(Hard("minus on a non-number")),
            },
            E::Not(x) => from3(to3(&self.ev(x)?)?.map(|b| !b)),
            E::Bin(op, a, b) => {
                let (x, y) = (self.ev(a)?, self.ev(b)?);
                self.bin(*op, x, y)?
            }
            E::IsNull(x, n) => V::Bool((self.ev(x)? == V::Null) != *n),
            E::Between(x, a, b, n) => {
                let (x, a, b) = (self.ev(x)?, self.ev(a)?, self.ev(b)?);
                let r = self.bin(Op::And, self.bin(Op::Ge, x.clone(), a)?, self.bin(Op::Le, x, b)?)?;
                from3(to3(&r)?.map(|v| v != *n))
            }
            E::In(x, l, n) => {
                let x = self.ev(x)?;
                let mut r = V::Bool(false);
                for i in l {
                    let i = self.ev(i)?;
                    r = self.bin(Op::Or, r, self.bin(Op::Eq, x.clone(), i)?)?;
                }
                from3(to3(&r)?.map(|v| v != *n))
            }
            E::Like(x, p, n) => match (self.ev(x)?, self.ev(p)?) {
                (V::S(s), V::S(p)) => V::Bool(like(&s, &p) != *n),
                (V::Null, V::Null | V::S(_)) | (V::S(_), V::Null) => V::Null,
                _ => return Err(Hard("LIKE on a non-text")),
            },
            E::Case(o, w, d) => {
                let o = o.as_ref().map(|o| self.ev(o)).transpose()?;
                for (c, t) in w {
                    let c = self.ev(c)?;
                    let hit = match &o {
                        None => to3(&c)? == Some(true),
                        Some(o) => self.bin(Op::Eq, o.clone(), c)? == V::Bool(true),
                    };
                    if hit {
                        return self.ev(t);
                    }
                }
                match d {
                    Some(d) => self.ev(d)?,
                    None => V::Null,
                }
            }
            E::Fun(f, a) => {
                let a: Vec<V> = a.iter().map(|x| self.ev(x)).collect::<Result<_, _>>()?;
                self.fun(*f, &a)?
            }
            E::Agg(a, d, x) => {
                let Some((_, _, rows)) = self.group else { return Err(Hard("aggregate outside of a group")) };
                let Some(x) = x else { return Ok(V::Int(rows.len() as i128)) };
                let mut vals = vec![];
                for r in rows {
                    let v = Ev { row: r, group: None, may_err: self.may_err }.ev(x)?;
                    if v != V::Null && !(*d && vals.iter().any(|o| cmp_v(o, &v) == Ordering::Equal)) {
                        vals.push(v);
                    }
                }
                match a {
                    Agg::Count => V::Int(vals.len() as i128),
                    Agg::Min => vals.into_iter().min_by(cmp_v).unwrap_or(V::Null),
                    Agg::Max => vals.into_iter().max_by(cmp_v).unwrap_or(V::Null),
                    Agg::Sum | Agg::Avg => {
                        if vals.is_empty() {
                            return Ok(V::Null);
                        }
                        let mut s = 0.0;
                        for v in &vals {
                            s += match v {
                                V::Int(i) => *i as f64,
                                V::F(f) => *f,
                                _ => return Err(Hard("sum of a non-number")),
                            };
                        }
                        V::F(if *a == Agg::Avg { s / vals.len() as f64 } else { s })
                    }
                }
            }
        })
    }
    fn int(&self, i: i128) -> V {
        // Operand types are at least 32 bit wide; results beyond that may not fit them. (The generators keep
        // unsigned columns out of subtractions.)
        if i < i32::MIN as i128 || i > i32::MAX as i128 {
            self.may_err.set(true);
        }
        V::Int(i)
    }
    fn bin(&self, op: Op, a: V, b: V) -> Result<V, Hard> {
        match op {
            Op::And => {
                return Ok(from3(match (to3(&a)?, to3(&b)?) {
                    (Some(false), _) | (_, Some(false)) => Some(false),
                    (Some(true), Some(true)) => Some(true),
                    _ => None,
                }));
            }
            Op::Or => {
                return Ok(from3(match (to3(&a)?, to3(&b)?) {
                    (Some(true), _) | (_, Some(true)) => Some(true),
                    (Some(false), Some(false)) => Some(false),
                    _ => None,
                }));
            }
            _ => {}
        }
        if a == V::Null || b == V::Null {
            return Ok(V::Null);
        }
        let ord = || -> Result<Ordering, Hard> {
            match (&a, &b) {
                (V::Bool(_), V::Bool(_)) | (V::S(_), V::S(_)) | (V::Int(_) | V::F(_), V::Int(_) | V::F(_)) => Ok(cmp_v(&a, &b)),
                _ => Err(Hard("comparison across types")),
            }
        };
        Ok(match op {
            Op::Eq => V::Bool(ord()? == Ordering::Equal),
            Op::Ne => V::Bool(ord()? != Ordering::Equal),
            Op::Lt => V::Bool(ord()? == Ordering::Less),
            Op::Le => V::Bool(ord()? != Ordering::Greater),
            Op::Gt => V::Bool(ord()? == Ordering::Greater),
            Op::Ge => V::Bool(ord()? != Ordering::Less),
            Op::Concat => match (a, b) {
                (V::S(a), V::S(b)) => V::S(a + &b),
                _ => return Err(Hard("|| on a non-text")),
            },
            _ => match (a, b) {
                (V::Int(a), V::Int(b)) => match op {
                    Op::Add => self.int(a.checked_add(b).ok_or(Hard("overflow"))?),
                    Op::Sub => self.int(a.checked_sub(b).ok_or(Hard("overflow"))?),
                    Op::Mul => self.int(a.checked_mul(b).ok_or(Hard("overflow"))?),
                    _ if b == 0 => return Err(Hard("division by zero")),
                    Op::Div => self.int(a / b),
                    _ => self.int(a % b),
                },
                (a, b) => {
                    let f = |v: &V| match v {
                        V::Int(i) => Ok(*i as f64),
                        V::F(f) => Ok(*f),
                        _ => Err(Hard("arithmetic on a non-number")),
                    };
                    let (a, b) = (f(&a)?, f(&b)?);
                    match op {
                        Op::Add => V::F(a + b),
                        Op::Sub => V::F(a - b),
                        Op::Mul => V::F(a * b),
                        _ if b == 0.0 => return Err(Hard("division by zero")),
                        Op::Div => V::F(a / b),
                        _ => V::F(a % b),
                    }
                }
            },
        })
    }
    fn fun(&self, f: Fun, a: &[V]) -> Result<V, Hard> {
        match f {
            Fun::Coalesce => return Ok(a.iter().find(|v| **v != V::Null).cloned().unwrap_or(V::Null)),
            Fun::NullIf => {
                let eq = self.bin(Op::Eq, a[0].clone(), a[1].clone())? == V::Bool(true);
                return Ok(if eq { V::Null } else { a[0].clone() });
            }
            _ => {}
        }
        if a.contains(&V::Null) {
            return Ok(V::Null);
        }
        Ok(match (f, &a[0]) {
            (Fun::Length, V::S(s)) => V::Int(s.chars().count() as i128),
            (Fun::Upper, V::S(s)) => V::S(s.to_uppercase()),
            (Fun::Lower, V::S(s)) => V::S(s.to_lowercase()),
            (Fun::LTrim, V::S(s)) => V::S(s.trim_start().to_string()),
            (Fun::RTrim, V::S(s)) => V::S(s.trim_end().to_string()),
            (Fun::Concat, _) => {
                let mut r = String::new();
                for x in a {
                    match x {
                        V::S(s) => r.push_str(s),
                        _ => return Err(Hard("CONCAT of a non-text")),
                    }
                }
                V::S(r)
            }
            (Fun::Abs, V::Int(i)) => {
                if *i == i32::MIN as i128 {
                    self.may_err.set(true);
                }
                V::Int(i.abs())
            }
            (Fun::Abs, V::F(x)) => V::F(x.abs()),
            (Fun::Round | Fun::Ceil | Fun::Floor, V::Int(i)) => V::Int(*i),
            (Fun::Round, V::F(x)) => V::F(x.round()),
            (Fun::Ceil, V::F(x)) => V::F(x.ceil()),
            (Fun::Floor, V::F(x)) => V::F(x.floor()),
            (Fun::Sqrt, V::Int(_) | V::F(_)) => {
                let x = match &a[0] {
                    V::Int(i) => *i as f64,
                    V::F(f) => *f,
                    _ => 0.0,
                };
                if x < 0.0 {
                    return Err(Hard("square root of a negative number"));
                }
                V::F(x.sqrt())
            }
            _ => return Err(Hard("wrong argument type")),
        })
    }
}
pub fn to3(v: &V) -> Result<Option<bool>, Hard> {
    match v {
        V::Null => Ok(None),
        V::Bool(b) => Ok(Some(*b)),
        _ => Err(Hard("truth value of a non-boolean")),
    }
}
fn from3(b: Option<bool>) -> V {
    b.map_or(V::Null, V::Bool)
}
pub fn like(s: &str, p: &str) -> bool {
    let (s, p): (Vec<char>, Vec<char>) = (s.chars().collect(), p.chars().collect());
    let mut d = vec![vec![false; p.len() + 1]; s.len() + 1];
    d[0][0] = true;
    for i in 0..=s.len() {
        for j in 1..=p.len() {
            d[i][j] = match p[j - 1] {
                '%' => d[i][j - 1] || (i > 0 && d[i - 1][j]),
                '_' => i > 0 && d[i - 1][j - 1],
                c => i > 0 && s[i - 1] == c && d[i - 1][j - 1],
            };
        }
    }
    d[s.len()][p.len()]
}

// ------------------------------------------------------------------ state

#[derive(Clone, Debug, PartialEq)]
pub struct Col {
    pub name: String,
    pub ty: Ty,
    pub not_null: bool,
    pub default: Option<V>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Uniq {
    pub cols: Vec<usize>,
    pub pk: bool,
    /// Name of the index when it came from CREATE UNIQUE INDEX.
    pub index: Option<String>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Table {
    pub name: String,
    pub cols: Vec<Col>,
    pub uniques: Vec<Uniq>,
    pub rows: BTreeMap<u64, Vec<V>>,
    pub next: u64,
    /// Rows addressed by changes, and the unique keys those gave to rows (for judging conflicts).
    pub touched: BTreeSet<u64>,
    pub keys: BTreeSet<String>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct State {
    pub tables: BTreeMap<String, Arc<Table>>,
}
impl State {
    pub fn t(&self, n: &str) -> Option<&Table> {
        self.tables.get(n).map(|t| &**t)
    }
}
impl Table {
    /// Index of the first constraint two rows break together, or a NULL where there must be none.
    pub fn broken(&self) -> Option<String> {
        for (_, r) in &self.rows {
            if let Some(m) = self.null_break(r) {
                return Some(m);
            }
        }
        for u in &self.uniques {
            let mut keys: Vec<Vec<V>> = self.rows.values().map(|r| u.cols.iter().map(|c| r[*c].clone()).collect::<Vec<V>>()).filter(|k| !k.contains(&V::Null)).collect();
            keys.sort_by(|a, b| cmp_rows(a, b));
            if let Some(w) = keys.windows(2).find(|w| cmp_rows(&w[0], &w[1]) == Ordering::Equal) {
                return Some(format!("two rows with {} in {:?}", show_vs(&w[0]), u.cols.iter().map(|c| self.cols[*c].name.clone()).collect::<Vec<_>>()));
            }
        }
        None
    }
    pub fn null_break(&self, r: &[V]) -> Option<String> {
        for (i, c) in self.cols.iter().enumerate() {
            let pk = self.uniques.iter().any(|u| u.pk && u.cols.contains(&i));
            if (c.not_null || pk) && r[i] == V::Null {
                return Some(format!("NULL in {}", c.name));
            }
        }
        None
    }
    fn note_keys(&mut self, ids: &[u64]) {
        for id in ids {
            self.touched.insert(*id);
            let Some(r) = self.rows.get(id) else { continue };
            for (k, u) in self.uniques.iter().enumerate() {
                let key: Vec<V> = u.cols.iter().map(|c| norm(&r[*c])).collect();
                if !key.contains(&V::Null) {
                    self.keys.insert(format!("{k}:{}", show_vs(&key)));
                }
            }
        }
    }
    pub fn must_not_null(&self, i: usize) -> bool {
        self.cols[i].not_null || self.uniques.iter().any(|u| u.pk && u.cols.contains(&i))
    }
}

// ------------------------------------------------------------------ queries

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Join {
    Inner,
    Left,
    Right,
    Full,
    Cross,
    Comma,
}
#[derive(Clone, Debug)]
pub enum From {
    None,
    Table { name: String, alias: Option<String> },
    Sub { q: Box<Query>, alias: String },
    Join { l: Box<From>, kind: Join, r: Box<From>, on: Option<E> },
}
#[derive(Clone, Debug)]
pub struct Item {
    pub e: E,
    pub alias: Option<String>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum OrderAs {
    Expr,
    Alias,
    Ordinal,
}
#[derive(Clone, Debug)]
pub struct Order {
    pub e: E,
    pub desc: bool,
    pub as_: OrderAs,
    /// Output column, when `as_` is not Expr.
    pub item: usize,
}
#[derive(Clone, Debug)]
pub struct Query {
    pub with: Vec<(String, Query)>,
    pub distinct: bool,
    pub star: bool,
    pub items: Vec<Item>,
    pub from: From,
    pub filter: Option<E>,
    pub group: Vec<E>,
    pub having: Option<E>,
    pub order: Vec<Order>,
    pub limit: Option<usize>,
    pub offset: Option<usize>,
    pub full_parens: bool,
    pub qualify: bool,
}
#[derive(Clone, Debug)]
pub struct SCol {
    pub qual: String,
    pub name: String,
    pub cls: Cls,
    pub ty: Option<Ty>,
}
pub type Ctes = Vec<(String, Vec<SCol>, Vec<Vec<V>>)>;

#[derive(Debug)]
pub struct QOut {
    pub cols: Vec<SCol>,
    /// Output rows with their sort keys, in an admissible order; before LIMIT/OFFSET.
    pub rows: Vec<(Vec<V>, Vec<V>)>,
    pub desc: Vec<bool>,
    pub limit: Option<usize>,
    pub offset: usize,
    pub may_err: bool,
    /// More than one table is involved.
    pub reorder: bool,
}

pub fn cls_of(e: &E, scope: &[SCol]) -> Cls {
    let join = |a: Cls, b: Cls| {
        if a == b {
            a
        } else if a.numeric() && b.numeric() {
            Cls::Num
        } else {
            a
        }
    };
    match e {
        E::Lit(V::Int(_)) => Cls::Int,
        E::Lit(V::F(_)) => Cls::Flt,
        E::Lit(V::S(_)) => Cls::Text,
        E::Lit(_) => Cls::Bool,
        E::Col(i) => scope[*i].cls,
        E::Neg(x) => cls_of(x, scope),
        E::Not(_) | E::IsNull(..) | E::Between(..) | E::In(..) | E::Like(..) => Cls::Bool,
        E::Bin(op, a, b) => match op {
            Op::Concat => Cls::Text,
            Op::Add | Op::Sub | Op::Mul | Op::Div | Op::Mod => match (cls_of(a, scope), cls_of(b, scope)) {
                (Cls::Flt, _) | (_, Cls::Flt) => Cls::Flt,
                (Cls::Int, Cls::Int) => Cls::Int,
                _ => Cls::Num,
            },
            _ => Cls::Bool,
        },
        E::Case(_, w, d) => {
            let mut c = cls_of(&w[0].1, scope);
            for (_, t) in w {
                if *t != E::Lit(V::Null) {
                    c = join(c, cls_of(t, scope));
                }
            }
            if let Some(d) = d {
                if **d != E::Lit(V::Null) {
                    c = join(c, cls_of(d, scope));
                }
            }
            c
        }
        E::Fun(f, a) => match f {
            Fun::Length => Cls::Int,
            Fun::Upper | Fun::Lower | Fun::LTrim | Fun::RTrim | Fun::Concat => Cls::Text,
            Fun::Abs | Fun::Round | Fun::Ceil | Fun::Floor | Fun::NullIf => cls_of(&a[0], scope),
            Fun::Sqrt => Cls::Flt,
            Fun::Coalesce => a.iter().filter(|x| **x != E::Lit(V::Null)).map(|x| cls_of(x, scope)).reduce(join).unwrap_or(Cls::Bool),
        },
        E::Agg(a, _, x) => match a {
            Agg::Count => Cls::Int,
            Agg::Sum | Agg::Avg => Cls::Flt,
            _ => cls_of(x.as_ref().unwrap(), scope),
        },
    }
}

pub fn has_agg(e: &E) -> bool {
    match e {
        E::Agg(..) => true,
        E::Lit(_) | E::Col(_) => false,
        E::Neg(x) | E::Not(x) | E::IsNull(x, _) => has_agg(x),
        E::Bin(_, a, b) | E::Like(a, b, _) => has_agg(a) || has_agg(b),
        E::Between(a, b, c, _) => has_agg(a) || has_agg(b) || has_agg(c),
        E::In(a, l, _) => has_agg(a) || l.iter().any(has_agg),
        E::Case(o, w, d) => o.as_ref().is_some_and(|x| has_agg(x)) || w.iter().any(|(a, b)| has_agg(a) || has_agg(b)) || d.as_ref().is_some_and(|x| has_agg(x)),
        E::Fun(_, a) => a.iter().any(has_agg),
    }
}

impl From {
    pub fn scope(&self, st: &State, ctes: &Ctes) -> Vec<SCol> {
        match self {
            From::None => vec![],
            From::Table { name, alias } => {
                let q = alias.clone().unwrap_or_else(|| name.clone());
                if let Some((_, cols, _)) = ctes.iter().rev().find(|c| c.0 == *name) {
                    return cols.iter().map(|c| SCol { qual: q.clone(), ..c.clone() }).collect();
                }
                st.t(name).map(|t| t.cols.iter().map(|c| SCol { qual: q.clone(), name: c.name.clone(), cls: c.ty.class(), ty: Some(c.ty) }).collect()).unwrap_or_default()
            }
            From::Sub { q, alias } => q.out_cols(st, ctes).into_iter().map(|c| SCol { qual: alias.clone(), ..c }).collect(),
            From::Join { l, r, .. } => {
                let mut s = l.scope(st, ctes);
                s.extend(r.scope(st, ctes));
                s
            }
        }
    }
    fn rows(&self, st: &State, ctes: &Ctes, me: &Cell<bool>) -> Result<Vec<Vec<V>>, Hard> {
        Ok(match self {
            From::None => vec![vec![]],
            From::Table { name, .. } => {
                if let Some((_, _, rows)) = ctes.iter().rev().find(|c| c.0 == *name) {
                    return Ok(rows.clone());
                }
                st.t(name).ok_or(Hard("no such table"))?.rows.values().cloned().collect()
            }
            From::Sub { q, .. } => q.run(st, ctes, me)?.final_rows()?,
            From::Join { l, kind, r, on } => {
                let (a, b) = (l.rows(st, ctes, me)?, r.rows(st, ctes, me)?);
                let (wa, wb) = (l.scope(st, ctes).len(), r.scope(st, ctes).len());
                let mut out = vec![];
                let mut hit_b = vec![false; b.len()];
                for x in &a {
                    let mut hit = false;
                    for (j, y) in b.iter().enumerate() {
                        let mut row = x.clone();
                        row.extend(y.iter().cloned());
                        let ok = match on {
                            None => true,
                            Some(e) => to3(&Ev { row: &row, group: None, may_err: me }.ev(e)?)? == Some(true),
                        };
                        if ok {
                            hit = true;
                            hit_b[j] = true;
                            out.push(row);
                        }
                    }
                    if !hit && matches!(kind, Join::Left | Join::Full) {
                        let mut row = x.clone();
                        row.extend(vec![V::Null; wb]);
                        out.push(row);
                    }
                }
                if matches!(kind, Join::Right | Join::Full) {
                    for (j, y) in b.iter().enumerate() {
                        if !hit_b[j] {
                            let mut row = vec![V::Null; wa];
                            row.extend(y.iter().cloned());
                            out.push(row);
                        }
                    }
                }
                out
            }
        })
    }
    fn sql(&self, st: &State, ctes: &Ctes, q: &Query, base: usize, names: &[String]) -> String {
        match self {
            From::None => String::new(),
            From::Table { name, alias: None } => name.clone(),
            From::Table { name, alias: Some(a) } => format!("{name} {}{a}", if q.full_parens { "AS " } else { "" }),
            From::Sub { q: s, alias } => format!("({}) AS {alias}", s.sql_in(st, ctes)),
            From::Join { l, kind, r, on } => {
                let _ = base;
                let k = match kind {
                    Join::Inner => if q.full_parens { "INNER JOIN" } else { "JOIN" },
                    Join::Left => "LEFT JOIN",
                    Join::Right => "RIGHT JOIN",
                    Join::Full => "FULL JOIN",
                    Join::Cross => "CROSS JOIN",
                    Join::Comma => ",",
                };
                let mut s = format!("{} {k} {}", l.sql(st, ctes, q, 0, names), r.sql(st, ctes, q, 0, names));
                if let Some(on) = on {
                    s.push_str(" ON ");
                    s.push_str(&Render { names, full: q.full_parens }.r(on));
                }
                s
            }
        }
    }
}

impl Query {
    pub fn simple(from: From) -> Query {
        Query { with: vec![], distinct: false, star: true, items: vec![], from, filter: None, group: vec![], having: None, order: vec![], limit: None, offset: None, full_parens: false, qualify: false }
    }
    pub fn table(name: &str) -> Query {
        Query::simple(From::Table { name: name.into(), alias: None })
    }
    pub fn grouped(&self) -> bool {
        !self.group.is_empty() || self.having.is_some() || self.items.iter().any(|i| has_agg(&i.e)) || self.order.iter().any(|o| has_agg(&o.e))
    }
    fn with_ctes(&self, st: &State, outer: &Ctes) -> Ctes {
        let mut c = outer.clone();
        for (n, q) in &self.with {
            let cols = q.out_cols(st, &c);
            c.push((n.clone(), cols, vec![]));
        }
        c
    }
    pub fn out_cols(&self, st: &State, outer: &Ctes) -> Vec<SCol> {
        let ctes = self.with_ctes(st, outer);
        let scope = self.from.scope(st, &ctes);
        if self.star {
            return scope;
        }
        self.items
            .iter()
            .enumerate()
            .map(|(i, it)| {
                let name = it.alias.clone().unwrap_or_else(|| if let E::Col(c) = &it.e { scope[*c].name.clone() } else { format!("?{i}") });
                let ty = if let E::Col(c) = &it.e { scope[*c].ty } else { None };
                SCol { qual: String::new(), name, cls: cls_of(&it.e, &scope), ty }
            })
            .collect()
    }
    pub fn names(scope: &[SCol], qualify: bool) -> Vec<String> {
        scope
            .iter()
            .map(|c| {
                let dup = scope.iter().filter(|o| o.name == c.name).count() > 1;
                if (dup || qualify) && !c.qual.is_empty() { format!("{}.{}", c.qual, c.name) } else { c.name.clone() }
            })
            .collect()
    }
    pub fn sql(&self, st: &State) -> String {
        self.sql_in(st, &vec![])
    }
    pub fn sql_in(&self, st: &State, outer: &Ctes) -> String {
        let ctes = self.with_ctes(st, outer);
        let scope = self.from.scope(st, &ctes);
        let names = Self::names(&scope, self.qualify);
        let r = Render { names: &names, full: self.full_parens };
        let mut s = String::new();
        if !self.with.is_empty() {
            s.push_str("WITH ");
            let mut seen = outer.clone();
            let mut parts = vec![];
            for (n, q) in &self.with {
                parts.push(format!("{n} AS ({})", q.sql_in(st, &seen)));
                seen.push((n.clone(), q.out_cols(st, &seen), vec![]));
            }
            s.push_str(&parts.join(", "));
            s.push(' ');
        }
        s.push_str("SELECT ");
        if self.distinct {
            s.push_str("DISTINCT ");
        }
        if self.star {
            s.push('*');
        } else {
            s.push_str(
                &self.items.iter().map(|i| match &i.alias {
                    Some(a) => format!("{} AS {a}", r.r(&i.e)),
                    None => r.r(&i.e),
                }).collect::<Vec<_>>().join(", "),
            );
        }
        if !matches!(self.from, From::None) {
            s.push_str(" FROM ");
            s.push_str(&self.from.sql(st, &ctes, self, 0, &names));
        }
        if let Some(f) = &self.filter {
            s.push_str(" WHERE ");
            s.push_str(&r.r(f));
        }
        if !self.group.is_empty() {
            s.push_str(" GROUP BY ");
            s.push_str(&self.group.iter().map(|g| r.r(g)).collect::<Vec<_>>().join(", "));
        }
        if let Some(h) = &self.having {
            s.push_str(" HAVING ");
            s.push_str(&r.r(h));
        }
        if !self.order.is_empty() {
            s.push_str(" ORDER BY ");
            s.push_str(
                &self.order.iter().map(|o| {
                    let k = match o.as_ {
                        OrderAs::Expr => r.r(&o.e),
                        OrderAs::Alias => self.items[o.item].alias.clone().unwrap(),
                        OrderAs::Ordinal => format!("{}", o.item + 1),
                    };
                    format!("{k}{}", if o.desc { " DESC" } else if self.full_parens { " ASC" } else { "" })
                }).collect::<Vec<_>>().join(", "),
            );
        }
        if let Some(l) = self.limit {
            s.push_str(&format!(" LIMIT {l}"));
        }
        if let Some(o) = self.offset {
            s.push_str(&format!(" OFFSET {o}"));
        }
        s
    }
    pub fn eval(&self, st: &State) -> Result<QOut, Hard> {
        let me = Cell::new(false);
        let mut o = self.run(st, &vec![], &me)?;
        o.may_err = me.get();
        Ok(o)
    }
    fn run(&self, st: &State, outer: &Ctes, me: &Cell<bool>) -> Result<QOut, Hard> {
        let mut ctes = outer.clone();
        for (n, q) in &self.with {
            let o = q.run(st, &ctes, me)?;
            let cols = q.out_cols(st, &ctes);
            ctes.push((n.clone(), cols, o.final_rows()?));
        }
        let scope = self.from.scope(st, &ctes);
        let mut rows = self.from.rows(st, &ctes, me)?;
        if let Some(f) = &self.filter {
            let mut keep = vec![];
            for r in rows {
                if to3(&Ev { row: &r, group: None, may_err: me }.ev(f)?)? == Some(true) {
                    keep.push(r);
                }
            }
            rows = keep;
        }
        let mut out: Vec<(Vec<V>, Vec<V>)> = vec![];
        let mut emit = |ev: &Ev| -> Result<(), Hard> {
            let vals = if self.star { ev.row.to_vec() } else { self.items.iter().map(|i| ev.ev(&i.e)).collect::<Result<Vec<_>, _>>()? };
            let keys = self.order.iter().map(|o| ev.ev(&o.e)).collect::<Result<Vec<_>, _>>()?;
            out.push((vals, keys));
            Ok(())
        };
        if self.grouped() {
            let mut groups: Vec<(Vec<V>, Vec<Vec<V>>)> = vec![];
            for r in rows {
                let k: Vec<V> = self.group.iter().map(|g| Ev { row: &r, group: None, may_err: me }.ev(g)).collect::<Result<_, _>>()?;
                match groups.iter_mut().find(|g| cmp_rows(&g.0, &k) == Ordering::Equal) {
                    Some(g) => g.1.push(r),
                    None => groups.push((k, vec![r])),
                }
            }
            if self.group.is_empty() && groups.is_empty() {
                groups.push((vec![], vec![]));
            }
            for (k, rows) in &groups {
                let ev = Ev { row: &[], group: Some((&self.group, k, rows)), may_err: me };
                if let Some(h) = &self.having {
                    if to3(&ev.ev(h)?)? != Some(true) {
                        continue;
                    }
                }
                emit(&ev)?;
            }
        } else {
            for r in &rows {
                emit(&Ev { row: r, group: None, may_err: me })?;
            }
        }
        if self.distinct {
            let mut d: Vec<(Vec<V>, Vec<V>)> = vec![];
            for r in out {
                if !d.iter().any(|o| cmp_rows(&o.0, &r.0) == Ordering::Equal) {
                    d.push(r);
                }
            }
            out = d;
        }
        let desc: Vec<bool> = self.order.iter().map(|o| o.desc).collect();
        out.sort_by(|a, b| cmp_keys(&a.1, &b.1, &desc));
        let cols = if self.star { scope } else { self.out_cols(st, outer) };
        Ok(QOut { cols, rows: out, desc, limit: self.limit, offset: self.offset.unwrap_or(0), may_err: false, reorder: !matches!(self.from, From::Table { .. } | From::None) || !self.with.is_empty() || self.grouped() })
    }
}
fn cmp_keys(a: &[V], b: &[V], desc: &[bool]) -> Ordering {
    for i in 0..a.len() {
        let o = cmp_v(&a[i], &b[i]);
        let o = if desc[i] { o.reverse() } else { o };
        if o != Ordering::Equal {
            return o;
        }
    }
    Ordering::Equal
}

/// Floats to twelve digits: sums may be taken in any order.
fn canon(v: V) -> V {
    match v {
        V::F(x) if x.is_finite() && (x.fract() != 0.0 || x.abs() >= 9e15) => norm(&V::F(format!("{x:.11e}").parse().unwrap_or(x))),
        o => norm(&o),
    }
}
fn multiset(rows: Vec<Vec<V>>) -> Vec<Vec<V>> {
    let mut rows: Vec<Vec<V>> = rows.into_iter().map(|r| r.into_iter().map(canon).collect()).collect();
    rows.sort_by(|a, b| cmp_rows(a, b));
    rows
}
fn render_diff(want: &[Vec<V>], got: &[Vec<V>]) -> String {
    let (mut i, mut j, mut missing, mut extra) = (0, 0, vec![], vec![]);
    while i < want.len() || j < got.len() {
        let o = if i == want.len() { Ordering::Greater } else if j == got.len() { Ordering::Less } else { cmp_rows(&want[i], &got[j]) };
        match o {
            Ordering::Less => {
                missing.push(show_vs(&want[i]));
                i += 1
            }
            Ordering::Greater => {
                extra.push(show_vs(&got[j]));
                j += 1
            }
            Ordering::Equal => {
                i += 1;
                j += 1
            }
        }
    }
    missing.truncate(5);
    extra.truncate(5);
    format!("expected {} rows, got {}; missing {}; not expected {}", want.len(), got.len(), missing.join(" "), extra.join(" "))
}
pub fn same_set(want: Vec<Vec<V>>, got: Vec<Vec<V>>) -> Result<(), String> {
    let (w, g) = (multiset(want), multiset(got));
    if w.len() == g.len() && w.iter().zip(&g).all(|(a, b)| cmp_rows(a, b) == Ordering::Equal) { Ok(()) } else { Err(render_diff(&w, &g)) }
}

impl QOut {
    fn cut(&self) -> (usize, usize) {
        let a = self.offset.min(self.rows.len());
        let b = match self.limit {
            Some(l) => a.saturating_add(l).min(self.rows.len()),
            None => self.rows.len(),
        };
        (a, b)
    }
    /// Whether LIMIT/OFFSET leave a choice between rows.
    pub fn determined(&self) -> bool {
        let (a, b) = self.cut();
        let differs = |i: usize| i == 0 || i >= self.rows.len() || cmp_keys(&self.rows[i - 1].1, &self.rows[i].1, &self.desc) != Ordering::Equal;
        differs(a) && differs(b) || a == b
    }
    pub fn final_rows(&self) -> Result<Vec<Vec<V>>, Hard> {
        if !self.determined() {
            return Err(Hard("LIMIT chooses between ties"));
        }
        let (a, b) = self.cut();
        Ok(self.rows[a..b].iter().map(|r| r.0.clone()).collect())
    }
    /// Whether `got` is an admissible answer.
    pub fn check(&self, got: &[Vec<V>]) -> Result<(), String> {
        // mixed integer and floating results: big values may have gone through floating point
        let fl: Vec<bool> = self.cols.iter().map(|c| matches!(c.cls, Cls::Num | Cls::Flt)).collect();
        let multiset = |rows: Vec<Vec<V>>| {
            let soft = |(i, v): (usize, V)| match v {
                V::Int(x) if fl.get(i) == Some(&true) && x.unsigned_abs() >= 9_000_000_000_000_000 => V::F(x as f64),
                v => v,
            };
            multiset(rows.into_iter().map(|r| r.into_iter().enumerate().map(soft).collect()).collect())
        };
        let (a, b) = self.cut();
        if got.len() != b - a {
            let all: Vec<Vec<V>> = self.rows[a..b].iter().map(|r| r.0.clone()).collect();
            return Err(if self.desc.is_empty() && (self.limit.is_some() || self.offset > 0) {
                format!("expected {} rows, got {}", b - a, got.len())
            } else {
                render_diff(&multiset(all), &multiset(got.to_vec()))
            });
        }
        let mut i = 0;
        while i < self.rows.len() {
            let mut j = i + 1;
            while j < self.rows.len() && cmp_keys(&self.rows[i].1, &self.rows[j].1, &self.desc) == Ordering::Equal {
                j += 1;
            }
            let (lo, hi) = (i.max(a), j.min(b));
            if lo < hi {
                // the part of this tie group the answer shows has to come from the group
                let want = multiset(self.rows[i..j].iter().map(|r| r.0.clone()).collect());
                let part = multiset(got[lo - a..hi - a].to_vec());
                let mut k = 0;
                for p in &part {
                    while k < want.len() && cmp_rows(&want[k], p) == Ordering::Less {
                        k += 1;
                    }
                    if k >= want.len() || cmp_rows(&want[k], p) != Ordering::Equal {
                        return Err(if self.desc.is_empty() {
                            if hi - lo == j - i { render_diff(&want, &part) } else { format!("row {} is not one the query can return, or is returned too often", show_vs(p)) }
                        } else {
                            format!("row {} is not where the order puts it (positions {}..{} hold {})", show_vs(p), lo - a, hi - a, want.iter().take(5).map(|w| show_vs(w)).collect::<Vec<_>>().join(" "))
                        });
                    }
                    k += 1;
                }
            }
            i = j;
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ statements

#[derive(Clone, Debug)]
pub enum Stmt {
    CreateTable { t: Table, if_not_exists: bool },
    DropTable { name: String, if_exists: bool },
    CreateIndex { table: String, name: String, cols: Vec<String>, if_not_exists: bool },
    AddColumn { table: String, col: Col },
    DropColumn { table: String, col: String },
    SetNotNull { table: String, col: String, on: bool },
    SetDefault { table: String, col: String, v: Option<V> },
    AddUnique { table: String, cols: Vec<String>, pk: bool },
    Insert { table: String, cols: Option<Vec<String>>, rows: Vec<Vec<V>> },
    InsertSelect { table: String, cols: Option<Vec<String>>, q: Query },
    Update { table: String, sets: Vec<(String, E)>, filter: Option<E>, full: bool },
    Delete { table: String, filter: Option<E>, full: bool },
    Select(Query),
    /// A statement that cannot succeed.
    Bad(String),
}
#[derive(Debug)]
pub enum Expect {
    Rows(QOut),
    Affected(u64),
    Ddl,
    /// The statement breaks a rule: it has to fail and change nothing.
    Fail(String),
}
impl Stmt {
    pub fn is_select(&self) -> bool {
        matches!(self, Stmt::Select(_))
    }
    pub fn is_dml(&self) -> bool {
        matches!(self, Stmt::Insert { .. } | Stmt::InsertSelect { .. } | Stmt::Update { .. } | Stmt::Delete { .. })
    }
    pub fn is_ddl(&self) -> bool {
        !self.is_select() && !self.is_dml() && !matches!(self, Stmt::Bad(_))
    }
    pub fn table(&self) -> Option<&str> {
        match self {
            Stmt::CreateTable { t, .. } => Some(&t.name),
            Stmt::DropTable { name, .. } => Some(name),
            Stmt::CreateIndex { table, .. }
            | Stmt::AddColumn { table, .. }
            | Stmt::DropColumn { table, .. }
            | Stmt::SetNotNull { table, .. }
            | Stmt::SetDefault { table, .. }
            | Stmt::AddUnique { table, .. }
            | Stmt::Insert { table, .. }
            | Stmt::InsertSelect { table, .. }
            | Stmt::Update { table, .. }
            | Stmt::Delete { table, .. } => Some(table),
            _ => None,
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Stmt::CreateTable { .. } => "CREATE TABLE",
            Stmt::DropTable { .. } => "DROP TABLE",
            Stmt::CreateIndex { .. } => "CREATE INDEX",
            Stmt::AddColumn { .. } => "ADD COLUMN",
            Stmt::DropColumn { .. } => "DROP COLUMN",
            Stmt::SetNotNull { .. } => "SET/DROP NOT NULL",
            Stmt::SetDefault { .. } => "SET/DROP DEFAULT",
            Stmt::AddUnique { .. } => "ADD UNIQUE/PRIMARY KEY",
            Stmt::Insert { .. } => "INSERT",
            Stmt::InsertSelect { .. } => "INSERT SELECT",
            Stmt::Update { .. } => "UPDATE",
            Stmt::Delete { .. } => "DELETE",
            Stmt::Select(_) => "SELECT",
            Stmt::Bad(_) => "invalid statement",
        }
    }
    pub fn sql(&self, st: &State) -> String {
        let names_of = |t: &str| st.t(t).map(|t| t.cols.iter().map(|c| c.name.clone()).collect::<Vec<_>>()).unwrap_or_default();
        match self {
            Stmt::CreateTable { t, if_not_exists } => {
                let mut parts: Vec<String> = t.cols.iter().map(col_sql).collect();
                for u in &t.uniques {
                    parts.push(format!("{} ({})", if u.pk { "PRIMARY KEY" } else { "UNIQUE" }, u.cols.iter().map(|c| t.cols[*c].name.clone()).collect::<Vec<_>>().join(", ")));
                }
                format!("CREATE TABLE {}{} ({})", if *if_not_exists { "IF NOT EXISTS " } else { "" }, t.name, parts.join(", "))
            }
            Stmt::DropTable { name, if_exists } => format!("DROP TABLE {}{name}", if *if_exists { "IF EXISTS " } else { "" }),
            Stmt::CreateIndex { table, name, cols, if_not_exists } => format!("CREATE UNIQUE INDEX {}{name} ON {table} ({})", if *if_not_exists { "IF NOT EXISTS " } else { "" }, cols.join(", ")),
            Stmt::AddColumn { table, col } => format!("ALTER TABLE {table} ADD COLUMN {}", col_sql(col)),
            Stmt::DropColumn { table, col } => format!("ALTER TABLE {table} DROP COLUMN {col}"),
            Stmt::SetNotNull { table, col, on } => format!("ALTER TABLE {table} ALTER COLUMN {col} {} NOT NULL", if *on { "SET" } else { "DROP" }),
            Stmt::SetDefault { table, col, v } => match v {
                Some(v) => format!("ALTER TABLE {table} ALTER COLUMN {col} SET DEFAULT {}", lit(v)),
                None => format!("ALTER TABLE {table} ALTER COLUMN {col} DROP DEFAULT"),
            },
            Stmt::AddUnique { table, cols, pk } => format!("ALTER TABLE {table} ADD CONSTRAINT {} ({})", if *pk { "PRIMARY KEY" } else { "UNIQUE" }, cols.join(", ")),
            Stmt::Insert { table, cols, rows } => {
                let r: Vec<String> = rows.iter().map(|r| format!("({})", r.iter().map(lit).collect::<Vec<_>>().join(", "))).collect();
                format!("INSERT INTO {table}{} VALUES {}", cols.as_ref().map(|c| format!(" ({})", c.join(", "))).unwrap_or_default(), r.join(", "))
            }
            Stmt::InsertSelect { table, cols, q } => format!("INSERT INTO {table}{} {}", cols.as_ref().map(|c| format!(" ({})", c.join(", "))).unwrap_or_default(), q.sql(st)),
            Stmt::Update { table, sets, filter, full } => {
                let names = names_of(table);
                let r = Render { names: &names, full: *full };
                let mut s = format!("UPDATE {table} SET {}", sets.iter().map(|(c, e)| format!("{c} = {}", r.r(e))).collect::<Vec<_>>().join(", "));
                if let Some(f) = filter {
                    s.push_str(&format!(" WHERE {}", r.r(f)));
                }
                s
            }
            Stmt::Delete { table, filter, full } => {
                let names = names_of(table);
                let r = Render { names: &names, full: *full };
                let mut s = format!("DELETE FROM {table}");
                if let Some(f) = filter {
                    s.push_str(&format!(" WHERE {}", r.r(f)));
                }
                s
            }
            Stmt::Select(q) => q.sql(st),
            Stmt::Bad(s) => s.clone(),
        }
    }

    /// Applies the statement. Err(Hard): the outcome is not determined, do not run it. `Fail` leaves the state alone.
    pub fn apply(&self, st: &mut State) -> Result<Expect, Hard> {
        let fail = |m: &str| Ok(Expect::Fail(m.to_string()));
        if let Stmt::CreateTable { t, if_not_exists } = self {
            if st.tables.contains_key(&t.name) {
                return if *if_not_exists { Ok(Expect::Ddl) } else { fail("table exists") };
            }
            st.tables.insert(t.name.clone(), Arc::new(t.clone()));
            return Ok(Expect::Ddl);
        }
        match self {
            Stmt::Select(q) => return Ok(Expect::Rows(q.eval(st)?)),
            Stmt::Bad(_) => return fail("invalid statement"),
            _ => {}
        }
        let name = self.table().unwrap().to_string();
        let Some(t) = st.tables.get(&name).cloned() else {
            if let Stmt::DropTable { if_exists: true, .. } = self {
                return Ok(Expect::Ddl);
            }
            return fail("no such table");
        };
        let mut n = (*t).clone();
        let col = |c: &str| t.cols.iter().position(|x| x.name == c);
        let r = match self {
            Stmt::DropTable { .. } => {
                st.tables.remove(&name);
                return Ok(Expect::Ddl);
            }
            Stmt::CreateIndex { cols, name: iname, if_not_exists, .. } => {
                if st.tables.values().any(|t| t.uniques.iter().any(|u| u.index.as_ref() == Some(iname))) {
                    return if *if_not_exists { Ok(Expect::Ddl) } else { fail("index exists") };
                }
                let mut idx = vec![];
                for c in cols {
                    match col(c) {
                        Some(i) => idx.push(i),
                        None => return fail("no such column"),
                    }
                }
                n.uniques.push(Uniq { cols: idx, pk: false, index: Some(iname.clone()) });
                Expect::Ddl
            }
            Stmt::AddColumn { col: c, .. } => {
                if col(&c.name).is_some() {
                    return fail("column exists");
                }
                n.cols.push(c.clone());
                for r in n.rows.values_mut() {
                    r.push(c.default.clone().unwrap_or(V::Null));
                }
                Expect::Ddl
            }
            Stmt::DropColumn { col: c, .. } => {
                let Some(i) = col(c) else { return fail("no such column") };
                if t.cols.len() == 1 || t.uniques.iter().any(|u| u.cols.contains(&i)) {
                    return Err(Hard("drops a column something depends on"));
                }
                n.cols.remove(i);
                for u in n.uniques.iter_mut() {
                    for k in u.cols.iter_mut() {
                        if *k > i {
                            *k -= 1;
                        }
                    }
                }
                for r in n.rows.values_mut() {
                    r.remove(i);
                }
                Expect::Ddl
            }
            Stmt::SetNotNull { col: c, on, .. } => {
                let Some(i) = col(c) else { return fail("no such column") };
                if !*on && t.uniques.iter().any(|u| u.pk && u.cols.contains(&i)) {
                    return Err(Hard("whether a primary key column may lose NOT NULL"));
                }
                n.cols[i].not_null = *on;
                Expect::Ddl
            }
            Stmt::SetDefault { col: c, v, .. } => {
                let Some(i) = col(c) else { return fail("no such column") };
                n.cols[i].default = v.clone();
                Expect::Ddl
            }
            Stmt::AddUnique { cols, pk, .. } => {
                let mut idx = vec![];
                for c in cols {
                    match col(c) {
                        Some(i) => idx.push(i),
                        None => return fail("no such column"),
                    }
                }
                if *pk && t.uniques.iter().any(|u| u.pk) {
                    return fail("a second primary key");
                }
                n.uniques.push(Uniq { cols: idx, pk: *pk, index: None });
                Expect::Ddl
            }
            Stmt::Insert { cols, rows, .. } => {
                let vals = rows.clone();
                match insert(&mut n, cols, vals)? {
                    Err(m) => return fail(&m),
                    Ok(k) => Expect::Affected(k),
                }
            }
            Stmt::InsertSelect { cols, q, .. } => {
                let o = q.eval(st)?;
                if o.may_err {
                    return Err(Hard("overflow"));
                }
                if !o.determined() {
                    return Err(Hard("LIMIT chooses between ties"));
                }
                match insert(&mut n, cols, o.final_rows()?)? {
                    Err(m) => return fail(&m),
                    Ok(k) => Expect::Affected(k),
                }
            }
            Stmt::Update { sets, filter, .. } => {
                let mut k = 0;
                let me = Cell::new(false);
                let mut idx = vec![];
                for (c, _) in sets {
                    match col(c) {
                        Some(i) => idx.push(i),
                        None => return fail("no such column"),
                    }
                }
                let mut ids = vec![];
                for (id, r) in n.rows.iter_mut() {
                    let old = r.clone();
                    let ev = Ev { row: &old, group: None, may_err: &me };
                    if let Some(f) = filter {
                        if to3(&ev.ev(f)?)? != Some(true) {
                            continue;
                        }
                    }
                    k += 1;
                    ids.push(*id);
                    for ((_, e), i) in sets.iter().zip(&idx) {
                        let v = ev.ev(e)?;
                        r[*i] = store(&v, t.cols[*i].ty).ok_or(Hard("value does not fit its column"))?;
                    }
                }
                if me.get() {
                    return Err(Hard("overflow"));
                }
                n.note_keys(&ids);
                Expect::Affected(k)
            }
            Stmt::Delete { filter, .. } => {
                let mut dead = vec![];
                let me = Cell::new(false);
                for (id, r) in &n.rows {
                    let ev = Ev { row: r, group: None, may_err: &me };
                    if match filter {
                        None => true,
                        Some(f) => to3(&ev.ev(f)?)? == Some(true),
                    } {
                        dead.push(*id);
                    }
                }
                if me.get() {
                    return Err(Hard("overflow"));
                }
                for d in &dead {
                    n.rows.remove(d);
                }
                n.note_keys(&dead);
                Expect::Affected(dead.len() as u64)
            }
            _ => unreachable!(),
        };
        if let Some(m) = n.broken() {
            // the rows it got to count as addressed
            let t = Arc::make_mut(st.tables.get_mut(&name).unwrap());
            t.touched = n.touched;
            t.keys = n.keys;
            return fail(&m);
        }
        st.tables.insert(name, Arc::new(n));
        Ok(r)
    }
}
fn col_sql(c: &Col) -> String {
    let mut s = format!("{} {}", c.name, c.ty.sql());
    if c.not_null {
        s.push_str(" NOT NULL");
    }
    if let Some(d) = &c.default {
        s.push_str(&format!(" DEFAULT {}", lit(d)));
    }
    s
}
fn insert(n: &mut Table, cols: &Option<Vec<String>>, rows: Vec<Vec<V>>) -> Result<Result<u64, String>, Hard> {
    let mut idx = vec![];
    match cols {
        None => idx.extend(0..n.cols.len()),
        Some(c) => {
            for c in c {
                match n.cols.iter().position(|x| x.name == *c) {
                    Some(i) => idx.push(i),
                    None => return Ok(Err("no such column".into())),
                }
            }
        }
    }
    let mut k = 0;
    for r in rows {
        if r.len() != idx.len() {
            return Ok(Err("wrong number of values".into()));
        }
        let mut full: Vec<V> = n.cols.iter().map(|c| c.default.clone().unwrap_or(V::Null)).collect();
        for (v, i) in r.iter().zip(&idx) {
            full[*i] = store(v, n.cols[*i].ty).ok_or(Hard("value does not fit its column"))?;
        }
        n.rows.insert(n.next, full);
        n.note_keys(&[n.next]);
        n.next += 1;
        k += 1;
    }
    Ok(Ok(k))
}

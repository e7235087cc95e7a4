//! Generators of schemas, rows, expressions, queries and statements over the reference model.
use crate::core::Src;
use crate::sqlmodel::*;

thread_local! {
    /// What the names of tables and indexes made on this thread begin with.
    static PREFIX: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn set_prefix(p: &str) {
    PREFIX.with(|x| *x.borrow_mut() = p.into());
}
pub fn named(kind: &str, n: usize) -> String {
    PREFIX.with(|x| format!("{}{kind}{n}", x.borrow()))
}

pub const TEXTS: &[&str] = &["", "a", "ab", "abc", "b", "B", "ba", "é", "a%", "x_y", "it''s", "  pad ", "zz", "Straße", "日本", "A", "0", "10"];

pub fn value(src: &Src, ty: Ty) -> V {
    match ty {
        Ty::Int | Ty::BigInt => match src.weighted(&[80, 14, 4, 2]) {
            0 => V::Int(src.range(-3, 8) as i128),
            1 => V::Int(src.range(-900, 900) as i128),
            2 => V::Int(src.range(-70000, 70000) as i128),
            _ => V::Int(if ty == Ty::Int { *src.pick(&[i32::MAX as i128, i32::MIN as i128]) } else { *src.pick(&[1i128 << 40, -(1i128 << 33)]) }),
        },
        Ty::UInt | Ty::BigUInt => match src.weighted(&[80, 16, 4]) {
            0 => V::Int(src.range(0, 9) as i128),
            1 => V::Int(src.range(0, 900) as i128),
            _ => V::Int(if ty == Ty::UInt { u32::MAX as i128 } else { 1i128 << 41 }),
        },
        Ty::Float | Ty::Double => match src.weighted(&[70, 30]) {
            0 => V::F(src.range(-6, 12) as f64 * 0.5),
            _ => V::F(src.range(-200, 200) as f64 * 0.25),
        },
        Ty::Text => match src.weighted(&[86, 10, 4]) {
            0 => V::S(src.pick(TEXTS).to_string()),
            1 => V::S((0..src.usize(6)).map(|_| *src.pick(&['a', 'b', 'c', '%', '_', 'é', ' '])).collect()),
            _ => V::S(["ab", "é", "xyz"][src.usize(3)].repeat(1 + src.usize(900))),
        },
        Ty::Bool => V::Bool(src.chance(1, 2)),
    }
}
/// A value not likely to be taken: spread over `n`.
pub fn fresh(src: &Src, ty: Ty, n: u64) -> V {
    match ty {
        Ty::Int | Ty::BigInt => V::Int(n as i128 + 10),
        Ty::UInt | Ty::BigUInt => V::Int(n as i128 + 10),
        Ty::Float | Ty::Double => V::F(n as f64 * 0.5 + 7.0),
        Ty::Text => V::S(format!("k{n}")),
        Ty::Bool => value(src, ty),
    }
}

#[derive(Clone, Copy)]
pub struct SchemaOpts {
    pub max_cols: usize,
    pub uniques: bool,
    pub not_null: bool,
    pub defaults: bool,
}
pub const FULL: SchemaOpts = SchemaOpts { max_cols: 5, uniques: true, not_null: true, defaults: true };

pub fn column(src: &Src, name: &str, o: &SchemaOpts) -> Col {
    let ty = [Ty::Int, Ty::BigInt, Ty::Text, Ty::Double, Ty::Bool, Ty::UInt, Ty::Float, Ty::BigUInt][src.weighted(&[30, 16, 20, 10, 8, 6, 6, 4])];
    let not_null = o.not_null && src.chance(1, 5);
    let default = if o.defaults && src.chance(1, 5) { Some(value(src, ty)) } else { None };
    Col { name: name.into(), ty, not_null, default }
}
pub fn table(src: &Src, name: &str, o: &SchemaOpts) -> Table {
    let n = 1 + src.usize(o.max_cols);
    let cols: Vec<Col> = (0..n).map(|i| column(src, &format!("c{i}"), o)).collect();
    let mut uniques = vec![];
    if o.uniques {
        for k in 0..src.weighted(&[40, 45, 15]) {
            let mut c: Vec<usize> = vec![src.usize(n)];
            if n > 1 && src.chance(1, 3) {
                let d = src.usize(n);
                if d != c[0] {
                    c.push(d);
                }
            }
            if c.iter().all(|i| cols[*i].ty == Ty::Bool) {
                continue;
            }
            uniques.push(Uniq { cols: c, pk: k == 0 && src.chance(1, 2), index: None });
        }
    }
    Table { name: name.into(), cols, uniques, rows: Default::default(), next: 1, touched: Default::default(), keys: Default::default() }
}
pub fn row(src: &Src, t: &Table, k: u64) -> Vec<V> {
    t.cols
        .iter()
        .enumerate()
        .map(|(i, c)| {
            let uniq = t.uniques.iter().any(|u| u.cols[0] == i);
            if !t.must_not_null(i) && src.chance(1, 8) {
                V::Null
            } else if t.must_not_null(i) && src.chance(1, 60) {
                V::Null
            } else if uniq && src.chance(4, 5) {
                fresh(src, c.ty, k)
            } else {
                value(src, c.ty)
            }
        })
        .collect()
}

// ------------------------------------------------------------------ expressions

pub struct Leaf {
    pub e: E,
    pub cls: Cls,
    pub uns: bool,
}
pub struct Xg<'a> {
    pub src: &'a Src,
    pub leaves: Vec<Leaf>,
}
pub fn leaves_of(scope: &[SCol]) -> Vec<Leaf> {
    scope.iter().enumerate().map(|(i, c)| Leaf { e: E::Col(i), cls: c.cls, uns: matches!(c.ty, Some(Ty::UInt | Ty::BigUInt) | None) }).collect()
}
impl Xg<'_> {
    fn is_uns(&self, e: &E) -> bool {
        if let Some(l) = self.leaves.iter().find(|l| l.e == *e) {
            return l.uns;
        }
        match e {
            E::Lit(_) => false,
            E::Col(_) | E::Agg(..) => true,
            E::Neg(x) | E::Not(x) | E::IsNull(x, _) => self.is_uns(x),
            E::Bin(_, a, b) | E::Like(a, b, _) => self.is_uns(a) || self.is_uns(b),
            E::Between(..) | E::In(..) => false,
            E::Case(_, w, d) => w.iter().any(|(_, t)| self.is_uns(t)) || d.as_ref().is_some_and(|d| self.is_uns(d)),
            E::Fun(_, a) => a.iter().any(|x| self.is_uns(x)),
        }
    }
    fn cls(&self, e: &E) -> Cls {
        if let Some(l) = self.leaves.iter().find(|l| l.e == *e) {
            return l.cls;
        }
        match e {
            E::Bin(op @ (Op::Add | Op::Sub | Op::Mul | Op::Div | Op::Mod), a, b) => {
                let _ = op;
                match (self.cls(a), self.cls(b)) {
                    (Cls::Flt, _) | (_, Cls::Flt) => Cls::Flt,
                    (Cls::Int, Cls::Int) => Cls::Int,
                    _ => Cls::Num,
                }
            }
            E::Neg(x) => self.cls(x),
            E::Fun(Fun::Length, _) => Cls::Int,
            E::Fun(Fun::Sqrt, _) => Cls::Flt,
            E::Fun(Fun::Abs | Fun::Round | Fun::Ceil | Fun::Floor | Fun::NullIf, a) => self.cls(&a[0]),
            E::Lit(V::Int(_)) => Cls::Int,
            E::Lit(V::F(_)) => Cls::Flt,
            _ => Cls::Num,
        }
    }
    fn leaf(&self, want: Cls) -> Option<E> {
        let c: Vec<&Leaf> = self.leaves.iter().filter(|l| l.cls == want || (want == Cls::Num && l.cls.numeric())).collect();
        if c.is_empty() { None } else { Some(self.src.pick(&c).e.clone()) }
    }
    pub fn literal(&self, want: Cls) -> E {
        let src = self.src;
        if src.chance(1, 40) {
            return E::Lit(V::Null);
        }
        E::Lit(match want {
            Cls::Int => value(src, Ty::Int),
            Cls::Flt => value(src, Ty::Double),
            Cls::Num => {
                if src.chance(1, 4) { value(src, Ty::Double) } else { value(src, Ty::Int) }
            }
            Cls::Text => V::S(src.pick(TEXTS).to_string()),
            Cls::Bool => V::Bool(src.chance(1, 2)),
        })
    }
    fn atom(&self, want: Cls) -> E {
        if self.src.chance(2, 3) {
            if let Some(e) = self.leaf(want) {
                return e;
            }
        }
        self.literal(want)
    }
    pub fn num(&self, depth: usize) -> E {
        let src = self.src;
        if depth == 0 || src.chance(1, 3) {
            return self.atom(Cls::Num);
        }
        match src.weighted(&[30, 18, 10, 10, 8, 8, 8, 8]) {
            0 => bin(Op::Add, self.num(depth - 1), self.num(depth - 1)),
            1 => {
                let (a, b) = (self.num(depth - 1), self.num(depth - 1));
                if self.is_uns(&a) && self.is_uns(&b) { bin(Op::Add, a, b) } else { bin(Op::Sub, a, b) }
            }
            2 => bin(Op::Mul, self.num(depth - 1), self.atom(Cls::Num)),
            3 => {
                // both sides of one kind, divisor a power of two or an integer: exact in every width
                let a = self.num(depth - 1);
                match self.cls(&a) {
                    Cls::Int => {
                        let d = if src.chance(1, 12) { self.atom(Cls::Int) } else { E::Lit(V::Int(*src.pick(&[2, 3, -2, 5, 1]))) };
                        bin(if src.chance(1, 2) { Op::Div } else { Op::Mod }, a, d)
                    }
                    Cls::Flt => bin(Op::Div, a, E::Lit(V::F(*src.pick(&[2.0, 0.5, 4.0, -2.0])))),
                    _ => a,
                }
            }
            4 => {
                let a = self.num(depth - 1);
                if self.is_uns(&a) { a } else { E::Neg(bx(a)) }
            }
            5 => E::Fun(*src.pick(&[Fun::Abs, Fun::Round, Fun::Ceil, Fun::Floor]), vec![self.num(depth - 1)]),
            6 => self.case(Cls::Num, depth),
            _ => match src.usize(4) {
                0 => E::Fun(Fun::Length, vec![self.text(depth - 1)]),
                1 => E::Fun(Fun::NullIf, vec![self.num(depth - 1), self.atom(Cls::Num)]),
                2 => E::Fun(Fun::Sqrt, vec![E::Fun(Fun::Abs, vec![self.atom(Cls::Num)])]),
                _ => E::Fun(Fun::Coalesce, (0..1 + src.usize(3)).map(|_| self.num(depth - 1)).collect()),
            },
        }
    }
    fn case(&self, want: Cls, depth: usize) -> E {
        let src = self.src;
        let n = 1 + src.usize(2);
        let d = depth.saturating_sub(1);
        let by_operand = src.chance(1, 3);
        let operand = if by_operand { Some(bx(self.any(*src.pick(&[Cls::Int, Cls::Text]), d))) } else { None };
        let oc = operand.as_ref().map(|o| if self.cls_text(o) { Cls::Text } else { Cls::Num });
        let w = (0..n)
            .map(|_| {
                let c = match oc {
                    Some(c) => self.atom(c),
                    None => self.pred(d),
                };
                (c, self.any(want, d))
            })
            .collect();
        let e = if src.chance(2, 3) { Some(bx(self.any(want, d))) } else { None };
        E::Case(operand, w, e)
    }
    fn cls_text(&self, e: &E) -> bool {
        if let Some(l) = self.leaves.iter().find(|l| l.e == *e) {
            return l.cls == Cls::Text;
        }
        match e {
            E::Lit(V::S(_)) => true,
            E::Bin(Op::Concat, ..) => true,
            E::Fun(Fun::Upper | Fun::Lower | Fun::LTrim | Fun::RTrim | Fun::Concat, _) => true,
            E::Fun(Fun::Coalesce | Fun::NullIf, a) => a.iter().any(|x| self.cls_text(x)),
            E::Case(_, w, d) => w.iter().any(|x| self.cls_text(&x.1)) || d.as_ref().is_some_and(|d| self.cls_text(d)),
            _ => false,
        }
    }
    pub fn text(&self, depth: usize) -> E {
        let src = self.src;
        if depth == 0 || src.chance(1, 2) {
            return self.atom(Cls::Text);
        }
        match src.usize(5) {
            0 => bin(Op::Concat, self.text(depth - 1), self.text(depth - 1)),
            1 => E::Fun(*src.pick(&[Fun::Upper, Fun::Lower, Fun::LTrim, Fun::RTrim]), vec![self.text(depth - 1)]),
            2 => E::Fun(Fun::Concat, (0..1 + src.usize(3)).map(|_| self.text(depth - 1)).collect()),
            3 => self.case(Cls::Text, depth),
            _ => E::Fun(Fun::Coalesce, vec![self.text(depth - 1), self.atom(Cls::Text)]),
        }
    }
    pub fn any(&self, want: Cls, depth: usize) -> E {
        match want {
            Cls::Text => self.text(depth),
            Cls::Bool => self.pred(depth),
            _ => self.num(depth),
        }
    }
    /// The comparison forms an index could serve.
    fn sargable(&self) -> Option<E> {
        let src = self.src;
        if self.leaves.is_empty() {
            return None;
        }
        let l = src.pick(&self.leaves);
        if l.cls == Cls::Bool {
            return Some(bin(Op::Eq, l.e.clone(), self.literal(Cls::Bool)));
        }
        let op = *src.pick(&[Op::Eq, Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Eq]);
        let v = if l.cls == Cls::Int && src.chance(1, 3) { E::Lit(V::Int(src.range(8, 60) as i128)) } else { self.literal(l.cls) };
        Some(match src.usize(8) {
            0 => E::Between(bx(l.e.clone()), bx(v), bx(self.literal(l.cls)), false),
            1 => bin(op, v, l.e.clone()),
            2 => bin(Op::And, bin(Op::Ge, l.e.clone(), v), bin(Op::Lt, l.e.clone(), self.literal(l.cls))),
            _ => bin(op, l.e.clone(), v),
        })
    }
    pub fn pred(&self, depth: usize) -> E {
        let src = self.src;
        if src.chance(1, 3) {
            if let Some(e) = self.sargable() {
                return e;
            }
        }
        if depth > 0 {
            match src.weighted(&[18, 14, 10, 58]) {
                0 => return bin(Op::And, self.pred(depth - 1), self.pred(depth - 1)),
                1 => return bin(Op::Or, self.pred(depth - 1), self.pred(depth - 1)),
                2 => return E::Not(bx(self.pred(depth - 1))),
                _ => {}
            }
        }
        let d = depth.min(2);
        match src.weighted(&[40, 12, 10, 10, 8, 6, 3]) {
            0 => {
                let op = *src.pick(&[Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge]);
                match src.weighted(&[70, 25, 5]) {
                    0 => bin(op, self.num(d), self.num(d)),
                    1 => bin(op, self.text(d), self.text(d)),
                    _ => bin(if src.chance(1, 2) { Op::Eq } else { Op::Ne }, self.atom(Cls::Bool), self.atom(Cls::Bool)),
                }
            }
            1 => {
                let c = *src.pick(&[Cls::Num, Cls::Text, Cls::Bool, Cls::Num]);
                E::IsNull(bx(if src.chance(1, 2) { self.leaf(c).unwrap_or_else(|| self.any(c, d)) } else { self.any(c, d) }), src.chance(1, 2))
            }
            2 => {
                let c = *src.pick(&[Cls::Num, Cls::Num, Cls::Text]);
                E::Between(bx(self.any(c, d)), bx(self.any(c, d.min(1))), bx(self.any(c, d.min(1))), src.chance(1, 3))
            }
            3 => {
                let c = *src.pick(&[Cls::Num, Cls::Text]);
                E::In(bx(self.any(c, d)), (0..1 + src.usize(4)).map(|_| self.atom(c)).collect(), src.chance(1, 3))
            }
            4 => {
                let p = if src.chance(1, 10) {
                    self.text(0)
                } else {
                    E::Lit(V::S(match src.usize(7) {
                        0 => "%a%".into(),
                        1 => "a%".into(),
                        2 => "%b".into(),
                        3 => "_b%".into(),
                        4 => "___".into(),
                        5 => "%".into(),
                        _ => (0..src.usize(5)).map(|_| *src.pick(&['a', 'b', '%', '_', 'é'])).collect(),
                    }))
                };
                E::Like(bx(self.text(d.min(1))), bx(p), src.chance(1, 3))
            }
            5 => self.leaf(Cls::Bool).unwrap_or(E::Lit(V::Bool(true))),
            _ => E::Lit(src.pick(&[V::Bool(true), V::Bool(false), V::Null]).clone()),
        }
    }
}

// ------------------------------------------------------------------ queries

#[derive(Clone, Copy)]
pub struct QOpts {
    pub max_joins: usize,
    pub nested: usize,
    pub max_product: usize,
}
pub const QFULL: QOpts = QOpts { max_joins: 3, nested: 2, max_product: 6000 };

/// Upper bound of the row combinations a FROM clause has.
pub fn weight(f: &From, st: &State, with: &[(String, Query)]) -> usize {
    match f {
        From::None => 1,
        From::Table { name, .. } => match st.t(name) {
            Some(t) => t.rows.len().max(1),
            None => with.iter().find(|w| w.0 == *name).map_or(1, |w| weight(&w.1.from, st, with)),
        },
        From::Sub { q, .. } => weight(&q.from, st, with),
        From::Join { l, r, .. } => weight(l, st, with).saturating_mul(weight(r, st, with)),
    }
}
fn base(src: &Src, st: &State, ctes: &[String], with: &[(String, Query)], o: &QOpts, k: &mut usize) -> (From, usize) {
    *k += 1;
    let alias = format!("r{k}");
    if o.nested > 0 && src.chance(1, 10) {
        let mut q = query_in(src, st, &[], &QOpts { max_joins: 1, nested: o.nested - 1, max_product: 400 });
        name_items(&mut q, &format!("s{k}n{}c", o.nested));
        let n = weight(&q.from, st, &[]);
        return (From::Sub { q: Box::new(q), alias }, n);
    }
    if !ctes.is_empty() && src.chance(1, 2) {
        let f = From::Table { name: src.pick(ctes).clone(), alias: Some(alias) };
        let n = weight(&f, st, with);
        return (f, n);
    }
    let names: Vec<&String> = st.tables.keys().collect();
    if names.is_empty() {
        return (From::None, 1);
    }
    let n = src.pick(&names).to_string();
    let rows = st.t(&n).unwrap().rows.len();
    (From::Table { name: n, alias: Some(alias) }, rows.max(1))
}
/// Every output column gets a name of its own.
fn name_items(q: &mut Query, prefix: &str) {
    q.star = false;
    for (i, it) in q.items.iter_mut().enumerate() {
        it.alias = Some(format!("{prefix}{i}"));
    }
}
/// Written as a bare constant, which ORDER BY and GROUP BY may read as a position.
fn constant(e: &E) -> bool {
    match e {
        E::Lit(_) => true,
        E::Neg(x) => constant(x),
        _ => false,
    }
}
pub fn query(src: &Src, st: &State, o: &QOpts) -> Query {
    query_in(src, st, &[], o)
}
fn query_in(src: &Src, st: &State, outer: &[String], o: &QOpts) -> Query {
    let mut q = Query::simple(From::None);
    q.full_parens = src.chance(1, 2);
    q.qualify = src.chance(1, 3);
    let mut ctes: Vec<String> = outer.to_vec();
    if o.nested > 1 && outer.is_empty() && src.chance(1, 12) {
        for i in 0..1 + src.usize(2) {
            let mut c = query_in(src, st, &[], &QOpts { max_joins: 1, nested: 0, max_product: 400 });
            name_items(&mut c, &format!("w{i}c"));
            let n = format!("w{i}");
            q.with.push((n.clone(), c));
            ctes.push(n);
        }
    }
    let mut k = 0;
    if !src.chance(1, 40) {
        let (f, n) = base(src, st, &ctes, &q.with, o, &mut k);
        let mut product = n;
        let mut f = f;
        let joins = if o.max_joins == 0 { 0 } else { src.weighted(&[45, 33, 15, 7]).min(o.max_joins) };
        if joins == 0 && src.chance(2, 3) {
            if let From::Table { name, alias } = &mut f {
                if !ctes.contains(name) {
                    *alias = None;
                }
            }
        }
        // the scope of names so far, with the CTEs of this query
        let cte_cols = |st: &State, q: &Query| -> Ctes {
            let mut c: Ctes = vec![];
            for (n, s) in &q.with {
                c.push((n.clone(), s.out_cols(st, &c), vec![]));
            }
            c
        };
        let cc = cte_cols(st, &q);
        for _ in 0..joins {
            let (r, n) = base(src, st, &ctes, &q.with, o, &mut k);
            if matches!(r, From::None) || matches!(f, From::None) || product * n > o.max_product {
                continue;
            }
            product *= n;
            let mut kind = [Join::Inner, Join::Left, Join::Right, Join::Full, Join::Cross, Join::Comma][src.weighted(&[40, 22, 10, 8, 6, 8])];
            if kind == Join::Comma && matches!(f, From::Join { .. }) {
                kind = Join::Cross;
            }
            let on = if matches!(kind, Join::Cross | Join::Comma) {
                None
            } else {
                let (ls, rs) = (f.scope(st, &cc), r.scope(st, &cc));
                let mut both = ls.clone();
                both.extend(rs.iter().cloned());
                let g = Xg { src, leaves: leaves_of(&both) };
                let mut pairs = vec![];
                for (i, a) in ls.iter().enumerate() {
                    for (j, b) in rs.iter().enumerate() {
                        if a.cls == b.cls || (a.cls.numeric() && b.cls.numeric() && src.chance(1, 3)) {
                            pairs.push((i, ls.len() + j));
                        }
                    }
                }
                let eq = |p: &(usize, usize)| if src.chance(1, 4) { bin(Op::Eq, E::Col(p.1), E::Col(p.0)) } else { bin(Op::Eq, E::Col(p.0), E::Col(p.1)) };
                Some(if pairs.is_empty() || src.chance(1, 6) {
                    g.pred(1)
                } else {
                    let mut e = eq(src.pick(&pairs));
                    if src.chance(1, 5) {
                        e = bin(Op::And, e, eq(src.pick(&pairs)));
                    }
                    if src.chance(1, 4) {
                        e = if src.chance(1, 5) { bin(Op::Or, e, g.pred(1)) } else if src.chance(1, 2) { bin(Op::And, g.pred(1), e) } else { bin(Op::And, e, g.pred(1)) };
                    }
                    e
                })
            };
            f = From::Join { l: Box::new(f), kind, r: Box::new(r), on };
        }
        q.from = f;
    }
    let mut cc: Ctes = vec![];
    for (n, s) in &q.with {
        let cols = s.out_cols(st, &cc);
        cc.push((n.clone(), cols, vec![]));
    }
    let scope = q.from.scope(st, &cc);
    let g = Xg { src, leaves: leaves_of(&scope) };
    if src.chance(3, 5) && !scope.is_empty() {
        q.filter = Some(g.pred(2));
    }
    let classes = [Cls::Num, Cls::Text, Cls::Bool];
    let grouped = !scope.is_empty() && src.chance(1, 4);
    let out = if grouped {
        for _ in 0..src.weighted(&[25, 50, 25]) {
            let e = if src.chance(3, 4) { E::Col(src.usize(scope.len())) } else { g.any(*src.pick(&classes), 1) };
            if !constant(&e) && !q.group.contains(&e) {
                q.group.push(e);
            }
        }
        let mut leaves: Vec<Leaf> = q.group.iter().map(|e| Leaf { e: e.clone(), cls: cls_of(e, &scope), uns: true }).collect();
        for _ in 0..1 + src.usize(3) {
            let a = match src.weighted(&[25, 20, 20, 10, 15, 15]) {
                0 => E::Agg(Agg::Count, false, None),
                1 => E::Agg(Agg::Count, src.chance(1, 3), Some(bx(g.any(*src.pick(&classes), 1)))),
                2 => E::Agg(Agg::Sum, src.chance(1, 6), Some(bx(g.num(1)))),
                3 => E::Agg(Agg::Avg, src.chance(1, 6), Some(bx(g.num(1)))),
                4 => E::Agg(Agg::Min, false, Some(bx(g.any(*src.pick(&classes[..2]), 1)))),
                _ => E::Agg(Agg::Max, false, Some(bx(g.any(*src.pick(&classes[..2]), 1)))),
            };
            let cls = cls_of(&a, &scope);
            leaves.push(Leaf { e: a, cls, uns: true });
        }
        let n = leaves.len();
        let h = Xg { src, leaves };
        if src.chance(1, 4) {
            q.having = Some(h.pred(1));
        }
        q.star = false;
        for _ in 0..1 + src.usize(4) {
            let e = if src.chance(3, 4) { h.leaves[src.usize(n)].e.clone() } else { h.any(*src.pick(&classes), 1) };
            q.items.push(Item { e, alias: None });
        }
        // without GROUP BY something has to be an aggregate for the query to be grouped
        if q.group.is_empty() && !q.grouped() {
            q.items.push(Item { e: E::Agg(Agg::Count, false, None), alias: None });
        }
        h
    } else {
        q.star = !scope.is_empty() && src.chance(1, 3);
        let n = 1 + src.usize(4);
        if !q.star {
            for _ in 0..n {
                let e = if !scope.is_empty() && src.chance(3, 5) { E::Col(src.usize(scope.len())) } else { g.any(*src.pick(&classes), 2) };
                q.items.push(Item { e, alias: None });
            }
        } else {
            // kept for uses that need named items
            q.items = (0..scope.len()).map(|i| Item { e: E::Col(i), alias: None }).collect();
        }
        g
    };
    for (i, it) in q.items.iter_mut().enumerate() {
        if src.chance(1, 4) && !q.star {
            it.alias = Some(format!("y{i}"));
        }
    }
    q.distinct = src.chance(1, 8);
    if src.chance(2, 5) {
        for _ in 0..1 + src.usize(2) {
            let desc = src.chance(1, 2);
            let i = src.usize(q.items.len());
            let o = if q.distinct || src.chance(3, 5) {
                let as_ = if !q.star && q.items[i].alias.is_some() && src.chance(1, 2) {
                    OrderAs::Alias
                } else if src.chance(1, 3) || constant(&q.items[i].e) {
                    OrderAs::Ordinal
                } else {
                    OrderAs::Expr
                };
                Order { e: q.items[i].e.clone(), desc, as_, item: i }
            } else {
                let e = if src.chance(1, 2) && !out.leaves.is_empty() { src.pick(&out.leaves).e.clone() } else { out.any(*src.pick(&classes), 1) };
                if constant(&e) {
                    continue;
                }
                Order { e, desc, as_: OrderAs::Expr, item: 0 }
            };
            q.order.push(o);
        }
    }
    if src.chance(1, 5) {
        q.limit = Some(*src.pick(&[3, 0, 1, 2, 5, 10, 1000]));
    }
    if src.chance(1, 8) {
        q.offset = Some(*src.pick(&[1, 0, 2, 5, 1000]));
    }
    q
}

// ------------------------------------------------------------------ statements

pub fn pick_table<'a>(src: &Src, st: &'a State) -> Option<&'a Table> {
    let n: Vec<&String> = st.tables.keys().collect();
    if n.is_empty() { None } else { st.t(src.pick(&n)) }
}
pub fn table_scope(t: &Table) -> Vec<SCol> {
    t.cols.iter().map(|c| SCol { qual: t.name.clone(), name: c.name.clone(), cls: c.ty.class(), ty: Some(c.ty) }).collect()
}
pub fn insert(src: &Src, t: &Table, n: usize) -> Stmt {
    let cols: Option<Vec<usize>> = if src.chance(1, 4) {
        let mut v: Vec<usize> = (0..t.cols.len()).filter(|i| t.must_not_null(*i) && t.cols[*i].default.is_none() || src.chance(2, 3)).collect();
        if v.is_empty() {
            v.push(0);
        }
        if v.len() > 1 && src.chance(1, 3) {
            let k = v.len();
            v.swap(0, k - 1);
        }
        Some(v)
    } else {
        None
    };
    let rows = (0..n)
        .map(|i| {
            let r = row(src, t, t.next + i as u64);
            match &cols {
                None => r,
                Some(c) => c.iter().map(|i| r[*i].clone()).collect(),
            }
        })
        .collect();
    Stmt::Insert { table: t.name.clone(), cols: cols.map(|c| c.into_iter().map(|i| t.cols[i].name.clone()).collect()), rows }
}
/// A condition that tends to address few rows.
pub fn where_(src: &Src, t: &Table) -> Option<E> {
    let scope = table_scope(t);
    let g = Xg { src, leaves: leaves_of(&scope) };
    match src.weighted(&[10, 50, 40]) {
        0 => None,
        1 if !t.rows.is_empty() => {
            // some column equal to a value it holds
            let ids: Vec<&u64> = t.rows.keys().collect();
            let r = &t.rows[*src.pick(&ids)];
            let c = src.usize(t.cols.len());
            Some(if r[c] == V::Null { E::IsNull(bx(E::Col(c)), false) } else { bin(*src.pick(&[Op::Eq, Op::Eq, Op::Eq, Op::Le, Op::Gt]), E::Col(c), E::Lit(r[c].clone())) })
        }
        _ => Some(g.pred(1)),
    }
}
pub fn update(src: &Src, t: &Table) -> Stmt {
    let scope = table_scope(t);
    let g = Xg { src, leaves: leaves_of(&scope) };
    let mut sets: Vec<(String, E)> = vec![];
    for _ in 0..1 + src.weighted(&[65, 25, 10]) {
        let c = src.usize(t.cols.len());
        let col = &t.cols[c];
        if sets.iter().any(|s| s.0 == col.name) {
            continue;
        }
        let e = match src.weighted(&[45, 40, 15]) {
            0 => E::Lit(if src.chance(1, 12) { V::Null } else if src.chance(1, 2) { value(src, col.ty) } else { fresh(src, col.ty, t.next + src.below(5)) }),
            1 if col.ty.class() == Cls::Int => bin(*src.pick(&[Op::Add, Op::Add, Op::Sub, Op::Mul]), E::Col(c), E::Lit(V::Int(src.range(1, 3) as i128))),
            1 if col.ty.class() == Cls::Text => bin(Op::Concat, E::Col(c), E::Lit(V::S(if src.chance(1, 10) { "long".repeat(1 + src.usize(400)) } else { "x".into() }))),
            1 => E::Col(c),
            _ => g.any(col.ty.class(), 1),
        };
        sets.push((col.name.clone(), e));
    }
    Stmt::Update { table: t.name.clone(), sets, filter: where_(src, t), full: src.chance(1, 2) }
}
pub fn delete(src: &Src, t: &Table) -> Stmt {
    Stmt::Delete { table: t.name.clone(), filter: where_(src, t), full: src.chance(1, 2) }
}
pub fn dml(src: &Src, st: &State) -> Option<Stmt> {
    let t = pick_table(src, st)?;
    Some(match src.weighted(&[42, 30, 16, 6, 6]) {
        0 => insert(src, t, 1 + src.weighted(&[60, 20, 12, 8])),
        1 => update(src, t),
        2 => delete(src, t),
        3 => insert(src, t, 8 + src.usize(30)),
        _ => {
            // INSERT ... SELECT from a table with as many columns, or of plain columns of fitting types
            let from = pick_table(src, st)?;
            if from.rows.len() > 60 {
                return Some(update(src, t));
            }
            let mut q = Query::table(&from.name);
            q.star = false;
            let scope = table_scope(from);
            let g = Xg { src, leaves: leaves_of(&scope) };
            for (i, c) in t.cols.iter().enumerate() {
                let cand: Vec<usize> = (0..from.cols.len()).filter(|j| from.cols[*j].ty == c.ty).collect();
                let e = if cand.is_empty() || src.chance(1, 5) {
                    match c.ty.class() {
                        Cls::Int => E::Lit(value(src, Ty::UInt)),
                        k => g.any(k, 1),
                    }
                } else {
                    E::Col(*src.pick(&cand))
                };
                let e = if c.ty.class() == Cls::Int && t.uniques.iter().any(|u| u.cols[0] == i) && matches!(e, E::Col(_)) { bin(Op::Add, e, E::Lit(V::Int(1000))) } else { e };
                q.items.push(Item { e, alias: None });
            }
            if src.chance(2, 3) {
                q.filter = Some(g.pred(1));
            }
            Stmt::InsertSelect { table: t.name.clone(), cols: None, q }
        }
    })
}
pub fn ddl(src: &Src, st: &State, max_tables: usize) -> Option<Stmt> {
    let fresh_name = |p: &str| named(p, src.usize(6));
    if st.tables.is_empty() {
        return Some(Stmt::CreateTable { t: table(src, &fresh_name("t"), &FULL), if_not_exists: false });
    }
    let t = pick_table(src, st)?;
    let c = t.cols[src.usize(t.cols.len())].clone();
    let some_cols = || {
        let mut v = vec![t.cols[src.usize(t.cols.len())].name.clone()];
        if src.chance(1, 3) {
            let d = t.cols[src.usize(t.cols.len())].name.clone();
            if d != v[0] {
                v.push(d);
            }
        }
        v
    };
    Some(match src.weighted(&[22, 10, 22, 14, 8, 10, 6, 8]) {
        0 if st.tables.len() < max_tables || src.chance(1, 4) => Stmt::CreateTable { t: table(src, &fresh_name("t"), &FULL), if_not_exists: src.chance(1, 6) },
        0 | 1 => {
            if src.chance(1, 8) {
                Stmt::DropTable { name: fresh_name("t"), if_exists: src.chance(1, 2) }
            } else {
                Stmt::DropTable { name: t.name.clone(), if_exists: src.chance(1, 6) }
            }
        }
        2 => Stmt::CreateIndex { table: t.name.clone(), name: fresh_name("i"), cols: some_cols(), if_not_exists: src.chance(1, 8) },
        3 => Stmt::AddColumn { table: t.name.clone(), col: column(src, &format!("c{}", src.usize(8)), &SchemaOpts { not_null: src.chance(1, 5), ..FULL }) },
        4 => Stmt::DropColumn { table: t.name.clone(), col: c.name },
        5 => Stmt::SetNotNull { table: t.name.clone(), col: c.name, on: src.chance(2, 3) },
        6 => Stmt::SetDefault { table: t.name.clone(), v: if src.chance(2, 3) { Some(value(src, c.ty)) } else { None }, col: c.name },
        _ => Stmt::AddUnique { table: t.name.clone(), cols: some_cols(), pk: src.chance(1, 4) },
    })
}
/// Statements that parse or bind wrongly, or ask for what is not there.
pub fn bad(src: &Src, st: &State) -> Stmt {
    let t = pick_table(src, st);
    let (tn, cn, n) = t.map(|t| (t.name.clone(), t.cols[0].name.clone(), t.cols.len())).unwrap_or(("nosuch".into(), "c0".into(), 1));
    Stmt::Bad(match src.usize(16) {
        0 => "SELECT * FROM nosuch".into(),
        1 => format!("SELECT nope FROM {tn}"),
        2 => format!("INSERT INTO {tn} VALUES ({})", vec!["1"; n + 1].join(", ")),
        3 => format!("UPDATE {tn} SET nope = 1"),
        4 => format!("DELETE FROM {tn} WHERE nope = 1"),
        5 => format!("SELECT {cn} FROM {tn} WHERE"),
        6 => format!("SELECT {cn} FROM {tn} GROUP BY"),
        7 => "SELEC 1".into(),
        8 => format!("INSERT INTO {tn} (nope) VALUES (1)"),
        9 => format!("ALTER TABLE {tn} DROP COLUMN nope"),
        10 => "DROP TABLE nosuch".into(),
        11 => format!("CREATE UNIQUE INDEX zz ON {tn} (nope)"),
        12 => format!("SELECT COUNT(*) FROM {tn} WHERE COUNT(*) > 1"),
        13 => format!("SELECT * FROM {tn} x JOIN {tn} y ON nope = 1"),
        14 => "UPDATE nosuch SET a = 1".into(),
        _ => "".into(),
    })
}

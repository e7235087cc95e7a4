//! C16: any string is answered, and an error changes nothing.
use crate::ensure;
use crate::{core::*, db::*, hist::*, sqlgen, sqlmodel::*};
use axmosdb::DBConfig;

pub struct C16;
impl Property for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "one case = a generated database and up to 30 strings executed on it (autocommit, in sessions, in batches, EXPLAIN): generated statements of the whole dialect mutated at token, expression and byte level, type-confused templates, extreme literals, sizes and nesting, arbitrary characters; every call returns (a call that blocks is a violation), no thread panics, and after an error every table reads as before it, in the same session and from outside; what a dropped session did is gone. Non-trivial: an error other than a parse error, or a statement that took effect"
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["strings name at most 6 tables of at most 6 rows (2 of up to 60), so that the work asked for is small".into()]
    }
    fn plan(&self, thorough: bool) -> Plan {
        Plan { cases: if thorough { 500_000 } else { 40_000 }, batch: 20, timeout_s: 60, shrink_s: 60, workers: 8, budget_s: if thorough { 2400 } else { 240 } }
    }
    fn run_case(&self, src: &mut Src, cx: &mut Cx) -> Res {
        let src = &*src;
        let mut w = World::new(cx, DBConfig::new(4096, 3000, 1 + src.usize(2), 3, 2))?;
        let big = src.chance(1, 10);
        w.fill(src, cx, src.usize(4), if big { 60 } else { *src.pick(&[6, 6, 0]) })?;
        let weights = W { dml: 4, ddl: 12, bad: 0, select: 0, sess: 6, batch: 4, vacuum: 2, reopen: 2, analyze: 2, flush: 0 };
        if !big {
            for _ in 0..src.usize(4) {
                if w.st.tables.values().map(|t| t.rows.len()).max().unwrap_or(0) <= 6 {
                    w.op(src, cx, &weights)?;
                }
            }
        }
        let refs = if w.st.tables.values().any(|t| t.rows.len() > 12) { 2 } else { 6 };
        let g = Gen { src, st: &w.st, refs };
        let names: Vec<String> = w.st.tables.keys().cloned().chain((0..4).map(|i| format!("t{i}"))).chain(["u".to_string(), "v".to_string()]).collect();
        let db = w.db();
        let mut base = dump(&names, &mut |q| exec(db, q))?;
        for _ in 0..2 + src.usize(8) {
            match src.weighted(&[6, 5, 1, 1]) {
                0 => {
                    // in a session that is given up
                    let mut s = db.session().map_err(err("session"))?;
                    cx.log("-- BEGIN");
                    let mut inner = base.clone();
                    for _ in 0..1 + src.usize(6) {
                        let (class, q) = g.string();
                        cx.log(cut(&q));
                        let got = sess(&mut s, &q);
                        seen(cx, class, &got)?;
                        let now = dump(&names, &mut |q| sess(&mut s, q))?;
                        if !matches!(got, Ok(Out::Affected(_)) | Ok(Out::Ddl(_))) {
                            same(&inner, &now, &format!("after {}, in the same session", cut(&q)))?;
                        }
                        inner = now;
                    }
                    drop(s);
                    cx.log("-- dropped");
                    let now = dump(&names, &mut |q| exec(db, q))?;
                    same(&base, &now, "after the session was dropped")?;
                }
                1 => {
                    let (class, q) = g.string();
                    cx.log(cut(&q));
                    let got = exec(db, &q);
                    seen(cx, class, &got)?;
                    let now = dump(&names, &mut |q| exec(db, q))?;
                    if !matches!(got, Ok(Out::Affected(_)) | Ok(Out::Ddl(_))) {
                        same(&base, &now, &format!("after {}", cut(&q)))?;
                    }
                    base = now;
                }
                2 => {
                    let n = 1 + src.usize(4);
                    let qs: Vec<String> = (0..n).map(|_| g.string().1).collect();
                    for q in &qs {
                        cx.log(format!("batch: {}", cut(q)));
                    }
                    let r: Vec<&str> = qs.iter().map(|s| s.as_str()).collect();
                    let got = db.execute_batch(&r);
                    panics()?;
                    cx.class(if got.is_ok() { "batch accepted" } else { "batch rejected" });
                    cx.eval(true);
                    let now = dump(&names, &mut |q| exec(db, q))?;
                    if got.is_err() {
                        same(&base, &now, "after the failed batch")?;
                    }
                    base = now;
                }
                _ => {
                    let (class, q) = g.string();
                    cx.log(format!("explain {}", cut(&q)));
                    let got = db.explain(&q).map(|_| Out::Rows(0, vec![])).map_err(|e| e.to_string());
                    seen(cx, class, &got)?;
                    let now = dump(&names, &mut |q| exec(db, q))?;
                    same(&base, &now, &format!("after explain {}", cut(&q)))?;
                }
            }
        }
        if src.chance(1, 4) {
            w.close();
            w.open()?;
            let db = w.db();
            let now = dump(&names, &mut |q| exec(db, q))?;
            same(&base, &now, "after reopening")?;
        }
        Ok(())
    }
}
fn cut(q: &str) -> String {
    if q.len() > 400 {
        format!("{}.. [{} bytes]", q.chars().take(300).collect::<String>(), q.len())
    } else {
        q.into()
    }
}
fn seen(cx: &mut Cx, class: &'static str, got: &Result<Out, String>) -> Res {
    panics()?;
    cx.class(class);
    let nontrivial = match got {
        Err(e) if e.contains("parse error") || e.contains("arse") => {
            cx.class("-> parse error");
            false
        }
        Err(_) => {
            cx.class("-> other error");
            true
        }
        Ok(Out::Rows(..)) => {
            cx.class("-> rows");
            false
        }
        Ok(Out::Affected(_)) => {
            cx.class("-> count");
            true
        }
        Ok(Out::Ddl(_)) => {
            cx.class("-> ddl");
            true
        }
    };
    cx.eval(nontrivial);
    if nontrivial {
        cx.distinct(cx.trace_hash());
    }
    Ok(())
}
type Dump = Vec<(String, Option<(usize, Vec<Vec<V>>)>)>;
fn dump(names: &[String], run: &mut dyn FnMut(&str) -> Result<Out, String>) -> Result<Dump, Violation> {
    let mut d = vec![];
    for n in names {
        let got = run(&format!("SELECT * FROM {n}"));
        panics()?;
        d.push((
            n.clone(),
            match got {
                Ok(Out::Rows(c, r)) => {
                    let mut r: Vec<Vec<V>> = rows_of(&r).iter().map(|r| norm_row(r)).collect();
                    r.sort_by(|a, b| cmp_rows(a, b));
                    Some((c, r))
                }
                Ok(o) => return viol("contents", format!("SELECT * FROM {n} returned {}", show_out(&o))),
                Err(_) => None,
            },
        ));
    }
    // the database answers
    match run("SELECT 1 + 1") {
        Ok(Out::Rows(1, r)) if r.len() == 1 => Ok(d),
        o => viol("liveness", format!("SELECT 1 + 1: {o:?}")),
    }
}
fn same(a: &Dump, b: &Dump, at: &str) -> Res {
    for (x, y) in a.iter().zip(b) {
        match (&x.1, &y.1) {
            (None, None) => {}
            (Some(p), Some(q)) => {
                ensure!(p.0 == q.0, "columns", "{at}: {} had {} columns and has {}", x.0, p.0, q.0);
                same_set(p.1.clone(), q.1.clone()).map_err(|e| Violation { kind: "contents".into(), msg: format!("{at}: table {}: {e}", x.0) })?;
            }
            (p, _) => return viol("tables", format!("{at}: {} {}", x.0, if p.is_some() { "can not be read any more" } else { "came into being" })),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ strings

struct Gen<'a> {
    src: &'a Src,
    st: &'a State,
    refs: usize,
}
const WORDS: &[&str] = &[
    "SELECT", "FROM", "WHERE", "AND", "OR", "NOT", "LIKE", "IN", "BETWEEN", "IS", "NULL", "TRUE", "FALSE", "CASE", "WHEN", "THEN", "ELSE", "END", "ORDER", "BY", "GROUP", "HAVING", "ASC", "DESC", "INSERT", "INTO", "VALUES", "UPDATE", "SET", "DELETE",
    "CREATE", "TABLE", "DROP", "LIMIT", "OFFSET", "JOIN", "INNER", "OUTER", "FULL", "LEFT", "RIGHT", "CROSS", "EXISTS", "ANY", "ALL", "SOME", "ON", "AS", "DISTINCT", "UNION", "INTERSECT", "EXCEPT", "WITH", "RECURSIVE", "PRIMARY", "KEY", "FOREIGN", "REFERENCES",
    "UNIQUE", "INDEX", "VIEW", "BEGIN", "COMMIT", "ROLLBACK", "TRANSACTION", "CONSTRAINT", "DEFAULT", "CHECK", "ALTER", "ADD", "COLUMN", "MODIFY", "RENAME", "TO", "LOCK", "IF", "INT", "BIGINT", "UINT", "BIGUINT", "FLOAT", "DOUBLE", "TEXT", "BLOB", "BOOL",
    "DATE", "CAST", "COALESCE", "NULLIF", "UPPER", "LOWER", "LENGTH", "ABS", "ROUND", "CEIL", "FLOOR", "SQRT", "CONCAT", "TRIM", "LTRIM", "RTRIM", "NOW", "IFNULL", "COUNT", "SUM", "AVG", "MIN", "MAX", "SUBSTR", "SUBSTRING", "RANDOM", "POWER", "MOD", "REPLACE", "ANALYZE", "VACUUM", "EXPLAIN", "row_id",
    "(", ")", ",", ".", ";", "*", "=", "<>", "!=", "<", ">", "<=", ">=", "+", "-", "/", "%", "||", "(", ")", ",", "'", "\"", "--", "/*", "*/", ":", "?", "$1", "[", "]", "{", "}", "\\", "&", "|", "^", "~", "!", "@", "#", "`",
];
const LITS: &[&str] = &[
    "0", "1", "-1", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999999999999999999999", "1e308",
    "1e309", "1e-400", "0.1", "-0.0", "1.", ".5", "1.5.5", "1e", "0x10", "1_000", "''", "'a'", "'%'", "'_'", "'%%%%%%%%%%%%%%%%a'", "'('", "'['", "'\\\\'", "'\\'", "'é'", "'日本'", "'\u{1F600}'", "'\u{0}'", "'a''b'", "'2024-02-30'", "NULL", "TRUE", "FALSE", "'1'", "'1e5'", "'NaN'",
    "'inf'", "000000000000000000000000000000000000001", "1.7976931348623157e308", "3.4028235e38", "3.5e38", "5e-324", "'-1'", "'true'", "' 1 '",
];
impl Gen<'_> {
    fn string(&self) -> (&'static str, String) {
        let src = self.src;
        for _ in 0..20 {
            let (c, q) = match src.weighted(&[4, 8, 3, 9, 2, 1, 1, 10]) {
                0 => ("statement", self.statement()),
                1 => ("token mutation", self.tokens()),
                2 => ("byte mutation", self.bytes()),
                3 => ("template", self.template()),
                4 => ("size or nesting", self.large()),
                5 => ("arbitrary characters", self.noise()),
                7 => ("kind-preserving mutation", self.gentle()),
                _ => ("word soup", (0..1 + src.usize(14)).map(|_| self.word()).collect::<Vec<_>>().join(" ")),
            };
            if self.tables_in(&q) <= self.refs || c == "size or nesting" {
                return (c, q);
            }
        }
        ("statement", "SELECT 1".into())
    }
    /// How many tables a string may name.
    fn tables_in(&self, q: &str) -> usize {
        split(q).iter().filter(|t| t.len() >= 2 && t.starts_with(['t', 'r', 'w']) && t[1..].bytes().all(|b| b.is_ascii_digit())).count()
    }
    fn statement(&self) -> String {
        let src = self.src;
        let st = self.st;
        let x = match src.weighted(&[8, 6, 5, 2]) {
            0 => Some(Stmt::Select(sqlgen::query(src, st, &sqlgen::QOpts { max_joins: 2, nested: 2, max_product: 3000 }))),
            1 => sqlgen::dml(src, st),
            2 => sqlgen::ddl(src, st, 4),
            _ => Some(sqlgen::bad(src, st)),
        };
        x.map(|x| x.sql(st)).unwrap_or_else(|| "SELECT 1".into())
    }
    fn col(&self) -> String {
        match sqlgen::pick_table(self.src, self.st) {
            Some(t) => self.src.pick(&t.cols).name.clone(),
            None => "c0".into(),
        }
    }
    fn tab(&self) -> String {
        sqlgen::pick_table(self.src, self.st).map_or("t0".into(), |t| t.name.clone())
    }
    fn word(&self) -> String {
        let src = self.src;
        match src.weighted(&[8, 3, 3, 2, 1]) {
            0 => src.pick(WORDS).to_string(),
            1 => src.pick(LITS).to_string(),
            2 => self.col(),
            3 => self.tab(),
            _ => format!("{}.{}", self.tab(), self.col()),
        }
    }
    fn tokens(&self) -> String {
        let src = self.src;
        let mut t = split(&self.statement());
        for _ in 0..1 + src.usize(4) {
            if t.is_empty() {
                t.push(self.word());
            }
            let n = t.len();
            let i = src.usize(n);
            match src.usize(8) {
                0 => {
                    t.remove(i);
                }
                1 => {
                    let x = t[i].clone();
                    t.insert(i, x);
                }
                2 => {
                    let j = src.usize(n);
                    t.swap(i, j);
                }
                3 => t.insert(i, self.word()),
                4 => t[i] = self.word(),
                5 => {
                    // a literal or name becomes another one
                    let k: Vec<usize> = (0..n).filter(|i| !WORDS.iter().any(|w| w.eq_ignore_ascii_case(&t[*i]))).collect();
                    if !k.is_empty() {
                        let i = *src.pick(&k);
                        t[i] = if src.chance(2, 3) { src.pick(LITS).to_string() } else { self.col() };
                    }
                }
                6 => {
                    // a piece of another statement
                    let o = split(&self.statement());
                    let a = src.usize(o.len().max(1));
                    let b = (a + 1 + src.usize(8)).min(o.len());
                    if a < b {
                        t.splice(i..i, o[a..b].iter().cloned());
                    }
                }
                _ => {
                    let j = (i + 1 + src.usize(6)).min(n);
                    t.drain(i..j);
                }
            }
        }
        t.join(" ")
    }
    /// Tokens give way to others that can stand in the same place.
    fn gentle(&self) -> String {
        let src = self.src;
        let mut t = split(&self.statement());
        const OPS: &[&str] = &["+", "-", "*", "/", "%", "||", "=", "<>", "<", ">", "<=", ">=", "AND", "OR", "LIKE"];
        const FNS: &[&str] = &["UPPER", "LOWER", "LENGTH", "ABS", "ROUND", "CEIL", "FLOOR", "SQRT", "CONCAT", "COALESCE", "NULLIF", "TRIM", "LTRIM", "RTRIM", "IFNULL", "COUNT", "SUM", "AVG", "MIN", "MAX"];
        const TYS: &[&str] = &["INT", "BIGINT", "UINT", "BIGUINT", "FLOAT", "DOUBLE", "TEXT", "BLOB", "BOOL"];
        let n = t.len();
        for _ in 0..1 + src.usize(5) {
            if n == 0 {
                break;
            }
            let i = src.usize(n);
            for k in 0..n {
                let i = (i + k) % n;
                let up = t[i].to_uppercase();
                let first = t[i].chars().next().unwrap_or(' ');
                let new = if FNS.contains(&up.as_str()) {
                    src.pick(FNS).to_string()
                } else if TYS.contains(&up.as_str()) {
                    src.pick(TYS).to_string()
                } else if OPS.contains(&up.as_str()) && up != "*" {
                    src.pick(OPS).to_string()
                } else if first == '\'' || first.is_ascii_digit() || ["TRUE", "FALSE", "NULL"].contains(&up.as_str()) {
                    if src.chance(1, 5) { self.ex(1) } else { src.pick(LITS).to_string() }
                } else if t[i].len() == 2 && first == 'c' {
                    if src.chance(1, 4) { self.ex(1) } else { self.col() }
                } else if t[i].len() == 2 && first == 't' {
                    self.tab()
                } else {
                    continue;
                };
                t[i] = new;
                break;
            }
        }
        t.join(" ").replace(" ( ", "(").replace(" . ", ".")
    }
    fn bytes(&self) -> String {
        let src = self.src;
        let mut c: Vec<char> = self.statement().chars().collect();
        for _ in 0..1 + src.usize(4) {
            let i = src.usize(c.len() + 1);
            match src.usize(4) {
                0 => c.insert(i, self.ch()),
                1 if i < c.len() => c[i] = self.ch(),
                2 if i < c.len() => {
                    c.remove(i);
                }
                _ => c.truncate(i),
            }
        }
        c.into_iter().collect()
    }
    fn ch(&self) -> char {
        let src = self.src;
        match src.usize(5) {
            0 => *src.pick(&['\'', '"', '(', ')', ';', '\\', '.', '-', '*', '%', '\0', '\n', '\t', ',', '`', '|', '/', '=', '<']),
            1 => (32 + src.below(95)) as u8 as char,
            2 => *src.pick(&['é', 'ß', '日', '\u{1F600}', '\u{0301}', '\u{202E}', '\u{FEFF}', '\u{A0}', 'İ', '\u{7F}', '\u{85}', '٣', '½', 'ﬀ']),
            3 => (b'0' + src.below(10) as u8) as char,
            _ => char::from_u32(src.below(0x11_0000) as u32).unwrap_or('\u{FFFD}'),
        }
    }
    fn noise(&self) -> String {
        (0..self.src.usize(40)).map(|_| self.ch()).collect()
    }
    fn ex(&self, d: usize) -> String {
        let src = self.src;
        if d == 0 {
            return match src.usize(4) {
                0 => src.pick(LITS).to_string(),
                1 => format!("{}.{}", self.tab(), self.col()),
                _ => self.col(),
            };
        }
        let x = || self.ex(d - 1);
        match src.usize(22) {
            0..=5 => {
                let op = *src.pick(&["+", "-", "*", "/", "%", "||", "=", "<>", "<", ">", "<=", ">=", "AND", "OR", "LIKE", "NOT LIKE", "IS", "IS NOT"]);
                format!("({} {op} {})", x(), x())
            }
            6 => format!("- {}", x()),
            7 => format!("NOT {}", x()),
            8 => format!("{} IS {}NULL", x(), src.pick(&["", "NOT "])),
            9 => format!("{} {}BETWEEN {} AND {}", x(), src.pick(&["", "NOT "]), x(), x()),
            10 => format!("{} {}IN ({})", x(), src.pick(&["", "NOT "]), (0..src.usize(4)).map(|_| x()).collect::<Vec<_>>().join(", ")),
            11 => {
                let mut s = "CASE".to_string();
                if src.chance(1, 2) {
                    s += &format!(" {}", x());
                }
                for _ in 0..src.usize(3) {
                    s += &format!(" WHEN {} THEN {}", x(), x());
                }
                if src.chance(1, 2) {
                    s += &format!(" ELSE {}", x());
                }
                s + " END"
            }
            12..=16 => {
                let f = *src.pick(&["UPPER", "LOWER", "LENGTH", "ABS", "ROUND", "CEIL", "FLOOR", "SQRT", "CONCAT", "COALESCE", "NULLIF", "TRIM", "LTRIM", "RTRIM", "NOW", "IFNULL", "SUBSTR", "SUBSTRING", "RANDOM", "POWER", "MOD", "REPLACE", "COUNT", "SUM", "AVG", "MIN", "MAX", "CAST", "NOSUCH", "LEN", "CURRENT_DATE"]);
                format!("{f}({})", (0..src.usize(4)).map(|_| x()).collect::<Vec<_>>().join(", "))
            }
            17 => format!("{}({}{})", src.pick(&["COUNT", "SUM", "AVG", "MIN", "MAX"]), src.pick(&["", "DISTINCT "]), x()),
            18 => "COUNT(*)".into(),
            19 => format!("(SELECT {} FROM {})", x(), self.tab()),
            20 => format!("{} IN (SELECT {} FROM {})", x(), self.col(), self.tab()),
            _ => format!("EXISTS (SELECT 1 FROM {} WHERE {})", self.tab(), x()),
        }
    }
    fn template(&self) -> String {
        let src = self.src;
        let e = || self.ex(src.usize(3));
        let (t, u, c) = (self.tab(), self.tab(), self.col());
        match src.usize(34) {
            0..=2 => format!("SELECT {} FROM {t}", e()),
            3..=4 => format!("SELECT {}", e()),
            5..=7 => format!("SELECT * FROM {t} WHERE {}", e()),
            8 => format!("SELECT {}, {} FROM {t} GROUP BY {}", e(), e(), e()),
            9 => format!("SELECT {} FROM {t} GROUP BY {} HAVING {}", e(), e(), e()),
            10 => format!("SELECT * FROM {t} ORDER BY {}, {} DESC", e(), e()),
            11 => format!("SELECT * FROM {t} ORDER BY {}", src.pick(&["0", "1", "2", "99", "-1", "1.5", "'a'", "NULL", "99999999999999999999"])),
            12 => format!("SELECT * FROM {t} LIMIT {} OFFSET {}", src.pick(LITS), src.pick(LITS)),
            13 => format!("SELECT * FROM {t} a {} {u} b ON {}", src.pick(&["JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN", "INNER JOIN", "LEFT OUTER JOIN", "CROSS JOIN"]), e()),
            14 => format!("SELECT * FROM {t}, {u} WHERE {}", e()),
            15 => format!("INSERT INTO {t} VALUES ({})", (0..1 + src.usize(6)).map(|_| e()).collect::<Vec<_>>().join(", ")),
            16..=17 => {
                let n = self.st.t(&t).map_or(1, |t| t.cols.len());
                format!("INSERT INTO {t} VALUES {}", (0..1 + src.usize(3)).map(|_| format!("({})", (0..n).map(|_| src.pick(LITS).to_string()).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(", "))
            }
            18 => format!("INSERT INTO {t} ({c}, {}) VALUES ({}, {})", self.col(), e(), e()),
            19 => format!("INSERT INTO {t} SELECT * FROM {u}"),
            20 => format!("INSERT INTO {t} ({c}) SELECT {} FROM {u}", e()),
            21..=22 => format!("UPDATE {t} SET {c} = {}{}", e(), if src.chance(1, 2) { format!(" WHERE {}", e()) } else { String::new() }),
            23 => format!("UPDATE {t} SET {c} = {}, {} = {}", e(), self.col(), e()),
            24 => format!("DELETE FROM {t} WHERE {}", e()),
            25 => format!("CREATE TABLE {} ({c} {} DEFAULT {})", src.pick(&["u", "v", "t0", "row_id", "\"x\"", "select"]), src.pick(&["INT", "TEXT", "BOOL", "DOUBLE", "DATE", "BIGUINT", "VARCHAR(10)", "NOSUCH", "DECIMAL(1,2)", "CHAR", "NULL"]), src.pick(LITS)),
            26 => format!("CREATE TABLE u (a INT, {})", src.pick(&["PRIMARY KEY (a, a)", "PRIMARY KEY (b)", "UNIQUE (a), UNIQUE (a)", "a TEXT", "FOREIGN KEY (a) REFERENCES t0(c0)", "FOREIGN KEY (a, b) REFERENCES nosuch(x)", "CHECK (a > 1)", "PRIMARY KEY ()", "PRIMARY KEY (a), PRIMARY KEY (a)", "row_id INT", "A INT", "CONSTRAINT x UNIQUE (a)", "UNIQUE (a, A)", "b INT PRIMARY KEY UNIQUE NOT NULL", "b INT NOT NULL DEFAULT NULL", "b INT DEFAULT 'x'", "b BOOL DEFAULT 5"])),
            27 => format!("ALTER TABLE {t} ADD COLUMN {} {}", src.pick(&["zz", "c0", "row_id", "Zz"]), src.pick(&["INT", "INT NOT NULL", "INT DEFAULT 5", "TEXT NOT NULL DEFAULT 'a'", "INT UNIQUE", "INT PRIMARY KEY", "INT DEFAULT 'x'", "TEXT DEFAULT 1", "BOOL DEFAULT 2", "NOSUCH", "INT NOT NULL DEFAULT NULL", "BIGINT DEFAULT 99999999999999999999"])),
            28 => format!("ALTER TABLE {t} {}", src.pick(&["DROP COLUMN c0", "DROP COLUMN row_id", "DROP CONSTRAINT x", "RENAME TO u", "ADD CONSTRAINT PRIMARY KEY (c0, c0)", "ADD CONSTRAINT UNIQUE (c0, c1)", "ALTER COLUMN c0 SET DEFAULT 'zz'", "ALTER COLUMN c0 SET DEFAULT 1", "ALTER COLUMN c1 SET NOT NULL", "ALTER COLUMN c1 DROP NOT NULL", "ALTER COLUMN c1 TYPE TEXT", "MODIFY COLUMN c0 INT", "ADD CONSTRAINT FOREIGN KEY (c0) REFERENCES t0 (c0)", "ADD CONSTRAINT x UNIQUE (c0)", "ADD CONSTRAINT UNIQUE (nosuch)", "ADD CONSTRAINT UNIQUE ()", "ALTER COLUMN c0 DROP DEFAULT"])),
            29 => format!("CREATE UNIQUE INDEX {} ON {t} ({})", src.pick(&["i0", "t0", "i1", "row_id"]), src.pick(&["c0", "c1", "c0, c0", "nosuch", "c0 DESC", "row_id", "c0, c1, c2", ""])),
            30 => format!("{} {} {t}", src.pick(&["DROP TABLE", "DROP INDEX", "DROP TABLE IF EXISTS", "DROP VIEW", "DROP DATABASE", "TRUNCATE", "ANALYZE"]), src.pick(&["", "nosuch,", "IF EXISTS"])),
            31 => format!("WITH {}w0 AS (SELECT {} AS x FROM {t}) SELECT {} FROM w0", src.pick(&["", "RECURSIVE "]), e(), e()),
            32 => format!("SELECT * FROM (SELECT {} AS x FROM {t}) AS r0 WHERE {}", e(), e()),
            _ => format!("SELECT {} FROM {t} UNION {}SELECT {} FROM {u}", e(), src.pick(&["", "ALL "]), e()),
        }
    }
    fn large(&self) -> String {
        let src = self.src;
        let n = *src.pick(&[30, 8, 100, 300, 1000, 5000, 60_000]);
        let (t, c) = (self.tab(), self.col());
        let op = *src.pick(&["+", "-", "*", "AND", "OR", "||", "=", "/"]);
        match src.usize(20) {
            0 => format!("SELECT {}1{}", "(".repeat(n), ")".repeat(n)),
            1 => format!("SELECT {}1", "(".repeat(n)),
            2 => format!("SELECT {}1", src.pick(&["- ", "NOT ", "-", "+ "]).repeat(n)),
            3 => format!("SELECT 1{}", format!(" {op} 1").repeat(n)),
            4 => format!("SELECT * FROM {t} WHERE {c} = 1{}", format!(" {op} {c} = 2").repeat(n.min(5000))),
            5 => format!("SELECT {}1{}", "CASE WHEN 1 = 1 THEN ".repeat(n), " END".repeat(n)),
            6 => format!("SELECT {}1{}", "ABS(".repeat(n), ")".repeat(n)),
            7 => format!("SELECT * FROM {}SELECT 1{}", "(SELECT * FROM (".repeat(n.min(1000)), ") AS a) AS b".repeat(n.min(1000))),
            8 => format!("SELECT {}", vec!["1"; n.min(5000)].join(", ")),
            9 => format!("SELECT 1 IN ({})", vec!["1"; n].join(", ")),
            10 => format!("INSERT INTO {t} VALUES {}", vec!["(1)"; n.min(5000)].join(", ")),
            11 => format!("CREATE TABLE u ({})", (0..n.min(5000)).map(|i| format!("x{i} INT")).collect::<Vec<_>>().join(", ")),
            12 => format!("CREATE TABLE {} (a INT)", "n".repeat(n)),
            13 => format!("SELECT '{}'", "x".repeat(n)),
            14 => format!("SELECT {}", "9".repeat(n)),
            15 => format!("SELECT {} FROM {t}", "f".repeat(n)),
            16 => format!("SELECT 'a' LIKE '{}'", src.pick(&["%a", "_", "%", "(", "a%", "\\"]).repeat(n)),
            17 => format!("{}SELECT 1", "WITH w AS (SELECT 1) ".repeat(n.min(1000))),
            18 => {
                // many joins of single rows
                let k = 2 + src.usize(7);
                format!("SELECT COUNT(*) FROM (SELECT 1 AS x) AS r0{}", (1..k).map(|i| format!(" {} (SELECT 1 AS x) AS r{i} ON r{}.x = r{i}.x", src.pick(&["JOIN", "LEFT JOIN", "FULL JOIN"]), i - 1)).collect::<String>())
            }
            _ => format!("SELECT 1{}", " UNION SELECT 1".repeat(n.min(1000))),
        }
    }
}
/// Splits a statement into words, literals and symbols.
fn split(q: &str) -> Vec<String> {
    let c: Vec<char> = q.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < c.len() {
        let s = i;
        if c[i].is_whitespace() {
            i += 1;
            continue;
        }
        if c[i].is_alphanumeric() || c[i] == '_' {
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || (c[i] == '.' && c[s].is_ascii_digit())) {
                i += 1;
            }
        } else if c[i] == '\'' {
            i += 1;
            while i < c.len() && c[i] != '\'' {
                i += 1;
            }
            i += 1;
        } else {
            i += 1;
            let two: String = c[s..(s + 2).min(c.len())].iter().collect();
            if ["<>", "!=", "<=", ">=", "||"].contains(&two.as_str()) {
                i += 1;
            }
        }
        out.push(c[s..i.min(c.len())].iter().collect());
    }
    out
}

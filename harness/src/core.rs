//! Choice-sequence generator, case context, worker/driver protocol, shrinking, evidence.
use serde_json::{Value, json};
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet, VecDeque},
    io::{BufRead, BufReader, Write},
    os::fd::{FromRawFd, IntoRawFd},
    path::{Path, PathBuf},
    process::{Child, ChildStdin, Command, Stdio},
    sync::{
        Mutex,
        atomic::{AtomicU64, Ordering},
        mpsc,
    },
    time::{Duration, Instant},
};

// ------------------------------------------------------------------ randomness

#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        let mut next = || {
            s = s.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        };
        let a = next();
        let b = next();
        Rng(a, b | 1)
    }
    pub fn next(&mut self) -> u64 {
        let mut s1 = self.0;
        let s0 = self.1;
        let r = s0.wrapping_add(s1);
        self.0 = s0;
        s1 ^= s1 << 23;
        self.1 = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
        r
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts {
        h ^= *p;
        h = h.wrapping_mul(0x100000001b3);
        h ^= h >> 29;
        h = h.wrapping_mul(0xBF58476D1CE4E5B9);
        h ^= h >> 32;
    }
    h
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix(&[h])
}

/// Source of choices. Every random decision of a case goes through here, so a case is its choice list.
pub struct Src {
    inner: RefCell<SrcInner>,
}
struct SrcInner {
    rng: Option<Rng>,
    choices: Vec<u64>,
    pos: usize,
}
impl Src {
    pub fn random(seed: u64) -> Self {
        Src { inner: RefCell::new(SrcInner { rng: Some(Rng::new(seed)), choices: vec![], pos: 0 }) }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src { inner: RefCell::new(SrcInner { rng: None, choices, pos: 0 }) }
    }
    /// Uniform in 0..n; 0 is the simplest choice.
    pub fn below(&self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let mut s = self.inner.borrow_mut();
        s.pos += 1;
        match &mut s.rng {
            Some(r) => {
                let v = ((r.next() as u128 * n as u128) >> 64) as u64;
                s.choices.push(v);
                v
            }
            None => {
                let v = s.choices.get(s.pos - 1).copied().unwrap_or(0);
                if v >= n { v % n } else { v }
            }
        }
    }
    pub fn raw(&self) -> u64 {
        self.below(u64::MAX)
    }
    pub fn usize(&self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// True in `num` of `den` cases; false is the simple choice.
    pub fn chance(&self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&self, xs: &'a [T]) -> &'a T {
        let i = self.usize(xs.len());
        &xs[i]
    }
    /// Index chosen by weights.
    pub fn weighted(&self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x as u64 {
                return i;
            }
            v -= *x as u64;
        }
        w.len() - 1
    }
    pub fn used(&self) -> usize {
        self.inner.borrow().pos
    }
    pub fn choices(&self) -> Vec<u64> {
        self.inner.borrow().choices.clone()
    }
}

// ------------------------------------------------------------------ case context

#[derive(Debug, Clone)]
pub struct Violation {
    /// Stable classification, used to keep shrinking on the same failure.
    pub kind: String,
    pub msg: String,
}
pub type Res = Result<(), Violation>;
pub fn viol<T>(kind: &str, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { kind: kind.to_string(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $kind:expr, $($a:tt)*) => { if !($c) { return $crate::core::viol($kind, format!($($a)*)); } };
}

pub struct Cx {
    pub dir: PathBuf,
    pub classes: BTreeMap<String, u64>,
    pub evals: u64,
    pub nontrivial: u64,
    pub finger: Vec<u64>,
    pub trace: Vec<String>,
    pub tier_thorough: bool,
    pub index: u64,
}
impl Cx {
    pub fn new(dir: PathBuf, thorough: bool, index: u64) -> Self {
        Cx { dir, classes: BTreeMap::new(), evals: 0, nontrivial: 0, finger: vec![], trace: vec![], tier_thorough: thorough, index }
    }
    pub fn class(&mut self, c: &str) {
        *self.classes.entry(c.to_string()).or_insert(0) += 1;
    }
    pub fn class_n(&mut self, c: &str, n: u64) {
        *self.classes.entry(c.to_string()).or_insert(0) += n;
    }
    pub fn log(&mut self, s: impl Into<String>) {
        let s = s.into();
        if std::env::var_os("AX_LIVE").is_some() {
            eprintln!("  {s}");
        }
        if self.trace.len() < 20000 {
            self.trace.push(s);
        }
    }
    pub fn eval(&mut self, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            self.nontrivial += 1;
        }
    }
    /// Marks one distinct non-trivial case by its fingerprint.
    pub fn distinct(&mut self, f: u64) {
        self.finger.push(f);
    }
    pub fn tail(&self, from: usize) -> &[String] {
        &self.trace[from.min(self.trace.len())..]
    }
    pub fn log_len(&self) -> usize {
        self.trace.len()
    }
    pub fn trace_hash(&self) -> u64 {
        let mut h = vec![];
        for t in &self.trace {
            h.push(hash_str(t));
        }
        mix(&h)
    }
    /// Empty directory for one database.
    pub fn fresh_dir(&mut self, name: &str) -> PathBuf {
        let p = self.dir.join(name);
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch dir");
        p
    }
}

pub struct Plan {
    pub cases: u64,
    /// Cases sent to a worker at once.
    pub batch: u64,
    pub timeout_s: u64,
    pub shrink_s: u64,
    pub workers: usize,
    /// Soft limit for the whole exploration (slow machines): stop early, quietly.
    pub budget_s: u64,
}

pub trait Property: Sync {
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
    fn plan(&self, thorough: bool) -> Plan;
    fn run_case(&self, src: &mut Src, cx: &mut Cx) -> Res;
    /// Deterministic checks of listed findings: (finding id, still fails?).
    /// Whether a case may go either way when it is run again (real threads). A failure seen once then counts: the
    /// history that was observed is the evidence.
    fn flaky(&self) -> bool {
        false
    }
    fn probe(&self, _finding: &str, _dir: &Path) -> Option<bool> {
        None
    }
}

// ------------------------------------------------------------------ panics

pub static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub fn take_panics() -> Vec<String> {
    std::mem::take(&mut *PANICS.lock().unwrap_or_else(|e| e.into_inner()))
}
pub fn peek_panics() -> Vec<String> {
    PANICS.lock().unwrap_or_else(|e| e.into_inner()).clone()
}
fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let m: String = m.chars().take(400).collect();
        if std::env::var_os("AX_LIVE").is_some() {
            eprintln!("  PANIC {m} @ {loc}");
        }
        PANICS.lock().unwrap_or_else(|e| e.into_inner()).push(format!("{m} @ {loc}"));
    }));
}

// ------------------------------------------------------------------ worker

pub fn scratch_root() -> PathBuf {
    if let Ok(p) = std::env::var("AX_SCRATCH") {
        return PathBuf::from(p);
    }
    for base in ["/dev/shm", "/tmp"] {
        let p = PathBuf::from(base).join(format!("axv.{}", std::process::id()));
        if std::fs::create_dir_all(&p).is_ok() && direct_io_ok(&p) {
            return p;
        }
        let _ = std::fs::remove_dir_all(&p);
    }
    panic!("no scratch directory that accepts O_DIRECT");
}
fn direct_io_ok(p: &Path) -> bool {
    let f = p.join("probe");
    let c = std::ffi::CString::new(f.to_str().unwrap()).unwrap();
    unsafe {
        let fd = libc::open(c.as_ptr(), libc::O_CREAT | libc::O_RDWR | libc::O_DIRECT, 0o600);
        if fd >= 0 {
            libc::close(fd);
            let _ = std::fs::remove_file(&f);
            true
        } else {
            false
        }
    }
}

fn outcome_json(cx: &Cx, r: &Res, case: u64, choices: Option<&[u64]>, dur: f64) -> Value {
    let mut v = json!({
        "case": case,
        "evals": cx.evals, "nontrivial": cx.nontrivial, "finger": cx.finger,
        "classes": cx.classes, "dur": dur,
    });
    if let Err(e) = r {
        v["viol"] = json!({"kind": e.kind, "msg": e.msg});
        v["trace"] = json!(cx.trace);
        if let Some(c) = choices {
            v["choices"] = json!(c);
        }
    } else if case < 40 || case % 97 == 0 {
        let t: Vec<&String> = cx.trace.iter().take(60).collect();
        v["sample"] = json!(t);
    }
    v
}

fn exec(p: &dyn Property, src: &mut Src, dir: &Path, thorough: bool, index: u64) -> (Cx, Res, f64) {
    let t0 = Instant::now();
    let _ = take_panics();
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).expect("case dir");
    let mut cx = Cx::new(dir.to_path_buf(), thorough, index);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.run_case(src, &mut cx)));
    let r = match r {
        Ok(r) => r,
        Err(_) => {
            let ps = take_panics();
            let last = ps.last().cloned().unwrap_or_default();
            // A panic that unwound into the harness thread: raised by code under test called directly,
            // or by the harness itself (location under harness/src: reported as a harness error).
            if last.contains("harness/src") || last.contains("@ src/") {
                Err(Violation { kind: "HARNESS".into(), msg: format!("harness panic: {last}") })
            } else {
                Err(Violation { kind: panic_kind(&last), msg: format!("panic: {}", ps.join(" | ")) })
            }
        }
    };
    let _ = std::fs::remove_dir_all(dir);
    (cx, r, t0.elapsed().as_secs_f64())
}
pub fn panic_kind(p: &str) -> String {
    let loc = p.rsplit(" @ ").next().unwrap_or("");
    let file = loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("");
    format!("panic:{file}")
}

pub fn worker_main(p: &dyn Property, seed: u64, thorough: bool) {
    install_hook();
    // Keep the protocol off stdout: the code under test prints.
    let out = unsafe {
        let fd = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 3);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        libc::dup2(null, 1);
        std::fs::File::from_raw_fd(fd)
    };
    let mut out = std::io::BufWriter::new(out);
    let dir = scratch_root().join(format!("w{}", std::process::id()));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        let v: Value = serde_json::from_str(&line).expect("protocol");
        if let Some(choices) = v.get("choices") {
            let choices: Vec<u64> = choices.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            let idx = v["case"].as_u64().unwrap_or(0);
            let mut src = Src::replay(choices);
            let (cx, r, dur) = exec(p, &mut src, &dir, thorough, idx);
            let used = src.used().min(src.choices().len());
            let ch = src.choices()[..used].to_vec();
            writeln!(out, "{}", outcome_json(&cx, &r, idx, Some(&ch), dur)).ok();
            out.flush().ok();
        } else {
            let (a, b) = (v["a"].as_u64().unwrap(), v["b"].as_u64().unwrap());
            for i in a..b {
                let mut src = Src::random(mix(&[seed, hash_str(p.id()), i]));
                let (cx, r, dur) = exec(p, &mut src, &dir, thorough, i);
                writeln!(out, "{}", outcome_json(&cx, &r, i, Some(&src.choices()), dur)).ok();
                out.flush().ok();
            }
            writeln!(out, "{{\"done\":true}}").ok();
            out.flush().ok();
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

// ------------------------------------------------------------------ driver

struct Worker {
    child: Child,
    stdin: Option<ChildStdin>,
    rx: mpsc::Receiver<String>,
    errlog: PathBuf,
}
static WCOUNT: AtomicU64 = AtomicU64::new(0);
enum Got {
    Line(Value),
    Timeout,
    Died(String),
}
impl Worker {
    fn spawn(id: &str, seed: u64, thorough: bool, scratch: &Path) -> Worker {
        let n = WCOUNT.fetch_add(1, Ordering::SeqCst);
        let errlog = scratch.join(format!("err{n}"));
        let ef = std::fs::File::create(&errlog).expect("errlog");
        let mut child = Command::new(std::env::current_exe().unwrap())
            .args(["worker", id, &seed.to_string(), if thorough { "thorough" } else { "quick" }])
            .env("AX_SCRATCH", scratch)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(unsafe { Stdio::from_raw_fd(ef.into_raw_fd()) })
            .spawn()
            .expect("spawn worker");
        let stdin = child.stdin.take();
        let stdout = child.stdout.take().unwrap();
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            for l in BufReader::new(stdout).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        Worker { child, stdin, rx, errlog }
    }
    fn send(&mut self, v: &Value) -> bool {
        self.stdin.as_mut().map(|s| writeln!(s, "{v}").is_ok() && s.flush().is_ok()).unwrap_or(false)
    }
    fn recv(&mut self, timeout: Duration) -> Got {
        match self.rx.recv_timeout(timeout) {
            Ok(l) => match serde_json::from_str(&l) {
                Ok(v) => Got::Line(v),
                Err(_) => Got::Died(format!("garbled protocol line: {l}")),
            },
            Err(mpsc::RecvTimeoutError::Timeout) => Got::Timeout,
            Err(mpsc::RecvTimeoutError::Disconnected) => {
                let st = self.child.wait().map(|s| s.to_string()).unwrap_or_default();
                let err = std::fs::read_to_string(&self.errlog).unwrap_or_default();
                let tail: String = err.lines().rev().take(6).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join(" | ");
                Got::Died(format!("{st}; {tail}"))
            }
        }
    }
    fn kill(mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = std::fs::remove_file(&self.errlog);
    }
    fn finish(mut self) {
        self.stdin = None;
        let t = Instant::now();
        while t.elapsed() < Duration::from_secs(10) {
            if let Ok(Some(_)) = self.child.try_wait() {
                return;
            }
            std::thread::sleep(Duration::from_millis(10));
        }
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[derive(Clone, Debug)]
struct Failure {
    case: u64,
    kind: String,
    msg: String,
    choices: Option<Vec<u64>>,
    trace: Value,
    once: bool,
}

#[derive(Default)]
struct Agg {
    cases: u64,
    evals: u64,
    nontrivial: u64,
    fingers: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<(u64, Value)>,
    failures: Vec<Failure>,
    slowest: f64,
    harness_errors: Vec<String>,
}

pub fn is_harness(kind: &str) -> bool {
    kind == "HARNESS"
}

/// One replay of a choice list in the given worker slot (respawned when it dies).
fn run_choices(slot: &mut Option<Worker>, p: &dyn Property, seed: u64, thorough: bool, scratch: &Path, case: u64, choices: &[u64], timeout: Duration) -> Result<Value, Failure> {
    if slot.is_none() {
        *slot = Some(Worker::spawn(p.id(), seed, thorough, scratch));
    }
    let w = slot.as_mut().unwrap();
    w.send(&json!({"choices": choices, "case": case}));
    match w.recv(timeout) {
        Got::Line(v) => {
            if let Some(vi) = v.get("viol") {
                let ch = v["choices"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect());
                return Err(Failure { case, kind: vi["kind"].as_str().unwrap().into(), msg: vi["msg"].as_str().unwrap().into(), choices: ch, trace: v["trace"].clone(), once: false });
            }
            Ok(v)
        }
        Got::Timeout => {
            slot.take().unwrap().kill();
            Err(Failure { case, kind: "hang".into(), msg: format!("no answer within {} s", timeout.as_secs()), choices: Some(choices.to_vec()), trace: Value::Null, once: false })
        }
        Got::Died(m) => {
            slot.take().unwrap().kill();
            Err(Failure { case, kind: "crash".into(), msg: format!("the process died: {m}"), choices: Some(choices.to_vec()), trace: Value::Null, once: false })
        }
    }
}

fn case_choices(p: &dyn Property, seed: u64, case: u64) -> Option<Vec<u64>> {
    // Choices of a case that killed its worker are not known; replay it from its seed instead.
    let _ = (p, seed, case);
    None
}

fn shrink(p: &dyn Property, seed: u64, thorough: bool, scratch: &Path, f: Failure, limit: Duration, timeout: Duration) -> Failure {
    let Some(start) = f.choices.clone() else { return f };
    let mut best = f.clone();
    let mut cur = start;
    let mut slot: Option<Worker> = None;
    let t0 = Instant::now();
    let mut tries = 0u32;
    let mut attempt = |cand: &[u64], best: &mut Failure, cur: &mut Vec<u64>| -> bool {
        if t0.elapsed() > limit || tries > 3000 {
            return false;
        }
        tries += 1;
        let mut r = run_choices(&mut slot, p, seed, thorough, scratch, f.case, cand, timeout);
        for _ in 0..if p.flaky() { 8 } else { 0 } {
            if r.is_err() {
                break;
            }
            r = run_choices(&mut slot, p, seed, thorough, scratch, f.case, cand, timeout);
        }
        match r {
            Err(g) if g.kind == f.kind => {
                let nc = g.choices.clone().unwrap_or_else(|| cand.to_vec());
                let simpler = nc.len() < cur.len() || (nc.len() == cur.len() && nc < *cur);
                if simpler {
                    *cur = nc;
                    *best = g;
                    best.choices = Some(cur.clone());
                }
                simpler
            }
            _ => false,
        }
    };
    let mut progress = true;
    while progress && t0.elapsed() < limit {
        progress = false;
        // delete blocks
        let mut size = (cur.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < cur.len() {
                let mut cand = cur.clone();
                let e = (i + size).min(cand.len());
                cand.drain(i..e);
                if attempt(&cand, &mut best, &mut cur) {
                    progress = true;
                } else {
                    i += size;
                }
                if t0.elapsed() > limit {
                    break;
                }
            }
            if size == 1 || t0.elapsed() > limit {
                break;
            }
            size /= 2;
        }
        // lower values
        let mut i = 0;
        while i < cur.len() && t0.elapsed() < limit {
            if cur[i] > 0 {
                for v in [0, cur[i] / 2, cur[i] - 1] {
                    if i < cur.len() && v < cur[i] {
                        let mut cand = cur.clone();
                        cand[i] = v;
                        if attempt(&cand, &mut best, &mut cur) {
                            progress = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    if let Some(w) = slot {
        w.kill();
    }
    best
}

pub struct Findings {
    pub open: Vec<(String, String)>,
}
fn load_findings(prop: &str, root: &Path) -> Findings {
    let mut open = vec![];
    if let Ok(s) = std::fs::read_to_string(root.join("known_findings.json")) {
        if let Ok(v) = serde_json::from_str::<Value>(&s) {
            for f in v["findings"].as_array().cloned().unwrap_or_default() {
                if f["property"] == prop {
                    open.push((f["id"].as_str().unwrap_or("").to_string(), f["what"].as_str().unwrap_or("").to_string()));
                }
            }
        }
    }
    Findings { open }
}

pub fn drive(p: &'static dyn Property, seed: u64, thorough: bool, root: &Path, cases_override: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let scratch = scratch_root();
    let mut plan = p.plan(thorough);
    if let Some(c) = cases_override {
        plan.cases = c;
    }
    let findings = load_findings(p.id(), root);
    // Known findings: replay each listed history.
    let mut finding_lines = vec![];
    for (id, what) in &findings.open {
        let out = Command::new(std::env::current_exe().unwrap())
            .args(["probe", p.id(), id])
            .env("AX_SCRATCH", &scratch)
            .stderr(Stdio::null())
            .stdout(Stdio::piped())
            .spawn()
            .and_then(|mut c| {
                let t = Instant::now();
                loop {
                    if let Some(s) = c.try_wait()? {
                        return Ok(s.code());
                    }
                    if t.elapsed() > Duration::from_secs(20) {
                        c.kill()?;
                        c.wait()?;
                        return Ok(None);
                    }
                    std::thread::sleep(Duration::from_millis(5));
                }
            });
        // 10: still fails; 11: passes; 12: no such probe; anything else: it crashed or hung, which is the finding itself
        match out {
            Ok(Some(11)) => finding_lines.push((id.clone(), what.clone(), "no longer fails")),
            Ok(Some(12)) => finding_lines.push((id.clone(), what.clone(), "no probe")),
            _ => finding_lines.push((id.clone(), what.clone(), "fails")),
        }
    }
    let agg = Mutex::new(Agg::default());
    let queue: Mutex<VecDeque<(u64, u64)>> = Mutex::new({
        let mut q = VecDeque::new();
        let mut a = 0;
        while a < plan.cases {
            let b = (a + plan.batch).min(plan.cases);
            q.push_back((a, b));
            a = b;
        }
        q
    });
    let budget = Duration::from_secs(plan.budget_s);
    let timeout = Duration::from_secs(plan.timeout_s);
    let stop_at = std::sync::atomic::AtomicU64::new(u64::MAX);
    std::thread::scope(|s| {
        for _ in 0..plan.workers {
            s.spawn(|| {
                let mut slot: Option<Worker> = None;
                loop {
                    if t0.elapsed() > budget {
                        break;
                    }
                    let Some((mut a, b)) = queue.lock().unwrap().pop_front() else { break };
                    if a >= stop_at.load(Ordering::SeqCst) {
                        continue;
                    }
                    while a < b {
                        if slot.is_none() {
                            slot = Some(Worker::spawn(p.id(), seed, thorough, &scratch));
                        }
                        slot.as_mut().unwrap().send(&json!({"a": a, "b": b}));
                        loop {
                            match slot.as_mut().unwrap().recv(timeout) {
                                Got::Line(v) => {
                                    if v.get("done").is_some() {
                                        a = b;
                                        break;
                                    }
                                    let case = v["case"].as_u64().unwrap();
                                    let mut g = agg.lock().unwrap();
                                    g.cases += 1;
                                    g.evals += v["evals"].as_u64().unwrap();
                                    g.nontrivial += v["nontrivial"].as_u64().unwrap();
                                    g.slowest = g.slowest.max(v["dur"].as_f64().unwrap_or(0.0));
                                    for f in v["finger"].as_array().unwrap() {
                                        g.fingers.insert(f.as_u64().unwrap());
                                    }
                                    for (k, n) in v["classes"].as_object().unwrap() {
                                        *g.classes.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
                                    }
                                    if let Some(sm) = v.get("sample") {
                                        if g.samples.len() < 400 {
                                            g.samples.push((case, sm.clone()));
                                        }
                                    }
                                    if let Some(vi) = v.get("viol") {
                                        let kind = vi["kind"].as_str().unwrap().to_string();
                                        let msg = vi["msg"].as_str().unwrap().to_string();
                                        if is_harness(&kind) {
                                            g.harness_errors.push(format!("case {case}: {msg}"));
                                        } else {
                                            let ch = v["choices"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect());
                                            g.failures.push(Failure { case, kind, msg, choices: ch, trace: v["trace"].clone(), once: false });
                                            if std::env::var("AX_KEEP_GOING").is_err() {
                                                stop_at.fetch_min(case, Ordering::SeqCst);
                                            }
                                        }
                                    }
                                    a = case + 1;
                                }
                                bad => {
                                    let (kind, msg) = match bad {
                                        Got::Timeout => ("hang", format!("no answer within {} s", timeout.as_secs())),
                                        Got::Died(m) => ("crash", format!("the process died: {m}")),
                                        _ => unreachable!(),
                                    };
                                    slot.take().unwrap().kill();
                                    let mut g = agg.lock().unwrap();
                                    g.cases += 1;
                                    g.failures.push(Failure { case: a, kind: kind.into(), msg, choices: case_choices(p, seed, a), trace: Value::Null, once: false });
                                    if std::env::var("AX_KEEP_GOING").is_err() {
                                        stop_at.fetch_min(a, Ordering::SeqCst);
                                    }
                                    a += 1;
                                    break;
                                }
                            }
                        }
                        if a >= stop_at.load(Ordering::SeqCst) {
                            break;
                        }
                    }
                }
                if let Some(w) = slot {
                    w.finish();
                }
            });
        }
    });
    let explored_s = t0.elapsed().as_secs_f64();
    let mut g = agg.into_inner().unwrap();
    g.failures.sort_by_key(|f| f.case);
    if std::env::var("AX_KEEP_GOING").is_ok() {
        let mut by: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
        for f in &g.failures {
            let e = by.entry(f.kind.clone()).or_insert((0, f.case, f.msg.clone()));
            e.0 += 1;
        }
        for (k, (n, c, m)) in by {
            eprintln!("FAIL kind={k} n={n} first_case={c} msg={}", m.chars().take(400).collect::<String>());
        }
    }
    // Confirm: a failure counts once it has been seen again.
    let mut confirmed: Option<Failure> = None;
    let mut unconfirmed = 0u64;
    let mut tried = 0;
    for f in &g.failures {
        if tried >= 6 {
            break;
        }
        tried += 1;
        if let Some(c) = confirm(p, seed, thorough, &scratch, f, timeout) {
            confirmed = Some(c);
            break;
        }
        unconfirmed += 1;
    }
    let mut code = 0;
    let mut violation_line = None;
    if let Some(f) = confirmed {
        let small = if f.choices.is_some() && plan.shrink_s > 0 && f.kind != "hang" && !f.once {
            shrink(p, seed, thorough, &scratch, f.clone(), Duration::from_secs(plan.shrink_s), timeout)
        } else {
            f.clone()
        };
        let outdir = root.join("out");
        let _ = std::fs::create_dir_all(&outdir);
        let path = outdir.join(format!("{}-{}-{}.json", p.id(), seed, f.case));
        let rep = json!({"property": p.id(), "seed": seed, "tier": if thorough {"thorough"} else {"quick"}, "case": f.case,
            "kind": small.kind, "message": small.msg, "choices": small.choices, "trace": small.trace});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap());
        println!("{}: {}", small.kind, small.msg.chars().take(1500).collect::<String>());
        if let Some(t) = small.trace.as_array() {
            for l in t.iter().rev().take(25).collect::<Vec<_>>().into_iter().rev() {
                println!("    {}", l.as_str().unwrap_or("").chars().take(300).collect::<String>());
            }
        }
        violation_line = Some(format!("VIOLATION property={} replay={}", p.id(), path.display()));
        code = 1;
    }
    if !g.harness_errors.is_empty() {
        for e in g.harness_errors.iter().take(5) {
            eprintln!("HARNESS ERROR {e}");
        }
        if code == 0 {
            code = 3;
        }
    }
    // evidence
    g.samples.sort_by_key(|s| s.0);
    let samples: Vec<Value> = g.samples.iter().take(5).map(|(c, t)| json!({"case": c, "trace": t})).collect();
    let mut known = vec![];
    for (id, what, st) in &finding_lines {
        known.push(json!({"id": id, "what": what, "state": st}));
    }
    let ev = json!({
        "property": p.id(),
        "tier": if thorough {"thorough"} else {"quick"},
        "seed": seed,
        "level": p.level(),
        "coverage": {
            "evaluations": g.evals,
            "distinct_nontrivial": g.fingers.len(),
            "rule": p.rule(),
            "samples": samples,
            "cases": g.cases,
            "planned_cases": plan.cases,
            "nontrivial_evaluations": g.nontrivial,
            "classes": g.classes,
            "slowest_case_s": g.slowest,
            "explore_s": explored_s,
            "unconfirmed_failures": unconfirmed,
            "known_findings": known,
        },
        "assumptions": p.assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": if code == 1 {1} else {0},
    });
    let evdir = root.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{}.json", p.id())), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    for (id, what, st) in &finding_lines {
        if *st == "fails" {
            println!("KNOWN-FINDING: property={} [{}] {}", p.id(), id, what);
        } else {
            println!("note: listed finding {id}: {st}");
        }
    }
    println!(
        "{} {}: {} cases, {} evaluations, {} distinct non-trivial, {:.1}s, slowest case {:.2}s",
        p.id(), if thorough { "thorough" } else { "quick" }, g.cases, g.evals, g.fingers.len(), t0.elapsed().as_secs_f64(), g.slowest
    );
    for (k, n) in &g.classes {
        println!("    class {k}: {n}");
    }
    if let Some(l) = violation_line {
        println!("{l}");
    }
    let _ = std::fs::remove_dir_all(&scratch);
    code
}

fn confirm(p: &dyn Property, seed: u64, thorough: bool, scratch: &Path, f: &Failure, timeout: Duration) -> Option<Failure> {
    let hang = f.kind == "hang";
    let tries = if hang { 1 } else if p.flaky() { 40 } else { 8 };
    let t0 = Instant::now();
    let to = if hang { timeout * 2 } else { timeout };
    let mut slot: Option<Worker> = None;
    let mut res = None;
    for _ in 0..tries {
        if t0.elapsed() > Duration::from_secs(90) && p.flaky() {
            break;
        }
        let r = match &f.choices {
            Some(c) => run_choices(&mut slot, p, seed, thorough, scratch, f.case, c, to),
            None => {
                // from the seed
                if slot.is_none() {
                    slot = Some(Worker::spawn(p.id(), seed, thorough, scratch));
                }
                let w = slot.as_mut().unwrap();
                w.send(&json!({"a": f.case, "b": f.case + 1}));
                match w.recv(to) {
                    Got::Line(v) => {
                        let r = if let Some(vi) = v.get("viol") {
                            let ch = v["choices"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect());
                            Err(Failure { case: f.case, kind: vi["kind"].as_str().unwrap().into(), msg: vi["msg"].as_str().unwrap().into(), choices: ch, trace: v["trace"].clone(), once: false })
                        } else {
                            Ok(v)
                        };
                        let _ = w.recv(to);
                        r
                    }
                    Got::Timeout => {
                        slot.take().unwrap().kill();
                        Err(Failure { kind: "hang".into(), ..f.clone() })
                    }
                    Got::Died(m) => {
                        slot.take().unwrap().kill();
                        Err(Failure { kind: "crash".into(), msg: format!("the process died: {m}"), ..f.clone() })
                    }
                }
            }
        };
        if let Err(g) = r {
            if !is_harness(&g.kind) {
                res = Some(if g.kind == f.kind { g } else { f.clone() });
                if let Some(r) = &mut res {
                    if r.choices.is_none() {
                        r.choices = f.choices.clone();
                    }
                }
                break;
            }
        }
    }
    if let Some(w) = slot {
        w.kill();
    }
    if res.is_none() && p.flaky() && !hang && f.kind != "crash" {
        let mut g = f.clone();
        g.msg = format!("{}\n(seen once in {tries} runs of this plan; the history is below)", g.msg);
        g.once = true;
        res = Some(g);
    }
    res
}

/// Replays a file written on a violation. Exit 1 when it still fails.
pub fn replay_file(p: &'static dyn Property, v: &Value) -> i32 {
    install_hook();
    let scratch = scratch_root();
    let thorough = v["tier"] == "thorough";
    let case = v["case"].as_u64().unwrap_or(0);
    let run = || {
        let mut src = match v["choices"].as_array() {
            Some(a) => Src::replay(a.iter().map(|x| x.as_u64().unwrap()).collect()),
            None => Src::random(mix(&[v["seed"].as_u64().unwrap_or(1), hash_str(p.id()), case])),
        };
        exec(p, &mut src, &scratch.join("replay"), thorough, case)
    };
    let t0 = Instant::now();
    let (mut cx, mut r, _) = run();
    while p.flaky() && r.is_ok() && t0.elapsed() < Duration::from_secs(120) {
        (cx, r, _) = run();
    }
    for t in &cx.trace {
        println!("    {}", t.chars().take(1000).collect::<String>());
    }
    let _ = std::fs::remove_dir_all(&scratch);
    match r {
        Ok(()) => {
            println!("replay: holds");
            0
        }
        Err(e) => {
            println!("replay: {}: {}", e.kind, e.msg);
            1
        }
    }
}
pub fn probe_main(p: &'static dyn Property, finding: &str) -> i32 {
    install_hook();
    let dir = scratch_root().join(format!("probe{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("probe dir");
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| p.probe(finding, &dir)));
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Ok(Some(true)) | Err(_) => 10,
        Ok(Some(false)) => 11,
        Ok(None) => 12,
    }
}

//! C20: the wire protocol carries every message intact and rejects garbage.
use crate::{core::*, ensure};
use axmosdb::{
    DBConfig, Database,
    runtime::QueryResult,
    tcp::{MAX_MESSAGE_SIZE, Request, Response, TcpError, read_message, recv_request, recv_response, send_request, send_response, write_message},
};
use std::{
    io::{self, Read, Write},
    net::TcpStream,
    process::{Child, Command, Stdio},
    time::{Duration, Instant},
};

pub struct C20;

fn allocated() -> u64 {
    let mut v: u64 = 0;
    let mut len = 8usize;
    let r = unsafe {
        jemalloc_sys::mallctl(c"thread.allocated".as_ptr(), &mut v as *mut u64 as *mut _, &mut len, std::ptr::null_mut(), 0)
    };
    assert!(r == 0, "mallctl thread.allocated: {r}");
    v
}

fn text(src: &mut Src) -> String {
    let n = match src.weighted(&[3, 8, 4, 1]) {
        0 => 0,
        1 => 1 + src.usize(12),
        2 => 1 + src.usize(200),
        _ => 1 + src.usize(70_000),
    };
    let alpha: &[char] = &['a', 'Z', '0', ' ', '\0', '\n', '"', '\'', 'é', 'ß', '中', '\u{1F600}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{fffd}', '\u{10ffff}', '\u{feff}'];
    if n > 300 {
        let c = *src.pick(alpha);
        return std::iter::repeat_n(c, n).collect();
    }
    (0..n).map(|_| if src.chance(1, 12) { char::from_u32(src.below(0x110000) as u32).unwrap_or('x') } else { *src.pick(alpha) }).collect()
}

fn number(src: &mut Src) -> u64 {
    match src.weighted(&[3, 3, 2]) {
        0 => src.below(300),
        1 => src.raw(),
        _ => *src.pick(&[0, 1, 255, 256, 65535, 65536, u32::MAX as u64, u32::MAX as u64 + 1, i64::MAX as u64, u64::MAX]),
    }
}

fn request(src: &mut Src) -> Request {
    match src.usize(12) {
        0 => Request::Ping,
        1 => Request::Create(text(src)),
        2 => Request::Open(text(src)),
        3 => Request::Sql(text(src)),
        4 => Request::Explain(text(src)),
        5 => Request::Analyze {
            sample_rate: match src.usize(4) {
                0 => 0.0,
                1 => src.below(1000) as f64 / 1000.0,
                2 => f64::from_bits(src.raw()),
                _ => *src.pick(&[f64::NAN, f64::INFINITY, -0.0, f64::MIN_POSITIVE, f64::MAX]),
            },
            max_sample_rows: number(src) as usize,
        },
        6 => Request::Close,
        7 => Request::Vacuum,
        8 => Request::Begin,
        9 => Request::Commit,
        10 => Request::Rollback,
        _ => Request::Shutdown,
    }
}

fn response(src: &mut Src) -> Response {
    match src.usize(12) {
        0 => Response::Pong,
        1 => Response::Ok(text(src)),
        2 => Response::Error(text(src)),
        3 | 4 => {
            let cols = match src.weighted(&[1, 6, 1]) {
                0 => 0,
                1 => 1 + src.usize(6),
                _ => 1 + src.usize(300),
            };
            let rows = match src.weighted(&[2, 6, 1]) {
                0 => 0,
                1 => 1 + src.usize(8),
                _ => 1 + src.usize(if cols < 10 { 600 } else { 30 }),
            };
            let small = cols * rows > 200;
            let mut cell = |src: &mut Src| if small { if src.chance(1, 3) { String::new() } else { format!("v{}é", src.below(99)) } } else { text(src) };
            let columns = (0..cols).map(|_| cell(src)).collect();
            let data = (0..rows).map(|_| (0..cols).map(|_| cell(src)).collect()).collect();
            Response::Rows { columns, data }
        }
        5 => Response::SessionStarted,
        6 => Response::SessionEnd,
        7 => Response::RowsAffected(number(src)),
        8 => Response::Ddl(text(src)),
        9 => Response::Explain(text(src)),
        10 => Response::VacuumComplete { tables_vacuumed: number(src) as usize, bytes_freed: number(src) as usize, transactions_cleaned: number(src) as usize },
        _ => {
            if src.chance(1, 2) {
                Response::Goodbye
            } else {
                Response::ShuttingDown
            }
        }
    }
}

/// Same value, field by field (independent of the encoder).
fn same_req(a: &Request, b: &Request) -> bool {
    use Request::*;
    match (a, b) {
        (Create(x), Create(y)) | (Open(x), Open(y)) | (Sql(x), Sql(y)) | (Explain(x), Explain(y)) => x == y,
        (Analyze { sample_rate: x, max_sample_rows: m }, Analyze { sample_rate: y, max_sample_rows: n }) => x.to_bits() == y.to_bits() && m == n,
        (Create(_) | Open(_) | Sql(_) | Explain(_) | Analyze { .. }, _) => false,
        _ => std::mem::discriminant(a) == std::mem::discriminant(b),
    }
}
fn same_resp(a: &Response, b: &Response) -> bool {
    use Response::*;
    match (a, b) {
        (Ok(x), Ok(y)) | (Error(x), Error(y)) | (Ddl(x), Ddl(y)) | (Explain(x), Explain(y)) => x == y,
        (Rows { columns: c, data: d }, Rows { columns: e, data: f }) => c == e && d == f,
        (RowsAffected(x), RowsAffected(y)) => x == y,
        (VacuumComplete { tables_vacuumed: a, bytes_freed: b, transactions_cleaned: c }, VacuumComplete { tables_vacuumed: d, bytes_freed: e, transactions_cleaned: f }) => a == d && b == e && c == f,
        (Ok(_) | Error(_) | Ddl(_) | Explain(_) | Rows { .. } | RowsAffected(_) | VacuumComplete { .. }, _) => false,
        _ => std::mem::discriminant(a) == std::mem::discriminant(b),
    }
}
fn brief<T: std::fmt::Debug>(t: &T) -> String {
    let s = format!("{t:?}");
    if s.chars().count() > 160 { format!("{}... ({} bytes)", s.chars().take(150).collect::<String>(), s.len()) } else { s }
}

/// A stream that hands out its bytes in small pieces and is interrupted now and then.
struct Choppy<'a> {
    data: &'a [u8],
    pos: usize,
    step: usize,
    n: u64,
    served: usize,
}
impl Read for Choppy<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.n += 1;
        if self.n % 5 == 3 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let k = buf.len().min(self.step).min(self.data.len() - self.pos);
        buf[..k].copy_from_slice(&self.data[self.pos..self.pos + k]);
        self.pos += k;
        self.served += k;
        Ok(k)
    }
}
struct ChoppyW {
    out: Vec<u8>,
    step: usize,
    n: u64,
}
impl Write for ChoppyW {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.n += 1;
        if self.n % 7 == 2 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let k = buf.len().min(self.step);
        self.out.extend_from_slice(&buf[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn mutate(src: &mut Src, b: &mut Vec<u8>) {
    for _ in 0..1 + src.usize(3) {
        match src.usize(7) {
            0 if !b.is_empty() => {
                let i = src.usize(b.len());
                b[i] = src.below(256) as u8;
            }
            1 => {
                let k = src.usize(b.len() + 1);
                b.truncate(k);
            }
            2 => {
                for _ in 0..1 + src.usize(9) {
                    b.push(src.below(256) as u8);
                }
            }
            3 if b.len() >= 6 => {
                // a length or a count
                let i = 2 + src.usize(b.len() - 5);
                let v = match src.usize(5) {
                    0 => u32::MAX,
                    1 => u32::MAX - src.below(8) as u32,
                    2 => src.raw() as u32,
                    3 => 1 << src.below(32),
                    _ => src.below(64) as u32,
                };
                b[i..i + 4].copy_from_slice(&v.to_le_bytes());
            }
            4 if b.len() > 2 => {
                let i = 2 + src.usize(b.len() - 2);
                let k = 1 + src.usize(5);
                let end = (i + k).min(b.len());
                b.drain(i..end);
            }
            5 if b.len() > 1 => {
                b[1] = src.below(256) as u8;
            }
            _ if b.len() >= 6 => {
                let v = match src.usize(3) {
                    0 => u32::MAX,
                    1 => 1u32 << src.below(32),
                    _ => src.raw() as u32,
                };
                b[2..6].copy_from_slice(&v.to_le_bytes());
            }
            _ => {}
        }
    }
}

/// Rough independent statement of which byte strings are messages.
mod grammar {
    pub struct P<'a>(pub &'a [u8]);
    impl<'a> P<'a> {
        pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
            if self.0.len() < n {
                return None;
            }
            let (a, b) = self.0.split_at(n);
            self.0 = b;
            Some(a)
        }
        pub fn u32(&mut self) -> Option<u32> {
            Some(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
        }
        pub fn string(&mut self) -> Option<()> {
            let n = self.u32()? as usize;
            std::str::from_utf8(self.take(n)?).ok().map(|_| ())
        }
        pub fn end(&self) -> Option<()> {
            self.0.is_empty().then_some(())
        }
    }
    pub fn request(b: &[u8]) -> bool {
        (|| {
            let mut p = P(b);
            if p.take(1)?[0] != 1 {
                return None;
            }
            match p.take(1)?[0] {
                1..=4 => p.string()?,
                5 => p.take(16).map(|_| ())?,
                6 | 7 | 9 | 10 | 11 | 12 | 255 => {}
                _ => return None,
            }
            p.end()
        })()
        .is_some()
    }
    /// None: not decided here (zero-width rows are limited by the decoder).
    pub fn response(b: &[u8]) -> Option<bool> {
        let mut zero_width = false;
        let r = (|| {
            let mut p = P(b);
            if p.take(1)?[0] != 1 {
                return None;
            }
            match p.take(1)?[0] {
                0 | 1 | 4 | 5 => p.string()?,
                2 => {
                    let c = p.u32()?;
                    for _ in 0..c {
                        p.string()?;
                    }
                    let r = p.u32()?;
                    if c == 0 {
                        zero_width = r > 1000;
                    } else {
                        for _ in 0..r as u64 * c as u64 {
                            p.string()?;
                        }
                    }
                }
                3 => p.take(8).map(|_| ())?,
                9 => p.take(24).map(|_| ())?,
                6 | 7 | 8 | 10 | 11 => {}
                _ => return None,
            }
            p.end()
        })()
        .is_some();
        if zero_width { None } else { Some(r) }
    }
}

fn decode_check(b: &[u8], what: &str) -> Result<(bool, bool), Violation> {
    let cap = (4 << 20) + 64 * b.len() as u64;
    let a0 = allocated();
    let rq = Request::from_bytes(b);
    let a1 = allocated();
    let rs = Response::from_bytes(b);
    let a2 = allocated();
    ensure!(a1 - a0 <= cap, "alloc", "{what}: decoding {} bytes as a request allocated {} bytes", b.len(), a1 - a0);
    ensure!(a2 - a1 <= cap, "alloc", "{what}: decoding {} bytes as a response allocated {} bytes", b.len(), a2 - a1);
    if let Ok(m) = &rq {
        ensure!(m.to_bytes() == b, "accepts-garbage", "{what}: {:?} decodes to the request {}, which is encoded differently", &b[..b.len().min(80)], brief(m));
    }
    if let Ok(m) = &rs {
        ensure!(m.to_bytes() == b, "accepts-garbage", "{what}: {:?} decodes to the response {}, which is encoded differently", &b[..b.len().min(80)], brief(m));
    }
    ensure!(rq.is_ok() == grammar::request(b), "request-validity", "{what}: {:?} as a request: {:?}", &b[..b.len().min(80)], rq.as_ref().map(brief));
    if let Some(ok) = grammar::response(b) {
        ensure!(rs.is_ok() == ok, "response-validity", "{what}: {:?} as a response: {:?}", &b[..b.len().min(80)], rs.as_ref().map(brief));
    }
    Ok((rq.is_ok(), rs.is_ok()))
}

fn codec_case(src: &mut Src, cx: &mut Cx) -> Res {
    // a pipeline of messages through one stream
    let n = 1 + src.usize(6);
    let step = 1 + src.usize(if src.chance(1, 2) { 7 } else { 5000 });
    let reqs: Vec<Request> = (0..n).map(|_| request(src)).collect();
    let resps: Vec<Response> = (0..n).map(|_| response(src)).collect();
    let mut w = ChoppyW { out: vec![], step, n: 0 };
    for r in &reqs {
        cx.log(format!("send {}", brief(r)));
        if let Err(e) = send_request(&mut w, r) {
            return viol("send", format!("send_request failed on a writer that accepts short writes: {e}"));
        }
    }
    let mut rd = Choppy { data: &w.out, pos: 0, step, n: 0, served: 0 };
    for r in &reqs {
        cx.eval(true);
        match recv_request(&mut rd) {
            Ok(g) => ensure!(same_req(&g, r), "request-roundtrip", "sent {} received {}", brief(r), brief(&g)),
            Err(e) => return viol("request-recv", format!("sent {} received error {e}", brief(r))),
        }
    }
    ensure!(rd.pos == w.out.len(), "framing", "{} bytes left after the last request", w.out.len() - rd.pos);
    ensure!(recv_request(&mut rd).is_err(), "framing", "a request was received from an empty stream");
    let mut w2 = ChoppyW { out: vec![], step: step.max(64), n: 0 };
    for r in &resps {
        cx.log(format!("reply {}", brief(r)));
        if let Err(e) = send_response(&mut w2, r) {
            return viol("send", format!("send_response failed: {e}"));
        }
    }
    let mut rd = Choppy { data: &w2.out, pos: 0, step: step.max(64), n: 0, served: 0 };
    for r in &resps {
        cx.eval(true);
        match recv_response(&mut rd) {
            Ok(g) => ensure!(same_resp(&g, r), "response-roundtrip", "sent {} received {}", brief(r), brief(&g)),
            Err(e) => return viol("response-recv", format!("sent {} received error {e}", brief(r))),
        }
    }
    ensure!(rd.pos == w2.out.len(), "framing", "{} bytes left after the last response", w2.out.len() - rd.pos);
    // truncated streams end in an error
    if !w.out.is_empty() {
        let cut = src.usize(w.out.len());
        let mut rd = Choppy { data: &w.out[..cut], pos: 0, step, n: 0, served: 0 };
        let mut got = 0;
        while let Ok(g) = recv_request(&mut rd) {
            ensure!(got < n && same_req(&g, &reqs[got]), "truncated", "a truncated stream gave {}", brief(&g));
            got += 1;
        }
        ensure!(got < n, "truncated", "a stream cut {cut} bytes in still gave every request");
    }
    cx.class("codec");
    cx.distinct(cx.trace_hash());
    Ok(())
}

fn garbage_case(src: &mut Src, cx: &mut Cx) -> Res {
    let (mut acc, mut rej) = (0u64, 0u64);
    for k in 0..30 {
        let mut b = match src.weighted(&[4, 6, 3]) {
            0 => request(src).to_bytes(),
            1 => response(src).to_bytes(),
            _ => {
                let n = src.usize(40);
                let mut v: Vec<u8> = (0..n).map(|_| src.below(256) as u8).collect();
                if !v.is_empty() && src.chance(3, 4) {
                    v[0] = 1;
                }
                if v.len() > 1 && src.chance(3, 4) {
                    v[1] = src.below(14) as u8;
                }
                v
            }
        };
        mutate(src, &mut b);
        if k < 4 {
            cx.log(format!("bytes {:02x?}{}", &b[..b.len().min(48)], if b.len() > 48 { "..." } else { "" }));
        }
        let (q, r) = decode_check(&b, "mutated message")?;
        if q || r { acc += 1 } else { rej += 1 }
        cx.eval(!(q || r));
        cx.distinct(mix(&b.iter().map(|x| *x as u64).collect::<Vec<_>>()));
    }
    // a stream of garbage: every frame is either received or refused, and nothing is read past a refused header
    let n = src.usize(64);
    let mut stream: Vec<u8> = (0..n).map(|_| src.below(256) as u8).collect();
    if src.chance(2, 3) && stream.len() >= 4 {
        let len = match src.usize(4) {
            0 => MAX_MESSAGE_SIZE as u32 + 1 + src.below(5) as u32,
            1 => u32::MAX - src.below(5) as u32,
            2 => src.below(1 << 24) as u32,
            _ => src.below(64) as u32,
        };
        stream[..4].copy_from_slice(&len.to_le_bytes());
    }
    let mut rd = Choppy { data: &stream, pos: 0, step: 1 + src.usize(9), n: 0, served: 0 };
    let a0 = allocated();
    let r = read_message(&mut rd);
    let used = allocated() - a0;
    ensure!(used <= MAX_MESSAGE_SIZE as u64 + (1 << 20), "alloc", "reading one frame of a {}-byte stream allocated {used} bytes", stream.len());
    let announced = (stream.len() >= 4).then(|| u32::from_le_bytes(stream[..4].try_into().unwrap()) as usize);
    match (announced, &r) {
        (None, Ok(_)) => return viol("framing", "a frame was read from fewer than four bytes"),
        (Some(l), Ok(m)) => ensure!(l <= MAX_MESSAGE_SIZE && m.len() == l && stream.len() >= 4 + l && m[..] == stream[4..4 + l], "framing", "frame of announced length {l} read as {} bytes", m.len()),
        (Some(l), Err(e)) => {
            ensure!(stream.len() < 4 + l, "framing", "a complete frame of {l} bytes was refused: {e}");
            if l > MAX_MESSAGE_SIZE {
                ensure!(matches!(e, TcpError::MessageTooLarge(_)) && rd.pos == 4, "framing", "an oversize frame gave {e} after {} bytes", rd.pos);
            }
        }
        _ => {}
    }
    cx.class_n("mutants accepted", acc);
    cx.class_n("mutants rejected", rej);
    cx.class("garbage");
    Ok(())
}

fn big_case(src: &mut Src, cx: &mut Cx) -> Res {
    // sizes around the frame limit
    let overhead = Request::Sql(String::new()).to_bytes().len();
    let d = src.range(-3, 3);
    let len = (MAX_MESSAGE_SIZE - overhead) as i64 + d;
    cx.log(format!("frame of limit {d:+}"));
    let s = if src.chance(1, 2) { "x".repeat(len as usize) } else { format!("{}{}", "é".repeat((len / 2) as usize), if len % 2 == 1 { "y" } else { "" }) };
    let is_req = src.chance(1, 2);
    let mut out = Vec::new();
    let r = if is_req { send_request(&mut out, &Request::Sql(s.clone())) } else { send_response(&mut out, &Response::Ok(s.clone())) };
    cx.eval(true);
    cx.distinct(mix(&[d as u64, is_req as u64, s.as_bytes()[0] as u64]));
    cx.class("limit");
    if d <= 0 {
        if let Err(e) = r {
            return viol("limit", format!("a message {d:+} from the limit was refused: {e}"));
        }
        let mut rd = &out[..];
        let ok = if is_req {
            matches!(recv_request(&mut rd), Ok(Request::Sql(t)) if t == s)
        } else {
            matches!(recv_response(&mut rd), Ok(Response::Ok(t)) if t == s)
        };
        ensure!(ok, "limit", "a message {d:+} from the limit was not received as sent");
    } else {
        ensure!(matches!(r, Err(TcpError::MessageTooLarge(_))), "limit", "a message {d:+} from the limit was not refused");
        ensure!(out.is_empty(), "limit", "a refused message still wrote {} bytes", out.len());
    }
    let mut sink = Vec::new();
    ensure!(write_message(&mut sink, &[]).is_ok() && read_message(&mut &sink[..]).is_ok_and(|m| m.is_empty()), "framing", "the empty frame");
    Ok(())
}

// ------------------------------------------------------------------ a real server

struct Srv {
    child: Child,
    port: u16,
}
impl Drop for Srv {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
fn free_port() -> u16 {
    std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port()
}
fn start(dir: &std::path::Path) -> Option<Srv> {
    let exe = std::env::current_exe().unwrap().with_file_name("axserver");
    for _ in 0..5 {
        let port = free_port();
        let mut cmd = Command::new(&exe);
        unsafe {
            use std::os::unix::process::CommandExt;
            cmd.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let child = cmd
            .args(["-p", &port.to_string(), "--cache-size", "4000", "--pool-size", "2", "-f"])
            .arg(dir.join("db.axm"))
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .ok()?;
        let mut s = Srv { child, port };
        let t = Instant::now();
        while t.elapsed() < Duration::from_secs(10) {
            if s.child.try_wait().ok()?.is_some() {
                break;
            }
            if let Some(mut c) = connect(port) {
                if send_request(&mut c, &Request::Ping).is_ok() && matches!(recv_response(&mut c), Ok(Response::Pong)) {
                    return Some(s);
                }
            }
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    None
}
fn connect(port: u16) -> Option<TcpStream> {
    let c = TcpStream::connect(("127.0.0.1", port)).ok()?;
    c.set_read_timeout(Some(Duration::from_secs(15))).ok()?;
    c.set_write_timeout(Some(Duration::from_secs(15))).ok()?;
    c.set_nodelay(true).ok()?;
    Some(c)
}
fn peak_kb(pid: u32) -> u64 {
    std::fs::read_to_string(format!("/proc/{pid}/status"))
        .ok()
        .and_then(|s| s.lines().find(|l| l.starts_with("VmHWM")).and_then(|l| l.split_whitespace().nth(1).and_then(|x| x.parse().ok())))
        .unwrap_or(0)
}

fn render(r: QueryResult) -> Response {
    match r {
        QueryResult::Rows(rows) => {
            let columns = if rows.is_empty() { vec![] } else { (0..rows.num_columns()).map(|i| rows.column(i).unwrap().to_string()).collect() };
            let data = rows.iterrows().map(|r| r.iter().map(|v| v.to_string()).collect()).collect();
            Response::Rows { columns, data }
        }
        QueryResult::RowsAffected(n) => Response::RowsAffected(n),
        QueryResult::Ddl(o) => Response::Ddl(format!("{o:?}")),
    }
}

fn server_case(src: &mut Src, cx: &mut Cx) -> Res {
    let dir = cx.fresh_dir("srv");
    let srv = match start(&dir) {
        Some(s) => s,
        None => return viol("HARNESS", "could not start the server"),
    };
    let dir2 = cx.fresh_dir("local");
    let db = Database::create(dir2.join("db.axm"), DBConfig::new(4096, 4000, 2, 3, 2)).expect("local database");
    let mut c = connect(srv.port).ok_or(Violation { kind: "HARNESS".into(), msg: "connect".into() })?;
    let pid = srv.child.id();
    let base = peak_kb(pid);
    let mut garbage = 0;
    let mut big_done = false;
    let mut rows_seen = 0u64;
    let ask = |c: &mut TcpStream, r: &Request| -> Result<Response, Violation> {
        send_request(c, r).map_err(|e| Violation { kind: "server-send".into(), msg: format!("sending {} failed: {e}", brief(r)) })?;
        recv_response(c).map_err(|e| Violation { kind: "server-recv".into(), msg: format!("no answer to {}: {e}", brief(r)) })
    };
    let words = ["", "plain", "ünïcödé", "中文字", "\u{1F600}x", "a b  c", "tab\tx"];
    let both = |c: &mut TcpStream, sql: &str, cx: &mut Cx| -> Result<u64, Violation> {
        cx.log(format!("sql {}", brief(&sql)));
        let want = db.execute(sql).map(render);
        let got = ask(c, &Request::Sql(sql.to_string()))?;
        cx.eval(true);
        match want {
            Ok(w) => {
                let too_big = w.to_bytes().len() > MAX_MESSAGE_SIZE;
                if too_big {
                    ensure!(matches!(got, Response::Error(_)), "server-oversize", "an answer larger than a frame came back as {}", brief(&got));
                } else {
                    ensure!(same_resp(&got, &w), "server-answer", "{sql}: the server answered {} where the database gives {}", brief(&got), brief(&w));
                }
                Ok(match w {
                    Response::Rows { data, .. } => data.len() as u64,
                    _ => 0,
                })
            }
            Err(_) => {
                ensure!(matches!(got, Response::Error(_)), "server-answer", "{sql}: the server answered {} where the database gives an error", brief(&got));
                Ok(0)
            }
        }
    };
    both(&mut c, "CREATE TABLE t (id INT, s TEXT, d DOUBLE)", cx)?;
    for step in 0..6 + src.usize(20) {
        match src.weighted(&[6, 6, 8, 2, 2, 1]) {
            0 => {
                let n = 1 + src.usize(30);
                let mut v = vec![];
                for _ in 0..n {
                    let s = if src.chance(1, 6) { "é".repeat(src.usize(3000)) } else { src.pick(&words).to_string() };
                    let s = if src.chance(1, 8) { "NULL".into() } else { format!("'{s}'") };
                    v.push(format!("({}, {s}, {}.5)", src.below(100), src.below(1000)));
                }
                both(&mut c, &format!("INSERT INTO t (id, s, d) VALUES {}", v.join(", ")), cx)?;
            }
            1 => {
                let q = *src.pick(&["SELECT id, s, d FROM t", "SELECT s FROM t WHERE id < 50", "SELECT id FROM t WHERE id > 1000", "SELECT COUNT(*) FROM t", "SELECT nope FROM t", "DELETE FROM t WHERE id = 3", "SELEC", ""]);
                rows_seen += both(&mut c, q, cx)?;
            }
            2 => {
                // one frame of garbage
                garbage += 1;
                let mut b = if src.chance(1, 2) { request(src).to_bytes() } else { response(src).to_bytes() };
                mutate(src, &mut b);
                if grammar::request(&b) || b.len() > 300_000 {
                    continue;
                }
                cx.log(format!("garbage frame {:02x?}{}", &b[..b.len().min(40)], if b.len() > 40 { "..." } else { "" }));
                cx.eval(true);
                if let Err(e) = write_message(&mut c, &b) {
                    return viol("server-send", format!("step {step}: {e}"));
                }
                match recv_response(&mut c) {
                    Ok(Response::Error(_)) => {}
                    Ok(o) => return viol("server-garbage", format!("step {step}: {:02x?} was answered with {}", &b[..b.len().min(40)], brief(&o))),
                    Err(e) => return viol("server-garbage", format!("step {step}: {:02x?} was not answered with a protocol error: {e}", &b[..b.len().min(40)])),
                }
                // The server may close or keep the connection; both are fine.
                if send_request(&mut c, &Request::Ping).is_err() || !matches!(recv_response(&mut c), Ok(Response::Pong)) {
                    c = match connect(srv.port) {
                        Some(c) => c,
                        None => return viol("server-dead", format!("step {step}: the server does not accept connections after garbage")),
                    };
                }
            }
            3 => {
                garbage += 1;
                let len = if src.chance(1, 2) { u32::MAX - src.below(3) as u32 } else { MAX_MESSAGE_SIZE as u32 + 1 + src.below(3) as u32 };
                cx.log(format!("frame header announcing {len} bytes"));
                cx.eval(true);
                let mut x = connect(srv.port).ok_or(Violation { kind: "server-dead".into(), msg: "connect".into() })?;
                let _ = x.write_all(&len.to_le_bytes());
                match recv_response(&mut x) {
                    Ok(Response::Error(_)) => {}
                    o => return viol("server-garbage", format!("step {step}: a frame announcing {len} bytes was answered with {:?}", o.map(|r| brief(&r)))),
                }
            }
            4 => {
                // a client that goes away in the middle of a frame
                garbage += 1;
                cx.log("half a frame, then the client closes");
                let mut x = connect(srv.port).ok_or(Violation { kind: "server-dead".into(), msg: "connect".into() })?;
                let _ = x.write_all(&100u32.to_le_bytes());
                let _ = x.write_all(&[1, 3, 9]);
                let _ = x.shutdown(std::net::Shutdown::Write);
                let mut rest = Vec::new();
                if let Err(e) = x.read_to_end(&mut rest) {
                    ensure!(e.kind() != io::ErrorKind::WouldBlock && e.kind() != io::ErrorKind::TimedOut, "server-hang", "step {step}: the server neither answers nor closes");
                }
            }
            _ => {
                // a result set that may be larger than a frame (once per case: it is large in memory too)
                if big_done {
                    continue;
                }
                big_done = true;
                let k = 3 + src.usize(6);
                let w = "w".repeat(20_000 + src.usize(12_000));
                both(&mut c, "CREATE TABLE IF NOT EXISTS big (s TEXT)", cx)?;
                for _ in 0..k {
                    both(&mut c, &format!("INSERT INTO big (s) VALUES ('{w}')"), cx)?;
                }
                rows_seen += both(&mut c, "SELECT a.s, b.s FROM big a, big b, big d", cx)?;
                cx.class("large result");
            }
        }
        ensure!(matches!(ask(&mut c, &Request::Ping)?, Response::Pong), "server-ping", "step {step}: no pong");
    }
    let peak = peak_kb(pid);
    ensure!(peak < base + 900 * 1024, "server-memory", "the server grew from {base} kB to {peak} kB");
    drop(c);
    cx.class("server");
    if garbage > 0 && rows_seen > 0 {
        cx.class("server with garbage and rows");
    }
    cx.distinct(cx.trace_hash());
    Ok(())
}

impl Property for C20 {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "a case is (a) a pipeline of random requests and responses sent through streams that deliver short reads and interruptions, (b) thirty mutated or random byte strings given to the decoders and one to the frame reader, (c) a message around the 16 MiB limit, or (d) a dialogue with a real axmos-server process mixing SQL (compared with an embedded database) and garbage frames; distinct by its messages/bytes, and every counted one is non-trivial in that it has at least one message or mutant"
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "a byte string is a valid message iff it is exactly the encoding of one (no trailing bytes, valid UTF-8)".into(),
            "decoding may allocate at most 4 MiB + 64 bytes per received byte".into(),
            "result sets have rows of the width of their column list".into(),
        ]
    }
    fn plan(&self, thorough: bool) -> Plan {
        Plan { cases: if thorough { 400_000 } else { 24_000 }, batch: 50, timeout_s: 60, shrink_s: 40, workers: 8, budget_s: if thorough { 800 } else { 250 } }
    }
    fn run_case(&self, src: &mut Src, cx: &mut Cx) -> Res {
        // contain a runaway allocation
        let lim = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim) };
        match src.weighted(&[400, 560, 6, 34]) {
            0 => codec_case(src, cx),
            1 => garbage_case(src, cx),
            2 => big_case(src, cx),
            _ => server_case(src, cx),
        }
    }
}

//! Runs of the HTTP server over the simulated network: several lives of one server, clients that
//! behave, stall, break off, or send nonsense.
use crate::db::{self, Db, WErr};
use crate::model::*;
use crate::pb::{self, Dec};
use crate::plan::*;
use crate::scen_db::{permute, resolve_want, Ctx, FLUSH_NS, MS};
use simcore as sc;
use std::collections::BTreeMap;
use std::io::{ErrorKind, Read, Write};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vsim_std::net::{Shutdown, TcpStream};

const FOREVER: u64 = i64::MAX as u64;

/// The server's database seen from outside; only its window is ever asked for, inside the server's process.
struct Remote { p: sc::ProcId, db: Arc<dyn Db> }
/// A server of which nothing but its address is known. These bounds are certainly inside its first
/// window, as long as that lasts.
struct Unseen(u64, u64);
impl Db for Unseen {
    fn write(&self, _: &LSet, _: u64, _: u64) -> Result<(), WErr> { Err(WErr::Other("remote".into())) }
    fn write_batch(&self, _: &LSet, _: &[(u64, u64)]) -> Result<(), WErr> { Err(WErr::Other("remote".into())) }
    fn query(&self, _: &LSet, _: u64, _: u64) -> Result<Rows, String> { Err("remote".into()) }
    fn serve(&self, _: i32, _: usize, _: &(String, String)) -> Result<(), String> { Err("remote".into()) }
    fn window(&self) -> Option<(u64, u64)> { if (sc::wall_ms() as u64) < self.1 { Some((self.0, self.1)) } else { None } }
}
fn conf_path(p: &HttpPlan) -> &'static str { [db::TIKV_YAML, "tikv.yaml", "./conf/tikv.yml", "/sim/etc/monolith.conf", "../etc/my tikv"][p.conf.0 as usize % 5] }
/// what the configuration file says, and the endpoints it names
fn conf_text(p: &HttpPlan) -> (&'static str, &'static [&'static str]) {
    if p.dry == 2 { return [("dry_run: true\n", &[][..]), ("dry_run: true\npd_endpoints:\n  - 127.0.0.1:2379\n", &[][..]), ("pd_endpoints: [\"127.0.0.1:2379\"]\ndry_run: true\n", &[][..])][p.conf.1 as usize % 3]; }
    [("pd_endpoints:\n  - 127.0.0.1:2379\ndry_run: false\n", &["127.0.0.1:2379"][..]),
     ("# the cluster\npd_endpoints:\n  - \"pd-0.tikv:2379\"\n  - pd-1.tikv:2379\n  - pd-2.tikv:2379\n", &["pd-0.tikv:2379", "pd-1.tikv:2379", "pd-2.tikv:2379"][..]),
     ("---\ndry_run: false\npd_endpoints: [10.0.0.7:2379, '10.0.0.8:12379']\n", &["10.0.0.7:2379", "10.0.0.8:12379"][..]),
     ("pd_endpoints: ['[::1]:2379']", &["[::1]:2379"][..])][p.conf.1 as usize % 4]
}
/// The command line of a server with the plan's options.
fn command_line(p: &HttpPlan, dir: &str, other: &Option<(String, String)>) -> Vec<String> {
    let mut v = vec!["monolith-server".to_string()];
    let mut left = other.clone();
    let mut opt = |k: &str, val: String, default: &str| if let Some((_, x)) = left.take_if(|x| x.0 == k) { v.push(format!("--{}={}", k, x)); } else if !(p.terse && val == default) { if p.short && ["storage", "indexer", "file_dir"].contains(&k) { v.push(format!("-{}", if k == "file_dir" { "d" } else { &k[..1] })); v.push(val); } else if p.port % 2 == 0 { v.push(format!("--{}={}", k, val)); } else { v.push(format!("--{}", k)); v.push(val); } };
    let e = |t: bool| if t { "tikv" } else { "sled" }.to_string();
    opt("port", p.port.to_string(), "9001");
    opt("storage", e(p.kv.0), "sled");
    opt("chunk_size", (p.chunk_ms / 1000).to_string(), "12000");
    opt("file_dir", dir.to_string(), "");
    opt("read_path", p.paths.1.clone(), "/read");
    opt("indexer", e(p.kv.1), "sled");
    opt("write_path", p.paths.0.clone(), "/write");
    opt("worker_num", p.workers.to_string(), "8");
    if (p.kv.0 || p.kv.1) && p.dry != 1 { opt("tikv_config", conf_path(p).to_string(), ""); }
    if let Some((k, x)) = left { v.push(format!("--{}={}", k, x)); }
    v
}
#[cfg(feature = "bin")]
fn run_main(p: &HttpPlan, dir: &str, other: &Option<(String, String)>) { let a = command_line(p, dir, other); sc::note(|| format!("command line {:?}", a)); crate::args::set(&a); server_bin::vsim_main(); }
#[cfg(not(feature = "bin"))]
fn run_main(_: &HttpPlan, _: &str, _: &Option<(String, String)>) { let _ = command_line; unreachable!() }
impl Db for Remote {
    fn write(&self, _: &LSet, _: u64, _: u64) -> Result<(), WErr> { Err(WErr::Other("remote".into())) }
    fn write_batch(&self, _: &LSet, _: &[(u64, u64)]) -> Result<(), WErr> { Err(WErr::Other("remote".into())) }
    fn query(&self, _: &LSet, _: u64, _: u64) -> Result<Rows, String> { Err("remote".into()) }
    fn serve(&self, _: i32, _: usize, _: &(String, String)) -> Result<(), String> { Err("remote".into()) }
    fn window(&self) -> Option<(u64, u64)> {
        if sc::proc_exit(self.p).is_some() { return None; }
        let d = self.db.clone();
        let h = sc::spawn_task("window", self.p, move || d.window());
        h.join_deadline(Some(sc::now_ns() + 2_000 * MS)).and_then(|r| r.ok()).flatten()
    }
}

#[derive(Clone)]
struct H { cx: Ctx, p: Arc<HttpPlan>, srv: sc::ProcId, fixed: Option<(u64, u64)> }
/// a connection kept open, with bytes received but not used yet
#[derive(Default)]
struct Keep { c: Option<(TcpStream, Vec<u8>)> }

#[derive(Debug)]
enum Resp { Got(u16, Vec<u8>), Late, Gone(String), /// the client did not wait
    Unasked }
struct Sent { resp: Resp, complete: bool, reused: bool, extra: bool }

struct Rd<'a> { s: &'a TcpStream, buf: Vec<u8>, at: usize, until: u64, forced: u64, bite: usize, pause: u64 }
impl Rd<'_> {
    /// one more piece from the network; Ok(false): end of stream
    fn more(&mut self) -> Result<bool, Resp> {
        loop { match self.once() { Err(Resp::Late) if self.patience() => {} r => return r } }
    }
    fn start(&mut self, dl: u64) { self.until = sc::now_ns() + dl; self.forced = sc::with(|st| st.forced); }
    /// time that a forced timer jump skipped was no chance for the server to answer
    fn patience(&mut self) -> bool {
        let f = sc::with(|st| st.forced);
        let more = f - self.forced;
        self.forced = f;
        self.until += more;
        more > 0
    }
    fn once(&mut self) -> Result<bool, Resp> {
        let now = sc::now_ns();
        if now >= self.until { return Err(Resp::Late); }
        let _ = self.s.set_read_timeout(Some(Duration::from_nanos(self.until - now)));
        let mut b = vec![0u8; self.bite];
        if self.pause > 0 { sc::sleep_ns(self.pause); }
        let mut s = self.s;
        match s.read(&mut b) {
            Ok(0) => Ok(false),
            Ok(n) => { self.buf.extend_from_slice(&b[..n]); Ok(true) }
            Err(e) if e.kind() == ErrorKind::WouldBlock => Err(Resp::Late),
            Err(e) => Err(Resp::Gone(e.to_string())),
        }
    }
    fn line(&mut self) -> Result<String, Resp> {
        loop {
            if let Some(k) = self.buf[self.at..].windows(2).position(|w| w == b"\r\n") {
                let l = String::from_utf8_lossy(&self.buf[self.at..self.at + k]).to_string();
                self.at += k + 2;
                return Ok(l);
            }
            if !self.more()? { return Err(Resp::Gone("end of stream".into())); }
        }
    }
    fn take(&mut self, n: usize) -> Result<Vec<u8>, Resp> {
        while self.buf.len() - self.at < n { if !self.more()? { return Err(Resp::Gone("end of stream within a body".into())); } }
        let v = self.buf[self.at..self.at + n].to_vec();
        self.at += n;
        Ok(v)
    }
    fn response(&mut self) -> Result<(u16, Vec<u8>), Resp> {
        loop {
            let l = self.line()?;
            let bad = |m: &str| Err(Resp::Gone(format!("malformed response: {}", m)));
            if !l.starts_with("HTTP/1.") { return bad(&l); }
            let code: u16 = match l.split(' ').nth(1).and_then(|c| c.parse().ok()) { Some(c) => c, None => return bad(&l) };
            let (mut len, mut chunked) = (None, false);
            loop {
                let h = self.line()?;
                if h.is_empty() { break; }
                let (k, v) = match h.split_once(':') { Some((k, v)) => (k.trim().to_ascii_lowercase(), v.trim().to_string()), None => return bad(&h) };
                if k == "content-length" { len = v.parse::<usize>().ok(); }
                if k == "transfer-encoding" && v.to_ascii_lowercase().contains("chunked") { chunked = true; }
            }
            if code == 100 { continue; }
            if chunked {
                let mut b = vec![];
                loop {
                    let l = self.line()?;
                    let n = match usize::from_str_radix(l.split(';').next().unwrap_or("").trim(), 16) { Ok(n) => n, Err(_) => return bad(&l) };
                    if n == 0 { while !self.line()?.is_empty() {} break; }
                    b.extend(self.take(n)?);
                    self.take(2)?;
                }
                return Ok((code, b));
            }
            let n = len.unwrap_or(0);
            let b = self.take(n)?;
            return Ok((code, b));
        }
    }
}

fn encode(body: &[u8]) -> Vec<u8> { snap::raw::Encoder::new().compress_vec(body).unwrap() }
/// no element of the format stands for more than 64 bytes in place of 3, so longer claims are lies
fn decompress(b: &[u8]) -> Option<Vec<u8>> { if snap::raw::decompress_len(b).ok()? > 100 + b.len() * 64 { return None; } snap::raw::Decoder::new().decompress_vec(b).ok() }
/// the body that is sent for a protobuf message, and whether the path is the right one
fn mangle(raw: Vec<u8>, m: &Mangle) -> (Vec<u8>, bool) {
    let z = encode(&raw);
    let cut = |v: &[u8], p: u32| v[..(v.len() as u64 * (p as u64 % 1000) / 1000) as usize].to_vec();
    (match m {
        Mangle::No => z,
        Mangle::WrongPath => return (z, false),
        Mangle::Truncate(p) => cut(&z, *p),
        Mangle::Flip(p, x) => { let mut z = z; if !z.is_empty() { let k = *p as usize % z.len(); z[k] ^= (*x).max(1); } z }
        Mangle::Empty => vec![],
        Mangle::Garbage(n) => (0..(*n % 300)).map(|i| sc::rng::mix(*n as u64 * 7919 + i as u64) as u8).collect(),
        Mangle::BadSnappyLen => { let mut z = z; if let Some(b) = z.first_mut() { *b = b.wrapping_add(1) & 0x7f; } z }
        Mangle::RawProto(p) => { let mut r = raw; if !r.is_empty() { let k = *p as usize % r.len(); r[k] = r[k].wrapping_add(1 + (*p >> 16) as u8 % 9); } encode(&r) }
        Mangle::TruncateProto(p) => encode(&cut(&raw, *p)),
        Mangle::NotCompressed => raw,
        Mangle::Claim(n) => { let k = z.iter().position(|b| b & 0x80 == 0).map_or(0, |k| k + 1); let (mut v, mut n) = (vec![], *n); while n > 127 { v.push(n as u8 | 0x80); n >>= 7; } v.push(n as u8); v.extend_from_slice(&z[k..]); v }
    }, true)
}

impl H {
    fn w(&self) -> std::sync::MutexGuard<'_, World> { self.cx.wd.g() }
    fn dead(&self) -> bool { sc::proc_exit(self.srv).is_some() }
    fn window(&self) -> Option<(u64, u64)> { if self.fixed.is_some() { self.fixed } else { self.cx.db.window() } }

    /// the path of an endpoint, or one much like it that is none
    fn path(&self, write: bool, right: bool, k: usize) -> String {
        let p = if write { &self.p.paths.0 } else { &self.p.paths.1 };
        if right { return p.clone(); }
        let wrong = match k % 8 { 0 => format!("{}/", p), 1 => p.to_ascii_uppercase(), 2 => format!("{}x", p), 3 => p[..p.len() - 1].to_string(), 4 => format!("/x{}", p), 5 => "/".to_string(), 6 => format!("/{}", p), _ => "/wrote".to_string() };
        if wrong.is_empty() || wrong == self.p.paths.0 || wrong == self.p.paths.1 { "/neither".to_string() } else { wrong }
    }

    /// Send one request in the given manner and wait for the answer.
    fn send(&self, keep: &mut Keep, path: &str, body: &[u8], how: &How) -> Sent {
        let mut out = Sent { resp: Resp::Unasked, complete: false, reused: false, extra: false };
        let dl = self.p.deadline_ms * MS;
        let alive = matches!(how, How::KeepAlive);
        let prev = if alive { keep.c.take() } else { None };
        let (s, left) = match prev {
            Some((s, left)) => { out.reused = true; if !left.is_empty() { out.extra = true; } (s, left) }
            None => match TcpStream::connect(("127.0.0.1", self.p.port)) { Ok(s) => (s, vec![]), Err(e) => { out.resp = Resp::Gone(format!("connect: {}", e)); return out; } },
        };
        let mut req = format!("POST {} HTTP/1.1\r\nHost: m\r\nContent-Encoding: snappy\r\nContent-Type: application/x-protobuf\r\n", path).into_bytes();
        if !alive { req.extend_from_slice(b"Connection: close\r\n"); }
        let chunked = matches!(how, How::Chunked);
        if chunked { req.extend_from_slice(b"Transfer-Encoding: chunked\r\n"); } else { req.extend_from_slice(format!("Content-Length: {}\r\n", body.len()).as_bytes()); }
        if *how == How::Expect { req.extend_from_slice(b"Expect: 100-continue\r\n"); }
        req.extend_from_slice(b"\r\n");
        let head = req.len();
        if chunked {
            let k = body.len() / 3 + 1;
            for c in body.chunks(k) { req.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes()); req.extend_from_slice(c); req.extend_from_slice(b"\r\n"); }
            req.extend_from_slice(b"0\r\n\r\n");
        } else { req.extend_from_slice(body); }
        let _ = s.set_write_timeout(Some(Duration::from_nanos(dl + 30_000 * MS)));
        let put = |b: &[u8]| -> std::io::Result<()> { let mut w = &s; w.write_all(b) };
        let part = |pm: u32| (req.len() as u64 * pm.min(1000) as u64 / 1000) as usize;
        let mut rd = Rd { s: &s, buf: left, at: 0, until: 0, forced: 0, bite: 4096, pause: 0 };
        let mut sent_all = true;
        let mut finished = true; // the client goes on to read
        let r = (|| -> std::io::Result<()> {
            match how {
                How::Normal | How::KeepAlive | How::Chunked => put(&req)?,
                How::SlowRead(ms) => { put(&req)?; rd.bite = 64; sc::sleep_ns(ms * MS); }
                How::ResetAfter => { put(&req)?; s.sim_reset(); finished = false; }
                How::Slow(k, ms) => { let n = req.len() / (*k as usize).max(1) + 1; for c in req.chunks(n) { put(c)?; sc::sleep_ns(ms * MS); } }
                How::ResetAt(pm) => { sent_all = part(*pm) == req.len(); put(&req[..part(*pm)])?; s.sim_reset(); finished = false; }
                How::CloseAt(pm) => { sent_all = part(*pm) == req.len(); put(&req[..part(*pm)])?; let _ = s.shutdown(Shutdown::Write); }
                How::StallAt(pm, ms, fin) => { let k = part(*pm); put(&req[..k])?; sc::sleep_ns(ms * MS); if *fin { put(&req[k..])?; } else { sent_all = k == req.len(); finished = false; } }
                How::Expect => { put(&req[..head])?; }
            }
            Ok(())
        })();
        let broke = r.is_err();
        rd.start(dl);
        if *how == How::Expect && !broke {
            // wait for the go-ahead (or for a final answer)
            let first = (|| { let l = rd.line()?; if l.contains(" 100") { while !rd.line()?.is_empty() {} Ok(true) } else { Ok(false) } })();
            match first {
                Ok(true) => { if put(&req[head..]).is_err() { sent_all = false; } rd.start(dl); }
                Ok(false) => { sent_all = false; rd.at = 0; }
                Err(x) => { out.resp = x; out.complete = body.is_empty(); return out; }
            }
        }
        out.complete = sent_all && !broke;
        if !finished { return out; }
        let got = rd.response();
        match got {
            Ok((c, b)) => {
                out.resp = Resp::Got(c, b);
                if alive { let left = rd.buf[rd.at..].to_vec(); drop(rd); keep.c = Some((s, left)); return out; }
                // nothing else may follow on this connection
                loop { match rd.more() { Ok(true) => { if rd.buf.len() - rd.at > 1 << 20 { break; } } _ => break } }
                if rd.buf.len() > rd.at { out.extra = true; }
            }
            Err(x) => out.resp = x,
        }
        out
    }
    /// judgements common to reads and writes; the status and body of a final answer
    fn common(&self, s: &Sent, what: &str, how: &How) -> Option<(u16, Vec<u8>)> {
        let mut w = self.w();
        if s.extra { w.fail("extra-response", format!("{}: more bytes followed the response", what)); }
        match &s.resp {
            Resp::Got(c, b) => { w.count("responses judged"); return Some((*c, b.clone())); }
            Resp::Unasked => {}
            Resp::Late | Resp::Gone(_) if !s.complete => w.count("incomplete requests without a response"),
            Resp::Gone(_) if s.reused => w.count("kept connections closed by the server"),
            r => if !self.dead() {
                let m = format!("{} sent {:?} got no response: {}", what, how, match r { Resp::Late => format!("nothing for {} ms", self.p.deadline_ms), Resp::Gone(e) => e.clone(), _ => String::new() });
                w.fail(if self.p.strict { "blocked" } else { "no-response" }, m);
            }
        }
        None
    }
    fn write(&self, keep: &mut Keep, series: &pb::Series, m: &Mangle, how: &How) -> bool {
        let (body, right) = mangle(pb::enc_write(series), m);
        let dec = match decompress(&body) { Some(r) => pb::dec_write(&r), None => Dec::Invalid };
        // a server may as well refuse series without labels or with two values for one name
        let odd = match &dec { Dec::Valid(v) => v.iter().any(|(l, _)| { let mut k: Vec<&String> = l.iter().map(|x| &x.0).collect(); k.sort(); k.dedup(); k.len() != l.len() || l.is_empty() }), _ => false };
        if dec == Dec::Odd { return false; }
        let w1 = self.window();
        let b = sc::stamp();
        let mut ids: Vec<(usize, u64)> = vec![];
        if let (Dec::Valid(v), true) = (&dec, right) {
            let mut w = self.w();
            for (l, ps) in v { for (ts, bits) in ps { ids.push((w.begin(0, l, *ts as u64, *bits, b), *ts as u64)); } }
        }
        let s = self.send(keep, &self.path(true, right, body.len()), &body, how);
        let e = sc::stamp();
        let now = sc::now_ns();
        let got = self.common(&s, "write", how);
        let ok = matches!(got, Some((c, _)) if (200..300).contains(&c));
        let w2 = if ok { self.window() } else { None };
        let mut w = self.w();
        for (id, ts) in &ids {
            let st = match (ok, w1, w2) { (false, _, _) => St::Failed, (true, Some((a, z)), Some(x)) if (a, z) == x && a < *ts && *ts < z => St::Acked, _ => St::Maybe };
            w.finish(*id, st, e, now);
        }
        let (c, _) = match got { Some(x) => x, None => return false };
        if c < 200 || c >= 600 { w.fail("bad-status", format!("write: status {}", c)); }
        if ok {
            w.count("write requests acknowledged");
            if !right { w.fail("bad-status", format!("a write to an unknown path was answered with {}", c)); }
            if !s.complete { w.fail("acked-bad-body", format!("a write request cut off by {:?} was answered with {}", how, c)); }
            if dec == Dec::Invalid && !body.is_empty() { w.fail("acked-bad-body", format!("a malformed write ({:?}) was answered with {}", m, c)); }
        } else {
            w.count("write requests refused");
            if let (Dec::Valid(v), true, true) = (&dec, right, s.complete) {
                let me: Vec<usize> = ids.iter().map(|x| x.0).collect();
                let mut per: BTreeMap<LSet, Vec<u64>> = BTreeMap::new();
                for (l, ps) in v { per.entry(canon(l)).or_default().extend(ps.iter().map(|p| p.0 as u64)); }
                let excuse = per.iter().any(|(l, ts)| self.cx.order_excuse(&w, l, ts, &me)) || w.err_ok(b);
                if !excuse && !odd { w.fail("bad-status", format!("a well-formed write was answered with {} without any fault", c)); }
            }
        }
        ok
    }
    fn read(&self, keep: &mut Keep, qs: &[pb::Query], m: &Mangle, how: &How, extras: bool, what: &str) -> bool {
        let (body, right) = mangle(pb::enc_read(qs, extras), m);
        let dec = if *m == Mangle::No { Dec::Valid(qs.to_vec()) } else { match decompress(&body) { Some(r) => pb::dec_read(&r), None => Dec::Invalid } };
        if dec == Dec::Odd { return false; }
        let b = sc::stamp();
        let s = self.send(keep, &self.path(false, right, body.len()), &body, how);
        let e = sc::stamp();
        let (c, rb) = match self.common(&s, what, how) { Some(x) => x, None => return false };
        let mut w = self.w();
        if c < 200 || c >= 600 { w.fail("bad-status", format!("{}: status {}", what, c)); }
        let ok = (200..300).contains(&c);
        let v = match (&dec, right) {
            (Dec::Valid(v), true) => v,
            _ => { if ok && !body.is_empty() { w.fail("bad-status", format!("a malformed or misaddressed read ({:?}) was answered with {}", m, c)); } return false; }
        };
        let eq = v.iter().all(|q| q.m.iter().all(|x| x.0 == 0));
        let judged = v.iter().all(|q| !q.m.is_empty() && q.m.iter().all(|x| !x.1.is_empty())) && !v.is_empty();
        if !ok {
            if s.complete && eq && judged && !w.err_ok(b) { w.fail("query-error", format!("{}: a well-formed read {:?} was answered with {} without any fault", what, v, c)); }
            w.count("reads refused");
            return false;
        }
        if !judged { return true; }
        if !eq { w.fail("matcher-misread", format!("{}: {:?} asks for matching that is not equality and was answered with {}", what, v, c)); return true; }
        if !s.complete { w.fail("bad-status", format!("a read request cut off by {:?} was answered with {}", how, c)); }
        let rows = match decompress(&rb).ok_or("not compressed with snappy".to_string()).and_then(|r| pb::dec_response(&r)) { Ok(r) => r, Err(x) => { w.fail("bad-response", format!("{}: {}", what, x)); return false; } };
        if rows.len() != v.len() { w.fail("result-count", format!("{}: {} queries, {} results", what, v.len(), rows.len())); return false; }
        w.count("read requests judged");
        for (q, r) in v.iter().zip(&rows) {
            let want: LSet = q.m.iter().map(|x| (x.1.clone(), x.2.clone())).collect();
            let (lo, hi) = if q.hi < 0 { (1, 0) } else { (q.lo.max(0) as u64, q.hi as u64) };
            if r.iter().any(|s| s.1.iter().any(|p| p.0 < 0)) { w.fail("out-of-range", format!("{}: a point with a negative timestamp", what)); }
            let rows: Rows = r.iter().map(|(l, p)| (l.clone(), p.iter().map(|x| (x.0 as u64, x.1)).collect())).collect();
            w.check(0, &want, lo, hi, b, e, &rows, what);
        }
        true
    }
    fn op(&self, keep: &mut Keep, op: &HOp) {
        if self.dead() { return; }
        match op {
            HOp::Sleep(ms) => sc::sleep_ns(ms * MS),
            HOp::Write { req, perm, mangle, how } => {
                let mut v: pb::Series = vec![];
                for (i, (s, ts)) in req.iter().enumerate() {
                    let l = if *s == NO_LABELS { vec![] } else { permute(&self.cx.series[s % self.cx.series.len()], perm.wrapping_add(i as u32)) };
                    let mut t = self.cx.resolve_all(*s, ts);
                    if self.cx.kv.0 { t.sort(); t.dedup(); }
                    v.push((l, t.into_iter().map(|t| (t as i64, self.w().fresh_bits())).collect()));
                }
                self.write(keep, &v, mangle, how);
            }
            HOp::Read { req, neg, kind, mangle, how } => {
                let qs: Vec<pb::Query> = req.iter().enumerate().map(|(i, (want, r))| {
                    let l = resolve_want(&self.cx.series, want);
                    let (lo, hi) = self.cx.resolve_range(r);
                    let (mut lo, mut hi) = (lo.min(FOREVER) as i64, hi.min(FOREVER) as i64);
                    if *neg { lo = -1 - lo; if i % 3 == 2 { hi = -1; } }
                    let k = if l.is_empty() { 0 } else { i % l.len() };
                    pb::Query { lo, hi, m: l.into_iter().enumerate().map(|(j, (a, b))| (if i == 0 && j == k { *kind } else { 0 }, a, b)).collect() }
                }).collect();
                self.read(keep, &qs, mangle, how, !neg && req.len() % 2 == 0, "read");
            }
            HOp::Raw { bytes, how } => {
                if let Ok(s) = TcpStream::connect(("127.0.0.1", self.p.port)) {
                    let _ = s.set_write_timeout(Some(Duration::from_millis(200)));
                    let _ = s.set_read_timeout(Some(Duration::from_millis(50)));
                    { let mut w = &s; let _ = w.write_all(bytes); }
                    match how { How::ResetAfter | How::ResetAt(_) => s.sim_reset(), How::StallAt(_, ms, _) => sc::sleep_ns(ms * MS), How::CloseAt(_) => { let _ = s.shutdown(Shutdown::Write); } _ => {} }
                    let mut b = [0u8; 4096];
                    let mut r = &s;
                    for _ in 0..4 { match r.read(&mut b) { Ok(n) if n > 0 => {} _ => break } }
                    self.w().count("raw byte sequences sent");
                }
            }
        }
    }
    /// after everything calmed down: does the server still store and answer?
    fn settle(&self) {
        sc::probe("settle");
        let l = vec![("settle".to_string(), "x".to_string())];
        let end = sc::now_ns() + (2 * self.p.chunk_ms.min(60_000) + 500) * MS;
        let mut done = false;
        while !done && sc::now_ns() < end && !self.dead() {
            let bits = self.w().fresh_bits();
            let ts = sc::wall_ms() as u64;
            if self.write(&mut Keep::default(), &vec![(l.clone(), vec![(ts as i64, bits)])], &Mangle::No, &How::Normal) {
                let q = pb::Query { lo: ts as i64, hi: ts as i64, m: vec![(0, l[0].0.clone(), l[0].1.clone())] };
                let before = self.w().writes.last().map(|w| w.st);
                if before == Some(St::Acked) { done = self.read(&mut Keep::default(), &[q], &Mangle::No, &How::Normal, false, "settle"); }
            }
            if !done { sc::sleep_ns(self.p.chunk_ms.min(10_000) * MS / 16 + 2 * MS); }
        }
        if !done && !self.dead() { self.cx.wd.fail("not-serving", "no now-stamped write could be stored and read back any more".into()); return; }
        for (i, s) in self.cx.series.iter().enumerate() {
            let q = |l: &LSet| pb::Query { lo: 0, hi: FOREVER as i64, m: l.iter().map(|x| (0, x.0.clone(), x.1.clone())).collect() };
            if self.dead() { return; }
            if i % 2 == 0 { self.read(&mut Keep::default(), &[q(s)], &Mangle::No, &How::Normal, false, "verify"); }
            else { self.read(&mut Keep::default(), &[q(&vec![s[0].clone()]), q(s)], &Mangle::No, &How::Normal, false, "verify"); }
        }
    }
}

pub fn run(p: &HttpPlan, seed: u64, wd: Wd) {
    db::prepare_world(1, seed);
    { let mut w = wd.g(); w.salt = simcore::rng::mix(seed ^ 0x5a17); w.wire = true; }
    sc::net::set_buf(p.net_buf);
    wd.g().lives = vec![0];
    let series = Arc::new(p.series.clone());
    let p = Arc::new(p.clone());
    let mut arg = seed;
    for (li, life) in p.lives.iter().enumerate() {
        arg = sc::rng::mix(arg);
        wd.g().lives[0] += 1;
        wd.count("server starts");
        let slot: Arc<Mutex<Option<Arc<dyn Db>>>> = Default::default();
        let (s2, p2, wd2) = (slot.clone(), p.clone(), wd.clone());
        let main = p.main && cfg!(feature = "bin");
        let t0 = sc::wall_ms();
        let srv = sc::spawn_proc("srv", move || {
            if main { run_main(&p2, &db::base(0), &None); sc::note(|| "main returned".to_string()); return; }
            match db::open(0, p2.chunk_ms, p2.kv) {
                Ok(d) => { *s2.lock().unwrap() = Some(d.clone()); let r = d.serve(p2.port as i32, p2.workers, &p2.paths); sc::note(|| format!("serve returned {:?}", r)); }
                Err(m) => wd2.fail("reopen-failed", format!("the server's database cannot be opened: {}", m)),
            }
        });
        let until = sc::now_ns() + 20_000 * MS;
        while !sc::net::listening(p.port) && sc::proc_exit(srv).is_none() && sc::now_ns() < until { sc::sleep_ns(MS); }
        let mut d = slot.lock().unwrap().clone();
        if main { wd.count("servers started by their main function"); if sc::net::listening(p.port) { d = Some(Arc::new(Unseen(sc::wall_ms() as u64 + 20, t0 as u64 + p.chunk_ms))); } }
        let died = |wd: &Wd| { if let Some(e) = sc::proc_exit(srv) { wd.fail("server-died", format!("the server process of life {} ended: {:?}", li + 1, e)); true } else { false } };
        match d {
            None => { if !died(&wd) { wd.fail("not-serving", "the server did not start".into()); } }
            Some(d) => {
                let cx = Ctx { wd: wd.clone(), db: if main { d } else { Arc::new(Remote { p: srv, db: d }) }, dbi: 0, kv: p.kv, chunk_ms: p.chunk_ms, series: series.clone() };
                let fixed = if p.strict { cx.db.window() } else { None };
                let h = H { cx, p: p.clone(), srv, fixed };
                let mut over = false;
                for (pi, ph) in life.phases.iter().enumerate() {
                    wd.faults(ph.faults);
                    let mut hs = vec![];
                    for (ci, ops) in ph.clients.iter().enumerate() {
                        let (h, ops) = (h.clone(), ops.clone());
                        hs.push(sc::spawn_task(&format!("l{}.p{}.c{}", li, pi, ci), 0, move || { let mut k = Keep::default(); for o in &ops { sc::note(|| format!("op {:?}", o)); h.op(&mut k, o); } }));
                    }
                    let limit = sc::now_ns() + 36_000_000 * MS;
                    for t in hs { if t.join_deadline(Some(limit)).is_none() { wd.fail("no-response", "a client did not finish".into()); over = true; } }
                    wd.faults(false);
                    if died(&wd) { over = true; }
                    if over { break; }
                }
                if !over { wd.calm(); sc::sleep_ns(5 * MS); h.settle(); over = died(&wd); }
                if !over && sc::wait_proc(srv, Some(sc::now_ns() + life.idle_ms * MS)).is_some() { over = died(&wd); }
                let _ = over;
            }
        }
        if sc::proc_exit(srv).is_none() { sc::crash_proc(srv, life.power, arg >> 8); }
        let t = sc::with(|st| st.procs[srv as usize].ended_ns);
        wd.g().life_ended(0, t, FLUSH_NS);
    }
}

impl H {
    /// the points of one series at one instant, as the server tells; None: it did not say
    fn at(&self, l: &LSet, ts: u64) -> Option<Vec<u64>> {
        let q = pb::Query { lo: ts as i64, hi: ts as i64, m: l.iter().map(|x| (0, x.0.clone(), x.1.clone())).collect() };
        let s = self.send(&mut Keep::default(), &self.p.paths.1, &encode(&pb::enc_read(&[q], false)), &How::Normal);
        match s.resp {
            Resp::Got(200, b) => { let r = pb::dec_response(&decompress(&b)?).ok()?; Some(r.iter().flatten().flat_map(|x| x.1.iter()).filter(|p| p.0 == ts as i64).map(|p| p.1).collect()) }
            _ => None,
        }
    }
    /// send one point outside of the books; true: the server says it is written
    fn put(&self, path: &str, l: &LSet, ts: u64, bits: u64) -> bool {
        let s = self.send(&mut Keep::default(), path, &encode(&pb::enc_write(&vec![(l.clone(), vec![(ts as i64, bits)])])), &How::Normal);
        matches!(s.resp, Resp::Got(c, _) if (200..300).contains(&c))
    }
}
fn outside(dir: &str) -> Vec<String> {
    let d = format!("/{}", sc::disk::comps(dir).join("/"));
    sc::disk::walk("/sim").into_iter().filter(|x| *x != d && !x.starts_with(&format!("{}/", d))).collect()
}
fn engine_writes() -> (u64, u64) { sc::with(|st| (st.site_counts[sc::site::SLED_SET as usize], st.site_counts[sc::site::KV_PUT as usize])) }

/// One directory, several command lines.
pub fn run_options(o: &OptPlan, seed: u64, wd: Wd) {
    if !cfg!(feature = "bin") { wd.count("the binary could not be built"); return; }
    db::prepare_world(1, seed);
    { let mut w = wd.g(); w.salt = simcore::rng::mix(seed ^ 0x5a17); w.wire = true; }
    // the file it is told to use, and one it isn't
    if o.http.conf.0 > 0 { sc::disk::put_quiet(db::TIKV_YAML, b"pd_endpoints:\n  - 192.0.2.1:2379\n"); }
    sc::disk::put_quiet(conf_path(&o.http), conf_text(&o.http).0.as_bytes());
    sc::disk::mkdir_durable(&o.dir);
    sc::net::set_buf(o.http.net_buf);
    wd.g().lives = vec![0];
    let p = Arc::new(o.http.clone());
    let series = Arc::new(p.series.clone());
    let ms = |d: u64| sc::sleep_ns(d * MS);
    let mut arg = seed;
    for (li, life) in o.lives.iter().enumerate() {
        arg = sc::rng::mix(arg);
        wd.g().lives[0] += 1;
        let (files, strange) = (sc::disk::walk(&o.dir), outside(&o.dir));
        let (p2, dir, bad) = (p.clone(), o.dir.clone(), life.bad.clone());
        let t0 = sc::wall_ms() as u64;
        let srv = sc::spawn_proc("srv", move || { run_main(&p2, &dir, &bad); });
        let ends = sc::now_ns() + 20_000 * MS;
        while !sc::net::listening(p.port) && sc::proc_exit(srv).is_none() && sc::now_ns() < ends { ms(1); }
        let t1 = sc::wall_ms() as u64;
        if let Some(b) = &life.bad {
            wd.count("command lines that must be refused");
            let until = sc::now_ns() + 5_000 * MS;
            while sc::proc_exit(srv).is_none() && sc::now_ns() < until { ms(20); }
            if sc::proc_exit(srv).is_none() { wd.fail("bad-option-accepted", format!("life {}: the server was started with --{}={:?} and runs", li + 1, b.0, b.1)); sc::crash_proc(srv, life.power, arg >> 8); return; }
            let now = sc::disk::walk(&o.dir);
            if now != files { wd.fail("bad-option-accepted", format!("life {}: a start refused because of --{}={:?} changed the directory: {:?} became {:?}", li + 1, b.0, b.1, files, now)); return; }
            continue;
        }
        wd.count("server starts");
        let died = || { if let Some(e) = sc::proc_exit(srv) { wd.fail("server-died", format!("life {}: the server ended: {:?}, command line {:?}", li + 1, e, command_line(&p, &o.dir, &None))); true } else { false } };
        if !sc::net::listening(p.port) { if !died() { wd.fail("option-ignored", format!("life {}: nothing listens on port {}", li + 1, p.port)); } return; }
        let first = t0 + p.chunk_ms; // the first window lasts at least until here
        let cx = Ctx { wd: wd.clone(), db: Arc::new(Unseen(t1 + 20, first)), dbi: 0, kv: p.kv, chunk_ms: p.chunk_ms, series: series.clone() };
        let h = H { cx, p: p.clone(), srv, fixed: None };
        if p.dry == 0 && (p.kv.0 || p.kv.1) {
            let want = conf_text(&p).1;
            for e in sc::kv::endpoints() { if e != want { wd.fail("option-ignored", format!("the configuration file {} names the cluster {:?}, and {:?} was contacted", conf_path(&p), want, e)); return; } }
            wd.count("cluster endpoints checked");
        }
        for q in [9001u16, 9090, 10090, 8080, 1024, 65535] { if q != p.port && sc::net::listening(q) { wd.fail("option-ignored", format!("the server was to use port {} and listens on {}", p.port, q)); return; } }
        wd.faults(true);
        let mut hs = vec![];
        for (ci, ops) in life.clients.iter().enumerate() {
            let (h, ops) = (h.clone(), ops.clone());
            hs.push(sc::spawn_task(&format!("l{}.c{}", li, ci), 0, move || { let mut k = Keep::default(); for o in &ops { sc::note(|| format!("op {:?}", o)); h.op(&mut k, o); } }));
        }
        for t in hs { if t.join_deadline(Some(sc::now_ns() + 3_600_000 * MS)).is_none() { wd.fail("no-response", "a client did not finish".into()); return; } }
        wd.faults(false);
        if died() { return; }
        wd.calm();
        // which engine takes the points?
        let l = vec![("option".to_string(), "engine".to_string())];
        for k in 0..3u64 {
            let before = engine_writes();
            let (bits, ts) = (wd.g().fresh_bits(), sc::wall_ms() as u64);
            if h.write(&mut Keep::default(), &vec![(l.clone(), vec![(ts as i64, bits)])], &Mangle::No, &How::Normal) && wd.g().writes.last().map(|w| w.st) == Some(St::Acked) {
                let after = engine_writes();
                if p.dry > 0 {
                    if after.1 > before.1 { wd.fail("option-ignored", "TiKV was to be a map in memory, and the cluster was written to".into()); return; }
                    if p.kv == (true, true) && after.0 > before.0 { wd.fail("option-ignored", "both engines were to be tikv and another one was written to".into()); return; }
                    wd.count("dry runs checked");
                    continue;
                }
                let (d, name) = if p.kv.0 { (after.1 - before.1, "tikv") } else { (after.0 - before.0, "sled") };
                if d == 0 { wd.fail("option-ignored", format!("the storage was to be {} and point {} of a series was written without it", name, k + 1)); return; }
                // the indexer writes when a series is new, not for its further points
                let other = if p.kv.0 { after.0 - before.0 } else { after.1 - before.1 };
                if p.kv.0 == p.kv.1 && other > 0 { wd.fail("option-ignored", format!("both engines were to be {} and another one was written to", name)); return; }
                if k == 0 && p.kv.0 != p.kv.1 && other == 0 && li == 0 { wd.fail("option-ignored", format!("the indexer was to be {} and a new series was written without it", if p.kv.1 { "tikv" } else { "sled" })); return; }
                wd.count("engines checked");
            }
            ms(2);
        }
        // a point beyond the first window, another before it: neither may be stored while that lasts
        for ts in [first + (t1 - t0) + 50 + arg % p.chunk_ms, t0.saturating_sub(5 + arg % 3000)] {
            let bits = wd.g().fresh_bits();
            let l = vec![("option".to_string(), "window".to_string())];
            { let mut w = wd.g(); let b = sc::stamp(); let id = w.begin(0, &l, ts, bits, b); w.finish(id, St::Maybe, b, 0); }
            h.put(&p.paths.0, &l, ts, bits);
            let r = h.at(&l, ts);
            if (sc::wall_ms() as u64) < first { if let Some(v) = r { wd.count("points outside the window checked"); if v.contains(&bits) { wd.fail("option-ignored", format!("windows were to last {} s; {} ms after the start the server stored a point of {} ms {}", p.chunk_ms / 1000, sc::wall_ms() as u64 - t0, if ts > t0 { ts - t0 } else { t0 - ts }, if ts > t0 { "later" } else { "earlier" })); return; } } }
        }
        // up to its end the first window takes everything
        for back in [1, 2 + arg % (p.chunk_ms / 3)] {
            let ts = first - back;
            if (sc::wall_ms() as u64) + 50 > ts { continue; }
            let bits = wd.g().fresh_bits();
            let l = vec![("option".to_string(), format!("end {}", back))];
            { let mut w = wd.g(); let b = sc::stamp(); let id = w.begin(0, &l, ts, bits, b); w.finish(id, St::Maybe, b, 0); }
            h.put(&p.paths.0, &l, ts, bits);
            let r = h.at(&l, ts);
            if (sc::wall_ms() as u64) < first { if let Some(v) = r { wd.count("points late in the window checked"); if !v.contains(&bits) { wd.fail("option-ignored", format!("windows were to last {} s; {} ms after the start the server did not take a point of {} ms later", p.chunk_ms / 1000, sc::wall_ms() as u64 - t0, ts - t0)); return; } } }
        }
        // other paths are no endpoints
        for path in ["/write", "/read", "/", "/api/v1/write"] {
            if path == p.paths.0 || path == p.paths.1 { continue; }
            let bits = wd.g().fresh_bits();
            let ts = sc::wall_ms() as u64;
            let l = vec![("option".to_string(), "path".to_string())];
            if h.put(path, &l, ts, bits) { wd.fail("option-ignored", format!("the write path was to be {}, and a write to {} was acknowledged", p.paths.0, path)); return; }
            if h.at(&l, ts).map_or(false, |v| v.contains(&bits)) { wd.fail("option-ignored", format!("the write path was to be {}, and a write to {} was stored", p.paths.0, path)); return; }
            wd.count("other paths checked");
        }
        // windows follow each other as often as told
        for k in 1..=life.windows {
            let (from, until) = (t1 + k * p.chunk_ms + 100, t1 + k * p.chunk_ms + p.chunk_ms / 2 + 700);
            let mut seen = false;
            let late = sc::wall_ms() as u64 > from + p.chunk_ms / 4;
            while !seen && !late && (sc::wall_ms() as u64) < until && !h.dead() {
                let ts = sc::wall_ms() as u64;
                if ts >= from {
                    let bits = wd.g().fresh_bits();
                    let l = vec![("option".to_string(), "rotation".to_string())];
                    { let mut w = wd.g(); let b = sc::stamp(); let id = w.begin(0, &l, ts, bits, b); w.finish(id, St::Maybe, b, 0); }
                    h.put(&p.paths.0, &l, ts, bits);
                    seen = h.at(&l, ts).map_or(false, |v| v.contains(&bits));
                }
                ms(20);
            }
            if died() { return; }
            if !late && !seen { wd.fail("option-ignored", format!("windows were to last {} s; {} ms after the start no now-stamped point could be stored", p.chunk_ms / 1000, until - t0)); return; }
            if seen { wd.count("rotations seen"); }
        }
        for s in series.iter() {
            if h.dead() { break; }
            let q = pb::Query { lo: 0, hi: FOREVER as i64, m: s.iter().map(|x| (0, x.0.clone(), x.1.clone())).collect() };
            h.read(&mut Keep::default(), &[q], &Mangle::No, &How::Normal, false, "verify");
        }
        let now = outside(&o.dir);
        if now != strange { let extra: Vec<_> = now.iter().filter(|x| !strange.contains(x)).collect(); wd.fail("option-ignored", format!("data was to be kept in {}, and {:?} was created", o.dir, extra)); return; }
        if sc::wait_proc(srv, Some(sc::now_ns() + life.idle_ms * MS)).is_some() { died(); return; }
        sc::crash_proc(srv, life.power, arg >> 8);
        let t = sc::with(|st| st.procs[srv as usize].ended_ns);
        wd.g().life_ended(0, t, FLUSH_NS);
    }
}

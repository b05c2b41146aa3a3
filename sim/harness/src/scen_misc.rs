//! Smaller systems under the same simulator: one window, label intersection, the write-ahead log.
use crate::db::{self, labels, unlabels};
use crate::model::*;
use crate::plan::*;
use crate::scen_db::{permute, resolve_want, MS};
use monolith::chunk::{Chunk, ChunkOpts};
use monolith::indexer::*;
use monolith::storage::*;
use monolith::time_point::TimePoint;
use monolith::vsim_hooks::{Entry, EntryType, FlushPolicy, Segment};
use monolith::{Builder, MonolithErr, TiKvRawBackendSingleton};
use simcore as sc;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ one window
trait Win: Send + Sync {
    fn insert(&self, l: &LSet, ts: u64, bits: u64) -> Result<(), String>;
    fn query(&self, l: &LSet, lo: u64, hi: u64) -> Result<Rows, MonolithErr>;
    fn close(&self);
}
struct W2<S: Storage, I: Indexer>(Chunk<S, I>);
impl<S: Storage + Send + Sync, I: Indexer + Send + Sync> Win for W2<S, I> {
    fn insert(&self, l: &LSet, ts: u64, bits: u64) -> Result<(), String> { self.0.insert(labels(l), TimePoint::new(ts, f64::from_bits(bits))).map_err(|e| e.to_string()) }
    fn query(&self, l: &LSet, lo: u64, hi: u64) -> Result<Rows, MonolithErr> {
        self.0.query(labels(l), lo, hi).map(|v| v.iter().map(|s| (unlabels(s.meta_data()), s.time_points().iter().map(|t| (t.timestamp, t.value.to_bits())).collect())).collect())
    }
    fn close(&self) { let _ = self.0.close(); }
}
const START: u64 = 1_000_000;
fn open_window(p: &ChunkPlan) -> Result<Arc<dyn Win>, String> {
    let e = |e: MonolithErr| e.to_string();
    let dir = format!("{}/chunk", db::base(0));
    simcore::disk::mkdir_durable(&dir);
    let o = ChunkOpts { start_time: Some(START), end_time: Some(START + p.width), identifier: b"window-1".to_vec() };
    let dbo = monolith::option::DbOpts { storage: if p.kv.0 { "tikv" } else { "sled" }.into(), indexer: if p.kv.1 { "tikv" } else { "sled" }.into(), base_dir: PathBuf::from(db::base(0)), chunk_size: std::time::Duration::from_millis(p.width), tikv_config: Some(PathBuf::from(db::TIKV_YAML)) };
    let single = TiKvRawBackendSingleton::from_config_file(&PathBuf::from(db::TIKV_YAML)).map_err(e)?;
    macro_rules! go { ($s:ty, $i:ty, $sb:expr, $ib:expr) => {{
        let s = Builder::<$s>::build(&$sb, dir.clone(), Some(&o), Some(&dbo)).map_err(e)?;
        let i = Builder::<$i>::build(&$ib, dir.clone(), Some(&o), Some(&dbo)).map_err(e)?;
        Ok(Arc::new(W2(Chunk::new(s, i, &o))) as Arc<dyn Win>)
    }} }
    match p.kv {
        (false, false) => go!(SledStorage, SledIndexer, SledStorageBuilder::new(), SledIndexerBuilder::new()),
        (false, true) => go!(SledStorage, TiKvIndexer, SledStorageBuilder::new(), TiKvIndexerBuilder::new(single.clone()).map_err(e)?),
        (true, false) => go!(TiKvStorage, SledIndexer, TiKvStorageBuilder::new(single.clone()).map_err(e)?, SledIndexerBuilder::new()),
        (true, true) => go!(TiKvStorage, TiKvIndexer, TiKvStorageBuilder::new(single.clone()).map_err(e)?, TiKvIndexerBuilder::new(single.clone()).map_err(e)?),
    }
}
#[derive(Clone)]
struct Cw { wd: Wd, win: Arc<dyn Win>, p: Arc<ChunkPlan> }
impl Cw {
    fn op(&self, op: &COp) {
        let p = &self.p;
        match op {
            COp::Sleep(us) => sc::sleep_ns(us * 1000),
            COp::Close => { self.win.close(); self.wd.count("windows closed"); }
            COp::Insert { s, ts, perm } => {
                let l = p.series[*s % p.series.len()].clone();
                let ts = START + ts % (p.width + 2);
                let (bits, b) = { let mut w = self.wd.g(); (w.fresh_bits(), sc::stamp()) };
                let id = self.wd.g().begin(0, &l, ts, bits, b);
                let r = self.win.insert(&permute(&l, *perm), ts, bits);
                let e = sc::stamp();
                let now = sc::now_ns();
                let mut w = self.wd.g();
                w.finish(id, if r.is_ok() { St::Acked } else { St::Failed }, e, now);
                if let Err(m) = r {
                    // the TiKV engine documents that it refuses timestamps that are not later than the last one
                    let order = p.kv.0 && w.by_series[&(0, canon(&l))].iter().any(|i| *i != id && w.writes[*i].ts >= ts);
                    let outside = ts <= START || ts >= START + p.width;
                    if !order && !outside && !w.err_ok(b) { let m = format!("insert of {} at {} failed without any fault: {}", show(&l), ts, m); w.fail("write-refused", m); }
                }
            }
            COp::Query { want, lo, hi } => {
                let want = resolve_want(&p.series, want);
                if want.is_empty() { return; }
                if *hi == u64::MAX { self.query(&want, START + lo, u64::MAX); return; }
                let (lo, hi) = (START.saturating_sub(3) + lo % (p.width + 6), START.saturating_sub(3) + hi % (p.width + 6));
                let (lo, hi) = (lo.min(hi), lo.max(hi));
                self.query(&want, lo, hi);
            }
        }
    }
    fn query(&self, want: &LSet, lo: u64, hi: u64) {
        let b = sc::stamp();
        let r = self.win.query(want, lo, hi);
        let e = sc::stamp();
        let mut w = self.wd.g();
        match r {
            Ok(rows) => { w.check(0, want, lo, hi, b, e, &rows, "window"); w.check_order(want, lo, hi, &rows, e); }
            Err(MonolithErr::OutOfRangeErr(x, y)) => if lo <= y && hi >= x && hi > x && lo < y { let m = format!("query [{}, {}] refused as outside ({}, {})", lo, hi, x, y); w.fail("query-error", m); },
            Err(m) => if w.err_ok(b) { w.count("queries failed under faults") } else { let m = format!("query {} in [{}, {}] failed without any fault: {}", show(want), lo, hi, m); w.fail("query-error", m); },
        }
    }
}
pub fn run_chunk(p: &ChunkPlan, seed: u64, wd: Wd) {
    db::prepare_world(1, seed);
    wd.g().salt = simcore::rng::mix(seed ^ 0x5a17);
    wd.g().lives = vec![1];
    let p = Arc::new(p.clone());
    let (p2, wd2) = (p.clone(), wd.clone());
    let pr = sc::spawn_proc("win", move || {
        let (p, wd) = (p2, wd2);
        let win = match open_window(&p) { Ok(w) => w, Err(m) => { wd.fail("query-error", format!("window cannot be opened: {}", m)); return; } };
        let cx = Cw { wd: wd.clone(), win, p: p.clone() };
        wd.faults(p.faults);
        let me = sc::cur_proc();
        let hs: Vec<_> = p.clients.iter().enumerate().map(|(i, ops)| { let (cx, ops) = (cx.clone(), ops.clone()); sc::spawn_task(&format!("c{}", i), me, move || for o in &ops { sc::note(|| format!("op {:?}", o)); cx.op(o); }) }).collect();
        for h in hs { let _ = h.join_deadline(None); }
        wd.faults(false);
        for s in &p.series { cx.query(s, 0, u64::MAX >> 1); for l in s { cx.query(&vec![l.clone()], START + 1, START + p.width); } }
    });
    if sc::wait_proc(pr, Some(sc::now_ns() + 7_200_000 * MS)).is_none() { wd.fail("stuck", format!("window clients did not finish: {:?}", sc::live_tasks(pr))); sc::crash_proc(pr, false, 0); }
}

// ------------------------------------------------------------------ label intersection
pub fn run_intersect(p: &IntersectPlan, wd: Wd) {
    let (p, w0) = (p.clone(), wd.clone());
    let pr = sc::spawn_proc("isect", move || {
        let me = sc::cur_proc();
        let hs: Vec<_> = p.callers.iter().enumerate().map(|(i, calls)| {
            let (calls, wd) = (calls.clone(), w0.clone());
            sc::spawn_task(&format!("caller{}", i), me, move || for c in &calls {
                let want: Vec<u64> = match c.first() { None => vec![], Some(f) => { let mut f = f.clone(); f.dedup(); f.into_iter().filter(|x| c.iter().all(|v| v.contains(x))).collect() } };
                let r = monolith::utils::intersect_time_series_id_vec(c.clone());
                let mut w = wd.g();
                match r {
                    Ok(v) => { w.count("intersections compared"); if v != want { let m = format!("intersection of {:?} gave {:?} instead of {:?}", c, v, want); w.fail("wrong-intersection", m); } }
                    Err(e) => { let m = format!("intersection of {:?} failed: {}", c, e); w.fail("query-error", m); }
                }
            })
        }).collect();
        for h in hs { let _ = h.join_deadline(None); }
    });
    if sc::wait_proc(pr, Some(sc::now_ns() + 7_200_000 * MS)).is_none() { wd.fail("stuck", format!("intersections did not finish: {:?}", sc::live_tasks(pr))); sc::crash_proc(pr, false, 0); }
}

// ------------------------------------------------------------------ write-ahead log
/// a file that takes writes badly
#[derive(Clone, Default)]
struct Sink(Arc<Mutex<Vec<u8>>>, Option<Arc<Mutex<Vec<u8>>>>);
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        sc::point(sc::site::WAL_WRITE, 0);
        if b.is_empty() { return Ok(0); }
        let e = |n| Err(std::io::Error::from_raw_os_error(n));
        let n = match sc::fault(sc::site::WAL_WRITE, &["short", "short", "eintr", "eio", "enospc"]) {
            Some(("short", a)) => if b.len() > 1 { 1 + (a as usize) % (b.len() - 1) } else { 1 },
            Some(("eintr", _)) => return e(4),
            Some(("eio", _)) => return e(5),
            Some(("enospc", _)) => return e(28),
            _ => b.len(),
        };
        self.1.as_ref().unwrap_or(&self.0).lock().unwrap().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        sc::point(sc::site::WAL_WRITE, 1);
        match sc::fault(sc::site::WAL_WRITE, &["eio"]) { Some(_) => return Err(std::io::Error::from_raw_os_error(5)), None => {} }
        // a buffering writer hands its bytes over now
        if let Some(h) = &self.1 { let b = std::mem::take(&mut *h.lock().unwrap()); self.0.lock().unwrap().extend_from_slice(&b); }
        Ok(())
    }
}
fn crc(bytes: &[u8], width: u32) -> u64 {
    // reflected-free bitwise implementations: CRC-32/IEEE (reflected) and CRC-64/ECMA (reflected, as the crc crate has it)
    let poly: u64 = if width == 32 { 0xedb8_8320 } else { 0xc96c_5795_d787_0f42 };
    let mask: u64 = if width == 32 { 0xffff_ffff } else { u64::MAX };
    let mut c = mask;
    for b in bytes { c ^= *b as u64; for _ in 0..8 { c = if c & 1 == 1 { (c >> 1) ^ poly } else { c >> 1 }; } }
    (c ^ mask) & mask
}
fn encoding(seq: u64, data: &[u8]) -> Vec<u8> {
    let mut v = seq.to_be_bytes().to_vec();
    v.push(0);
    v.extend_from_slice(&(data.len() as u16).to_be_bytes());
    v.extend_from_slice(data);
    let c = crc(data, 32) as u32;
    v.extend_from_slice(&c.to_be_bytes());
    v
}
pub const MAGIC: u64 = 0x57414C0000000000;

struct Att { bytes: Vec<u8>, ok: bool }
/// Can `body` be read as a run of attempted entries, in order, holding all acknowledged ones?
/// `whole`: it must end at an entry boundary; otherwise any cut is fine and later ones may miss.
fn parse(body: &[u8], atts: &[Att], whole: bool) -> Result<usize, String> {
    // reach[i] = set of offsets after deciding about the first i attempts
    let mut offs: std::collections::BTreeSet<usize> = [0].into_iter().collect();
    let mut best = 0;
    for (i, a) in atts.iter().enumerate() {
        let mut next = std::collections::BTreeSet::new();
        for o in &offs {
            let rest = &body[*o..];
            if rest.starts_with(&a.bytes) { next.insert(o + a.bytes.len()); }
            else if !whole && a.bytes.starts_with(rest) { return Ok(body.len()); }
            if !a.ok { next.insert(*o); }
        }
        if next.is_empty() { return Err(format!("entry {} of {} ({} bytes, acknowledged) is not where it has to be (offset {} of {})", i + 1, atts.len(), a.bytes.len(), best, body.len())); }
        best = *next.iter().max().unwrap();
        offs = next;
    }
    if offs.contains(&body.len()) { Ok(body.len()) } else if best < body.len() { Err(format!("{} bytes that are no written entry follow at offset {}", body.len() - best, best)) } else { Err("bytes do not match".into()) }
}

pub fn run_wal(p: &WalPlan, wd: Wd) {
    let (p, w0) = (p.clone(), wd.clone());
    let pr = sc::spawn_proc("wal", move || {
        let wd = w0;
        wd.faults(p.faults && p.from == 0);
        let sink = Sink(Default::default(), if p.buffered { Some(Default::default()) } else { None });
        let pol = match p.policy { Policy::Immediate => FlushPolicy::Immediate, Policy::Num(n) => FlushPolicy::NumBased(n), Policy::Size(n) => FlushPolicy::SizeBased(n), Policy::Time(ms) => FlushPolicy::TimeBased(std::time::Duration::from_millis(ms)) };
        let mut seg = match Segment::new(pol, sink.clone()) { Ok(s) => Some(s), Err(e) => { if !wd.g().faults_on { wd.fail("wal-refused", format!("no segment without any fault: {}", e)); } wd.count("segments refused under faults"); return; } };
        let mut atts: Vec<Att> = vec![];
        let mut failed = false; // some call reported an error
        let mut closed = false;
        let mut settled = sc::now_ns();
        let mut counts: BTreeMap<&str, u64> = BTreeMap::new();
        let n = p.ops.len();
        for (i, op) in p.ops.iter().enumerate() {
            if p.faults && p.from > 0 && i == p.from { wd.faults(true); }
            if p.tail_calm && i * 3 >= n * 2 { wd.faults(false); }
            let (b, b_ns) = (sc::stamp(), sc::now_ns());
            let (what, r, strong): (String, Result<(), String>, bool) = match op {
                WOp::Sleep(ms) => { sc::sleep_ns(ms * MS); continue; }
                WOp::Entry { seq, parts, copy } => {
                    let s = match seg.as_mut() { Some(s) => s, None => continue };
                    let mut e = Entry::new(*seq, EntryType::Default);
                    let mut data: Vec<u8> = vec![];
                    for (k, l) in parts.iter().enumerate() { let d: Vec<u8> = (0..*l).map(|j| sc::rng::mix(*seq * 31 + k as u64 * 7 + j as u64) as u8).collect(); data.extend_from_slice(&d); if *copy == 2 * k as u32 + 1 { e = e.clone(); } e.push(d); if *copy == 2 * k as u32 + 2 { let c = e.clone(); e.push(vec![1, 2, 3]); e = c; } }
                    let big = data.len() > u16::MAX as usize;
                    if !big { atts.push(Att { bytes: encoding(*seq, &data), ok: false }); }
                    let r = s.write_entry(e);
                    if big {
                        if r.is_ok() { wd.fail("wal-content", format!("an entry of {} bytes was accepted although its length does not fit the format", data.len())); return; }
                        wd.count("oversized entries refused");
                        continue;
                    }
                    if r.is_ok() { atts.last_mut().unwrap().ok = true; }
                    (format!("write_entry {} ({} bytes)", seq, data.len()), r.map_err(|e| e.to_string()), p.policy == Policy::Immediate && !p.buffered)
                }
                WOp::Raw { seq, len } => {
                    let s = match seg.as_mut() { Some(s) => s, None => continue };
                    // entries that only wait in memory may come later; those being written must not be cut
                    if p.policy != Policy::Immediate && std::io::Write::flush(s).is_err() { failed = true; *counts.entry("errors").or_insert(0) += 1; continue; }
                    let d: Vec<u8> = (0..*len).map(|j| sc::rng::mix(*seq * 17 + j as u64) as u8).collect();
                    let (mut o, mut r) = (0, Ok(()));
                    while o < d.len() { match std::io::Write::write(s, &d[o..]) { Ok(0) => { r = Err("nothing written".to_string()); break; } Ok(n) => o += n, Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {} Err(e) => { r = Err(e.to_string()); break; } } }
                    if o > 0 { atts.push(Att { bytes: d[..o].to_vec(), ok: true }); }
                    ("raw write".into(), r, false)
                }
                WOp::Flush => { let s = match seg.as_mut() { Some(s) => s, None => continue }; ("flush".into(), std::io::Write::flush(s).map_err(|e| e.to_string()), true) }
                WOp::Close => { let mut s = match seg.take() { Some(s) => s, None => continue }; let r = s.close().map(|_| ()).map_err(|e| e.to_string()); closed = r.is_ok(); ("close".into(), r, true) }
            };
            let file = sink.0.lock().unwrap().clone();
            let bad = |kind: &str, m: String| wd.fail(kind, format!("after {} ({:?}), policy {:?}: {}", what, r, p.policy, m));
            *counts.entry("calls").or_insert(0) += 1;
            if let Err(m) = &r { failed = true; if !wd.g().err_ok(b) && !seg_sticky(&counts) { bad("wal-refused", format!("failed without any fault: {}", m)); } *counts.entry("errors").or_insert(0) += 1; }
            let mut body: &[u8] = &file;
            if file.len() >= 8 { if file[..8] != MAGIC.to_be_bytes() { bad("wal-content", "the file does not start with the magic number".into()); return; } body = &file[8..]; }
            else if !MAGIC.to_be_bytes().starts_with(&file) || (r.is_ok() && strong) { bad("wal-content", format!("magic number incomplete: {:?}", file)); return; } else { body = &[]; }
            if r.is_ok() && strong {
                let mut b2 = body;
                if closed {
                    if b2.len() < 8 { bad("wal-ack", "no segment checksum".into()); return; }
                    let (x, c) = b2.split_at(b2.len() - 8);
                    if crc(x, 64).to_be_bytes() != c { bad("wal-content", format!("segment checksum {:02x?} does not match {} bytes of entries", c, x.len())); return; }
                    b2 = x;
                }
                wd.count("wal files compared");
                if let Err(m) = parse(b2, &atts, true) { bad("wal-ack", m); return; }
            } else {
                // whatever happened, the file is the beginning of a well-formed segment
                let mut b2 = body;
                let mut done = false;
                if matches!(op, WOp::Close) {
                    // a failed close may have written a part of the checksum
                    for k in 0..=8usize.min(b2.len()) { let (x, c) = b2.split_at(b2.len() - k); if parse(x, &atts, true).is_ok() && crc(x, 64).to_be_bytes().starts_with(c) { done = true; } }
                }
                if !done { if let Err(m) = parse_prefix(b2, &atts) { bad("wal-torn", m); return; } }
                b2 = &[];
                let _ = b2;
                wd.count("wal files compared");
            }
            // a policy decides when to flush, not whether: what may wait is bounded
            let entry_now = matches!(op, WOp::Entry { .. });
            let waiting = atts.iter().map(|a| a.bytes.len()).sum::<usize>().saturating_sub(body.len());
            if r.is_ok() && waiting == 0 { settled = b_ns; }
            if r.is_ok() && !failed && !closed && entry_now && !p.buffered {
                match &p.policy {
                    Policy::Size(k) if waiting > 2 * k + 2 * atts.iter().map(|a| a.bytes.len()).max().unwrap_or(0) + 64 => { bad("wal-ack", format!("{} bytes wait although the policy flushes every {}", waiting, k)); return; }
                    Policy::Time(ms) if waiting > 0 && b_ns > settled + (2 * ms + 2) * MS => { bad("wal-ack", format!("{} bytes wait {} ms after the last flush although the policy flushes every {} ms", waiting, (b_ns - settled) / MS, ms)); return; }
                    _ => {}
                }
            }
            if let (Policy::Num(k), true, false) = (&p.policy, r.is_ok(), failed || p.buffered) {
                // at most the configured number of entries may wait
                let total: usize = atts.iter().map(|a| a.bytes.len()).sum();
                let waiting = { let mut left = total.saturating_sub(body.len()); let mut c = 0; for a in atts.iter().rev() { if left == 0 { break; } left = left.saturating_sub(a.bytes.len()); c += 1; } c };
                if !closed && waiting > (*k).max(1) { bad("wal-ack", format!("{} entries wait although the policy flushes every {}", waiting, k)); return; }
            }
        }
    });
    if sc::wait_proc(pr, Some(sc::now_ns() + 7_200_000 * MS)).is_none() { wd.fail("stuck", "the log writer did not finish".into()); sc::crash_proc(pr, false, 0); }
}
/// after an I/O error a segment may refuse further use
fn seg_sticky(c: &BTreeMap<&str, u64>) -> bool { c.get("errors").map_or(false, |n| *n > 0) }
/// any cut of a run of attempted entries; acknowledged ones may still wait in memory, but only at the end
fn parse_prefix(body: &[u8], atts: &[Att]) -> Result<(), String> {
    let mut offs: std::collections::BTreeSet<usize> = [0].into_iter().collect();
    if body.is_empty() { return Ok(()); }
    let mut best = 0;
    for a in atts {
        let mut next = std::collections::BTreeSet::new();
        for o in &offs {
            let rest = &body[*o..];
            if rest.is_empty() { return Ok(()); }
            if rest.starts_with(&a.bytes) { next.insert(o + a.bytes.len()); }
            else if a.bytes.starts_with(rest) { return Ok(()); }
            if !a.ok { next.insert(*o); }
        }
        if next.is_empty() { return Err(format!("the file is no beginning of the written entries (offset {} of {})", best, body.len())); }
        best = *next.iter().max().unwrap();
        offs = next;
    }
    if offs.contains(&body.len()) { Ok(()) } else { Err(format!("the file is no beginning of the written entries (offset {} of {})", best, body.len())) }
}

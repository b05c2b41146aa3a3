//! Whole-database runs: several lives of one or more databases with concurrent clients.
use crate::db::{self, Db, WErr};
use crate::model::*;
use crate::plan::*;
use simcore as sc;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};

pub const MS: u64 = 1_000_000;
/// background flush interval of the storage engine plus slack
pub const FLUSH_NS: u64 = 1_000 * MS;
const FOREVER: u64 = u64::MAX >> 1;

#[derive(Default)]
struct Types { established: Option<(bool, bool)>, attempted: Vec<(bool, bool)> }

#[derive(Clone)]
pub struct Ctx { pub wd: Wd, pub db: Arc<dyn Db>, pub dbi: usize, pub kv: (bool, bool), pub chunk_ms: u64, pub series: Arc<Vec<LSet>> }

pub fn permute(l: &LSet, perm: u32) -> LSet {
    let mut v = l.clone();
    if v.len() > 1 { let k = perm as usize % v.len(); v.rotate_left(k); if perm & 64 != 0 { v.reverse(); } }
    // a pair given twice is still one pair of the set
    if perm % 29 == 7 && !v.is_empty() { let x = v[perm as usize / 29 % v.len()].clone(); v.push(x); }
    v
}
pub fn resolve_want(series: &[LSet], w: &Want) -> LSet {
    match w {
        Want::Series(i, mask) => {
            let s = &series[*i % series.len()];
            let v: LSet = s.iter().enumerate().filter(|(j, _)| mask >> (j % 64) & 1 == 1).map(|(_, x)| x.clone()).collect();
            permute(&if v.is_empty() { s.clone() } else { v }, (mask >> 32) as u32)
        }
        Want::One(i, j) => { let s = &series[*i % series.len()]; if s.is_empty() { vec![] } else { vec![s[*j % s.len()].clone()] } }
        Want::Unknown(i, n) => { let mut s = series[*i % series.len()].clone(); let u = ("zz_nobody".to_string(), format!("has{}", n)); let k = (*n as usize) % (s.len() + 1); s.insert(k, u); if n % 3 == 0 { s.truncate(k + 1); s.drain(..k); } s }
        Want::Twice(i, k) => {
            let mut s = series[*i % series.len()].clone();
            if s.is_empty() { return s; }
            let (mut a, n) = (s[*k as usize / 2 % s.len()].clone(), s.len());
            if k % 2 == 1 { a.1 = series[(*i + 1 + *k as usize) % series.len()].iter().find(|x| x.0 == a.0 && x.1 != a.1).map_or("other".to_string(), |x| x.1.clone()); }
            s.insert(*k as usize % (n + 1), a);
            s
        }
        Want::Lit(l) => l.clone(),
    }
}
fn latest_ts(w: &World, db: usize, l: &LSet, nth: u32) -> Option<u64> {
    let ids = w.by_series.get(&(db, canon(l)))?;
    if ids.is_empty() { return None; }
    Some(w.writes[ids[ids.len() - 1 - (nth as usize % ids.len())]].ts)
}

impl Ctx {
    pub fn resolve_ts(&self, s: usize, t: &Ts) -> u64 {
        let now = sc::wall_ms();
        let v = match t {
            Ts::Now(o) => now + o,
            Ts::Win(p) => match self.db.window() { Some((a, b)) => { let (a, b) = (a as i64, b as i64); match *p { p if p < 0 => a + p + 1, p if p > 1000 => b + (p - 1001), p => a + 1 + (b - a - 2).max(0) * p / 1000 } } None => now },
            Ts::Many(_) => now,
            Ts::Lit(t) => return *t as u64,
            Ts::Near(n, o) => latest_ts(&self.wd.g(), self.dbi, &self.series[s % self.series.len()], *n).map_or(now, |t| (t as i64).saturating_add(*o)),
        };
        v.max(1) as u64
    }
    pub fn resolve_all(&self, s: usize, ts: &[Ts]) -> Vec<u64> {
        let mut v = vec![];
        for t in ts {
            match (t, self.db.window()) {
                (Ts::Many(k), Some((a, z))) => { let n = (z - a).saturating_sub(2).max(1); v.extend((0..*k as u64).map(|i| a + 1 + i * n / *k as u64)); }
                _ => v.push(self.resolve_ts(s, t)),
            }
        }
        v
    }
    pub fn resolve_range(&self, r: &Range) -> (u64, u64) {
        let now = sc::wall_ms().max(0) as u64;
        match r {
            Range::All => (0, FOREVER),
            Range::Max => (0, u64::MAX),
            Range::Inverted(d) => (now, now.saturating_sub(1 + d)),
            Range::Around(a, b) => (now.saturating_sub(*a), now + b),
            Range::Exact(s, n) => latest_ts(&self.wd.g(), self.dbi, &self.series[*s % self.series.len()], *n).map_or((now, now), |t| (t, t)),
            Range::Old => (0, now.saturating_sub(self.chunk_ms)),
            Range::WinEdge(a, b) => match self.db.window() { Some((x, y)) => ((x as i64 + a).max(0) as u64, (y as i64 + b).max(0) as u64), None => (0, now) },
            Range::Lit(a, b) => (*a, *b),
        }
    }
    pub(crate) fn order_excuse(&self, w: &World, l: &LSet, ts: &[u64], me: &[usize]) -> bool {
        // the TiKV engine documents that it refuses timestamps that are not later than the last one
        if !self.kv.0 { return false; }
        if ts.windows(2).any(|p| p[0] >= p[1]) { return true; }
        let life = w.lives[self.dbi];
        w.by_series.get(&(self.dbi, canon(l))).map_or(false, |v| v.iter().any(|i| !me.contains(i) && w.writes[*i].life == life && ts.iter().any(|t| w.writes[*i].ts >= *t)))
    }
    /// one write attempt; true: acknowledged
    pub fn write_point(&self, l: &LSet, perm: u32, ts: u64, bits: u64) -> Result<(), WErr> {
        let b = sc::stamp();
        let id = self.wd.g().begin(self.dbi, l, ts, bits, b);
        let r = self.db.write(&permute(l, perm), ts, bits);
        let e = sc::stamp();
        let now = sc::now_ns();
        let mut w = self.wd.g();
        w.finish(id, if r.is_ok() { St::Acked } else { St::Failed }, e, now);
        match &r {
            Ok(()) => w.count("writes acknowledged"),
            Err(WErr::Range(a, z)) => {
                w.count("writes refused: outside the window");
                if *a < ts && ts < *z { w.fail("bad-refusal", format!("db{}: write at {} refused as outside ({}, {})", self.dbi, ts, a, z)); }
            }
            Err(WErr::Other(m)) => {
                if self.order_excuse(&w, l, &[ts], &[id]) { w.count("writes refused: not later than the last point (TiKV)"); }
                else if w.err_ok(b) { w.count("writes failed under faults"); }
                else { let msg = format!("db{}: write of {} at {} failed without any fault: {}", self.dbi, show(l), ts, m); w.fail("write-refused", msg); }
            }
        }
        r
    }
    pub fn write_batch(&self, l: &LSet, perm: u32, tss: &[u64]) {
        let w1 = self.db.window();
        let b = sc::stamp();
        let mut pts = vec![]; let mut ids = vec![];
        { let mut w = self.wd.g(); for ts in tss { let bits = w.fresh_bits(); pts.push((*ts, bits)); ids.push(w.begin(self.dbi, l, *ts, bits, b)); } }
        let r = self.db.write_batch(&permute(l, perm), &pts);
        let e = sc::stamp();
        let now = sc::now_ns();
        let w2 = if r.is_ok() { self.db.window() } else { None };
        let mut w = self.wd.g();
        for (id, ts) in ids.iter().zip(tss) {
            let st = match (&r, w1, w2) { (Err(_), _, _) => St::Failed, (Ok(()), Some((a, z)), Some(x)) if (a, z) == x && a < *ts && *ts < z => St::Acked, _ => St::Maybe };
            w.finish(*id, st, e, now);
        }
        match &r {
            Ok(()) => w.count("batches acknowledged"),
            Err(m) => {
                if self.order_excuse(&w, l, tss, &ids) || w.err_ok(b) { w.count("batches failed"); }
                else { let msg = format!("db{}: batch write of {} at {:?} failed without any fault: {:?}", self.dbi, show(l), tss, m); w.fail("write-refused", msg); }
            }
        }
    }
    pub fn query(&self, want: &LSet, lo: u64, hi: u64, what: &str) {
        if want.is_empty() { return; }
        let b = sc::stamp();
        let r = self.db.query(want, lo, hi);
        let e = sc::stamp();
        let mut w = self.wd.g();
        match r {
            Ok(rows) => w.check(self.dbi, want, lo, hi, b, e, &rows, what),
            Err(m) => if w.err_ok(b) { w.count("queries failed under faults") } else { let msg = format!("{}: db{} query {} in [{}, {}] failed without any fault: {}", what, self.dbi, show(want), lo, hi, m); w.fail("query-error", msg) },
        }
    }
    pub fn verify_all(&self) {
        sc::probe("verify");
        for (i, s) in self.series.iter().enumerate() {
            self.query(s, 0, FOREVER, "verify");
            if i >= 12 { let j = (i * 7) % s.len().max(1); if j < s.len() { self.query(&vec![s[j].clone()], 0, FOREVER, "verify"); } continue; }
            for j in 0..s.len() { self.query(&vec![s[j].clone()], 0, FOREVER, "verify"); }
            let ts: Vec<u64> = { let w = self.wd.g(); let mut v: Vec<u64> = w.by_series.get(&(self.dbi, canon(s))).map(|v| v.iter().map(|i| w.writes[*i].ts).collect()).unwrap_or_default(); v.sort(); v.dedup(); v };
            if let (Some(a), Some(z)) = (ts.first(), ts.last()) {
                let m = ts[ts.len() / 2];
                self.query(s, *a, m, "verify"); self.query(s, m, *z, "verify"); self.query(s, a.saturating_add(1), z.saturating_sub(1).max(a.saturating_add(1)), "verify"); self.query(s, m, m, "verify");
            }
            self.query(&resolve_want(&self.series, &Want::Unknown(i, i as u32)), 0, FOREVER, "verify");
        }
        // still accepting?
        let l = vec![("verify".to_string(), "x".to_string()), ("n".to_string(), format!("{}", self.dbi))];
        let mut last = None;
        for _ in 0..40 {
            sc::sleep_ns(self.chunk_ms * MS / 16 + 2 * MS);
            let bits = self.wd.g().fresh_bits();
            match self.write_point(&l, 0, sc::wall_ms() as u64, bits) { Ok(()) => { last = None; break; } Err(e) => last = Some(e) }
        }
        if let Some(e) = last { self.wd.fail("not-accepting", format!("db{}: no now-stamped write accepted for two window lengths: {:?}", self.dbi, e)); }
        self.query(&l, 0, FOREVER, "verify");
    }
    fn op(&self, op: &Op) {
        match op {
            Op::Write { s, ts, perm, retry } => {
                let l = self.series[*s % self.series.len()].clone();
                let ts = self.resolve_ts(*s, ts);
                let bits = self.wd.g().fresh_bits();
                for k in 0..=*retry {
                    match self.write_point(&l, *perm, ts, bits) { Err(WErr::Other(_)) if k < *retry => sc::sleep_ns(3 * MS), _ => break }
                }
            }
            Op::Batch { s, ts, perm } => {
                let l = self.series[*s % self.series.len()].clone();
                let mut v = self.resolve_all(*s, ts);
                if self.kv.0 { v.sort(); v.dedup(); }
                self.write_batch(&l, *perm, &v);
            }
            Op::Query { want, range } => { let (lo, hi) = self.resolve_range(range); self.query(&resolve_want(&self.series, want), lo, hi, "query"); }
            Op::Sweep { s, k, perm } => for i in 0..*k {
                let l = self.series[(*s + i) % self.series.len()].clone();
                let bits = self.wd.g().fresh_bits();
                let _ = self.write_point(&l, *perm, sc::wall_ms().max(1) as u64, bits);
            },
            Op::Bulk { s, k, perm } => {
                let l = self.series[*s % self.series.len()].clone();
                if let Some((a, z)) = self.db.window() {
                    let n = (z - a).saturating_sub(2).max(1);
                    let mut v: Vec<u64> = (0..*k as u64).map(|i| a + 1 + i * n / *k as u64).collect();
                    if self.kv.0 { v.dedup(); } else if *perm % 3 > 0 { let mut r = sc::Rng::new(*perm as u64); for i in (1..v.len()).rev() { if *perm % 3 == 1 || r.chance(1, 20) { v.swap(i, r.below(i as u64 + 1) as usize); } } }
                    self.write_batch(&l, *perm, &v);
                }
            }
            Op::Spread { s, windows } => for i in 0..*windows as usize {
                let bits = self.wd.g().fresh_bits();
                let _ = self.write_point(&self.series[(*s + i % 3) % self.series.len()], i as u32, sc::wall_ms().max(1) as u64, bits);
                sc::sleep_ns(self.chunk_ms * MS + if i % 5 == 4 { self.chunk_ms * MS / 7 } else { MS / 2 });
            },
            Op::Sleep(ms) => sc::sleep_ns(ms * MS),
            Op::Shift(ms) => sc::shift_wall(*ms),
            Op::VerifyAll => self.verify_all(),
            Op::Stale { s, back } => {
                let l = self.series[*s % self.series.len()].clone();
                let w1 = self.db.window();
                if let Some((a, _)) = w1 {
                    let ts = a.saturating_sub(*back).max(1);
                    let bits = self.wd.g().fresh_bits();
                    let r = self.write_point(&l, 0, ts, bits);
                    if r.is_ok() && self.db.window() == w1 { self.wd.fail("stale-accepted", format!("db{}: write at {} accepted although the window starts at {}", self.dbi, ts, a)); }
                }
            }
            Op::Track { s, windows, early, jump } => {
                // a series of its own: nobody else stamps it ahead of the clock
                let l = vec![("track".to_string(), format!("t{}", s))];
                let c = self.chunk_ms * MS;
                let wait = if *early { 0 } else { 2 * c + 5 * MS };
                sc::sleep_ns(wait);
                let limit = (c / 2).max(200 * MS);
                let t0 = sc::now_ns();
                let mut last_ok = t0;
                let mut worst = 0;
                let mut jump = *jump;
                // until then the next rotation may be to come that puts the window back in place
                let mut until = 0;
                while sc::now_ns() < t0 + windows * c {
                    let bits = self.wd.g().fresh_bits();
                    let r = self.write_point(&l, 0, sc::wall_ms() as u64, bits);
                    let now = sc::now_ns();
                    if r.is_ok() { last_ok = now; }
                    if until == 0 { worst = worst.max(now - last_ok); }
                    match jump {
                        Some((at, ms)) if now >= t0 + at * c / 1000 => { sc::shift_wall(ms); jump = None; until = now + c * 3 / 2 + 100 * MS; }
                        _ => {}
                    }
                    if now >= until && now - last_ok > limit {
                        self.wd.fail("gap", format!("db{}: now-stamped writes refused for {} ms (window length {} ms), {} ms after the disturbance ended; last answer {:?}", self.dbi, (now - last_ok) / MS, self.chunk_ms, (now - t0 + wait) / MS, r));
                        break;
                    }
                    sc::sleep_ns((c / 40).max(2 * MS));
                }
                let mut w = self.wd.g();
                let e = w.counts.entry("longest gap around a rotation in calm phases, us".into()).or_insert(0);
                *e = (*e).max(worst / 1000);
            }
        }
    }
    pub fn run_clients(&self, clients: &[Vec<Op>], tag: &str) {
        let p = sc::cur_proc();
        let mut hs = vec![];
        for (i, ops) in clients.iter().enumerate() {
            let (me, ops) = (self.clone(), ops.clone());
            hs.push(sc::spawn_task(&format!("{}.c{}", tag, i), p, move || for o in &ops { sc::note(|| format!("op {:?}", o)); me.op(o); }));
        }
        for h in hs { let _ = h.join_deadline(None); }
    }
}

struct Sess { p: sc::ProcId, done: Arc<AtomicBool>, db: usize, idle_ms: u64, power: bool }

fn start(wd: &Wd, types: &Arc<Mutex<BTreeMap<usize, Types>>>, p: &Arc<DbPlan>, series: &Arc<Vec<LSet>>, s: &Session, verify: bool) -> Sess {
    let done = Arc::new(AtomicBool::new(false));
    { let mut w = wd.g(); w.lives[s.db] += 1; let ms = sc::wall_ms(); w.opens.push(ms); w.count("database opens"); }
    let (wd2, types, p2, series, s2, d2) = (wd.clone(), types.clone(), p.clone(), series.clone(), s.clone(), done.clone());
    let proc_ = sc::spawn_proc(&format!("db{}", s.db), move || {
        let (wd, p, s) = (wd2, p2, s2);
        let own = p.dbs[s.db];
        let mut tries: Vec<(bool, bool)> = match s.types { Some(t) => vec![t], None => vec![own] };
        if verify {
            let g = types.lock().unwrap();
            let t = g.get(&s.db);
            tries = match t { Some(Types { established: Some(e), .. }) => vec![*e], Some(t) if !t.attempted.is_empty() => { let mut v = t.attempted.clone(); v.dedup(); v } _ => vec![own] };
        }
        let mut opened = None;
        let mut errs = vec![];
        'outer: for t in tries.iter() {
            for k in 0..=s.reopen {
                let b = sc::stamp();
                types.lock().unwrap().entry(s.db).or_default().attempted.push(*t);
                let r = db::open(s.db, s.chunk_ms.unwrap_or(p.chunk_ms), *t);
                let mut g = types.lock().unwrap();
                let ty = g.get_mut(&s.db).unwrap();
                match r {
                    Ok(d) => {
                        match ty.established {
                            Some(e) if e != *t => { wd.fail("mismatch-accepted", format!("db{} was created with (tikv storage, tikv indexer) = {:?} and opened with {:?}", s.db, e, t)); }
                            _ => {}
                        }
                        if ty.established.is_none() { ty.established = Some(*t); }
                        opened = Some((d, *t));
                        break 'outer;
                    }
                    Err(m) => {
                        errs.push(format!("{:?}: {}", t, m));
                        let mut w = wd.g();
                        if w.err_ok(b) { w.count("opens failed under faults"); }
                        else if ty.established == Some(*t) || (!verify && ty.established.is_none() && ty.attempted.iter().all(|x| x == t)) {
                            let n = w.lives[s.db];
                            w.fail("reopen-failed", format!("db{} cannot be opened (open number {}): {}", s.db, n, m));
                        } else { w.count("opens refused: other engine types"); }
                    }
                }
                drop(g);
                if k < s.reopen { sc::sleep_ns(20 * MS); }
            }
        }
        match opened {
            None => { if verify { wd.fail("reopen-failed", format!("db{} cannot be opened any more with any types it was opened with: {:?}", s.db, errs)); } }
            Some((d, kv)) => {
                let cx = Ctx { wd: wd.clone(), db: d, dbi: s.db, kv, chunk_ms: s.chunk_ms.unwrap_or(p.chunk_ms), series };
                for (i, ph) in s.phases.iter().enumerate() {
                    if ph.calm { wd.calm() } else { wd.faults(ph.faults) }
                    cx.run_clients(&ph.clients, &format!("db{}.ph{}", s.db, i));
                }
                // keep the database (and its rotation) running until the supervisor stops the process
                d2.store(true, Ordering::SeqCst);
                loop { sc::sleep_ns(3_600_000 * MS); }
            }
        }
        d2.store(true, Ordering::SeqCst);
    });
    Sess { p: proc_, done, db: s.db, idle_ms: s.idle_ms, power: s.power }
}

fn supervise(wd: &Wd, s: &Sess, arg: u64) {
    let t0 = sc::now_ns();
    loop {
        if sc::proc_exit(s.p).is_some() { break; }
        if s.done.load(Ordering::SeqCst) {
            if sc::wait_proc(s.p, Some(sc::now_ns() + s.idle_ms * MS)).is_none() { sc::crash_proc(s.p, s.power, arg); }
            break;
        }
        if sc::now_ns() > t0.max(wd.g().progress) + 1_800_000 * MS {
            wd.fail("stuck", format!("db{}: clients did not finish: {:?}", s.db, sc::live_tasks(s.p)));
            sc::crash_proc(s.p, false, arg);
            break;
        }
        sc::wait_proc(s.p, Some(sc::now_ns() + 10 * MS));
    }
    let t = sc::with(|st| st.procs[s.p as usize].ended_ns);
    wd.g().life_ended(s.db, t, FLUSH_NS);
}

pub fn run(p: &DbPlan, seed: u64, wd: Wd) {
    db::prepare_world(p.dbs.len(), seed);
    wd.g().salt = simcore::rng::mix(seed ^ 0x5a17);
    wd.g().lives = vec![0; p.dbs.len()];
    let types: Arc<Mutex<BTreeMap<usize, Types>>> = Default::default();
    let series = Arc::new(p.series.clone());
    let p = Arc::new(p.clone());
    let mut arg = seed;
    for r in &p.rounds {
        match &r.shift {
            Shift::None => {}
            Shift::By(ms) => sc::shift_wall(*ms),
            Shift::ToOpen(n, off) => { let t = { let w = wd.g(); if w.opens.is_empty() { None } else { Some(w.opens[w.opens.len() - 1 - (*n as usize % w.opens.len())]) } }; if let Some(t) = t { sc::shift_wall(t + off - sc::wall_ms()); } }
        }
        wd.faults(r.faults);
        let ss: Vec<Sess> = r.sessions.iter().map(|s| start(&wd, &types, &p, &series, s, false)).collect();
        for s in &ss { arg = sc::rng::mix(arg); supervise(&wd, s, arg >> 8); }
        wd.faults(false);
    }
    if p.verify {
        wd.calm();
        sc::sleep_ns(5 * MS);
        for i in 0..p.dbs.len() {
            let s = Session { db: i, types: None, chunk_ms: None, phases: vec![Phase { faults: false, calm: true, clients: vec![vec![Op::VerifyAll]] }], idle_ms: 0, power: false, reopen: 0 };
            let s = start(&wd, &types, &p, &series, &s, true);
            supervise(&wd, &s, arg >> 8);
        }
    }
}

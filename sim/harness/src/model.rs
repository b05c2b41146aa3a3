//! The reference model: what was written, what was acknowledged, and what a query may and must return.
use crate::plan::LSet;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex, MutexGuard};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum St { Pending, Acked, /// acknowledged, but the point may lie outside the window
    Maybe, Failed }

#[derive(Clone, Debug)]
pub struct W {
    pub db: usize, pub labels: LSet, pub ts: u64, pub bits: u64,
    pub begin: u64, pub end: u64, pub ack_ns: u64, pub st: St, pub life: u32,
    /// must be found by every later life
    pub durable: bool,
    pub seen_life: u32, pub seen_stamp: u64,
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct Viol { pub kind: String, pub msg: String }

pub type Rows = Vec<(LSet, Vec<(u64, u64)>)>;

#[derive(Default)]
pub struct World {
    pub writes: Vec<W>,
    pub by_series: BTreeMap<(usize, LSet), Vec<usize>>,
    by_point: BTreeMap<(u64, u64), Vec<usize>>,
    pub viols: Vec<Viol>,
    pub lives: Vec<u32>,
    pub faults_on: bool,
    pub faults_off_stamp: u64,
    pub opens: Vec<i64>,
    pub counts: BTreeMap<String, u64>,
    n: u64,
    /// when a client last got anywhere
    pub progress: u64,
    /// where the special values of this run begin
    pub salt: u64,
    /// values travel in protobuf messages
    pub wire: bool,
}

/// Values that code treats apart, each used at most once per run. The last one, -0.0, has no
/// encoding of its own in the protobuf libraries of the protocol's users.
const SPECIAL: [u64; 14] = [
    0, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 0x7fef_ffff_ffff_ffff, 0xffef_ffff_ffff_ffff, 0x3ff0_0000_0000_0000,
    0x7ff0_0000_0000_0002, 0x0010_0000_0000_0000, 1, 0xbff0_0000_0000_0000, 0xfff8_0000_0000_0000, u64::MAX, 0x4340_0000_0000_0001, 0x8000_0000_0000_0000,
];

#[derive(Clone, Default)]
pub struct Wd(Arc<Mutex<World>>);
impl Wd {
    pub fn g(&self) -> MutexGuard<'_, World> { self.0.lock().unwrap_or_else(|e| e.into_inner()) }
    pub fn fail(&self, kind: &str, msg: String) { self.g().fail(kind, msg) }
    pub fn count(&self, k: &str) { self.g().count(k) }
    pub fn faults(&self, on: bool) {
        simcore::set_faults(on);
        let s = simcore::stamp();
        let mut w = self.g();
        if w.faults_on && !on { w.faults_off_stamp = s; }
        w.faults_on = on;
    }
    pub fn calm(&self) { self.faults(false); simcore::calm(); }
}

pub fn canon(l: &[(String, String)]) -> LSet { let mut v = l.to_vec(); v.sort(); v.dedup(); v }
pub fn show(l: &LSet) -> String { format!("{{{}}}", l.iter().map(|(k, v)| format!("{:?}={:?}", k, v)).collect::<Vec<_>>().join(",")) }
fn contains(series: &LSet, want: &LSet) -> bool { want.iter().all(|w| series.contains(w)) }
fn val(bits: u64) -> String { format!("{:?}", f64::from_bits(bits)) }

impl World {
    pub fn fail(&mut self, kind: &str, msg: String) {
        simcore::note(|| format!("VIOLATION {}: {}", kind, msg));
        if self.viols.len() < 40 { self.viols.push(Viol { kind: kind.into(), msg }); }
    }
    pub fn count(&mut self, k: &str) { self.progress = simcore::now_ns(); *self.counts.entry(k.into()).or_insert(0) += 1; }
    /// a fresh value; never repeats within a run
    pub fn fresh_bits(&mut self) -> u64 {
        self.n += 1;
        let n = self.n;
        let specials = if self.wire { SPECIAL.len() - 1 } else { SPECIAL.len() };
        if n % 5 == 4 && (n / 5) < specials as u64 { return SPECIAL[((n / 5).wrapping_add(self.salt) % specials as u64) as usize]; }
        match n % 11 {
            0 => 0x7ff8_0000_0000_0000 | n,                        // NaN with payload
            3 => (-(n as f64) * 0.37).to_bits(),
            5 => (n << 3) | 5,                                      // subnormal
            7 => (n as f64 * 1e300).to_bits(),
            _ => (n as f64 + 0.25).to_bits(),
        }
    }
    pub fn err_ok(&self, begin: u64) -> bool { self.faults_on || self.faults_off_stamp > begin }
    pub fn begin(&mut self, db: usize, labels: &LSet, ts: u64, bits: u64, stamp: u64) -> usize {
        let l = canon(labels);
        let id = self.writes.len();
        self.writes.push(W { db, labels: l.clone(), ts, bits, begin: stamp, end: 0, ack_ns: 0, st: St::Pending, life: self.lives[db], durable: false, seen_life: 0, seen_stamp: 0 });
        self.by_series.entry((db, l)).or_default().push(id);
        self.by_point.entry((ts, bits)).or_default().push(id);
        id
    }
    pub fn finish(&mut self, id: usize, st: St, stamp: u64, now: u64) { self.progress = simcore::now_ns(); let w = &mut self.writes[id]; w.st = st; w.end = stamp; w.ack_ns = now; }
    /// The process of `db` has ended at `t`: points acknowledged more than `flush_ns` before must survive.
    pub fn life_ended(&mut self, db: usize, t: u64, flush_ns: u64) {
        let l = self.lives[db];
        let mut kept = 0; let mut open = 0;
        for w in self.writes.iter_mut().filter(|w| w.db == db && w.life == l) {
            if w.st == St::Acked && w.ack_ns + flush_ns < t { w.durable = true; kept += 1; } else { open += 1; }
        }
        *self.counts.entry("points that had to survive a stop or crash".into()).or_insert(0) += kept;
        *self.counts.entry("points that might be lost in a crash".into()).or_insert(0) += open;
    }
    pub fn must_exist(&self, w: &W, db: usize, begin: u64) -> bool {
        w.db == db && (
            (w.life == self.lives[db] && w.st == St::Acked && w.end < begin)
            || (w.durable && w.life < self.lives[db])
            || (w.seen_life == self.lives[db] && w.seen_stamp < begin))
    }
    /// Check a successful query result.
    pub fn check(&mut self, db: usize, want: &LSet, lo: u64, hi: u64, begin: u64, end: u64, rows: &Rows, what: &str) {
        self.count("queries checked");
        let ctx = format!("{} db{} life {} {} in [{}, {}]", what, db, self.lives[db], show(want), lo, hi);
        let mut seen_series: BTreeSet<LSet> = BTreeSet::new();
        let mut got: BTreeMap<LSet, BTreeMap<(u64, u64), u32>> = BTreeMap::new();
        let mut npts = 0;
        for (labels, pts) in rows {
            let l = canon(labels);
            if !seen_series.insert(l.clone()) { self.fail("dup-series", format!("{}: series {} appears twice", ctx, show(&l))); }
            if !contains(&l, want) { self.fail("bad-labels", format!("{}: series {} lacks a requested label", ctx, show(&l))); }
            if !self.by_series.contains_key(&(db, l.clone())) { self.fail("alien-series", format!("{}: no such series was ever written: {}", ctx, show(&l))); }
            if pts.is_empty() { self.count("empty series returned"); }
            for p in pts.windows(2) { if p[0].0 > p[1].0 { self.fail("unsorted", format!("{}: {} has {} before {}", ctx, show(&l), p[0].0, p[1].0)); break; } }
            let mine = got.entry(l.clone()).or_default();
            let mut outside = None;
            for (ts, bits) in pts {
                npts += 1;
                if *ts < lo || *ts > hi { outside = Some(*ts); }
                *mine.entry((*ts, *bits)).or_insert(0) += 1;
            }
            if let Some(ts) = outside { self.fail("out-of-range", format!("{}: point at {} of {}", ctx, ts, show(&l))); }
        }
        *self.counts.entry("points compared".into()).or_insert(0) += npts;
        for (l, (ts, bits), n) in got.iter().flat_map(|(l, m)| m.iter().map(move |(p, n)| (l, p, n))) {
            let ids: Vec<usize> = self.by_point.get(&(*ts, *bits)).map(|v| v.iter().cloned().filter(|i| { let w = &self.writes[*i]; w.db == db && w.labels == *l && w.begin < end }).collect()).unwrap_or_default();
            if ids.is_empty() {
                let other = self.by_point.get(&(*ts, *bits)).and_then(|v| v.first()).map(|i| (self.writes[*i].db, self.writes[*i].labels.clone()));
                match other {
                    Some((d, _)) if d != db => self.fail("cross-db", format!("{}: point ({}, {}) of {} was written to database {}", ctx, ts, val(*bits), show(l), d)),
                    Some((_, o)) => self.fail("mixed", format!("{}: point ({}, {}) is reported under {} but was written to {}", ctx, ts, val(*bits), show(l), show(&o))),
                    None => self.fail("phantom", format!("{}: point ({}, {}) of {} was never written", ctx, ts, val(*bits), show(l))),
                }
            } else {
                if *n as usize > ids.len() { self.fail("dup-point", format!("{}: point ({}, {}) of {} returned {} times, written {} time(s)", ctx, ts, val(*bits), show(l), n, ids.len())); }
                let life = self.lives[db];
                for i in ids {
                    let w = &mut self.writes[i];
                    if w.seen_life != life { w.seen_life = life; w.seen_stamp = end; } else { w.seen_stamp = w.seen_stamp.min(end); }
                    if w.life < life { w.durable = true; }
                }
            }
        }
        let life = self.lives[db];
        let mut miss = vec![];
        for ((d, l), ids) in self.by_series.iter() {
            if *d != db || !contains(l, want) { continue; }
            let mine = got.get(l);
            for i in ids {
                let w = &self.writes[*i];
                if w.ts < lo || w.ts > hi || !self.must_exist(w, db, begin) { continue; }
                if !mine.map_or(false, |m| m.contains_key(&(w.ts, w.bits))) { miss.push(*i); }
            }
        }
        if let Some(i) = miss.first() {
            let w = &self.writes[*i];
            let kind = if w.life == life { if w.st == St::Acked { "missing-live" } else { "vanished" } } else { "missing-durable" };
            let m = format!("{}: {} point(s) missing, e.g. ({}, {}) of {} written in life {} ({:?})", ctx, miss.len(), w.ts, val(w.bits), show(&w.labels), w.life, w.st);
            self.fail(kind, m);
        }
    }
    /// One window is one atomic map: a query that saw a write must also have seen every write that
    /// was acknowledged before that one began.
    pub fn check_order(&mut self, want: &LSet, lo: u64, hi: u64, rows: &Rows, end: u64) {
        let mut newest: Option<usize> = None;
        let mut got: BTreeSet<(LSet, u64, u64)> = BTreeSet::new();
        for (l, pts) in rows { let l = canon(l); for (t, b) in pts {
            got.insert((l.clone(), *t, *b));
            for i in self.by_point.get(&(*t, *b)).into_iter().flatten() { let w = &self.writes[*i]; if w.db == 0 && w.labels == l && w.begin < end && newest.map_or(true, |n| self.writes[n].begin < w.begin) { newest = Some(*i); } }
        } }
        let n = match newest { Some(n) => n, None => return };
        let nb = self.writes[n].begin;
        let miss: Vec<usize> = self.writes.iter().enumerate().filter(|(_, w)| w.st == St::Acked && w.end < nb && w.ts >= lo && w.ts <= hi && contains(&w.labels, want) && !got.contains(&(w.labels.clone(), w.ts, w.bits))).map(|x| x.0).collect();
        if let Some(i) = miss.first() { let (a, b) = (self.writes[*i].clone(), self.writes[n].clone()); self.fail("not-linearizable", format!("query {} in [{}, {}] returned the point at {} of {} but not the point at {} of {}, acknowledged before the other was begun", show(want), lo, hi, b.ts, show(&b.labels), a.ts, show(&a.labels))); }
    }
}

//! Seeded generation of plans, one family per property.
use crate::plan::*;
use simcore::rng::mix;
use simcore::{FaultCfg, Rng, SchedCfg, Strategy};

pub struct G { pub r: Rng }
const KEYS: &[&str] = &["job", "instance", "zone", "__name__", "le", "dc", "job", "instance", "quantile", "__address__", "__meta_kubernetes_pod_name", "exported_job", "Job", "_tmp", "__tmp_x"];
const VALS: &[&str] = &["a", "b", "api", "db-1", "10.0.0.1:9090", "eu", "a", "b", "+Inf", "0.99", "1", "A", "true", "http://h/x?y=z&w", "up"];
/// spellings that collide with separators, internal keys and each other
/// the label that all series of a wide set share
#[allow(non_snake_case)]
pub(crate) fn WIDE() -> (String, String) { ("job".into(), "wide".into()) }
/// text no compression gets rid of
pub(crate) fn noise(r: &mut Rng, n: usize) -> String { (0..n).map(|_| char::from(b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-_"[r.below(64) as usize])).collect() }
const NASTY: &[&str] = &["a", "b", "ab", "A", "=", ",", "a=b", "a,b", "b=c,d", "a=", "=a", ",a=b", "\\", "\\,", "\\=", "L", "R", "LR", "La", "LRa", "Ra", "I", "I1", "1", "2", "1,2", "id", " ", "", "\u{e9}", "\u{0}", "a\nb", "%2C", "%3D", "%", "\"", "a=1", "a=1,b", "1,b=2", "Lk", "key", "metadata", "I0", "10", "11"];

impl G {
    pub(crate) fn sched(&mut self, horizon: u64) -> SchedCfg {
        let r = &mut self.r;
        let strategy = match r.below(100) {
            0..=44 => Strategy::Random { p: *r.pick(&[5, 15, 40, 100, 200, 400]) },
            45..=79 => Strategy::Pct { depth: r.range(1, 8) as u32, horizon: *r.pick(&[horizon / 8, horizon / 2, horizon, horizon * 2]) },
            _ => Strategy::RoundRobin { q: *r.pick(&[1, 2, 3, 7, 20]) },
        };
        // now and then just before a multiple of 2^31 or 2^32 milliseconds
        // or soon after the epoch, where a clock starts that nobody has set
        let epoch_ms = if r.chance(1, 30) { *r.pick(&[1u64, 700, 5_000, 60_000, 3_600_000, 86_400_000, (1 << 31) - 400, (1 << 32) - 400, 100_000_000_000]) + r.below(500) } else if r.chance(1, 10) { let p = *r.pick(&[745u64 << 31, 746 << 31, 747 << 31, 373 << 32, 374 << 32]); p - *r.pick(&[3u64, 40, 400, 2_000, 5_000, 30_000]) } else { 1_600_000_000_000 + r.below(1_000_000_000) };
        SchedCfg { strategy, seed: r.next() >> 12, tick_ns: *r.pick(&[1_000, 1_000, 5_000, 20_000]), p_timer: *r.pick(&[0, 0, 2, 10, 40]), max_steps: 12_000_000, rw_writer_pref: r.chance(1, 2), epoch_ms, starve: if r.chance(1, 8) { 500 } else { 0 }, deviations: vec![] }
    }
    pub(crate) fn faults(&mut self) -> FaultCfg { FaultCfg { seed: self.r.next() >> 12, ..Default::default() } }
    pub(crate) fn rate(&mut self, f: &mut FaultCfg, sites: &[&str], rates: &[u32]) {
        let k = *self.r.pick(rates);
        let one = self.r.chance(1, 2);
        if one { let s = *self.r.pick(sites); f.rates.insert(s.to_string(), k); } else { for s in sites { if self.r.chance(2, 3) { f.rates.insert(s.to_string(), k); } } }
        f.burst = *self.r.pick(&[0, 0, 0, 1, 1, 3, 3, 8, 8, 40]);
    }
    pub(crate) fn kv(&mut self) -> (bool, bool) { *self.r.pick(&[(false, false), (false, false), (false, true), (true, false), (true, true)]) }
    pub(crate) fn plain_series(&mut self, n: usize) -> Vec<LSet> {
        let mut v: Vec<LSet> = vec![];
        while v.len() < n {
            let l: LSet = if !v.is_empty() && self.r.chance(1, 2) {
                // nested: an earlier set with a label more or less
                let k = self.r.below(v.len() as u64) as usize;
                let mut l = v[k].clone();
                if l.len() > 1 && self.r.chance(1, 3) { l.pop(); } else { l.push((self.r.pick(KEYS).to_string(), self.r.pick(VALS).to_string())); }
                l
            } else {
                (0..self.r.range(1, 3)).map(|_| (self.r.pick(KEYS).to_string(), self.r.pick(VALS).to_string())).collect()
            };
            self.push_series(&mut v, l);
        }
        v
    }
    /// many series that share labels in several ways
    pub(crate) fn wide_series(&mut self) -> Vec<LSet> {
        let n = *self.r.pick(&[9usize, 11, 12, 17, 24, 33, 48, 70, 9usize, 11, 12, 17, 24, 33, 48, 70, 9usize, 11, 12, 17, 24, 33, 48, 70, 130, 300]);
        let m = *self.r.pick(&[1u64, 2, 3, 5, 17]);
        let (d, step) = (self.r.range(1, 12), self.r.range(1, 4));
        let mut v = vec![];
        let shared = n > 100 || self.r.chance(1, 3);
        for i in 0..n as u64 {
            let mut l: LSet = vec![("i".to_string(), (i * step).to_string())];
            if shared { l.push(WIDE()); }
            for j in 0..m { if j == 0 || (i + j) % 3 > 0 { l.push((format!("k{}", j), format!("v{}", i / d % (j + 2)))); } }
            self.push_series(&mut v, l);
        }
        v
    }
    /// now and then sizes that a handful of points never reaches
    pub(crate) fn enlarge(&mut self, d: &mut DbPlan) {
        if self.r.chance(1, 8) && d.rounds.len() <= 3 {
            let wide = self.wide_series();
            let n = wide.len();
            d.series.extend(wide);
            // looking through so many series takes long, during which short windows would pile up
            if n > 100 { d.chunk_ms = d.chunk_ms.max(1000); }
            d.series.sort(); d.series.dedup();
            if self.r.chance(1, 2) { let k = d.series.len(); for i in (1..k).rev() { let j = self.r.below(i as u64 + 1) as usize; d.series.swap(i, j); } }
            for r in d.rounds.iter_mut() { for s in r.sessions.iter_mut() { if let Some(p) = s.phases.first_mut() { if let Some(c) = p.clients.first_mut() { let at = self.r.below(c.len() as u64 + 1) as usize; c.insert(at, Op::Sweep { s: self.r.below(n as u64) as usize, k: if self.r.chance(2, 3) { n + 5 } else { self.r.range(2, n as u64) as usize }, perm: self.r.below(200) as u32 }); if self.r.chance(1, 2) { c.insert(at + 1, Op::Query { want: Want::Lit(vec![WIDE()]), range: Range::All }); } } } } }
        }
        if d.rounds.len() <= 3 && d.series.len() <= 48 && self.r.chance(1, 40) {
            // a life through many windows
            let c = d.chunk_ms;
            if let Some(s) = d.rounds.iter_mut().flat_map(|r| r.sessions.iter_mut()).next() {
                if c.max(s.chunk_ms.unwrap_or(0)) <= 3000 { let w = *self.r.pick(&[20, 35, 70, 70, 140, 270]); s.phases.insert(0, Phase { faults: false, calm: false, clients: vec![vec![Op::Spread { s: 0, windows: w }]] }); }
            }
        }
        if self.r.chance(1, 10) {
            for r in d.rounds.iter_mut() { for s in r.sessions.iter_mut() { for p in s.phases.iter_mut() { for c in p.clients.iter_mut() { if self.r.chance(1, 3) {
                let at = self.r.below(c.len() as u64 + 1) as usize;
                c.insert(at, Op::Bulk { s: self.r.below(2) as usize, k: *self.r.pick(&[9, 17, 33, 65, 130, 260, 9, 17, 33, 65, 130, 260, 9, 17, 33, 65, 130, 260, 1100, 4200]), perm: self.r.below(200) as u32 });
            } } } } }
        }
    }
    pub(crate) fn push_series(&mut self, v: &mut Vec<LSet>, mut l: LSet) {
        l.sort(); l.dedup();
        // two values for one name are unusual, but two distinct pairs all the same
        if !self.r.chance(1, 6) { l.dedup_by(|a, b| a.0 == b.0); }
        if l.is_empty() || v.iter().any(|x| *x == l) { return; }
        v.push(l);
    }
    /// a different text that is easily taken for the given one
    fn respell(&mut self, t: &str) -> String {
        match self.r.below(14) {
            0 => format!("{} ", t),
            1 => format!(" {}", t),
            2 => format!("{}{}", t, self.r.pick(&["\t", "\n", "\r\n", "\u{a0}", "\u{0}"])),
            3 => t.to_uppercase(),
            4 => t.to_lowercase(),
            5 => { let mut c = t.chars(); c.next().map_or("A".into(), |f| f.to_uppercase().collect::<String>() + c.as_str()) }
            6 => format!("{}\u{301}", t),
            7 => format!("\"{}\"", t),
            8 => format!("0{}", t),
            9 => format!("{}/", t),
            10 => format!("{}.0", t),
            11 => t.chars().rev().collect(),
            12 => { let n = t.chars().count(); t.chars().take(n.saturating_sub(1)).collect() }
            _ => t.replace(|c: char| !c.is_alphanumeric(), "_"),
        }
    }
    pub(crate) fn nasty_series(&mut self, n: usize) -> Vec<LSet> {
        let mut v: Vec<LSet> = vec![];
        let mut pool: Vec<String> = (0..self.r.range(2, 5)).map(|_| self.r.pick(NASTY).to_string()).collect();
        if self.r.chance(1, 6) { let c = self.r.pick(&["x", "=", ","]).to_string(); let k = if self.r.chance(1, 6) { *self.r.pick(&[1_100, 5_000, 70_000]) } else { self.r.range(100, 400) }; pool.push(if self.r.chance(1, 4) { noise(&mut self.r, k as usize) } else { c.repeat(k as usize) }); }
        let mut tries = 0;
        while v.len() < n {
            tries += 1;
            if tries > 60 { let k = format!("x{}", tries); self.push_series(&mut v, vec![(k, "y".into())]); continue; }
            let any = |g: &mut G| -> String { if g.r.chance(4, 5) { pool[g.r.below(pool.len() as u64) as usize].clone() } else { g.r.pick(NASTY).to_string() } };
            match self.r.below(8) {
                6 | 7 if !v.is_empty() => { // another spelling of one text
                    let mut l = v[self.r.below(v.len() as u64) as usize].clone();
                    let i = self.r.below(l.len() as u64) as usize;
                    let t = if self.r.chance(1, 3) { self.respell(&l[i].0.clone()) } else { self.respell(&l[i].1.clone()) };
                    match self.r.below(4) {
                        0 => l[i].0 = t,
                        1 => { let p = (t, l[i].1.clone()); l.push(p); } // both spellings in one set
                        _ => l[i].1 = t,
                    }
                    self.push_series(&mut v, l);
                }
                0 if !v.is_empty() => { // the text of one set as a single label of another
                    let l = v[self.r.below(v.len() as u64) as usize].clone();
                    let t: Vec<String> = l.iter().map(|(k, x)| format!("{}={}", k, x)).collect();
                    let t = t.join(",");
                    let cut: Vec<usize> = t.char_indices().filter(|(_, c)| *c == '=').map(|(i, _)| i).collect();
                    if !cut.is_empty() { let c = cut[self.r.below(cut.len() as u64) as usize]; let (a, b) = (t[..c].to_string(), t[c + 1..].to_string()); self.push_series(&mut v, vec![(a, b)]); }
                }
                1 if !v.is_empty() => { // prefix / extension
                    let mut l = v[self.r.below(v.len() as u64) as usize].clone();
                    let a = (any(self), any(self)); l.push(a);
                    self.push_series(&mut v, l);
                }
                2 => { let (k, x) = (any(self), any(self)); let p = self.r.pick(&["R", "L", "LR", "I", ""]).to_string(); self.push_series(&mut v, vec![(k.clone(), x.clone())]); if v.len() < n { self.push_series(&mut v, vec![(format!("{}{}", p, k), x)]); } }
                3 if !v.is_empty() => { // key and value swapped, or value of another
                    let l = v[self.r.below(v.len() as u64) as usize].clone();
                    let l: LSet = l.into_iter().map(|(k, x)| (x, k)).collect();
                    self.push_series(&mut v, l);
                }
                _ => { let k = self.r.range(1, 3); let l: LSet = (0..k).map(|_| (any(self), any(self))).collect(); self.push_series(&mut v, l); }
            }
        }
        v
    }
    pub(crate) fn want(&mut self, n: usize) -> Want {
        let i = self.r.below(n as u64) as usize;
        match self.r.below(10) { 0..=3 => Want::Series(i, u64::MAX), 4..=5 => Want::Series(i, self.r.next()), 6 if self.r.chance(1, 3) => Want::Twice(i, self.r.below(12) as u32), 6..=8 => Want::One(i, self.r.below(4) as usize), _ => Want::Unknown(i, self.r.below(9) as u32) }
    }
    pub(crate) fn range(&mut self, c: u64) -> Range {
        match self.r.below(12) { 0..=4 => Range::All, 5..=6 => Range::Around(self.r.below(3 * c), self.r.below(c)), 7..=8 => Range::Exact(self.r.below(8) as usize, self.r.below(20) as u32), 9 => Range::Old, 10 if self.r.chance(1, 4) => Range::Inverted(self.r.below(c)), 10 if self.r.chance(1, 3) => Range::Max, _ => Range::WinEdge(self.r.range(0, 4) as i64 - 2, self.r.range(0, 4) as i64 - 2) }
    }
    pub(crate) fn ts(&mut self) -> Ts {
        match self.r.below(20) { 0..=7 => Ts::Now(0), 8..=9 => Ts::Now(self.r.range(0, 40) as i64 - 20), 10..=15 => Ts::Win(self.r.range(0, 1000) as i64), 16 if self.r.chance(1, 4) => Ts::Lit(*self.r.pick(&[0, 0, 1, -1, -1_600_000_000_000, 1_600_000_000, i32::MAX as i64, u32::MAX as i64 + 1, i64::MAX - 1, i64::MAX, i64::MIN, i64::MIN + 1, 1_600_000_000_000_000_000])), 16 => Ts::Win(*self.r.pick(&[-3, -2, -1, 1001, 1002, 1003])), _ => Ts::Near(self.r.below(4) as u32, self.r.range(0, 4) as i64 - 2) }
    }
    fn write(&mut self, n: usize) -> Op { Op::Write { s: self.r.below(n as u64) as usize, ts: self.ts(), perm: self.r.below(200) as u32, retry: 0 } }
    fn batch(&mut self, n: usize) -> Op { let k = self.r.range(1, 6); Op::Batch { s: self.r.below(n as u64) as usize, ts: (0..k).map(|_| self.ts()).collect(), perm: self.r.below(200) as u32 } }
    /// a client program: weights for write, batch, query, sleep
    pub(crate) fn client(&mut self, n: usize, c: u64, len: u64, w: [u64; 4]) -> Vec<Op> {
        let tot: u64 = w.iter().sum();
        (0..len).map(|_| {
            let mut x = self.r.below(tot);
            if x < w[0] { return self.write(n); } x -= w[0];
            if x < w[1] { return self.batch(n); } x -= w[1];
            if x < w[2] { return Op::Query { want: self.want(n), range: self.range(c) }; }
            Op::Sleep(self.r.below(*self.r.clone().pick(&[2, c / 8 + 1, c / 2 + 1, c])))
        }).collect()
    }
    pub(crate) fn clients(&mut self, n: usize, c: u64, k: u64, len: u64, w: [u64; 4]) -> Vec<Vec<Op>> { (0..k).map(|_| { let l = self.r.range(len / 2 + 1, len); self.client(n, c, l, w) }).collect() }
    pub(crate) fn chunk_ms(&mut self) -> u64 { *self.r.pick(&[60, 100, 150, 250, 400, 1000, 3000]) }
}

fn sess(db: usize, phases: Vec<Phase>) -> Session { Session { db, types: None, phases, idle_ms: 0, power: false, reopen: 0, chunk_ms: None } }
fn ph(clients: Vec<Vec<Op>>) -> Phase { Phase { faults: false, calm: false, clients } }
fn fph(clients: Vec<Vec<Op>>) -> Phase { Phase { faults: true, calm: false, clients } }
fn round(shift: Shift, faults: bool, sessions: Vec<Session>) -> Round { Round { shift, faults, sessions } }

pub fn plan(prop: &str, seed: u64) -> Plan {
    let pn: u64 = prop.bytes().map(|b| b as u64).fold(7, |a, b| a * 131 + b);
    let mut g = G { r: Rng::new(mix(seed ^ pn.wrapping_mul(0x9e3779b97f4a7c15))) };
    let mut sched = g.sched(3000);
    let mut faults = g.faults();
    let mut body = match prop {
        "C01" | "C02" => live(&mut g, prop),
        "C03" if g.r.chance(1, 4) => crate::gen2::http(&mut g, prop, &mut sched, &mut faults),
        "C03" => labels(&mut g),
        "C04" => order(&mut g),
        "C05" => window(&mut g, &mut sched, &mut faults),
        "C06" => durability(&mut g, &mut faults),
        "C07" => reopen(&mut g, &mut faults),
        "C08" => restarts(&mut g, &mut faults),
        "C09" => types(&mut g, &mut faults),
        "C10" if g.r.chance(1, 6) => crate::gen2::http(&mut g, prop, &mut sched, &mut faults),
        "C11" if g.r.chance(1, 4) => crate::gen2::http(&mut g, prop, &mut sched, &mut faults),
        "C10" => write_faults(&mut g, &mut faults),
        "C11" => read_faults(&mut g, &mut faults),
        "C15" => cluster(&mut g, &mut faults),
        "C12" | "C13" | "C14" | "C19" => crate::gen2::http(&mut g, prop, &mut sched, &mut faults),
        "C21" => crate::gen2::options(&mut g, &mut sched, &mut faults),
        "C16" => crate::gen2::wal(&mut g, &mut sched, &mut faults),
        "C17" => crate::gen2::intersect(&mut g, &mut sched),
        "C18" => crate::gen2::chunk(&mut g, &mut sched, &mut faults),
        p => panic!("no plans for {}", p),
    };
    // with a coarse tick a window must still hold many steps
    if let Body::Db(d) = &mut body {
        if prop != "C17" { g.enlarge(d); }
        // restarted with windows of another length
        let lives = d.rounds.iter().map(|r| r.sessions.len()).sum::<usize>() + d.verify as usize;
        if lives > 1 && g.r.chance(1, 3) {
            let c = d.chunk_ms;
            for s in d.rounds.iter_mut().flat_map(|r| r.sessions.iter_mut()) { if g.r.chance(1, 2) { s.chunk_ms = Some((*g.r.pick(&[c / 8, c / 2, c - 1, c + 1, 2 * c, 9 * c])).max(60)); } }
        }
        let least = d.rounds.iter().flat_map(|r| r.sessions.iter()).filter_map(|s| s.chunk_ms).chain(Some(d.chunk_ms)).min().unwrap();
        if least * 1_000_000 / sched.tick_ns < 20_000 { sched.tick_ns = (least * 50).max(500); }
    }
    Plan { prop: prop.into(), seed, sched, faults, body }
}

/// C01, C02: one life, concurrent clients, windows rotating underneath
fn live(g: &mut G, prop: &str) -> Body {
    let c = g.chunk_ms();
    let n = g.r.range(1, 5) as usize;
    let series = g.plain_series(n);
    let kv = g.kv();
    let w = match g.r.below(4) { 0 => [6, 1, 3, 2], 1 => [3, 0, 4, 2], 2 => [4, 3, 4, 4], _ => [5, 1, 6, 1] };
    let k = g.r.range(2, 5);
    let len = *g.r.pick(&[4, 8, 16, 30]);
    let mut phases = vec![ph(g.clients(n, c, k, len, w))];
    if g.r.chance(2, 3) {
        // queries placed around a rotation
        let mut cl = g.clients(n, c, k, len, w);
        for ops in cl.iter_mut() { ops.insert(0, Op::Sleep(g.r.range(c * 3 / 4, c + c / 4))); }
        phases.push(ph(cl));
    }
    let mut last = vec![];
    if prop == "C01" || g.r.chance(1, 2) { last.push(Op::VerifyAll); }
    phases.push(ph(vec![last]));
    Body::Db(DbPlan { dbs: vec![kv], chunk_ms: c, series, rounds: vec![round(Shift::None, false, vec![sess(0, phases)])], verify: false })
}

fn labels(g: &mut G) -> Body {
    let c = g.chunk_ms();
    let n = g.r.range(2, 7) as usize;
    let series = if g.r.chance(3, 4) { g.nasty_series(n) } else { g.plain_series(n) };
    let kv = g.kv();
    let k = g.r.range(1, 4);
    let mut phases = vec![];
    for i in 0..g.r.range(1, 3) {
        let mut cl = g.clients(n, c, k, 10, [6, 1, 3, 1]);
        if i > 0 { for ops in cl.iter_mut() { ops.insert(0, Op::Sleep(g.r.below(c + c / 2))); } }
        phases.push(ph(cl));
    }
    phases.push(ph(vec![vec![Op::VerifyAll]]));
    let mut rounds = vec![round(Shift::None, false, vec![Session { idle_ms: 1600, ..sess(0, phases) }])];
    if g.r.chance(1, 2) {
        let cl = g.clients(n, c, 2, 8, [5, 1, 4, 1]);
        rounds.push(round(Shift::None, false, vec![sess(0, vec![ph(cl), ph(vec![vec![Op::VerifyAll]])])]));
    }
    Body::Db(DbPlan { dbs: vec![kv], chunk_ms: c, series, rounds, verify: false })
}

fn order(g: &mut G) -> Body {
    let c = g.chunk_ms();
    let n = g.r.range(1, 3) as usize;
    let series = g.plain_series(n);
    let kv = if g.r.chance(3, 4) { (false, g.r.chance(1, 4)) } else { (true, g.r.chance(1, 2)) };
    let mut rounds = vec![];
    for i in 0..g.r.range(1, 3) {
        let mut phases = vec![];
        for _ in 0..g.r.range(1, 3) {
            let k = g.r.range(1, 3);
            let mut cl = g.clients(n, c, k, 12, [6, 2, 4, 1]);
            for ops in cl.iter_mut() {
                for o in ops.iter_mut() { if let Op::Write { ts, .. } = o { if g.r.chance(2, 3) { *ts = Ts::Win(g.r.below(1001) as i64); } } }
                if g.r.chance(1, 2) { ops.insert(0, Op::Shift(*g.r.clone().pick(&[-(3 * c as i64), -(c as i64), -(c as i64) / 2, c as i64 / 2, c as i64, 3 * c as i64]))); }
                if g.r.chance(1, 2) { let p = g.r.below(ops.len() as u64) as usize; ops.insert(p, Op::Sleep(g.r.range(c / 2, c + c / 2))); }
            }
            phases.push(ph(cl));
        }
        phases.push(ph(vec![vec![Op::VerifyAll]]));
        let shift = if i == 0 { Shift::None } else { match g.r.below(3) { 0 => Shift::None, 1 => Shift::By(-(g.r.below(4 * c) as i64)), _ => Shift::By(g.r.below(4 * c) as i64) } };
        rounds.push(round(shift, false, vec![Session { idle_ms: 1600, ..sess(0, phases) }]));
    }
    Body::Db(DbPlan { dbs: vec![kv], chunk_ms: c, series, rounds, verify: g.r.chance(1, 2) })
}

const FS: &[&str] = &["fs.open", "fs.create", "fs.write", "fs.sync", "fs.mkdir", "fs.readdir", "fs.rename", "fs.unlink", "fs.read"];
const STORE_W: &[&str] = &["sled.set", "sled.get", "sled.del", "sled.flush", "tikv.put", "tikv.get", "sled.open", "tikv.connect"];
const STORE_R: &[&str] = &["sled.get", "tikv.get"];

fn window(g: &mut G, sched: &mut SchedCfg, faults: &mut FaultCfg) -> Body {
    let c = *g.r.pick(&[400, 600, 1000, 2500]);
    let n = g.r.range(1, 3) as usize;
    let series = g.plain_series(n);
    let kv = g.kv();
    let mut phases = vec![];
    let disturbed = g.r.chance(3, 4);
    if disturbed {
        match g.r.below(4) {
            0 => g.rate(faults, &["fs.create", "fs.write", "fs.mkdir", "fs.sync", "fs.rename", "sled.open"], &[20_000, 60_000, 100_000]),
            1 => g.rate(faults, FS, &[5_000, 20_000, 60_000]),
            2 => g.rate(faults, STORE_W, &[2_000, 20_000, 60_000]),
            _ => { g.rate(faults, FS, &[20_000, 80_000]); g.rate(faults, STORE_W, &[20_000, 80_000]); }
        }
        let k = g.r.range(1, 3);
        let mut cl = g.clients(n, c, k, 6, [5, 1, 2, 4]);
        let w = g.r.range(1, 5);
        cl.push(vec![Op::Sleep(w * c + g.r.below(c))]);
        phases.push(fph(cl));
    } else {
        let k = g.r.range(1, 3);
        let mut cl = g.clients(n, c, k, 10, [5, 1, 3, 4]);
        if g.r.chance(1, 3) { let p = g.r.below(cl[0].len() as u64) as usize; cl[0].insert(p, Op::Shift(g.r.range(0, 6 * c) as i64 - 3 * c as i64)); }
        phases.push(ph(cl));
    }
    if g.r.chance(1, 3) { sched.p_timer = 100; }
    let early = disturbed && g.r.chance(2, 3);
    if early { sched.p_timer = 0; }
    let w = if g.r.chance(1, 12) { g.r.range(9, 24) } else { g.r.range(2, 6) };
    let jump = if !early && w >= 4 && g.r.chance(1, 2) {
        let ms = *g.r.pick(&[c / 2, c, 2 * c, 5 * c, 3_600_000, 40 * 86_400_000]) as i64 + g.r.below(c) as i64;
        Some((g.r.range(300, (w - 2) * 1000), if g.r.chance(1, 2) { ms } else { -ms }))
    } else { None };
    let mut cl = vec![vec![Op::Track { s: 0, windows: w, early, jump }, Op::Stale { s: 0, back: g.r.below(2 * c) }]];
    if g.r.chance(1, 2) { cl.push(g.client(n, c, 8, [0, 0, 3, 3])); }
    phases.push(Phase { faults: false, calm: true, clients: cl });
    phases.push(Phase { faults: false, calm: true, clients: vec![vec![Op::VerifyAll]] });
    let mut rounds = vec![];
    if g.r.chance(1, 4) { let cl = g.clients(n, c, 1, 5, [5, 1, 2, 2]); rounds.push(round(Shift::None, false, vec![Session { idle_ms: 1600, ..sess(0, vec![ph(cl)]) }])); }
    let shift = if rounds.is_empty() { Shift::None } else { Shift::By(g.r.range(0, 6 * c) as i64 - 3 * c as i64) };
    rounds.push(round(shift, false, vec![sess(0, phases)]));
    Body::Db(DbPlan { dbs: vec![kv], chunk_ms: c, series, rounds, verify: false })
}

fn crash(g: &mut G, f: &mut FaultCfg, rates: &[u32], max: u32) {
    f.crash_rate = *g.r.pick(rates);
    f.max_crashes = g.r.range(1, max as u64) as u32;
    f.crash_kind = g.r.pick(&["", "kill", "power", "power"]).to_string();
}

fn durability(g: &mut G, f: &mut FaultCfg) -> Body {
    let c = *g.r.pick(&[250, 400, 1000, 3000, 10_000]);
    let n = g.r.range(1, 4) as usize;
    let series = g.plain_series(n);
    let kv = g.kv();
    if g.r.chance(2, 3) { crash(g, f, &[300, 1_000, 3_000, 10_000], 2); }
    if g.r.chance(1, 4) { config_errors(g, f); }
    let mut rounds = vec![];
    for i in 0..g.r.range(1, 3) {
        let mut phases = vec![];
        for _ in 0..g.r.range(1, 3) { let k = g.r.range(1, 3); let mut cl = g.clients(n, c, k, 14, [6, 1, 2, 2]); if g.r.chance(1, 2) { cl[0].push(Op::Sleep(g.r.below(2200))); } phases.push(fph(cl)); }
        let idle = *g.r.pick(&[0, 300, 900, 1400, 2500, 4000]);
        rounds.push(round(if i == 0 || g.r.chance(2, 3) { Shift::None } else { Shift::By(g.r.range(0, 6 * c) as i64 - 3 * c as i64) }, true, vec![Session { idle_ms: idle, power: g.r.chance(2, 3), ..sess(0, phases) }]));
    }
    Body::Db(DbPlan { dbs: vec![kv], chunk_ms: c, series, rounds, verify: true })
}

fn reopen(g: &mut G, f: &mut FaultCfg) -> Body {
    let c = *g.r.pick(&[100, 250, 400, 1000, 3000]);
    let n = g.r.range(1, 3) as usize;
    let series = g.plain_series(n);
    let kv = g.kv();
    crash(g, f, &[3_000, 10_000, 30_000, 100_000], 5);
    if g.r.chance(1, 4) { config_errors(g, f); }
    let mut rounds = vec![];
    for i in 0..g.r.range(1, 5) {
        let mut cl = g.clients(n, c, 1, 8, [5, 1, 2, 2]);
        if g.r.chance(1, 2) { cl[0].push(Op::Sleep(g.r.below(2 * c))); }
        let s = Session { idle_ms: *g.r.pick(&[0, 0, c, 2 * c, 1500]), power: g.r.chance(1, 2), ..sess(0, vec![fph(cl)]) };
        rounds.push(round(if i == 0 || g.r.chance(1, 2) { Shift::None } else { Shift::By(g.r.range(0, 6 * c) as i64 - 3 * c as i64) }, true, vec![s]));
    }
    Body::Db(DbPlan { dbs: vec![kv], chunk_ms: c, series, rounds, verify: true })
}

/// errors of the file calls made while a window is set up or read back
fn config_errors(g: &mut G, f: &mut FaultCfg) {
    if g.r.chance(1, 2) { let s = *g.r.pick(FS); g.rate(f, &[s], &[10_000, 30_000, 60_000]); } else { g.rate(f, FS, &[3_000, 10_000, 30_000]); }
}

fn restarts(g: &mut G, f: &mut FaultCfg) -> Body {
    let c = *g.r.pick(&[250, 400, 1000, 3000]);
    let n = g.r.range(1, 4) as usize;
    let series = g.plain_series(n);
    let kv = g.kv();
    let mut rounds = vec![];
    // some lives meet disk errors, at the start or at a rotation
    let bad = g.r.chance(1, 4);
    if bad { if g.r.chance(2, 3) { config_errors(g, f); } else { g.rate(f, &["sled.open", "tikv.connect", "tikv.get", "tikv.put"], &[10_000, 40_000, 120_000]); } }
    let lives = if g.r.chance(1, 15) { g.r.range(7, 14) } else { g.r.range(2, 5) };
    for i in 0..lives {
        let mut phases = vec![];
        let k = g.r.range(1, 2);
        let len = g.r.range(2, 12);
        phases.push(ph(g.clients(n, c, k, len, [6, 1, 1, 1])));
        if g.r.chance(1, 2) { let mut cl = g.clients(n, c, 1, 6, [6, 1, 1, 0]); cl[0].insert(0, Op::Sleep(g.r.range(c / 2, c * 3 / 2))); phases.push(ph(cl)); }
        let c2 = c as i64;
        let shift = if i == 0 { Shift::None } else { match g.r.below(8) {
            0 => Shift::None, 1 => Shift::By(g.r.below(10 * c) as i64), 2 => Shift::By(-(g.r.below(10 * c) as i64)),
            3 => Shift::ToOpen(0, 0), 4 => Shift::ToOpen(g.r.below(3) as u32, 0), 5 => Shift::ToOpen(g.r.below(3) as u32, *g.r.pick(&[-2, -1, 1, 2, c2 - 1, c2, c2 + 1])),
            6 => Shift::By(*g.r.pick(&[-c2, c2, -2 * c2, 2 * c2, -20 * c2])), _ => Shift::By(g.r.range(0, 4 * c) as i64 - 2 * c2) } };
        let at_start = bad && g.r.chance(1, 2);
        if bad && g.r.chance(2, 3) { for p in phases.iter_mut() { p.faults = true; } }
        let reopen = if bad { g.r.below(3) as u32 } else { 0 };
        rounds.push(round(shift, at_start, vec![Session { idle_ms: 1300 + g.r.below(500), reopen, ..sess(0, phases) }]));
    }
    Body::Db(DbPlan { dbs: vec![kv], chunk_ms: c, series, rounds, verify: true })
}

fn types(g: &mut G, f: &mut FaultCfg) -> Body {
    let c = *g.r.pick(&[250, 400, 1000, 3000]);
    let n = g.r.range(1, 3) as usize;
    let series = g.plain_series(n);
    let kv = g.kv();
    match g.r.below(3) { 0 => {} 1 => crash(g, f, &[10_000, 50_000, 150_000], 3), _ => { let r = [10_000, 40_000, 90_000]; g.rate(f, FS, &r); } }
    let mut rounds = vec![];
    for i in 0..g.r.range(2, 5) {
        let cl = g.clients(n, c, 1, 6, [6, 1, 2, 1]);
        let mut s = Session { idle_ms: 1300, power: g.r.chance(1, 3), reopen: g.r.below(3) as u32, ..sess(0, vec![fph(cl)]) };
        if g.r.chance(2, 3) { s.types = Some((g.r.chance(1, 2), g.r.chance(1, 2))); }
        let fl = if i == 0 { g.r.chance(2, 3) } else { g.r.chance(1, 2) };
        if !fl { for p in s.phases.iter_mut() { p.faults = false; } }
        rounds.push(round(if g.r.chance(1, 3) { Shift::By(g.r.range(0, 4 * c) as i64 - 2 * c as i64) } else { Shift::None }, fl, vec![s]));
    }
    Body::Db(DbPlan { dbs: vec![kv], chunk_ms: c, series, rounds, verify: true })
}

fn write_faults(g: &mut G, f: &mut FaultCfg) -> Body {
    let c = *g.r.pick(&[250, 1000, 3000, 10_000]);
    let n = g.r.range(1, 4) as usize;
    let series = g.plain_series(n);
    let kv = g.kv();
    g.rate(f, &["sled.set", "sled.get", "sled.flush", "tikv.put", "tikv.get"], &[2_000, 8_000, 25_000, 60_000]);
    if g.r.chance(1, 2) { f.actions = vec![g.r.pick(&["err_before", "err_after", "enospc", "err"]).to_string()]; }
    // the disk fails while windows are rotated, too
    let disk = g.r.chance(1, 4);
    if disk { f.actions.clear(); config_errors(g, f); }
    let mut phases = vec![];
    if g.r.chance(1, 2) { phases.push(ph(g.clients(n, c, 1, 4, [6, 1, 0, 0]))); }
    let k = g.r.range(1, 3);
    let mut cl = g.clients(n, c, k, 12, [6, 2, 2, 1]);
    for ops in cl.iter_mut() { for o in ops.iter_mut() { if let Op::Write { retry, .. } = o { *retry = g.r.below(4) as u32; } } }
    if disk { for ops in cl.iter_mut() { let p = g.r.below(ops.len() as u64) as usize; ops.insert(p, Op::Sleep(g.r.range(c / 2, c * 3 / 2))); } }
    phases.push(fph(cl));
    // the fault is over: retries of the same points, then everything is checked
    let mut retry = vec![];
    for s in 0..n { for _ in 0..2 { retry.push(Op::Write { s, ts: Ts::Near(g.r.below(3) as u32, *g.r.pick(&[0, 0, 1])), perm: g.r.below(100) as u32, retry: 0 }); } }
    phases.push(ph(vec![retry]));
    phases.push(ph(vec![vec![Op::VerifyAll]]));
    let restart = g.r.chance(1, 3) || disk;
    let rounds = vec![round(Shift::None, false, vec![Session { idle_ms: if restart { 1400 } else { 0 }, ..sess(0, phases) }])];
    Body::Db(DbPlan { dbs: vec![kv], chunk_ms: c, series, rounds, verify: restart })
}

fn read_faults(g: &mut G, f: &mut FaultCfg) -> Body {
    let c = *g.r.pick(&[150, 400, 1000, 3000]);
    let n = g.r.range(1, 4) as usize;
    let series = g.plain_series(n);
    let kv = g.kv();
    let r = [2_000, 8_000, 25_000, 60_000];
    if g.r.chance(4, 5) { g.rate(f, STORE_R, &r); for s in STORE_R { f.rates.entry(s.to_string()).or_insert(r[g.r.below(4) as usize]); } } else { g.rate(f, STORE_W, &r); }
    let mut phases = vec![];
    for _ in 0..g.r.range(1, 3) {
        let mut cl = g.clients(n, c, 1, 8, [6, 1, 0, 0]);
        if g.r.chance(1, 2) { cl[0].push(Op::Sleep(c + g.r.below(c / 2))); }
        phases.push(ph(cl));
    }
    let k = g.r.range(1, 3);
    let w = if g.r.chance(1, 2) { [0, 0, 1, 0] } else { [2, 0, 6, 1] };
    phases.push(fph(g.clients(n, c, k, 14, w)));
    phases.push(ph(vec![vec![Op::VerifyAll]]));
    let mut rounds = vec![];
    if g.r.chance(1, 4) { let cl = g.clients(n, c, 1, 8, [6, 1, 0, 0]); rounds.push(round(Shift::None, false, vec![Session { idle_ms: 1400, ..sess(0, vec![ph(cl)]) }])); }
    rounds.push(round(Shift::None, false, vec![sess(0, phases)]));
    Body::Db(DbPlan { dbs: vec![kv], chunk_ms: c, series, rounds, verify: false })
}

fn cluster(g: &mut G, f: &mut FaultCfg) -> Body {
    let c = *g.r.pick(&[250, 600, 1500]);
    let n = g.r.range(1, 3) as usize;
    let series = g.plain_series(n);
    let nd = g.r.range(1, 3) as usize;
    let dbs: Vec<(bool, bool)> = (0..nd).map(|_| *g.r.pick(&[(true, true), (true, true), (true, false), (false, true)])).collect();
    match g.r.below(3) { 0 => {} 1 => g.rate(f, &["tikv.get", "tikv.put", "tikv.connect", "tikv.put"], &[2_000, 10_000, 40_000]), _ => crash(g, f, &[3_000, 10_000, 40_000], 3) }
    let mut rounds = vec![];
    for i in 0..g.r.range(1, 3) {
        let fl = g.r.chance(2, 3);
        let ss = (0..nd).map(|d| {
            let mut phases = vec![];
            for _ in 0..g.r.range(1, 2) { let k = g.r.range(1, 2); let mut cl = g.clients(n, c, k, 10, [6, 1, 3, 1]); if g.r.chance(1, 2) { cl[0].push(Op::Sleep(g.r.below(2 * c))); } phases.push(Phase { faults: fl, calm: false, clients: cl }); }
            Session { idle_ms: 1300 + g.r.below(1000), power: g.r.chance(1, 2), ..sess(d, phases) }
        }).collect();
        rounds.push(round(if i == 0 { Shift::None } else { Shift::By(g.r.range(0, 4 * c) as i64 - 2 * c as i64) }, fl, ss));
    }
    Body::Db(DbPlan { dbs, chunk_ms: c, series, rounds, verify: true })
}

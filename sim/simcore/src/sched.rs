use crate::rng::{mix, Rng};
use crate::site;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::{Arc, Condvar, Mutex, MutexGuard, OnceLock};

pub type TaskId = usize;
pub type ProcId = u32;
pub const HARNESS_PROC: ProcId = 0;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Strategy {
    /// switch with probability p/1000 at every point
    Random { p: u32 },
    /// priorities with `depth` random change points within `horizon` decisions
    Pct { depth: u32, horizon: u64 },
    /// run every task for q points in turn
    RoundRobin { q: u32 },
    /// the default choice (run on; else lowest id) except for the listed deviations
    Explicit,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SchedCfg {
    pub strategy: Strategy,
    pub seed: u64,
    /// simulated time that passes per scheduling point
    pub tick_ns: u64,
    /// probability (per 10000 points) that the clock jumps to the next timer although tasks are ready
    pub p_timer: u32,
    pub max_steps: u64,
    pub rw_writer_pref: bool,
    /// wall clock at simulated time 0, ms since the epoch
    pub epoch_ms: u64,
    /// so many fruitless polls of a run come before any other task can run (one that spins while the others wait for a CPU)
    #[serde(default)]
    pub starve: u64,
    /// (decision, task | jump<<32)
    #[serde(default)]
    pub deviations: Vec<(u64, u64)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Fired { pub site: String, pub nth: u64, pub action: String, pub arg: u64 }

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct FaultCfg {
    pub seed: u64,
    /// site -> probability per 100000 occurrences
    #[serde(default)]
    pub rates: BTreeMap<String, u32>,
    /// enabled actions (e.g. "err_before"); empty: all a site offers
    #[serde(default)]
    pub actions: Vec<String>,
    /// after a fault, how many further occurrences of the same site group fail too (max)
    #[serde(default)]
    pub burst: u32,
    /// probability per 1_000_000 durable operations that the current process crashes there
    #[serde(default)]
    pub crash_rate: u32,
    #[serde(default)]
    pub max_crashes: u32,
    /// "kill", "power" or "" (either)
    #[serde(default)]
    pub crash_kind: String,
    /// replay: exactly these faults (and crashes, site "crash"), nothing drawn
    #[serde(default)]
    pub explicit: Option<Vec<Fired>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Status { Ready, Blocked { key: u64, deadline: Option<u64> }, Done, Dead }

struct Task {
    name: String,
    proc_: ProcId,
    status: Status,
    cv: Arc<Condvar>,
    prio: u64,
    timed_out: bool,
    blocked_on: u16,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum ProcExit { Exited, Crashed(String), Panicked(String), Aborted(String) }

pub struct Proc { pub name: String, pub alive: bool, pub exit: Option<ProcExit>, pub ended_ns: u64, key: u64, pub durable_ops: u64, pub machine: ProcId }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum End { Finished, Deadlock(String), StepCap(String) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PanicRec { pub task: String, pub proc_: ProcId, pub msg: String, pub loc: String, pub stamp: u64 }

pub struct St {
    tasks: Vec<Task>,
    pub procs: Vec<Proc>,
    current: Option<TaskId>,
    pub now: u64,
    /// how much of `now` came from forced timer jumps, during which nobody could run
    pub forced: u64,
    wall_off_ms: i64,
    cfg: SchedCfg,
    devmap: BTreeMap<u64, u64>,
    pub devs: Vec<(u64, u64)>,
    rng: Rng,
    pub decisions: u64,
    pub switches: u64,
    change_points: Vec<u64>,
    low_prio: u64,
    spin: u64,
    hints: u32,
    rr_left: u32,
    next_obj: u64,
    pub hash: u64,
    pub ihash: u64,
    pub end: Option<End>,
    // faults
    pub faults: FaultCfg,
    frng: Rng,
    pub faults_on: bool,
    counters: BTreeMap<u16, u64>,
    burst_left: BTreeMap<&'static str, (u32, &'static str)>,
    pub fired: Vec<Fired>,
    pub fired_counts: BTreeMap<String, u64>,
    crash_count: u64,
    pub panics: Vec<PanicRec>,
    pub stamp: u64,
    /// the decision at which the history last grew
    pub stamped: u64,
    pub log: Option<Vec<String>>,
    pub probes: BTreeMap<String, u64>,
    pub site_counts: Vec<u64>,
}

pub struct Core {
    m: Mutex<St>,
    end_cv: Condvar,
}

static CORE: OnceLock<Core> = OnceLock::new();
thread_local! {
    static CUR: Cell<Option<TaskId>> = const { Cell::new(None) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
    static MACHINE: Cell<ProcId> = const { Cell::new(0) };
    static ENTROPY: RefCell<Option<Rng>> = const { RefCell::new(None) };
}

/// decisions made in this OS process, for a watchdog
pub static PROGRESS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// Is the calling thread a simulated task?
pub fn active() -> bool { CUR.with(|c| c.get()).is_some() }
pub fn cur() -> Option<TaskId> { CUR.with(|c| c.get()) }
fn core() -> &'static Core { CORE.get().expect("simulator not initialised") }
fn lock() -> MutexGuard<'static, St> { core().m.lock().unwrap_or_else(|e| e.into_inner()) }
pub fn with<R>(f: impl FnOnce(&mut St) -> R) -> R { f(&mut lock()) }

pub fn init(cfg: SchedCfg, faults: FaultCfg, log: bool) {
    let mut rng = Rng::new(cfg.seed);
    let mut cps = Vec::new();
    if let Strategy::Pct { depth, horizon } = cfg.strategy {
        for _ in 0..depth { cps.push(rng.below(horizon.max(1))); }
        cps.sort();
    }
    let devmap = cfg.deviations.iter().cloned().collect();
    let st = St {
        tasks: vec![],
        procs: vec![Proc { name: "harness".into(), alive: true, exit: None, ended_ns: 0, key: 1, durable_ops: 0, machine: 0 }],
        current: None, now: 0, forced: 0, wall_off_ms: 0, devmap, devs: vec![], rng, decisions: 0, switches: 0,
        change_points: cps, low_prio: 1 << 20, spin: 0, hints: 0, rr_left: 0, next_obj: 16, hash: 0xcbf29ce484222325, ihash: 0, end: None,
        frng: Rng::new(mix(faults.seed ^ 0xfa17)), faults, faults_on: false, counters: BTreeMap::new(), burst_left: BTreeMap::new(),
        fired: vec![], fired_counts: BTreeMap::new(), crash_count: 0,
        panics: vec![], stamp: 0, stamped: 0, log: if log { Some(vec![]) } else { None }, probes: BTreeMap::new(),
        site_counts: vec![0; site::NAMES.len()],
        cfg,
    };
    if CORE.set(Core { m: Mutex::new(st), end_cv: Condvar::new() }).is_err() { panic!("simulator initialised twice") }
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        match cur() {
            Some(t) => {
                let mut st = lock();
                let (task, proc_) = (st.tasks[t].name.clone(), st.tasks[t].proc_);
                let stamp = st.stamp;
                if let Some(l) = st.log.as_mut() { l.push(format!("PANIC in {}: {} at {}", task, msg, loc)); }
                st.panics.push(PanicRec { task, proc_, msg, loc, stamp });
            }
            None => eprintln!("panic outside the simulation: {} at {}", msg, loc),
        }
    }));
}

/// Runs `f` as task 0 of the harness and returns when the simulation has ended.
pub fn run_root(f: impl FnOnce() + Send + 'static) -> End {
    let id = new_task("root", HARNESS_PROC);
    start_thread(id, move || { f(); with(|st| if st.end.is_none() { st.end = Some(End::Finished) }); });
    let mut st = lock();
    st.current = Some(id);
    st.tasks[id].cv.notify_all();
    while st.end.is_none() { st = core().end_cv.wait(st).unwrap_or_else(|e| e.into_inner()); }
    st.end.clone().unwrap()
}

fn new_task(name: &str, p: ProcId) -> TaskId {
    let mut st = lock();
    let prio = (1 << 21) + st.rng.below(1 << 30);
    st.tasks.push(Task { name: name.to_string(), proc_: p, status: Status::Ready, cv: Arc::new(Condvar::new()), prio, timed_out: false, blocked_on: site::START });
    st.tasks.len() - 1
}

fn start_thread(id: TaskId, f: impl FnOnce() + Send + 'static) {
    let body = move || {
        CUR.with(|c| c.set(Some(id)));
        let es = with(|st| st.cfg.seed);
        ENTROPY.with(|e| *e.borrow_mut() = Some(Rng::new(mix(mix(es ^ 0xe27) ^ id as u64))));
        drop(wait_turn(id, lock()));
        f();
        // task end
        let mut st = lock();
        st.tasks[id].status = Status::Done;
        let k = task_key(id);
        wake_key(&mut st, k);
        drop(reschedule(st, id, site::EXIT, 0));
        CUR.with(|c| c.set(None));
    };
    // the machine may be out of threads for a moment (other checks): not part of the simulation
    let body = std::sync::Arc::new(Mutex::new(Some(body)));
    for n in 0.. {
        let b = body.clone();
        match std::thread::Builder::new().stack_size(2 << 20).spawn(move || { let f = b.lock().unwrap().take(); if let Some(f) = f { f() } }) {
            Ok(_) => return,
            Err(e) if n == 200 => panic!("real thread creation failed: {:?}", e),
            Err(_) => std::thread::sleep(std::time::Duration::from_millis(20)),
        }
    }
}

/// Wait until `id` holds the baton. Never returns for a dead task.
fn wait_turn(id: TaskId, mut st: MutexGuard<'static, St>) -> MutexGuard<'static, St> {
    let cv = st.tasks[id].cv.clone();
    loop {
        if st.current == Some(id) && st.end.is_none() && st.tasks[id].status != Status::Dead { return st; }
        if st.end.is_some() { core().end_cv.notify_all(); }
        st = cv.wait(st).unwrap_or_else(|e| e.into_inner());
    }
}

fn task_key(id: TaskId) -> u64 { (1 << 62) + id as u64 }

fn wake_key(st: &mut St, key: u64) {
    for t in st.tasks.iter_mut() {
        if let Status::Blocked { key: k, .. } = t.status { if k == key { t.status = Status::Ready; t.timed_out = false; } }
    }
}

impl St {
    pub fn ntasks(&self) -> usize { self.tasks.len() }
    fn describe_blocked(&self) -> String {
        let mut v = vec![];
        for t in &self.tasks {
            if let Status::Blocked { deadline, .. } = t.status {
                v.push(format!("{}[p{}]@{}{}", t.name, t.proc_, site::NAMES[t.blocked_on as usize], if deadline.is_some() { "+timer" } else { "" }));
            } else if t.status == Status::Ready { v.push(format!("{}[p{}] ready", t.name, t.proc_)); }
        }
        v.join(", ")
    }
    fn next_deadline(&self) -> Option<u64> {
        self.tasks.iter().filter_map(|t| match t.status { Status::Blocked { deadline: Some(d), .. } => Some(d), _ => None }).min()
    }
    fn fire_timers(&mut self) {
        let now = self.now;
        for t in self.tasks.iter_mut() {
            if let Status::Blocked { deadline: Some(d), .. } = t.status { if d <= now { t.status = Status::Ready; t.timed_out = true; } }
        }
    }
    fn record(&mut self, t: TaskId, s: u16, obj: u64) {
        let mut h = self.hash;
        for v in [t as u64, s as u64, obj] { h = (h ^ v).wrapping_mul(0x100000001b3); h ^= h >> 29; }
        self.hash = h;
        self.site_counts[s as usize] += 1;
        if self.log.is_some() {
            let line = format!("{:>7} {:>12}us {}#{} {} {}", self.decisions, self.now / 1000, self.tasks[t].name, t, site::NAMES[s as usize], obj);
            self.log.as_mut().unwrap().push(line);
        }
    }
    /// choose the next task; None: the run has ended
    fn pick(&mut self, me: TaskId) -> Option<TaskId> {
        loop {
            self.fire_timers();
            let n = self.tasks.len();
            let my_ready = self.tasks[me].status == Status::Ready;
            let mut first: Option<TaskId> = None; let mut cyc: Option<TaskId> = None; let mut nready = 0u64;
            for i in 0..n { if self.tasks[i].status == Status::Ready {
                nready += 1;
                if first.is_none() { first = Some(i); }
                if cyc.is_none() && i > me { cyc = Some(i); }
            } }
            if nready == 0 {
                match self.next_deadline() {
                    Some(d) => { self.now = self.now.max(d); continue; }
                    None => { let d = self.describe_blocked(); self.end = Some(End::Deadlock(d)); return None; }
                }
            }
            self.decisions += 1;
            PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            if self.decisions > self.cfg.max_steps { let d = self.describe_blocked(); self.end = Some(End::StepCap(d)); return None; }
            // a spinning task must let the others and the clock move
            let spinning = my_ready && (self.spin > 3000 || self.hints > 3);
            if spinning && nready == 1 {
                // many steps may also be plain work: then time passes slowly, and does not count as waiting
                if let Some(d) = self.next_deadline() {
                    let to = if self.hints > 3 { d } else { d.min(self.now + 100_000_000) };
                    if to > self.now { if self.hints <= 3 { self.forced += to - self.now; } self.now = to; }
                    self.hints = 0; self.spin = 0; self.fire_timers();
                }
            }
            let other = cyc.or(first.filter(|f| *f != me));
            let default = if my_ready && !(spinning && other.is_some()) { me } else { cyc.or(first).unwrap() };
            if spinning && other.is_some() { self.spin = 0; self.hints = 0; if self.tasks[me].prio > self.low_prio { self.low_prio -= 1; self.tasks[me].prio = self.low_prio; } }
            let (choice, jump) = match self.cfg.strategy {
                Strategy::Explicit => match self.devmap.get(&self.decisions) {
                    Some(v) => {
                        let jump = v >> 32 != 0;
                        let t = (v & 0xffff_ffff) as usize;
                        (if t < n && (self.tasks[t].status == Status::Ready) { t } else { default }, jump)
                    }
                    None => (default, false),
                },
                ref s => {
                    let jump = self.cfg.p_timer > 0 && self.rng.below(10000) < self.cfg.p_timer as u64;
                    let c = match s {
                        Strategy::Random { p } => {
                            let p = *p as u64;
                            if (default == me && my_ready && self.rng.below(1000) >= p) || nready == 1 { default } else {
                                let k = self.rng.below(nready);
                                (0..n).filter(|i| self.tasks[*i].status == Status::Ready).nth(k as usize).unwrap()
                            }
                        }
                        Strategy::Pct { .. } => {
                            while self.change_points.first().map_or(false, |c| *c <= self.decisions) {
                                self.change_points.remove(0);
                                self.low_prio -= 1;
                                let lp = self.low_prio;
                                self.tasks[me].prio = lp;
                            }
                            let mut best = default; let mut bp = 0;
                            for i in 0..n { if self.tasks[i].status == Status::Ready && self.tasks[i].prio > bp { bp = self.tasks[i].prio; best = i; } }
                            best
                        }
                        Strategy::RoundRobin { q } => {
                            if my_ready && self.rr_left > 0 { self.rr_left -= 1; default } else { self.rr_left = *q; other.unwrap_or(default) }
                        }
                        Strategy::Explicit => unreachable!(),
                    };
                    (c, jump)
                }
            };
            if choice != default || jump { let d = self.decisions; self.devs.push((d, choice as u64 | ((jump as u64) << 32))); }
            // tasks that could run are held up until the next timer, but not for unrealistically long
            if jump { if let Some(d) = self.next_deadline() { if d > self.now && d < self.now + 3_000_000_000 { self.forced += d - self.now; self.now = d; } } }
            return Some(choice);
        }
    }
}

/// A scheduling point of task `me`; returns when `me` runs again (immediately for a finished task).
fn reschedule(mut st: MutexGuard<'static, St>, me: TaskId, s: u16, obj: u64) -> MutexGuard<'static, St> {
    if st.end.is_some() { core().end_cv.notify_all(); return wait_turn(me, st); }
    st.record(me, s, obj);
    st.now += st.cfg.tick_ns;
    match st.pick(me) {
        None => { core().end_cv.notify_all(); wait_turn(me, st) }
        Some(next) => {
            if next == me { st.spin += 1; return st; }
            st.spin = 0; st.hints = 0; st.switches += 1;
            let sw = st.ihash ^ ((me as u64) << 40 | (s as u64) << 20 | next as u64);
            st.ihash = mix(sw);
            st.current = Some(next);
            st.tasks[next].cv.notify_all();
            if st.tasks[me].status == Status::Done { return st; }
            wait_turn(me, st)
        }
    }
}

/// Preemption point.
pub fn point(s: u16, obj: u64) {
    if let Some(me) = cur() {
        if QUIET.with(|q| q.get()) > 0 { return; }
        drop(reschedule(lock(), me, s, obj));
    }
}
/// The caller polls: let others (and the clock) move.
/// Is the next fruitless poll one that lets nobody else run?
pub fn starving() -> bool { cur().is_some() && lock().cfg.starve > 0 }
pub fn yield_hint(s: u16, obj: u64) {
    if let Some(me) = cur() {
        let mut st = lock();
        if st.cfg.starve > 0 { st.cfg.starve -= 1; st.now += 100; return; }
        st.hints += 1;
        if st.hints > 3 && matches!(st.cfg.strategy, Strategy::Pct { .. }) { st.low_prio -= 1; let lp = st.low_prio; st.tasks[me].prio = lp; }
        drop(reschedule(st, me, s, obj));
    }
}
/// Preemption point of a non-blocking attempt.
pub fn yield_point(s: u16, obj: u64) { point(s, obj) }
pub fn task_dead(id: usize) -> bool { if CORE.get().is_none() { return false; } with(|st| st.tasks.get(id).map_or(false, |t| t.status == Status::Dead)) }
pub fn proc_alive(p: ProcId) -> bool { if CORE.get().is_none() { return true; } with(|st| st.procs.get(p as usize).map_or(false, |x| x.alive)) }
/// Run `f` without preemption points (blocking still switches).
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct G; impl Drop for G { fn drop(&mut self) { QUIET.with(|q| q.set(q.get() - 1)) } }
    QUIET.with(|q| q.set(q.get() + 1));
    let _g = G;
    f()
}

/// Block on `key` until woken or until `deadline` (simulated ns). True: timed out.
pub fn block(s: u16, key: u64, deadline: Option<u64>) -> bool {
    let me = cur().expect("block outside a simulated task");
    let mut st = lock();
    st.tasks[me].status = Status::Blocked { key, deadline };
    st.tasks[me].timed_out = false;
    st.tasks[me].blocked_on = s;
    let st = reschedule(st, me, s, key);
    st.tasks[me].timed_out
}
pub fn wake(key: u64) { if CORE.get().is_none() { return; } let mut st = lock(); wake_key(&mut st, key); }
pub fn wake_one(key: u64) {
    if CORE.get().is_none() { return; }
    let mut st = lock();
    let c: Vec<usize> = (0..st.tasks.len()).filter(|i| matches!(st.tasks[*i].status, Status::Blocked { key: k, .. } if k == key)).collect();
    if c.is_empty() { return; }
    // which waiter a notification reaches is part of the schedule: pick by a hash of the decision count
    let i = c[(mix(st.decisions ^ st.cfg.seed) % c.len() as u64) as usize];
    st.tasks[i].status = Status::Ready; st.tasks[i].timed_out = false;
}

pub fn new_obj() -> u64 { if CORE.get().is_none() { return 2; } with(|st| { st.next_obj += 1; st.next_obj }) }
pub fn now_ns() -> u64 { if CORE.get().is_none() { return 0; } with(|st| st.now) }
pub fn wall_ms() -> i64 { with(|st| st.cfg.epoch_ms as i64 + st.wall_off_ms + (st.now / 1_000_000) as i64) }
pub fn wall_ns() -> i128 { with(|st| (st.cfg.epoch_ms as i128 + st.wall_off_ms as i128) * 1_000_000 + st.now as i128) }
pub fn shift_wall(ms: i64) {
    // never before the epoch
    let ms = ms.max(1 - wall_ms());
    with(|st| { st.wall_off_ms += ms; *st.fired_counts.entry(if ms >= 0 { "clock.forward".into() } else { "clock.back".into() }).or_insert(0) += 1; });
}
pub fn rw_writer_pref() -> bool { with(|st| st.cfg.rw_writer_pref) }
pub fn sleep_ns(ns: u64) {
    if !active() { return; }
    let d = now_ns().saturating_add(ns);
    block(site::SLEEP, 0, Some(d));
}
pub fn stamp() -> u64 { with(|st| { st.stamp += 1; st.stamped = st.decisions; st.stamp }) }
pub fn probe(name: &str) { if CORE.get().is_none() { return; } with(|st| match st.probes.get_mut(name) { Some(v) => *v += 1, None => { st.probes.insert(name.to_string(), 1); } }); }
pub fn note(msg: impl FnOnce() -> String) {
    if CORE.get().is_none() { return; }
    with(|st| if st.log.is_some() { let m = msg(); let now = st.now; st.log.as_mut().unwrap().push(format!("        {:>12}us -- {}", now / 1000, m)); });
}
/// Randomness for the code under test: one stream per task, a function of the seed.
pub fn entropy(buf: &mut [u8]) {
    ENTROPY.with(|e| match e.borrow_mut().as_mut() {
        Some(r) => for c in buf.chunks_mut(8) { let v = r.next().to_le_bytes(); c.copy_from_slice(&v[..c.len()]); },
        None => for b in buf.iter_mut() { *b = 7; },
    })
}
pub fn rng_u64() -> u64 { with(|st| st.frng.next()) }
pub fn task_name() -> String { match cur() { Some(t) => with(|st| st.tasks[t].name.clone()), None => "main".into() } }
/// The machine (own disk cache, own power supply) the current task runs on: processes of the same name share one.
pub fn cur_machine() -> ProcId { MACHINE.with(|m| m.get()) }
pub fn cur_proc() -> ProcId { match cur() { Some(t) => with(|st| st.tasks[t].proc_), None => 0 } }

// ---------------------------------------------------------------- tasks
pub struct JoinInner<T> { pub id: TaskId, slot: Arc<Mutex<Option<std::thread::Result<T>>>> }

pub fn spawn_task<T: Send + 'static>(name: &str, p: ProcId, f: impl FnOnce() -> T + Send + 'static) -> JoinInner<T> {
    // lifetime-erased version used by scoped threads as well
    unsafe { spawn_task_unchecked(name, p, f) }
}
/// # Safety: the caller guarantees that borrows in `f` outlive the task.
pub unsafe fn spawn_task_unchecked<'a, T: Send + 'a>(name: &str, p: ProcId, f: impl FnOnce() -> T + Send + 'a) -> JoinInner<T> {
    let id = new_task(name, p);
    let machine = with(|st| st.procs[p as usize].machine);
    let slot: Arc<Mutex<Option<std::thread::Result<T>>>> = Arc::new(Mutex::new(None));
    let s2 = slot.clone();
    let body = move || {
        MACHINE.with(|m| m.set(machine));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        *s2.lock().unwrap_or_else(|e| e.into_inner()) = Some(r);
    };
    let body: Box<dyn FnOnce() + Send + 'a> = Box::new(body);
    let body: Box<dyn FnOnce() + Send + 'static> = std::mem::transmute(body);
    start_thread(id, body);
    JoinInner { id, slot }
}
impl<T> JoinInner<T> {
    pub fn is_finished(&self) -> bool { with(|st| matches!(st.tasks[self.id].status, Status::Done | Status::Dead)) }
    /// None: timed out (or the task died with its process)
    pub fn join_deadline(&self, deadline: Option<u64>) -> Option<std::thread::Result<T>> {
        point(site::JOIN, self.id as u64);
        loop {
            if with(|st| st.tasks[self.id].status == Status::Done) {
                return self.slot.lock().unwrap_or_else(|e| e.into_inner()).take();
            }
            if let Some(d) = deadline { if now_ns() >= d { return None; } }
            block(site::JOIN, task_key(self.id), deadline);
        }
    }
}

// ---------------------------------------------------------------- processes
pub fn new_proc(name: &str) -> ProcId {
    with(|st| { st.next_obj += 1; let key = st.next_obj; let machine = st.procs.iter().position(|p| p.name == name).unwrap_or(st.procs.len()) as ProcId; st.procs.push(Proc { name: name.into(), alive: true, exit: None, ended_ns: 0, key, durable_ops: 0, machine }); (st.procs.len() - 1) as ProcId })
}
/// Start a process whose main task runs `f`. When `f` returns the process exits (all its tasks stop).
pub fn spawn_proc(name: &str, f: impl FnOnce() + Send + 'static) -> ProcId {
    let p = new_proc(name);
    let nm = format!("{}.main", name);
    spawn_task(&nm, p, move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let e = match r { Ok(()) => ProcExit::Exited, Err(e) => ProcExit::Panicked(panic_text(&*e)) };
        end_proc(p, e, false);
    });
    p
}
pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "?".into() }
}
pub fn proc_exit(p: ProcId) -> Option<ProcExit> { with(|st| st.procs[p as usize].exit.clone()) }
/// Wait for a process to end.
pub fn wait_proc(p: ProcId, deadline: Option<u64>) -> Option<ProcExit> {
    point(site::JOIN, p as u64);
    loop {
        let (e, key) = with(|st| (st.procs[p as usize].exit.clone(), st.procs[p as usize].key));
        if e.is_some() { return e; }
        if let Some(d) = deadline { if now_ns() >= d { return None; } }
        block(site::JOIN, key, deadline);
    }
}
/// Stop process `p` now: its tasks never run again, its volatile state is lost.
/// If the caller belongs to `p`, this does not return.
pub fn end_proc(p: ProcId, exit: ProcExit, power: bool) {
    let me = cur();
    {
        let mut st = lock();
        if !st.procs[p as usize].alive { if me.map_or(false, |m| st.tasks[m].proc_ == p) { let m = me.unwrap(); st.tasks[m].status = Status::Dead; drop(reschedule_dead(st, m)); } return; }
        st.procs[p as usize].alive = false;
        st.procs[p as usize].exit = Some(exit.clone());
        st.procs[p as usize].ended_ns = st.now;
        let key = st.procs[p as usize].key;
        for t in st.tasks.iter_mut() { if t.proc_ == p && t.status != Status::Done { t.status = Status::Dead; } }
        wake_key(&mut st, key);
        let now = st.now;
        if let Some(l) = st.log.as_mut() { l.push(format!("        {:>12}us == process {} ends: {:?} power={}", now / 1000, p, exit, power)); }
    }
    let machine = with(|st| st.procs[p as usize].machine);
    crate::disk::on_proc_end(p, machine, power);
    crate::net::on_proc_end(p);
    if let Some(m) = me {
        let st = lock();
        if st.tasks[m].proc_ == p { drop(reschedule_dead(st, m)); }
    }
}
fn reschedule_dead(st: MutexGuard<'static, St>, me: TaskId) -> MutexGuard<'static, St> { reschedule(st, me, site::EXIT, 1) }

// ---------------------------------------------------------------- faults
fn group(name: &'static str) -> &'static str { match name.find('.') { Some(i) => &name[..i], None => name } }

pub fn set_faults(on: bool) { with(|st| { st.faults_on = on; if !on { st.burst_left.clear(); } }); note(|| format!("faults {}", if on { "on" } else { "off" })); }

/// From here on no faults and no forced timer jumps (for checking progress once disturbances end).
pub fn calm() { with(|st| { st.cfg.p_timer = 0; st.cfg.tick_ns = st.cfg.tick_ns.min(2_000); }); set_faults(false); }
/// Should a fault happen at this occurrence of site `s`? Only for tasks of simulated processes.
pub fn fault(s: u16, choices: &[&'static str]) -> Option<(&'static str, u64)> {
    let me = cur()?;
    let mut st = lock();
    if st.tasks[me].proc_ == HARNESS_PROC { return None; }
    let name = site::NAMES[s as usize];
    let c = st.counters.entry(s).or_insert(0);
    *c += 1;
    let nth = *c;
    if !st.faults_on { return None; }
    let mut hit: Option<(&'static str, u64)> = None;
    if let Some(ex) = &st.faults.explicit {
        if let Some(f) = ex.iter().find(|f| f.nth == nth && f.site == name) {
            let arg = f.arg;
            if let Some(a) = choices.iter().find(|a| **a == f.action) { hit = Some((*a, arg)); }
        }
    } else {
        let g = group(name);
        let allowed: Vec<&'static str> = choices.iter().cloned().filter(|a| st.faults.actions.is_empty() || st.faults.actions.iter().any(|x| x == a)).collect();
        if !allowed.is_empty() {
            let rate = st.faults.rates.get(name).cloned().unwrap_or(0);
            if rate > 0 {
                if let Some((left, act)) = st.burst_left.get(g).cloned() {
                    if left > 0 {
                        st.burst_left.insert(g, (left - 1, act));
                        let a = if allowed.contains(&act) { act } else { allowed[0] };
                        let arg = st.frng.next() >> 16;
                        hit = Some((a, arg));
                    }
                }
                if hit.is_none() && st.frng.below(100_000) < rate as u64 {
                    let k = st.frng.below(allowed.len() as u64) as usize;
                    let arg = st.frng.next() >> 16;
                    hit = Some((allowed[k], arg));
                    if st.faults.burst > 0 { let b = st.faults.burst as u64; let n = st.frng.below(b + 1) as u32; st.burst_left.insert(g, (n, allowed[k])); }
                }
            }
        }
    }
    if let Some((a, arg)) = hit {
        st.fired.push(Fired { site: name.into(), nth, action: a.into(), arg });
        *st.fired_counts.entry(format!("{}:{}", name, a)).or_insert(0) += 1;
        let now = st.now;
        if let Some(l) = st.log.as_mut() { l.push(format!("        {:>12}us ** fault {} #{} {}", now / 1000, name, nth, a)); }
    }
    hit
}

/// A durable effect is about to happen (or has just happened) in the current process: crash here?
pub fn crash_point(s: u16) {
    let me = match cur() { Some(m) => m, None => return };
    let mut st = lock();
    let p = st.tasks[me].proc_;
    if p == HARNESS_PROC || !st.procs[p as usize].alive { return; }
    st.procs[p as usize].durable_ops += 1;
    let c = st.counters.entry(u16::MAX).or_insert(0);
    *c += 1;
    let nth = *c;
    if !st.faults_on { return; }
    let mut kind: Option<(String, u64)> = None;
    if let Some(ex) = &st.faults.explicit {
        if let Some(f) = ex.iter().find(|f| f.site == "crash" && f.nth == nth) { kind = Some((f.action.clone(), f.arg)); }
    } else if st.faults.crash_rate > 0 && st.crash_count < st.faults.max_crashes as u64 {
        let r = st.faults.crash_rate as u64;
        if st.frng.below(1_000_000) < r {
            let k = match st.faults.crash_kind.as_str() { "kill" => "kill", "power" => "power", _ => if st.frng.chance(1, 2) { "kill" } else { "power" } };
            let arg = st.frng.next() >> 16;
            kind = Some((k.into(), arg));
        }
    }
    if let Some((k, arg)) = kind {
        st.crash_count += 1;
        st.fired.push(Fired { site: "crash".into(), nth, action: k.clone(), arg });
        *st.fired_counts.entry(format!("crash:{}@{}", k, site::NAMES[s as usize])).or_insert(0) += 1;
        let now = st.now;
        if let Some(l) = st.log.as_mut() { l.push(format!("        {:>12}us ** crash {} #{} at {}", now / 1000, k, nth, site::NAMES[s as usize])); }
        drop(st);
        crate::disk::seed_crash(arg);
        end_proc(p, ProcExit::Crashed(k.clone()), k == "power");
        unreachable!("a crashed task ran on");
    }
}
/// Harness-ordered crash of a process.
pub fn crash_proc(p: ProcId, power: bool, arg: u64) {
    with(|st| *st.fired_counts.entry(format!("crash:{}@idle", if power { "power" } else { "kill" })).or_insert(0) += 1);
    crate::disk::seed_crash(arg);
    end_proc(p, ProcExit::Crashed(if power { "power".into() } else { "kill".into() }), power);
}
pub fn site_count(s: u16) -> u64 { with(|st| st.counters.get(&s).cloned().unwrap_or(0)) }
/// Count a fault that is part of the workload itself (e.g. a client that resets its connection).
pub fn count_fault(name: &str) { with(|st| *st.fired_counts.entry(name.to_string()).or_insert(0) += 1); }
pub fn live_tasks(p: ProcId) -> Vec<String> {
    with(|st| st.tasks.iter().filter(|t| t.proc_ == p && !matches!(t.status, Status::Done | Status::Dead)).map(|t| format!("{}@{}", t.name, site::NAMES[t.blocked_on as usize])).collect())
}

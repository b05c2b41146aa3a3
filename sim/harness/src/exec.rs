//! Executes one plan in this process and collects what happened.
use crate::model::{Viol, Wd};
use crate::plan::*;
use serde::{Deserialize, Serialize};
use simcore as sc;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Res {
    pub viols: Vec<Viol>,
    pub harness_err: Option<String>,
    pub hash: u64,
    pub ihash: u64,
    pub decisions: u64,
    pub switches: u64,
    pub now_ns: u64,
    pub tasks: u64,
    pub devs: Vec<(u64, u64)>,
    pub fired: Vec<sc::Fired>,
    pub fired_counts: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub counts: BTreeMap<String, u64>,
    pub sites: BTreeMap<String, u64>,
    pub contained_panics: u64,
    pub log: Vec<String>,
}

/// Formats everything the code under test logs, as a server started with RUST_LOG does, and forgets it.
struct Formatter;
impl log::Log for Formatter {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { std::hint::black_box(format!("{} {}", r.target(), r.args())); }
    fn flush(&self) {}
}

pub fn execute(plan: &Plan, log: bool) -> Res {
    let _ = log::set_logger(&Formatter);
    log::set_max_level(if plan.seed % 3 == 0 { log::LevelFilter::Off } else { log::LevelFilter::Trace });
    sc::init(plan.sched.clone(), plan.faults.clone(), log);
    let wd = Wd::default();
    let (w2, p2) = (wd.clone(), plan.clone());
    let root_panic = std::sync::Arc::new(std::sync::Mutex::new(None));
    let rp = root_panic.clone();
    let end = sc::run_root(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match &p2.body {
            Body::Db(b) => crate::scen_db::run(b, p2.seed, w2),
            Body::Chunk(b) => crate::scen_misc::run_chunk(b, p2.seed, w2),
            Body::Intersect(b) => crate::scen_misc::run_intersect(b, w2),
            Body::Wal(b) => crate::scen_misc::run_wal(b, w2),
            Body::Http(b) => crate::scen_http::run(b, p2.seed, w2),
            Body::Opt(b) => crate::scen_http::run_options(b, p2.seed, w2),
        }));
        if let Err(e) = r { *rp.lock().unwrap() = Some(sc::panic_text(&*e)); }
    });
    let mut res = Res::default();
    let world = wd.g();
    res.viols = world.viols.clone();
    res.counts = world.counts.clone();
    drop(world);
    if let Some(m) = root_panic.lock().unwrap().take() { res.harness_err = Some(format!("root panicked: {}", m)); }
    let contained = matches!(plan.body, Body::Http(_) | Body::Opt(_));
    sc::with(|st| {
        match &end {
            sc::End::Finished => {}
            sc::End::Deadlock(d) => res.viols.push(Viol { kind: "deadlock".into(), msg: format!("nothing can run any more; blocked: {}", d) }),
            // long, but operations went on being finished: no verdict
            sc::End::StepCap(_) if st.decisions - st.stamped < plan.sched.max_steps / 4 => { res.counts.insert("runs given up, too long".into(), 1); }
            sc::End::StepCap(d) => res.viols.push(Viol { kind: "livelock".into(), msg: format!("no end after {} steps; tasks: {}", st.decisions, d) }),
        }
        for p in &st.panics {
            if p.proc_ == 0 || p.loc.contains("harness/src") || p.loc.contains("simcore/src") {
                res.harness_err.get_or_insert(format!("panic in {}: {} at {}", p.task, p.msg, p.loc));
            } else if contained { res.contained_panics += 1; }
            else { res.viols.push(Viol { kind: "panic".into(), msg: format!("{} panicked: {} at {}", p.task, p.msg, p.loc) }); }
        }
        res.hash = st.hash; res.ihash = st.ihash; res.decisions = st.decisions; res.switches = st.switches; res.now_ns = st.now;
        res.fired_counts = st.fired_counts.clone();
        res.probes = st.probes.clone();
        for (i, n) in st.site_counts.iter().enumerate() { if *n > 0 { res.sites.insert(sc::site::NAMES[i].to_string(), *n); } }
        res.tasks = st.ntasks() as u64;
        if !res.viols.is_empty() || log { res.devs = st.devs.clone(); res.fired = st.fired.clone(); }
        if let Some(l) = st.log.take() { res.log = l; }
    });
    sc::disk::with_disk(|d| for (k, v) in &d.lost { *res.fired_counts.entry(format!("lost:{}", k)).or_insert(0) += v; });
    res
}

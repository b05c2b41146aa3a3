//! Seeded search: hands seeds to worker processes, judges results, minimises and reports.
use crate::exec::Res;
use crate::model::Viol;
use crate::plan::Plan;
use crate::worker::Cmd;
use serde_json::json;
use simcore::rng::mix;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

struct Worker { c: Child, i: ChildStdin, o: BufReader<ChildStdout> }
impl Worker {
    fn new() -> Worker {
        let mut c = Command::new(std::env::current_exe().unwrap()).arg("worker").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("worker");
        let i = c.stdin.take().unwrap();
        let o = BufReader::new(c.stdout.take().unwrap());
        Worker { c, i, o }
    }
    fn run(&mut self, cmd: &Cmd) -> Res {
        let mut s = serde_json::to_string(cmd).unwrap();
        s.push('\n');
        let bad = |m: &str| Res { harness_err: Some(m.to_string()), ..Default::default() };
        if self.i.write_all(s.as_bytes()).and_then(|_| self.i.flush()).is_err() { *self = Worker::new(); return bad("a worker died"); }
        let mut l = String::new();
        match self.o.read_line(&mut l) { Ok(n) if n > 0 => serde_json::from_str(&l).unwrap_or_else(|e| bad(&e.to_string())), _ => { *self = Worker::new(); bad("a worker died") } }
    }
}
impl Drop for Worker { fn drop(&mut self) { let _ = self.c.kill(); let _ = self.c.wait(); } }

pub struct Pool { ws: Vec<Mutex<Worker>> }
impl Pool {
    pub fn new(n: usize) -> Pool { Pool { ws: (0..n).map(|_| Mutex::new(Worker::new())).collect() } }
    pub fn size(&self) -> usize { self.ws.len() }
    pub fn run_all(&self, ps: &[Plan]) -> Vec<Res> {
        let next = AtomicU64::new(0);
        let out: Vec<Mutex<Option<Res>>> = ps.iter().map(|_| Mutex::new(None)).collect();
        std::thread::scope(|s| for w in &self.ws {
            let (next, out) = (&next, &out);
            s.spawn(move || loop {
                let k = next.fetch_add(1, Ordering::SeqCst) as usize;
                if k >= ps.len() { return; }
                let r = w.lock().unwrap().run(&Cmd::Plan { plan: ps[k].clone(), log: false });
                *out[k].lock().unwrap() = Some(r);
            });
        });
        out.into_iter().map(|m| m.into_inner().unwrap().unwrap()).collect()
    }
}

const BASE: &[&str] = &["panic", "abort", "deadlock", "livelock", "hang", "stuck"];
/// which observations contradict which property
fn kinds(prop: &str) -> &'static [&'static str] {
    match prop {
        "C01" => &["missing-live", "vanished", "query-error"],
        "C02" => &["phantom", "mixed", "cross-db", "dup-point", "dup-series", "bad-labels", "alien-series", "out-of-range"],
        "C03" => &["mixed", "dup-series", "bad-labels", "alien-series", "phantom", "missing-live", "vanished", "missing-durable", "dup-point", "query-error", "write-refused"],
        "C04" => &["unsorted", "query-error"],
        "C05" => &["gap", "stale-accepted", "not-accepting", "bad-refusal", "write-refused", "missing-live", "vanished", "query-error"],
        "C06" => &["missing-durable", "vanished", "phantom", "mixed", "bad-labels", "alien-series", "dup-series", "dup-point", "reopen-failed", "query-error"],
        "C07" => &["reopen-failed", "not-accepting", "query-error", "write-refused", "missing-durable"],
        "C08" => &["missing-durable", "missing-live", "vanished", "dup-point", "dup-series", "mixed", "phantom", "bad-labels", "alien-series", "reopen-failed", "query-error"],
        "C09" => &["mismatch-accepted", "reopen-failed", "missing-durable", "phantom", "mixed", "bad-labels", "alien-series", "query-error"],
        "C10" => &["missing-live", "vanished", "missing-durable", "phantom", "mixed", "bad-labels", "alien-series", "dup-series", "dup-point", "write-refused", "query-error", "reopen-failed", "ack-lost", "acked-bad-body"],
        "C11" => &["missing-live", "vanished", "missing-durable", "bad-labels", "alien-series", "phantom", "mixed", "dup-series", "dup-point", "query-error", "result-count", "bad-response"],
        "C12" => &["server-died", "no-response", "extra-response", "bad-status", "bad-response", "missing-live", "vanished", "not-serving"],
        "C13" => &["ack-lost", "missing-live", "vanished", "missing-durable", "phantom", "mixed", "bad-labels", "alien-series", "acked-bad-body", "server-died", "no-response", "bad-status"],
        "C14" => &["result-count", "matcher-misread", "bad-response", "missing-live", "vanished", "missing-durable", "phantom", "mixed", "bad-labels", "alien-series", "dup-point", "dup-series", "out-of-range", "unsorted", "query-error", "server-died", "no-response"],
        "C15" => &["cross-db", "mixed", "missing-durable", "missing-live", "vanished", "phantom", "alien-series", "bad-labels", "dup-point", "dup-series", "reopen-failed", "query-error", "write-refused"],
        "C16" => &["wal-content", "wal-ack", "wal-torn", "wal-refused"],
        "C17" => &["wrong-intersection", "query-error", "missing-live", "vanished", "bad-labels", "alien-series", "mixed"],
        "C18" => &["missing-live", "vanished", "not-linearizable", "phantom", "mixed", "dup-point", "dup-series", "bad-labels", "alien-series", "out-of-range", "query-error", "write-refused"],
        "C21" => &["bad-option-accepted", "option-ignored", "server-died", "missing-live", "vanished", "missing-durable", "phantom", "mixed", "no-response", "bad-status", "query-error"],
        "C19" => &["blocked", "not-serving", "no-response", "server-died"],
        _ => &[],
    }
}
fn accepts(prop: &str, kind: &str) -> bool { BASE.contains(&kind) || kinds(prop).contains(&kind) }

#[derive(serde::Deserialize)]
struct Known { property: String, kind: String, contains: String, what: String }
fn root() -> std::path::PathBuf { std::env::var("VERIF_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into()) }
fn known(prop: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(root().join("known-findings.txt")) {
        for l in s.lines() { if let Ok(k) = serde_json::from_str::<Known>(l) { if k.property == prop { v.push(k); } } }
    }
    v
}

#[derive(Default)]
struct Agg {
    runs: u64, nontrivial: u64, ihashes: BTreeSet<u64>, decisions: u64, switches: u64, now_ns: u128, tasks: u64, contained: u64,
    fired: BTreeMap<String, u64>, probes: BTreeMap<String, u64>, counts: BTreeMap<String, u64>, sites: BTreeMap<String, u64>, runs_with_faults: u64,
    others: BTreeMap<String, (u64, String)>, samples: Vec<serde_json::Value>, known_hits: BTreeMap<String, u64>,
}
fn add(a: &mut BTreeMap<String, u64>, b: &BTreeMap<String, u64>) { for (k, v) in b { let e = a.entry(k.clone()).or_insert(0); if k.starts_with("longest") { *e = (*e).max(*v) } else { *e += v } } }

/// did the run exercise what its property is about?
fn nontrivial(prop: &str, r: &Res) -> bool {
    let c = |k: &str| r.counts.get(k).cloned().unwrap_or(0);
    let ops = match prop { "C16" => c("wal files compared"), "C17" => c("intersections compared") + c("queries checked"), "C12" | "C13" | "C14" | "C19" => c("responses judged"), "C21" => c("responses judged") + c("command lines that must be refused"), _ => c("queries checked") };
    let faulty = match prop {
        "C06" | "C07" => r.fired_counts.keys().any(|k| k.starts_with("crash:")),
        "C10" | "C11" => r.fired_counts.keys().any(|k| !k.starts_with("crash:")),
        _ => true,
    };
    ops > 0 && (single(prop) || r.switches > 0) && faulty
}
/// properties of a component that runs on one thread: what differs between runs is the history, not the interleaving
fn single(prop: &str) -> bool { prop == "C16" }

pub fn check(prop: &str) -> i32 {
    if prop == "C21" && !cfg!(feature = "bin") { eprintln!("C21 could not run: the server binary does not build in the simulator"); return 2; }
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let budget: f64 = std::env::var("VERIF_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600.0 } else { 50.0 });
    let n = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
    let pool = Pool::new(n);
    let kn = known(prop);
    let agg = Mutex::new(Agg::default());
    let stop = AtomicBool::new(false);
    let next = AtomicU64::new(0);
    let herr: Mutex<Option<(u64, String)>> = Mutex::new(None);
    let found: Mutex<Option<(u64, Plan, Res, Viol)>> = Mutex::new(None);
    let base = mix(seed ^ 0x5eed);
    // the first few seeds are run twice: equal seeds must give equal executions
    let mut recheck: Vec<(u64, u64)> = vec![];
    std::thread::scope(|s| {
        for w in &pool.ws {
            let (agg, stop, next, herr, found, kn) = (&agg, &stop, &next, &herr, &found, &kn);
            s.spawn(move || {
                let mut w = w.lock().unwrap();
                while !stop.load(Ordering::SeqCst) && t0.elapsed().as_secs_f64() < budget {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    let sd = mix(base.wrapping_add(i)) >> 12;
                    let r = w.run(&Cmd::Gen { prop: prop.into(), seed: sd });
                    if let Some(e) = &r.harness_err {
                        let mut h = herr.lock().unwrap();
                        if h.is_none() { *h = Some((sd, e.clone())); }
                        stop.store(true, Ordering::SeqCst);
                        return;
                    }
                    let mut a = agg.lock().unwrap();
                    a.runs += 1;
                    if nontrivial(prop, &r) { a.nontrivial += 1; a.ihashes.insert(if single(prop) { r.hash } else { r.ihash }); }
                    a.decisions += r.decisions; a.switches += r.switches; a.now_ns += r.now_ns as u128; a.tasks += r.tasks; a.contained += r.contained_panics;
                    add(&mut a.fired, &r.fired_counts); add(&mut a.probes, &r.probes); add(&mut a.counts, &r.counts); add(&mut a.sites, &r.sites);
                    if !r.fired_counts.is_empty() { a.runs_with_faults += 1; }
                    if i < 3 { let p = crate::gen::plan(prop, sd); let mut v = serde_json::to_value(&p).unwrap(); v["result"] = json!({"decisions": r.decisions, "switches": r.switches, "simulated_ms": r.now_ns / 1_000_000, "faults": r.fired_counts, "counts": r.counts, "hash": format!("{:016x}", r.hash)}); a.samples.push(v); }
                    let mut hit = None;
                    for v in &r.viols {
                        if !accepts(prop, &v.kind) { let e = a.others.entry(v.kind.clone()).or_insert((0, format!("seed {}: {}", sd, v.msg))); e.0 += 1; continue; }
                        if let Some(k) = kn.iter().find(|k| k.kind == v.kind && v.msg.contains(&k.contains)) { *a.known_hits.entry(k.what.clone()).or_insert(0) += 1; continue; }
                        if hit.is_none() { hit = Some(v.clone()); }
                    }
                    drop(a);
                    if let Some(v) = hit {
                        let mut f = found.lock().unwrap();
                        if f.is_none() { *f = Some((sd, crate::gen::plan(prop, sd), r, v)); }
                        stop.store(true, Ordering::SeqCst);
                    }
                }
            });
        }
    });
    let explore_s = t0.elapsed().as_secs_f64();
    if let Some((sd, e)) = herr.into_inner().unwrap() { eprintln!("harness error in {} seed {}: {}", prop, sd, e); return 2; }
    let found = found.into_inner().unwrap();
    if found.is_none() {
        for i in 0..3u64 { let sd = mix(base.wrapping_add(i)) >> 12; let p = crate::gen::plan(prop, sd); let r = pool.run_all(&[p.clone(), p]); recheck.push((r[0].hash, r[1].hash)); }
        if recheck.iter().any(|(a, b)| a != b) { eprintln!("harness error: equal seeds gave different executions {:?}", recheck); return 2; }
    }
    let mut code = 0;
    for k in &kn { println!("KNOWN-FINDING: property={} {}", prop, k.what); }
    let mut violation = None;
    if let Some((sd, plan, res, v)) = found {
        code = 1;
        let (p, r) = if v.kind == "hang" || v.kind == "abort" { (plan, res) } else { crate::minimise::minimise(&pool, plan, res, &v.kind, if thorough { 90.0 } else { 25.0 }) };
        let fv = r.viols.iter().find(|x| x.kind == v.kind).cloned().unwrap_or(v.clone());
        let traced = { let mut w = pool.ws[0].lock().unwrap(); if v.kind == "hang" || v.kind == "abort" { Res::default() } else { w.run(&Cmd::Plan { plan: p.clone(), log: true }) } };
        let dir = root().join("work");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.replay.json", prop, sd));
        let j = json!({"property": prop, "seed": sd, "violation": fv, "hash": format!("{:016x}", r.hash), "schedule_deviations": p.sched.deviations.len(), "faults": r.fired, "plan": p, "trace": tail(&traced.log)});
        std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).expect("replay file");
        println!("violation of {} [{}] with seed {}: {}", prop, fv.kind, sd, fv.msg);
        println!("minimised to {} schedule deviations and {} faults, {} decisions, {} ms of simulated time", p.sched.deviations.len(), r.fired.len(), r.decisions, r.now_ns / 1_000_000);
        println!("VIOLATION property={} replay={}", prop, path.display());
        violation = Some(json!({"kind": fv.kind, "message": fv.msg, "seed": sd, "replay": path}));
    }
    let a = agg.into_inner().unwrap();
    let hours = explore_s / 3600.0;
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": t0.elapsed().as_secs_f64(), "violations": if code == 1 { 1 } else { 0 },
        "coverage": {
            "evaluations": a.runs, "distinct_nontrivial": a.ihashes.len(),
            "rule": "one evaluation = one simulated run of a plan generated from its own seed (workload, configuration, schedule strategy and fault rates); non-trivial = at least one result was compared with the reference model, at least one context switch happened and, for crash and error properties, at least one crash or error was injected; distinct = different sequence of (task switched from, scheduling point, task switched to); for C16, which runs on one thread, distinct = different sequence of all scheduling points, faults and outcomes",
            "samples": a.samples,
            "nontrivial_runs": a.nontrivial, "exploration_s": explore_s, "runs_per_hour": (a.runs as f64 / hours) as u64, "seeds_per_hour": (a.runs as f64 / hours) as u64,
            "simulated_time_s": (a.now_ns / 1_000_000) as f64 / 1000.0, "scheduling_decisions": a.decisions, "context_switches": a.switches, "tasks": a.tasks,
            "runs_with_faults": a.runs_with_faults, "faults_injected": a.fired, "checked": a.counts, "reach_probes": a.probes, "scheduling_points_by_kind": a.sites,
            "panics_contained_by_the_server": a.contained, "same_seed_twice_same_hash": recheck.iter().map(|(x, y)| format!("{:016x}={:016x}", x, y)).collect::<Vec<_>>(),
            "observations_belonging_to_other_properties": a.others, "known_findings_hit": a.known_hits, "violation": violation,
            "real_code": ["/repo/src: db, chunk, indexer, storage, backend, server, wal, common, proto, bin/monolith-server", "clap, serde_yaml (command line and configuration file)", "tiny_http 0.6.2 (HTTP parsing, connection handling)", "rust-protobuf, snap, serde_json, crc, rand, uuid"],
            "simulated": ["std threads, locks, channels, atomics, clocks, sleep", "file system (crash-consistent in-memory model)", "sled (model of the engine's API with its flush interval)", "TiKV client and cluster (model)", "TCP", "rayon pool (model)", "OS randomness"],
        },
        "assumptions": ["sled and TiKV behave as modelled in /verif/sim/sled and /verif/sim/tikv-client", "scheduling points are synchronisation, I/O, clock and atomic operations; memory is sequentially consistent between them", "exploration: only the runs counted above were executed"],
    });
    let _ = std::fs::create_dir_all(root().join("evidence"));
    std::fs::write(root().join("evidence").join(format!("{}.json", prop)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!("{}: {} runs ({} distinct non-trivial), {} decisions, {:.0} s simulated in {:.1} s, {} faults injected: {}", prop, a.runs, a.ihashes.len(), a.decisions, a.now_ns as f64 / 1e9, explore_s, a.fired.values().sum::<u64>(), if code == 0 { "held" } else { "VIOLATED" });
    for (k, (n, m)) in &a.others { eprintln!("  (not judged here: {} x {}, e.g. {})", n, k, m); }
    code
}
fn tail(l: &[String]) -> Vec<String> { let n = l.len(); if n <= 4000 { l.to_vec() } else { let mut v = l[..500].to_vec(); v.push(format!("... {} lines ...", n - 4000)); v.extend_from_slice(&l[n - 3500..]); v } }

pub fn replay(path: &str, log: bool) -> i32 {
    let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let prop = j["property"].as_str().unwrap().to_string();
    let plan: Plan = serde_json::from_value(j["plan"].clone()).expect("plan");
    let want: Viol = serde_json::from_value(j["violation"].clone()).expect("violation");
    let r = crate::worker::fork_run(&plan, log);
    for l in &r.log { println!("{}", l); }
    if let Some(e) = &r.harness_err { eprintln!("harness error: {}", e); return 2; }
    for v in &r.viols { println!("{}: {}", v.kind, v.msg); }
    println!("hash {:016x}, recorded {}", r.hash, j["hash"].as_str().unwrap_or("?"));
    if r.viols.iter().any(|v| v.kind == want.kind) { println!("VIOLATION property={} replay={}", prop, path); 1 } else { println!("not reproduced"); 0 }
}
pub fn one(prop: &str, seed: u64, log: bool) -> i32 {
    let plan = crate::gen::plan(prop, seed);
    println!("{}", serde_json::to_string(&plan).unwrap());
    let r = crate::worker::fork_run(&plan, log);
    for l in &r.log { println!("{}", l); }
    println!("harness_err {:?}\nviols {:#?}\ncounts {:?}\nfired {:?}\nprobes {:?}\ndecisions {} switches {} simulated {} ms, tasks {}, hash {:016x}", r.harness_err, r.viols, r.counts, r.fired_counts, r.probes, r.decisions, r.switches, r.now_ns / 1_000_000, r.tasks, r.hash);
    0
}
/// Equal seeds must give equal executions, in different processes.
pub fn selftest(prop: &str, n: u64) -> i32 {
    let pool = Pool::new(8);
    let ps: Vec<Plan> = (0..n).map(|i| crate::gen::plan(prop, mix(i) >> 12)).collect();
    let a = pool.run_all(&ps);
    let b = pool.run_all(&ps);
    let mut bad = 0;
    for ((p, x), y) in ps.iter().zip(&a).zip(&b) { if x.hash != y.hash || x.now_ns != y.now_ns || x.viols != y.viols { bad += 1; println!("seed {} differs: {:016x} {:016x}", p.seed, x.hash, y.hash); } }
    println!("{}: {} of {} seeds repeat exactly", prop, n - bad, n);
    if bad > 0 { 2 } else { 0 }
}

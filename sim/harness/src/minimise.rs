//! Shrinks a failing plan: structure first, then the exact schedule and fault trace.
use crate::driver::Pool;
use crate::exec::Res;
use crate::plan::*;
use serde_json::Value;
use simcore::Strategy;
use std::time::Instant;

fn hit(r: &Res, kind: &str) -> bool { r.harness_err.is_none() && r.viols.iter().any(|v| v.kind == kind) }

/// paths of all non-empty arrays below `v`
fn arrays(v: &Value, path: &mut Vec<String>, out: &mut Vec<(Vec<String>, usize)>) {
    match v {
        Value::Array(a) => {
            if !a.is_empty() { out.push((path.clone(), a.len())); }
            for (i, x) in a.iter().enumerate() { path.push(i.to_string()); arrays(x, path, out); path.pop(); }
        }
        Value::Object(m) => for (k, x) in m { path.push(k.clone()); arrays(x, path, out); path.pop(); },
        _ => {}
    }
}
fn at<'a>(v: &'a mut Value, path: &[String]) -> Option<&'a mut Value> {
    let mut v = v;
    for p in path { v = match v { Value::Array(a) => a.get_mut(p.parse::<usize>().ok()?)?, Value::Object(m) => m.get_mut(p)?, _ => return None }; }
    Some(v)
}

/// The first candidate (in order) that still fails, tried in parallel.
fn first_hit(pool: &Pool, cands: Vec<Plan>, kind: &str) -> Option<(Plan, Res)> {
    for c in cands.chunks(pool.size()) {
        let rs = pool.run_all(c);
        for (p, r) in c.iter().zip(rs) { if hit(&r, kind) { return Some((p.clone(), r)); } }
    }
    None
}

pub fn minimise(pool: &Pool, plan: Plan, res: Res, kind: &str, budget_s: f64) -> (Plan, Res) {
    let t0 = Instant::now();
    let left = |share: f64| t0.elapsed().as_secs_f64() < budget_s * share;
    let (mut best, mut bres) = (plan, res);
    // structure
    let mut progress = true;
    while progress && left(0.6) {
        progress = false;
        let body = serde_json::to_value(&best.body).unwrap();
        let mut arrs = vec![];
        arrays(&body, &mut vec![], &mut arrs);
        'arr: for (path, len) in arrs {
            let mut size = len;
            while size >= 1 && left(0.6) {
                let mut cands = vec![];
                for start in (0..len).step_by(size) {
                    let mut b = body.clone();
                    if let Some(Value::Array(a)) = at(&mut b, &path) { let end = (start + size).min(a.len()); if start < end { a.drain(start..end); } }
                    if let Ok(nb) = serde_json::from_value::<Body>(b) {
                        for k in 0..3u64 { let mut p = best.clone(); p.body = nb.clone(); if k > 0 { p.sched.seed = best.sched.seed.wrapping_add(k * 7919); } cands.push(p); }
                    }
                }
                if let Some((p, r)) = first_hit(pool, cands, kind) { best = p; bres = r; progress = true; break 'arr; }
                size /= 2;
            }
            if !left(0.6) { break; }
        }
        if !progress {
            // fewer kinds of faults
            let mut cands = vec![];
            for k in best.faults.rates.keys() { let mut p = best.clone(); p.faults.rates.remove(k); cands.push(p); }
            if best.faults.crash_rate > 0 { let mut p = best.clone(); p.faults.crash_rate = 0; cands.push(p); }
            if best.faults.burst > 0 { let mut p = best.clone(); p.faults.burst = 0; cands.push(p); }
            if best.sched.starve > 0 { let mut p = best.clone(); p.sched.starve = 0; cands.push(p); }
            if best.sched.p_timer > 0 { let mut p = best.clone(); p.sched.p_timer = 0; cands.push(p); }
            if let Some((p, r)) = first_hit(pool, cands, kind) { best = p; bres = r; progress = true; }
        }
    }
    // the exact trace
    let mut ex = best.clone();
    ex.sched.strategy = Strategy::Explicit;
    ex.sched.deviations = bres.devs.clone();
    ex.faults.explicit = Some(bres.fired.clone());
    let r = pool.run_all(&[ex.clone()]).remove(0);
    if !hit(&r, kind) { return (best, bres); }
    best = ex; bres = r;
    // faults, then deviations
    let mut changed = true;
    while changed && left(1.0) {
        changed = false;
        let n = best.faults.explicit.as_ref().unwrap().len();
        let mut size = n;
        while size >= 1 && left(1.0) {
            let cur = best.faults.explicit.clone().unwrap();
            let mut cands = vec![];
            for s in (0..cur.len()).step_by(size) { let mut p = best.clone(); let mut v = cur.clone(); let e = (s + size).min(v.len()); v.drain(s..e); p.faults.explicit = Some(v); cands.push(p); }
            match first_hit(pool, cands, kind) { Some((p, r)) => { best = p; bres = r; changed = true; size = size.min(best.faults.explicit.as_ref().unwrap().len()); } None => size /= 2 }
        }
        let n = best.sched.deviations.len();
        let mut size = n;
        while size >= 1 && left(1.0) {
            let cur = best.sched.deviations.clone();
            let mut cands = vec![];
            for s in (0..cur.len()).step_by(size) { let mut p = best.clone(); let mut v = cur.clone(); let e = (s + size).min(v.len()); v.drain(s..e); p.sched.deviations = v; cands.push(p); }
            match first_hit(pool, cands, kind) { Some((p, r)) => { best = p; bres = r; changed = true; size = size.min(best.sched.deviations.len()); } None => size /= 2 }
        }
    }
    (best, bres)
}

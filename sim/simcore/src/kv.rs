//! The shared key-value cluster behind the simulated TiKV client: durable on acknowledgement.
use crate::sched::*;
use crate::site;
use std::collections::BTreeMap;
use std::sync::Mutex;

static KV: Mutex<BTreeMap<Vec<u8>, Vec<u8>>> = Mutex::new(BTreeMap::new());
static WRITES: Mutex<Vec<(ProcId, Vec<u8>)>> = Mutex::new(Vec::new());

fn kv() -> std::sync::MutexGuard<'static, BTreeMap<Vec<u8>, Vec<u8>>> { KV.lock().unwrap_or_else(|e| e.into_inner()) }

fn latency(arg: u64) { sleep_ns(1_000 * (1 + arg % 5_000)); }

static ENDPOINTS: Mutex<Vec<Vec<String>>> = Mutex::new(Vec::new());
/// the endpoints every client so far was made with
pub fn endpoints() -> Vec<Vec<String>> { ENDPOINTS.lock().unwrap_or_else(|e| e.into_inner()).clone() }
pub fn connect_to(e: &[String]) -> Result<(), String> {
    { let mut v = ENDPOINTS.lock().unwrap_or_else(|e| e.into_inner()); if !v.iter().any(|x| x == e) { v.push(e.to_vec()); } }
    connect()
}
pub fn connect() -> Result<(), String> {
    point(site::KV_CONNECT, 0);
    match fault(site::KV_CONNECT, &["err"]) { Some(_) => Err("no PD endpoint reachable".into()), None => Ok(()) }
}
pub fn get(key: &[u8]) -> Result<Option<Vec<u8>>, String> {
    point(site::KV_GET, 0);
    match fault(site::KV_GET, &["err", "delay"]) { Some(("err", _)) => return Err("region unavailable".into()), Some((_, a)) => latency(a), None => {} }
    Ok(kv().get(key).cloned())
}
pub fn put(key: Vec<u8>, value: Vec<u8>) -> Result<(), String> {
    point(site::KV_PUT, 0);
    let f = fault(site::KV_PUT, &["err_before", "err_after", "delay"]);
    match f { Some(("err_before", _)) => return Err("region unavailable".into()), Some(("delay", a)) => latency(a), _ => {} }
    crash_point(site::KV_PUT);
    WRITES.lock().unwrap().push((cur_proc(), key.clone()));
    kv().insert(key, value);
    crash_point(site::KV_PUT);
    match f { Some(("err_after", _)) => Err("deadline exceeded".into()), _ => Ok(()) }
}
pub fn del(key: &[u8]) -> Result<(), String> {
    point(site::KV_PUT, 0);
    match fault(site::KV_PUT, &["err_before"]) { Some(_) => return Err("region unavailable".into()), _ => {} }
    kv().remove(key);
    Ok(())
}
pub fn scan(lo: &[u8], limit: usize) -> Vec<(Vec<u8>, Vec<u8>)> { point(site::KV_GET, 1); kv().range(lo.to_vec()..).take(limit).map(|(k, v)| (k.clone(), v.clone())).collect() }
pub fn len() -> usize { kv().len() }
pub fn dump() -> Vec<(Vec<u8>, Vec<u8>)> { kv().iter().map(|(k, v)| (k.clone(), v.clone())).collect() }
pub fn writes() -> Vec<(ProcId, Vec<u8>)> { WRITES.lock().unwrap().clone() }

//! The database under test behind one object-safe face, whatever its engines are.
use crate::model::Rows;
use crate::plan::LSet;
use monolith::indexer::*;
use monolith::label::{Label, Labels};
use monolith::option::{DbOpts, ServerOpts};
use monolith::server::MonolithServer;
use monolith::storage::*;
use monolith::time_point::TimePoint;
use monolith::{MonolithDb, MonolithErr, TiKvRawBackendSingleton};
use std::path::PathBuf;
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub enum WErr { Range(u64, u64), Other(String) }

pub trait Db: Send + Sync {
    fn write(&self, l: &LSet, ts: u64, bits: u64) -> Result<(), WErr>;
    fn write_batch(&self, l: &LSet, pts: &[(u64, u64)]) -> Result<(), WErr>;
    fn query(&self, l: &LSet, lo: u64, hi: u64) -> Result<Rows, String>;
    fn serve(&self, port: i32, workers: usize, paths: &(String, String)) -> Result<(), String>;
    /// bounds of the accepting window, learned from a refused write
    fn window(&self) -> Option<(u64, u64)> {
        match self.write(&vec![("probe".into(), "p".into())], 0, 0) { Err(WErr::Range(a, b)) => Some((a, b)), _ => None }
    }
}

pub fn labels(l: &LSet) -> Labels { Labels::from_vec(l.iter().map(|(k, v)| Label::from_key_value(k, v)).collect()) }
pub fn unlabels(l: &Labels) -> LSet { l.vec().iter().map(|x| (x.key().clone(), x.value().clone())).collect() }
fn werr(e: MonolithErr) -> WErr { match e { MonolithErr::OutOfRangeErr(a, b) => WErr::Range(a, b), e => WErr::Other(e.to_string()) } }

struct Face<S: Storage + Send + Sync + 'static, I: Indexer + Send + Sync + 'static>(Arc<MonolithDb<S, I>>);
impl<S: Storage + Send + Sync + 'static, I: Indexer + Send + Sync + 'static> Db for Face<S, I> {
    fn write(&self, l: &LSet, ts: u64, bits: u64) -> Result<(), WErr> { self.0.write_time_point(labels(l), TimePoint::new(ts, f64::from_bits(bits))).map_err(werr) }
    fn write_batch(&self, l: &LSet, pts: &[(u64, u64)]) -> Result<(), WErr> {
        self.0.write_time_points(labels(l), pts.iter().map(|(t, b)| TimePoint::new(*t, f64::from_bits(*b))).collect()).map_err(werr)
    }
    fn query(&self, l: &LSet, lo: u64, hi: u64) -> Result<Rows, String> {
        match self.0.query(labels(l), lo, hi) {
            Ok(v) => Ok(v.iter().map(|(l, p)| (unlabels(l), p.iter().map(|t| (t.timestamp, t.value.to_bits())).collect())).collect()),
            Err(e) => Err(e.to_string()),
        }
    }
    fn serve(&self, port: i32, workers: usize, paths: &(String, String)) -> Result<(), String> {
        let leak = |s: &String| -> &'static str { Box::leak(s.clone().into_boxed_str()) };
        MonolithServer::new(ServerOpts { port, write_path: leak(&paths.0), read_path: leak(&paths.1), worker_num: workers }, self.0.clone()).serve().map_err(|e| e.to_string())
    }
}

pub const TIKV_YAML: &str = "/sim/tikv.yaml";
/// what a user may call a data directory
pub const DIRS: &[&str] = &["/sim/db", "/sim/db", "/sim/db", "/sim/db", "/sim/my data ", "/sim/\u{434}\u{430}\u{43d}\u{43d}\u{44b}\u{435}/\u{43c}\u{435}\u{442}\u{440}\u{438}\u{43a}", "/sim/\u{6642}\u{7cfb}\u{5217}\u{30c7}\u{30fc}\u{30bf}\u{30d9}\u{30fc}\u{30b9}/", "/sim/caf\u{e9}", "relative/to/db", "./db", "/sim/0/cafe/19", "/sim/with.dots/and-dashes_/db"];
static DIR: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn base(db: usize) -> String { format!("{}{}", DIRS[DIR.load(std::sync::atomic::Ordering::SeqCst)], db) }
pub fn prepare_world(n: usize, seed: u64) {
    simcore::disk::reset(seed);
    DIR.store(simcore::rng::mix(seed ^ 0xd1c7) as usize % DIRS.len(), std::sync::atomic::Ordering::SeqCst);
    simcore::disk::put_quiet(TIKV_YAML, b"pd_endpoints:\n  - 127.0.0.1:2379\ndry_run: false\n");
    for i in 0..n { simcore::disk::mkdir_durable(&base(i)); }
}

pub fn open(db: usize, chunk_ms: u64, t: (bool, bool)) -> Result<Arc<dyn Db>, String> {
    let opts = DbOpts {
        storage: if t.0 { "tikv" } else { "sled" }.into(),
        indexer: if t.1 { "tikv" } else { "sled" }.into(),
        base_dir: PathBuf::from(base(db)),
        chunk_size: Duration::from_millis(chunk_ms),
        tikv_config: if t.0 || t.1 { Some(PathBuf::from(TIKV_YAML)) } else { None },
    };
    let single = match &opts.tikv_config { Some(p) => Some(TiKvRawBackendSingleton::from_config_file(p).map_err(|e| e.to_string())?), None => None };
    macro_rules! go { ($s:ty, $i:ty, $sb:expr, $ib:expr) => {{
        let db = MonolithDb::<$s, $i>::new(opts, Box::new($sb), Box::new($ib)).map_err(|e| e.to_string())?;
        Ok(Arc::new(Face(db)) as Arc<dyn Db>)
    }} }
    let e = |e: MonolithErr| e.to_string();
    match t {
        (false, false) => go!(SledStorage, SledIndexer, SledStorageBuilder::new(), SledIndexerBuilder::new()),
        (false, true) => go!(SledStorage, TiKvIndexer, SledStorageBuilder::new(), TiKvIndexerBuilder::new(single.clone().unwrap()).map_err(e)?),
        (true, false) => go!(TiKvStorage, SledIndexer, TiKvStorageBuilder::new(single.clone().unwrap()).map_err(e)?, SledIndexerBuilder::new()),
        (true, true) => go!(TiKvStorage, TiKvIndexer, TiKvStorageBuilder::new(single.clone().unwrap()).map_err(e)?, TiKvIndexerBuilder::new(single.clone().unwrap()).map_err(e)?),
    }
}

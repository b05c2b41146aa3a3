//! A plan is everything a run depends on: configuration, client programs, schedule and faults.
use serde::{Deserialize, Serialize};
use simcore::{FaultCfg, SchedCfg};

pub type LSet = Vec<(String, String)>;
/// index of a series that has no labels
pub const NO_LABELS: usize = 999_999;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub sched: SchedCfg,
    pub faults: FaultCfg,
    pub body: Body,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Body {
    Opt(OptPlan),
    Db(DbPlan),
    Chunk(ChunkPlan),
    Intersect(IntersectPlan),
    Wal(WalPlan),
    Http(HttpPlan),
}

// ------------------------------------------------------------------ database runs
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DbPlan {
    /// per database: (TiKV storage?, TiKV indexer?)
    pub dbs: Vec<(bool, bool)>,
    pub chunk_ms: u64,
    pub series: Vec<LSet>,
    pub rounds: Vec<Round>,
    /// open every database once more at the end, without faults, and check everything
    pub verify: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Round { pub shift: Shift, pub faults: bool, pub sessions: Vec<Session> }

/// movement of the wall clock while everything is down
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Shift { None, By(i64), /// to the wall time of an earlier open (n opens back), plus an offset in ms
    ToOpen(u32, i64) }

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Session {
    pub db: usize,
    /// open with these engine types instead of the database's own
    pub types: Option<(bool, bool)>,
    pub phases: Vec<Phase>,
    pub idle_ms: u64,
    /// how the process ends when nothing crashed it before
    pub power: bool,
    /// open the directory again this many times (by the same process) when the first open fails
    #[serde(default)]
    pub reopen: u32,
    /// windows of another length than the plan's
    #[serde(default)]
    pub chunk_ms: Option<u64>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Phase { pub faults: bool, pub calm: bool, pub clients: Vec<Vec<Op>> }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ts {
    /// wall clock now plus offset
    Now(i64),
    /// permille of the accepting window; -1/1001.. reach its bounds and beyond
    Win(i64),
    /// the timestamp of the n-th latest write of the series, plus offset
    Near(u32, i64),
    /// so many points spread over the accepting window
    Many(u32),
    /// this very value
    Lit(i64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Want { Series(usize, u64), /// one label of the series
    One(usize, usize), /// series labels plus a label nobody has
    Unknown(usize, u32), /// one label twice (0), or one key with two values
    Twice(usize, u32), Lit(LSet) }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Range { All, Max, Inverted(u64), Around(u64, u64), Exact(usize, u32), Old, WinEdge(i64, i64), Lit(u64, u64) }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Write { s: usize, ts: Ts, perm: u32, retry: u32 },
    Batch { s: usize, ts: Vec<Ts>, perm: u32 },
    Query { want: Want, range: Range },
    Sleep(u64),
    Shift(i64),
    /// sample the accepting window with now-stamped writes for that many window lengths
    Track { s: usize, windows: u64, /// nothing but failing calls came before: a missed rotation must be made good soon
        #[serde(default)] early: bool,
        /// after so many permille of a window length the wall clock jumps by so many ms
        #[serde(default)] jump: Option<(u64, i64)> },
    /// write with a timestamp of an earlier window: must be refused
    Stale { s: usize, back: u64 },
    VerifyAll,
    /// one now-stamped write to each of k series, starting with s
    Sweep { s: usize, k: usize, perm: u32 },
    /// k points spread over the window in one batch, in shuffled order where the engine allows it
    Bulk { s: usize, k: u32, perm: u32 },
    /// a write or two in each of many windows
    Spread { s: usize, windows: u32 },
}

// ------------------------------------------------------------------ single window
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ChunkPlan { pub kv: (bool, bool), pub width: u64, pub faults: bool, pub series: Vec<LSet>, pub clients: Vec<Vec<COp>> }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum COp { Insert { s: usize, ts: u64, perm: u32 }, Query { want: Want, lo: u64, hi: u64 }, Close, Sleep(u64) }

// ------------------------------------------------------------------ label intersection
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IntersectPlan { pub callers: Vec<Vec<Vec<Vec<u64>>>> }

// ------------------------------------------------------------------ write-ahead log
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WalPlan { pub policy: Policy, pub faults: bool, pub ops: Vec<WOp>, pub tail_calm: bool, #[serde(default)] pub from: usize, /// the writer keeps bytes to itself until it is flushed
    #[serde(default)] pub buffered: bool }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Policy { Immediate, Num(usize), Size(usize), Time(u64) }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum WOp { Entry { seq: u64, parts: Vec<u32>, #[serde(default)] copy: u32 }, /// flush, then write bytes past the entries
    Raw { seq: u64, len: u32 }, Flush, Close, Sleep(u64) }

// ------------------------------------------------------------------ HTTP server
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HttpPlan {
    pub kv: (bool, bool),
    pub chunk_ms: u64,
    pub workers: usize,
    /// bytes a connection buffers per direction
    pub net_buf: usize,
    /// every request that is not itself slow must be answered within this time
    pub deadline_ms: u64,
    /// judge lateness as blocking by other clients
    pub strict: bool,
    pub series: Vec<LSet>,
    pub lives: Vec<HLife>,
    /// the server is started by the main function of its binary, with command line options
    #[serde(default)]
    pub main: bool,
    /// leave options at their defaults where they are the same
    #[serde(default)]
    pub terse: bool,
    /// use the one-letter forms of the options that have one
    #[serde(default)]
    pub short: bool,
    /// TiKV stays a map in memory: 1 = no configuration file given, 2 = the file says so
    #[serde(default)]
    pub dry: u8,
    /// how the TiKV configuration file is called, and what it says
    #[serde(default)]
    pub conf: (u8, u8),
    #[serde(default = "default_port")]
    pub port: u16,
    /// paths of the write and the read endpoint
    #[serde(default = "default_paths")]
    pub paths: (String, String),
}
fn default_port() -> u16 { 9090 }
pub fn default_paths() -> (String, String) { ("/write".into(), "/read".into()) }
/// lives of a server started from its command line
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OptPlan { pub http: HttpPlan, pub dir: String, pub lives: Vec<OLife> }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct OLife {
    /// start it with this option instead: it must refuse
    pub bad: Option<(String, String)>,
    pub clients: Vec<Vec<HOp>>,
    /// watch so many windows pass
    pub windows: u64,
    pub idle_ms: u64,
    pub power: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct HLife { pub phases: Vec<HPhase>, pub idle_ms: u64, pub power: bool }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct HPhase { pub faults: bool, pub clients: Vec<Vec<HOp>> }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum HOp {
    Write { req: Vec<(usize, Vec<Ts>)>, perm: u32, mangle: Mangle, how: How },
    Read { req: Vec<(Want, Range)>, neg: bool, kind: u64, mangle: Mangle, how: How },
    Raw { bytes: Vec<u8>, how: How },
    Sleep(u64),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mangle { No, Truncate(u32), Flip(u32, u8), Empty, Garbage(u32), BadSnappyLen, RawProto(u32), WrongPath, NotCompressed, TruncateProto(u32), /// the header claims so many bytes
    Claim(u32) }
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum How {
    Normal,
    /// send in pieces with pauses (ms)
    Slow(u32, u64),
    /// reset the connection after this share (permille) of the request
    ResetAt(u32),
    CloseAt(u32),
    /// stop sending after this share and keep the connection for so many ms, then finish or close
    StallAt(u32, u64, bool),
    /// send everything, then reset without reading
    ResetAfter,
    /// send everything, read the response slowly
    SlowRead(u64),
    KeepAlive,
    Chunked,
    /// ask for 100-continue first
    Expect,
}

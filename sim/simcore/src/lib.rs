//! Deterministic simulator core: scheduler, clock, fault plan, simulated disk, cluster and network.
//!
//! Every simulated task is an OS thread, but only the task holding the baton runs; who gets the
//! baton next is decided here, from one seed. Nothing here reads a real clock or real randomness.

pub mod disk;
pub mod kv;
pub mod net;
pub mod rng;
pub mod sched;

pub use rng::Rng;
pub use sched::*;

/// Names of scheduling points and fault sites (index = code).
pub mod site {
    macro_rules! sites { ($($id:ident = $name:expr),* $(,)?) => {
        sites!(@c 0u16; $($id)*);
        pub const NAMES: &[&str] = &[$($name),*];
    };
    (@c $n:expr; $id:ident $($rest:ident)*) => { pub const $id: u16 = $n; sites!(@c $n + 1; $($rest)*); };
    (@c $n:expr;) => {};
    }
    sites! {
        LOCK = "lock", UNLOCK = "unlock", RLOCK = "rlock", WLOCK = "wlock", RUNLOCK = "runlock", WUNLOCK = "wunlock",
        ATOMIC = "atomic", SEND = "send", RECV = "recv", CV_WAIT = "cv.wait", CV_NOTIFY = "cv.notify",
        SPAWN = "thread.spawn", JOIN = "join", SLEEP = "sleep", YIELD = "yield", EXIT = "exit", START = "start",
        CLOCK = "clock",
        FS_OPEN = "fs.open", FS_CREATE = "fs.create", FS_READ = "fs.read", FS_WRITE = "fs.write", FS_SYNC = "fs.sync",
        FS_MKDIR = "fs.mkdir", FS_READDIR = "fs.readdir", FS_RENAME = "fs.rename", FS_UNLINK = "fs.unlink", FS_STAT = "fs.stat",
        SLED_OPEN = "sled.open", SLED_GET = "sled.get", SLED_SET = "sled.set", SLED_DEL = "sled.del", SLED_FLUSH = "sled.flush", SLED_SCAN = "sled.scan",
        KV_CONNECT = "tikv.connect", KV_GET = "tikv.get", KV_PUT = "tikv.put",
        NET_CONNECT = "net.connect", NET_ACCEPT = "net.accept", NET_READ = "net.read", NET_WRITE = "net.write", NET_CLOSE = "net.close",
        POOL = "pool", HARNESS = "harness", BARRIER = "barrier", ONCE = "once", PARK = "park", WAL_WRITE = "wal.write",
    }
}

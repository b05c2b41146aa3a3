//! In-memory file system with crash semantics, and the durable part of the sled model.
//!
//! Name-space changes go to an ordered journal; an fsync of anything commits the whole journal
//! (ext4-like). File contents are durable after fsync of that file. A process kill keeps the page
//! cache; a power loss keeps a prefix of the journal and, per file, the synced content plus a
//! prefix of the later writes, the last possibly torn or replaced by zeros.
use crate::rng::{mix, Rng};
use crate::sched::*;
use crate::site;
use std::collections::BTreeMap;
use std::io::{Error, ErrorKind, Result};
use std::sync::Mutex;

#[derive(Clone, Debug)]
enum DataOp { Write(u64, Vec<u8>), SetLen(u64) }

#[derive(Clone)]
enum Node { Dir(BTreeMap<String, usize>), File(usize) }

#[derive(Default)]
struct FileData { data: Vec<u8>, durable: Vec<u8>, pending: Vec<DataOp>, sled: Option<u64>, mtime_ns: i128, owner: ProcId }

#[derive(Clone)]
struct Ns { nodes: BTreeMap<usize, Node>, }

#[derive(Clone, Debug)]
enum NsOp { MkDir(usize, String, usize), Create(usize, String, usize, usize), Unlink(usize, String), Rename(usize, String, usize, String) }

impl Ns {
    fn dir(&self, i: usize) -> Option<&BTreeMap<String, usize>> { match self.nodes.get(&i) { Some(Node::Dir(d)) => Some(d), _ => None } }
    fn dir_mut(&mut self, i: usize) -> Option<&mut BTreeMap<String, usize>> { match self.nodes.get_mut(&i) { Some(Node::Dir(d)) => Some(d), _ => None } }
    fn apply(&mut self, op: &NsOp) {
        match op {
            NsOp::MkDir(d, n, i) => { self.nodes.insert(*i, Node::Dir(BTreeMap::new())); if let Some(m) = self.dir_mut(*d) { m.insert(n.clone(), *i); } }
            NsOp::Create(d, n, i, f) => { self.nodes.insert(*i, Node::File(*f)); if let Some(m) = self.dir_mut(*d) { m.insert(n.clone(), *i); } }
            NsOp::Unlink(d, n) => { if let Some(m) = self.dir_mut(*d) { m.remove(n); } }
            NsOp::Rename(d, n, d2, n2) => {
                let i = self.dir_mut(*d).and_then(|m| m.remove(n));
                if let (Some(i), Some(m)) = (i, self.dir_mut(*d2)) { m.insert(n2.clone(), i); }
            }
        }
    }
}

/// Persistent state of one sled database: a log of key updates with a durable prefix.
#[derive(Default)]
pub struct SledStore {
    pub log: Vec<(Vec<u8>, Option<Vec<u8>>)>,
    pub stable: usize,
    pub map: BTreeMap<Vec<u8>, Vec<u8>>,
    pub open_by: Option<ProcId>,
    /// simulated time of the next background flush, 0: none scheduled
    pub next_flush: u64,
    pub interval: Option<u64>,
    pub read_only: bool,
}

impl SledStore {
    pub fn rebuild(&mut self) { self.map.clear(); for (k, v) in &self.log { match v { Some(v) => { self.map.insert(k.clone(), v.clone()); } None => { self.map.remove(k); } } } }
    /// the background flusher, modelled lazily: everything older than its last tick is durable
    pub fn background(&mut self, now: u64) {
        if let Some(iv) = self.interval {
            if self.next_flush == 0 { self.next_flush = now + iv; }
            if now >= self.next_flush { self.stable = self.log.len(); self.next_flush = now + iv; }
        }
    }
}

pub struct Disk {
    cur: Ns, dur: Ns, journal: Vec<(ProcId, NsOp)>,
    next: usize,
    files: BTreeMap<usize, FileData>,
    pub sleds: BTreeMap<u64, SledStore>,
    next_sled: u64,
    rng: Rng,
    pub lost: BTreeMap<String, u64>,
}

static DISK: Mutex<Option<Disk>> = Mutex::new(None);

fn empty_ns() -> Ns { let mut nodes = BTreeMap::new(); nodes.insert(0, Node::Dir(BTreeMap::new())); Ns { nodes } }

pub fn reset(seed: u64) {
    *DISK.lock().unwrap() = Some(Disk { cur: empty_ns(), dur: empty_ns(), journal: vec![], next: 1, files: BTreeMap::new(), sleds: BTreeMap::new(), next_sled: 1, rng: Rng::new(mix(seed ^ 0xd15c)), lost: BTreeMap::new() });
}
pub fn with_disk<R>(f: impl FnOnce(&mut Disk) -> R) -> R {
    let mut g = DISK.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() { drop(g); reset(0); g = DISK.lock().unwrap(); }
    f(g.as_mut().unwrap())
}
pub fn seed_crash(arg: u64) { with_disk(|d| d.rng = Rng::new(mix(arg ^ 0xc4a5))); }

fn e(k: ErrorKind, m: &str) -> Error { Error::new(k, m.to_string()) }
fn not_found() -> Error { Error::from_raw_os_error(2) }
fn exists() -> Error { Error::from_raw_os_error(17) }

pub fn comps(path: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    if !path.starts_with('/') { v.push("sim".into()); v.push("cwd".into()); }
    for c in path.split('/') { match c { "" | "." => {} ".." => { v.pop(); } c => v.push(c.to_string()) } }
    v
}

impl Disk {
    fn lookup(&self, c: &[String]) -> Result<usize> {
        let mut i = 0;
        for n in c {
            match self.cur.nodes.get(&i) {
                Some(Node::Dir(d)) => i = *d.get(n).ok_or_else(not_found)?,
                Some(Node::File(_)) => return Err(Error::from_raw_os_error(20)),
                None => return Err(not_found()),
            }
        }
        Ok(i)
    }
    fn parent<'a>(&self, c: &'a [String]) -> Result<(usize, &'a String)> {
        let (n, p) = c.split_last().ok_or_else(exists)?;
        let d = self.lookup(p)?;
        if self.cur.dir(d).is_none() { return Err(Error::from_raw_os_error(20)); }
        Ok((d, n))
    }
    fn log(&mut self, op: NsOp) { self.cur.apply(&op); self.journal.push((cur_machine(), op)); }
    /// an fsync commits the whole journal of the machine
    fn commit(&mut self) {
        let m = cur_machine();
        let j = std::mem::take(&mut self.journal);
        for (o, op) in j { if o == m { self.dur.apply(&op) } else { self.journal.push((o, op)) } }
    }
    fn file_of(&self, i: usize) -> Option<usize> { match self.cur.nodes.get(&i) { Some(Node::File(f)) => Some(*f), _ => None } }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { File, Dir }
#[derive(Clone, Debug)]
pub struct Stat { pub kind: Kind, pub len: u64, pub mtime_ns: i128, pub ino: u64 }

#[derive(Clone, Debug, Default)]
pub struct OpenOpts { pub read: bool, pub write: bool, pub append: bool, pub truncate: bool, pub create: bool, pub create_new: bool }

fn io_fault(s: u16, write: bool) -> Result<Option<(&'static str, u64)>> {
    let ch: &[&'static str] = if write { &["eio", "enospc", "eintr_short"] } else { &["eio"] };
    match fault(s, ch) {
        Some(("eio", _)) => Err(Error::from_raw_os_error(5)),
        Some(("enospc", _)) => Err(Error::from_raw_os_error(28)),
        o => Ok(o),
    }
}

pub fn stat(path: &str) -> Result<Stat> {
    point(site::FS_STAT, 0);
    stat_quiet(path)
}
pub fn stat_quiet(path: &str) -> Result<Stat> {
    with_disk(|d| { let i = d.lookup(&comps(path))?; Ok(stat_ino(d, i)) })
}
fn stat_ino(d: &Disk, i: usize) -> Stat {
    match &d.cur.nodes[&i] {
        Node::Dir(_) => Stat { kind: Kind::Dir, len: 4096, mtime_ns: 0, ino: i as u64 },
        Node::File(f) => Stat { kind: Kind::File, len: d.files[f].data.len() as u64, mtime_ns: d.files[f].mtime_ns, ino: i as u64 },
    }
}

/// A handle: index of the file's content (stays valid after unlink/rename).
#[derive(Debug)]
pub struct Handle { pub file: usize }

pub fn open(path: &str, o: &OpenOpts) -> Result<Handle> {
    let c = comps(path);
    let creating = o.create || o.create_new || o.truncate;
    let s = if creating { site::FS_CREATE } else { site::FS_OPEN };
    point(s, 0);
    match fault(s, if creating { &["eio", "enospc", "emfile"] } else { &["eio", "emfile"] }) {
        Some(("eio", _)) => return Err(Error::from_raw_os_error(5)),
        Some(("enospc", _)) => return Err(Error::from_raw_os_error(28)),
        Some(_) => return Err(Error::from_raw_os_error(24)),
        None => {}
    }
    if !(o.read || o.write || o.append) || ((o.truncate || o.create || o.create_new) && !(o.write || o.append)) { return Err(Error::from_raw_os_error(22)); }
    if creating { crash_point(s); }
    let now = wall_safe();
    let r = with_disk(|d| {
        match d.lookup(&c) {
            Ok(i) => {
                if o.create_new { return Err(exists()); }
                let f = match d.file_of(i) { Some(f) => f, None => if o.write || o.append { return Err(Error::from_raw_os_error(21)) } else { return Err(e(ErrorKind::Other, "open of a directory for reading is not modelled")) } };
                if o.truncate {
                    let fd = d.files.get_mut(&f).unwrap();
                    if !fd.data.is_empty() { fd.data.clear(); fd.owner = cur_machine(); fd.pending.push(DataOp::SetLen(0)); fd.sled = None; }
                    fd.mtime_ns = now;
                }
                Ok(Handle { file: f })
            }
            Err(er) => {
                if !(o.create || o.create_new) || er.kind() != ErrorKind::NotFound { return Err(er); }
                let (dir, name) = d.parent(&c)?;
                let (i, f) = (d.next, d.next + 1);
                d.next += 2;
                d.files.insert(f, FileData { mtime_ns: now, ..Default::default() });
                d.log(NsOp::Create(dir, name.clone(), i, f));
                Ok(Handle { file: f })
            }
        }
    });
    if creating { crash_point(s); }
    r
}
fn wall_safe() -> i128 { if active() { wall_ns() } else { 0 } }

/// open a directory handle (for fsync)
pub fn is_dir(path: &str) -> bool { stat_quiet(path).map_or(false, |s| s.kind == Kind::Dir) }
pub fn sync_dir() -> Result<()> {
    point(site::FS_SYNC, 0);
    io_fault(site::FS_SYNC, false)?;
    crash_point(site::FS_SYNC);
    with_disk(|d| d.commit());
    crash_point(site::FS_SYNC);
    Ok(())
}

pub fn read_at(h: &Handle, off: u64, buf: &mut [u8]) -> Result<usize> {
    point(site::FS_READ, h.file as u64);
    let short = match fault(site::FS_READ, &["eio", "eintr", "short"]) {
        Some(("eio", _)) => return Err(Error::from_raw_os_error(5)),
        Some(("eintr", _)) => return Err(Error::from_raw_os_error(4)),
        Some((_, a)) => Some(a),
        None => None,
    };
    with_disk(|d| {
        let f = &d.files[&h.file];
        let off = (off as usize).min(f.data.len());
        let mut n = buf.len().min(f.data.len() - off);
        if let Some(a) = short { if n > 1 { n = 1 + (a as usize % n); } }
        buf[..n].copy_from_slice(&f.data[off..off + n]);
        Ok(n)
    })
}
pub fn write_at(h: &Handle, off: Option<u64>, buf: &[u8]) -> Result<(usize, u64)> {
    point(site::FS_WRITE, h.file as u64);
    let mut n = buf.len();
    match fault(site::FS_WRITE, &["eio", "enospc", "eintr", "short"]) {
        Some(("eio", _)) => return Err(Error::from_raw_os_error(5)),
        Some(("enospc", _)) => return Err(Error::from_raw_os_error(28)),
        Some(("eintr", _)) => return Err(Error::from_raw_os_error(4)),
        Some((_, a)) => if n > 1 { n = 1 + a as usize % (n - 1) },
        None => {}
    }
    crash_point(site::FS_WRITE);
    let now = wall_safe();
    let end = with_disk(|d| {
        let f = d.files.get_mut(&h.file).unwrap();
        let off = off.unwrap_or(f.data.len() as u64);
        let end = off as usize + n;
        if f.data.len() < end { f.data.resize(end, 0); }
        f.data[off as usize..end].copy_from_slice(&buf[..n]);
        f.owner = cur_machine();
        f.pending.push(DataOp::Write(off, buf[..n].to_vec()));
        f.mtime_ns = now;
        end as u64
    });
    crash_point(site::FS_WRITE);
    Ok((n, end))
}
pub fn set_len(h: &Handle, len: u64) -> Result<()> {
    point(site::FS_WRITE, h.file as u64);
    io_fault(site::FS_WRITE, false)?;
    crash_point(site::FS_WRITE);
    with_disk(|d| { let f = d.files.get_mut(&h.file).unwrap(); f.data.resize(len as usize, 0); f.owner = cur_machine(); f.pending.push(DataOp::SetLen(len)); });
    Ok(())
}
pub fn sync(h: &Handle) -> Result<()> {
    point(site::FS_SYNC, h.file as u64);
    io_fault(site::FS_SYNC, false)?;
    crash_point(site::FS_SYNC);
    with_disk(|d| { let f = d.files.get_mut(&h.file).unwrap(); f.durable = f.data.clone(); f.pending.clear(); d.commit(); });
    crash_point(site::FS_SYNC);
    Ok(())
}
pub fn handle_stat(h: &Handle) -> Stat { with_disk(|d| { let f = &d.files[&h.file]; Stat { kind: Kind::File, len: f.data.len() as u64, mtime_ns: f.mtime_ns, ino: h.file as u64 } }) }

pub fn mkdir(path: &str) -> Result<()> {
    point(site::FS_MKDIR, 0);
    match fault(site::FS_MKDIR, &["eio", "enospc"]) { Some(("eio", _)) => return Err(Error::from_raw_os_error(5)), Some(_) => return Err(Error::from_raw_os_error(28)), None => {} }
    crash_point(site::FS_MKDIR);
    mkdir_quiet(path)?;
    crash_point(site::FS_MKDIR);
    Ok(())
}
fn mkdir_quiet(path: &str) -> Result<()> {
    let c = comps(path);
    with_disk(|d| {
        if c.is_empty() { return Err(exists()); }
        let (dir, name) = d.parent(&c)?;
        if d.cur.dir(dir).unwrap().contains_key(name) { return Err(exists()); }
        let i = d.next; d.next += 1;
        d.log(NsOp::MkDir(dir, name.clone(), i));
        Ok(())
    })
}
pub fn mkdir_all(path: &str) -> Result<()> {
    let c = comps(path);
    let mut p = String::new();
    if is_dir(path) { point(site::FS_STAT, 0); return Ok(()); }
    for x in &c {
        p.push('/'); p.push_str(x);
        match stat_quiet(&p) {
            Ok(s) if s.kind == Kind::Dir => {}
            Ok(_) => return Err(exists()),
            Err(_) => match mkdir(&p) { Err(er) if er.kind() == ErrorKind::AlreadyExists && is_dir(&p) => {} r => r? },
        }
    }
    Ok(())
}
/// directory entries in an arbitrary (seeded) order
pub fn readdir(path: &str) -> Result<Vec<(String, Kind)>> {
    point(site::FS_READDIR, 0);
    io_fault(site::FS_READDIR, false)?;
    let mut v = list_quiet(path)?;
    let mut r = Rng::new(rng_u64_opt());
    r.shuffle(&mut v);
    Ok(v)
}
fn rng_u64_opt() -> u64 { if active() { let mut b = [0u8; 8]; entropy(&mut b); u64::from_le_bytes(b) } else { 1 } }
pub fn list_quiet(path: &str) -> Result<Vec<(String, Kind)>> {
    with_disk(|d| {
        let i = d.lookup(&comps(path))?;
        match d.cur.dir(i) { Some(m) => Ok(m.iter().map(|(n, j)| (n.clone(), if d.cur.dir(*j).is_some() { Kind::Dir } else { Kind::File })).collect()), None => Err(Error::from_raw_os_error(20)) }
    })
}
pub fn read_quiet(path: &str) -> Result<Vec<u8>> { with_disk(|d| { let i = d.lookup(&comps(path))?; let f = d.file_of(i).ok_or_else(not_found)?; Ok(d.files[&f].data.clone()) }) }
/// harness: place a fully durable file
pub fn put_quiet(path: &str, data: &[u8]) {
    let c = comps(path);
    let mut p = String::new();
    for x in &c[..c.len() - 1] { p.push('/'); p.push_str(x); let _ = mkdir_quiet(&p); }
    with_disk(|d| {
        let f = match d.lookup(&c) { Ok(i) => d.file_of(i).unwrap(), Err(_) => {
            let (dir, name) = d.parent(&c).unwrap();
            let (i, f) = (d.next, d.next + 1); d.next += 2;
            d.files.insert(f, FileData::default());
            d.log(NsOp::Create(dir, name.clone(), i, f)); f } };
        let fd = d.files.get_mut(&f).unwrap();
        fd.data = data.to_vec(); fd.durable = data.to_vec(); fd.pending.clear();
        d.commit();
    })
}
pub fn mkdir_durable(path: &str) {
    let mut p = String::new();
    for x in comps(path) { p.push('/'); p.push_str(&x); let _ = mkdir_quiet(&p); }
    with_disk(|d| d.commit());
}
pub fn rename(a: &str, b: &str) -> Result<()> {
    point(site::FS_RENAME, 0);
    io_fault(site::FS_RENAME, false)?;
    crash_point(site::FS_RENAME);
    let (ca, cb) = (comps(a), comps(b));
    with_disk(|d| {
        let i = d.lookup(&ca)?;
        let (da, na) = d.parent(&ca)?;
        let (db, nb) = d.parent(&cb)?;
        if let Ok(j) = d.lookup(&cb) {
            if j == i { return Ok(()); }
            match (d.cur.dir(i).is_some(), d.cur.dir(j)) {
                (false, Some(_)) => return Err(Error::from_raw_os_error(21)),
                (true, None) => return Err(Error::from_raw_os_error(20)),
                (true, Some(m)) if !m.is_empty() => return Err(Error::from_raw_os_error(39)),
                _ => {}
            }
        }
        if cb.len() > ca.len() && cb[..ca.len()] == ca[..] { return Err(Error::from_raw_os_error(22)); }
        d.log(NsOp::Rename(da, na.clone(), db, nb.clone()));
        Ok(())
    })?;
    crash_point(site::FS_RENAME);
    Ok(())
}
pub fn remove_file(path: &str) -> Result<()> {
    point(site::FS_UNLINK, 0);
    io_fault(site::FS_UNLINK, false)?;
    crash_point(site::FS_UNLINK);
    let c = comps(path);
    with_disk(|d| {
        let i = d.lookup(&c)?;
        if d.cur.dir(i).is_some() { return Err(Error::from_raw_os_error(21)); }
        let (dir, n) = d.parent(&c)?;
        d.log(NsOp::Unlink(dir, n.clone()));
        Ok(())
    })?;
    crash_point(site::FS_UNLINK);
    Ok(())
}
pub fn remove_dir(path: &str) -> Result<()> {
    point(site::FS_UNLINK, 0);
    io_fault(site::FS_UNLINK, false)?;
    crash_point(site::FS_UNLINK);
    let c = comps(path);
    with_disk(|d| {
        let i = d.lookup(&c)?;
        match d.cur.dir(i) { None => return Err(Error::from_raw_os_error(20)), Some(m) if !m.is_empty() => return Err(Error::from_raw_os_error(39)), _ => {} }
        let (dir, n) = d.parent(&c)?;
        d.log(NsOp::Unlink(dir, n.clone()));
        Ok(())
    })
}
pub fn remove_dir_all(path: &str) -> Result<()> {
    for (n, k) in list_quiet(path)? {
        let p = format!("{}/{}", path, n);
        match k { Kind::Dir => remove_dir_all(&p)?, Kind::File => remove_file(&p)? }
    }
    remove_dir(path)
}
pub fn canonical(path: &str) -> Result<String> { let c = comps(path); with_disk(|d| d.lookup(&c))?; Ok(format!("/{}", c.join("/"))) }

// ------------------------------------------------------------------ sled's durable part
/// Open (create if missing) the sled store in `dir`; returns its id.
pub fn sled_attach(dir: &str) -> Result<u64> {
    mkdir_all(dir)?;
    for f in ["conf", "db"] {
        let p = format!("{}/{}", dir, f);
        if stat_quiet(&p).is_err() {
            let h = open(&p, &OpenOpts { write: true, create: true, ..Default::default() })?;
            write_at(&h, Some(0), b"sled")?;
            sync(&h)?;
        }
    }
    let p = format!("{}/db", dir);
    with_disk(|d| {
        let i = d.lookup(&comps(&p))?;
        let f = d.file_of(i).ok_or_else(not_found)?;
        let id = match d.files[&f].sled { Some(id) => id, None => { let id = d.next_sled; d.next_sled += 1; d.sleds.insert(id, SledStore::default()); d.files.get_mut(&f).unwrap().sled = Some(id); id } };
        d.commit();
        Ok(id)
    })
}
/// run the lazily modelled background flushers up to now
pub fn tick_sleds(d: &mut Disk, now: u64) { for s in d.sleds.values_mut() { if s.open_by.is_some() && !s.read_only { s.background(now); } } }

pub fn on_proc_end(p: ProcId, machine: ProcId, power: bool) {
    let now = now_ns();
    with_disk(|d| {
        tick_sleds(d, now);
        let mut ids: Vec<u64> = d.sleds.keys().cloned().collect();
        ids.sort();
        for id in ids {
            let (lo, hi, mine) = { let s = &d.sleds[&id]; (s.stable, s.log.len(), s.open_by == Some(p)) };
            if !mine { continue; }
            let keep = if hi > lo { match d.rng.below(4) { 0 => lo, 1 => hi, _ => d.rng.range(lo as u64, hi as u64) as usize } } else { hi };
            if keep < hi { *d.lost.entry("sled.unflushed_ops".into()).or_insert(0) += (hi - keep) as u64; }
            let s = d.sleds.get_mut(&id).unwrap();
            s.log.truncate(keep); s.stable = keep; s.rebuild(); s.open_by = None; s.next_flush = 0;
        }
        if power {
            let (mine, others): (Vec<_>, Vec<_>) = d.journal.drain(..).partition(|x| x.0 == machine);
            let k = if mine.is_empty() { 0 } else { match d.rng.below(4) { 0 => 0, 1 => mine.len(), _ => d.rng.range(0, mine.len() as u64) as usize } };
            if k < mine.len() { *d.lost.entry("fs.metadata_ops".into()).or_insert(0) += (mine.len() - k) as u64; }
            let mut ns = d.dur.clone();
            for (_, op) in &mine[..k] { ns.apply(op); }
            d.dur = ns.clone();
            for (_, op) in &others { ns.apply(op); }
            d.cur = ns; d.journal = others;
            let mut fs: Vec<usize> = d.files.keys().cloned().collect();
            fs.sort();
            for f in fs {
                if d.files[&f].pending.is_empty() || d.files[&f].owner != machine { continue; }
                let n = d.files[&f].pending.len() as u64;
                let mode = d.rng.below(5);
                let keep = match mode { 0 => 0, 1 => n, _ => d.rng.range(0, n) } as usize;
                let zero = d.rng.chance(1, 4);
                let torn = d.rng.chance(1, 3);
                let cut = d.rng.next();
                let fd = d.files.get_mut(&f).unwrap();
                let mut data = fd.durable.clone();
                let ops = std::mem::take(&mut fd.pending);
                for (i, op) in ops.iter().enumerate() {
                    if i >= keep { break; }
                    let last = i + 1 == keep;
                    match op {
                        DataOp::SetLen(l) => data.resize(*l as usize, 0),
                        DataOp::Write(o, b) => {
                            let mut b = b.clone();
                            if last && torn && b.len() > 1 { let l = 1 + (cut % (b.len() as u64 - 1)) as usize; b.truncate(l); }
                            if last && zero { for x in b.iter_mut() { *x = 0; } }
                            let end = *o as usize + b.len();
                            if data.len() < end { data.resize(end, 0); }
                            data[*o as usize..end].copy_from_slice(&b);
                        }
                    }
                }
                if (keep as u64) < n || torn || zero { *d.lost.entry("fs.file_data".into()).or_insert(0) += 1; }
                fd.data = data.clone(); fd.durable = data;
            }
        }
    });
}
/// All paths below `path` (harness use).
pub fn walk(path: &str) -> Vec<String> {
    let mut out = vec![];
    if let Ok(l) = list_quiet(path) { for (n, k) in l { let p = format!("{}/{}", path.trim_end_matches('/'), n); out.push(p.clone()); if k == Kind::Dir { out.extend(walk(&p)); } } }
    out
}

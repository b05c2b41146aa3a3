//! Model of sled 0.22.1's public API on the simulated disk.
//!
//! Observed behaviour of the real engine it keeps: `set` returns the old value; opening creates
//! missing directories and files, also read-only; a read-only database refuses writes; opening a
//! directory that is open already panics; unflushed updates are lost on a crash, from the end of
//! the log; a background flusher runs every `flush_every_ms` (500 ms); dropping the last handle flushes.
use simcore::{self as sc, disk, site};
use std::fmt;
use std::ops::{Bound, Deref, RangeBounds};
use std::path::{Path, PathBuf};
use std::sync::Arc;

#[derive(Clone, Eq, Ord, Hash)]
pub struct IVec(Arc<[u8]>);
impl IVec { pub fn to_vec(&self) -> Vec<u8> { self.0.to_vec() } pub fn new(v: &[u8]) -> IVec { IVec(Arc::from(v)) } }
impl Deref for IVec { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl AsRef<[u8]> for IVec { fn as_ref(&self) -> &[u8] { &self.0 } }
impl From<&[u8]> for IVec { fn from(v: &[u8]) -> IVec { IVec(Arc::from(v)) } }
impl From<&str> for IVec { fn from(v: &str) -> IVec { IVec(Arc::from(v.as_bytes())) } }
impl From<&IVec> for IVec { fn from(v: &IVec) -> IVec { v.clone() } }
impl From<Vec<u8>> for IVec { fn from(v: Vec<u8>) -> IVec { IVec(Arc::from(v)) } }
impl PartialOrd for IVec { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.0.cmp(&o.0)) } }
impl<T: AsRef<[u8]>> PartialEq<T> for IVec { fn eq(&self, o: &T) -> bool { self.as_ref() == o.as_ref() } }
impl PartialEq<[u8]> for IVec { fn eq(&self, o: &[u8]) -> bool { self.as_ref() == o } }
impl fmt::Debug for IVec { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }

#[derive(Debug)]
pub enum Error { CollectionNotFound(Vec<u8>), Unsupported(String), ReportableBug(String), Io(std::io::Error), Corruption { at: u64 } }
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::CollectionNotFound(n) => write!(f, "Collection {:?} does not exist", n),
            Error::Unsupported(e) => write!(f, "Unsupported: {}", e),
            Error::ReportableBug(e) => write!(f, "Unexpected bug has happened: {}", e),
            Error::Io(e) => write!(f, "IO error: {}", e),
            Error::Corruption { at } => write!(f, "Read corrupted data at file offset {}", at),
        }
    }
}
impl std::error::Error for Error {}
impl From<std::io::Error> for Error { fn from(e: std::io::Error) -> Error { Error::Io(e) } }
impl Clone for Error { fn clone(&self) -> Error { match self { Error::Io(e) => Error::Io(std::io::Error::new(e.kind(), e.to_string())), Error::CollectionNotFound(v) => Error::CollectionNotFound(v.clone()), Error::Unsupported(s) => Error::Unsupported(s.clone()), Error::ReportableBug(s) => Error::ReportableBug(s.clone()), Error::Corruption { at } => Error::Corruption { at: *at } } } }
impl PartialEq for Error { fn eq(&self, o: &Error) -> bool { format!("{:?}", self) == format!("{:?}", o) } }
impl Eq for Error {}
pub type Result<T> = std::result::Result<T, Error>;
fn eio() -> Error { Error::Io(std::io::Error::from_raw_os_error(5)) }
fn enospc() -> Error { Error::Io(std::io::Error::from_raw_os_error(28)) }

#[derive(Clone, Debug)]
pub struct ConfigBuilder { path: PathBuf, read_only: bool, temporary: bool, flush_every_ms: Option<u64> }
pub type Config = ConfigBuilder;
impl Default for ConfigBuilder { fn default() -> Self { ConfigBuilder { path: PathBuf::from("default.sled"), read_only: false, temporary: false, flush_every_ms: Some(500) } } }
impl ConfigBuilder {
    pub fn new() -> Self { Self::default() }
    pub fn path<P: AsRef<Path>>(mut self, p: P) -> Self { self.path = p.as_ref().to_path_buf(); self }
    pub fn read_only(mut self, b: bool) -> Self { self.read_only = b; self }
    pub fn temporary(mut self, b: bool) -> Self { self.temporary = b; self }
    pub fn flush_every_ms(mut self, m: Option<u64>) -> Self { self.flush_every_ms = m; self }
    pub fn io_buf_size(self, _: usize) -> Self { self }
    pub fn io_bufs(self, _: usize) -> Self { self }
    pub fn cache_capacity(self, _: usize) -> Self { self }
    pub fn cache_bits(self, _: usize) -> Self { self }
    pub fn use_compression(self, _: bool) -> Self { self }
    pub fn compression_factor(self, _: i32) -> Self { self }
    pub fn snapshot_after_ops(self, _: usize) -> Self { self }
    pub fn snapshot_path(self, _: Option<PathBuf>) -> Self { self }
    pub fn async_io(self, _: bool) -> Self { self }
    pub fn async_io_threads(self, _: usize) -> Self { self }
    pub fn print_profile_on_drop(self, _: bool) -> Self { self }
    pub fn build(self) -> Config { self }
    pub fn get_path(&self) -> PathBuf { self.path.clone() }
}

struct Inner { id: u64, ro: bool, temporary: Option<String>, proc_: u32, recovered: bool }
impl Drop for Inner {
    fn drop(&mut self) {
        if !sc::active() || sc::cur_proc() != self.proc_ { return; }
        let id = self.id;
        disk::with_disk(|d| if let Some(s) = d.sleds.get_mut(&id) { if s.open_by == Some(self.proc_) { if !self.ro { s.stable = s.log.len(); } s.open_by = None; s.next_flush = 0; } });
        if let Some(p) = &self.temporary { let _ = disk::remove_dir_all(p); }
    }
}
/// Handle to one key space (`pre` distinguishes named trees inside the store).
pub struct Tree { i: Arc<Inner>, pre: Vec<u8>, nm: Vec<u8> }
impl Clone for Tree { fn clone(&self) -> Self { Tree { i: self.i.clone(), pre: self.pre.clone(), nm: self.nm.clone() } } }
impl fmt::Debug for Tree { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Tree") } }
#[derive(Clone)]
pub struct Db { t: Arc<Tree> }
impl fmt::Debug for Db { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Db") } }
impl Deref for Db { type Target = Tree; fn deref(&self) -> &Tree { &self.t } }

const DEFAULT: &[u8] = b"__sled__default";
fn tree_prefix(n: &[u8]) -> Vec<u8> { if n == DEFAULT { vec![0] } else { let mut v = vec![1, n.len() as u8]; v.extend_from_slice(n); v } }

impl Db {
    pub fn start_default<P: AsRef<Path>>(p: P) -> Result<Db> { Db::start(ConfigBuilder::new().path(p).build()) }
    pub fn start(c: Config) -> Result<Db> {
        let path = c.path.to_string_lossy().into_owned();
        sc::point(site::SLED_OPEN, 0);
        match sc::fault(site::SLED_OPEN, &["err", "enospc"]) { Some(("err", _)) => return Err(eio()), Some(_) => return Err(enospc()), None => {} }
        let id = disk::sled_attach(&path)?;
        let p = sc::cur_proc();
        let (was, rec) = disk::with_disk(|d| {
            let s = d.sleds.get_mut(&id).unwrap();
            if s.open_by.is_some() { return (false, false); }
            let rec = !s.log.is_empty();
            s.open_by = Some(p); s.read_only = c.read_only; s.interval = if c.read_only { None } else { c.flush_every_ms };
            s.next_flush = s.interval.map_or(0, |iv| sc::now_ns() + iv * 1_000_000);
            s.interval = s.interval.map(|iv| iv * 1_000_000);
            (true, rec)
        });
        if !was { panic!("could not open database file at {:?}: could not acquire lock", c.path); }
        let i = Arc::new(Inner { id, ro: c.read_only, temporary: if c.temporary { Some(path) } else { None }, proc_: p, recovered: rec });
        Ok(Db { t: Arc::new(Tree { i, pre: tree_prefix(DEFAULT), nm: DEFAULT.to_vec() }) })
    }
    pub fn open_tree<V: AsRef<[u8]>>(&self, n: V) -> Result<Arc<Tree>> { Ok(Arc::new(Tree { i: self.t.i.clone(), pre: tree_prefix(n.as_ref()), nm: n.as_ref().to_vec() })) }
    pub fn drop_tree(&self, n: &[u8]) -> Result<bool> { let t = self.open_tree(n)?; let had = !t.is_empty(); t.clear()?; Ok(had) }
    pub fn tree_names(&self) -> Vec<Vec<u8>> {
        let mut v = vec![DEFAULT.to_vec()];
        self.t.raw(|s| for k in s.map.keys() { if k[0] == 1 { let n = k[2..2 + k[1] as usize].to_vec(); if !v.contains(&n) { v.push(n); } } });
        v
    }
    pub fn was_recovered(&self) -> bool { self.t.i.recovered }
    pub fn generate_id(&self) -> Result<u64> { sc::point(site::SLED_GET, 1); Ok(sc::stamp()) }
}

impl Tree {
    fn raw<R>(&self, f: impl FnOnce(&mut disk::SledStore) -> R) -> R {
        let id = self.i.id;
        let now = sc::now_ns();
        disk::with_disk(|d| { let s = d.sleds.get_mut(&id).unwrap(); if !s.read_only { s.background(now); } f(s) })
    }
    fn key(&self, k: impl AsRef<[u8]>) -> Vec<u8> { let mut v = self.pre.clone(); v.extend_from_slice(k.as_ref()); v }
    fn rd(&self) -> Result<()> {
        sc::point(site::SLED_GET, self.i.id);
        match sc::fault(site::SLED_GET, &["err", "stall"]) { Some(("stall", a)) => sc::sleep_ns(1_000 * (1 + a % 20_000)), Some(_) => return Err(eio()), None => {} }
        Ok(())
    }
    /// one atomic update: `f` maps the old value to the new one
    fn update<R>(&self, s: u16, k: Vec<u8>, f: impl FnOnce(Option<&Vec<u8>>) -> std::result::Result<Option<Vec<u8>>, R>) -> Result<std::result::Result<Option<IVec>, R>> {
        sc::point(s, self.i.id);
        if self.i.ro { return Err(Error::Unsupported("the database is in read-only mode".into())); }
        let ft = sc::fault(s, &["err_before", "err_after", "enospc", "stall"]);
        match ft { Some(("err_before", _)) => return Err(eio()), Some(("enospc", _)) => return Err(enospc()), Some(("stall", a)) => sc::sleep_ns(1_000 * (1 + a % 20_000)), _ => {} }
        sc::crash_point(s);
        let r = self.raw(|st| {
            let old = st.map.get(&k).cloned();
            match f(old.as_ref()) {
                Ok(new) => {
                    match &new { Some(v) => { st.map.insert(k.clone(), v.clone()); } None => { st.map.remove(&k); } }
                    st.log.push((k.clone(), new));
                    Ok(old.map(IVec::from))
                }
                Err(r) => Err(r),
            }
        });
        sc::crash_point(s);
        if let Some(("err_after", _)) = ft { return Err(eio()); }
        Ok(r)
    }
    pub fn set<K: AsRef<[u8]>, V>(&self, k: K, v: V) -> Result<Option<IVec>> where IVec: From<V> {
        let v = IVec::from(v).to_vec();
        Ok(self.update::<()>(site::SLED_SET, self.key(k), |_| Ok(Some(v)))?.unwrap())
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<IVec>> { self.rd()?; let k = self.key(k); Ok(self.raw(|s| s.map.get(&k).cloned()).map(IVec::from)) }
    pub fn del<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<IVec>> { Ok(self.update::<()>(site::SLED_DEL, self.key(k), |_| Ok(None))?.unwrap()) }
    pub fn cas<K, OV, NV>(&self, k: K, old: Option<OV>, new: Option<NV>) -> Result<std::result::Result<(), Option<IVec>>> where K: AsRef<[u8]>, OV: AsRef<[u8]>, IVec: From<NV> {
        let new = new.map(|v| IVec::from(v).to_vec());
        let r = self.update(site::SLED_SET, self.key(k), |cur: Option<&Vec<u8>>| if cur.map(|c| &c[..]) == old.as_ref().map(|o| o.as_ref()) { Ok(new) } else { Err(cur.map(|c| <IVec as From<Vec<u8>>>::from(c.clone()))) })?;
        Ok(r.map(|_| ()))
    }
    pub fn update_and_fetch<K, V, F>(&self, k: K, f: F) -> Result<Option<IVec>> where K: AsRef<[u8]>, F: Fn(Option<&[u8]>) -> Option<V>, IVec: From<V> {
        let k = k.as_ref();
        let mut cur = self.get(k)?;
        loop {
            let next = f(cur.as_ref().map(|c| c.as_ref())).map(IVec::from);
            match self.cas::<_, _, IVec>(k, cur.as_ref(), next.clone())? { Ok(()) => return Ok(next), Err(c) => cur = c }
        }
    }
    pub fn fetch_and_update<K, V, F>(&self, k: K, f: F) -> Result<Option<IVec>> where K: AsRef<[u8]>, F: Fn(Option<&[u8]>) -> Option<V>, IVec: From<V> {
        let k = k.as_ref();
        let mut cur = self.get(k)?;
        loop {
            let next = f(cur.as_ref().map(|c| c.as_ref())).map(IVec::from);
            match self.cas::<_, _, IVec>(k, cur.as_ref(), next)? { Ok(()) => return Ok(cur), Err(c) => cur = c }
        }
    }
    pub fn flush(&self) -> Result<usize> {
        sc::point(site::SLED_FLUSH, self.i.id);
        if self.i.ro { return Ok(0); }
        match sc::fault(site::SLED_FLUSH, &["err", "enospc", "stall"]) { Some(("err", _)) => return Err(eio()), Some(("enospc", _)) => return Err(enospc()), Some((_, a)) => sc::sleep_ns(1_000 * (1 + a % 50_000)), None => {} }
        sc::crash_point(site::SLED_FLUSH);
        let n = self.raw(|s| { let n = s.log.len() - s.stable; s.stable = s.log.len(); n });
        sc::crash_point(site::SLED_FLUSH);
        Ok(n * 64)
    }
    pub fn contains_key<K: AsRef<[u8]>>(&self, k: K) -> Result<bool> { Ok(self.get(k)?.is_some()) }
    fn all(&self) -> Vec<(Vec<u8>, IVec)> {
        let p = self.pre.clone();
        self.raw(|s| s.map.range(p.clone()..).take_while(|(k, _)| k.starts_with(&p)).map(|(k, v)| (k[p.len()..].to_vec(), IVec::from(v.clone()))).collect())
    }
    pub fn get_lt<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<(Vec<u8>, IVec)>> { self.rd()?; Ok(self.all().into_iter().rev().find(|(x, _)| &x[..] < k.as_ref())) }
    pub fn get_gt<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<(Vec<u8>, IVec)>> { self.rd()?; Ok(self.all().into_iter().find(|(x, _)| &x[..] > k.as_ref())) }
    pub fn iter(&self) -> Iter<'_> { self.range::<Vec<u8>, _>(..) }
    pub fn scan<K: AsRef<[u8]>>(&self, k: K) -> Iter<'_> { self.range(k..) }
    pub fn scan_prefix<K: AsRef<[u8]>>(&self, k: K) -> Iter<'_> { let mut i = self.iter(); let k = k.as_ref().to_vec(); i.v = i.v.into_iter().filter(|r| match r { Ok((x, _)) => x.starts_with(&k), _ => true }).collect::<Vec<_>>().into_iter(); i }
    pub fn range<K: AsRef<[u8]>, R: RangeBounds<K>>(&self, r: R) -> Iter<'_> {
        let v: Vec<Result<(Vec<u8>, IVec)>> = match self.rd() {
            Err(e) => vec![Err(e)],
            Ok(()) => self.all().into_iter().filter(|(k, _)| {
                (match r.start_bound() { Bound::Included(b) => &k[..] >= b.as_ref(), Bound::Excluded(b) => &k[..] > b.as_ref(), Bound::Unbounded => true })
                && (match r.end_bound() { Bound::Included(b) => &k[..] <= b.as_ref(), Bound::Excluded(b) => &k[..] < b.as_ref(), Bound::Unbounded => true })
            }).map(Ok).collect(),
        };
        Iter { v: v.into_iter(), _t: std::marker::PhantomData }
    }
    pub fn keys<'a, K: AsRef<[u8]>>(&'a self, k: K) -> impl 'a + DoubleEndedIterator<Item = Result<Vec<u8>>> { self.scan(k).map(|r| r.map(|x| x.0)) }
    pub fn values<'a, K: AsRef<[u8]>>(&'a self, k: K) -> impl 'a + DoubleEndedIterator<Item = Result<IVec>> { self.scan(k).map(|r| r.map(|x| x.1)) }
    pub fn len(&self) -> usize { self.all().len() }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn clear(&self) -> Result<()> { for (k, _) in self.all() { self.del(k)?; } Ok(()) }
    pub fn name(&self) -> Vec<u8> { self.nm.clone() }
}
pub struct Iter<'a> { v: std::vec::IntoIter<Result<(Vec<u8>, IVec)>>, _t: std::marker::PhantomData<&'a ()> }
impl Iterator for Iter<'_> { type Item = Result<(Vec<u8>, IVec)>; fn next(&mut self) -> Option<Self::Item> { self.v.next() } }
impl DoubleEndedIterator for Iter<'_> { fn next_back(&mut self) -> Option<Self::Item> { self.v.next_back() } }
impl<'a> IntoIterator for &'a Tree { type Item = Result<(Vec<u8>, IVec)>; type IntoIter = Iter<'a>; fn into_iter(self) -> Iter<'a> { self.iter() } }

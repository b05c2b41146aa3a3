use super::{LockResult, PoisonError, TryLockError, TryLockResult};
use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use ::std::time::Duration;
use simcore::{self as sc, site};

/// Lazily assigned identity, so that locks can be const-constructed.
pub(crate) struct Id(AtomicU64);
impl Id {
    pub const fn new() -> Id { Id(AtomicU64::new(0)) }
    pub fn get(&self) -> u64 {
        let v = self.0.load(SeqCst);
        if v != 0 { return v; }
        let n = sc::new_obj();
        self.0.store(n, SeqCst);
        n
    }
}
fn wait(s: u16, key: u64) { if sc::active() { sc::block(s, key, None); } else { ::std::thread::yield_now(); } }
const FREE: u64 = 0;
fn me() -> u64 { sc::cur().map_or(1, |t| t as u64 + 2) }
/// A lock in a `static` may have been held by a process that is dead now.
fn stale(owner: u64) -> bool { owner >= 2 && sc::task_dead(owner as usize - 2) }

pub struct Mutex<T: ?Sized> { id: Id, owner: AtomicU64, poison: AtomicBool, v: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> { l: &'a Mutex<T>, panicking: bool, _ns: ::std::marker::PhantomData<*const ()> }
unsafe impl<'a, T: ?Sized + Sync> Sync for MutexGuard<'a, T> {}

impl<T> Mutex<T> {
    pub const fn new(v: T) -> Mutex<T> { Mutex { id: Id::new(), owner: AtomicU64::new(FREE), poison: AtomicBool::new(false), v: UnsafeCell::new(v) } }
    pub fn into_inner(self) -> LockResult<T> { let p = self.poison.load(SeqCst); let v = self.v.into_inner(); if p { Err(PoisonError::new(v)) } else { Ok(v) } }
}
impl<T: ?Sized> Mutex<T> {
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        let g = MutexGuard { l: self, panicking: ::std::thread::panicking(), _ns: ::std::marker::PhantomData };
        if self.poison.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    fn take(&self) -> bool {
        let o = self.owner.load(SeqCst);
        if o == FREE || stale(o) { self.owner.store(me(), SeqCst); true } else { false }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        let id = self.id.get();
        sc::point(site::LOCK, id);
        while !self.take() { wait(site::LOCK, id); }
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        sc::yield_point(site::LOCK, self.id.get());
        if self.take() { self.guard().map_err(TryLockError::Poisoned) } else { sc::yield_hint(site::LOCK, self.id.get()); Err(TryLockError::WouldBlock) }
    }
    pub fn is_poisoned(&self) -> bool { self.poison.load(SeqCst) }
    pub fn clear_poison(&self) { self.poison.store(false, SeqCst) }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { let p = self.poison.load(SeqCst); let v = self.v.get_mut(); if p { Err(PoisonError::new(v)) } else { Ok(v) } }
    fn release(&self) { self.owner.store(FREE, SeqCst); let id = self.id.get(); sc::wake(id); }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && ::std::thread::panicking() { self.l.poison.store(true, SeqCst); }
        self.l.release();
        sc::point(site::UNLOCK, self.l.id.get());
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.l.v.get() } } }
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.l.v.get() } } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
impl<T: ?Sized> fmt::Debug for Mutex<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Mutex") } }
impl<T: Default> Default for Mutex<T> { fn default() -> Self { Mutex::new(T::default()) } }
impl<T> From<T> for Mutex<T> { fn from(v: T) -> Self { Mutex::new(v) } }
impl<T: ?Sized> ::std::panic::UnwindSafe for Mutex<T> {}
impl<T: ?Sized> ::std::panic::RefUnwindSafe for Mutex<T> {}

/// Readers-writer lock; as with std on Linux new readers queue behind a waiting writer.
pub struct RwLock<T: ?Sized> { id: Id, readers: AtomicI64, writer: AtomicU64, wwait: AtomicI64, rproc: AtomicU64, poison: AtomicBool, v: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized> { l: &'a RwLock<T>, _ns: ::std::marker::PhantomData<*const ()> }
pub struct RwLockWriteGuard<'a, T: ?Sized> { l: &'a RwLock<T>, panicking: bool, _ns: ::std::marker::PhantomData<*const ()> }
unsafe impl<'a, T: ?Sized + Sync> Sync for RwLockReadGuard<'a, T> {}
unsafe impl<'a, T: ?Sized + Sync> Sync for RwLockWriteGuard<'a, T> {}

impl<T> RwLock<T> {
    pub const fn new(v: T) -> RwLock<T> { RwLock { id: Id::new(), readers: AtomicI64::new(0), writer: AtomicU64::new(FREE), wwait: AtomicI64::new(0), rproc: AtomicU64::new(0), poison: AtomicBool::new(false), v: UnsafeCell::new(v) } }
    pub fn into_inner(self) -> LockResult<T> { let p = self.poison.load(SeqCst); let v = self.v.into_inner(); if p { Err(PoisonError::new(v)) } else { Ok(v) } }
}
impl<T: ?Sized> RwLock<T> {
    fn heal(&self) {
        if stale(self.writer.load(SeqCst)) { self.writer.store(FREE, SeqCst); }
        let p = sc::cur_proc() as u64 + 1;
        if self.rproc.load(SeqCst) != p {
            if self.rproc.load(SeqCst) != 0 && !sc::proc_alive(self.rproc.load(SeqCst) as u32 - 1) { self.readers.store(0, SeqCst); self.wwait.store(0, SeqCst); }
            self.rproc.store(p, SeqCst);
        }
    }
    fn rguard(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        let g = RwLockReadGuard { l: self, _ns: ::std::marker::PhantomData };
        if self.poison.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    fn wguard(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        let g = RwLockWriteGuard { l: self, panicking: ::std::thread::panicking(), _ns: ::std::marker::PhantomData };
        if self.poison.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        let id = self.id.get();
        sc::point(site::RLOCK, id);
        self.heal();
        let pref = !sc::active() || sc::rw_writer_pref();
        while self.writer.load(SeqCst) != FREE || (pref && self.wwait.load(SeqCst) > 0) { wait(site::RLOCK, id); }
        self.readers.fetch_add(1, SeqCst);
        self.rguard()
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        sc::yield_point(site::RLOCK, self.id.get());
        self.heal();
        if self.writer.load(SeqCst) != FREE || self.wwait.load(SeqCst) > 0 { sc::yield_hint(site::RLOCK, self.id.get()); return Err(TryLockError::WouldBlock); }
        self.readers.fetch_add(1, SeqCst);
        self.rguard().map_err(TryLockError::Poisoned)
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        let id = self.id.get();
        sc::point(site::WLOCK, id);
        self.heal();
        if self.writer.load(SeqCst) != FREE || self.readers.load(SeqCst) > 0 {
            self.wwait.fetch_add(1, SeqCst);
            while self.writer.load(SeqCst) != FREE || self.readers.load(SeqCst) > 0 { wait(site::WLOCK, id); }
            self.wwait.fetch_sub(1, SeqCst);
        }
        self.writer.store(me(), SeqCst);
        self.wguard()
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        sc::yield_point(site::WLOCK, self.id.get());
        self.heal();
        if self.writer.load(SeqCst) != FREE || self.readers.load(SeqCst) > 0 { sc::yield_hint(site::WLOCK, self.id.get()); return Err(TryLockError::WouldBlock); }
        self.writer.store(me(), SeqCst);
        self.wguard().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool { self.poison.load(SeqCst) }
    pub fn clear_poison(&self) { self.poison.store(false, SeqCst) }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { let p = self.poison.load(SeqCst); let v = self.v.get_mut(); if p { Err(PoisonError::new(v)) } else { Ok(v) } }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) { self.l.readers.fetch_sub(1, SeqCst); let id = self.l.id.get(); sc::wake(id); sc::point(site::RUNLOCK, id); }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && ::std::thread::panicking() { self.l.poison.store(true, SeqCst); }
        self.l.writer.store(FREE, SeqCst);
        let id = self.l.id.get(); sc::wake(id); sc::point(site::WUNLOCK, id);
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let l = s.l;
        ::std::mem::forget(s);
        l.readers.fetch_add(1, SeqCst); l.writer.store(FREE, SeqCst); sc::wake(l.id.get());
        RwLockReadGuard { l, _ns: ::std::marker::PhantomData }
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.l.v.get() } } }
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.l.v.get() } } }
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.l.v.get() } } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
impl<T: ?Sized> fmt::Debug for RwLock<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "RwLock") } }
impl<T: Default> Default for RwLock<T> { fn default() -> Self { RwLock::new(T::default()) } }
impl<T> From<T> for RwLock<T> { fn from(v: T) -> Self { RwLock::new(v) } }
impl<T: ?Sized> ::std::panic::UnwindSafe for RwLock<T> {}
impl<T: ?Sized> ::std::panic::RefUnwindSafe for RwLock<T> {}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult { pub fn timed_out(&self) -> bool { self.0 } }

pub struct Condvar { id: Id, seq: AtomicU64 }
impl Condvar {
    pub const fn new() -> Condvar { Condvar { id: Id::new(), seq: AtomicU64::new(0) } }
    fn wait_dl<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>, dl: Option<u64>) -> (LockResult<MutexGuard<'a, T>>, bool) {
        let l = g.l;
        if !g.panicking && ::std::thread::panicking() { l.poison.store(true, SeqCst); }
        ::std::mem::forget(g);
        // unlock and wait are one step: no point in between
        l.release();
        let to = sc::block(site::CV_WAIT, self.id.get(), dl);
        (l.lock(), to)
    }
    pub fn wait<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> { self.wait_dl(g, None).0 }
    pub fn wait_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(&self, g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        let mut g = g;
        while f(&mut *g) { g = self.wait(g)?; }
        Ok(g)
    }
    pub fn wait_timeout<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>, d: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let dl = sc::now_ns().saturating_add(d.as_nanos().min(u64::MAX as u128 / 4) as u64);
        let (r, to) = self.wait_dl(g, Some(dl));
        match r { Ok(g) => Ok((g, WaitTimeoutResult(to))), Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(to)))) }
    }
    pub fn wait_timeout_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(&self, g: MutexGuard<'a, T>, d: Duration, mut f: F) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let dl = sc::now_ns().saturating_add(d.as_nanos().min(u64::MAX as u128 / 4) as u64);
        let mut g = g;
        loop {
            if !f(&mut *g) { return Ok((g, WaitTimeoutResult(false))); }
            if sc::now_ns() >= dl { return Ok((g, WaitTimeoutResult(true))); }
            let (r, _) = self.wait_dl(g, Some(dl));
            g = match r { Ok(g) => g, Err(e) => return Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(false)))) };
        }
    }
    pub fn notify_one(&self) { self.seq.fetch_add(1, SeqCst); sc::point(site::CV_NOTIFY, self.id.get()); sc::wake_one(self.id.get()); }
    pub fn notify_all(&self) { self.seq.fetch_add(1, SeqCst); sc::point(site::CV_NOTIFY, self.id.get()); sc::wake(self.id.get()); }
}
impl Default for Condvar { fn default() -> Self { Condvar::new() } }
impl fmt::Debug for Condvar { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Condvar") } }

pub struct Barrier { n: usize, m: Mutex<(usize, u64)>, cv: Condvar }
#[derive(Debug)]
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult { pub fn is_leader(&self) -> bool { self.0 } }
impl Barrier {
    pub const fn new(n: usize) -> Barrier { Barrier { n, m: Mutex::new((0, 0)), cv: Condvar::new() } }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.m.lock().unwrap();
        g.0 += 1;
        if g.0 >= self.n { g.0 = 0; g.1 += 1; self.cv.notify_all(); return BarrierWaitResult(true); }
        let gen = g.1;
        while g.1 == gen { g = self.cv.wait(g).unwrap(); }
        BarrierWaitResult(false)
    }
}

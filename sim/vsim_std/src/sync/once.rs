use super::Mutex;
use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::ops::Deref;
use ::std::sync::atomic::{AtomicU8, Ordering::SeqCst};

/// 0 new, 1 running, 2 done, 3 poisoned
pub struct Once { m: Mutex<()>, st: AtomicU8 }
pub struct OnceState(bool);
impl OnceState { pub fn is_poisoned(&self) -> bool { self.0 } }
pub const ONCE_INIT: Once = Once::new();
impl Once {
    pub const fn new() -> Once { Once { m: Mutex::new(()), st: AtomicU8::new(0) } }
    pub fn is_completed(&self) -> bool { self.st.load(SeqCst) == 2 }
    pub fn call_once<F: FnOnce()>(&self, f: F) { self.go(false, |_| f()) }
    pub fn call_once_force<F: FnOnce(&OnceState)>(&self, f: F) { self.go(true, f) }
    fn go<F: FnOnce(&OnceState)>(&self, force: bool, f: F) {
        if self.is_completed() { simcore::point(simcore::site::ONCE, 0); return; }
        let _g = self.m.lock().unwrap_or_else(|e| e.into_inner());
        if self.is_completed() { return; }
        let poisoned = self.st.load(SeqCst) == 3;
        if poisoned && !force { panic!("Once instance has previously been poisoned") }
        struct G<'a>(&'a AtomicU8);
        impl Drop for G<'_> { fn drop(&mut self) { if self.0.load(SeqCst) == 1 { self.0.store(3, SeqCst) } } }
        self.st.store(1, SeqCst);
        let g = G(&self.st);
        f(&OnceState(poisoned));
        self.st.store(2, SeqCst);
        drop(g);
    }
}
pub struct OnceLock<T> { o: Once, v: UnsafeCell<Option<T>> }
unsafe impl<T: Send> Send for OnceLock<T> {}
unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
impl<T> OnceLock<T> {
    pub const fn new() -> Self { OnceLock { o: Once::new(), v: UnsafeCell::new(None) } }
    pub fn get(&self) -> Option<&T> { if self.o.is_completed() { unsafe { (*self.v.get()).as_ref() } } else { None } }
    pub fn get_mut(&mut self) -> Option<&mut T> { self.v.get_mut().as_mut() }
    pub fn set(&self, v: T) -> Result<(), T> {
        let mut v = Some(v);
        self.o.call_once_force(|_| unsafe { *self.v.get() = v.take() });
        match v { None => Ok(()), Some(v) => Err(v) }
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        self.o.call_once_force(|_| { let x = f(); unsafe { *self.v.get() = Some(x) } });
        self.get().unwrap()
    }
    pub fn into_inner(self) -> Option<T> { self.v.into_inner() }
    pub fn take(&mut self) -> Option<T> { let v = self.v.get_mut().take(); self.o = Once::new(); v }
}
impl<T> Default for OnceLock<T> { fn default() -> Self { Self::new() } }
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.get().fmt(f) } }
pub struct LazyLock<T, F = fn() -> T> { c: OnceLock<T>, f: UnsafeCell<Option<F>> }
unsafe impl<T: Send, F: Send> Send for LazyLock<T, F> {}
unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self { LazyLock { c: OnceLock::new(), f: UnsafeCell::new(Some(f)) } }
    pub fn force(t: &Self) -> &T { t.c.get_or_init(|| (unsafe { (*t.f.get()).take() }.expect("LazyLock instance has previously been poisoned"))()) }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> { type Target = T; fn deref(&self) -> &T { Self::force(self) } }

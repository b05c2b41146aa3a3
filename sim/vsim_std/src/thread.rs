pub use ::std::thread::{available_parallelism, panicking, AccessError, LocalKey, Result};
use ::std::cell::RefCell;
use ::std::io;
use ::std::marker::PhantomData;
use ::std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use ::std::sync::Arc;
use ::std::time::Duration;
use simcore as sc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct ThreadId(u64);

struct Inner { id: u64, name: Option<String>, token: AtomicBool, key: u64 }
#[derive(Clone)]
pub struct Thread(Arc<Inner>);
impl Thread {
    fn new(name: Option<String>) -> Thread { let id = sc::new_obj(); Thread(Arc::new(Inner { id, name, token: AtomicBool::new(false), key: sc::new_obj() })) }
    pub fn id(&self) -> ThreadId { ThreadId(self.0.id) }
    pub fn name(&self) -> Option<&str> { self.0.name.as_deref() }
    pub fn unpark(&self) { sc::point(sc::site::PARK, self.0.id); self.0.token.store(true, Ordering::SeqCst); sc::wake(self.0.key); }
}
impl ::std::fmt::Debug for Thread { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { write!(f, "Thread({:?})", self.0.id) } }

thread_local! { static ME: RefCell<Option<Thread>> = const { RefCell::new(None) }; }
pub fn current() -> Thread { ME.with(|m| m.borrow_mut().get_or_insert_with(|| Thread::new(Some(sc::task_name()))).clone()) }
fn set_me(t: Thread) { ME.with(|m| *m.borrow_mut() = Some(t)) }

pub fn park() { park_until(None) }
pub fn park_timeout(d: Duration) { park_until(Some(sc::now_ns().saturating_add(d.as_nanos() as u64))) }
pub fn park_timeout_ms(ms: u32) { park_timeout(Duration::from_millis(ms as u64)) }
fn park_until(dl: Option<u64>) {
    let t = current();
    sc::point(sc::site::PARK, t.0.id);
    loop {
        if t.0.token.swap(false, Ordering::SeqCst) { return; }
        if sc::block(sc::site::PARK, t.0.key, dl) { return; }
    }
}
pub fn sleep(d: Duration) {
    if !sc::active() { ::std::thread::sleep(d); return; }
    sc::sleep_ns(d.as_nanos().min(u64::MAX as u128 / 4) as u64)
}
pub fn sleep_ms(ms: u32) { sleep(Duration::from_millis(ms as u64)) }
pub fn yield_now() { sc::yield_hint(sc::site::YIELD, 0) }

pub struct JoinHandle<T> { inner: sc::JoinInner<T>, thread: Thread }
impl<T> JoinHandle<T> {
    pub fn thread(&self) -> &Thread { &self.thread }
    pub fn join(self) -> Result<T> { self.inner.join_deadline(None).expect("join of a task that died with its process") }
    pub fn is_finished(&self) -> bool { sc::yield_hint(sc::site::JOIN, 0); self.inner.is_finished() }
}
impl<T> ::std::fmt::Debug for JoinHandle<T> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { write!(f, "JoinHandle") } }

#[derive(Debug, Default)]
pub struct Builder { name: Option<String> }
impl Builder {
    pub fn new() -> Builder { Builder { name: None } }
    pub fn name(mut self, n: String) -> Builder { self.name = Some(n); self }
    pub fn stack_size(self, _: usize) -> Builder { self }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>> where F: FnOnce() -> T + Send + 'static, T: Send + 'static { Ok(unsafe { go(self.name, f) }) }
    pub fn spawn_scoped<'scope, 'env, F, T>(self, s: &'scope Scope<'scope, 'env>, f: F) -> io::Result<ScopedJoinHandle<'scope, T>>
    where F: FnOnce() -> T + Send + 'scope, T: Send + 'scope { Ok(s.go(self.name, f)) }
}
unsafe fn go<'a, F, T>(name: Option<String>, f: F) -> JoinHandle<T> where F: FnOnce() -> T + Send + 'a, T: Send + 'a {
    sc::point(sc::site::SPAWN, 0);
    let th = Thread::new(name.clone());
    let t2 = th.clone();
    let nm = name.unwrap_or_else(|| "thread".into());
    let inner = sc::spawn_task_unchecked(&nm, sc::cur_proc(), move || { set_me(t2); f() });
    sc::point(sc::site::SPAWN, 1);
    JoinHandle { inner, thread: th }
}
pub fn spawn<F, T>(f: F) -> JoinHandle<T> where F: FnOnce() -> T + Send + 'static, T: Send + 'static { unsafe { go(None, f) } }

pub struct Scope<'scope, 'env: 'scope> { live: Arc<AtomicUsize>, failed: Arc<AtomicBool>, key: u64, _s: PhantomData<&'scope mut &'scope ()>, _e: PhantomData<&'env mut &'env ()> }
pub struct ScopedJoinHandle<'scope, T> { h: JoinHandle<T>, _s: PhantomData<&'scope ()> }
impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn thread(&self) -> &Thread { &self.h.thread }
    pub fn join(self) -> Result<T> { self.h.join() }
    pub fn is_finished(&self) -> bool { self.h.is_finished() }
}
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T> where F: FnOnce() -> T + Send + 'scope, T: Send + 'scope { self.go(None, f) }
    fn go<F, T>(&'scope self, name: Option<String>, f: F) -> ScopedJoinHandle<'scope, T> where F: FnOnce() -> T + Send + 'scope, T: Send + 'scope {
        self.live.fetch_add(1, Ordering::SeqCst);
        let (live, failed, key) = (self.live.clone(), self.failed.clone(), self.key);
        let h = unsafe { go(name, move || {
            struct G(Arc<AtomicUsize>, Arc<AtomicBool>, u64);
            impl Drop for G { fn drop(&mut self) { if ::std::thread::panicking() { self.1.store(true, Ordering::SeqCst); } self.0.fetch_sub(1, Ordering::SeqCst); sc::wake(self.2); } }
            let _g = G(live, failed, key);
            f()
        }) };
        ScopedJoinHandle { h, _s: PhantomData }
    }
}
pub fn scope<'env, F, T>(f: F) -> T where F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T {
    let s = Scope { live: Arc::new(AtomicUsize::new(0)), failed: Arc::new(AtomicBool::new(false)), key: sc::new_obj(), _s: PhantomData, _e: PhantomData };
    let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| f(&s)));
    while s.live.load(Ordering::SeqCst) > 0 { sc::block(sc::site::JOIN, s.key, None); }
    match r {
        Err(e) => ::std::panic::resume_unwind(e),
        Ok(_) if s.failed.load(Ordering::SeqCst) => panic!("a scoped thread panicked"),
        Ok(v) => v,
    }
}

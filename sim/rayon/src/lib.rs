//! Thread pool with rayon's observable behaviour on simulated threads: jobs from outside go to a
//! shared FIFO; `install` waits and re-raises panics; a panic in a spawned job without a
//! panic handler aborts the process.
use std::any::Any;
use std::cell::Cell;
use std::collections::VecDeque;
use std::fmt;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use vsim_std::sync::{Arc, Condvar, Mutex};

type Job = Box<dyn FnOnce() + Send>;
type Handler = Arc<dyn Fn(Box<dyn Any + Send>) + Send + Sync>;
struct Sh { q: Mutex<(VecDeque<Job>, bool)>, cv: Condvar, h: Option<Handler>, n: usize, id: u64 }
thread_local! { static POOL: Cell<u64> = const { Cell::new(0) }; static IDX: Cell<usize> = const { Cell::new(0) }; }

pub struct ThreadPool(Arc<Sh>);
impl fmt::Debug for ThreadPool { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "ThreadPool({})", self.0.n) } }
#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl fmt::Display for ThreadPoolBuildError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "thread pool could not be built") } }
impl std::error::Error for ThreadPoolBuildError {}
#[derive(Default)]
pub struct ThreadPoolBuilder { n: usize, h: Option<Handler>, name: Option<Box<dyn FnMut(usize) -> String>> }
impl ThreadPoolBuilder {
    pub fn new() -> Self { Self::default() }
    pub fn num_threads(mut self, n: usize) -> Self { self.n = n; self }
    pub fn stack_size(self, _: usize) -> Self { self }
    pub fn breadth_first(self) -> Self { self }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(mut self, f: F) -> Self { self.name = Some(Box::new(f)); self }
    pub fn panic_handler<H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static>(mut self, h: H) -> Self { self.h = Some(Arc::new(h)); self }
    pub fn start_handler<H: Fn(usize) + Send + Sync + 'static>(self, _: H) -> Self { self }
    pub fn exit_handler<H: Fn(usize) + Send + Sync + 'static>(self, _: H) -> Self { self }
    pub fn build(mut self) -> Result<ThreadPool, ThreadPoolBuildError> {
        let n = if self.n == 0 { 4 } else { self.n };
        let sh = Arc::new(Sh { q: Mutex::new((VecDeque::new(), false)), cv: Condvar::new(), h: self.h.take(), n, id: simcore::new_obj() });
        for i in 0..n {
            let sh = sh.clone();
            let name = match self.name.as_mut() { Some(f) => f(i), None => format!("pool{}", i) };
            vsim_std::thread::Builder::new().name(name).spawn(move || worker(sh, i)).unwrap();
        }
        Ok(ThreadPool(sh))
    }
}
fn worker(sh: Arc<Sh>, i: usize) {
    POOL.with(|p| p.set(sh.id));
    IDX.with(|p| p.set(i));
    loop {
        let job = {
            let mut g = sh.q.lock().unwrap();
            loop {
                if let Some(j) = g.0.pop_front() { break Some(j); }
                if g.1 { break None; }
                g = sh.cv.wait(g).unwrap();
            }
        };
        match job {
            None => return,
            Some(j) => if let Err(e) = catch_unwind(AssertUnwindSafe(j)) {
                match &sh.h {
                    Some(h) => h(e),
                    None => {
                        simcore::note(|| "Rayon: detected unexpected panic; aborting".into());
                        let p = simcore::cur_proc();
                        simcore::end_proc(p, simcore::ProcExit::Aborted(format!("panic in a pool job: {}", simcore::panic_text(&*e))), false);
                    }
                }
            },
        }
    }
}
impl Drop for ThreadPool { fn drop(&mut self) { self.0.q.lock().unwrap().1 = true; self.0.cv.notify_all(); } }
impl ThreadPool {
    fn push(&self, j: Job) { self.0.q.lock().unwrap().0.push_back(j); self.0.cv.notify_one(); }
    pub fn current_num_threads(&self) -> usize { self.0.n }
    pub fn current_thread_index(&self) -> Option<usize> { if POOL.with(|p| p.get()) == self.0.id { Some(IDX.with(|i| i.get())) } else { None } }
    pub fn install<OP, R>(&self, op: OP) -> R where OP: FnOnce() -> R + Send, R: Send {
        if POOL.with(|p| p.get()) == self.0.id { return op(); }
        let res: Arc<(Mutex<Option<std::thread::Result<R>>>, Condvar)> = Arc::new((Mutex::new(None), Condvar::new()));
        let r2 = res.clone();
        let job: Box<dyn FnOnce() + Send + '_> = Box::new(move || { let r = catch_unwind(AssertUnwindSafe(op)); *r2.0.lock().unwrap() = Some(r); r2.1.notify_all(); });
        // the caller waits for the job, so its borrows outlive it
        let job: Job = unsafe { std::mem::transmute(job) };
        self.push(job);
        let mut g = res.0.lock().unwrap();
        loop { if let Some(r) = g.take() { drop(g); return match r { Ok(v) => v, Err(e) => resume_unwind(e) }; } g = res.1.wait(g).unwrap(); }
    }
    pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) { self.push(Box::new(op)) }
    pub fn spawn_fifo<OP: FnOnce() + Send + 'static>(&self, op: OP) { self.push(Box::new(op)) }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB) where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send { self.install(|| join(a, b)) }
    pub fn scope<'s, OP, R>(&self, op: OP) -> R where OP: for<'x> FnOnce(&'x Scope<'s>) -> R + Send, R: Send { scope(op) }
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB) where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send {
    vsim_std::thread::scope(|s| { let h = s.spawn(b); let ra = a(); (ra, match h.join() { Ok(v) => v, Err(e) => resume_unwind(e) }) })
}
pub struct Scope<'s> { js: Mutex<Vec<Box<dyn FnOnce(&Scope<'s>) + Send + 's>>> }
impl<'s> Scope<'s> { pub fn spawn<B: FnOnce(&Scope<'s>) + Send + 's>(&self, b: B) { self.js.lock().unwrap().push(Box::new(b)); } }
pub fn scope<'s, OP, R>(op: OP) -> R where OP: for<'x> FnOnce(&'x Scope<'s>) -> R + Send, R: Send {
    let sc = Scope { js: Mutex::new(vec![]) };
    let r = op(&sc);
    loop {
        let js: Vec<_> = std::mem::take(&mut *sc.js.lock().unwrap());
        if js.is_empty() { return r; }
        let scr = &sc;
        vsim_std::thread::scope(|s| for j in js { s.spawn(move || j(scr)); });
    }
}
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) { vsim_std::thread::spawn(f); }
pub fn current_num_threads() -> usize { 4 }
pub fn current_thread_index() -> Option<usize> { if POOL.with(|p| p.get()) != 0 { Some(IDX.with(|i| i.get())) } else { None } }

/// Parallel iterators run in sequence here, which is one of the schedules they may have.
pub mod prelude {
    pub trait IntoParallelIterator { type Item; type Iter: Iterator<Item = Self::Item>; fn into_par_iter(self) -> Self::Iter; }
    impl<T: IntoIterator> IntoParallelIterator for T { type Item = T::Item; type Iter = T::IntoIter; fn into_par_iter(self) -> T::IntoIter { self.into_iter() } }
    pub trait IntoParallelRefIterator<'a> { type Iter; fn par_iter(&'a self) -> Self::Iter; }
    impl<'a, T: ?Sized + 'a> IntoParallelRefIterator<'a> for T where &'a T: IntoIterator { type Iter = <&'a T as IntoIterator>::IntoIter; fn par_iter(&'a self) -> Self::Iter { self.into_iter() } }
    pub trait IntoParallelRefMutIterator<'a> { type Iter; fn par_iter_mut(&'a mut self) -> Self::Iter; }
    impl<'a, T: ?Sized + 'a> IntoParallelRefMutIterator<'a> for T where &'a mut T: IntoIterator { type Iter = <&'a mut T as IntoIterator>::IntoIter; fn par_iter_mut(&'a mut self) -> Self::Iter { self.into_iter() } }
}

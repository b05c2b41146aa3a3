pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
use ::std::collections::VecDeque;
use ::std::fmt;
use ::std::sync::{Arc, Mutex};
use ::std::time::Duration;
use simcore::{self as sc, site};

struct Chan<T> { q: VecDeque<T>, senders: usize, receiver: bool, cap: Option<usize>, taken: u64, sent: u64 }
struct Sh<T> { m: Mutex<Chan<T>>, key: u64 }
impl<T> Sh<T> { fn with<R>(&self, f: impl FnOnce(&mut Chan<T>) -> R) -> R { f(&mut self.m.lock().unwrap_or_else(|e| e.into_inner())) } }

pub struct Sender<T>(Arc<Sh<T>>);
pub struct SyncSender<T>(Arc<Sh<T>>);
pub struct Receiver<T>(Arc<Sh<T>>, ::std::marker::PhantomData<::std::cell::Cell<()>>);
unsafe impl<T: Send> Send for Receiver<T> {}

fn make<T>(cap: Option<usize>) -> Arc<Sh<T>> { Arc::new(Sh { m: Mutex::new(Chan { q: VecDeque::new(), senders: 1, receiver: true, cap, taken: 0, sent: 0 }), key: sc::new_obj() }) }
pub fn channel<T>() -> (Sender<T>, Receiver<T>) { let s = make(None); (Sender(s.clone()), Receiver(s, ::std::marker::PhantomData)) }
pub fn sync_channel<T>(bound: usize) -> (SyncSender<T>, Receiver<T>) { let s = make(Some(bound)); (SyncSender(s.clone()), Receiver(s, ::std::marker::PhantomData)) }

impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        sc::point(site::SEND, self.0.key);
        let r = self.0.with(|c| if c.receiver { c.q.push_back(t); c.sent += 1; Ok(()) } else { Err(SendError(t)) });
        sc::wake(self.0.key);
        r
    }
}
impl<T> SyncSender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        sc::point(site::SEND, self.0.key);
        let mut t = Some(t);
        let mut my = 0;
        loop {
            let done = self.0.with(|c| {
                if !c.receiver { return Some(false); }
                let cap = c.cap.unwrap();
                if c.q.len() < cap.max(1) && t.is_some() { c.q.push_back(t.take().unwrap()); c.sent += 1; my = c.sent; if cap > 0 { return Some(true); } }
                if t.is_none() && c.taken >= my { return Some(true); } // rendezvous
                None
            });
            match done {
                Some(true) => { sc::wake(self.0.key); return Ok(()); }
                Some(false) => match t { Some(t) => return Err(SendError(t)), None => {
                    // rendezvous with a receiver that went away before taking it
                    match self.0.with(|c| c.q.pop_back()) { Some(t) => return Err(SendError(t)), None => return Ok(()) } } },
                None => { sc::wake(self.0.key); sc::block(site::SEND, self.0.key, None); }
            }
        }
    }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        sc::yield_point(site::SEND, self.0.key);
        let r = self.0.with(|c| if !c.receiver { Err(TrySendError::Disconnected(t)) } else if c.q.len() >= c.cap.unwrap() { Err(TrySendError::Full(t)) } else { c.q.push_back(t); c.sent += 1; Ok(()) });
        sc::wake(self.0.key);
        r
    }
}
macro_rules! snd { ($n:ident) => {
    impl<T> Clone for $n<T> { fn clone(&self) -> Self { self.0.with(|c| c.senders += 1); $n(self.0.clone()) } }
    impl<T> Drop for $n<T> { fn drop(&mut self) { self.0.with(|c| c.senders -= 1); sc::wake(self.0.key); } }
    impl<T> fmt::Debug for $n<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, stringify!($n)) } }
    unsafe impl<T: Send> Send for $n<T> {}
    unsafe impl<T: Send> Sync for $n<T> {}
} }
snd!(Sender); snd!(SyncSender);
impl<T> Drop for Receiver<T> { fn drop(&mut self) { let q = self.0.with(|c| { c.receiver = false; if c.cap == Some(0) { VecDeque::new() } else { ::std::mem::take(&mut c.q) } }); drop(q); sc::wake(self.0.key); } }
impl<T> fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Receiver") } }

impl<T> Receiver<T> {
    fn take(&self) -> Result<T, TryRecvError> {
        let r = self.0.with(|c| match c.q.pop_front() { Some(t) => { c.taken += 1; Ok(t) } None if c.senders == 0 => Err(TryRecvError::Disconnected), None => Err(TryRecvError::Empty) });
        if r.is_ok() { sc::wake(self.0.key); }
        r
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        if !sc::starving() { sc::point(site::RECV, self.0.key); }
        let r = self.take();
        if let Err(TryRecvError::Empty) = r { sc::yield_hint(site::RECV, self.0.key); }
        r
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        sc::point(site::RECV, self.0.key);
        loop {
            match self.take() { Ok(t) => return Ok(t), Err(TryRecvError::Disconnected) => return Err(RecvError), Err(TryRecvError::Empty) => { sc::block(site::RECV, self.0.key, None); } }
        }
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        sc::point(site::RECV, self.0.key);
        let dl = sc::now_ns().saturating_add(d.as_nanos().min(u64::MAX as u128 / 4) as u64);
        loop {
            match self.take() { Ok(t) => return Ok(t), Err(TryRecvError::Disconnected) => return Err(RecvTimeoutError::Disconnected), Err(TryRecvError::Empty) => {
                if sc::now_ns() >= dl { return Err(RecvTimeoutError::Timeout); }
                sc::block(site::RECV, self.0.key, Some(dl));
            } }
        }
    }
    pub fn iter(&self) -> Iter<'_, T> { Iter(self) }
    pub fn try_iter(&self) -> TryIter<'_, T> { TryIter(self) }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
pub struct TryIter<'a, T>(&'a Receiver<T>);
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for Iter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
impl<T> Iterator for TryIter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.try_recv().ok() } }
impl<T> Iterator for IntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
impl<'a, T> IntoIterator for &'a Receiver<T> { type Item = T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { self.iter() } }
impl<T> IntoIterator for Receiver<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter(self) } }

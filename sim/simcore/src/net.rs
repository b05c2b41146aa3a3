//! Simulated loopback TCP: listeners by port, byte pipes with bounded buffers, resets.
use crate::sched::*;
use crate::site;
use std::collections::{BTreeMap, VecDeque};
use std::io::{Error, ErrorKind, Result};
use std::sync::Mutex;

static BUF: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(64 * 1024);
/// bytes buffered per direction and connection
pub fn set_buf(n: usize) { BUF.store(n.max(1), std::sync::atomic::Ordering::SeqCst); }

struct Pipe { buf: VecDeque<u8>, wr_closed: bool, rd_closed: bool, key: u64 }
struct Conn { a2b: Pipe, b2a: Pipe, reset: bool, owner: [ProcId; 2], port: u16 }
struct Listener { queue: VecDeque<u64>, key: u64, owner: ProcId }
#[derive(Default)]
struct Net { conns: BTreeMap<u64, Conn>, listeners: BTreeMap<u16, Listener>, next: u64 }

static NET: Mutex<Option<Net>> = Mutex::new(None);
fn with_net<R>(f: impl FnOnce(&mut Net) -> R) -> R { let mut g = NET.lock().unwrap_or_else(|e| e.into_inner()); f(g.get_or_insert_with(Net::default)) }

#[derive(Clone, Copy, Debug)]
pub struct End_ { pub conn: u64, pub side: u8 }

fn pipe() -> Pipe { Pipe { buf: VecDeque::new(), wr_closed: false, rd_closed: false, key: new_obj() } }

pub fn listen(port: u16) -> Result<u16> {
    point(site::NET_ACCEPT, port as u64);
    let key = new_obj();
    let owner = cur_proc();
    with_net(|n| {
        let mut port = port;
        if port == 0 { port = 40000; while n.listeners.contains_key(&port) { port += 1; } }
        if n.listeners.contains_key(&port) { return Err(Error::new(ErrorKind::AddrInUse, "address in use")); }
        n.listeners.insert(port, Listener { queue: VecDeque::new(), key, owner });
        Ok(port)
    })
}
pub fn unlisten(port: u16) { let k = with_net(|n| n.listeners.remove(&port).map(|l| l.key)); if let Some(k) = k { wake(k); } }
pub fn accept(port: u16) -> Result<End_> {
    loop {
        point(site::NET_ACCEPT, port as u64);
        let (c, key) = with_net(|n| match n.listeners.get_mut(&port) { Some(l) => (l.queue.pop_front(), l.key), None => (None, 0) });
        if key == 0 { return Err(Error::new(ErrorKind::Other, "listener closed")); }
        if let Some(c) = c { let me = cur_proc(); with_net(|n| if let Some(x) = n.conns.get_mut(&c) { x.owner[1] = me; }); return Ok(End_ { conn: c, side: 1 }); }
        block(site::NET_ACCEPT, key, None);
    }
}
pub fn connect(port: u16) -> Result<End_> {
    point(site::NET_CONNECT, port as u64);
    let me = cur_proc();
    let (p1, p2) = (pipe(), pipe());
    let r = with_net(|n| {
        if !n.listeners.contains_key(&port) { return Err(Error::new(ErrorKind::ConnectionRefused, "connection refused")); }
        n.next += 1;
        let id = n.next;
        let l = n.listeners.get_mut(&port).unwrap();
        l.queue.push_back(id);
        n.conns.insert(id, Conn { a2b: p1, b2a: p2, reset: false, owner: [me, l.owner], port });
        Ok((id, l.key))
    });
    let (id, key) = r?;
    wake(key);
    Ok(End_ { conn: id, side: 0 })
}
impl Conn {
    fn rd(&mut self, side: u8) -> &mut Pipe { if side == 0 { &mut self.b2a } else { &mut self.a2b } }
    fn wr(&mut self, side: u8) -> &mut Pipe { if side == 0 { &mut self.a2b } else { &mut self.b2a } }
}
enum Io { Done(usize), Wait(u64), Err(Error) }
fn rst() -> Error { Error::from_raw_os_error(104) }

pub fn read(e: End_, buf: &mut [u8], timeout: Option<u64>) -> Result<usize> {
    // the kernel may hand over fewer bytes than are there
    let cap = match fault(site::NET_READ, &["short"]) { Some((_, a)) => 1 + (a % 64) as usize, None => usize::MAX };
    let deadline = timeout.map(|t| now_ns() + t);
    loop {
        point(site::NET_READ, e.conn);
        let r = with_net(|n| match n.conns.get_mut(&e.conn) {
            None => Io::Err(rst()),
            Some(c) => {
                let reset = c.reset;
                let p = c.rd(e.side);
                if !p.buf.is_empty() && !reset {
                    let k = buf.len().min(p.buf.len()).min(cap);
                    for b in buf[..k].iter_mut() { *b = p.buf.pop_front().unwrap(); }
                    return Io::Done(k);
                }
                if reset { return Io::Err(rst()); }
                if p.wr_closed || p.rd_closed || buf.is_empty() { return Io::Done(0); }
                Io::Wait(p.key)
            }
        });
        match r {
            Io::Done(k) => { if k > 0 { let key = with_net(|n| n.conns.get_mut(&e.conn).map(|c| c.rd(e.side).key)); if let Some(k) = key { wake(k); } } return Ok(k); }
            Io::Err(x) => return Err(x),
            Io::Wait(key) => { if block(site::NET_READ, key, deadline) && deadline.map_or(false, |d| now_ns() >= d) { return Err(Error::from(ErrorKind::WouldBlock)); } }
        }
    }
}
pub fn write(e: End_, buf: &[u8]) -> Result<usize> { write_t(e, buf, None) }
pub fn write_t(e: End_, buf: &[u8], timeout: Option<u64>) -> Result<usize> {
    let deadline = timeout.map(|t| now_ns() + t);
    let cap = match fault(site::NET_WRITE, &["short"]) { Some((_, a)) => 1 + (a % 64) as usize, None => usize::MAX };
    loop {
        point(site::NET_WRITE, e.conn);
        let r = with_net(|n| match n.conns.get_mut(&e.conn) {
            None => Io::Err(rst()),
            Some(c) => {
                if c.reset { return Io::Err(rst()); }
                let p = c.wr(e.side);
                if p.wr_closed { return Io::Err(Error::from_raw_os_error(32)); }
                if p.rd_closed { return Io::Err(Error::from_raw_os_error(32)); }
                let room = BUF.load(std::sync::atomic::Ordering::SeqCst).saturating_sub(p.buf.len());
                if room == 0 && !buf.is_empty() { return Io::Wait(p.key); }
                let k = buf.len().min(room).min(cap);
                p.buf.extend(&buf[..k]);
                Io::Done(k)
            }
        });
        match r {
            Io::Done(k) => { let key = with_net(|n| n.conns.get_mut(&e.conn).map(|c| c.wr(e.side).key)); if let Some(k) = key { wake(k); } return Ok(k); }
            Io::Err(x) => return Err(x),
            Io::Wait(key) => { if block(site::NET_WRITE, key, deadline) && deadline.map_or(false, |d| now_ns() >= d) { return Err(Error::from(ErrorKind::WouldBlock)); } }
        }
    }
}
pub fn shutdown(e: End_, rd: bool, wr: bool) {
    point(site::NET_CLOSE, e.conn);
    let keys = with_net(|n| match n.conns.get_mut(&e.conn) { Some(c) => {
        // closing the receiving side with unread data, then the peer's further writes fail
        if rd { c.rd(e.side).rd_closed = true; }
        if wr { c.wr(e.side).wr_closed = true; }
        vec![c.a2b.key, c.b2a.key] } None => vec![] });
    for k in keys { wake(k); }
}
/// RST: both directions fail at once, buffered data is discarded.
pub fn reset(e: End_) {
    let keys = with_net(|n| match n.conns.get_mut(&e.conn) { Some(c) => { c.reset = true; c.a2b.buf.clear(); c.b2a.buf.clear(); vec![c.a2b.key, c.b2a.key] } None => vec![] });
    for k in keys { wake(k); }
}
pub fn port_of(e: End_) -> u16 { with_net(|n| n.conns.get(&e.conn).map_or(0, |c| c.port)) }
pub fn listening(port: u16) -> bool { with_net(|n| n.listeners.contains_key(&port)) }
pub fn on_proc_end(p: ProcId) {
    let keys = with_net(|n| {
        let mut ks = vec![];
        let mut dead: Vec<u16> = n.listeners.iter().filter(|(_, l)| l.owner == p).map(|(k, _)| *k).collect();
        dead.sort();
        for d in dead { ks.push(n.listeners.remove(&d).unwrap().key); }
        let mut ids: Vec<u64> = n.conns.keys().cloned().collect();
        ids.sort();
        for id in ids { let c = n.conns.get_mut(&id).unwrap(); if c.owner[0] == p || c.owner[1] == p { c.reset = true; ks.push(c.a2b.key); ks.push(c.b2a.key); } }
        ks
    });
    for k in keys { wake(k); }
}

//! Loopback TCP on the simulated network.
pub use ::std::net::{AddrParseError, IpAddr, Ipv4Addr, Ipv6Addr, Shutdown, SocketAddr, SocketAddrV4, SocketAddrV6, ToSocketAddrs};
use ::std::io::{self, Read, Write};
use ::std::sync::{Arc, Mutex};
use ::std::time::Duration;
use simcore::net;

struct S { e: net::End_, rt: Mutex<Option<Duration>>, wt: Mutex<Option<Duration>> }
impl Drop for S { fn drop(&mut self) { net::shutdown(self.e, true, true) } }
#[derive(Clone)]
pub struct TcpStream(Arc<S>);
impl ::std::fmt::Debug for TcpStream { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { write!(f, "TcpStream({})", self.0.e.conn) } }
fn wrap(e: net::End_) -> TcpStream { TcpStream(Arc::new(S { e, rt: Mutex::new(None), wt: Mutex::new(None) })) }
fn port(a: impl ToSocketAddrs) -> io::Result<u16> { a.to_socket_addrs()?.next().map(|a| a.port()).ok_or_else(|| io::ErrorKind::InvalidInput.into()) }
impl TcpStream {
    pub fn connect<A: ToSocketAddrs>(a: A) -> io::Result<TcpStream> { net::connect(port(a)?).map(wrap) }
    pub fn try_clone(&self) -> io::Result<TcpStream> { Ok(TcpStream(self.0.clone())) }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> { Ok(SocketAddr::from(([127, 0, 0, 1], 10000 + (self.0.e.conn % 50000) as u16))) }
    pub fn local_addr(&self) -> io::Result<SocketAddr> { Ok(SocketAddr::from(([127, 0, 0, 1], net::port_of(self.0.e)))) }
    pub fn shutdown(&self, h: Shutdown) -> io::Result<()> { net::shutdown(self.0.e, h != Shutdown::Write, h != Shutdown::Read); Ok(()) }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> { Ok(()) }
    pub fn set_read_timeout(&self, d: Option<Duration>) -> io::Result<()> { *self.0.rt.lock().unwrap() = d; Ok(()) }
    pub fn set_write_timeout(&self, d: Option<Duration>) -> io::Result<()> { *self.0.wt.lock().unwrap() = d; Ok(()) }
    fn wr(&self, b: &[u8]) -> io::Result<usize> { let t = self.0.wt.lock().unwrap().map(|d| d.as_nanos() as u64); net::write_t(self.0.e, b, t) }
    /// harness: send a reset instead of closing
    pub fn sim_reset(&self) { net::reset(self.0.e) }
    fn rd(&self, b: &mut [u8]) -> io::Result<usize> { let t = self.0.rt.lock().unwrap().map(|d| d.as_nanos() as u64); net::read(self.0.e, b, t) }
}
impl Read for TcpStream { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.rd(b) } }
impl Write for TcpStream { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.wr(b) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
impl Read for &TcpStream { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.rd(b) } }
impl Write for &TcpStream { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.wr(b) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
#[derive(Debug)]
pub struct TcpListener(u16);
impl TcpListener {
    pub fn bind<A: ToSocketAddrs>(a: A) -> io::Result<TcpListener> { net::listen(port(a)?).map(TcpListener) }
    pub fn local_addr(&self) -> io::Result<SocketAddr> { Ok(SocketAddr::from(([127, 0, 0, 1], self.0))) }
    pub fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> { let s = wrap(net::accept(self.0)?); let a = s.peer_addr()?; Ok((s, a)) }
    pub fn incoming(&self) -> Incoming<'_> { Incoming(self) }
}
pub struct Incoming<'a>(&'a TcpListener);
impl Iterator for Incoming<'_> { type Item = io::Result<TcpStream>; fn next(&mut self) -> Option<Self::Item> { Some(self.0.accept().map(|x| x.0)) } }
impl Drop for TcpListener { fn drop(&mut self) { net::unlisten(self.0) } }

pub use ::std::time::{Duration, SystemTimeError};
use ::std::ops::{Add, AddAssign, Sub, SubAssign};
use simcore as sc;

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(u64);
impl Instant {
    pub fn now() -> Instant { sc::point(sc::site::CLOCK, 1); Instant(sc::now_ns()) }
    pub fn duration_since(&self, o: Instant) -> Duration { Duration::from_nanos(self.0.saturating_sub(o.0)) }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> { self.0.checked_sub(o.0).map(Duration::from_nanos) }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration { self.duration_since(o) }
    pub fn elapsed(&self) -> Duration { Instant::now().duration_since(*self) }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> { u64::try_from(d.as_nanos()).ok().and_then(|n| self.0.checked_add(n)).map(Instant) }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> { u64::try_from(d.as_nanos()).ok().and_then(|n| self.0.checked_sub(n)).map(Instant) }
}
impl Add<Duration> for Instant { type Output = Instant; fn add(self, d: Duration) -> Instant { self.checked_add(d).expect("overflow when adding duration to instant") } }
impl AddAssign<Duration> for Instant { fn add_assign(&mut self, d: Duration) { *self = *self + d } }
impl Sub<Duration> for Instant { type Output = Instant; fn sub(self, d: Duration) -> Instant { self.checked_sub(d).expect("overflow when subtracting duration from instant") } }
impl SubAssign<Duration> for Instant { fn sub_assign(&mut self, d: Duration) { *self = *self - d } }
impl Sub<Instant> for Instant { type Output = Duration; fn sub(self, o: Instant) -> Duration { self.duration_since(o) } }

/// nanoseconds since the epoch
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct SystemTime(i128);
pub const UNIX_EPOCH: SystemTime = SystemTime(0);
fn dur(n: i128) -> Duration { Duration::new((n / 1_000_000_000) as u64, (n % 1_000_000_000) as u32) }
impl SystemTime {
    pub const UNIX_EPOCH: SystemTime = SystemTime(0);
    pub fn now() -> SystemTime {
        sc::point(sc::site::CLOCK, 0);
        if sc::active() { SystemTime(sc::wall_ns()) } else { SystemTime(0) }
    }
    pub(crate) fn from_ns(n: i128) -> SystemTime { SystemTime(n) }
    pub fn duration_since(&self, o: SystemTime) -> Result<Duration, SystemTimeError> {
        if self.0 >= o.0 { Ok(dur(self.0 - o.0)) } else {
            let e = ::std::time::UNIX_EPOCH;
            Err(e.duration_since(e + dur(o.0 - self.0)).unwrap_err())
        }
    }
    pub fn elapsed(&self) -> Result<Duration, SystemTimeError> { SystemTime::now().duration_since(*self) }
    pub fn checked_add(&self, d: Duration) -> Option<SystemTime> { self.0.checked_add(d.as_nanos() as i128).map(SystemTime) }
    pub fn checked_sub(&self, d: Duration) -> Option<SystemTime> { self.0.checked_sub(d.as_nanos() as i128).map(SystemTime) }
}
impl Add<Duration> for SystemTime { type Output = SystemTime; fn add(self, d: Duration) -> SystemTime { self.checked_add(d).unwrap() } }
impl AddAssign<Duration> for SystemTime { fn add_assign(&mut self, d: Duration) { *self = *self + d } }
impl Sub<Duration> for SystemTime { type Output = SystemTime; fn sub(self, d: Duration) -> SystemTime { self.checked_sub(d).unwrap() } }
impl SubAssign<Duration> for SystemTime { fn sub_assign(&mut self, d: Duration) { *self = *self - d } }

use std::{fmt, io, num::NonZeroU32};
#[derive(Copy, Clone, Eq, PartialEq)]
pub struct Error(NonZeroU32);
const fn e(n: u32) -> Error { Error(match NonZeroU32::new((1 << 31) + n) { Some(x) => x, None => panic!() }) }
impl Error {
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub const UNSUPPORTED: Error = e(0);
    pub const ERRNO_NOT_POSITIVE: Error = e(1);
    pub fn raw_os_error(self) -> Option<i32> { if self.0.get() < Self::INTERNAL_START { Some(self.0.get() as i32) } else { None } }
    pub const fn code(self) -> NonZeroU32 { self.0 }
}
impl fmt::Debug for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "getrandom::Error({})", self.0) } }
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "getrandom error {}", self.0) } }
impl std::error::Error for Error {}
impl From<NonZeroU32> for Error { fn from(c: NonZeroU32) -> Self { Error(c) } }
impl From<Error> for io::Error { fn from(e: Error) -> Self { io::Error::new(io::ErrorKind::Other, e) } }

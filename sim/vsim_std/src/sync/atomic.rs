//! Atomics with a preemption point before every access (sequentially consistent).
pub use ::std::sync::atomic::{compiler_fence, fence, Ordering};
#[allow(deprecated)]
pub use ::std::sync::atomic::spin_loop_hint;
use ::std::sync::atomic as real;
use simcore as sc;

fn p() { sc::point(sc::site::ATOMIC, 0) }
const O: Ordering = Ordering::SeqCst;

macro_rules! common { ($n:ident, $t:ty) => {
    impl $n {
        pub const fn new(v: $t) -> Self { $n(real::$n::new(v)) }
        pub fn load(&self, _: Ordering) -> $t { p(); self.0.load(O) }
        pub fn store(&self, v: $t, _: Ordering) { p(); self.0.store(v, O) }
        pub fn swap(&self, v: $t, _: Ordering) -> $t { p(); self.0.swap(v, O) }
        pub fn compare_exchange(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> { p(); self.0.compare_exchange(a, b, O, O) }
        pub fn compare_exchange_weak(&self, a: $t, b: $t, _: Ordering, _: Ordering) -> Result<$t, $t> { p(); self.0.compare_exchange(a, b, O, O) }
        #[allow(deprecated)]
        pub fn compare_and_swap(&self, a: $t, b: $t, _: Ordering) -> $t { p(); match self.0.compare_exchange(a, b, O, O) { Ok(x) | Err(x) => x } }
        pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<$t, $t> {
            let mut c = self.load(O);
            while let Some(n) = f(c) { match self.compare_exchange(c, n, O, O) { Ok(x) => return Ok(x), Err(x) => c = x } }
            Err(c)
        }
        pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
        pub fn into_inner(self) -> $t { self.0.into_inner() }
    }
    impl Default for $n { fn default() -> Self { Self::new(Default::default()) } }
    impl From<$t> for $n { fn from(v: $t) -> Self { Self::new(v) } }
    impl ::std::fmt::Debug for $n { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { self.0.fmt(f) } }
} }
macro_rules! ints { ($($n:ident $t:ty),*) => { $(
    #[repr(transparent)] pub struct $n(real::$n);
    common!($n, $t);
    impl $n {
        pub fn fetch_add(&self, v: $t, _: Ordering) -> $t { p(); self.0.fetch_add(v, O) }
        pub fn fetch_sub(&self, v: $t, _: Ordering) -> $t { p(); self.0.fetch_sub(v, O) }
        pub fn fetch_and(&self, v: $t, _: Ordering) -> $t { p(); self.0.fetch_and(v, O) }
        pub fn fetch_or(&self, v: $t, _: Ordering) -> $t { p(); self.0.fetch_or(v, O) }
        pub fn fetch_xor(&self, v: $t, _: Ordering) -> $t { p(); self.0.fetch_xor(v, O) }
        pub fn fetch_max(&self, v: $t, _: Ordering) -> $t { p(); self.0.fetch_max(v, O) }
        pub fn fetch_min(&self, v: $t, _: Ordering) -> $t { p(); self.0.fetch_min(v, O) }
    }
)* } }
ints!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize, AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
#[repr(transparent)] pub struct AtomicBool(real::AtomicBool);
common!(AtomicBool, bool);
impl AtomicBool {
    pub fn fetch_and(&self, v: bool, _: Ordering) -> bool { p(); self.0.fetch_and(v, O) }
    pub fn fetch_or(&self, v: bool, _: Ordering) -> bool { p(); self.0.fetch_or(v, O) }
    pub fn fetch_xor(&self, v: bool, _: Ordering) -> bool { p(); self.0.fetch_xor(v, O) }
    pub fn fetch_nand(&self, v: bool, _: Ordering) -> bool { p(); self.0.fetch_nand(v, O) }
    pub fn fetch_not(&self, _: Ordering) -> bool { p(); self.0.fetch_xor(true, O) }
}
pub use real::AtomicPtr;

pub use ::std::sync::{Arc, LockResult, PoisonError, TryLockError, TryLockResult, Weak};
pub mod atomic;
pub mod mpsc;
mod lock;
mod once;
pub use lock::*;
pub use once::*;

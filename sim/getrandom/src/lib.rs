//! Randomness from the simulator's seed.
mod error;
pub use crate::error::Error;
pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> { simcore::entropy(dest); Ok(()) }

//! Replacement for `std` under `--cfg vsim`: everything nondeterministic goes to the simulator,
//! everything else is the real standard library.
#![allow(clippy::all)]
pub use ::std::*;

pub mod fs;
pub mod net;
pub mod process;
pub mod sync;
pub mod thread;
pub mod time;
pub mod os {
    pub use ::std::os::*;
    pub mod unix {
        pub use ::std::os::unix::*;
        pub mod fs {
            pub use ::std::os::unix::fs::*;
            pub use crate::fs::{FileExt, OpenOptionsExt};
        }
    }
}

//! A stand-in for `std`: everything is re-exported from the real std, and the
//! parts through which nondeterminism and the outside world enter (threads,
//! channels, locks, atomics, clock, files, processes) are replaced by versions
//! that a seeded scheduler controls.  The crates under test are compiled with
//! `extern crate simstd as std;`.
pub use ::std::*;

pub mod env;
pub mod fs;
pub mod gui;
pub mod net;
pub mod process;
pub mod rt;
pub mod sync;
pub mod thread;
pub mod time;

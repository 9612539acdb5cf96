//! simcore: the deterministic-simulation kernel shared by all harness crates.
pub mod alloc;
pub mod choice;
pub mod ctx;
pub mod driver;
pub mod rand_seam;
pub mod stream;

pub use choice::{fnv, mix, Choices, Prng};
pub use ctx::{Ctx, Outcome, Violation};
pub use driver::{main_with, Property, Scenario};

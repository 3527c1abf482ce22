//! The simulator: one thread, one clock, one event queue, one seed.
//!
//! Everything that can differ between two executions of the code under test
//! (task order, timers, network delivery, disk completion, randomness, crash
//! points) is decided here from the seeds in [`Config`], or read back from an
//! explicit fault list when a failure is replayed. There are no dependencies, so
//! patched copies of third-party crates can use it as their seam.
pub mod disk;
pub mod net;
pub mod rand;
mod sim;
pub mod task;

pub use sim::*;

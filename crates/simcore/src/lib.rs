//! Shared core of the simulation checks: randomness, panic capture, the driver
//! that runs seeded simulations, minimises and replays failures, and writes
//! evidence.
pub mod driver;
pub mod panics;
pub mod rng;

pub use driver::{main_with, Outcome, Scenario, Tier, Violation};
pub use rng::{fnv, mix, Rng};

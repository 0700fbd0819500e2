//! Deterministic simulation runtime: real threads, one at a time, under libc-level control.
pub mod alloc;
pub mod hooks;
pub mod net;
pub mod raw;
pub mod rng;
pub mod sched;
pub use rng::{mix, Rng};
pub use sched::*;

/// The running simulation (only from the thread holding the baton).
pub fn with<R>(f: impl FnOnce(&mut Sim) -> R) -> R {
    let _g = Guard::new();
    f(sched::sim_mut())
}

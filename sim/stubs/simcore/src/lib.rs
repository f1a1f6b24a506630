//! Deterministic simulator: all ranks of a job are coroutines on one OS
//! thread; a stream of seeded decisions schedules them, times every message
//! and injects every fault.
pub mod alloc;
pub mod choice;
pub mod mpi;
pub mod sched;

pub use choice::*;
pub use sched::*;

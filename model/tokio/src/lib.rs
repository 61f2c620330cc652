//! Environment model of the part of tokio that an asynchronous UDP crate uses.
//!
//! It is single-threaded and has no reactor: tasks are polled by the harness
//! (`model::step`), timers fire when the harness advances the timer clock, a UDP
//! socket receives what the harness delivers and records what it is asked to
//! send. Whatever the real runtime decides freely (which of two ready `select!`
//! branches wins, whether a spawned task runs before its parent continues,
//! whether a send fails) is asked of a hook that the harness may make symbolic.
#![allow(static_mut_refs)]

pub use tokio_macros::test;

pub mod io;
pub mod macros;
pub mod model;
pub mod net;
pub mod sync;
pub mod task;
pub mod time;

pub use task::spawn;

//! Instantiates the generic parts of the system under test in a crate that is
//! compiled with preemption points.
pub mod db;
pub mod plug;
pub mod net;
pub mod flaky;

//! Reference model, written independently of the library: processes as plain vectors, exact laws, statistics.
pub mod law;
pub mod net;
pub mod stat;

//! `tokio`, with the network replaced by one whose every read and write is decided by the harness.
pub use real_tokio::*;

#[cfg(feature = "drive")]
mod drive;
pub mod net;
#[cfg(feature = "drive")]
pub mod runtime;

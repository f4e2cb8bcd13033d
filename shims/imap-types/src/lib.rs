//! Stand-in for `imap-types` 2.0.0-alpha (the real one is a git dependency that cannot be fetched
//! in this sandbox). Same names and shapes as far as `imap-next`, its proxy, tests and examples
//! use them, plus the usual surroundings.
pub mod auth;
pub mod command;
pub mod core;
pub mod error;
pub mod extensions;
pub mod fetch;
pub mod flag;
pub mod mailbox;
pub mod response;
pub mod secret;
pub mod sequence;
pub mod state;
pub mod status;
pub mod utils;

pub use bounded_static;

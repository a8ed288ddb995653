//! Environment, specification, monitors and scenarios for checking pizauth.
#![allow(clippy::all, static_mut_refs)]
pub mod driver;
pub mod env;
pub mod monitors;
pub mod oracle;
pub mod refconf;
pub mod runner;
pub mod scen;
pub mod util;
pub mod tls;

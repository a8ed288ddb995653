//! A stand-in for `std`: everything is re-exported from the real `std` except what touches other
//! threads, other processes, the network, the clock or the terminal, which is provided by the
//! simulated world in [world]. Crates under test depend on this crate under the name `std`.
#![allow(static_mut_refs, clippy::all, unused, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]

pub use ::std::*;

pub mod explore;
pub mod interpose;
pub mod stdio;
pub mod sync;
pub mod vnet;
pub mod vproc;
pub mod vthread;
pub mod world;

pub mod thread {
    pub use crate::vthread::*;
    pub use ::std::thread::{AccessError, LocalKey, Result, available_parallelism, panicking};
}
pub mod net {
    pub use crate::vnet::tcp::{Incoming, TcpListener, TcpStream, ToSocketAddrs};
    pub use ::std::net::*;
}
pub mod os {
    pub use ::std::os::*;
    pub mod unix {
        pub use ::std::os::unix::*;
        pub mod net {
            pub use crate::vnet::unix::{Incoming, UnixListener, UnixStream};
            pub use ::std::os::unix::net::SocketAddr;
        }
    }
}
pub mod process {
    pub use crate::vproc::*;
    pub use ::std::process::{ExitCode, ExitStatus, Output, Termination};
}
pub mod env {
    pub use crate::vproc::env::{args, args_os, current_dir, current_exe, temp_dir, var, var_os, vars, vars_os};
    pub use ::std::env::*;
}
pub mod io {
    pub use crate::stdio::{stderr, stdin, stdout, Stderr, StderrLock, Stdin, StdinLock, Stdout, StdoutLock};
    pub use ::std::io::*;
}

#[macro_export]
macro_rules! vprintln {
    () => { $crate::stdio::out("\n") };
    ($($t:tt)*) => { $crate::stdio::out(&(::std::format!($($t)*) + "\n")) };
}
#[macro_export]
macro_rules! vprint { ($($t:tt)*) => { $crate::stdio::out(&::std::format!($($t)*)) }; }
#[macro_export]
macro_rules! veprintln {
    () => { $crate::stdio::err("\n") };
    ($($t:tt)*) => { $crate::stdio::err(&(::std::format!($($t)*) + "\n")) };
}
#[macro_export]
macro_rules! veprint { ($($t:tt)*) => { $crate::stdio::err(&::std::format!($($t)*)) }; }
pub use veprint as eprint;
pub use veprintln as eprintln;
pub use vprint as print;
pub use vprintln as println;

macro_rules! prel {
    ($($m:ident)*) => { pub mod prelude {
        $(pub mod $m {
            pub use crate::{veprint as eprint, veprintln as eprintln, vprint as print, vprintln as println};
            pub use ::std::prelude::$m::*;
        })*
    } };
}
prel!(v1 rust_2015 rust_2018 rust_2021 rust_2024);

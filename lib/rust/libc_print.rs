//! Stand-in for the crate libc-print: debug output goes to the standard error stream.
pub mod std_name { pub use std::eprintln as println; pub use std::eprint as print; }

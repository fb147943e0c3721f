//! The real `pinocchio`, minus the two macros that would install the on-chain bump allocator and
//! panic handler when `target_os = "solana"` is set (the harness binary keeps the host's).
pub use real::*;
#[macro_export]
macro_rules! default_allocator { () => {}; }
#[macro_export]
macro_rules! default_panic_handler { () => {}; }

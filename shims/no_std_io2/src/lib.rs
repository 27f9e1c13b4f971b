#![no_std]
//! Stand-in for no_std_io2 0.9.4 used by the solver builds only: the same code, except that errors
//! carry no boxed payload and the read_exact/write_all retry loops are written without a loop
//! (a transfer in several pieces is reported as outside the bounds).
#[cfg(feature = "std")]
extern crate std;
extern crate alloc;
pub use core::error;
pub mod io;

#![cfg_attr(kani, feature(allocator_api))]
#![allow(unused_imports, dead_code, unused_macros)]
extern crate alloc;
#[cfg(feature = "l01")]
extern crate self as rand;
#[cfg(feature = "l01")]
pub use mods::l01::rand_any::{rng, RngExt};
#[cfg(feature = "k01")]
extern crate smallvec_flat as smallvec;
#[path = "../../src/mods.rs"]
#[macro_use]
pub mod mods;

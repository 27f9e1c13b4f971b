// generated by hooks/gen.py
pub mod sync_delay {
    include!("../parts/sync_delay.rs");
}
pub use sync_delay::*;

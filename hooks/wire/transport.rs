// generated by hooks/gen.py
pub struct Ch;
pub mod wire {
    include!("../parts/wire.rs");
}
pub use wire::*;

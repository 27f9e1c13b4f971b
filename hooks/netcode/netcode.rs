// generated by hooks/gen.py
pub mod netcode {
    include!("../parts/netcode.rs");
}
pub use netcode::*;

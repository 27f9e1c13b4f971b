// generated by hooks/gen.py
pub struct Ch;
pub mod rcv {
    include!("../parts/rcv.rs");
}
pub use rcv::*;

// generated by hooks/gen.py
pub struct Ch;
pub mod hdr {
    include!("../parts/hdr.rs");
}
pub use hdr::*;

// generated by hooks/gen.py
pub struct Ch;
pub mod tuning {
    include!("../parts/tuning.rs");
}
pub use tuning::*;

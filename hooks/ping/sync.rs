// generated by hooks/gen.py
pub mod sync {
    include!("../parts/sync.rs");
}
pub use sync::*;

// generated by hooks/gen.py
pub struct Ch;
pub mod cand {
    include!("../parts/cand.rs");
}
pub use cand::*;
pub mod snd {
    include!("../parts/snd.rs");
}
pub use snd::*;

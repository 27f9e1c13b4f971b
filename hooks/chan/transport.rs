// generated by hooks/gen.py
pub struct Ch;
pub mod cand {
    include!("../parts/cand.rs");
}
pub use cand::*;
pub mod rcv {
    include!("../parts/rcv.rs");
}
pub use rcv::*;
pub mod snd {
    include!("../parts/snd.rs");
}
pub use snd::*;
pub mod both {
    include!("../parts/both.rs");
}
pub use both::*;

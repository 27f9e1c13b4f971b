// generated by hooks/gen.py
pub struct Ch;
pub mod cand {
    include!("../parts/cand.rs");
}
pub use cand::*;
pub mod mkcand {
    include!("../parts/mkcand.rs");
}
pub use mkcand::*;
pub mod builder {
    include!("../parts/builder.rs");
}
pub use builder::*;
pub mod hdr {
    include!("../parts/hdr.rs");
}
pub use hdr::*;
pub mod wire {
    include!("../parts/wire.rs");
}
pub use wire::*;

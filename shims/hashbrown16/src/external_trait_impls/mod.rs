
#[cfg(feature = "serde")]
mod serde;

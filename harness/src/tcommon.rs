//! Helpers of the transport harnesses.
use super::nd::*;
pub use bytes::Bytes;
pub use core::time::Duration;
pub use lightyear_core::tick::Tick;
pub use lightyear_transport::packet::message::MessageId;
pub use lightyear_transport::prelude::*;
pub use lightyear_link::LinkStats;
pub use alloc::{vec, vec::Vec};
pub use lightyear_transport::verif_hooks::*;

pub fn settings(mode: ChannelMode) -> ChannelSettings {
    ChannelSettings { mode, ..Default::default() }
}
/// A one-byte message whose content identifies it.
pub fn b1(x: u8) -> Bytes {
    Bytes::copy_from_slice(&[x])
}
pub fn first(b: &Bytes) -> u8 {
    assert!(b.len() == 1, "the delivered payload has the length that was sent");
    b[0]
}

use super::{Ch, cand::*};
use alloc::vec::Vec;
use bytes::Bytes;
use lightyear_core::tick::Tick;
use core::time::Duration;
use crate::channel::registry::ChannelKind;
use crate::packet::message::*;
impl Cand {
    /// An arbitrary single-message candidate of channel `channel_id`.
    pub fn single(channel_id: u16, id: Option<MessageId>, bytes: Bytes, n: usize) -> Cand {
        Cand(SendCandidate::new(
            ChannelKind::of::<Ch>(),
            channel_id,
            SendMessageKey::UnreliableSingle(n),
            SendMessage { data: SingleData::new(id, bytes).into(), priority: 1.0 },
        ))
    }
    pub fn frag(channel_id: u16, id: MessageId, index: u64, count: u64, bytes: Bytes, n: usize) -> Cand {
        let f = FragmentData {
            message_id: id,
            fragment_id: FragmentIndex(index),
            num_fragments: FragmentIndex(count),
            compression: (index == 0).then_some(FragmentCompression::None),
            bytes,
        };
        Cand(SendCandidate::new(
            ChannelKind::of::<Ch>(),
            channel_id,
            SendMessageKey::UnreliableFragment(n),
            SendMessage { data: f.into(), priority: 1.0 },
        ))
    }
    pub fn set_effective_priority(&mut self, p: f32) {
        self.0.effective_priority = p;
    }
}


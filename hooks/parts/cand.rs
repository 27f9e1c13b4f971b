use alloc::vec::Vec;
use bytes::Bytes;
use lightyear_core::tick::Tick;
use core::time::Duration;
use crate::packet::message::*;
pub struct Cand(pub(crate) SendCandidate);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Key(pub(crate) SendMessageKey);
impl Cand {
    pub fn key(&self) -> Key {
        Key(self.0.key)
    }
    pub fn id(&self) -> Option<MessageId> {
        self.0.message.data.message_id()
    }
    pub fn fragment(&self) -> Option<(u64, u64)> {
        match &self.0.message.data {
            MessageData::Fragment(f) => Some((f.fragment_id.0, f.num_fragments.0)),
            MessageData::Single(_) => None,
        }
    }
    pub fn bytes(&self) -> &Bytes {
        match &self.0.message.data {
            MessageData::Fragment(f) => &f.bytes,
            MessageData::Single(s) => &s.bytes,
        }
    }
    pub fn priority(&self) -> f32 {
        self.0.message.priority
    }
    pub fn send_order(&self) -> u64 {
        self.0.send_order
    }
}

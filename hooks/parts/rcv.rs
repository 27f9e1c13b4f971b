use super::Ch;
use alloc::vec::Vec;
use bytes::Bytes;
use lightyear_core::tick::Tick;
use core::time::Duration;
use crate::channel::builder::ChannelSettings;
use crate::channel::receive::{ChannelReceive, ChannelReceiveError};
use crate::channel::registry::ChannelKind;
use crate::packet::compression::CompressionConfig;
use crate::packet::message::*;
use lightyear_serde::{SerializationError, ToBytes, reader::Reader};
pub struct Rcv(pub ChannelReceive);
pub fn receive_new(settings: &ChannelSettings) -> Rcv {
    Rcv(ChannelReceive::new(ChannelKind::of::<Ch>(), settings))
}
impl Rcv {
    pub fn set_fragment_size(&mut self, n: usize) {
        self.0.set_fragment_size(n)
    }
    pub fn start_at(&mut self, id: MessageId) {
        self.0.verif_start_at(id)
    }
    pub fn update(&mut self, now: Duration) {
        self.0.update(now)
    }
    pub fn single(&mut self, id: Option<MessageId>, tick: Tick, bytes: Bytes) -> Result<(), ChannelReceiveError> {
        self.data(SingleData::new(id, bytes).into(), tick)
    }
    pub fn fragment(&mut self, id: MessageId, index: u64, count: u64, tick: Tick, bytes: Bytes) -> Result<(), ChannelReceiveError> {
        let f = FragmentData {
            message_id: id,
            fragment_id: FragmentIndex(index),
            num_fragments: FragmentIndex(count),
            compression: (index == 0).then_some(FragmentCompression::None),
            bytes,
        };
        self.data(f.into(), tick)
    }
    /// What the transport does with the fragment bytes of a packet.
    pub fn wire_fragment(&mut self, r: &mut Reader, tick: Tick) -> Result<bool, SerializationError> {
        let f = FragmentData::from_bytes(r)?;
        Ok(self.data(f.into(), tick).is_ok())
    }
    pub(crate) fn data(&mut self, data: MessageData, tick: Tick) -> Result<(), ChannelReceiveError> {
        self.0.buffer_recv(ReceiveMessage { data, remote_sent_tick: tick, compression: CompressionConfig::DISABLED })
    }
    pub fn read(&mut self) -> Option<(Tick, Bytes, Option<MessageId>)> {
        self.0.read_message()
    }
}


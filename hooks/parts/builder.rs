use super::cand::*;
use alloc::vec::Vec;
use bytes::Bytes;
use lightyear_core::tick::Tick;
use core::time::Duration;
use crate::packet::compression::{CompressionConfig, CompressionScratch};
use crate::packet::message::*;
use crate::packet::packet::PacketId;
use crate::packet::packet_builder::{CandidateCursor, PacketBuilder};
pub struct Builder {
    pub b: PacketBuilder,
    cursor: CandidateCursor,
    scratch: CompressionScratch,
}
pub struct Built {
    pub payload: Bytes,
    pub packet_id: PacketId,
    /// (channel, message, fragment, key) recorded for the acknowledgement bookkeeping
    pub messages: Vec<(u16, Option<MessageId>, Option<u64>, Key)>,
}
impl Builder {
    pub fn new() -> Self {
        Builder { b: PacketBuilder::default(), cursor: CandidateCursor::default(), scratch: CompressionScratch::default() }
    }
    pub fn begin(&mut self, mtu: usize) {
        self.b.begin_send(mtu);
        self.cursor = CandidateCursor::default();
    }
    /// Err(()) when no packet could be staged.
    pub fn next(&mut self, tick: Tick, cands: &Cands, mtu: usize) -> Result<Option<Built>, ()> {
        let p = self
            .b
            .build_next_packet(tick, &cands.0, &mut self.cursor, CompressionConfig::DISABLED, mtu, &mut self.scratch)
            .map_err(|e| core::mem::forget(e))?;
        Ok(p.map(|mut p| Built {
            packet_id: p.packet_id,
            messages: p.messages.iter().map(|m| (m.channel, m.message, m.fragment_index.map(|f| f.0), Key(m.commit.key))).collect(),
            payload: self.b.take_send_payload(&mut p),
        }))
    }
    pub fn ack_only(&mut self, tick: Tick, mtu: usize) -> Result<Built, ()> {
        let mut p = self.b.build_ack_only_packet(tick, mtu).map_err(|e| core::mem::forget(e))?;
        Ok(Built { packet_id: p.packet_id, messages: Vec::new(), payload: self.b.take_send_payload(&mut p) })
    }
    pub fn commit(&mut self, id: PacketId, at: Duration) {
        self.b.header_manager.commit_send_packet(id, at)
    }
}
pub struct Cands(Vec<SendCandidate>);
impl Cands {
    pub fn new() -> Self {
        Cands(Vec::new())
    }
    pub fn push(&mut self, c: Cand) {
        self.0.push(c.0)
    }
}


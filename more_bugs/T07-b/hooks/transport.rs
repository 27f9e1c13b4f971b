// generated by hooks/gen.py
pub struct Ch;
pub mod hdr {
    use alloc::vec::Vec;
use bytes::Bytes;
use lightyear_core::tick::Tick;
use core::time::Duration;
use crate::packet::header::{PacketHeader, PacketHeaderManager};
use crate::packet::packet::PacketId;
use crate::packet::packet_type::PacketType;
use crate::prelude::PacketNackSettings;
use lightyear_link::LinkStats;
use lightyear_serde::{SerializationError, ToBytes, reader::Reader};
pub struct Hdr(pub PacketHeader);
pub struct HdrMgr(pub PacketHeaderManager);
impl Hdr {
    /// A header with arbitrary contents.
    pub fn new(ack_only: bool, id: PacketId, last_ack: PacketId, bits: u32, tick: Tick) -> Hdr {
        Hdr(PacketHeaderManager::verif_header(if ack_only { PacketType::AckOnly } else { PacketType::Data }, id, last_ack, bits, tick))
    }
    pub fn fields(&self) -> (u8, PacketId, PacketId, u32, Tick) {
        let (t, a, b, c, d) = PacketHeaderManager::verif_fields(&self.0);
        (t as u8, a, b, c, d)
    }
    pub fn decode(r: &mut Reader) -> Result<Hdr, SerializationError> {
        PacketHeader::from_bytes(r).map(Hdr)
    }
    pub fn encode(&self, out: &mut Vec<u8>) {
        self.0.to_bytes(out).unwrap()
    }
    pub fn bytes_len(&self) -> usize {
        self.0.bytes_len()
    }
    pub fn packet_id(&self) -> PacketId {
        self.0.packet_id
    }
    pub fn tick(&self) -> Tick {
        self.0.tick
    }
    pub fn is_ack_only(&self) -> bool {
        matches!(self.0.get_packet_type(), PacketType::AckOnly)
    }
}
pub const HEADER_LEN: usize = PacketHeader::BYTES;
impl HdrMgr {
    pub fn new(s: PacketNackSettings) -> Self {
        HdrMgr(PacketHeaderManager::with_nack_settings(s))
    }
    pub fn start_at(&mut self, id: PacketId) {
        self.0.verif_start_at(id)
    }
    pub fn window(&mut self, last: PacketId, bits: u32) {
        self.0.verif_window(last, bits)
    }
    pub fn preview(&self, ack_only: bool, tick: Tick) -> Hdr {
        Hdr(self.0.preview_send_packet_header(if ack_only { PacketType::AckOnly } else { PacketType::Data }, tick))
    }
    pub fn commit(&mut self, id: PacketId, at: Duration) {
        self.0.commit_send_packet(id, at)
    }
    pub fn commit_ack_only(&mut self, id: PacketId) {
        self.0.commit_send_ack_only(id)
    }
    pub fn recv(&mut self, h: &Hdr, now: Duration) -> Vec<(PacketId, Duration)> {
        let s = self.0.process_recv_packet_header(&h.0, now);
        let mut v = Vec::new();
        let mut i = 0;
        while i < 4 && i < s.len() {
            v.push(s[i]);
            i += 1;
        }
        v
    }
    pub fn update(&mut self, now: Duration, stats: &LinkStats) {
        self.0.update(now, stats)
    }
    pub fn lost(&self) -> &[PacketId] {
        &self.0.lost_packets
    }
    pub fn clear_lost(&mut self) {
        self.0.lost_packets.clear()
    }
    pub fn has_pending_ack(&self) -> bool {
        self.0.has_pending_ack()
    }
}


}
pub use hdr::*;

use super::*;
impl PacketHeaderManager {
    /// The manager as it is after the packets before `id` were sent and settled.
    pub(crate) fn verif_start_at(&mut self, id: PacketId) {
        self.next_packet_id = id;
    }
    /// The receive side as it is after some packets: `last` was the newest, `bits` (bit i: the packet
    /// i + 1 before it) the others.
    pub(crate) fn verif_window(&mut self, last: PacketId, bits: u32) {
        self.recv_buffer.last_recv_packet_id = Some(last);
        let mut i = 32;
        while i > 0 {
            i -= 1;
            self.recv_buffer.buffer.enqueue(bits & (1 << i) != 0);
        }
    }
    pub(crate) fn verif_header(packet_type: PacketType, packet_id: PacketId, last_ack_packet_id: PacketId, ack_bitfield: u32, tick: Tick) -> PacketHeader {
        PacketHeader { packet_type, packet_id, last_ack_packet_id, ack_bitfield, tick }
    }
    pub(crate) fn verif_fields(h: &PacketHeader) -> (PacketType, PacketId, PacketId, u32, Tick) {
        (h.packet_type, h.packet_id, h.last_ack_packet_id, h.ack_bitfield, h.tick)
    }
}

use lightyear_transport::prelude::*;
use lightyear_transport::packet::packet::PacketId;
use lightyear_transport::verif_hooks::*;
use lightyear_core::tick::Tick;
use lightyear_link::LinkStats;
use core::time::Duration;
fn main() {
    let mut m = HdrMgr::new(PacketNackSettings::default());
    m.start_at(PacketId(65534));
    let t = Duration::from_millis(5);
    for _ in 0..4 { let h = m.preview(false, Tick(0)); m.commit(h.packet_id(), t); }
    m.update(t, &LinkStats::default());
    assert!(m.lost().is_empty(), "{:?}", m.lost());
    let a = m.recv(&Hdr::new(false, PacketId(0), PacketId(1), 0b111, Tick(0)), t);
    assert_eq!(a.len(), 4);
}

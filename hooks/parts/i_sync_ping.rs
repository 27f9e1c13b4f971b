pub fn answered(p: &mut super::PingManager, id: u16) { p.most_recent_received_ping = Some(super::PingId(id)) }

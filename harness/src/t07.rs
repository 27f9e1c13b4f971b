//! T07: acknowledgements name exactly the packets that were received; each sent packet is settled
//! (acknowledged or lost) at most once, and an acknowledged packet was named by the peer.
use super::nd::*;
use super::tcommon::*;
use lightyear_transport::packet::packet::PacketId;

/// Packet ids near the wrap, where the interesting cases are.
const WRAP: u16 = 65530;
const LAST: u16 = 65535;
fn mgr() -> HdrMgr { HdrMgr::new(PacketNackSettings::default()) }
fn pid(base: u16, off: i16) -> PacketId { PacketId(base.wrapping_add(off as u16)) }
fn hdr(id: PacketId) -> Hdr { Hdr::new(false, id, PacketId(u16::MAX), 0, Tick(0)) }

/// The packets a header acknowledges, as offsets from `base`.
fn names(h: &Hdr, id: PacketId) -> bool {
    let (_, _, last, bits, _) = h.fields();
    let d = last.0.wrapping_sub(id.0);
    if d == 0 { true } else if d <= 32 { bits & (1 << (d - 1)) != 0 } else { false }
}

/// From any state of the receive window, `k` further packets.
fn received(k: usize, fresh: bool, base: u16) -> bool {
    let mut m = mgr();
    // the state: `base` was the newest packet, bit i of `old`: `base - 1 - i` was received
    let old: u32 = if fresh { 0 } else { any() };
    if fresh {
        core::mem::forget(m.recv(&hdr(pid(base, 0)), Duration::ZERO));
    } else {
        m.window(pid(base, 0), old);
    }
    let mut offs = [0i16; 3];
    let mut newest = 0;
    for i in 0..k {
        let o: i16 = any();
        // less than half the id space from everything received
        assume(o >= -16000 && o <= 16000);
        offs[i] = o;
        if o > newest { newest = o; }
        core::mem::forget(m.recv(&hdr(pid(base, o)), Duration::ZERO));
    }
    let h = m.preview(false, Tick(9));
    let (_, _, last, _, t) = h.fields();
    assert!(last == pid(base, newest), "the header names the newest packet received");
    assert!(t.0 == 9);
    // any packet of the window: acknowledged iff received
    let q: i16 = any();
    assume(q <= newest && q >= newest - 32);
    let mut was = q == 0 || (q < 0 && q >= -32 && old & (1 << (-q - 1)) != 0);
    for i in 0..k { was |= offs[i] == q; }
    let named = names(&h, pid(base, q));
    if named { assert!(was, "only packets that were received are acknowledged"); }
    // a packet that arrived after it had left the window is not required to be acknowledged
    if was && (q >= -32 || fresh) { assert!(named, "every received packet of the window is acknowledged"); }
    core::mem::forget(m);
    named && q != newest
}

/// Two packets sent, then a header naming `last` (and any others) twice: each is acknowledged exactly
/// once, with the right RTT, or lost.
fn settled(last: u16) -> (bool, bool) {
        let mut m = mgr();
        let base: u16 = LAST;
        m.start_at(PacketId(base));
        let t1 = dur_upto_ms(5);
        m.commit(pid(base, 0), Duration::ZERO);
        m.commit(pid(base, 1), t1);
        let bits: u32 = any();
        let h = Hdr::new(false, PacketId(5), PacketId(last), bits, Tick(0));
        let now = Duration::from_millis(6);
        let got = m.recv(&h, now);
        let (a0, a1) = (names(&h, pid(base, 0)), names(&h, pid(base, 1)));
        assert!(got.len() == a0 as usize + a1 as usize, "exactly the sent packets the header names are acknowledged");
        for k in 0..2 {
            if k < got.len() {
                let (p, rtt) = got[k];
                if p == pid(base, 0) { assert!(a0 && rtt == now); } else { assert!(p == pid(base, 1) && a1 && rtt == now - t1, "the RTT sample is the time since sending"); }
            }
        }
        if got.len() == 2 { assert!(got[0].0 != got[1].0); }
        let again = m.recv(&h, now);
        assert!(again.len() == 0, "a packet is acknowledged only once");
        // later everything not acknowledged is lost, nothing acknowledged is
        m.update(Duration::from_secs(10), &LinkStats::default());
        let lost = m.lost();
        assert!(lost.len() == !a0 as usize + !a1 as usize, "a packet is acknowledged or lost, never both or neither");
        for k in 0..2 { if k < lost.len() { assert!((lost[k] == pid(base, 0) && !a0) || (lost[k] == pid(base, 1) && !a1)); } }
                core::mem::forget((m, got, again));
        (a0, a1)
}

harnesses! {
    [34] fn acks_first_two() { let n = received(1, true, any()); reach!(n); }
    [34] fn acks_step() { let n = received(1, false, WRAP); reach!(n); }
    [34] fn acks_two_steps() { let n = received(2, false, WRAP); reach!(n); }
    // `last`: the second packet sent, one not sent yet, the oldest edge of the window, an unrelated one
    [34] fn settled_newest() { let (a, b) = settled(LAST.wrapping_add(1)); reach!(a && b); reach!(!a && b); }
    [34] fn settled_first() { let (a, b) = settled(LAST); reach!(a && !b); }
    [34] fn settled_edge() { let (a, b) = settled(LAST.wrapping_add(33)); reach!(!a && b); reach!(!a && !b); }
    [34] fn settled_old() { let (a, b) = settled(LAST.wrapping_add(32)); reach!(a && b); reach!(a && !b); }
    [34] fn settled_any() { let (a, b) = settled(any()); reach!(a && b); reach!(!a && !b); }
    // a packet is lost exactly when older than the timeout, and cannot be acknowledged afterwards
    [34] fn lost_not_acked() {
        let mut m = mgr();
        let base: u16 = LAST;
        m.start_at(PacketId(base));
        let sent = dur_upto_ms(60);
        m.commit(pid(base, 0), sent);
        let now = Duration::from_millis(60);
        m.update(now, &LinkStats { rtt: Duration::ZERO, jitter: Duration::ZERO });
        let lost = m.lost().len() == 1;
        assert!(lost == (now - sent > Duration::from_millis(10)), "lost exactly when older than the timeout");
        let bits: u32 = any();
        let h = Hdr::new(false, PacketId(5), PacketId(base.wrapping_add(7)), bits, Tick(0));
        let got = m.recv(&h, now);
        assert!(got.len() == (!lost && names(&h, pid(base, 0))) as usize, "a lost packet is not acknowledged later");
        reach!(lost); reach!(got.len() == 1);
        core::mem::forget((m, got));
    }
    // and it is reported lost only once
    [34] fn lost_once() {
        let mut m = mgr();
        let base: u16 = LAST;
        m.start_at(PacketId(base));
        let sent = dur_upto_ms(60);
        m.commit(pid(base, 0), sent);
        let stats = LinkStats { rtt: Duration::ZERO, jitter: Duration::ZERO };
        m.update(Duration::from_millis(60), &stats);
        let lost = m.lost().len() == 1;
        m.clear_lost();
        m.update(Duration::from_millis(100), &stats);
        assert!(m.lost().len() == !lost as usize, "a packet is lost only once, and at last if never acknowledged");
        reach!(lost); reach!(!lost);
        core::mem::forget(m);
    }
    // acknowledgement-only packets do not ask for acknowledgements and are not tracked
    [34] fn ack_only() {
        let mut m = mgr();
        let base: u16 = any();
        m.start_at(PacketId(base));
        let ao: bool = any();
        let h = Hdr::new(ao, PacketId(any()), PacketId(any()), any(), Tick(any()));
        core::mem::forget(m.recv(&h, Duration::ZERO));
        assert!(m.has_pending_ack() == !ao, "only data asks for an acknowledgement");
        let p = m.preview(true, Tick(3));
        assert!(p.packet_id() == PacketId(base) && p.is_ack_only());
        m.commit_ack_only(p.packet_id());
        assert!(!m.has_pending_ack(), "sending any packet settles the pending acknowledgement");
        m.update(Duration::from_secs(100), &LinkStats::default());
        assert!(m.lost().is_empty(), "acknowledgement-only packets are never reported lost");
        assert!(m.preview(false, Tick(0)).packet_id() == pid(base, 1), "each packet has its own id");
        reach!(ao);
        core::mem::forget(m);
    }
    // header wire form
    [16] fn header_wire() {
        let h = Hdr::new(any(), PacketId(any()), PacketId(any()), any(), Tick(any()));
        let mut out = Vec::with_capacity(16);
        h.encode(&mut out);
        assert!(out.len() == HEADER_LEN && h.bytes_len() == HEADER_LEN);
        let mut r = lightyear_serde::reader::Reader::from(Bytes::copy_from_slice(&out));
        match Hdr::decode(&mut r) { Ok(g) => assert!(g.fields() == h.fields(), "a header survives the wire"), Err(_) => assert!(false) }
        reach!(true);
        core::mem::forget(out);
    }
}

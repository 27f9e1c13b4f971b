//! U02: sequence buffers, on the wrapping ids of the transport.
use super::nd::*;
use lightyear_transport::packet::message::MessageId;
use lightyear_utils::sequence_buffer::SequenceBuffer;

/// `ops` operations on ids of one window of `N` consecutive ids.
fn window<const N: usize>(ops: usize) {
    let base: u16 = any();
    let mut b: SequenceBuffer<MessageId, u8, N> = SequenceBuffer::new();
    let mut m: [Option<u8>; N] = [None; N];
    let (mut removed, mut overwritten) = (false, false);
    for _ in 0..ops {
        let i = below(N);
        let id = MessageId(base.wrapping_add(i as u16));
        if any::<bool>() {
            let v: u8 = any();
            b.push(&id, v);
            overwritten |= m[i].is_some();
            m[i] = Some(v);
        } else {
            let r = b.remove(&id);
            assert!(r == m[i], "removing returns what was stored");
            removed |= r.is_some();
            m[i] = None;
        }
    }
    let q = below(N);
    assert!(b.get(&MessageId(base.wrapping_add(q as u16))).copied() == m[q], "the value last stored for the id, or nothing");
    reach!(removed && overwritten && m[q].is_some());
    b.clear();
    assert!(b.get(&MessageId(base.wrapping_add(q as u16))).is_none());
}
harnesses! {
    [9] fn ring_4() { window::<4>(6) }
    [10] fn ring_8() { window::<8>(5) }
    [34] fn ring_32() { window::<32>(4) }
}

//! T04: a fragmented message is reassembled exactly, whatever the arrival order and duplicates.
use super::nd::*;
use super::tcommon::*;

const F: usize = 2; // fragment size

/// What the sender emits for a message of `len` bytes: the pieces in order, sizes, indices.
fn pieces(mode: ChannelMode, len: usize) -> Vec<Cand> {
    let data: [u8; 8] = any();
    let mut s = send_new(&settings(mode), 0, F);
    let id: u16 = any();
    s.start_at(MessageId(id));
    let got = s.buffer(Bytes::copy_from_slice(&data[..len]), 1.0);
    assert!(got == Some(MessageId(id)), "the sender reports the id of a fragmented message");
    let c = s.candidates();
    let n = len.div_ceil(F);
    assert!(c.len() == n, "a message is cut into ceil(len / fragment size) pieces");
    let mut i = 0;
    while i < n {
        assert!(c[i].id() == Some(MessageId(id)));
        assert!(c[i].fragment() == Some((i as u64, n as u64)), "index and count of each piece");
        let b = c[i].bytes();
        let end = if (i + 1) * F < len { (i + 1) * F } else { len };
        assert!(b.len() == end - i * F, "only the last piece may be short");
        let mut k = 0;
        while k < b.len() {
            assert!(b[k] == data[i * F + k], "each piece carries its part of the message");
            k += 1;
        }
        i += 1;
    }
    core::mem::forget(s);
    c
}

/// `K` arrivals of the `N` pieces of one message, any order and duplicates.
fn reassemble<const N: usize, const LEN: usize, const K: usize>(mode: ChannelMode) -> bool {
    let data: [u8; LEN] = any();
    let mut r = receive_new(&settings(mode));
    r.set_fragment_size(F);
    let mut arrived = [false; 4];
    let mut first = true;
    let mut count = 0;
    let tick: u32 = any();
    for step in 0..K {
        let i = below(N);
        let p: &[u8] = if i == N - 1 { &data[(N - 1) * F..] } else { &data[i * F..i * F + F] };
        let t = if first { tick } else { any() };
        first = false;
        assert!(r.fragment(MessageId(0), i as u64, N as u64, Tick(t), Bytes::copy_from_slice(p)).is_ok());
        if !arrived[i] { arrived[i] = true; count += 1; }
        if step < N - 1 || count < N {
            assert!(step >= N - 1 || r.read().is_none(), "nothing is delivered before every piece arrived");
        }
        if count == N { break; }
    }
    match r.read() {
        Some((t, b, _)) => {
            assert!(count == N, "nothing is delivered before every piece arrived");
            assert!(b.len() == LEN, "the reassembled message has its original length");
            let mut j = 0;
            while j < LEN { assert!(b[j] == data[j], "the reassembled message has its original bytes"); j += 1; }
            assert!(t.0 == tick, "it carries the tick of the piece that arrived first");
        }
        None => assert!(count < N, "a message is delivered as soon as its last piece arrives"),
    }
    core::mem::forget(r);
    count == N
}

/// Two fragmented messages whose pieces interleave do not mix.
fn two(k: usize) -> bool {
    let a: [u8; 3] = any();
    let b: [u8; 4] = any();
    let mut r = receive_new(&settings(ChannelMode::OrderedReliable(ReliableSettings::default())));
    r.set_fragment_size(F);
    let mut arr = [false; 4];
    for _ in 0..k {
        let i = below(4);
        arr[i] = true;
        let p = match i { 0 => &a[0..2], 1 => &a[2..3], 2 => &b[0..2], _ => &b[2..4] };
        assert!(r.fragment(MessageId((i / 2) as u16), (i % 2) as u64, 2, Tick(0), Bytes::copy_from_slice(p)).is_ok());
    }
    let da = arr[0] && arr[1];
    let db = arr[2] && arr[3];
    match r.read() {
        Some((_, m, id)) => {
            assert!(da && id == Some(MessageId(0)) && m.len() == 3 && m[0] == a[0] && m[1] == a[1] && m[2] == a[2], "the first message is whole");
            match r.read() {
                Some((_, m, id)) => assert!(db && id == Some(MessageId(1)) && m.len() == 4 && m[0] == b[0] && m[1] == b[1] && m[2] == b[2] && m[3] == b[3], "the second message is whole"),
                None => assert!(!db, "the second message is delivered once complete"),
            }
        }
        None => assert!(!da, "the first message is delivered once complete"),
    }
    core::mem::forget(r);
    da && db
}
fn rel() -> ReliableSettings { ReliableSettings::default() }

harnesses! {
    [7] fn cut_reliable_3() { let c = pieces(ChannelMode::OrderedReliable(rel()), 3); reach!(c.len() == 2); core::mem::forget(c); }
    [7] fn cut_reliable_6() { let c = pieces(ChannelMode::UnorderedReliable(rel()), 6); reach!(c.len() == 3); core::mem::forget(c); }
    [7] fn cut_unreliable_5() { let c = pieces(ChannelMode::UnorderedUnreliable, 5); reach!(c.len() == 3); core::mem::forget(c); }
    [7] fn join_ordered_2() { let d = reassemble::<2, 3, 3>(ChannelMode::OrderedReliable(rel())); reach!(d); }
    [7] fn join_unreliable_3() { let d = reassemble::<3, 5, 4>(ChannelMode::SequencedUnreliable); reach!(d); }
    [7] fn join_sequenced_3() { let d = reassemble::<3, 6, 4>(ChannelMode::SequencedReliable(rel())); reach!(d); }
    [7] fn two_messages() { let d = two(4); reach!(d); }
}

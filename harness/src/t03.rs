//! T03: sequenced channels only move forward and expose the newest message.
use super::nd::*;
use super::tcommon::*;

fn run(mode: ChannelMode, k: usize) -> usize {
    let mut r = receive_new(&settings(mode));
    let base: u16 = any();
    let mut newest: Option<u16> = None; // offset of the newest message that arrived
    let mut newest_taken = false; // it was already delivered
    let mut fresh = false; // it is new since the last delivery
    let mut last: Option<u16> = None;
    let mut n = 0;
    for i in 0..k {
        let off: u16 = any();
        assume(off < 0x8000);
        let tag: u8 = i as u8;
        assert!(r.single(Some(MessageId(base) + MessageId(off)), Tick(off as u32), Bytes::copy_from_slice(&[tag])).is_ok());
        let newer = match newest { None => true, Some(m) => off > m };
        if newer { newest = Some(off); newest_taken = false; fresh = true; }
        let read: bool = any();
        if read {
            match r.read() {
                Some((t, b, Some(id))) => {
                    let o = (id - MessageId(base)) as u16;
                    assert!(Some(o) == newest, "what is delivered is the newest message that arrived");
                    assert!(t.0 == o as u32 && b.len() == 1);
                    // a repetition of the same message is allowed on neither reliable nor unreliable channels to go back
                    match last { Some(l) => assert!(o >= l, "delivery never goes back"), None => {} }
                    last = Some(o);
                    newest_taken = true;
                    fresh = false;
                    n += 1;
                }
                Some((_, _, None)) => assert!(false, "sequenced messages carry their id"),
                None => assert!(!fresh, "the newest message is available once it has arrived"),
            }
        }
    }
    let _ = newest_taken;
    core::mem::forget(r);
    n
}
/// Deliveries are strictly increasing: no message is delivered twice.
fn strict(mode: ChannelMode, k: usize) -> usize {
    let mut r = receive_new(&settings(mode));
    let base: u16 = any();
    let mut last: Option<u16> = None;
    let mut n = 0;
    for _ in 0..k {
        let off: u16 = any();
        assume(off < 0x8000);
        assert!(r.single(Some(MessageId(base) + MessageId(off)), Tick(0), b1(0)).is_ok());
        let read: bool = any();
        if read {
            if let Some((_, _, Some(id))) = r.read() {
                let o = (id - MessageId(base)) as u16;
                if let Some(l) = last { assert!(o > l, "each delivered message is newer than the previous one"); }
                last = Some(o);
                n += 1;
            }
        }
    }
    core::mem::forget(r);
    n
}
fn rel() -> ChannelMode { ChannelMode::SequencedReliable(ReliableSettings::default()) }

harnesses! {
    [6] fn unreliable_newest() { let n = run(ChannelMode::SequencedUnreliable, 4); reach!(n == 4); }
    [6] fn reliable_newest() { let n = run(rel(), 4); reach!(n == 4); }
    [6] fn unreliable_strict() { let n = strict(ChannelMode::SequencedUnreliable, 4); reach!(n == 4); }
    [6] fn reliable_strict() { let n = strict(rel(), 4); reach!(n == 4); }
}

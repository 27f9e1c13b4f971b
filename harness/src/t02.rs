//! T02: unordered reliable channels deliver every message exactly once.
use super::nd::*;
use super::tcommon::*;

const N: u16 = 3;
fn run(k: usize) -> u8 {
    let mut r = receive_new(&settings(ChannelMode::UnorderedReliable(ReliableSettings::default())));
    let mut arrived = [false; N as usize];
    let mut got = [false; N as usize];
    let mut n = 0;
    for _ in 0..k {
        let id = upto_u16(N - 1);
        arrived[id as usize] = true;
        assert!(r.single(Some(MessageId(id)), Tick(100 + id as u32), b1(id as u8)).is_ok());
        let read: bool = any();
        if read {
            let mut waiting = false;
            for j in 0..N as usize { waiting |= arrived[j] && !got[j]; }
            match r.read() {
                Some((t, b, Some(id))) => {
                    assert!(id.0 < N && arrived[id.0 as usize], "only messages that arrived are delivered");
                    assert!(!got[id.0 as usize], "no message is delivered twice");
                    assert!(t.0 == 100 + id.0 as u32 && first(&b) == id.0 as u8);
                    got[id.0 as usize] = true;
                    n += 1;
                }
                Some((_, _, None)) => assert!(false, "reliable messages carry their id"),
                None => assert!(!waiting, "an arrived message is available at once"),
            }
        }
    }
    for _ in 0..N {
        if let Some((t, b, Some(id))) = r.read() {
            assert!(id.0 < N && arrived[id.0 as usize] && !got[id.0 as usize]);
            assert!(t.0 == 100 + id.0 as u32 && first(&b) == id.0 as u8);
            got[id.0 as usize] = true;
            n += 1;
        }
    }
    for j in 0..N as usize { assert!(got[j] == arrived[j], "every arrived message is delivered"); }
    assert!(r.read().is_none());
    core::mem::forget(r);
    n
}
harnesses! {
    [5] fn unordered_3() {
        let n = run(3);
        reach!(n == 3);
    }
}

//! T01: ordered reliable channels deliver every message once, in sending order, no gaps.
use super::nd::*;
use super::tcommon::*;

const N: u16 = 5; // distinct messages in flight
fn rcv() -> Rcv { receive_new(&settings(ChannelMode::OrderedReliable(ReliableSettings::default()))) }

/// `k` arrivals of the messages 0..N (any order, any duplicates, any interleaving of reads).
fn run(k: usize) -> (u16, [bool; N as usize]) {
    let mut r = rcv();
    let mut next = 0u16;
    let mut arrived = [false; N as usize];
    for _ in 0..k {
        let id = upto_u16(N - 1);
        arrived[id as usize] = true;
        assert!(r.single(Some(MessageId(id)), Tick(100 + id as u32), b1(id as u8)).is_ok());
        let read: bool = any();
        if read {
            let have = next < N && arrived[next as usize];
            match r.read() {
                Some((t, b, Some(got))) => {
                    assert!(have, "a message is delivered only once and only when it has arrived");
                    assert!(got.0 == next, "delivery follows sending order without gaps");
                    assert!(t.0 == 100 + next as u32 && first(&b) == next as u8, "tick and bytes of that message");
                    next += 1;
                }
                Some((_, _, None)) => assert!(false, "ordered messages carry their id"),
                None => assert!(!have, "a message whose predecessors were delivered is available"),
            }
        }
    }
    // everything that arrived with all its predecessors can be drained
    let mut i = 0;
    while i < N {
        match r.read() {
            Some((t, b, Some(got))) => {
                assert!(next < N && arrived[next as usize] && got.0 == next);
                assert!(t.0 == 100 + next as u32 && first(&b) == next as u8);
                next += 1;
            }
            _ => { assert!(next == N || !arrived[next as usize]); break; }
        }
        i += 1;
    }
    core::mem::forget(r);
    (next, arrived)
}

harnesses! {
    [7] fn ordered_4() {
        let (n, _) = run(4);
        reach!(n == 4);
    }
}

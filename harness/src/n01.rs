//! N01: netcode replay protection.
use super::nd::*;
#[path = "/repo/crates/connection/netcode/src/replay.rs"]
mod replay;
use replay::ReplayProtection;

fn arrivals(k: usize, base: Option<u64>) {
    let mut r = ReplayProtection::new();
    let mut seen = [0u64; 8];
    let mut n = 0;
    let mut newest = None;
    let (mut late, mut dup, mut old) = (false, false, false);
    for _ in 0..k {
        let s = match base { Some(b) => b + (any::<u16>() & 0x1ff) as u64, None => any() };
        // marks empty slots
        assume(s != u64::MAX);
        let refused = r.is_already_received(s);
        let mut was = false;
        for i in 0..8 { if i < n { was |= seen[i] == s; } }
        let too_old = newest.is_some_and(|m: u64| m > s && m - s >= 256);
        if was { assert!(refused, "a number is accepted at most once"); dup = true; }
        if too_old { assert!(refused, "numbers older than the window are refused"); old = true; }
        if !was && !too_old { assert!(!refused, "a fresh number inside the window is accepted"); }
        if !refused {
            r.advance_sequence(s);
            seen[n] = s;
            n += 1;
            late |= newest.is_some_and(|m| m > s);
            newest = Some(newest.map_or(s, |m: u64| m.max(s)));
        }
    }
    reach!(late);
    reach!(dup);
    reach!(old);
}
harnesses! {
    [9] fn any_numbers() { arrivals(3, None) }
    [9] fn first_windows() { arrivals(4, Some(0)) }
    [9] fn late_windows() { arrivals(3, Some(u64::MAX - 511)) }
}

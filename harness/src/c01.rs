//! C01: serial (wrapping) sequence numbers of packets and messages.
use super::nd::*;
use lightyear_transport::packet::message::MessageId;
use lightyear_utils::wrapping_id::{WrappedId, wrapping_diff};

harnesses! {
    // Two ids `d` steps apart (d < half the space), wherever the first sits.
    [2] fn order_and_distance() {
        let a: u16 = any();
        let d: u16 = any();
        assume(d < 0x8000);
        let x = MessageId(a);
        let mut y = x;
        y += d;
        assert_eq!(y.0, a.wrapping_add(d));
        assert_eq!(y - x, d as i16);
        assert_eq!(x - y, (d as i16).wrapping_neg());
        assert_eq!(wrapping_diff(x.0, y.0), d as i16);
        assert_eq!(wrapping_diff(y.0, x.0), -(d as i16));
        assert_eq!(y - d, x);
        assert_eq!(x + MessageId(d), y);
        assert_eq!(x + d as i16, y);
        assert_eq!(y + -(d as i16), x);
        assert_eq!(x == y, d == 0);
        assert_eq!(x < y, d > 0);
        assert_eq!(y > x, d > 0);
        assert!(!(x > y) && !(y < x));
        assert!(x <= y && y >= x);
        reach!(d > 0 && y.0 < a);
    }
    // Within one window shorter than half the space the order is total and transitive.
    [2] fn total_in_window() {
        let base: u16 = any();
        let (i, j, k): (u16, u16, u16) = (any(), any(), any());
        assume(i < 0x8000 && j < 0x8000 && k < 0x8000);
        let (x, y, z) = (MessageId(base) + MessageId(i), MessageId(base) + MessageId(j), MessageId(base) + MessageId(k));
        assert_eq!(x.partial_cmp(&y), i.partial_cmp(&j));
        assert_eq!(y.partial_cmp(&z), j.partial_cmp(&k));
        assert_eq!(x.partial_cmp(&z), i.partial_cmp(&k));
        assert_eq!(y - x, (j as i32 - i as i32) as i16);
        if x < y && y < z { assert!(x < z); }
        reach!(x < y && y < z && z.0 < x.0);
    }
    // The order never says that two distinct ids are equal, and never says "newer" both ways
    // (except at exactly half the space, where the order is documented to be meaningless).
    [2] fn antisymmetric() {
        let (a, b): (u16, u16) = (any(), any());
        assume(a.wrapping_sub(b) != 0x8000);
        let (x, y) = (MessageId(a), MessageId(b));
        assert!(!(x < y && y < x));
        assert_eq!(x < y, y > x);
        assert_eq!(x == y, !(x < y) && !(x > y));
        reach!(x < y);
    }
    // A bounded ring indexed by the id sees consecutive ids in consecutive slots when its size
    // divides the id space.
    [2] fn ring_index() {
        let a: u16 = any();
        let p: u8 = any();
        assume(p <= 15);
        let n = 1usize << p;
        let x = MessageId(a);
        let mut y = x;
        y += 1;
        assert!(x.rem(n) < n);
        assert_eq!(y.rem(n), (x.rem(n) + 1) & (n - 1));
        reach!(a == u16::MAX);
    }
}

//! T05: malformed or contradictory fragments are refused and never crash or deliver garbage.
use super::nd::*;
use super::tcommon::*;

const F: usize = 2;
fn rcv() -> Rcv {
    let mut r = receive_new(&settings(ChannelMode::UnorderedUnreliable));
    r.set_fragment_size(F);
    r
}

harnesses! {
    // one fragment with any index, count and length
    [6] fn any_first_fragment() {
        let mut r = rcv();
        let (i, n): (u64, u64) = (any(), any());
        let d: [u8; 4] = any();
        let len = below(5);
        let ok = r.fragment(MessageId(7), i, n, Tick(3), Bytes::copy_from_slice(&d[..len])).is_ok();
        if n == 0 || i >= n { assert!(!ok, "an index outside the count is refused"); }
        else if i + 1 < n && len != F { assert!(!ok, "a short or long inner piece is refused"); }
        else if len > F { assert!(!ok, "an oversized last piece is refused"); }
        match r.read() {
            Some((t, b, id)) => {
                assert!(ok && n == 1 && i == 0 && id.is_none() && t.0 == 3, "only a complete message is delivered");
                assert!(b.len() == len);
                for k in 0..4 { if k < len { assert!(b[k] == d[k]); } }
                reach!(len == 1);
            }
            None => assert!(!(ok && n == 1), "a complete message is delivered"),
        }
        core::mem::forget(r);
    }
    // a message of two pieces is being received when an arbitrary fragment with the same id arrives
    [6] fn any_second_fragment() {
        let mut r = rcv();
        let a: [u8; 2] = any();
        assert!(r.fragment(MessageId(7), 0, 2, Tick(3), Bytes::copy_from_slice(&a)).is_ok());
        let (i, n): (u64, u64) = (any(), any());
        let d: [u8; 4] = any();
        let len = below(5);
        let ok = r.fragment(MessageId(7), i, n, Tick(4), Bytes::copy_from_slice(&d[..len])).is_ok();
        if n != 2 { assert!(!ok, "the number of pieces cannot change"); }
        if i >= n || len > F { assert!(!ok); }
        match r.read() {
            Some((_, b, _)) => {
                assert!(ok && n == 2 && i == 1, "only a complete message is delivered");
                assert!(b.len() == 2 + len && b[0] == a[0] && b[1] == a[1], "the first piece is intact");
                if len > 0 { assert!(b[2] == d[0]); }
                if len > 1 { assert!(b[3] == d[1]); }
                reach!(len == 2);
            }
            None => {}
        }
        // an intruder does not destroy the message in progress
        if !ok || (n == 2 && i == 0) {
            assert!(r.fragment(MessageId(7), 1, 2, Tick(5), Bytes::copy_from_slice(&[9])).is_ok());
            match r.read() {
                Some((_, b, _)) => assert!(b.len() == 3 && b[0] == a[0] && b[1] == a[1] && b[2] == 9, "the message in progress is intact"),
                None => assert!(false, "the message in progress completes"),
            }
        }
        core::mem::forget(r);
    }
}

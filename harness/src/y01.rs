//! Y01: round-trip samples.
use super::nd::*;
use bevy_time::{Real, Time};
use core::time::Duration;
use fixed::types::U32F32;
use lightyear_core::time::{Instant, PositiveTickDelta};
use lightyear_sync::verif_hooks::Pings;

const TICK: Duration = Duration::from_millis(16);
fn zero() -> Instant { unsafe { core::mem::zeroed() } }
/// Any time within the first second.
fn time() -> Instant { zero() + Duration::new(0, upto_u32(999_999_999)) }
fn clock() -> Time<Real> { Time::<Real>::new(zero()) }
/// Sends a ping at `t`.
fn send(p: &mut Pings, c: &mut Time<Real>, t: Instant) -> u16 {
    c.advance_by(Duration::from_millis(100));
    p.update(c);
    let id = p.ping(t);
    assert!(id.is_some(), "a ping goes out once the interval has passed");
    assert!(p.ping(t).is_none(), "and only once per interval");
    id.unwrap()
}
fn close(a: Duration, b: Duration) -> bool {
    // the first estimate is the sample itself; the real estimator goes through f64 seconds
    let slack = if cfg!(kani) { Duration::ZERO } else { Duration::from_nanos(2) };
    a <= b + slack && b <= a + slack
}

fn two_pings(first_new: bool) {
    let (mut p, mut c) = (Pings::new(Duration::from_millis(100)), clock());
    let s1 = time();
    let s2 = time();
    let a = send(&mut p, &mut c, s1);
    let b = send(&mut p, &mut c, s2);
    assert!(b == a.wrapping_add(1), "ping ids are consecutive");
    let t = time();
    let no = PositiveTickDelta::default();
    p.pong(if first_new { b } else { a }, no, t, TICK);
    assert!(p.samples() == 1);
    assert!(close(p.rtt(), t.saturating_duration_since(if first_new { s2 } else { s1 })), "a pong is matched with its own ping");
    p.pong(if first_new { a } else { b }, no, t, TICK);
    assert!(p.samples() == if first_new { 1 } else { 2 }, "an answer older than one already used is ignored");
    reach!(p.rtt() > Duration::ZERO);
    core::mem::forget(p);
}
/// The same empty buffer, without a loop of one iteration per slot in the encoding.
#[cfg(kani)]
fn empty<K: lightyear_utils::wrapping_id::WrappedId, T, const N: usize>() -> lightyear_utils::sequence_buffer::SequenceBuffer<K, T, N> {
    let a = [const { None::<T> }; N];
    unsafe { let r = core::mem::transmute_copy(&a); core::mem::forget(a); r }
}
/// The estimator (floating point, seconds) is not the subject: it keeps the last sample.
#[cfg(kani)]
fn keep(e: &mut lightyear_sync::ping::estimator::RttEstimatorEwma, sample: Duration) { e.final_stats.rtt = sample; }
harnesses! {
    // one ping, pongs with any ids: a sample is taken exactly for the first genuine pong
    #[cfg_attr(kani, kani::stub(std::time::Instant::now, zero))]
    #[cfg_attr(kani, kani::stub(lightyear_utils::sequence_buffer::SequenceBuffer::new, empty))]
    #[cfg_attr(kani, kani::stub(lightyear_sync::ping::estimator::RttEstimatorEwma::update_with_new_sample, keep))]
    [5] fn genuine() {
        let (mut p, mut c) = (Pings::new(Duration::from_millis(100)), clock());
        let sent = zero();
        let id = send(&mut p, &mut c, sent);
        let (x, y): (u16, u16) = (any(), any());
        // further ids are folded onto the slots of the store, so only what could have been sent lately
        assume(x.wrapping_sub(id) < 128 && y.wrapping_sub(id) < 128);
        let (t1, t2) = (time(), time());
        let no = PositiveTickDelta::default();
        p.pong(x, no, t1, TICK);
        let n1 = p.samples();
        assert!(n1 == (x == id) as u32, "a sample is taken only for a ping that was sent");
        if n1 == 1 { assert!(close(p.rtt(), t1.saturating_duration_since(sent)), "the sample is the time since the ping was sent"); }
        p.pong(y, no, t2, TICK);
        assert!(p.samples() == (x == id || y == id) as u32, "each ping gives at most one sample");
        reach!(x == id && y == id);
        reach!(x != id && y == id);
    }
    // two pings, both answered in either order: the older answer arriving late is ignored
    #[cfg_attr(kani, kani::stub(std::time::Instant::now, zero))]
    #[cfg_attr(kani, kani::stub(lightyear_utils::sequence_buffer::SequenceBuffer::new, empty))]
    #[cfg_attr(kani, kani::stub(lightyear_sync::ping::estimator::RttEstimatorEwma::update_with_new_sample, keep))]
    [5] fn newest_first() { two_pings(true) }
    #[cfg_attr(kani, kani::stub(std::time::Instant::now, zero))]
    #[cfg_attr(kani, kani::stub(lightyear_utils::sequence_buffer::SequenceBuffer::new, empty))]
    #[cfg_attr(kani, kani::stub(lightyear_sync::ping::estimator::RttEstimatorEwma::update_with_new_sample, keep))]
    [5] fn oldest_first() { two_pings(false) }
    // the time the peer took is subtracted, and the result is never negative
    #[cfg_attr(kani, kani::stub(std::time::Instant::now, zero))]
    #[cfg_attr(kani, kani::stub(lightyear_utils::sequence_buffer::SequenceBuffer::new, empty))]
    #[cfg_attr(kani, kani::stub(lightyear_sync::ping::estimator::RttEstimatorEwma::update_with_new_sample, keep))]
    [5] fn peer_time() {
        let (mut p, mut c) = (Pings::new(Duration::from_millis(100)), clock());
        let sent = time();
        let id = send(&mut p, &mut c, sent);
        let t = time();
        let k = upto_u32(200);
        let f: PositiveTickDelta = lightyear_core::time::TickDelta::from_i32(k as i32).into();
        p.pong(id, f, t, TICK);
        let spent = Duration::from_millis(16 * k as u64);
        let want = t.saturating_duration_since(sent).saturating_sub(spent);
        // whole ticks convert exactly up to the precision of the conversion
        let got = p.rtt();
        assert!(got <= want + Duration::from_micros(50) && want <= got + Duration::from_micros(50), "the peer's own delay is not counted");
        reach!(k > 3 && got > Duration::ZERO);
        reach!(k > 3 && got == Duration::ZERO);
    }
    // ids wrap: an answer counts exactly if it is newer than the newest one so far
    #[cfg_attr(kani, kani::stub(std::time::Instant::now, zero))]
    #[cfg_attr(kani, kani::stub(lightyear_utils::sequence_buffer::SequenceBuffer::new, empty))]
    #[cfg_attr(kani, kani::stub(lightyear_sync::ping::estimator::RttEstimatorEwma::update_with_new_sample, keep))]
    [5] fn wrapping_ids() {
        let (mut p, mut c) = (Pings::new(Duration::from_millis(100)), clock());
        let id = send(&mut p, &mut c, zero());
        let before: u16 = any();
        p.answered(before);
        p.pong(id, PositiveTickDelta::default(), zero() + Duration::from_millis(5), TICK);
        let ahead = id.wrapping_sub(before);
        if ahead != 0x8000 { assert!(p.samples() == (ahead != 0 && ahead < 0x8000) as u32, "newer answers count, also across the wrap of ids"); }
        reach!(before > 65000 && p.samples() == 1);
        reach!(p.samples() == 0);
        core::mem::forget(p);
    }
    // pings of the peer are each answered once, with the time they came
    #[cfg_attr(kani, kani::stub(std::time::Instant::now, zero))]
    #[cfg_attr(kani, kani::stub(lightyear_utils::sequence_buffer::SequenceBuffer::new, empty))]
    #[cfg_attr(kani, kani::stub(lightyear_sync::ping::estimator::RttEstimatorEwma::update_with_new_sample, keep))]
    [5] fn answers() {
        let mut p = Pings::new(Duration::from_millis(100));
        let (x, y): (u16, u16) = (any(), any());
        let (t1, t2) = (time(), time());
        p.got_ping(x, t1);
        p.got_ping(y, t2);
        let mut n = 0;
        p.answers(|id, t| {
            assert!(if n == 0 { id == x && t == t1 } else { id == y && t == t2 }, "each ping is answered with its id");
            n += 1;
        });
        assert!(n == 2, "every ping is answered");
        p.answers(|_, _| n += 1);
        assert!(n == 2, "and only once");
        reach!(x != y);
        core::mem::forget(p);
    }
    // nothing goes out before the interval has passed
    #[cfg_attr(kani, kani::stub(std::time::Instant::now, zero))]
    #[cfg_attr(kani, kani::stub(lightyear_utils::sequence_buffer::SequenceBuffer::new, empty))]
    #[cfg_attr(kani, kani::stub(lightyear_sync::ping::estimator::RttEstimatorEwma::update_with_new_sample, keep))]
    [5] fn interval() {
        let (mut p, mut c) = (Pings::new(Duration::from_millis(100)), clock());
        let (d, e) = (dur_upto_ms(300), dur_upto_ms(300));
        c.advance_by(d); p.update(&c);
        let a = p.ping(zero()).is_some();
        assert!(a == (d >= Duration::from_millis(100)));
        c.advance_by(e); p.update(&c);
        let b = p.ping(zero()).is_some();
        let since = if a { e } else { d + e };
        assert!(b == (since >= Duration::from_millis(100)), "pings go out at the configured interval");
        reach!(!a && b);
    }
}

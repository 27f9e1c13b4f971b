//! L01: links and the link conditioner.
use super::nd::*;
use bytes::{Bytes, BytesMut};
use core::time::Duration;
use lightyear_core::time::Instant;
use lightyear_link::{LinkMtu, LinkReceiver, LinkSender};
#[path = "/repo/crates/io/link/src/conditioner.rs"]
mod conditioner;
/// Randomness: any value of the range. A range without values has none to give, as in `rand`.
pub mod rand_any {
    use core::ops::Range;
    pub struct Any;
    pub fn rng() -> Any { Any }
    pub trait Draw: Sized { fn draw(r: Range<Self>) -> Self; }
    impl Draw for i32 {
        fn draw(r: Range<i32>) -> i32 { assert!(r.start < r.end, "cannot sample empty range"); let x: i32 = super::any(); super::assume(x >= r.start && x < r.end); x }
    }
    impl Draw for i64 {
        fn draw(r: Range<i64>) -> i64 { assert!(r.start < r.end, "cannot sample empty range"); let x: i64 = super::any(); super::assume(x >= r.start && x < r.end); x }
    }
    // a fraction of the range in steps of 2^-24, as `rand` draws them
    impl Draw for f32 {
        fn draw(r: Range<f32>) -> f32 { let u: u32 = super::any(); super::assume(u < 1 << 24); r.start + (r.end - r.start) * (u as f32 / 16_777_216.0) }
    }
    pub trait RngExt { fn random_range<T: Draw>(&mut self, r: Range<T>) -> T { T::draw(r) } }
    impl RngExt for Any {}
}
use conditioner::{LinkConditioner, LinkConditionerConfig};

fn zero() -> Instant { unsafe { core::mem::zeroed() } }
/// Any delay of up to 63.75 ms, in steps of 1/4 ms, and the whole milliseconds of it.
fn quarters() -> (Duration, i64) { let q: u8 = any(); (Duration::new(0, q as u32 * 250_000), (q / 4) as i64) }
/// A time, in ms after the start.
fn at_ms(m: u8) -> Instant { zero() + Duration::new(1, m as u32 * 1_000_000) }
fn config(latency: Duration, jitter: Duration) -> LinkConditionerConfig {
    LinkConditionerConfig::default().with_incoming_latency(latency).with_incoming_jitter(jitter)
}
/// The ideal link has no conditioner; without this, `rand`'s thread-local generator is in reach.
#[cfg(kani)]
fn conditioned<P: Eq>(_: &mut lightyear_link::LinkConditioner<P>, p: P, _: Instant) { core::mem::forget(p); assert!(false, "no conditioner"); }
harnesses! {
    // one packet, any delay and jitter: released within latency +- jitter of its arrival
    [5] fn delay() {
        let ((latency, lat), (jitter, jit)) = (quarters(), quarters());
        let mut l = LinkConditioner::new(config(latency, jitter));
        l.condition_packet(7u8, at_ms(50));
        let t: u8 = any();
        let out = l.pop_packet(at_ms(t));
        let since = t as i64 - 50;
        if out.is_some() { assert!(since >= 0 && since >= lat - jit, "no earlier than latency minus jitter"); }
        if since >= lat + jit { assert!(out == Some(7), "no later than latency plus jitter"); }
        reach!(out.is_some() && jit > lat);
        reach!(out.is_none() && t > 50);
        reach!(out.is_some() && jit == 0 && jitter > latency);
        assert!(out.is_none() || l.pop_packet(at_ms(255)).is_none(), "a packet comes out once");
        core::mem::forget(l);
    }
    // the same with a latency above one second
    [5] fn long_delay() {
        let ((l, lat), (jitter, jit)) = (quarters(), quarters());
        let mut l = LinkConditioner::new(config(Duration::new(1, l.subsec_nanos()), jitter));
        l.condition_packet(7u8, zero());
        let t: u8 = any();
        let out = l.pop_packet(if t < 100 { zero() + Duration::new(0, t as u32 * 10_000_000) } else if t < 200 { zero() + Duration::new(1, (t - 100) as u32 * 10_000_000) } else { zero() + Duration::new(2, (t - 200) as u32 * 10_000_000) });
        let since = t as i64 * 10;
        if out.is_some() { assert!(since >= 1000 + lat - jit, "no earlier than latency minus jitter"); }
        if since >= 1000 + lat + jit { assert!(out == Some(7), "no later than latency plus jitter"); }
        reach!(out.is_some());
        reach!(out.is_none() && t > 90);
        core::mem::forget(l);
    }
    // two packets at any arrival times, fixed delay: released in the order of arrival, both of them
    [5] fn order() {
        let (latency, lat) = quarters();
        let mut l = LinkConditioner::new(config(latency, Duration::ZERO));
        let a: [u8; 2] = [upto_u16(150) as u8, upto_u16(150) as u8];
        for i in 0..2 { l.condition_packet(i as u8, at_ms(a[i])); }
        let due = |i: usize| a[i] as i64 + lat;
        let t: u8 = any();
        let early = l.pop_packet(at_ms(t));
        match early {
            Some(x) => {
                assert!(due(x as usize) <= t as i64, "not before its delay");
                assert!(a[x as usize] <= a[1 - x as usize], "in order of release time");
                assert!(l.pop_packet(at_ms(255)) == Some(1 - x), "nothing is lost unless loss is configured");
                assert!(l.pop_packet(at_ms(255)).is_none(), "a packet comes out once");
            }
            None => assert!(due(0) > t as i64 && due(1) > t as i64, "a packet whose delay is over is released"),
        }
        reach!(early == Some(1));
        reach!(early.is_none() && t > a[0]);
        core::mem::forget(l);
    }
    // loss probabilities of 0 and 1 are exact in every state of the link
    [5] fn loss() {
        let (g, b): (bool, bool) = (any(), any());
        let mut c = LinkConditionerConfig::default();
        c.good_loss = if g { 1.0 } else { 0.0 };
        c.bad_loss = if b { 1.0 } else { 0.0 };
        let (gb, bg): (bool, bool) = (any(), any());
        c.good_to_bad = if gb { 1.0 } else { 0.0 };
        c.bad_to_good = if bg { 1.0 } else { 0.0 };
        let mut l = LinkConditioner::new(c);
        let mut good = true;
        let mut delivered = 0;
        for i in 0..3u8 {
            let lost = if good { g } else { b };
            l.condition_packet(i, zero());
            let out = l.pop_packet(zero());
            assert!(out == if lost { None } else { Some(i) }, "a packet is lost with the probability of the link's state");
            good = if good { !gb } else { bg };
            delivered += out.is_some() as u8;
        }
        reach!(delivered == 2 && !g);
        reach!(delivered == 1 && g);
        core::mem::forget(l);
    }
    [5] fn constant_loss() {
        let p = any::<u8>();
        assume(p <= 100);
        let c = LinkConditionerConfig::default().with_fixed_loss(p as f32 / 100.0);
        let mut l = LinkConditioner::new(c);
        l.condition_packet(1u8, zero());
        let out = l.pop_packet(zero());
        if p == 0 { assert!(out == Some(1), "nothing is lost unless loss is configured"); }
        if p == 100 { assert!(out.is_none(), "everything is lost when that is configured"); }
        reach!(p == 50 && out.is_some());
        reach!(p == 50 && out.is_none());
        core::mem::forget(l);
    }
    // half of a configuration, with which a round trip is built from two ends
    [5] fn half() {
        let c = config(quarters().0, quarters().0);
        let (lat, jit) = (c.incoming_latency, c.incoming_jitter);
        let h = c.half();
        let e = Duration::from_nanos(2);
        assert!(h.incoming_latency * 2 <= lat && h.incoming_latency * 2 + e >= lat, "half the latency");
        assert!(h.incoming_jitter * 2 <= jit && h.incoming_jitter * 2 + e >= jit, "half the jitter");
        reach!(jit > lat);
    }
    // the ideal link
    #[cfg_attr(kani, kani::stub(lightyear_link::LinkConditioner::condition_packet, conditioned))]
    [5] fn in_order() {
        let a: [u8; 3] = any();
        let mut r = LinkReceiver::default();
        let mut s = LinkSender::default();
        for i in 0..3 {
            if any() { r.push(BytesMut::from(Bytes::copy_from_slice(&a[i..i + 1])), zero()) } else { r.push_raw(BytesMut::from(Bytes::copy_from_slice(&a[i..i + 1]))) }
            s.push(Bytes::copy_from_slice(&a[i..i + 1]));
        }
        assert!(r.len() == 3 && s.len() == 3);
        for i in 0..3 {
            let (x, y) = (r.pop().unwrap(), s.pop().unwrap());
            assert!(x[0] == a[i] && y[0] == a[i] && x.len() == 1 && y.len() == 1, "packets come out as they went in");
            core::mem::forget((x, y));
        }
        assert!(r.pop().is_none() && s.pop().is_none(), "and only once");
        reach!(a[0] != a[1]);
        core::mem::forget((r, s));
    }
    [5] fn mtu() {
        let min: usize = any();
        let mut m = LinkMtu::new(min);
        assert!(m.mtu() == min && m.min_mtu() == min, "a link keeps its sizes");
        let mut now = min;
        for _ in 0..2 {
            let next: usize = any();
            let r = m.set_mtu(next);
            assert!(r.is_ok() == (next >= min), "a size below the minimum is refused");
            if r.is_ok() { now = next; }
            assert!(m.mtu() == now && m.min_mtu() == min, "and changes nothing");
            reach!(r.is_err() && now > min);
        }
    }
}

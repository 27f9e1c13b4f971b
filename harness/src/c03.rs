//! C03: tick instants, deltas and oversteps.
use super::nd::*;
use core::time::Duration;
use fixed::types::{I32F32, U0F16, U32F32};
use lightyear_core::tick::Tick;
use lightyear_core::time::{Overstep, PositiveTickDelta, TickDelta, TickInstant};
use lightyear_serde::ToBytes;

fn inst(b: u64) -> TickInstant { TickInstant { value: U32F32::from_bits(b) } }
fn delta(b: i64) -> TickDelta { TickDelta::new(I32F32::from_bits(b)) }
fn over(b: u16) -> Overstep { Overstep::new(U0F16::from_bits(b)) }
fn bits(t: TickInstant) -> u64 { t.value.to_bits() }
fn any_inst() -> TickInstant { inst(any()) }
fn any_delta() -> TickDelta { delta(any()) }

harnesses! {
    [4] fn instant_delta() {
        let (a, d) = (any_inst(), any_delta());
        assert!((a + d) - d == a, "adding and subtracting a delta returns the same instant");
        assert!((a - d) + d == a);
        assert!((a + d) - a == d, "the difference is what was added");
        let b = any_inst();
        assert!(b + (a - b) == a, "the difference added to the earlier instant gives the later one");
        let gap = bits(a).wrapping_sub(bits(b));
        if a >= b && gap < 1 << 63 {
            assert!(!(a - b).is_negative() && !(b - a).is_positive(), "the sign of a difference agrees with the order");
            assert!((a > b) == (a - b).is_positive());
            if gap != 0 { assert!(-(a - b) == b - a); }
        }
        reach!(a > b && (a - b).is_positive());
        reach!(d.is_negative());
    }
    [4] fn parts() {
        let a = any_inst();
        assert!(a.tick().0 == (bits(a) >> 32) as u32);
        assert!(a.overstep().value().to_bits() == (bits(a) >> 16) as u16, "the overstep is the fraction of the instant");
        let (t, o): (u32, u16) = (any(), any());
        let b = TickInstant::from_tick_and_overstep(Tick(t), over(o));
        assert!(b.tick() == Tick(t) && b.overstep().value().to_bits() == o, "tick and overstep are kept");
        let c = TickInstant::from(Tick(t));
        assert!(c.tick() == Tick(t) && c.overstep().value().to_bits() == 0 && c <= b);
        assert!(TickInstant::zero() <= a);
        reach!(o > 40000);
    }
    [4] fn delta_group() {
        let (d, e) = (any_delta(), any_delta());
        assert!((d + e) - e == d && (d - e) + e == d && d + e == e + d);
        let x: i64 = any();
        assume(x != i64::MIN);
        assert!(-(-delta(x)) == delta(x) && delta(x) + -delta(x) == TickDelta::zero());
        assert!(delta(x).is_negative() == (x < 0) && delta(x).is_positive() == (x > 0));
        let m = x.unsigned_abs();
        assert!(delta(x).tick_diff() == (m >> 32) as u32 && delta(x).overstep().value().to_bits() == (m >> 16) as u16);
        let i: i32 = any();
        assert!(TickDelta::from_i32(i) == TickDelta::from(i));
        assert!(TickDelta::from_i32(i).to_i32() == i, "whole ticks are kept");
        reach!(x < 0);
    }
    // rounding to whole ticks: nearest, halves away from zero
    [4] fn round_to_ticks() {
        let x: i64 = any();
        assume(x < (i32::MAX as i64) << 32 && x > (i32::MIN as i64) << 32);
        let r = delta(x).to_i32() as i64;
        let lo = x >> 32;
        let frac = (x & 0xffff_ffff) as u64;
        let want = if frac > 1 << 31 || (frac == 1 << 31 && x > 0) { lo + 1 } else { lo };
        assert!(r == want, "a delta is rounded to the nearest whole tick");
        reach!(x < 0 && frac > 1 << 31);
    }
    [4] fn delta_to_instant() {
        let x: i64 = any();
        assume(x >= 0);
        let i = TickInstant::from(delta(x));
        assert!(bits(i) == x as u64 && TickDelta::from(i) == delta(x));
        let p = PositiveTickDelta::from(delta(x));
        assert!(p.tick_diff() == (x >> 32) as u32 && p.overstep().value().to_bits() == (x >> 16) as u16 && TickDelta::from(p) == delta(x));
        reach!(x > 1 << 40);
    }
    [8] fn wire() {
        let u: u8 = any();
        assert!(Overstep::from_u8(u).to_u8() == u, "a quantised overstep survives the wire");
        let (a, b): (u16, u16) = (any(), any());
        let (x, y) = (over(a), over(b));
        if a <= b { assert!(x <= y && x.to_u8() <= y.to_u8(), "quantisation keeps the order"); }
        assert!((x < y) == (a < b));
        let q = Overstep::from_u8(x.to_u8()).value().to_bits();
        assert!(q <= a && a - q < 256, "the quantisation error is less than one step");
        let t: u32 = any();
        let p = PositiveTickDelta { value: U32F32::from_bits((t as u64) << 32 | (a as u64) << 16) };
        let mut out = [0u8; 8];
        let mut w = &mut out[..];
        let n0 = p.bytes_len();
        let ok = p.to_bytes(&mut w).is_ok();
        let n = 8 - w.len();
        assert!(ok && n == n0, "the announced length is the written length");
        let mut r = lightyear_serde::reader::Reader::from(bytes::Bytes::copy_from_slice(&out[..5]));
        match PositiveTickDelta::from_bytes(&mut r) {
            Ok(g) => assert!(g.tick_diff() == t && g.overstep().to_u8() == x.to_u8() && g.value <= p.value, "a positive delta survives the wire up to quantisation"),
            Err(_) => assert!(false, "what was written can be read"),
        }
        reach!(a < b); reach!(t > 5);
    }
    [4] fn overstep_saturates() {
        let (a, b): (u16, u16) = (any(), any());
        let (mut x, mut y) = (over(a), over(a));
        x += over(b);
        y -= over(b);
        assert!(x.value().to_bits() == a.saturating_add(b) && y.value().to_bits() == a.saturating_sub(b), "accumulated overstep stays within [0,1)");
        if (a as u32 + b as u32) < 65536 { assert!((over(a) + over(b)).value().to_bits() == a + b); }
        if a >= b { assert!((over(a) - over(b)).value().to_bits() == a - b); }
        reach!(a > 60000 && b > 60000);
    }
    // scaling by a fraction never enlarges a delta nor changes its direction
    [4] fn scale() {
        let x: i64 = any();
        let f: u8 = any();
        assume(x > -(1 << 44) && x < 1 << 44);
        let r = delta(x) * U0F16::from_bits((f as u16) << 8);
        let z = TickDelta::zero();
        assert!(!(r - z).is_positive() || x > 0);
        assert!(!(r - z).is_negative() || x < 0);
        assert!((r - delta(x)).is_positive() == false || x < 0, "scaling by a fraction does not enlarge");
        assert!((r - delta(x)).is_negative() == false || x > 0);
        reach!(x < 0 && f > 3);
    }
}

//! C02: simulation ticks and fixed-point tick instants.
use super::nd::*;
use lightyear_core::tick::{AtomicTick, Tick};
use lightyear_core::time::{Overstep, PositiveTickDelta, TickDelta, TickInstant};
use lightyear_serde::ToBytes;

fn i(x: i64) -> i64 { x }

harnesses! {
    [2] fn tick_arithmetic() {
        let (a, b): (u32, u32) = (any(), any());
        let s: i32 = any();
        let (x, y) = (Tick(a), Tick(b));
        let exact = |v: i64| v.clamp(0, u32::MAX as i64) as u32;
        assert_eq!((x + y).0, exact(a as i64 + b as i64));
        assert_eq!((x - b).0, exact(a as i64 - b as i64));
        assert_eq!((x + s).0, exact(a as i64 + s as i64));
        let mut z = x;
        z += b;
        assert_eq!(z.0, exact(a as i64 + b as i64));
        let d = (a as i64 - b as i64).clamp(i32::MIN as i64, i32::MAX as i64);
        assert_eq!((x - y) as i64, d);
        assert_eq!(x < y, a < b);
        assert_eq!(x == y, a == b);
        assert_eq!((x - y) > 0, x > y);
        assert_eq!(x.cmp(&y), a.cmp(&b));
        // advancing never goes back, and a difference that did not saturate is exact
        if (a as i64 - b as i64).abs() < i32::MAX as i64 { assert_eq!(y + (x - y), x); }
        reach!(a == u32::MAX && s > 0);
    }
    [3] fn atomic_tick_keeps_minimum() {
        let (a, b, c): (u32, u32, u32) = (any(), any(), any());
        let t = AtomicTick::from(a);
        t.set_if_lower(Tick(b));
        t.set_if_lower(Tick(c));
        assert_eq!(t.get().0, a.min(b).min(c));
        let m = AtomicTick::new_max();
        m.set_if_lower(Tick(b));
        assert_eq!(m.get(), Tick(b));
        reach!(c < b && b < a);
    }
}

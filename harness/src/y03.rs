//! Y03: speed adjustment. Y04: the prediction window.
use super::nd::*;
use lightyear_sync::timeline::input::{InputDelayConfig, InputTimelineConfig, LocalTimelineSync};
use lightyear_sync::timeline::sync::{SyncAdjustment, SyncConfig, TimelineSync};

fn f32_any() -> f32 { f32::from_bits(any()) }
fn between(lo: f32, hi: f32) -> f32 { let x = f32_any(); assume(x >= lo && x <= hi); x }
/// A multiple of 1/8.
fn of(lo: u16, hi: u16) -> f32 { let x = upto_u16(hi); assume(x >= lo); x as f32 / 8.0 }
fn config(c: SyncConfig) -> InputTimelineConfig { InputTimelineConfig::new(c, InputDelayConfig::no_input_delay()) }

/// `n` consecutive samples of the distance to the objective (positive: ahead).
fn samples(c: SyncConfig, n: usize, bound: f32) -> [bool; 3] {
    let cfg = config(c);
    let mut s = LocalTimelineSync::default();
    let fastest = 1.0 + 2.0 * (c.speedup_factor - 1.0);
    let mut run = 0u8;
    let mut sign = None;
    let mut seen = [false; 3];
    for _ in 0..n {
        let x = between(-bound, bound);
        let before = s.relative_speed();
        let a = s.speed_adjustment(&cfg, x);
        let after = s.relative_speed();
        // consecutive errors of the same direction, this one included
        let off = x.abs() > c.error_margin;
        let positive = x.is_sign_positive();
        run = if off && x.abs() <= c.max_error_margin { if sign == Some(positive) { run + 1 } else { 1 } } else { 0 };
        sign = Some(positive);
        match a {
            SyncAdjustment::Resync => {
                assert!(x.abs() > c.max_error_margin, "a resynchronisation only beyond the configured error");
                assert!(after == before);
                seen[0] = true;
            }
            SyncAdjustment::SpeedAdjust(r) => {
                assert!(off && x.abs() <= c.max_error_margin, "the speed is changed only outside the tolerance");
                assert!(after == r, "the chosen speed is applied");
                if x > 0.0 { assert!(r < 1.0 && r * fastest > 0.9999, "slower when ahead, within the configured factor"); }
                else { assert!(r > 1.0 && r <= fastest * 1.0001, "faster when behind, within the configured factor"); }
                seen[1] |= x > 0.0;
                seen[2] |= x < 0.0;
            }
            SyncAdjustment::DoNothing => {
                assert!(x.abs() <= c.max_error_margin, "beyond the configured error there is a resynchronisation");
                assert!((after - 1.0).abs() <= (before - 1.0).abs(), "without correction the speed returns to normal");
                // (a change of direction only sets the new direction)
                assert!(run < 2 || run < c.consecutive_errors_threshold, "a lasting error is corrected");
            }
        }
    }
    seen
}
harnesses! {
    [5] fn default_config() {
        let s = samples(SyncConfig { consecutive_errors_threshold: 1, ..SyncConfig::default() }, 3, 1.0e6);
        reach!(s[0] && s[1]);
        reach!(s[2] && !s[0]);
        reach!(s[1] && !s[0]);
    }
    [5] fn thresholds() {
        let s = samples(SyncConfig::default(), 4, 20.0);
        reach!(s[1]);
        reach!(s[2]);
    }
    [5] fn configs() {
        let c = SyncConfig { error_margin: of(1, 64), max_error_margin: of(1, 512), speedup_factor: 1.0 + of(1, 32) / 8.0, consecutive_errors_threshold: 1, ..SyncConfig::default() };
        assume(c.error_margin <= c.max_error_margin);
        let s = samples(c, 2, 1.0e4);
        reach!(s[0]);
    }
}

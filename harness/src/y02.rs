//! Y02: input delay.
use super::nd::*;
use core::time::Duration;
use lightyear_link::LinkStats;
use lightyear_sync::timeline::input::InputDelayConfig;
use lightyear_sync::timeline::sync::SyncConfig;
use lightyear_sync::verif_hooks::input_delay;

/// The sum of both delays and the ticks they cover, against exact integer arithmetic.
fn check(tick_ns: u64, max_ms: u64, ticks: u16) {
    let tick = Duration::from_nanos(tick_ns);
    let (rtt, jitter) = (dur_upto_ms(max_ms), Duration::from_millis(upto_u32(100) as u64));
    let sync = SyncConfig { jitter_multiple: any::<u8>() & 7, ..SyncConfig::default() };
    let c = InputDelayConfig { minimum_input_delay_ticks: any(), maximum_input_delay_before_prediction: any(), maximum_predicted_ticks: any() };
    assume(c.minimum_input_delay_ticks <= c.maximum_input_delay_before_prediction);
    assume(ticks == u16::MAX || c.maximum_predicted_ticks <= ticks && c.maximum_input_delay_before_prediction <= ticks);
    let d = input_delay(&c, LinkStats { rtt, jitter }, &sync, tick);
    let (min, max, pred) = (c.minimum_input_delay_ticks as u64, c.maximum_input_delay_before_prediction as u64, c.maximum_predicted_ticks as u64);
    let r = d as u64;
    // the time to cover; lock-step adds two ticks
    let total = rtt + jitter * sync.jitter_multiple as u32 + tick;
    let ns = total.as_secs() * 1_000_000_000 + total.subsec_nanos() as u64 + if pred == 0 { 2 * tick_ns } else { 0 };
    // f32 rounding of the real code
    let e = 1000;
    assert!(r >= min, "the delay is at least the configured minimum");
    assert!((r + pred) * tick_ns + e >= ns, "what prediction may not cover is covered by input delay");
    if r > min { assert!((r - 1) * tick_ns < ns + e, "no more delay than the round trip needs"); }
    if r > max { assert!((r + pred - 1) * tick_ns < ns + e, "the configured maximum is exceeded only as far as prediction cannot cover"); }
    if (max + 1) * tick_ns + e < ns { assert!(r >= max, "prediction starts only once the configured delay is used up"); }
    reach!(r > max);
    reach!(r == max && r > min && pred > 0);
    reach!(r == min && r > 0);
}
harnesses! {
    [4] fn small_configs() { check(15_625_000, 2000, 200) }
    [4] fn any_config() { check(15_625_000, 2000, u16::MAX) }
}

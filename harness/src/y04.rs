//! Y04: the prediction window of a lock-step or limited-prediction session.
use super::nd::*;
use lightyear_core::tick::Tick;
use lightyear_sync::timeline::input::PredictionWindowWait;

harnesses! {
    // any history of confirmations and ticks: waiting starts at the limit and ends with headroom
    [5] fn window() {
        let mut max: u16 = any();
        let origin = upto_u32(1 << 30);
        let mut w = PredictionWindowWait::default();
        let mut now = origin;
        let mut confirmed: Option<u32> = None;
        let mut waiting = false;
        let mut resumed = false;
        for step in 0..4 {
            if any() { max = any(); }
            // the local tick advances by at most one per update, and only while not waiting
            if step > 0 && !waiting && any() { now += upto_u32(70000); }
            if any() {
                let c: u32 = any();
                assume(c <= now + 100_000 && confirmed.is_none_or(|x| c >= x) && c >= origin);
                confirmed = Some(c);
            }
            let changed = w.update(Tick(now), confirmed.map(Tick), max);
            let depth = now as i64 - confirmed.unwrap_or(origin) as i64;
            let is = w.is_waiting();
            assert!(changed == (is != waiting), "a change is reported exactly when it happens");
            assert!(w.prediction_depth() as i64 == depth && w.confirmed_tick() == confirmed.map(Tick), "the depth is what runs ahead of the confirmed tick");
            assert!(w.maximum_predicted_ticks() == max);
            if !is && !(confirmed.is_none() && now == origin) { assert!(depth < max as i64 || depth <= 0, "without waiting the depth stays below the limit"); }
            if is { assert!(depth > 0 || max == 0, "with nothing unconfirmed nothing waits"); }
            if waiting && !is { resumed = true; assert!(depth <= (max as i64 - 2).max(0), "waiting ends with headroom"); }
            if waiting && depth <= (max as i64 - 2).max(0) { assert!(!is, "waiting ends once there is headroom"); }
            if !waiting && depth >= max as i64 && !(confirmed.is_none() && now == origin) { assert!(is, "waiting starts at the limit"); }
            waiting = is;
        }
        reach!(resumed);
        w.reset();
        assert!(!w.is_waiting());
    }
}

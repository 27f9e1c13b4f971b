use core::time::Duration;
use crate::prelude::PacketNackSettings;
use lightyear_link::LinkStats;
pub fn nack_timeout(s: PacketNackSettings, stats: &LinkStats) -> Duration {
    s.timeout(stats)
}
pub fn resend_delay(s: &crate::prelude::ReliableSettings, rtt: Duration) -> Duration {
    s.resend_delay(rtt)
}

pub fn input_delay(c: &super::InputDelayConfig, stats: lightyear_link::LinkStats, sync: &super::SyncConfig, tick: core::time::Duration) -> u16 {
    c.input_delay_ticks(stats, sync, tick)
}

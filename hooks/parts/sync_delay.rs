pub fn input_delay(c: &crate::timeline::input::InputDelayConfig, stats: lightyear_link::LinkStats, sync: &crate::timeline::sync::SyncConfig, tick: core::time::Duration) -> u16 {
    crate::timeline::input::verif_hooks::input_delay(c, stats, sync, tick)
}

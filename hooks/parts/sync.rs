use crate::ping::manager::{PingConfig, PingManager};
use crate::ping::message::{Ping, Pong};
use crate::ping::store::PingId;
use bevy_time::{Real, Time};
use core::time::Duration;
use lightyear_core::time::{Instant, PositiveTickDelta};
pub struct Pings(PingManager);
impl Pings {
    pub fn new(interval: Duration) -> Self { Self(PingManager::new(PingConfig { ping_interval: interval })) }
    pub fn update(&mut self, t: &Time<Real>) { self.0.update(t) }
    pub fn ping(&mut self, now: Instant) -> Option<u16> { self.0.maybe_prepare_ping(now).map(|p| p.id.0) }
    pub fn pong(&mut self, id: u16, frame_time: PositiveTickDelta, now: Instant, tick: Duration) {
        self.0.process_pong(&Pong { ping_id: PingId(id), frame_time }, now, tick)
    }
    pub fn got_ping(&mut self, id: u16, now: Instant) { self.0.buffer_pending_pong(&Ping { id: PingId(id) }, now) }
    pub fn answers(&mut self, mut f: impl FnMut(u16, Instant)) { for (p, t) in self.0.drain_pending_pongs() { f(p.ping_id.0, t) } }
    pub fn samples(&self) -> u32 { self.0.latency_samples_recv() }
    pub fn rtt(&self) -> Duration { self.0.rtt() }
    /// As if the newest answer so far had been for this ping.
    pub fn answered(&mut self, id: u16) { crate::ping::manager::verif_hooks::answered(&mut self.0, id) }
    pub fn reset(&mut self) { self.0.reset() }
}

use super::{Ch, cand::*};
use alloc::vec::Vec;
use bytes::Bytes;
use lightyear_core::tick::Tick;
use core::time::Duration;
use crate::channel::builder::ChannelSettings;
use crate::channel::registry::ChannelKind;
use crate::channel::send::{ChannelSend, SendFlushOutcome};
use crate::packet::compression::{CompressionConfig, CompressionScratch};
use crate::packet::message::*;
use bevy_time::{Real, Time};
use bevy_utils::prelude::DebugName;
use lightyear_link::LinkStats;
pub struct Snd {
    pub s: ChannelSend,
    scratch: CompressionScratch,
}
pub fn send_new(settings: &ChannelSettings, channel_id: u16, fragment_size: usize) -> Snd {
    Snd {
        s: ChannelSend::new(ChannelKind::of::<Ch>(), channel_id, DebugName::type_name::<Ch>(), settings, fragment_size),
        scratch: CompressionScratch::default(),
    }
}
impl Snd {
    pub fn buffer(&mut self, b: Bytes, priority: f32) -> Option<MessageId> {
        self.s.buffer_send_with_scratch(b, priority, CompressionConfig::DISABLED, &mut self.scratch)
    }
    pub fn start_at(&mut self, id: MessageId) {
        self.s.verif_start_at(id)
    }
    pub fn update(&mut self, t: &Time<Real>, stats: &LinkStats) {
        self.s.update(t, stats)
    }
    pub fn candidates(&mut self) -> Vec<Cand> {
        let mut v = Vec::new();
        self.s.collect_send_candidates(&mut v);
        v.into_iter().map(Cand).collect()
    }
    pub fn commit(&mut self, c: &Cand, at: Duration) {
        self.s.commit_send(c.0.key, at)
    }
    pub fn commit_key(&mut self, k: Key, at: Duration) {
        self.s.commit_send(k.0, at)
    }
    /// 0: everything was sent, 1: bandwidth limited, 2: staging failed
    pub fn finish(&mut self, outcome: u8) {
        self.s.finish_send(match outcome {
            0 => SendFlushOutcome::Complete,
            1 => SendFlushOutcome::BandwidthLimited,
            _ => SendFlushOutcome::StagingFailed,
        })
    }
    pub fn ack(&mut self, id: MessageId, fragment: Option<u64>) -> bool {
        self.s.receive_ack(&MessageAck { message_id: id, fragment_id: fragment.map(FragmentIndex) })
    }
    pub fn nack(&mut self, id: MessageId, fragment: Option<u64>) {
        self.s.receive_nack(&MessageAck { message_id: id, fragment_id: fragment.map(FragmentIndex) })
    }
    pub fn watches_acks(&self) -> bool {
        self.s.watches_acks()
    }
}

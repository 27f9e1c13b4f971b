use super::{cand::*, rcv::*};
use lightyear_core::tick::Tick;
use crate::channel::receive::ChannelReceiveError;
impl Rcv {
    pub fn deliver(&mut self, c: &Cand, tick: Tick) -> Result<(), ChannelReceiveError> {
        self.data(c.0.message.data.clone(), tick)
    }
}

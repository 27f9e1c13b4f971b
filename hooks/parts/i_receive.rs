use super::*;
impl ChannelReceive {
    /// The channel as it is after every message before `id` was received and read.
    pub(crate) fn verif_start_at(&mut self, id: MessageId) {
        match &mut self.state {
            RecvState::ReliableUnordered { pending, .. } | RecvState::ReliableOrdered { pending, .. } => *pending = id,
            _ => {}
        }
    }
}

use super::*;
impl ChannelSend {
    /// The channel as it is after the messages before `id` were sent and settled.
    pub(crate) fn verif_start_at(&mut self, id: MessageId) {
        match &mut self.state {
            SendState::Unreliable(s) => s.next_message_id = id,
            SendState::Reliable(s) => s.verif_start_at(id),
        }
    }
}

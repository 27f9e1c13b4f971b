use super::*;
impl ReliableSendState {
    pub(crate) fn verif_start_at(&mut self, id: MessageId) {
        self.next_message_id = id;
    }
    pub(crate) fn verif_pending(&self) -> usize {
        self.pending.len()
    }
}

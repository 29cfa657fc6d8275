use super::*;
pub struct Fa(FragmentAckReceiver);
impl Fa {
    pub fn new() -> Self { Fa(FragmentAckReceiver::new()) }
    pub fn add(&mut self, id: u16, n: usize) { self.0.add_new_fragment_to_wait_for(MessageId(id), n) }
    pub fn discard(&mut self, id: u16) { self.0.discard_message(MessageId(id)) }
    pub fn ack(&mut self, id: u16, i: u64, now: Option<Duration>) -> bool { self.0.receive_fragment_ack(MessageId(id), FragmentIndex(i), now) }
    pub fn cleanup(&mut self, t: Duration) { self.0.cleanup(t) }
    pub fn waiting(&self, id: u16) -> bool { self.0.fragment_messages.contains_key(&MessageId(id)) }
}

// Access to the sending half of a channel.
use super::*;
extern crate alloc as al;
pub struct TestCh;
/// what a candidate carries: (send order, priority, message id, Some((fragment index, count)), bytes)
pub type C = (u64, f32, Option<u16>, Option<(u64, u64)>, Bytes);
pub struct Sc { s: ChannelSend, cands: Vec<SendCandidate> }
impl Sc {
    pub fn new(settings: &ChannelSettings, fragment_size: usize) -> Self {
        Sc { s: ChannelSend::new(ChannelKind::of::<TestCh>(), 0, DebugName::type_name::<TestCh>(), settings, fragment_size), cands: Vec::new() }
    }
    pub fn update(&mut self, t: &Time<Real>, rtt: Duration) { self.s.update(t, &LinkStats { rtt, jitter: Duration::ZERO }); self.s.clear_frame_events(); }
    pub fn send(&mut self, b: Bytes, priority: f32) -> Option<u16> {
        self.s.buffer_send_with_scratch(b, priority, CompressionConfig::DISABLED, &mut CompressionScratch::default()).map(|m| m.0)
    }
    pub fn collect(&mut self) -> Vec<C> {
        self.cands.clear();
        self.s.collect_send_candidates(&mut self.cands);
        self.cands.iter().map(|c| {
            let (id, f, b) = match &c.message.data {
                MessageData::Single(s) => (s.id.map(|m| m.0), None, s.bytes.clone()),
                MessageData::Fragment(f) => (Some(f.message_id.0), Some((f.fragment_id.0, f.num_fragments.0)), f.bytes.clone()),
            };
            (c.send_order, c.message.priority, id, f, b)
        }).collect()
    }
    pub fn commit(&mut self, i: usize, now: Duration) { let k = self.cands[i].key; self.s.commit_send(k, now) }
    /// 0 complete, 1 bandwidth limited, 2 staging failed
    pub fn finish(&mut self, o: u8) {
        self.s.finish_send(match o { 0 => SendFlushOutcome::Complete, 1 => SendFlushOutcome::BandwidthLimited, _ => SendFlushOutcome::StagingFailed })
    }
    pub fn ack(&mut self, id: u16, f: Option<u64>) -> bool {
        self.s.receive_ack(&MessageAck { message_id: MessageId(id), fragment_id: f.map(crate::packet::message::FragmentIndex) })
    }
    pub fn nack(&mut self, id: u16, f: Option<u64>) {
        self.s.receive_nack(&MessageAck { message_id: MessageId(id), fragment_id: f.map(crate::packet::message::FragmentIndex) })
    }
    pub fn watches(&self) -> bool { self.s.watches_acks() }
}
/// what a transport still remembers of packets and messages it sent: (packets with messages, every fragment ack tracker is empty)
pub fn residue(t: &mut crate::channel::builder::Transport) -> (usize, bool) {
    let n = (0..=u16::MAX).filter(|i| t.packet_message_acks.take(&crate::packet::packet::PacketId(*i)).is_some()).count();
    let empty = t.senders.values().all(|c| match &c.state { SendState::Unreliable(u) => u.fragment_acks.as_ref().is_none_or(|f| *f == FragmentAckReceiver::new()), _ => true });
    (n, empty)
}

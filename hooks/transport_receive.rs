// Access to the receiving half of a channel.
use super::*;
pub struct Rc(ChannelReceive);
pub struct TestCh;
impl Rc {
    pub fn new(mode: ChannelMode) -> Self {
        Rc(ChannelReceive::new(ChannelKind::of::<TestCh>(), &ChannelSettings { mode, ..ChannelSettings::default() }))
    }
    pub fn fragment_size(&mut self, n: usize) { self.0.set_fragment_size(n) }
    pub fn update(&mut self, now: Duration) { self.0.update(now) }
    /// start the channel at an arbitrary point of the wrapping id space
    pub fn start(&mut self, id: u16) {
        match &mut self.0.state {
            RecvState::ReliableUnordered { pending, .. } | RecvState::ReliableOrdered { pending, .. } => *pending = MessageId(id),
            _ => {}
        }
    }
    pub fn single(&mut self, id: Option<u16>, tick: u32, bytes: Bytes) -> bool {
        let r = self.0.buffer_recv(ReceiveMessage {
            data: crate::packet::message::SingleData::new(id.map(MessageId), bytes).into(),
            remote_sent_tick: Tick(tick),
            compression: crate::packet::compression::CompressionConfig::DISABLED,
        });
        r.is_ok()
    }
    pub fn fragment(&mut self, f: &crate::packet::message::verif::F, tick: u32) -> bool {
        let r = self.0.buffer_recv(ReceiveMessage {
            data: crate::packet::message::verif::mkf(f).into(),
            remote_sent_tick: Tick(tick),
            compression: crate::packet::compression::CompressionConfig::DISABLED,
        });
        r.is_ok()
    }
    pub fn read(&mut self) -> Option<(u32, Bytes, Option<u16>)> { self.0.read_message().map(|(t, b, i)| (t.0, b, i.map(|m| m.0))) }
}

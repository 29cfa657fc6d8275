// Access to packet staging: candidates in, packets out.
use super::*;
extern crate alloc as al;
use crate::packet::message::{SendMessageKey, SendMessage, SingleData, MessageId, FragmentIndex};
use crate::channel::registry::ChannelKind;
pub struct TestCh;
/// (channel id, message id, Some((index, count)), priority, send order, bytes)
pub type In = (u16, Option<u16>, Option<(u64, u64)>, f32, u64, Bytes);
pub struct Pb { b: PacketBuilder, m: crate::packet::priority_manager::PriorityManager }
impl Pb {
    pub fn new() -> Self { Pb { b: PacketBuilder::default(), m: Default::default() } }
    pub fn header(&mut self) -> &mut crate::packet::header::PacketHeaderManager { &mut self.b.header_manager }
    pub fn set_priority(&mut self, c: crate::packet::priority_manager::PriorityConfig) { self.m = crate::packet::priority_manager::PriorityManager::new(c) }
    /// loads the candidates in the given order; returns the index in `cands` of each after prioritisation
    pub fn load(&mut self, cands: &[In], registry: Option<&crate::channel::registry::ChannelRegistry>) -> Vec<usize> {
        let v = self.m.candidates_mut();
        v.clear();
        for (i, c) in cands.iter().enumerate() {
            let kind = ChannelKind::of::<TestCh>();
            let (key, data): (_, MessageData) = match c.2 {
                None => (SendMessageKey::UnreliableSingle(i), SingleData::new(c.1.map(MessageId), c.5.clone()).into()),
                Some((ix, n)) => (SendMessageKey::UnreliableFragment(i),
                    crate::packet::message::verif::mkf(&(c.1.unwrap_or(0), ix, n, (ix == 0).then_some(0), c.5.clone())).into()),
            };
            let mut sc = SendCandidate::new(kind, c.0, key, SendMessage { data, priority: c.3 });
            sc.send_order = c.4;
            v.push(sc);
        }
        let _ = FragmentIndex(0);
        if let Some(r) = registry { self.m.prioritize(r); }
        self.order()
    }
    fn order(&self) -> Vec<usize> {
        self.m.candidates().iter().map(|c| match c.key { SendMessageKey::UnreliableSingle(i) | SendMessageKey::UnreliableFragment(i) => i, _ => usize::MAX }).collect()
    }
    pub fn effective(&self) -> Vec<f32> { self.m.candidates().iter().map(|c| c.effective_priority).collect() }
    /// stage packets until exhausted or error; each is (payload, packet id, metadata: (channel, message id, fragment, candidate index))
    pub fn stage(&mut self, tick: u32, mtu: usize) -> (Vec<(al::vec::Vec<u8>, u16, Vec<(u16, Option<u16>, Option<u64>, usize)>)>, bool) {
        let mut out = Vec::new();
        self.b.begin_send(mtu);
        let mut cur = CandidateCursor::default();
        let mut scratch = CompressionScratch::default();
        loop {
            match self.b.build_next_packet(Tick(tick), self.m.candidates(), &mut cur, CompressionConfig::DISABLED, mtu, &mut scratch) {
                Ok(None) => return (out, true),
                Err(_) => return (out, false),
                Ok(Some(mut p)) => {
                    let id = p.packet_id;
                    let payload = self.b.take_send_payload(&mut p);
                    let meta = p.messages.iter().map(|m| (m.channel, m.message.map(|x| x.0), m.fragment_index.map(|f| f.0),
                        match m.commit.key { SendMessageKey::UnreliableSingle(i) | SendMessageKey::UnreliableFragment(i) => i, _ => usize::MAX })).collect();
                    self.b.header_manager.commit_send_packet(id, core::time::Duration::ZERO);
                    out.push((payload.to_vec(), id.0, meta));
                    self.b.recycle_message_metadata_list(core::mem::take(&mut p.messages));
                }
            }
        }
    }
}

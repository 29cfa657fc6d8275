// Access to the packet header codec and the acknowledgement bookkeeping.
use super::*;
extern crate alloc as al;
use al::vec::Vec as V;

/// (type, packet id, last acked id, bitfield, tick)
pub type H = (u8, u16, u16, u32, u32);
fn mk(h: H) -> Option<PacketHeader> {
    let packet_type = match PacketType::try_from(h.0) { Ok(t) => t, Err(e) => { core::mem::forget(e); return None } };
    Some(PacketHeader { packet_type, packet_id: PacketId(h.1), last_ack_packet_id: PacketId(h.2), ack_bitfield: h.3, tick: Tick(h.4) })
}
fn un(h: &PacketHeader) -> H { (h.packet_type as u8, h.packet_id.0, h.last_ack_packet_id.0, h.ack_bitfield, h.tick.0) }
pub const BYTES: usize = PacketHeader::BYTES;
pub fn encode<W: WriteInteger>(h: H, w: &mut W) -> Option<usize> {
    let h = mk(h)?;
    match h.to_bytes(w) { Ok(()) => Some(h.bytes_len()), Err(e) => { core::mem::forget(e); None } }
}
pub fn decode(r: &mut Reader) -> Option<H> {
    match PacketHeader::from_bytes(r) { Ok(h) => Some(un(&h)), Err(e) => { core::mem::forget(e); None } }
}
pub fn valid_type(t: u8) -> bool { match PacketType::try_from(t) { Ok(_) => true, Err(e) => { core::mem::forget(e); false } } }
pub fn eliciting(t: u8) -> bool { PacketType::try_from(t).is_ok_and(|t| t.is_ack_eliciting()) }

pub struct Rb(ReceiveBuffer);
impl Rb {
    pub fn new() -> Self { Rb(ReceiveBuffer::new()) }
    /// a receive buffer in an arbitrary state: bit i of `bits` is the id `last - 1 - i`
    pub fn with(last: Option<u16>, bits: u32) -> Self {
        let mut b = ReceiveBuffer::new();
        b.last_recv_packet_id = last.map(PacketId);
        let mut i = 32;
        while i > 0 {
            i -= 1;
            b.buffer.enqueue(bits & (1 << i) != 0);
        }
        Rb(b)
    }
    pub fn recv(&mut self, id: u16) { self.0.recv_packet(PacketId(id)) }
    pub fn last(&self) -> Option<u16> { self.0.last_recv_packet_id.map(|p| p.0) }
    pub fn bits(&self) -> u32 { self.0.get_bitfield() }
}

pub struct Hm(pub(crate) PacketHeaderManager);
impl Hm {
    pub fn new(s: PacketNackSettings) -> Self { Hm(PacketHeaderManager::with_nack_settings(s)) }
    pub fn set_next(&mut self, id: u16) { self.0.next_packet_id = PacketId(id) }
    pub fn next(&self) -> u16 { self.0.next_packet_id.0 }
    pub fn set_recv(&mut self, last: Option<u16>, bits: u32) { self.0.recv_buffer = Rb::with(last, bits).0 }
    pub fn preview(&self, t: u8, tick: u32) -> H { un(&self.0.preview_send_packet_header(PacketType::try_from(t).unwrap(), Tick(tick))) }
    pub fn commit(&mut self, id: u16, real: Duration) { self.0.commit_send_packet(PacketId(id), real) }
    pub fn commit_ack_only(&mut self, id: u16) { self.0.commit_send_ack_only(PacketId(id)) }
    pub fn recv(&mut self, h: H, real: Duration) -> V<(u16, Duration)> {
        self.0.process_recv_packet_header(&mk(h).unwrap(), real).iter().map(|(p, d)| (p.0, *d)).collect()
    }
    pub fn update(&mut self, real: Duration, rtt: Duration, jitter: Duration) -> V<u16> {
        self.0.update(real, &LinkStats { rtt, jitter });
        self.0.lost_packets.drain(..).map(|p| p.0).collect()
    }
    pub fn drain_acked(&mut self) -> V<(u16, Duration)> { self.0.newly_acked_packets.drain(..).map(|(p, d)| (p.0, d)).collect() }
    pub fn outstanding(&self) -> V<(u16, Duration)> { self.0.sent_packets_not_acked.iter().map(|(p, d)| (p.0, *d)).collect() }
    pub fn pending(&self) -> bool { self.0.has_pending_ack() }
}

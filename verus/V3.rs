// V3: packet acknowledgement bookkeeping (T07).  Real code: crates/transport/transport/src/packet/header.rs
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@@ include maps.inc
//@@ include msgid.inc MessageId=>PacketId
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Tick(pub u32);
/// core::time::Duration as a number (the unit does not matter)
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Duration(pub u64);
impl Duration {
    #[verifier::external_body]
    pub fn saturating_sub(self, rhs: Duration) -> (r: Duration) ensures r.0 == (if self.0 >= rhs.0 { self.0 - rhs.0 } else { 0 }) { unimplemented!() }
}
impl PartialOrd for Duration {
    #[verifier::external_body]
    fn partial_cmp(&self, other: &Duration) -> Option<Ordering> { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Duration {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Duration) -> Option<Ordering> { Some(if self.0 == other.0 { Ordering::Equal } else if self.0 < other.0 { Ordering::Less } else { Ordering::Greater }) }
}
pub open spec fn since(a: Duration, b: Duration) -> Duration { Duration((if a.0 >= b.0 { a.0 - b.0 } else { 0 }) as u64) }

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(W)]
#[verifier::accept_recursive_types(S)]
pub struct IndexMap<K, W, S> { m: std::collections::HashMap<K, W>, s: S }
#[verifier::external_body]
pub struct FixedHasher { x: u64 }
impl<K, W, S> View for IndexMap<K, W, S> { type V = Map<K, W>; uninterp spec fn view(&self) -> Map<K, W>; }
impl<K, W, S> IndexMap<K, W, S> {
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: W) -> (r: Option<W>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn swap_remove(&mut self, k: &K) -> (r: Option<W>)
        ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
    /// the entries in some order, each once
    #[verifier::external_body]
    pub fn vx_entries(&self) -> (r: Vec<(K, W)>)
        ensures forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0 != (#[trigger] r@[j]).0,
            forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains((#[trigger] r@[i]).0) && self@[r@[i].0] == r@[i].1,
            forall|k: K| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k { unimplemented!() }
}
#[verifier::external_body]
pub struct PacketStatsManager { x: u64 }
impl PacketStatsManager {
    #[verifier::external_body] pub fn update(&mut self, t: Duration) { unimplemented!() }
    #[verifier::external_body] pub fn received_packet(&mut self) { unimplemented!() }
    #[verifier::external_body] pub fn sent_packet_lost(&mut self) { unimplemented!() }
    #[verifier::external_body] pub fn sent_packet_acked(&mut self) { unimplemented!() }
    #[verifier::external_body] pub fn sent_ack_eliciting_packet(&mut self) { unimplemented!() }
    #[verifier::external_body] pub fn sent_ack_only_packet(&mut self) { unimplemented!() }
}
pub struct LinkStats { pub rtt: Duration, pub jitter: Duration }
#[derive(Clone, Copy)]
pub struct PacketNackSettings { pub x: u64 }
pub uninterp spec fn loss_timeout(s: PacketNackSettings, l: LinkStats) -> Duration;
impl PacketNackSettings {
    #[verifier::external_body]
    pub fn timeout(self, l: &LinkStats) -> (r: Duration) ensures r == loss_timeout(self, *l) { unimplemented!() }
}
/// ringbuffer's ConstGenericRingBuffer<bool, 32> once filled: always its capacity long, oldest first
#[verifier::external_body]
pub struct Ring { b: Vec<bool> }
impl View for Ring { type V = Seq<bool>; uninterp spec fn view(&self) -> Seq<bool>; }
impl Ring {
    #[verifier::external_body]
    pub fn new() -> (r: Ring) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn fill(&mut self, v: bool) ensures final(self)@.len() == 32, forall|i: int| 0 <= i < 32 ==> #[trigger] final(self)@[i] == v { unimplemented!() }
    #[verifier::external_body]
    pub fn enqueue(&mut self, v: bool) requires old(self)@.len() == 32 ensures final(self)@ == old(self)@.drop_first().push(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut_signed(&mut self, i: isize) -> (r: Option<&mut bool>)
        requires old(self)@.len() == 32
        ensures match r {
            Some(v) => -32 <= i < 0 && *v == old(self)@[32 + i] && final(self)@ == old(self)@.update(32 + i, *final(v)),
            None => !(-32 <= i < 0) && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_items(&self) -> (r: Vec<bool>) ensures r@ == self@ { unimplemented!() }
}
pub assume_specification [i16::abs] (x: i16) -> (r: i16) requires x > -32768 ensures r == (if x < 0 { -x } else { x as int });

//@@ source crates/transport/transport/src/packet/packet_type.rs
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@@ item enum PacketType
impl PacketType {
//@@ fn PacketType::is_ack_eliciting
//@@ spec: ensures r == (self != PacketType::AckOnly)
//@@ end
}
//@@ source crates/transport/transport/src/packet/header.rs
//@@ item const ACK_BITFIELD_SIZE
//@@ item struct PacketHeader
//@@ item struct ReceiveBuffer ConstGenericRingBuffer < bool , { ACK_BITFIELD_SIZE as usize } > => Ring
//@@ item struct PacketHeaderManager

pub open spec fn id_of(n: int) -> PacketId { PacketId((n % 65536) as u16) }
pub open spec fn bit(b: u32, i: int) -> bool { (b >> (i as u32)) & 1 == 1 }
impl PacketHeader {
    /// the header says that `p` was received
    pub open spec fn acks(self, p: PacketId) -> bool { p == self.last_ack_packet_id || (1 <= fwd(p, self.last_ack_packet_id) <= 32 && bit(self.ack_bitfield, fwd(p, self.last_ack_packet_id) - 1)) }
    pub open spec fn acked_to(self, p: PacketId, k: int) -> bool { p == self.last_ack_packet_id || (1 <= fwd(p, self.last_ack_packet_id) <= k && bit(self.ack_bitfield, fwd(p, self.last_ack_packet_id) - 1)) }
//@@ fn PacketHeader::get_bitfield_bit
//@@ spec:
//@@ | requires i < 32
//@@ | ensures r == bit(self.ack_bitfield, i as int)
//@@ start: proof { let b = self.ack_bitfield; assert((b & (1u32 << i) != 0) == ((b >> (i as u32)) & 1 == 1)) by (bit_vector) requires i < 32; }
//@@ end
}
impl ReceiveBuffer {
    pub open spec fn wf(self) -> bool { self.buffer@.len() == 32 && (self.last_recv_packet_id is None ==> forall|i: int| 0 <= i < 32 ==> !#[trigger] self.buffer@[i]) }
    /// `p` is recorded as received: the newest one, or marked in the window of the 32 before it
    pub open spec fn covers(self, p: PacketId) -> bool {
        self.last_recv_packet_id matches Some(l) && (p == l || (1 <= fwd(p, l) <= 32 && self.buffer@[32 - fwd(p, l)]))
    }
//@@ fn ReceiveBuffer::new
//@@ rename: ConstGenericRingBuffer => Ring
//@@ spec: ensures r.wf(), r.last_recv_packet_id is None, forall|p: PacketId| !#[trigger] r.covers(p)
//@@ end
//@@ fn ReceiveBuffer::recv_packet
//@@ rename: _ in => vx_k in
//@@ spec:
//@@ | requires old(self).wf()
//@@ | ensures final(self).wf(), final(self).last_recv_packet_id is Some,
//@@ |   // the newest identifier received is kept
//@@ |   old(self).last_recv_packet_id is None ==> final(self).last_recv_packet_id == Some(id),
//@@ |   old(self).last_recv_packet_id matches Some(l) ==> final(self).last_recv_packet_id == Some(if diff(l.0, id.0) > 0 || diff(id.0, l.0) == -32768 { id } else { l }),
//@@ |   // recorded afterwards: exactly what was recorded before or just came, as far as it is still in the window
//@@ |   forall|p: PacketId| #[trigger] final(self).covers(p) <==> (fwd(p, final(self).last_recv_packet_id->0) <= 32 && (p == id || old(self).covers(p)))
//@@ loopkinds: for
//@@ before "for ": let ghost b0 = self.buffer@;
//@@ loop 0:
//@@ |   invariant self.buffer@.len() == 32, b0.len() == 32, self.last_recv_packet_id == old(self).last_recv_packet_id, -33 <= diff < 0,
//@@ |     forall|i: int| 0 <= i < 32 ==> #[trigger] self.buffer@[i] == (if i + vx_k < 32 { b0[i + vx_k] } else { false })
//@@ end
//@@ fn ReceiveBuffer::get_bitfield
//@@ rename: self . buffer . iter ( ) => self.buffer.vx_items() ;; * exists => exists
//@@ spec:
//@@ | requires self.wf()
//@@ | ensures forall|i: int| 0 <= i < 32 ==> #[trigger] bit(r, i) == self.buffer@[31 - i]
//@@ loopkinds: for
//@@ iter 0: it
//@@ start: proof { assert forall|i: u32| i < 32 implies #[trigger] ((0u32 >> i) & 1) == 0 by { assert((0u32 >> i) & 1 == 0) by (bit_vector); } }
//@@ loop 0:
//@@ |   invariant it.seq() == self.buffer@, self.buffer@.len() == 32,
//@@ |     it.index@ < 32 ==> mask == 1u32 << ((31 - it.index@) as u32),
//@@ |     forall|i: int| 0 <= i < 32 ==> #[trigger] bit(ack_bitfield, i) == (i > 31 - it.index@ && self.buffer@[31 - i])
//@@ loopbody 0: let ghost a0 = ack_bitfield; proof { let s = (31 - it.index@) as u32; let m = mask; assert(m == 1u32 << s); assert(0 < s ==> m >> 1 == 1u32 << ((s - 1) as u32)) by (bit_vector) requires s < 32, m == 1u32 << s;
//@@ |   assert forall|i: int| 0 <= i < 32 implies #[trigger] bit(a0 | m, i) == (bit(a0, i) || i == s as int) by { let j = i as u32; assert(((a0 | m) >> j) & 1 == 1 <==> ((a0 >> j) & 1 == 1 || j == s)) by (bit_vector) requires s < 32, j < 32, m == 1u32 << s; } }
//@@ end
}
//@@ include V3b.inc
}
fn main() {}

// V18: one flush of a link's transport (T13, T14, T15).
// Real code: crates/transport/transport/src/plugin.rs (the closure of buffer_send), channel/builder.rs.
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@@ include f32.inc
//@@ include maps.inc
/// IEEE 754 total order
pub uninterp spec fn rank(a: F32) -> int;
pub type ChannelId = u16;
#[derive(Clone, Copy)]
pub struct ChannelKind(pub u64);
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct MessageId(pub u16);
#[derive(Clone, Copy)]
pub struct FragmentIndex(pub u64);
#[derive(Clone, Copy)]
pub struct PacketId(pub u16);
#[derive(Clone, Copy)]
pub struct Tick(pub u32);
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { x: u64 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct CompressionConfig { x: u64 }
#[verifier::external_body]
pub struct CompressionScratch { x: u64 }
#[derive(Clone, Copy)]
pub struct PacketCompressionInfo { pub original_len: usize, pub compressed_len: usize }
pub struct PacketError {}
pub enum TransportError { ChannelNotFound(ChannelKind), Other }
#[verifier::external_body]
pub struct Bytes { x: u64 }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub type BytesMut = Bytes;
impl Bytes {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
pub struct SingleData { pub id: Option<MessageId>, pub bytes: Bytes }
pub struct FragmentData { pub message_id: MessageId, pub fragment_id: FragmentIndex, pub num_fragments: FragmentIndex, pub bytes: Bytes }
//@@ source crates/transport/transport/src/packet/message.rs
#[derive(Clone, Copy)]
//@@ item enum SendMessageKey
//@@ item struct SendMessage f32=>F32
//@@ item struct SendCandidate f32=>F32
//@@ item enum MessageData
//@@ item struct MessageAck
//@@ source crates/transport/transport/src/packet/packet.rs
#[derive(Clone, Copy)]
//@@ item struct SendCommit
#[derive(Clone, Copy)]
//@@ item struct MessageMetadata
//@@ item struct Packet
impl Packet {
//@@ fn Packet::num_messages
//@@ spec: ensures r == self.messages@.len()
//@@ end
}
//@@ source crates/transport/transport/src/packet/packet_builder.rs
//@@ item struct CandidateCursor
impl CandidateCursor { pub fn default() -> (r: Self) ensures r == (CandidateCursor { index: 0, single_index: 0 }) { CandidateCursor { index: 0, single_index: 0 } } }
//@@ source crates/transport/transport/src/channel/send.rs
#[derive(Clone, Copy)]
//@@ item enum SendFlushOutcome
pub open spec fn single(c: SendCandidate) -> bool { c.message.data is Single }
pub open spec fn meta(c: SendCandidate) -> MessageMetadata {
    match c.message.data { MessageData::Single(d) => MessageMetadata { channel: c.channel_id, message: d.id, fragment_index: None, commit: SendCommit { channel_kind: c.channel_kind, key: c.key } },
        MessageData::Fragment(d) => MessageMetadata { channel: c.channel_id, message: Some(d.message_id), fragment_index: Some(d.fragment_id), commit: SendCommit { channel_kind: c.channel_kind, key: c.key } } }
}
//@@ include packing.inc
// ---------------------------------------------------------------- channels, as V8 has them
pub enum Did { Queued(Bytes, F32), Commit(SendMessageKey), Finish(SendFlushOutcome) }
/// everything of a channel but the numbers of the messages it sent this frame
#[verifier::external_body]
pub struct SendState { x: u64 }
impl SendState {
    /// what was asked of this channel, in order
    pub uninterp spec fn log(self) -> Seq<Did>;
    pub uninterp spec fn kind(self) -> ChannelKind;
    pub uninterp spec fn id(self) -> ChannelId;
    pub uninterp spec fn watches(self) -> bool;
    pub uninterp spec fn waits(self, key: SendMessageKey) -> bool;
    /// what it wants to send now
    pub uninterp spec fn offers(self) -> Seq<SendCandidate>;
}
pub struct ChannelSend { pub messages_sent: Vec<MessageId>, pub state: SendState }
impl ChannelSend {
    /// what was asked of this channel, in order
    pub open spec fn log(self) -> Seq<Did> { self.state.log() }
    pub open spec fn kind(self) -> ChannelKind { self.state.kind() }
    pub open spec fn id(self) -> ChannelId { self.state.id() }
    pub open spec fn watches(self) -> bool { self.state.watches() }
    pub open spec fn waits(self, key: SendMessageKey) -> bool { self.state.waits(key) }
    /// what it wants to send now
    pub open spec fn offers(self) -> Seq<SendCandidate> { self.state.offers() }
    pub open spec fn same(self, o: Self) -> bool { self.kind() == o.kind() && self.id() == o.id() && self.watches() == o.watches() }
    #[verifier::external_body]
    pub fn watches_acks(&self) -> (r: bool) ensures r == self.watches() { unimplemented!() }
    #[verifier::external_body]
    pub fn buffer_send_with_scratch(&mut self, message: Bytes, priority: F32, compression: CompressionConfig, scratch: &mut CompressionScratch) -> (r: Option<MessageId>)
        ensures final(self).same(*old(self)), final(self).log() == old(self).log().push(Did::Queued(message, priority)), final(self).messages_sent == old(self).messages_sent { unimplemented!() }
    #[verifier::external_body]
    pub fn collect_send_candidates(&mut self, output: &mut Vec<SendCandidate>)
        ensures final(self).same(*old(self)), final(self).log() == old(self).log(), final(self).messages_sent == old(self).messages_sent, final(output)@ == old(output)@ + old(self).offers(),
            forall|i: int| 0 <= i < old(self).offers().len() ==> final(self).waits((#[trigger] old(self).offers()[i]).key) && old(self).offers()[i].channel_kind == old(self).kind() && old(self).offers()[i].channel_id == old(self).id() && sound(old(self).offers()[i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn commit_send(&mut self, key: SendMessageKey, sent_at: Duration)
        requires old(self).waits(key)
        ensures final(self).same(*old(self)), final(self).log() == old(self).log().push(Did::Commit(key)), final(self).messages_sent == old(self).messages_sent, forall|k: SendMessageKey| old(self).waits(k) ==> #[trigger] final(self).state.waits(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish_send(&mut self, outcome: SendFlushOutcome)
        ensures final(self).same(*old(self)), final(self).log() == old(self).log().push(Did::Finish(outcome)), final(self).messages_sent == old(self).messages_sent { unimplemented!() }
}
// ---------------------------------------------------------------- the packet builder, as V16 has it
pub uninterp spec fn sound_data(d: MessageData) -> bool;
pub open spec fn sound(c: SendCandidate) -> bool { sound_data(c.message.data) }
pub uninterp spec fn packed(q: Seq<u8>, id: PacketId, tick: u32, l: Seq<SendCandidate>) -> bool;
/// a header-only packet
pub uninterp spec fn ack_only(q: Seq<u8>) -> bool;
pub enum Out { Data(PacketId, Duration), Ack(PacketId) }
#[verifier::external_body]
pub struct PacketHeaderManager { x: u64 }
impl PacketHeaderManager {
    pub uninterp spec fn log(self) -> Seq<Out>;
    pub uninterp spec fn pending(self) -> bool;
    #[verifier::external_body]
    pub fn commit_send_packet(&mut self, id: PacketId, now: Duration) ensures final(self).log() == old(self).log().push(Out::Data(id, now)) { unimplemented!() }
    #[verifier::external_body]
    pub fn commit_send_ack_only(&mut self, id: PacketId) ensures final(self).log() == old(self).log().push(Out::Ack(id)) { unimplemented!() }
    #[verifier::external_body]
    pub fn has_pending_ack(&self) -> (r: bool) ensures r == self.pending() { unimplemented!() }
}
#[verifier::external_body]
pub struct PacketBufferPool { x: u64 }
pub uninterp spec fn fit(p: PacketBufferPool) -> bool;
pub struct PacketBuilder { pub header_manager: PacketHeaderManager, pub buffer_pool: PacketBufferPool }
impl PacketBuilder {
    #[verifier::external_body]
    pub fn begin_send(&mut self, mtu: usize)
        requires fit(old(self).buffer_pool) ensures fit(final(self).buffer_pool), final(self).header_manager == old(self).header_manager { unimplemented!() }
    #[verifier::external_body]
    pub fn recycle_packet(&mut self, packet: Packet)
        requires fit(old(self).buffer_pool) ensures fit(final(self).buffer_pool), final(self).header_manager == old(self).header_manager { unimplemented!() }
    #[verifier::external_body]
    pub fn recycle_message_metadata_list(&mut self, messages: Vec<MessageMetadata>)
        requires fit(old(self).buffer_pool) ensures fit(final(self).buffer_pool), final(self).header_manager == old(self).header_manager { unimplemented!() }
    #[verifier::external_body]
    pub fn take_send_payload(&mut self, packet: &mut Packet) -> (r: Bytes)
        requires fit(old(self).buffer_pool) ensures fit(final(self).buffer_pool), final(self).header_manager == old(self).header_manager, r@ == old(packet).payload@, final(packet).messages@ == old(packet).messages@, final(packet).packet_id == old(packet).packet_id { unimplemented!() }
    #[verifier::external_body]
    pub fn build_ack_only_packet(&mut self, current_tick: Tick, mtu: usize) -> (r: Result<Packet, PacketError>)
        requires fit(old(self).buffer_pool)
        ensures final(self).header_manager == old(self).header_manager, fit(final(self).buffer_pool), match r { Err(_) => mtu < 13, Ok(p) => p.payload@.len() <= mtu && p.messages@.len() == 0 && ack_only(p.payload@) } { unimplemented!() }
    #[verifier::external_body]
    pub fn build_next_packet(&mut self, current_tick: Tick, candidates: &Vec<SendCandidate>, cursor: &mut CandidateCursor, compression: CompressionConfig, mtu: usize, compression_scratch: &mut CompressionScratch) -> (r: Result<Option<Packet>, PacketError>)
        requires fit(old(self).buffer_pool), forall|k: int| 0 <= k < candidates@.len() ==> sound(#[trigger] candidates@[k])
        ensures final(self).header_manager == old(self).header_manager, fit(final(self).buffer_pool), match r { Err(_) => true,
            Ok(None) => forall|k: int| 0 <= k < candidates@.len() ==> #[trigger] used(*final(cursor), candidates@, k) && used(*old(cursor), candidates@, k),
            Ok(Some(p)) => 0 < p.payload@.len() <= mtu && exists|sel: Seq<int>| #[trigger] taken(candidates@, *old(cursor), *final(cursor), sel) && packed(p.payload@, p.packet_id, current_tick.0, chosen(candidates@, sel)) && p.messages@ == metas(chosen(candidates@, sel)) && level(candidates@, *old(cursor), *final(cursor)) }
    { unimplemented!() }
}
// ---------------------------------------------------------------- priorities and quota, as V17 has them
pub struct ChannelSettings { pub priority: F32 }
#[verifier::external_body]
pub struct ChannelRegistry { x: u64 }
impl ChannelRegistry { pub uninterp spec fn settings(self, id: u16) -> Option<ChannelSettings>; }
pub open spec fn priced(c: SendCandidate, p: F32) -> SendCandidate { SendCandidate { effective_priority: p, ..c } }
pub open spec fn price(c: SendCandidate, reg: ChannelRegistry, enabled: bool) -> F32 { if enabled { fmul(c.message.priority, reg.settings(c.channel_id)->Some_0.priority) } else { flit(0) } }
pub open spec fn priced_all(l: Seq<SendCandidate>, reg: ChannelRegistry, enabled: bool) -> Seq<SendCandidate> { l.map_values(|c: SendCandidate| priced(c, price(c, reg, enabled))) }
/// nothing comes before something more urgent
pub open spec fn ranked(c: Seq<SendCandidate>) -> bool { forall|i: int, j: int| 0 <= i < j < c.len() ==> rank(#[trigger] c[j].effective_priority) <= rank(#[trigger] c[i].effective_priority) }
pub struct PriorityConfig { pub enabled: bool }
pub struct PriorityManager { pub candidates: Vec<SendCandidate>, pub config: PriorityConfig }
impl PriorityManager {
//@@ source crates/transport/transport/src/packet/priority_manager.rs
//@@ fn PriorityManager::candidates_mut
//@@ spec: ensures *r == old(self).candidates, final(self).candidates == *final(r), final(self).config == old(self).config
//@@ end
//@@ fn PriorityManager::candidates
//@@ rename: -> & [ SendCandidate ] => -> &Vec<SendCandidate>
//@@ spec: ensures *r == self.candidates
//@@ end
//@@ fn PriorityManager::clear
//@@ spec: ensures final(self).candidates@ == Seq::<SendCandidate>::empty(), final(self).config == old(self).config
//@@ end
    #[verifier::external_body]
    pub fn prioritize(&mut self, channel_registry: &ChannelRegistry)
        requires forall|i: int| 0 <= i < old(self).candidates@.len() ==> channel_registry.settings((#[trigger] old(self).candidates@[i]).channel_id) is Some
        ensures final(self).config == old(self).config, final(self).candidates@.to_multiset() == priced_all(old(self).candidates@, *channel_registry, old(self).config.enabled).to_multiset(), ranked(final(self).candidates@) { unimplemented!() }
}
#[verifier::external_body]
pub struct BandwidthLimiter { x: u64 }
impl BandwidthLimiter {
    pub uninterp spec fn on(self) -> bool;
    pub uninterp spec fn granted(self) -> nat;
    #[verifier::external_body]
    pub fn consume_packet_quota(&mut self, packet_bytes: usize) -> (r: bool)
        requires packet_bytes > 0
        ensures final(self).on() == old(self).on(), !old(self).on() ==> r, old(self).on() && r ==> final(self).granted() == old(self).granted() + packet_bytes, !r ==> final(self).granted() == old(self).granted() { unimplemented!() }
}
// ---------------------------------------------------------------- which messages went out in which packet
type PacketMessageAcks = Vec<(ChannelKind, MessageAck)>;
//@@ source crates/transport/transport/src/channel/builder.rs
//@@ item const MAX_RETAINED_PACKET_MESSAGE_ACK_LISTS
//@@ item const MAX_RETAINED_PACKET_MESSAGE_ACK_CAPACITY
//@@ item struct PacketMessageAckTracker tracked=>by_packet
#[verifier::external_body]
fn vx_capacity(m: &PacketMessageAcks) -> usize { unimplemented!() }
pub type Waiting = Map<PacketId, Seq<(ChannelKind, MessageAck)>>;
pub open spec fn blank(l: Seq<PacketMessageAcks>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i])@ == Seq::<(ChannelKind, MessageAck)>::empty() }
pub open spec fn noted(w: Waiting, id: PacketId, k: ChannelKind, a: MessageAck) -> Waiting { w.insert(id, (if w.dom().contains(id) { w[id] } else { Seq::empty() }).push((k, a))) }
impl PacketMessageAckTracker {
    pub open spec fn waiting(self) -> Waiting { self.by_packet@.map_values(|v: PacketMessageAcks| v@) }
//@@ fn PacketMessageAckTracker::track
//@@ start: let ghost w = self.waiting();
//@@ before "return": proof { assert(self.waiting() =~= noted(w, packet_id, channel_kind, message_ack)); }
//@@ rename: self . tracked => self.by_packet ;; self . ready . pop ( ) . unwrap_or_default ( ) => vx_or_new(self.ready.pop())
//@@ spec:
//@@ | requires blank(old(self).ready@)
//@@ | ensures blank(final(self).ready@), final(self).waiting() =~= noted(old(self).waiting(), packet_id, channel_kind, message_ack)
//@@ end
//@@ fn PacketMessageAckTracker::take
//@@ rename: self . tracked => self.by_packet
//@@ spec:
//@@ | requires blank(old(self).ready@)
//@@ | ensures blank(final(self).ready@), final(self).waiting() == old(self).waiting().remove(*packet_id), match r { Some(l) => old(self).waiting().dom().contains(*packet_id) && l@ == old(self).waiting()[*packet_id], None => !old(self).waiting().dom().contains(*packet_id) }
//@@ end
//@@ fn PacketMessageAckTracker::recycle
//@@ rename: message_acks . capacity ( ) => vx_capacity(&message_acks)
//@@ spec:
//@@ | requires blank(old(self).ready@)
//@@ | ensures blank(final(self).ready@), final(self).waiting() == old(self).waiting()
//@@ end
}
fn vx_or_new(o: Option<PacketMessageAcks>) -> (r: PacketMessageAcks) ensures match o { Some(v) => r == v, None => r@ == Seq::<(ChannelKind, MessageAck)>::empty() } { match o { Some(v) => v, None => Vec::new() } }
// ---------------------------------------------------------------- the transport and its flush
/// crossbeam_channel::Receiver, with what waits in it; nobody else adds to it during a flush
#[verifier::external_body]
pub struct Inbox { x: u64 }
pub type Entry = (ChannelKind, Bytes, F32);
pub struct TryRecvError {}
impl Inbox {
    pub uninterp spec fn queue(self) -> Seq<Entry>;
    #[verifier::external_body]
    pub fn try_recv(&mut self) -> (r: Result<Entry, TryRecvError>)
        ensures match r { Ok(e) => old(self).queue().len() > 0 && e == old(self).queue()[0] && final(self).queue() == old(self).queue().skip(1), Err(_) => old(self).queue().len() == 0 && final(self).queue().len() == 0 } { unimplemented!() }
}
pub struct Transport { pub senders: HashMap<ChannelKind, ChannelSend>, pub priority_manager: PriorityManager, pub bandwidth_limiter: BandwidthLimiter, pub packet_manager: PacketBuilder, pub compression_scratch: CompressionScratch, pub compression: CompressionConfig, pub packet_message_acks: PacketMessageAckTracker, pub recv_channel: Inbox }
pub struct LinkSender { pub l: Vec<Bytes> }
impl LinkSender { pub fn push(&mut self, b: Bytes) ensures final(self).l@ == old(self).l@.push(b) { self.l.push(b); } }
pub struct Link { pub send: LinkSender }
impl Link {
    pub uninterp spec fn most(self) -> usize;
    #[verifier::external_body]
    pub fn mtu(&self) -> (r: usize) ensures r == self.most() { unimplemented!() }
}
pub struct HostClient { pub buffer: Vec<(Bytes, u64, Tick)> }
#[verifier::external_body]
pub struct Time { x: u64 }
impl Time {
    pub uninterp spec fn now(self) -> Duration;
    #[verifier::external_body]
    pub fn elapsed(&self) -> (r: Duration) ensures r == self.now() { unimplemented!() }
}
impl Transport {
//@@ source crates/transport/transport/src/channel/builder.rs
//@@ fn Transport::send_mut_erased
//@@ rename: SendPayload => Bytes ;; f32 => F32
//@@ spec:
//@@ | ensures final(self).same_but_senders(*old(self)), match r {
//@@ |   Ok(_) => old(self).senders@.dom().contains(kind) && queued(old(self).senders@, final(self).senders@, kind, Did::Queued(bytes, priority)),
//@@ |   Err(_) => !old(self).senders@.dom().contains(kind) && final(self).senders@ == old(self).senders@ }
//@@ end
    pub open spec fn same_but_senders(self, o: Self) -> bool { self.priority_manager == o.priority_manager && self.bandwidth_limiter == o.bandwidth_limiter && self.packet_manager == o.packet_manager && self.compression == o.compression && self.packet_message_acks == o.packet_message_acks && self.recv_channel == o.recv_channel }
}
pub type Channels = Map<ChannelKind, ChannelSend>;
/// one channel was told one thing, the others nothing
pub open spec fn queued(a: Channels, b: Channels, k: ChannelKind, d: Did) -> bool {
    b.dom() =~= a.dom() && forall|j: ChannelKind| a.dom().contains(j) ==> (#[trigger] b[j]).same(a[j]) && b[j].messages_sent == a[j].messages_sent && b[j].log() == (if j == k { a[j].log().push(d) } else { a[j].log() })
}
pub open spec fn queues(l: Seq<Entry>, k: ChannelKind) -> Seq<Did> decreases l.len() { if l.len() == 0 { Seq::empty() } else { let p = queues(l.drop_last(), k); if l.last().0 == k { p.push(Did::Queued(l.last().1, l.last().2)) } else { p } } }
/// every channel was handed its entries, in order
pub open spec fn told(a: Channels, b: Channels, l: Seq<Entry>) -> bool { b.dom() == a.dom() && forall|j: ChannelKind| a.dom().contains(j) ==> (#[trigger] b[j]).same(a[j]) && b[j].messages_sent == a[j].messages_sent && b[j].log() =~= a[j].log() + queues(l, j) }
pub proof fn told_one(a: Channels, b: Channels, d: Channels, l: Seq<Entry>, e: Entry)
    requires told(a, b, l), queued(b, d, e.0, Did::Queued(e.1, e.2)) ensures told(a, d, l.push(e))
{ assert(l.push(e).drop_last() =~= l); assert forall|j: ChannelKind| a.dom().contains(j) implies (#[trigger] d[j]).same(a[j]) && d[j].messages_sent == a[j].messages_sent && d[j].log() =~= a[j].log() + queues(l.push(e), j) by { assert(b[j].same(a[j])); } }
//@@ source crates/transport/transport/src/plugin.rs
//@@ closure TransportPlugin::buffer_send iife
//@@ sig: fn send_buffered(transport: &mut Transport, tick: Tick) -> Result<(), TransportError>
//@@ spec:
//@@ | ensures final(transport).packet_manager == old(transport).packet_manager, final(transport).packet_message_acks == old(transport).packet_message_acks, final(transport).bandwidth_limiter == old(transport).bandwidth_limiter, final(transport).priority_manager == old(transport).priority_manager, final(transport).compression == old(transport).compression,
//@@ |   exists|n: int| 0 <= n <= old(transport).recv_channel.queue().len() && #[trigger] told(old(transport).senders@, final(transport).senders@, old(transport).recv_channel.queue().take(n)) && match r { Ok(_) => n == old(transport).recv_channel.queue().len(), Err(_) => n < old(transport).recv_channel.queue().len() && !old(transport).senders@.dom().contains(old(transport).recv_channel.queue()[n].0) }
//@@ start: let ghost q = transport.recv_channel.queue(); let ghost mut n = 0int; let ghost a = transport.senders@; proof { assert(q.skip(0) =~= q); assert(told(a, transport.senders@, q.take(0))); }
//@@ loop 0:
//@@ | invariant q == old(transport).recv_channel.queue(), a == old(transport).senders@, 0 <= n <= q.len(), transport.recv_channel.queue() == q.skip(n), told(a, transport.senders@, q.take(n)), transport.packet_manager == old(transport).packet_manager, transport.packet_message_acks == old(transport).packet_message_acks, transport.bandwidth_limiter == old(transport).bandwidth_limiter, transport.priority_manager == old(transport).priority_manager, transport.compression == old(transport).compression
//@@ | ensures n == q.len()
//@@ | decreases q.len() - n
//@@ loopbody 0: let ghost b = transport.senders@; proof { if n < q.len() { assert(q.skip(n)[0] == q[n]); } }
//@@ loopend 0: proof { told_one(a, b, transport.senders@, q.take(n), q[n]); assert(q.take(n).push(q[n]) =~= q.take(n + 1)); assert(q.skip(n).skip(1) =~= q.skip(n + 1)); n = n + 1; }
//@@ end
// ---------------------------------------------------------------- what a flush leaves behind
pub type Sent = Seq<(PacketId, MessageMetadata)>;
pub open spec fn tagged(id: PacketId, l: Seq<MessageMetadata>) -> Sent { l.map_values(|m: MessageMetadata| (id, m)) }
pub open spec fn commits(l: Sent, k: ChannelKind) -> Seq<Did> decreases l.len() { if l.len() == 0 { Seq::empty() } else { let p = commits(l.drop_last(), k); if l.last().1.commit.channel_kind == k { p.push(Did::Commit(l.last().1.commit.key)) } else { p } } }
pub open spec fn numbers(l: Sent, k: ChannelKind) -> Seq<MessageId> decreases l.len() { if l.len() == 0 { Seq::empty() } else { let p = numbers(l.drop_last(), k); match l.last().1.message { Some(id) => if l.last().1.commit.channel_kind == k { p.push(id) } else { p }, None => p } } }
/// acknowledgements to wait for: those of numbered messages, on channels that want them
pub open spec fn awaited(w: Waiting, m: Channels, l: Sent) -> Waiting decreases l.len() {
    if l.len() == 0 { w } else { let p = awaited(w, m, l.drop_last()); let x = l.last().1; match x.message { Some(id) => if m[x.commit.channel_kind].watches() { noted(p, l.last().0, x.commit.channel_kind, MessageAck { message_id: id, fragment_id: x.fragment_index }) } else { p }, None => p } }
}
/// every message that went out, with its packet, in order
pub open spec fn all_sent(c: Seq<SendCandidate>, sels: Seq<Seq<int>>, ids: Seq<PacketId>) -> Sent decreases sels.len() { if sels.len() == 0 { Seq::empty() } else { all_sent(c, sels.drop_last(), ids) + tagged(ids[sels.len() - 1], metas(chosen(c, sels.last()))) } }
pub open spec fn out(sels: Seq<Seq<int>>, k: int) -> bool { exists|p: int| 0 <= p < sels.len() && (#[trigger] sels[p]).contains(k) }
pub open spec fn total(outs: Seq<Seq<u8>>) -> nat decreases outs.len() { if outs.len() == 0 { 0 } else { total(outs.drop_last()) + outs.last().len() } }
pub open spec fn views(l: Seq<Bytes>) -> Seq<Seq<u8>> { l.map_values(|b: Bytes| b@) }
pub open spec fn dated(ids: Seq<PacketId>, now: Duration) -> Seq<Out> { ids.map_values(|i: PacketId| Out::Data(i, now)) }
pub open spec fn offered(m: Channels, ks: Seq<ChannelKind>) -> Seq<SendCandidate> decreases ks.len() { if ks.len() == 0 { Seq::empty() } else { offered(m, ks.drop_last()) + m[ks.last()].offers() } }
/// the channels, told to commit what went out
pub open spec fn committed(a: Channels, b: Channels, l: Sent) -> bool {
    b.dom() == a.dom() && forall|j: ChannelKind| a.dom().contains(j) ==> (#[trigger] b[j]).same(a[j]) && b[j].log() == a[j].log() + commits(l, j) && b[j].messages_sent@ == a[j].messages_sent@ + numbers(l, j)
}
pub open spec fn keeps(a: Channels, b: Channels) -> bool { forall|j: ChannelKind, k: SendMessageKey| a.dom().contains(j) && a[j].waits(k) ==> #[trigger] b[j].state.waits(k) }
pub open spec fn likewise(a: Channels, b: Channels) -> bool { b.dom() == a.dom() && forall|j: ChannelKind| a.dom().contains(j) ==> (#[trigger] b[j]).same(a[j]) && b[j].log() == a[j].log() && b[j].messages_sent == a[j].messages_sent }
/// fit to be sent: its channel is there, and still has it
pub open spec fn held(m: Channels, c: SendCandidate) -> bool { sound(c) && m.dom().contains(c.channel_kind) && m[c.channel_kind].waits(c.key) && c.channel_id == m[c.channel_kind].id() }
//@@ closure TransportPlugin::buffer_send for_each#1
//@@ sig: fn vx_collect_one($0: &mut ChannelSend, candidates: &mut Vec<SendCandidate>)
//@@ spec:
//@@ | ensures final($0).same(*old($0)), final($0).log() == old($0).log(), final($0).messages_sent == old($0).messages_sent, final(candidates)@ == old(candidates)@ + old($0).offers(),
//@@ |   forall|i: int| 0 <= i < old($0).offers().len() ==> final($0).waits((#[trigger] old($0).offers()[i]).key) && old($0).offers()[i].channel_kind == old($0).kind() && old($0).offers()[i].channel_id == old($0).id() && sound(old($0).offers()[i])
//@@ end
/// values_mut().for_each(that)
#[verifier::external_body]
fn vx_collect_all(senders: &mut HashMap<ChannelKind, ChannelSend>, candidates: &mut Vec<SendCandidate>)
    ensures likewise(old(senders)@, final(senders)@), final(candidates)@ == old(candidates)@ + offered(old(senders)@, order(old(senders)@)), order(old(senders)@).no_duplicates(), order(old(senders)@).to_set() == old(senders)@.dom(),
        forall|j: ChannelKind, i: int| old(senders)@.dom().contains(j) && 0 <= i < old(senders)@[j].offers().len() ==> (#[trigger] old(senders)@[j].offers()[i]).channel_kind == old(senders)@[j].kind() && old(senders)@[j].offers()[i].channel_id == old(senders)@[j].id() && sound(old(senders)@[j].offers()[i]) && final(senders)@[j].waits(old(senders)@[j].offers()[i].key)
{ unimplemented!() }
//@@ closure TransportPlugin::buffer_send for_each#2
//@@ sig: fn vx_finish_one($0: &mut ChannelSend, flush_outcome: SendFlushOutcome)
//@@ spec:
//@@ | ensures final($0).same(*old($0)), final($0).log() == old($0).log().push(Did::Finish(flush_outcome)), final($0).messages_sent == old($0).messages_sent
//@@ end
#[verifier::external_body]
fn vx_finish_all(senders: &mut HashMap<ChannelKind, ChannelSend>, flush_outcome: SendFlushOutcome)
    ensures final(senders)@.dom() == old(senders)@.dom(), forall|j: ChannelKind| old(senders)@.dom().contains(j) ==> (#[trigger] final(senders)@[j]).same(old(senders)@[j]) && final(senders)@[j].log() == old(senders)@[j].log().push(Did::Finish(flush_outcome)) && final(senders)@[j].messages_sent == old(senders)@[j].messages_sent
{ unimplemented!() }
pub struct VxIt { pub l: Vec<MessageMetadata> }
impl VxIt {
    pub uninterp spec fn rest(self) -> Seq<MessageMetadata>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<MessageMetadata>) ensures match r { Some(m) => old(self).rest().len() > 0 && m == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() } { unimplemented!() }
}
/// drain(..)
#[verifier::external_body]
fn vx_drain(l: &mut Vec<MessageMetadata>) -> (r: VxIt) ensures r.rest() == old(l)@, final(l)@ == Seq::<MessageMetadata>::empty() { unimplemented!() }
/// core::mem::take
#[verifier::external_body]
fn vx_take(l: &mut Vec<MessageMetadata>) -> (r: Vec<MessageMetadata>) ensures r@ == old(l)@, final(l)@ == Seq::<MessageMetadata>::empty() { unimplemented!() }
/// a flush sends less than 4 GiB
#[verifier::external_body]
fn vx_add(a: u32, n: usize) -> (r: u32) ensures r == a + n { unimplemented!() }
//@@ closure TransportPlugin::buffer_send try_for_each
//@@ sig: fn vx_host_one(channel_kind: ChannelKind, bytes: Bytes, priority: F32, host_client: &mut HostClient, tick: Tick) -> Result<(), TransportError>
//@@ spec: ensures r is Ok, final(host_client).buffer@ == old(host_client).buffer@.push((bytes, channel_kind.0, tick))
//@@ end
pub open spec fn local(l: Seq<Entry>, tick: Tick) -> Seq<(Bytes, u64, Tick)> { l.map_values(|e: Entry| (e.1, e.0.0, tick)) }
/// try_iter().try_for_each(that)
#[verifier::external_body]
fn vx_host_all(inbox: &mut Inbox, host_client: &mut HostClient, tick: Tick)
    ensures final(host_client).buffer@ == old(host_client).buffer@ + local(old(inbox).queue(), tick), final(inbox).queue().len() == 0
{ unimplemented!() }
/// the channels before the flush, and with everything queued handed to them; the candidates, in order of urgency; the packets: chosen candidates, ids, bytes
pub struct Flush { pub mid: Channels, pub c: Seq<SendCandidate>, pub sels: Seq<Seq<int>>, pub ids: Seq<PacketId>, pub outs: Seq<Seq<u8>>, pub tail: Seq<Seq<u8>>, pub outcome: SendFlushOutcome, pub mtu: usize, pub tick: Tick, pub now: Duration }
impl Flush {
    /// the candidates are what the channels offer, most urgent first
    pub open spec fn listed(self, on: bool, reg: ChannelRegistry) -> bool { self.c.to_multiset() == priced_all(offered(self.mid, order(self.mid)), reg, on).to_multiset() && ranked(self.c) && order(self.mid).no_duplicates() && order(self.mid).to_set() == self.mid.dom() }
    /// each packet says what was chosen for it, fits the link, and nothing is chosen twice
    pub open spec fn packets(self) -> bool {
        &&& self.sels.len() == self.outs.len() && self.ids.len() == self.outs.len()
        &&& forall|p: int| 0 <= p < self.outs.len() ==> packed(#[trigger] self.outs[p], self.ids[p], self.tick.0, chosen(self.c, self.sels[p])) && 0 < self.outs[p].len() <= self.mtu
        &&& forall|p: int, k: int| 0 <= p < self.sels.len() && #[trigger] self.sels[p].contains(k) ==> 0 <= k < self.c.len()
        &&& forall|p: int, q: int, k: int| 0 <= p < q < self.sels.len() && #[trigger] self.sels[q].contains(k) ==> !#[trigger] self.sels[p].contains(k)
        &&& forall|p: int| 0 <= p < self.sels.len() ==> increasing(#[trigger] self.sels[p])
    }
    pub open spec fn done(self) -> Sent { all_sent(self.c, self.sels, self.ids) }
    /// nothing stays behind that is more urgent than something sent
    pub open spec fn fair(self) -> bool { forall|k: int, x: int| 0 <= k < self.c.len() && 0 <= x < self.c.len() && #[trigger] out(self.sels, x) && !#[trigger] out(self.sels, k) ==> rank(self.c[k].effective_priority) <= rank(self.c[x].effective_priority) }
    pub open spec fn all_out(self) -> bool { forall|k: int| 0 <= k < self.c.len() ==> #[trigger] out(self.sels, k) }
}
/// where the cursor stands, between packets
pub open spec fn standing(c: Seq<SendCandidate>, cur: CandidateCursor, sels: Seq<Seq<int>>) -> bool {
    &&& forall|k: int| 0 <= k < c.len() ==> (#[trigger] used(cur, c, k) <==> out(sels, k))
    &&& cur.index <= c.len()
    &&& cur.single_index > cur.index ==> cur.index > 0 && cur.single_index <= c.len() && rank(c[cur.single_index - 1].effective_priority) == rank(c[cur.index - 1].effective_priority)
}
pub proof fn standing_fair(f: Flush, cur: CandidateCursor) requires standing(f.c, cur, f.sels), ranked(f.c) ensures f.fair()
{
    assert forall|k: int, x: int| 0 <= k < f.c.len() && 0 <= x < f.c.len() && #[trigger] out(f.sels, x) && !#[trigger] out(f.sels, k) implies rank(f.c[k].effective_priority) <= rank(f.c[x].effective_priority) by {
        assert(used(cur, f.c, x)); assert(!used(cur, f.c, k));
        if k < x {
            assert(x >= cur.index && x < cur.single_index);
            let a = cur.index - 1; let b = cur.single_index - 1;
            assert(rank(f.c[b].effective_priority) == rank(f.c[a].effective_priority));
            if b > x { assert(rank(f.c[b].effective_priority) <= rank(f.c[x].effective_priority)); }
            if a < k { assert(rank(f.c[k].effective_priority) <= rank(f.c[a].effective_priority)); }
        }
    }
}
pub proof fn stands(c: Seq<SendCandidate>, a: CandidateCursor, b: CandidateCursor, sels: Seq<Seq<int>>, sel: Seq<int>)
    requires standing(c, a, sels), taken(c, a, b, sel), level(c, a, b), ranked(c) ensures standing(c, b, sels.push(sel)), forall|p: int, k: int| 0 <= p < sels.len() && #[trigger] sel.contains(k) ==> !(#[trigger] sels[p].contains(k))
{
    let s2 = sels.push(sel);
    assert forall|k: int| 0 <= k < c.len() implies (#[trigger] used(b, c, k) <==> out(s2, k)) by {
        if out(sels, k) { let p = choose|p: int| 0 <= p < sels.len() && (#[trigger] sels[p]).contains(k); assert(s2[p].contains(k)); }
        if sel.contains(k) { assert(s2[sels.len() as int].contains(k)); }
        if out(s2, k) { let p = choose|p: int| 0 <= p < s2.len() && (#[trigger] s2[p]).contains(k); if p < sels.len() { assert(sels[p].contains(k)); } }
        assert(used(a, c, k) <==> out(sels, k));
    }
    if b.single_index > b.index && b.single_index <= a.single_index {
        let i = a.index - 1; let j = a.single_index - 1; let n = b.index - 1;
        assert(b.single_index == a.single_index);
        assert(rank(c[j].effective_priority) == rank(c[i].effective_priority));
        assert(i < n && n < j);
        assert(rank(c[n].effective_priority) <= rank(c[i].effective_priority));
        assert(rank(c[j].effective_priority) <= rank(c[n].effective_priority));
    }
    assert forall|p: int, k: int| 0 <= p < sels.len() && #[trigger] sel.contains(k) implies !(#[trigger] sels[p].contains(k)) by { if sels[p].contains(k) { assert(out(sels, k)); assert(used(a, c, k)); } }
}
pub proof fn offered_held(a: Channels, b: Channels, ks: Seq<ChannelKind>)
    requires likewise(a, b), forall|i: int| 0 <= i < ks.len() ==> a.dom().contains(#[trigger] ks[i]), forall|j: ChannelKind| a.dom().contains(j) ==> (#[trigger] a[j]).kind() == j,
        forall|j: ChannelKind, i: int| a.dom().contains(j) && 0 <= i < a[j].offers().len() ==> (#[trigger] a[j].offers()[i]).channel_kind == a[j].kind() && a[j].offers()[i].channel_id == a[j].id() && sound(a[j].offers()[i]) && b[j].waits(a[j].offers()[i].key)
    ensures forall|i: int| 0 <= i < offered(a, ks).len() ==> held(b, #[trigger] offered(a, ks)[i])
    decreases ks.len()
{
    if ks.len() > 0 {
        let t = ks.drop_last(); let k = ks.last();
        assert forall|i: int| 0 <= i < t.len() implies a.dom().contains(#[trigger] t[i]) by { assert(ks[i] == t[i]); }
        offered_held(a, b, t);
        let n = offered(a, t).len();
        assert(a.dom().contains(ks[ks.len() - 1]));
        assert forall|i: int| 0 <= i < offered(a, ks).len() implies held(b, #[trigger] offered(a, ks)[i]) by {
            if i < n { assert(offered(a, ks)[i] == offered(a, t)[i]); } else { assert(offered(a, ks)[i] == a[k].offers()[i - n]); assert(b[k].same(a[k])); }
        }
    }
}
pub proof fn listed_held(m: Channels, c: Seq<SendCandidate>, l: Seq<SendCandidate>, reg: ChannelRegistry, on: bool)
    requires c.to_multiset() == priced_all(l, reg, on).to_multiset(), forall|i: int| 0 <= i < l.len() ==> held(m, #[trigger] l[i]) ensures forall|i: int| 0 <= i < c.len() ==> held(m, #[trigger] c[i])
{
    let q = priced_all(l, reg, on);
    c.to_multiset_ensures(); q.to_multiset_ensures();
    assert forall|i: int| 0 <= i < c.len() implies held(m, #[trigger] c[i]) by {
        assert(c.contains(c[i])); assert(c.to_multiset().count(c[i]) > 0); assert(q.contains(c[i]));
        let j = choose|j: int| 0 <= j < q.len() && q[j] == c[i];
        assert(held(m, l[j]));
    }
}
/// one more message committed and noted
pub proof fn committed_one(a: Channels, b: Channels, d: Channels, l: Sent, x: (PacketId, MessageMetadata))
    requires committed(a, b, l), a.dom().contains(x.1.commit.channel_kind), d.dom() == b.dom(),
        forall|j: ChannelKind| a.dom().contains(j) ==> (#[trigger] d[j]).same(b[j]) && d[j].log() == (if j == x.1.commit.channel_kind { b[j].log().push(Did::Commit(x.1.commit.key)) } else { b[j].log() })
            && d[j].messages_sent@ == (match x.1.message { Some(id) => if j == x.1.commit.channel_kind { b[j].messages_sent@.push(id) } else { b[j].messages_sent@ }, None => b[j].messages_sent@ })
    ensures committed(a, d, l.push(x))
{
    assert(l.push(x).drop_last() =~= l);
    assert forall|j: ChannelKind| a.dom().contains(j) implies (#[trigger] d[j]).same(a[j]) && d[j].log() == a[j].log() + commits(l.push(x), j) && d[j].messages_sent@ == a[j].messages_sent@ + numbers(l.push(x), j) by {
        assert(b[j].same(a[j]));
        assert(d[j].log() =~= a[j].log() + commits(l.push(x), j)); assert(d[j].messages_sent@ =~= a[j].messages_sent@ + numbers(l.push(x), j));
    }
}
pub proof fn all_sent_more(c: Seq<SendCandidate>, sels: Seq<Seq<int>>, ids: Seq<PacketId>, id: PacketId) requires sels.len() <= ids.len() ensures all_sent(c, sels, ids.push(id)) == all_sent(c, sels, ids) decreases sels.len()
{ if sels.len() > 0 { all_sent_more(c, sels.drop_last(), ids, id); } }
pub proof fn one_more(f: Flush, sel: Seq<int>, id: PacketId, q: Seq<u8>, a: CandidateCursor, b: CandidateCursor)
    requires f.packets(), standing(f.c, a, f.sels), taken(f.c, a, b, sel), level(f.c, a, b), ranked(f.c), packed(q, id, f.tick.0, chosen(f.c, sel)), 0 < q.len() <= f.mtu
    ensures (Flush { sels: f.sels.push(sel), ids: f.ids.push(id), outs: f.outs.push(q), ..f }).packets(), standing(f.c, b, f.sels.push(sel)), (Flush { sels: f.sels.push(sel), ids: f.ids.push(id), outs: f.outs.push(q), ..f }).done() == f.done() + tagged(id, metas(chosen(f.c, sel))), total(f.outs.push(q)) == total(f.outs) + q.len()
{
    stands(f.c, a, b, f.sels, sel);
    all_sent_more(f.c, f.sels, f.ids, id);
    assert(f.sels.push(sel).drop_last() =~= f.sels); assert(f.outs.push(q).drop_last() =~= f.outs);
    let g = Flush { sels: f.sels.push(sel), ids: f.ids.push(id), outs: f.outs.push(q), ..f };
    assert forall|p: int| 0 <= p < g.outs.len() implies packed(#[trigger] g.outs[p], g.ids[p], g.tick.0, chosen(g.c, g.sels[p])) && 0 < g.outs[p].len() <= g.mtu by { if p < f.outs.len() { assert(g.outs[p] == f.outs[p]); } }
    assert forall|p: int, k: int| 0 <= p < g.sels.len() && #[trigger] g.sels[p].contains(k) implies 0 <= k < g.c.len() by { if p < f.sels.len() { assert(f.sels[p].contains(k)); } }
    assert forall|p: int, r: int, k: int| 0 <= p < r < g.sels.len() && #[trigger] g.sels[r].contains(k) implies !#[trigger] g.sels[p].contains(k) by { if r < f.sels.len() { assert(f.sels[r].contains(k)); } assert(g.sels[p] == f.sels[p]); }
    assert forall|p: int| 0 <= p < g.sels.len() implies increasing(#[trigger] g.sels[p]) by { if p < f.sels.len() { assert(g.sels[p] == f.sels[p]); } }
}
pub open spec fn wanted(m: Channels, x: MessageMetadata) -> bool { m.dom().contains(x.commit.channel_kind) && m[x.commit.channel_kind].waits(x.commit.key) }
/// what a flush of a client's transport does
pub open spec fn flushed(a: Transport, b: Transport, l0: Seq<Bytes>, l1: Seq<Bytes>, reg: ChannelRegistry, f: Flush) -> bool {
    &&& exists|n: int| 0 <= n <= a.recv_channel.queue().len() && #[trigger] told(a.senders@, f.mid, a.recv_channel.queue().take(n)) && (n < a.recv_channel.queue().len() ==> !a.senders@.dom().contains(a.recv_channel.queue()[n].0))
    &&& f.listed(a.priority_manager.config.enabled, reg) && f.packets() && f.fair() && (f.outcome is Complete ==> f.all_out()) && (f.outcome is BandwidthLimited ==> a.bandwidth_limiter.on() && !f.all_out())
    &&& b.senders@.dom() == f.mid.dom() && forall|j: ChannelKind| f.mid.dom().contains(j) ==> (#[trigger] b.senders@[j]).same(f.mid[j]) && b.senders@[j].log() == f.mid[j].log() + commits(f.done(), j) + seq![Did::Finish(f.outcome)] && b.senders@[j].messages_sent@ == f.mid[j].messages_sent@ + numbers(f.done(), j)
    &&& b.packet_message_acks.waiting() == awaited(a.packet_message_acks.waiting(), f.mid, f.done())
    &&& b.bandwidth_limiter.on() == a.bandwidth_limiter.on() && (a.bandwidth_limiter.on() ==> b.bandwidth_limiter.granted() == a.bandwidth_limiter.granted() + total(f.outs))
    &&& views(l1) == views(l0) + f.outs + f.tail
    &&& f.tail.len() <= 1 && (f.tail.len() == 1 ==> f.outs.len() == 0 && ack_only(f.tail[0]) && f.tail[0].len() <= f.mtu) && (f.outs.len() == 0 && a.packet_manager.header_manager.pending() && f.mtu >= 13 ==> f.tail.len() == 1)
    &&& if f.tail.len() == 0 { b.packet_manager.header_manager.log() == a.packet_manager.header_manager.log() + dated(f.ids, f.now) } else { exists|id: PacketId| b.packet_manager.header_manager.log() == #[trigger] a.packet_manager.header_manager.log().push(Out::Ack(id)) }
}
//@@ closure TransportPlugin::buffer_send for_each
//@@ sig: fn flush(link: &mut Link, transport: &mut Transport, host_client: &mut Option<HostClient>, tick: Tick, real_time: &Time, channel_registry: &ChannelRegistry)
//@@ hoist: try_for_each over transport.recv_channel.try_iter() => vx_host_all(&mut transport.recv_channel, host_client, tick)
//@@ hoist: iife => send_buffered(transport, tick)
//@@ hoist: for_each#0 over transport.senders.values_mut() => vx_collect_all(&mut transport.senders, candidates)
//@@ hoist: for_each#0 over transport.senders.values_mut() => vx_finish_all(&mut transport.senders, flush_outcome)
//@@ stepped: vx_it
//@@ rename: crate :: packet :: packet_builder :: CandidateCursor => CandidateCursor ;; let transport = & mut * transport ; => ;; . inspect_err ( | e | ( ) ) . ok ( ) => ;; Some ( mut host_client ) => Some(host_client) ;; total_bytes_sent += packet . payload . len ( ) as u32 ; => total_bytes_sent = vx_add(total_bytes_sent, packet.payload.len()); ;; total_bytes_sent += packet_len as u32 ; => total_bytes_sent = vx_add(total_bytes_sent, packet_len); ;; core :: mem :: take ( & mut packet . messages ) => vx_take(&mut packet.messages) ;; packet_messages . drain ( .. ) => vx_drain(&mut packet_messages) ;; let mut total_bytes_sent = 0 ; => let mut total_bytes_sent: u32 = 0; ;; prioritize ( & channel_registry ) => prioritize(channel_registry)
//@@ spec:
//@@ | requires fit(old(transport).packet_manager.buffer_pool), blank(old(transport).packet_message_acks.ready@), forall|j: ChannelKind| old(transport).senders@.dom().contains(j) ==> (#[trigger] old(transport).senders@[j]).kind() == j && channel_registry.settings(old(transport).senders@[j].id()) is Some
//@@ | ensures fit(final(transport).packet_manager.buffer_pool), blank(final(transport).packet_message_acks.ready@),
//@@ |   match *old(host_client) { Some(h) => *final(link) == *old(link) && final(transport).senders == old(transport).senders && final(host_client)->Some_0.buffer@ == h.buffer@ + local(old(transport).recv_channel.queue(), tick),
//@@ |     None => exists|f: Flush| #[trigger] flushed(*old(transport), *final(transport), old(link).send.l@, final(link).send.l@, *channel_registry, f) && f.mtu == old(link).most() && f.tick == tick && f.now == real_time.now() }
//@@ start: let ghost a = *transport; let ghost l0 = link.send.l@; let ghost w0 = transport.packet_message_acks.waiting();
//@@ before "transport.priority_manager.clear": let ghost mid = transport.senders@;
//@@ before "transport.priority_manager.prioritize": let ghost m1 = transport.senders@; let ghost off = offered(mid, order(mid)); proof { assert(transport.priority_manager.candidates@ =~= off); assert forall|j: ChannelKind| mid.dom().contains(j) implies (#[trigger] mid[j]).kind() == j by { assert(mid[j].same(a.senders@[j])); } assert forall|i: int| 0 <= i < order(mid).len() implies mid.dom().contains(#[trigger] order(mid)[i]) by { assert(order(mid).to_set().contains(order(mid)[i])); } offered_held(mid, m1, order(mid)); assert forall|i: int| 0 <= i < off.len() implies channel_registry.settings((#[trigger] off[i]).channel_id) is Some by { assert(held(m1, off[i])); let j = off[i].channel_kind; assert(m1[j].same(mid[j])); assert(mid[j].same(a.senders@[j])); } }
//@@ before "let mut candidate_cursor": let ghost c = transport.priority_manager.candidates@; let ghost mut cur = CandidateCursor { index: 0, single_index: 0 }; let ghost mut f = Flush { mid, c, sels: Seq::empty(), ids: Seq::empty(), outs: Seq::empty(), tail: Seq::empty(), outcome: SendFlushOutcome::Complete, mtu, tick, now: real_time.now() };
//@@ |  proof { listed_held(m1, c, off, *channel_registry, a.priority_manager.config.enabled); assert(views(l0) + f.outs =~= views(l0)); assert(a.packet_manager.header_manager.log() + dated(f.ids, f.now) =~= a.packet_manager.header_manager.log()); assert forall|j: ChannelKind| m1.dom().contains(j) implies (#[trigger] m1[j]).same(m1[j]) && m1[j].log() == m1[j].log() + commits(f.done(), j) && m1[j].messages_sent@ == m1[j].messages_sent@ + numbers(f.done(), j) by { assert(m1[j].log() =~= m1[j].log() + commits(f.done(), j)); assert(m1[j].messages_sent@ =~= m1[j].messages_sent@ + numbers(f.done(), j)); } }
//@@ loop 0:
//@@ | invariant_except_break candidate_cursor == cur, flush_outcome is Complete
//@@ | invariant a == *old(transport), l0 == old(link).send.l@, w0 == a.packet_message_acks.waiting(), f.mid == mid, f.c == c, c == transport.priority_manager.candidates@, f.mtu == mtu, f.tick == tick, f.now == real_time.now(), f.tail.len() == 0, ranked(c), f.packets(), standing(c, cur, f.sels),
//@@ |   likewise(mid, m1), committed(m1, transport.senders@, f.done()), keeps(m1, transport.senders@), forall|i: int| 0 <= i < c.len() ==> held(m1, #[trigger] c[i]),
//@@ |   transport.packet_message_acks.waiting() == awaited(w0, mid, f.done()), blank(transport.packet_message_acks.ready@), fit(transport.packet_manager.buffer_pool),
//@@ |   transport.packet_manager.header_manager.log() == a.packet_manager.header_manager.log() + dated(f.ids, f.now), f.outs.len() == 0 ==> transport.packet_manager.header_manager == a.packet_manager.header_manager,
//@@ |   transport.bandwidth_limiter.on() == a.bandwidth_limiter.on(), a.bandwidth_limiter.on() ==> transport.bandwidth_limiter.granted() == a.bandwidth_limiter.granted() + total(f.outs),
//@@ |   total_bytes_sent == total(f.outs), views(link.send.l@) == views(l0) + f.outs
//@@ | ensures flush_outcome is Complete ==> f.all_out(), flush_outcome is BandwidthLimited ==> a.bandwidth_limiter.on() && !f.all_out()
//@@ | decreases c.len() - cur.index
//@@ loopbody 0: let ghost lb = link.send.l@;
//@@ before "let mut packet = match": let ghost nc = candidate_cursor; proof { if staged matches Ok(None) { assert forall|k: int| 0 <= k < f.c.len() implies #[trigger] out(f.sels, k) by { assert(used(nc, c, k)); assert(used(cur, c, k)); } } }
//@@ after "let mut packet = match": let ghost ms = packet.messages@; let ghost id = packet.packet_id; let ghost q = packet.payload@; let ghost sel = choose|sel: Seq<int>| #[trigger] taken(c, cur, nc, sel) && packed(q, id, tick.0, chosen(c, sel)) && ms == metas(chosen(c, sel)) && level(c, cur, nc); proof { assert(sel.contains(sel[0])); assert(!used(cur, c, sel[0])); assert(!out(f.sels, sel[0])); }
//@@ before "let mut packet_messages": let ghost base = f.done(); let ghost pm = transport.packet_manager; let ghost pq = transport.priority_manager; let ghost bl = transport.bandwidth_limiter; proof { assert(base + tagged(id, ms.take(0)) =~= base); assert(ms.skip(0) =~= ms); assert forall|i: int| 0 <= i < ms.len() implies wanted(m1, #[trigger] ms[i]) by { assert(sel.contains(sel[i])); assert(held(m1, c[sel[i]])); } }
//@@ loop 1:
//@@ | invariant vx_it.rest().len() <= ms.len(), vx_it.rest() == ms.skip(ms.len() - vx_it.rest().len()), pm == transport.packet_manager, pq == transport.priority_manager, bl == transport.bandwidth_limiter, packet.packet_id == id, likewise(mid, m1), forall|i: int| 0 <= i < ms.len() ==> wanted(m1, #[trigger] ms[i]), real_time.now() == f.now,
//@@ |   committed(m1, transport.senders@, base + tagged(id, ms.take(ms.len() - vx_it.rest().len()))), keeps(m1, transport.senders@), transport.packet_message_acks.waiting() == awaited(w0, mid, base + tagged(id, ms.take(ms.len() - vx_it.rest().len()))), blank(transport.packet_message_acks.ready@)
//@@ | ensures vx_it.rest().len() == 0
//@@ | decreases vx_it.rest().len()
//@@ loopbody 1: let ghost sb = transport.senders@; let ghost n = ms.len() - vx_it.rest().len(); let ghost sofar = base + tagged(id, ms.take(n)); proof { if n < ms.len() { assert(ms.skip(n)[0] == ms[n]); assert(ms.skip(n).skip(1) =~= ms.skip(n + 1)); assert(wanted(m1, ms[n])); assert(base + tagged(id, ms.take(n + 1)) =~= sofar.push((id, ms[n]))); assert(sofar.push((id, ms[n])).drop_last() =~= sofar); let k = ms[n].commit.channel_kind; assert(sb[k].same(m1[k])); assert(m1[k].same(mid[k])); } }
//@@ before "continue": proof { assert(transport.senders@.dom() =~= sb.dom()); committed_one(m1, sb, transport.senders@, sofar, (id, ms[n])); }
//@@ before "if watches_acks": proof { assert(transport.senders@.dom() =~= sb.dom()); committed_one(m1, sb, transport.senders@, sofar, (id, ms[n])); }
//@@ afterloop 1: proof { assert(ms.take(ms.len() as int) =~= ms); }
//@@ loopend 0: proof { one_more(f, sel, id, q, cur, nc); assert(link.send.l@.drop_last() =~= lb); assert(link.send.l@.last()@ == q); assert(views(link.send.l@) =~= views(lb).push(q)); assert(views(link.send.l@) =~= views(l0) + f.outs.push(q)); assert(transport.packet_manager.header_manager.log() =~= a.packet_manager.header_manager.log() + dated(f.ids.push(id), f.now)); f = Flush { sels: f.sels.push(sel), ids: f.ids.push(id), outs: f.outs.push(q), ..f }; cur = nc; }
//@@ afterloop 0: let ghost s2 = transport.senders@; let ghost h2 = transport.packet_manager.header_manager; let ghost l2 = link.send.l@; let ghost mid0 = mid; proof { standing_fair(f, cur); f = Flush { outcome: flush_outcome, ..f }; if f.outs.len() > 0 { assert(f.outs[f.outs.len() - 1].len() > 0); } }
//@@ before "if total_bytes_sent > 0": proof {
//@@ | let l1 = link.send.l@; f = Flush { tail: if l1.len() > l2.len() { seq![l1.last()@] } else { Seq::empty() }, ..f };
//@@ | assert(views(l1) =~= views(l0) + f.outs + f.tail);
//@@ | assert forall|j: ChannelKind| mid0.dom().contains(j) implies (#[trigger] transport.senders@[j]).same(mid0[j]) && transport.senders@[j].log() == mid0[j].log() + commits(f.done(), j) + seq![Did::Finish(f.outcome)] && transport.senders@[j].messages_sent@ == mid0[j].messages_sent@ + numbers(f.done(), j) by { assert(s2[j].same(m1[j])); assert(m1[j].same(mid0[j])); assert(transport.senders@[j].log() =~= mid0[j].log() + commits(f.done(), j) + seq![Did::Finish(f.outcome)]); }
//@@ | assert(flushed(a, *transport, l0, l1, *channel_registry, f));
//@@ | }
//@@ end
}
fn main() {}

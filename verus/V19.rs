// V19: one receive of a link's transport (T15, T11, T12): what was acknowledged or lost, and who was told.
// Real code: crates/transport/transport/src/plugin.rs (the closure of buffer_receive), channel/builder.rs, channel/send.rs.
use vstd::prelude::*;
verus! {
//@@ include maps.inc
#[derive(Clone, Copy)]
pub struct ChannelKind(pub u64);
#[derive(Clone, Copy)]
pub struct ChannelId(pub u16);
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct MessageId(pub u16);
#[derive(Clone, Copy)]
pub struct FragmentIndex(pub u64);
#[derive(Clone, Copy)]
pub struct PacketId(pub u16);
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { x: u64 }
pub struct PacketError {}
pub enum TransportError { ChannelNotFound, Other }
#[verifier::external_body]
pub struct LinkStats { x: u64 }
#[verifier::external_body]
pub struct ChannelRegistry { x: u64 }
#[verifier::external_body]
pub struct Bytes { x: u64 }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
pub struct Time { x: u64 }
impl Time {
    pub uninterp spec fn now(self) -> Duration;
    #[verifier::external_body]
    pub fn elapsed(&self) -> (r: Duration) ensures r == self.now() { unimplemented!() }
}
//@@ source crates/transport/transport/src/packet/message.rs
#[derive(Clone, Copy)]
//@@ item struct MessageAck
// ---------------------------------------------------------------- channels, as V8 has them
pub enum Did { Updated(Time, LinkStats), Ack(MessageAck, bool), Nack(MessageAck) }
#[verifier::external_body]
pub struct SendState { x: u64 }
impl SendState {
    /// what was asked of this channel, in order, and what it answered
    pub uninterp spec fn log(self) -> Seq<Did>;
}
pub struct ChannelSend { pub message_acks: Vec<MessageId>, pub message_nacks: Vec<MessageId>, pub messages_sent: Vec<MessageId>, pub state: SendState }
/// the messages a channel answered were complete
pub open spec fn complete(l: Seq<Did>) -> Seq<MessageId> decreases l.len() { if l.len() == 0 { Seq::empty() } else { match l.last() { Did::Ack(a, true) => complete(l.drop_last()).push(a.message_id), _ => complete(l.drop_last()) } } }
pub open spec fn lost(l: Seq<Did>) -> Seq<MessageId> decreases l.len() { if l.len() == 0 { Seq::empty() } else { match l.last() { Did::Nack(a) => lost(l.drop_last()).push(a.message_id), _ => lost(l.drop_last()) } } }
/// what it was asked, without the answers
pub enum Ask { Updated, Ack(MessageAck), Nack(MessageAck) }
pub open spec fn ask(d: Did) -> Ask { match d { Did::Updated(..) => Ask::Updated, Did::Ack(a, _) => Ask::Ack(a), Did::Nack(a) => Ask::Nack(a) } }
pub open spec fn asks(l: Seq<Did>) -> Seq<Ask> { l.map_values(|d: Did| ask(d)) }
impl ChannelSend {
    pub open spec fn log(self) -> Seq<Did> { self.state.log() }
    #[verifier::external_body]
    pub fn update(&mut self, real_time: &Time, link_stats: &LinkStats)
        ensures final(self).log() == old(self).log().push(Did::Updated(*real_time, *link_stats)), final(self).message_acks == old(self).message_acks, final(self).message_nacks == old(self).message_nacks, final(self).messages_sent == old(self).messages_sent { unimplemented!() }
    #[verifier::external_body]
    pub fn receive_ack(&mut self, ack: &MessageAck) -> (r: bool)
        ensures final(self).log() == old(self).log().push(Did::Ack(*ack, r)), final(self).message_acks == old(self).message_acks, final(self).message_nacks == old(self).message_nacks, final(self).messages_sent == old(self).messages_sent { unimplemented!() }
    #[verifier::external_body]
    pub fn receive_nack(&mut self, nack: &MessageAck)
        ensures final(self).log() == old(self).log().push(Did::Nack(*nack)), final(self).message_acks == old(self).message_acks, final(self).message_nacks == old(self).message_nacks, final(self).messages_sent == old(self).messages_sent { unimplemented!() }
//@@ source crates/transport/transport/src/channel/send.rs
//@@ fn ChannelSend::clear_frame_events
//@@ spec: ensures final(self).state == old(self).state, final(self).message_acks@.len() == 0, final(self).message_nacks@.len() == 0, final(self).messages_sent@.len() == 0
//@@ end
    /// since it was updated, the channel reported exactly what was acknowledged in full and what was lost
    pub open spec fn truthful(self, since: int) -> bool { self.message_acks@ == complete(self.log().skip(since)) && self.message_nacks@ == lost(self.log().skip(since)) }
}
// ---------------------------------------------------------------- which messages went out in which packet
type PacketMessageAcks = Vec<(ChannelKind, MessageAck)>;
//@@ source crates/transport/transport/src/channel/builder.rs
//@@ item const MAX_RETAINED_PACKET_MESSAGE_ACK_LISTS
//@@ item const MAX_RETAINED_PACKET_MESSAGE_ACK_CAPACITY
//@@ item struct PacketMessageAckTracker tracked=>by_packet
#[verifier::external_body]
fn vx_capacity(m: &PacketMessageAcks) -> usize { unimplemented!() }
pub type Waiting = Map<PacketId, Seq<(ChannelKind, MessageAck)>>;
pub open spec fn blank(l: Seq<PacketMessageAcks>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i])@ == Seq::<(ChannelKind, MessageAck)>::empty() }
impl PacketMessageAckTracker {
    pub open spec fn waiting(self) -> Waiting { self.by_packet@.map_values(|v: PacketMessageAcks| v@) }
//@@ fn PacketMessageAckTracker::take
//@@ rename: self . tracked => self.by_packet
//@@ spec:
//@@ | requires blank(old(self).ready@)
//@@ | ensures blank(final(self).ready@), final(self).waiting() == old(self).waiting().remove(*packet_id), match r { Some(l) => old(self).waiting().dom().contains(*packet_id) && l@ == old(self).waiting()[*packet_id], None => !old(self).waiting().dom().contains(*packet_id) }
//@@ end
//@@ fn PacketMessageAckTracker::recycle
//@@ rename: message_acks . capacity ( ) => vx_capacity(&message_acks)
//@@ spec:
//@@ | requires blank(old(self).ready@)
//@@ | ensures blank(final(self).ready@), final(self).waiting() == old(self).waiting()
//@@ end
}
// ---------------------------------------------------------------- the transport
pub type Channels = Map<ChannelKind, ChannelSend>;
pub type Told = Seq<(ChannelKind, MessageAck)>;
/// the channels a list is about are there
pub open spec fn known(m: Channels, l: Told) -> bool { forall|i: int| 0 <= i < l.len() ==> m.dom().contains((#[trigger] l[i]).0) }
pub open spec fn all_known(m: Channels, w: Waiting) -> bool { forall|p: PacketId| w.dom().contains(p) ==> known(m, #[trigger] w[p]) }
/// what a list says to one channel
pub open spec fn says(l: Told, k: ChannelKind, ack: bool) -> Seq<Ask> decreases l.len() { if l.len() == 0 { Seq::empty() } else { let p = says(l.drop_last(), k, ack); if l.last().0 == k { p.push(if ack { Ask::Ack(l.last().1) } else { Ask::Nack(l.last().1) }) } else { p } } }
/// the channels, told a list; each reports what that made of its messages
pub open spec fn informed(a: Channels, b: Channels, l: Told, ack: bool) -> bool {
    b.dom() == a.dom() && forall|j: ChannelKind| a.dom().contains(j) ==> grown(a[j], #[trigger] b[j], says(l, j, ack))
}
pub open spec fn grown(a: ChannelSend, b: ChannelSend, s: Seq<Ask>) -> bool {
    a.log().is_prefix_of(b.log()) && asks(b.log().skip(a.log().len() as int)) =~= s && b.messages_sent == a.messages_sent
    && b.message_acks@ =~= a.message_acks@ + complete(b.log().skip(a.log().len() as int)) && b.message_nacks@ =~= a.message_nacks@ + lost(b.log().skip(a.log().len() as int))
}
pub proof fn complete_add(l: Seq<Did>, m: Seq<Did>) ensures complete(l + m) =~= complete(l) + complete(m), lost(l + m) =~= lost(l) + lost(m) decreases m.len()
{ if m.len() > 0 { complete_add(l, m.drop_last()); assert((l + m).drop_last() =~= l + m.drop_last()); } else { assert(l + m =~= l); } }
pub proof fn says_add(l: Told, m: Told, k: ChannelKind, ack: bool) ensures says(l + m, k, ack) =~= says(l, k, ack) + says(m, k, ack) decreases m.len()
{ if m.len() > 0 { says_add(l, m.drop_last(), k, ack); assert((l + m).drop_last() =~= l + m.drop_last()); } else { assert(l + m =~= l); } }
pub proof fn grown_twice(a: ChannelSend, b: ChannelSend, c: ChannelSend, s: Seq<Ask>, t: Seq<Ask>)
    requires grown(a, b, s), grown(b, c, t) ensures grown(a, c, s + t)
{
    let x = b.log().skip(a.log().len() as int); let y = c.log().skip(b.log().len() as int);
    assert(c.log().skip(a.log().len() as int) =~= x + y); complete_add(x, y); assert(asks(x + y) =~= asks(x) + asks(y));
}
pub proof fn informed_twice(a: Channels, b: Channels, c: Channels, l: Told, m: Told, ack: bool)
    requires informed(a, b, l, ack), informed(b, c, m, ack) ensures informed(a, c, l + m, ack)
{ assert forall|j: ChannelKind| a.dom().contains(j) implies grown(a[j], #[trigger] c[j], says(l + m, j, ack)) by { says_add(l, m, j, ack); assert(b.dom().contains(j)); assert(grown(a[j], b[j], says(l, j, ack))); grown_twice(a[j], b[j], c[j], says(l, j, ack), says(m, j, ack)); assert(says(l, j, ack) + says(m, j, ack) =~= says(l + m, j, ack)); } }
pub proof fn informed_none(a: Channels, ack: bool) ensures informed(a, a, Seq::empty(), ack)
{ assert forall|j: ChannelKind| a.dom().contains(j) implies grown(a[j], #[trigger] a[j], says(Seq::empty(), j, ack)) by { let e = a[j].log().skip(a[j].log().len() as int); assert(e =~= Seq::empty()); assert(asks(e) =~= Seq::empty()); } }
/// what is remembered of these packets, in their order
pub open spec fn lists(w: Waiting, l: Seq<PacketId>) -> Told decreases l.len() { if l.len() == 0 { Seq::empty() } else { let d = left(w, l.drop_last()); lists(w, l.drop_last()) + (if d.dom().contains(l.last()) { d[l.last()] } else { Seq::empty() }) } }
/// what remains remembered
pub open spec fn left(w: Waiting, l: Seq<PacketId>) -> Waiting decreases l.len() { if l.len() == 0 { w } else { left(w, l.drop_last()).remove(l.last()) } }
pub proof fn left_is(w: Waiting, l: Seq<PacketId>) ensures forall|p: PacketId| #[trigger] left(w, l).dom().contains(p) <==> w.dom().contains(p) && !l.contains(p), forall|p: PacketId| #[trigger] left(w, l).dom().contains(p) ==> left(w, l)[p] == w[p] decreases l.len()
{ if l.len() > 0 { left_is(w, l.drop_last()); assert forall|p: PacketId| l.contains(p) <==> (#[trigger] l.drop_last().contains(p) || p == l.last()) by { if l.contains(p) { let i = choose|i: int| 0 <= i < l.len() && l[i] == p; if i < l.len() - 1 { assert(l.drop_last()[i] == p); } } if l.drop_last().contains(p) { let i = choose|i: int| 0 <= i < l.len() - 1 && l.drop_last()[i] == p; assert(l[i] == p); } if p == l.last() { assert(l[l.len() - 1] == p); } } assert forall|p: PacketId| #[trigger] left(w, l).dom().contains(p) <==> w.dom().contains(p) && !l.contains(p) by { assert(l.contains(p) <==> (l.drop_last().contains(p) || p == l.last())); assert(left(w, l.drop_last()).dom().contains(p) <==> w.dom().contains(p) && !l.drop_last().contains(p)); } assert forall|p: PacketId| #[trigger] left(w, l).dom().contains(p) implies left(w, l)[p] == w[p] by { assert(left(w, l.drop_last()).dom().contains(p)); } } }
pub struct PacketHeaderManager { pub lost_packets: Vec<PacketId>, pub newly_acked_packets: Vec<(PacketId, Duration)>, pub inner: Hm }
#[verifier::external_body]
pub struct Hm { x: u64 }
impl Hm { pub uninterp spec fn heard(self) -> Seq<(Seq<u8>, Duration)>; pub uninterp spec fn updated(self) -> nat;
    /// every acknowledgement and every loss it found, ever
    pub uninterp spec fn acked(self) -> Seq<(PacketId, Duration)>;
    pub uninterp spec fn lost(self) -> Seq<PacketId>; }
/// the list got exactly what was found
pub open spec fn adds<T>(l: Seq<T>, m: Seq<T>, log: Seq<T>, now: Seq<T>) -> bool { log.is_prefix_of(now) && m =~= l + now.skip(log.len() as int) }
pub proof fn adds_twice<T>(l: Seq<T>, m: Seq<T>, n: Seq<T>, a: Seq<T>, b: Seq<T>, c: Seq<T>) requires adds(l, m, a, b), adds(m, n, b, c) ensures adds(l, n, a, c)
{ assert(l + c.skip(a.len() as int) =~= (l + b.skip(a.len() as int)) + c.skip(b.len() as int)); }
impl PacketHeaderManager {
    /// T07 is about the real function
    #[verifier::external_body]
    pub fn update(&mut self, now: Duration, link_stats: &LinkStats)
        ensures final(self).newly_acked_packets == old(self).newly_acked_packets, final(self).inner.acked() == old(self).inner.acked(), adds(old(self).lost_packets@, final(self).lost_packets@, old(self).inner.lost(), final(self).inner.lost()), final(self).inner.heard() == old(self).inner.heard(), final(self).inner.updated() == old(self).inner.updated() + 1 { unimplemented!() }
}
pub struct PacketManager { pub header_manager: PacketHeaderManager }
#[verifier::external_body]
pub struct Receivers { x: u64 }
impl Receivers { pub uninterp spec fn times(self) -> Seq<Duration>; pub uninterp spec fn refusals(self) -> nat; }
/// values_mut().for_each(|channel_receive| ..)
#[verifier::external_body]
fn vx_update_receivers(r: &mut Receivers, time: &Time) ensures final(r).times() == old(r).times().push(time.now()), final(r).refusals() == old(r).refusals() { unimplemented!() }
pub struct Transport { pub senders: HashMap<ChannelKind, ChannelSend>, pub receivers: Receivers, pub packet_manager: PacketManager, pub packet_message_acks: PacketMessageAckTracker }
pub struct LinkReceiver { pub q: Vec<Bytes> }
impl LinkReceiver { pub open spec fn queue(self) -> Seq<Seq<u8>> { self.q@.map_values(|b: Bytes| b@) } }
pub struct Link { pub recv: LinkReceiver, pub stats: LinkStats }
/// whether its header can be read
pub uninterp spec fn headed(p: Seq<u8>) -> bool;
pub open spec fn at(l: Seq<Seq<u8>>, now: Duration) -> Seq<(Seq<u8>, Duration)> decreases l.len() { if l.len() == 0 { Seq::empty() } else { let p = at(l.drop_last(), now); if headed(l.last()) { p.push((l.last(), now)) } else { p } } }
/// the closure of try_for_each, as V16 has it
#[verifier::external_body]
fn receive_packet(packet: Bytes, transport: &mut Transport, time: &Time, channel_registry: &ChannelRegistry) -> (r: Result<(), TransportError>)
    ensures final(transport).senders == old(transport).senders, final(transport).packet_message_acks == old(transport).packet_message_acks, final(transport).receivers.times() == old(transport).receivers.times(), found(*old(transport), *final(transport)),
        final(transport).packet_manager.header_manager.inner.updated() == old(transport).packet_manager.header_manager.inner.updated(),
        final(transport).packet_manager.header_manager.inner.heard() == (if headed(packet@) { old(transport).packet_manager.header_manager.inner.heard().push((packet@, time.now())) } else { old(transport).packet_manager.header_manager.inner.heard() }),
        packet_ok(packet@) && final(transport).receivers.refusals() == old(transport).receivers.refusals() ==> r is Ok, !packet_ok(packet@) ==> r is Err, r is Ok ==> final(transport).receivers.refusals() == old(transport).receivers.refusals()
{ unimplemented!() }
/// hearing packets finds acknowledgements, not losses
pub open spec fn found(a: Transport, b: Transport) -> bool { let x = a.packet_manager.header_manager; let y = b.packet_manager.header_manager; y.inner.lost() == x.inner.lost() && y.lost_packets == x.lost_packets && adds(x.newly_acked_packets@, y.newly_acked_packets@, x.inner.acked(), y.inner.acked()) }
pub proof fn found_twice(a: Transport, b: Transport, c: Transport) requires found(a, b), found(b, c) ensures found(a, c) { let x = a.packet_manager.header_manager; let y = b.packet_manager.header_manager; let z = c.packet_manager.header_manager; adds_twice(x.newly_acked_packets@, y.newly_acked_packets@, z.newly_acked_packets@, x.inner.acked(), y.inner.acked(), z.inner.acked()); }
/// whether it is well formed
pub uninterp spec fn packet_ok(p: Seq<u8>) -> bool;
/// the packets up to the first that is refused are heard, in order, each once, and none is heard again
pub open spec fn heard_upto(a: Transport, b: Transport, q: Seq<Seq<u8>>, now: Duration, n: int) -> bool {
    &&& 0 <= n <= q.len() && b.packet_manager.header_manager.inner.heard() == a.packet_manager.header_manager.inner.heard() + at(q.take(n), now)
    &&& forall|i: int| 0 <= i < n - 1 ==> packet_ok(#[trigger] q[i])
    &&& n < q.len() ==> n > 0 && (packet_ok(q[n - 1]) ==> a.receivers.refusals() != b.receivers.refusals())
}
/// drain().try_for_each(that)
fn vx_receive_all(recv: &mut LinkReceiver, transport: &mut Transport, time: &Time, channel_registry: &ChannelRegistry)
    ensures final(recv).queue().len() == 0, final(transport).senders == old(transport).senders, final(transport).packet_message_acks == old(transport).packet_message_acks,
        final(transport).packet_manager.header_manager.inner.updated() == old(transport).packet_manager.header_manager.inner.updated(), final(transport).receivers.times() == old(transport).receivers.times(),
        found(*old(transport), *final(transport)), exists|n: int| #[trigger] heard_upto(*old(transport), *final(transport), old(recv).queue(), time.now(), n)
{
    let ghost a = *transport; let ghost q0 = recv.q@; let ghost q = recv.queue(); let ghost mut n = 0int;
    proof { assert(q.take(0) =~= Seq::empty()); assert(q0.skip(0) =~= q0); assert(a.packet_manager.header_manager.inner.heard() + at(q.take(0), time.now()) =~= a.packet_manager.header_manager.inner.heard()); }
    while recv.q.len() > 0
        invariant found(a, *transport), a == *old(transport), q0 == old(recv).q@, q == old(recv).queue(), 0 <= n, n + recv.q@.len() == q0.len(), q.len() == q0.len(), recv.q@ == q0.skip(n), transport.senders == a.senders, transport.packet_message_acks == a.packet_message_acks,
            transport.packet_manager.header_manager.inner.updated() == a.packet_manager.header_manager.inner.updated(), transport.receivers.times() == a.receivers.times(), transport.receivers.refusals() == a.receivers.refusals(),
            transport.packet_manager.header_manager.inner.heard() == a.packet_manager.header_manager.inner.heard() + at(q.take(n), time.now()), forall|i: int| 0 <= i < n ==> packet_ok(#[trigger] q[i])
        decreases recv.q@.len()
    {
        let p = recv.q.remove(0);
        let ghost b = *transport;
        proof { assert(p == q0[n]); assert(q[n] == p@); assert(q.take(n + 1).drop_last() =~= q.take(n)); assert(q0.skip(n).remove(0) =~= q0.skip(n + 1)); n = n + 1; }
        let r = receive_packet(p, transport, time, channel_registry);
        proof { found_twice(a, b, *transport); }
        match r {
            Ok(_) => {}
            Err(_) => { proof { assert(at(q.take(n), time.now()) == (if headed(p@) { at(q.take(n - 1), time.now()).push((p@, time.now())) } else { at(q.take(n - 1), time.now()) })); assert(transport.packet_manager.header_manager.inner.heard() =~= a.packet_manager.header_manager.inner.heard() + at(q.take(n), time.now())); assert(heard_upto(a, *transport, q, time.now(), n)); } recv.q.clear(); return; }
        }
        proof { assert(transport.packet_manager.header_manager.inner.heard() =~= a.packet_manager.header_manager.inner.heard() + at(q.take(n), time.now())); }
    }
    proof { assert(heard_upto(a, *transport, q, time.now(), n)); }
}
/// the commands that trigger PacketLost
#[verifier::external_body]
fn vx_tell() { }
//@@ features std
//@@ source crates/transport/transport/src/plugin.rs
//@@ closure TransportPlugin::buffer_receive for_each#1
//@@ sig: fn vx_update_one($0: &mut ChannelSend, time: &Time, link: &Link)
//@@ rename: channel_send . update ( & time => channel_send.update(time
//@@ spec: ensures final($0).log() == old($0).log().push(Did::Updated(*time, link.stats)), final($0).message_acks@.len() == 0, final($0).message_nacks@.len() == 0, final($0).messages_sent@.len() == 0
//@@ end
pub open spec fn renewed(a: Channels, b: Channels, time: Time, stats: LinkStats) -> bool { b.dom() == a.dom() && forall|j: ChannelKind| a.dom().contains(j) ==> (#[trigger] b[j]).log() == a[j].log().push(Did::Updated(time, stats)) && b[j].message_acks@.len() == 0 && b[j].message_nacks@.len() == 0 && b[j].messages_sent@.len() == 0 }
/// values_mut().for_each(that)
fn vx_update_all(senders: &mut HashMap<ChannelKind, ChannelSend>, time: &Time, link: &Link)
    ensures renewed(old(senders)@, final(senders)@, *time, link.stats)
{
    let ghost a = senders@;
    let ks = senders.vx_keys();
    let mut i: usize = 0;
    while i < ks.len()
        invariant i <= ks@.len(), a == old(senders)@, senders@.dom() == a.dom(), ks@.no_duplicates(), ks@.to_set() == a.dom(),
            forall|j: int| i <= j < ks@.len() ==> senders@[#[trigger] ks@[j]] == a[ks@[j]],
            forall|j: int| 0 <= j < i ==> ({ let b = senders@[#[trigger] ks@[j]]; b.log() == a[ks@[j]].log().push(Did::Updated(*time, link.stats)) && b.message_acks@.len() == 0 && b.message_nacks@.len() == 0 && b.messages_sent@.len() == 0 })
        decreases ks@.len() - i
    {
        proof { assert(ks@.to_set().contains(ks@[i as int])); }
        match senders.get_mut(&ks[i]) { Some(c) => vx_update_one(c, time, link), None => {} }
        proof { assert(senders@.dom() =~= a.dom()); }
        i += 1;
    }
    proof { assert forall|j: ChannelKind| a.dom().contains(j) implies (#[trigger] senders@[j]).log() == a[j].log().push(Did::Updated(*time, link.stats)) && senders@[j].message_acks@.len() == 0 && senders@[j].message_nacks@.len() == 0 && senders@[j].messages_sent@.len() == 0 by { assert(ks@.to_set().contains(j)); let i = choose|i: int| 0 <= i < ks@.len() && ks@[i] == j; assert(ks@[i] == j); } }
}
//@@ closure TransportPlugin::buffer_receive try_for_each#2
//@@ sig: fn vx_nack_one(vx_p: (ChannelKind, MessageAck), senders: &mut HashMap<ChannelKind, ChannelSend>) -> Result<(), TransportError>
//@@ rename: senders . get_mut ( & channel_kind ) . ok_or ( PacketError :: ChannelNotFound ) ? => (match senders.get_mut(&channel_kind) { Some(c) => c, None => { return Err(TransportError::ChannelNotFound); } })
//@@ spec:
//@@ | requires old(senders)@.dom().contains(vx_p.0)
//@@ | ensures r is Ok, informed(old(senders)@, final(senders)@, seq![vx_p], false)
//@@ start: let $0 = vx_p; let ghost a = senders@; proof { informed_none(a, false); step_one(a, vx_p, false); }
//@@ end
//@@ closure TransportPlugin::buffer_receive try_for_each#4
//@@ sig: fn vx_ack_one(vx_p: (ChannelKind, MessageAck), senders: &mut HashMap<ChannelKind, ChannelSend>) -> Result<(), TransportError>
//@@ rename: senders . get_mut ( & channel_kind ) . ok_or ( PacketError :: ChannelNotFound ) ? => (match senders.get_mut(&channel_kind) { Some(c) => c, None => { return Err(TransportError::ChannelNotFound); } })
//@@ spec:
//@@ | requires old(senders)@.dom().contains(vx_p.0)
//@@ | ensures r is Ok, informed(old(senders)@, final(senders)@, seq![vx_p], true)
//@@ start: let $0 = vx_p; let ghost a = senders@; proof { informed_none(a, true); step_one(a, vx_p, true); }
//@@ end
/// one channel told one thing
pub proof fn step_one(a: Channels, p: (ChannelKind, MessageAck), ack: bool)
    requires a.dom().contains(p.0)
    ensures forall|c: ChannelSend| once(a[p.0], c, p.1, ack) ==> informed(a, #[trigger] a.insert(p.0, c), seq![p], ack)
{
    assert forall|c: ChannelSend| once(a[p.0], c, p.1, ack) implies informed(a, #[trigger] a.insert(p.0, c), seq![p], ack) by {
        let b = a.insert(p.0, c); assert(b.dom() =~= a.dom()); informed_none(a, ack);
        assert(seq![p].drop_last() =~= Seq::empty());
        assert forall|j: ChannelKind| a.dom().contains(j) implies grown(a[j], #[trigger] b[j], says(seq![p], j, ack)) by {
            assert(grown(a[j], a[j], says(Seq::empty(), j, ack)));
            if j == p.0 { let d = c.log().last(); let e = c.log().skip(a[j].log().len() as int); assert(e =~= seq![d]); assert(e.drop_last() =~= Seq::empty()); assert(asks(e) =~= seq![ask(d)]); assert(e.last() == d); assert(complete(e.drop_last()) =~= Seq::empty()); assert(lost(e.drop_last()) =~= Seq::empty()); assert(says(seq![p], j, ack) =~= seq![ask(d)]); assert(b[j] == c); }
            else { assert(b[j] == a[j]); assert(says(seq![p], j, ack) =~= Seq::empty()); }
        }
    }
}
pub open spec fn once(a: ChannelSend, c: ChannelSend, m: MessageAck, ack: bool) -> bool {
    c.messages_sent == a.messages_sent && c.log().len() == a.log().len() + 1 && c.log() == a.log().push(c.log().last()) && match c.log().last() {
        Did::Ack(x, r) => ack && x == m && c.message_nacks@ == a.message_nacks@ && c.message_acks@ == (if r { a.message_acks@.push(m.message_id) } else { a.message_acks@ }),
        Did::Nack(x) => !ack && x == m && c.message_acks@ == a.message_acks@ && c.message_nacks@ == a.message_nacks@.push(m.message_id), _ => false }
}
/// drain(..).try_for_each(that)
fn vx_nack_all(l: &mut PacketMessageAcks, senders: &mut HashMap<ChannelKind, ChannelSend>) -> (r: Result<(), TransportError>)
    requires known(old(senders)@, old(l)@)
    ensures r is Ok, final(l)@.len() == 0, informed(old(senders)@, final(senders)@, old(l)@, false)
{
    let ghost a = senders@; let ghost l0 = l@; let ghost mut n = 0int;
    proof { informed_none(a, false); assert(l0.take(0) =~= Seq::empty()); assert(l0.skip(0) =~= l0); }
    while l.len() > 0
        invariant a == old(senders)@, l0 == old(l)@, known(a, l0), 0 <= n, n + l@.len() == l0.len(), l@ == l0.skip(n), informed(a, senders@, l0.take(n), false)
        decreases l@.len()
    {
        let ghost b = senders@;
        let x = l.remove(0);
        proof { assert(x == l0[n]); }
        vx_nack_one(x, senders)?;
        proof { informed_twice(a, b, senders@, l0.take(n), seq![x], false); assert(l0.take(n) + seq![x] =~= l0.take(n + 1)); assert(l@ =~= l0.skip(n + 1)); n = n + 1; }
    }
    proof { assert(l0.take(n) =~= l0); }
    Ok(())
}
fn vx_ack_all(l: &mut PacketMessageAcks, senders: &mut HashMap<ChannelKind, ChannelSend>) -> (r: Result<(), TransportError>)
    requires known(old(senders)@, old(l)@)
    ensures r is Ok, final(l)@.len() == 0, informed(old(senders)@, final(senders)@, old(l)@, true)
{
    let ghost a = senders@; let ghost l0 = l@; let ghost mut n = 0int;
    proof { informed_none(a, true); assert(l0.take(0) =~= Seq::empty()); assert(l0.skip(0) =~= l0); }
    while l.len() > 0
        invariant a == old(senders)@, l0 == old(l)@, known(a, l0), 0 <= n, n + l@.len() == l0.len(), l@ == l0.skip(n), informed(a, senders@, l0.take(n), true)
        decreases l@.len()
    {
        let ghost b = senders@;
        let x = l.remove(0);
        proof { assert(x == l0[n]); }
        vx_ack_one(x, senders)?;
        proof { informed_twice(a, b, senders@, l0.take(n), seq![x], true); assert(l0.take(n) + seq![x] =~= l0.take(n + 1)); assert(l@ =~= l0.skip(n + 1)); n = n + 1; }
    }
    proof { assert(l0.take(n) =~= l0); }
    Ok(())
}
/// one packet's messages told, and the packet forgotten
pub open spec fn settled(a: Channels, b: Channels, w: Waiting, v: Waiting, p: PacketId, ack: bool) -> bool { v == w.remove(p) && informed(a, b, if w.dom().contains(p) { w[p] } else { Seq::empty() }, ack) }
//@@ closure TransportPlugin::buffer_receive try_for_each#1
//@@ sig: fn vx_lost_one($0: PacketId, packet_message_acks: &mut PacketMessageAckTracker, senders: &mut HashMap<ChannelKind, ChannelSend>) -> Result<(), TransportError>
//@@ hoist: try_for_each over message_acks.drain(..) => vx_nack_all(&mut message_acks, senders)
//@@ hoist: command_scope over par_commands => vx_tell()
//@@ rename: Some ( mut message_acks ) => Some(message_acks) ;; let result => let mut message_acks = message_acks; let result
//@@ spec:
//@@ | requires blank(old(packet_message_acks).ready@), all_known(old(senders)@, old(packet_message_acks).waiting())
//@@ | ensures r is Ok, blank(final(packet_message_acks).ready@), settled(old(senders)@, final(senders)@, old(packet_message_acks).waiting(), final(packet_message_acks).waiting(), $0, false)
//@@ start: proof { informed_none(senders@, false); }
//@@ end
//@@ closure TransportPlugin::buffer_receive try_for_each#3
//@@ sig: fn vx_acked_one(vx_p: (PacketId, Duration), packet_message_acks: &mut PacketMessageAckTracker, senders: &mut HashMap<ChannelKind, ChannelSend>) -> Result<(), TransportError>
//@@ hoist: try_for_each over message_acks.drain(..) => vx_ack_all(&mut message_acks, senders)
//@@ rename: Some ( mut message_acks ) => Some(message_acks) ;; let result => let mut message_acks = message_acks; let result
//@@ spec:
//@@ | requires blank(old(packet_message_acks).ready@), all_known(old(senders)@, old(packet_message_acks).waiting())
//@@ | ensures r is Ok, blank(final(packet_message_acks).ready@), settled(old(senders)@, final(senders)@, old(packet_message_acks).waiting(), final(packet_message_acks).waiting(), vx_p.0, true)
//@@ start: let $0 = vx_p; proof { informed_none(senders@, true); }
//@@ end
pub open spec fn all_settled(a: Channels, b: Channels, w: Waiting, v: Waiting, l: Seq<PacketId>, ack: bool) -> bool { v == left(w, l) && informed(a, b, lists(w, l), ack) }
pub proof fn settle_next(a: Channels, b: Channels, c: Channels, w: Waiting, v: Waiting, u: Waiting, l: Seq<PacketId>, p: PacketId, ack: bool)
    requires all_settled(a, b, w, v, l, ack), settled(b, c, v, u, p, ack), all_known(a, w)
    ensures all_settled(a, c, w, u, l.push(p), ack), all_known(c, u)
{
    assert(l.push(p).drop_last() =~= l); left_is(w, l); left_is(w, l.push(p));
    informed_twice(a, b, c, lists(w, l), if v.dom().contains(p) { v[p] } else { Seq::empty() }, ack);
    assert forall|q: PacketId| u.dom().contains(q) implies known(c, #[trigger] u[q]) by { assert(left(w, l.push(p)).dom().contains(q)); assert(known(a, w[q])); }
}
/// drain(..).try_for_each(that)
fn vx_lost_all(l: &mut Vec<PacketId>, packet_message_acks: &mut PacketMessageAckTracker, senders: &mut HashMap<ChannelKind, ChannelSend>) -> (r: Result<(), TransportError>)
    requires blank(old(packet_message_acks).ready@), all_known(old(senders)@, old(packet_message_acks).waiting())
    ensures r is Ok, final(l)@.len() == 0, blank(final(packet_message_acks).ready@), all_settled(old(senders)@, final(senders)@, old(packet_message_acks).waiting(), final(packet_message_acks).waiting(), old(l)@, false), all_known(final(senders)@, final(packet_message_acks).waiting())
{
    let ghost a = senders@; let ghost w = packet_message_acks.waiting(); let ghost l0 = l@; let ghost mut n = 0int;
    proof { informed_none(a, false); assert(l0.take(0) =~= Seq::empty()); assert(l0.skip(0) =~= l0); }
    while l.len() > 0
        invariant a == old(senders)@, w == old(packet_message_acks).waiting(), all_known(a, w), all_known(senders@, packet_message_acks.waiting()), l0 == old(l)@, 0 <= n, n + l@.len() == l0.len(), l@ == l0.skip(n), blank(packet_message_acks.ready@), all_settled(a, senders@, w, packet_message_acks.waiting(), l0.take(n), false)
        decreases l@.len()
    {
        let ghost b = senders@; let ghost v = packet_message_acks.waiting();
        let x = l.remove(0);
        proof { assert(x == l0[n]); }
        vx_lost_one(x, packet_message_acks, senders)?;
        proof { settle_next(a, b, senders@, w, v, packet_message_acks.waiting(), l0.take(n), x, false); assert(l0.take(n).push(x) =~= l0.take(n + 1)); assert(l@ =~= l0.skip(n + 1)); n = n + 1; }
    }
    proof { assert(l0.take(n) =~= l0); }
    Ok(())
}
pub open spec fn ids(l: Seq<(PacketId, Duration)>) -> Seq<PacketId> { l.map_values(|x: (PacketId, Duration)| x.0) }
fn vx_acked_all(l: &mut Vec<(PacketId, Duration)>, packet_message_acks: &mut PacketMessageAckTracker, senders: &mut HashMap<ChannelKind, ChannelSend>) -> (r: Result<(), TransportError>)
    requires blank(old(packet_message_acks).ready@), all_known(old(senders)@, old(packet_message_acks).waiting())
    ensures r is Ok, final(l)@.len() == 0, blank(final(packet_message_acks).ready@), all_settled(old(senders)@, final(senders)@, old(packet_message_acks).waiting(), final(packet_message_acks).waiting(), ids(old(l)@), true), all_known(final(senders)@, final(packet_message_acks).waiting())
{
    let ghost a = senders@; let ghost w = packet_message_acks.waiting(); let ghost l0 = l@; let ghost mut n = 0int;
    proof { informed_none(a, true); assert(ids(l0).take(0) =~= Seq::empty()); assert(l0.skip(0) =~= l0); }
    while l.len() > 0
        invariant a == old(senders)@, w == old(packet_message_acks).waiting(), all_known(a, w), all_known(senders@, packet_message_acks.waiting()), l0 == old(l)@, 0 <= n, n + l@.len() == l0.len(), l@ == l0.skip(n), blank(packet_message_acks.ready@), all_settled(a, senders@, w, packet_message_acks.waiting(), ids(l0).take(n), true)
        decreases l@.len()
    {
        let ghost b = senders@; let ghost v = packet_message_acks.waiting();
        let x = l.remove(0);
        proof { assert(x == l0[n]); }
        vx_acked_one(x, packet_message_acks, senders)?;
        proof { settle_next(a, b, senders@, w, v, packet_message_acks.waiting(), ids(l0).take(n), x.0, true); assert(ids(l0).take(n).push(x.0) =~= ids(l0).take(n + 1)); assert(l@ =~= l0.skip(n + 1)); n = n + 1; }
    }
    proof { assert(ids(l0).take(n) =~= ids(l0)); }
    Ok(())
}
/// T15: what one receive does
pub open spec fn heard(a: Transport, b: Transport, q: Seq<Seq<u8>>, stats: LinkStats, time: Time, fresh: Channels, told: Channels, dead: Seq<PacketId>, alive: Seq<PacketId>) -> bool {
    &&& (exists|n: int| #[trigger] heard_upto(a, b, q, time.now(), n)) && b.packet_manager.header_manager.inner.updated() == a.packet_manager.header_manager.inner.updated() + 1
    // lost and acknowledged are the packets found so
    &&& adds(a.packet_manager.header_manager.lost_packets@, dead, a.packet_manager.header_manager.inner.lost(), b.packet_manager.header_manager.inner.lost())
    &&& exists|found: Seq<(PacketId, Duration)>| alive == ids(found) && #[trigger] adds(a.packet_manager.header_manager.newly_acked_packets@, found, a.packet_manager.header_manager.inner.acked(), b.packet_manager.header_manager.inner.acked())
    &&& b.packet_manager.header_manager.lost_packets@.len() == 0 && b.packet_manager.header_manager.newly_acked_packets@.len() == 0
    &&& b.receivers.times() == a.receivers.times().push(time.now())
    // the reports of the last frame are forgotten; then the messages of lost packets are reported lost, and those of acknowledged ones acknowledged where complete
    &&& renewed(a.senders@, fresh, time, stats)
    &&& informed(fresh, told, lists(a.packet_message_acks.waiting(), dead), false)
    &&& informed(told, b.senders@, lists(left(a.packet_message_acks.waiting(), dead), alive), true)
    &&& b.packet_message_acks.waiting() == left(left(a.packet_message_acks.waiting(), dead), alive)
}
//@@ closure TransportPlugin::buffer_receive for_each
//@@ sig: fn receive(link: &mut Link, transport: &mut Transport, time: &Time, channel_registry: &ChannelRegistry)
//@@ hoist: for_each#0 over transport.senders.values_mut() => vx_update_all(&mut transport.senders, time, link)
//@@ hoist: for_each#0 over transport.receivers.values_mut() => vx_update_receivers(&mut transport.receivers, time)
//@@ hoist: try_for_each#0 over link.recv.drain() => vx_receive_all(&mut link.recv, transport, time, channel_registry)
//@@ hoist: try_for_each#0 over transport.packet_manager.header_manager.lost_packets.drain(..) => vx_lost_all(&mut transport.packet_manager.header_manager.lost_packets, packet_message_acks, senders)
//@@ hoist: try_for_each#0 over transport.packet_manager.header_manager.newly_acked_packets.drain(..) => vx_acked_all(&mut transport.packet_manager.header_manager.newly_acked_packets, packet_message_acks, senders)
//@@ rename: let transport = & mut * transport ; => ;; . inspect_err ( | e | { } ) . ok ( ) =>
//@@ spec:
//@@ | requires blank(old(transport).packet_message_acks.ready@), all_known(old(transport).senders@, old(transport).packet_message_acks.waiting())
//@@ | ensures blank(final(transport).packet_message_acks.ready@), all_known(final(transport).senders@, final(transport).packet_message_acks.waiting()), final(link).recv.queue().len() == 0, final(link).stats == old(link).stats,
//@@ |   exists|fresh: Channels, told: Channels, dead: Seq<PacketId>, alive: Seq<PacketId>| #[trigger] heard(*old(transport), *final(transport), old(link).recv.queue(), old(link).stats, *time, fresh, told, dead, alive)
//@@ start: let ghost a = *transport;
//@@ before "vx_lost_all": let ghost fresh = senders@; let ghost dead = transport.packet_manager.header_manager.lost_packets@; let ghost newly = transport.packet_manager.header_manager.newly_acked_packets@; let ghost alive = ids(newly); proof { assert(fresh.dom() == a.senders@.dom()); }
//@@ after "vx_lost_all": let ghost told = senders@;
//@@ after "vx_receive_all": let ghost rec = *transport; let ghost n = choose|n: int| #[trigger] heard_upto(Transport { senders: transport.senders, receivers: mid, ..a }, rec, old(link).recv.queue(), time.now(), n);
//@@ before "vx_receive_all": let ghost mid = transport.receivers;
//@@ after "vx_acked_all": proof { assert(adds(a.packet_manager.header_manager.newly_acked_packets@, newly, a.packet_manager.header_manager.inner.acked(), transport.packet_manager.header_manager.inner.acked())); assert(heard_upto(a, *transport, old(link).recv.queue(), time.now(), n)); assert(heard(a, *transport, old(link).recv.queue(), old(link).stats, *time, fresh, told, dead, alive)); }
//@@ end
} // verus!
fn main() {}

// V8: the sending half of a channel (T10 cutting, T11, T12).
// Real code: crates/transport/transport/src/channel/{send_reliable,send}.rs, channel/fragments/send.rs, packet/message.rs
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@@ include maps.inc
//@@ include vecdeque.inc
//@@ include msgid.inc
/// derived
impl MessageId { pub fn default() -> (r: MessageId) ensures r.0 == 0 { MessageId(0) } }
//@@ include dur.inc
impl Duration {
    #[verifier::external_body]
    pub fn mul_f32(self, f: F32) -> (r: Duration) ensures r == scaled(self, f) { unimplemented!() }
}
pub uninterp spec fn scaled(d: Duration, f: F32) -> Duration;
pub fn vx_max(a: Duration, b: Duration) -> (r: Duration) ensures r.0 == (if a.0 >= b.0 { a.0 } else { b.0 }) { if a.0 >= b.0 { a } else { b } }
/// f32 with uninterpreted arithmetic
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F32 { x: f32 }
pub uninterp spec fn fadd(a: F32, b: F32) -> F32;
pub uninterp spec fn fmul(a: F32, b: F32) -> F32;
pub uninterp spec fn fzero() -> F32;
pub uninterp spec fn fone() -> F32;
impl F32 {
    #[verifier::external_body]
    pub fn zero() -> (r: F32) ensures r == fzero() { unimplemented!() }
    #[verifier::external_body]
    pub fn one() -> (r: F32) ensures r == fone() { unimplemented!() }
}
impl core::ops::Add for F32 { type Output = F32; #[verifier::external_body] fn add(self, o: F32) -> F32 { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl for F32 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: F32) -> bool { true }
    open spec fn add_spec(self, o: F32) -> F32 { fadd(self, o) }
}
impl core::ops::Mul for F32 { type Output = F32; #[verifier::external_body] fn mul(self, o: F32) -> F32 { unimplemented!() } }
impl vstd::std_specs::ops::MulSpecImpl for F32 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: F32) -> bool { true }
    open spec fn mul_spec(self, o: F32) -> F32 { fmul(self, o) }
}
impl core::ops::AddAssign<F32> for F32 { #[verifier::external_body] fn add_assign(&mut self, o: F32) { unimplemented!() } }
impl vstd::std_specs::ops::AddAssignSpecImpl<F32> for F32 {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, o: F32) -> bool { true }
    open spec fn add_assign_spec(&self, o: F32) -> &F32 { &fadd(*self, o) }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct ChannelKind { x: u64 }
pub type ChannelId = u16;
/// bytes::Bytes: an immutable sequence of bytes, cheap to clone and to slice
#[verifier::external_body]
pub struct Bytes { b: Vec<u8> }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub uninterp spec fn within(part: &[u8], whole: Bytes) -> bool;
pub open spec fn ceil_div(a: int, n: int) -> int { if a % n == 0 { a / n } else { a / n + 1 } }
/// the i-th of the pieces of n bytes
pub open spec fn piece(s: Seq<u8>, n: int, i: int) -> Seq<u8> { s.subrange(i * n, if (i + 1) * n <= s.len() { (i + 1) * n } else { s.len() as int }) }
impl Bytes {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Bytes) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from(v: Vec<u8>) -> (r: Bytes) ensures r@ == v@ { unimplemented!() }
    /// slice::chunks
    #[verifier::external_body]
    pub fn chunks(&self, n: usize) -> (r: Vec<&[u8]>)
        requires n > 0
        ensures r@.len() == ceil_div(self@.len() as int, n as int), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == piece(self@, n as int, i) && within(r@[i], *self)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn slice_ref(&self, part: &[u8]) -> (r: Bytes) requires within(part, *self) ensures r@ == part@ { unimplemented!() }
}
//@@ source crates/transport/transport/src/packet/message.rs
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@@ item struct FragmentIndex
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@@ item enum FragmentCompression
//@@ item struct FragmentData
//@@ item struct SingleData
//@@ item enum MessageData
//@@ item struct MessageAck
//@@ item struct SendMessage f32 => F32
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@@ item enum SendMessageKey
//@@ item struct SendCandidate f32 => F32
impl FragmentData { #[verifier::external_body] pub fn clone(&self) -> (r: FragmentData) ensures r == *self { unimplemented!() } }
impl SendMessage { #[verifier::external_body] pub fn clone(&self) -> (r: SendMessage) ensures r == *self { unimplemented!() } }
pub trait VxInto: Sized { spec fn as_data(self) -> MessageData; fn vx_into(self) -> (r: MessageData) ensures r == self.as_data(); }
impl VxInto for FragmentData {
    open spec fn as_data(self) -> MessageData { MessageData::Fragment(self) }
//@@ fn From<FragmentData> for MessageData::from
//@@ rename: fn from ( value : FragmentData ) -> Self => fn vx_into(self) -> MessageData ;; Self :: => MessageData:: ;; value => self
//@@ end
}
impl VxInto for SingleData {
    open spec fn as_data(self) -> MessageData { MessageData::Single(self) }
//@@ fn From<SingleData> for MessageData::from
//@@ rename: fn from ( value : SingleData ) -> Self => fn vx_into(self) -> MessageData ;; Self :: => MessageData:: ;; value => self
//@@ end
}
impl SingleData {
//@@ fn SingleData::new
//@@ spec: ensures r == (SingleData { id, bytes })
//@@ end
}
/// a candidate without its priority
pub struct Offer { pub kind: ChannelKind, pub channel: ChannelId, pub key: SendMessageKey, pub order: u64, pub data: MessageData }
pub open spec fn offer(c: SendCandidate) -> Offer { Offer { kind: c.channel_kind, channel: c.channel_id, key: c.key, order: c.send_order, data: c.message.data } }
pub open spec fn strip(s: Seq<SendCandidate>) -> Seq<Offer> { s.map_values(|c: SendCandidate| offer(c)) }
pub proof fn strip_push(s: Seq<SendCandidate>, c: SendCandidate) ensures strip(s.push(c)) == strip(s).push(offer(c)) { assert(strip(s.push(c)) =~= strip(s).push(offer(c))); }
pub proof fn strip_add(s: Seq<SendCandidate>, t: Seq<SendCandidate>) ensures strip(s + t) == strip(s) + strip(t) { assert(strip(s + t) =~= strip(s) + strip(t)); }
impl SendMessageKey {
//@@ fn SendMessageKey::unreliable_send_order
//@@ spec: ensures r == (match self { SendMessageKey::UnreliableSingle(i) | SendMessageKey::UnreliableFragment(i) => Some(i as u64), _ => None })
//@@ end
}
impl SendCandidate {
//@@ fn SendCandidate::new_with_send_order
//@@ spec: ensures offer(r) == (Offer { kind: channel_kind, channel: channel_id, key, order: send_order, data: message.data }), r.message == message, r.effective_priority == message.priority
//@@ end
//@@ fn SendCandidate::new
//@@ spec:
//@@ | requires key is UnreliableSingle || key is UnreliableFragment
//@@ | ensures offer(r) == (Offer { kind: channel_kind, channel: channel_id, key, order: (match key { SendMessageKey::UnreliableSingle(i) => i, SendMessageKey::UnreliableFragment(i) => i, _ => 0 }) as u64, data: message.data }), r.message == message, r.effective_priority == message.priority
//@@ end
//@@ fn SendCandidate::new_reliable
//@@ spec:
//@@ | requires key is ReliableSingle || key is ReliableFragment
//@@ | ensures offer(r) == (Offer { kind: channel_kind, channel: channel_id, key, order: send_order, data: message.data }), r.message == message, r.effective_priority == message.priority
//@@ end
}
fn vx_extend(v: &mut Vec<SendCandidate>, w: Vec<SendCandidate>) ensures final(v)@ == old(v)@ + w@ { let mut w = w; v.append(&mut w); }
// ---------------------------------------------------------------- cutting
#[derive(Clone, Copy)]
pub struct CompressionConfig { pub x: u64 }
#[verifier::external_body]
pub struct CompressionScratch { x: u64 }
pub enum PayloadCompressionCandidate { Uncompressed, Compressed { payload: Vec<u8>, original_len: usize, compressed_len: usize } }
pub uninterp spec fn deflated(s: Seq<u8>, c: CompressionConfig) -> Seq<u8>;
/// compression is not under contract (nothing is assumed about the bytes it returns but that they are its answer)
#[verifier::external_body]
fn compress_fragment(b: &[u8], c: CompressionConfig, s: &mut CompressionScratch) -> (r: Result<PayloadCompressionCandidate, ()>)
    ensures r matches Ok(PayloadCompressionCandidate::Compressed { payload, .. }) ==> payload@ == deflated(b@, c) { unimplemented!() }
#[verifier::external_body]
fn fragment_compression(c: CompressionConfig) -> (r: Option<FragmentCompression>) ensures r matches Some(x) ==> x is Lz4 { unimplemented!() }
//@@ source crates/transport/transport/src/channel/fragments/send.rs
//@@ item struct FragmentSender
/// the pieces of a payload
pub open spec fn cut(v: Seq<FragmentData>, id: MessageId, s: Seq<u8>, n: int, c: FragmentCompression) -> bool {
    &&& v.len() == ceil_div(s.len() as int, n)
    &&& forall|i: int| 0 <= i < v.len() ==> { let f = #[trigger] v[i]; f.message_id == id && f.fragment_id.0 == i && f.num_fragments.0 == v.len() && f.bytes@ == piece(s, n, i) && f.compression == (if i == 0 { Some(c) } else { None }) }
}
impl FragmentSender {
//@@ closure FragmentSender::build_fragments_with_compression map
//@@ sig: fn vx_piece(vx_p: (usize, &[u8]), fragment_message_id: MessageId, num_fragments: usize, compression: FragmentCompression, fragment_bytes: &Bytes) -> FragmentData
//@@ start: let $0 = vx_p;
//@@ closures: then_some
//@@ spec:
//@@ | requires within(vx_p.1, *fragment_bytes)
//@@ | ensures r.message_id == fragment_message_id, r.fragment_id.0 == vx_p.0, r.num_fragments.0 == num_fragments, r.bytes@ == vx_p.1@, r.compression == (if vx_p.0 == 0 { Some(compression) } else { None })
//@@ end
    /// enumerate().map(..).collect()
    fn vx_pieces(chunks: Vec<&[u8]>, fragment_message_id: MessageId, num_fragments: usize, compression: FragmentCompression, fragment_bytes: &Bytes) -> (r: Vec<FragmentData>)
        requires forall|i: int| 0 <= i < chunks@.len() ==> within(#[trigger] chunks@[i], *fragment_bytes)
        ensures r@.len() == chunks@.len(), forall|i: int| 0 <= i < r@.len() ==> { let f = #[trigger] r@[i]; f.message_id == fragment_message_id && f.fragment_id.0 == i && f.num_fragments.0 == num_fragments && f.bytes@ == chunks@[i]@ && f.compression == (if i == 0 { Some(compression) } else { None }) }
    {
        let mut out: Vec<FragmentData> = Vec::new();
        let mut i: usize = 0;
        while i < chunks.len()
            invariant i <= chunks@.len(), out@.len() == i, forall|j: int| 0 <= j < chunks@.len() ==> within(#[trigger] chunks@[j], *fragment_bytes),
                forall|j: int| 0 <= j < out@.len() ==> { let f = #[trigger] out@[j]; f.message_id == fragment_message_id && f.fragment_id.0 == j && f.num_fragments.0 == num_fragments && f.bytes@ == chunks@[j]@ && f.compression == (if j == 0 { Some(compression) } else { None }) }
            decreases chunks@.len() - i
        {
            out.push(Self::vx_piece((i, chunks[i]), fragment_message_id, num_fragments, compression, fragment_bytes));
            i += 1;
        }
        out
    }
//@@ fn FragmentSender::build_fragments_with_compression
//@@ hoist: map over chunks.enumerate() => Self::vx_pieces(chunks, fragment_message_id, num_fragments, compression, &fragment_bytes)
//@@ rename: . collect :: < _ > ( ) =>
//@@ spec:
//@@ | requires self.fragment_size > 0
//@@ | ensures cut(r@, fragment_message_id, fragment_bytes@, self.fragment_size as int, compression)
//@@ end
//@@ fn FragmentSender::build_fragments
//@@ spec:
//@@ | requires self.fragment_size > 0, fragment_bytes@.len() > self.fragment_size
//@@ | ensures cut(r@, fragment_message_id, fragment_bytes@, self.fragment_size as int, FragmentCompression::None)
//@@ end
//@@ fn FragmentSender::build_fragments_for_message
//@@ spec:
//@@ | requires old(self).fragment_size > 0, message@.len() > old(self).fragment_size
//@@ | ensures *final(self) == *old(self), pieces_of(r@, fragment_message_id, message@, old(self).fragment_size as int)
//@@ end
}
/// the pieces of a message, or of its compressed form, marked so
pub open spec fn pieces_of(v: Seq<FragmentData>, id: MessageId, s: Seq<u8>, n: int) -> bool {
    cut(v, id, s, n, FragmentCompression::None) || exists|c: CompressionConfig| cut(v, id, #[trigger] deflated(s, c), n, FragmentCompression::Lz4)
}
pub open spec fn rejoined(v: Seq<FragmentData>) -> Seq<u8> decreases v.len() { if v.len() == 0 { Seq::empty() } else { rejoined(v.drop_last()) + v.last().bytes@ } }
/// what was cut joins back to what was handed in
pub proof fn cut_rejoins(v: Seq<FragmentData>, id: MessageId, s: Seq<u8>, n: int, c: FragmentCompression)
    requires n > 0, cut(v, id, s, n, c)
    ensures rejoined(v) == s
{
    cut_prefix(v, s, n, v.len() as int);
    assert(v.take(v.len() as int) =~= v);
    let l = s.len() as int;
    assert(v.len() * n >= l) by (nonlinear_arith) requires v.len() == ceil_div(l, n), n > 0, l >= 0;
    assert(s.take(l) =~= s);
}
proof fn cut_prefix(v: Seq<FragmentData>, s: Seq<u8>, n: int, k: int)
    requires n > 0, 0 <= k <= v.len(), v.len() == ceil_div(s.len() as int, n), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).bytes@ == piece(s, n, i)
    ensures rejoined(v.take(k)) == s.take(if k * n <= s.len() { k * n } else { s.len() as int })
    decreases k
{
    let l = s.len() as int;
    if k == 0 { assert(s.take(0) =~= Seq::<u8>::empty()); }
    else {
        cut_prefix(v, s, n, k - 1);
        let t = v.take(k);
        assert(t.drop_last() =~= v.take(k - 1));
        assert(t.last() == v[k - 1]);
        assert((k - 1) * n <= l) by (nonlinear_arith) requires k <= ceil_div(l, n), n > 0, l >= 0;
        assert(k * n == (k - 1) * n + n) by (nonlinear_arith);
        assert(0 <= (k - 1) * n) by (nonlinear_arith) requires k >= 1, n > 0;
        let e = if k * n <= l { k * n } else { l };
        assert(s.take((k - 1) * n) + piece(s, n, k - 1) =~= s.take(e));
    }
}
// ---------------------------------------------------------------- reliable channels
//@@ source crates/transport/transport/src/channel/builder.rs
//@@ item struct ReliableSettings f32 => F32
impl ReliableSettings {
//@@ fn ReliableSettings::resend_delay
//@@ rename: core :: cmp :: max => vx_max
//@@ spec: ensures r.0 == (if scaled(rtt, self.rtt_resend_factor).0 >= self.rtt_resend_min_delay.0 { scaled(rtt, self.rtt_resend_factor).0 } else { self.rtt_resend_min_delay.0 })
//@@ end
}
pub struct LinkStats { pub rtt: Duration }
/// bevy_time's clock and timer
#[verifier::external_body]
pub struct Clock { x: u64 }
pub uninterp spec fn elapsed(c: Clock) -> Duration;
impl Clock { #[verifier::external_body] pub fn elapsed(&self) -> (r: Duration) ensures r == elapsed(*self) { unimplemented!() } }
#[verifier::external_body]
pub struct Timer { x: u64 }
pub uninterp spec fn finished(t: Timer) -> bool;
impl Timer { #[verifier::external_body] pub fn is_finished(&self) -> (r: bool) ensures r == finished(*self) { unimplemented!() } }
pub uninterp spec fn per_frame(t: Timer, c: Clock) -> F32;
/// timer.duration().as_nanos() as f32 / real_time.delta().as_nanos() as f32
#[verifier::external_body]
fn vx_per_frame(t: &Timer, c: &Clock) -> (r: F32) ensures r == per_frame(*t, *c) { unimplemented!() }
//@@ source crates/transport/transport/src/channel/send_reliable.rs
//@@ item struct FragmentAck
//@@ item enum UnackedMessage
//@@ item struct PendingReliableMessage f32 => F32
//@@ item struct ReliableSendState f32 => F32
/// never sent, or sent at least the retry delay ago (no delay: never again)
pub open spec fn due(last: Option<Duration>, now: Duration, delay: Duration) -> bool { match last { None => true, Some(t) => delay.0 != 0 && since(now, t).0 > delay.0 } }
pub struct Ctx { pub kind: ChannelKind, pub channel: ChannelId, pub now: Duration, pub delay: Duration }
pub open spec fn single_offer(x: Ctx, id: MessageId, n: u64, bytes: Bytes) -> Offer { Offer { kind: x.kind, channel: x.channel, key: SendMessageKey::ReliableSingle(id), order: n, data: MessageData::Single(SingleData { id: Some(id), bytes }) } }
pub open spec fn fragment_offer(x: Ctx, id: MessageId, n: u64, f: FragmentData) -> Offer { Offer { kind: x.kind, channel: x.channel, key: SendMessageKey::ReliableFragment(id, f.fragment_id), order: n, data: MessageData::Fragment(f) } }
pub open spec fn wanted(x: Ctx, f: FragmentAck) -> bool { !f.acked && due(f.last_sent, x.now, x.delay) }
pub open spec fn fragment_offers(x: Ctx, id: MessageId, n: u64, v: Seq<FragmentAck>, k: int) -> Seq<Offer> decreases k {
    if k <= 0 { Seq::empty() } else if wanted(x, v[k - 1]) { fragment_offers(x, id, n, v, k - 1).push(fragment_offer(x, id, n, v[k - 1].data)) } else { fragment_offers(x, id, n, v, k - 1) }
}
/// what is offered of a message: itself, or its pieces, if due and not acknowledged
pub open spec fn offers(x: Ctx, id: MessageId, p: PendingReliableMessage) -> Seq<Offer> {
    match p.message {
        UnackedMessage::Single { bytes, last_sent } => if due(last_sent, x.now, x.delay) { seq![single_offer(x, id, p.send_order, bytes)] } else { Seq::empty() },
        UnackedMessage::Fragmented(v) => fragment_offers(x, id, p.send_order, v@, v@.len() as int),
    }
}
pub open spec fn all_offers(x: Ctx, ks: Seq<MessageId>, m: Map<MessageId, PendingReliableMessage>, n: int) -> Seq<Offer> decreases n {
    if n <= 0 { Seq::empty() } else { all_offers(x, ks, m, n - 1) + offers(x, ks[n - 1], m[ks[n - 1]]) }
}
/// a piece as the wire can carry it: one of those announced, and the first names the compression
pub open spec fn whole(f: FragmentData) -> bool { f.fragment_id.0 < f.num_fragments.0 && (f.compression is Some <==> f.fragment_id.0 == 0) }
/// the pieces of a message are those of that message, in order
pub open spec fn numbered(id: MessageId, p: PendingReliableMessage) -> bool { match p.message { UnackedMessage::Single { .. } => true, UnackedMessage::Fragmented(v) => v@.len() <= usize::MAX && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).data.fragment_id.0 == i && v@[i].data.num_fragments.0 == v@.len() && v@[i].data.message_id == id && whole(v@[i].data) } }
pub open spec fn r_names(x: Ctx, m: Map<MessageId, PendingReliableMessage>, o: Offer) -> bool {
    o.kind == x.kind && o.channel == x.channel && (o.data matches MessageData::Fragment(f) ==> whole(f)) && match o.key { SendMessageKey::ReliableSingle(id) => m.dom().contains(id) && shape(m[id], None), SendMessageKey::ReliableFragment(id, f) => m.dom().contains(id) && shape(m[id], Some(f)), _ => false }
}
pub proof fn fragment_offers_named(x: Ctx, id: MessageId, n: u64, m: Map<MessageId, PendingReliableMessage>, k: int)
    requires m.dom().contains(id), numbered(id, m[id]), m[id].message is Fragmented, 0 <= k <= m[id].message->Fragmented_0@.len()
    ensures forall|i: int| 0 <= i < fragment_offers(x, id, n, m[id].message->Fragmented_0@, k).len() ==> r_names(x, m, #[trigger] fragment_offers(x, id, n, m[id].message->Fragmented_0@, k)[i])
    decreases k
{ if k > 0 { fragment_offers_named(x, id, n, m, k - 1); let v = m[id].message->Fragmented_0@; assert(v[k - 1].data.fragment_id.0 == k - 1);
    let a = fragment_offers(x, id, n, v, k - 1); let b = fragment_offers(x, id, n, v, k);
    assert forall|i: int| 0 <= i < b.len() implies r_names(x, m, #[trigger] b[i]) by { if i < a.len() { assert(b[i] == a[i]); assert(r_names(x, m, a[i])); } else { assert(b[i] == fragment_offer(x, id, n, v[k - 1].data)); assert(shape(m[id], Some(v[k - 1].data.fragment_id))); } } } }
/// what is offered names a pending message or piece
pub proof fn offers_named(x: Ctx, ks: Seq<MessageId>, m: Map<MessageId, PendingReliableMessage>, n: int)
    requires 0 <= n <= ks.len(), ks.to_set() == m.dom(), forall|id: MessageId| #[trigger] m.dom().contains(id) ==> numbered(id, m[id])
    ensures forall|i: int| 0 <= i < all_offers(x, ks, m, n).len() ==> r_names(x, m, #[trigger] all_offers(x, ks, m, n)[i])
    decreases n
{
    if n > 0 {
        offers_named(x, ks, m, n - 1); let id = ks[n - 1]; assert(ks.to_set().contains(id)); assert(m.dom().contains(id));
        if m[id].message is Fragmented { fragment_offers_named(x, id, m[id].send_order, m, m[id].message->Fragmented_0@.len() as int); }
        let a = all_offers(x, ks, m, n - 1); let b = offers(x, id, m[id]);
        assert forall|i: int| 0 <= i < (a + b).len() implies r_names(x, m, #[trigger] (a + b)[i]) by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } }
    }
}
pub proof fn fresh_numbered(id: MessageId, p: PendingReliableMessage, bytes: Bytes, n: int)
    requires fresh(p, id, bytes, n)
    ensures numbered(id, p)
{
    match p.message { UnackedMessage::Single { .. } => {}, UnackedMessage::Fragmented(v) => {
        assert(v.len() == v@.len());
        assert forall|i: int| 0 <= i < v@.len() implies (#[trigger] v@[i]).data.fragment_id.0 == i && v@[i].data.num_fragments.0 == v@.len() && v@[i].data.message_id == id && whole(v@[i].data) by { assert(datas(v@)[i] == v@[i].data); }
    } }
}
/// what is offered of a queue names an entry of it
pub proof fn u_offers_named(kind: ChannelKind, channel: ChannelId, single: bool, q: Seq<PendingSendMessage>, k: int)
    requires 0 <= k <= q.len() <= usize::MAX, single ==> no_pieces(q), !single ==> fragments_only(q)
    ensures forall|i: int| 0 <= i < u_offers(kind, channel, single, q, k).len() ==> ({ let o = #[trigger] u_offers(kind, channel, single, q, k)[i]; (o.data matches MessageData::Fragment(f) ==> whole(f)) && o.kind == kind && o.channel == channel && match o.key { SendMessageKey::UnreliableSingle(j) => single && j < k, SendMessageKey::UnreliableFragment(j) => !single && j < k, _ => false } })
    decreases k
{ if k > 0 { u_offers_named(kind, channel, single, q, k - 1); } }
/// the same message, offered once more with the priority it gained
pub open spec fn aged(p: PendingReliableMessage, q: PendingReliableMessage, mult: F32) -> bool {
    q == PendingReliableMessage { accumulated_priority: fadd(p.accumulated_priority, fmul(p.base_priority, mult)), ..p }
}
impl ReliableSendState {
    pub open spec fn ctx(&self, kind: ChannelKind, channel: ChannelId) -> Ctx {
        let d = scaled(self.current_rtt, self.settings.rtt_resend_factor);
        Ctx { kind, channel, now: self.current_time, delay: if d.0 >= self.settings.rtt_resend_min_delay.0 { d } else { self.settings.rtt_resend_min_delay } }
    }
    pub open spec fn wf(&self) -> bool { forall|id: MessageId| #[trigger] self.pending@.dom().contains(id) ==> numbered(id, self.pending@[id]) }
    pub open spec fn same_but_pending(&self, o: &Self) -> bool {
        self.settings == o.settings && self.next_message_id == o.next_message_id && self.next_send_order == o.next_send_order && self.current_rtt == o.current_rtt && self.current_time == o.current_time && self.priority_multiplier == o.priority_multiplier
    }
//@@ fn ReliableSendState::new
//@@ rename: 1.0 => F32::one()
//@@ spec: ensures r.pending@ == Map::<MessageId, PendingReliableMessage>::empty(), r.next_message_id.0 == 0, r.next_send_order == 0, r.settings == settings, r.priority_multiplier == fone()
//@@ end
//@@ fn ReliableSendState::update
//@@ rename: Time < Real > => Clock ;; timer . duration ( ) . as_nanos ( ) as f32 / real_time . delta ( ) . as_nanos ( ) as f32 => vx_per_frame(timer, real_time)
//@@ spec:
//@@ | ensures final(self).current_time == elapsed(*real_time), final(self).current_rtt == link_stats.rtt, final(self).priority_multiplier == (match timer { Some(t) => per_frame(*t, *real_time), None => old(self).priority_multiplier }),
//@@ |   final(self).pending == old(self).pending, final(self).settings == old(self).settings, final(self).next_message_id == old(self).next_message_id, final(self).next_send_order == old(self).next_send_order
//@@ end
//@@ closure ReliableSendState::buffer_send map
//@@ sig: fn vx_unacked($0: FragmentData) -> FragmentAck
//@@ spec: ensures r == (FragmentAck { data, acked: false, last_sent: None })
//@@ end
    /// into_iter().map(..).collect()
    fn vx_all_unacked(v: Vec<FragmentData>) -> (r: Vec<FragmentAck>)
        ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (FragmentAck { data: v@[i], acked: false, last_sent: None })
    {
        let mut v = v;
        let ghost v0 = v@;
        let ghost mut n: int = 0;
        let mut out: Vec<FragmentAck> = Vec::new();
        while v.len() > 0
            invariant 0 <= n, n + v@.len() == v0.len(), v@ == v0.skip(n), out@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] out@[i] == (FragmentAck { data: v0[i], acked: false, last_sent: None })
            decreases v@.len()
        {
            let ghost v1 = v@;
            let x = v.remove(0);
            out.push(Self::vx_unacked(x));
            proof { assert(x == v1[0]); assert(x == v0[n]); n = n + 1; assert(v@ =~= v0.skip(n)); }
        }
        out
    }
//@@ fn ReliableSendState::buffer_send
//@@ hoist: map => Self::vx_all_unacked($R)
//@@ rename: . collect ( ) => ;; . into_iter ( ) => ;; f32 => F32 ;; 0.0 => F32::zero()
//@@ spec:
//@@ | requires old(fragmenter).fragment_size > 0, old(self).next_send_order < u64::MAX
//@@ | ensures *final(fragmenter) == *old(fragmenter), r_queued(*old(self), *final(self), message, priority, old(fragmenter).fragment_size as int, r)
//@@ end
}
impl ReliableSendState {
//@@ closure ReliableSendState::collect_candidates let:should_send
//@@ sig: fn vx_should_send($0, resend_delay: Duration, current_time: Duration) -> bool
//@@ spec: ensures r == due(*last_sent, current_time, resend_delay)
//@@ end
//@@ closure ReliableSendState::collect_candidates filter
//@@ sig: fn vx_wanted($0: &FragmentAck, resend_delay: Duration, current_time: Duration) -> bool
//@@ hoist: let:should_send => Self::vx_should_send($A, resend_delay, current_time)
//@@ spec: ensures r == (!fragment.acked && due(fragment.last_sent, current_time, resend_delay))
//@@ end
//@@ closure ReliableSendState::collect_candidates map
//@@ sig: fn vx_offer_fragment($0: &FragmentAck, message_id: &MessageId, pending: &VxPending, channel_kind: ChannelKind, channel_id: ChannelId) -> SendCandidate
//@@ rename: . into ( ) => .vx_into()
//@@ spec: ensures offer(r) == (Offer { kind: channel_kind, channel: channel_id, key: SendMessageKey::ReliableFragment(*message_id, fragment.data.fragment_id), order: pending.send_order, data: MessageData::Fragment(fragment.data) }), r.effective_priority == pending.accumulated_priority
//@@ end
    /// iter().filter(..).map(..)
    fn vx_offer_fragments(fragments: &Vec<FragmentAck>, message_id: &MessageId, pending: &VxPending, channel_kind: ChannelKind, channel_id: ChannelId, resend_delay: Duration, current_time: Duration) -> (r: Vec<SendCandidate>)
        ensures strip(r@) == fragment_offers(Ctx { kind: channel_kind, channel: channel_id, now: current_time, delay: resend_delay }, *message_id, pending.send_order, fragments@, fragments@.len() as int),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).effective_priority == pending.accumulated_priority
    {
        let ghost x = Ctx { kind: channel_kind, channel: channel_id, now: current_time, delay: resend_delay };
        let mut out: Vec<SendCandidate> = Vec::new();
        let mut i: usize = 0;
        proof { assert(strip(out@) =~= Seq::<Offer>::empty()); }
        while i < fragments.len()
            invariant i <= fragments@.len(), x == (Ctx { kind: channel_kind, channel: channel_id, now: current_time, delay: resend_delay }), strip(out@) == fragment_offers(x, *message_id, pending.send_order, fragments@, i as int),
                forall|j: int| 0 <= j < out@.len() ==> (#[trigger] out@[j]).effective_priority == pending.accumulated_priority
            decreases fragments@.len() - i
        {
            if Self::vx_wanted(&fragments[i], resend_delay, current_time) {
                let c = Self::vx_offer_fragment(&fragments[i], message_id, pending, channel_kind, channel_id);
                proof { strip_push(out@, c); }
                out.push(c);
            }
            i += 1;
        }
        out
    }
//@@ fn ReliableSendState::collect_candidates
//@@ hoist: let:should_send => Self::vx_should_send($A, resend_delay, current_time)
//@@ hoist: map over fragments.iter_mut().filter($C) => Self::vx_offer_fragments(fragments, message_id, &VxPending { send_order: pending.send_order, base_priority: pending.base_priority, accumulated_priority: pending.accumulated_priority }, channel_kind, channel_id, resend_delay, current_time)
//@@ rename: output . extend ( => vx_extend(output, ;; . into ( ) => .vx_into() ;; for ( message_id , pending ) in & mut self . pending { => let vx_ks = self.pending.vx_keys(); let mut vx_i: usize = 0; while vx_i < vx_ks.len() { let message_id = &vx_ks[vx_i]; let pending = self.pending.get_mut(message_id).unwrap(); vx_i += 1;
//@@ guards: merge
//@@ spec:
//@@ | // exactly the pieces that are due are offered, each once; nothing else changes but the priority every message gains
//@@ | requires old(self).wf()
//@@ | ensures final(self).same_but_pending(old(self)), final(self).pending@.dom() == old(self).pending@.dom(), final(self).wf(),
//@@ |   strip(old(output)@).is_prefix_of(strip(final(output)@)), forall|i: int| old(output)@.len() <= i < final(output)@.len() ==> r_names(old(self).ctx(channel_kind, channel_id), final(self).pending@, #[trigger] strip(final(output)@)[i]),
//@@ |   forall|id: MessageId| #[trigger] old(self).pending@.dom().contains(id) ==> aged(old(self).pending@[id], final(self).pending@[id], old(self).priority_multiplier),
//@@ |   exists|ks: Seq<MessageId>| ks.no_duplicates() && ks.to_set() == old(self).pending@.dom() && strip(final(output)@) == strip(old(output)@) + #[trigger] all_offers(old(self).ctx(channel_kind, channel_id), ks, old(self).pending@, ks.len() as int)
//@@ start: let ghost m0 = self.pending@; let ghost x = self.ctx(channel_kind, channel_id); let ghost o0 = output@; let ghost me = *self; proof { assert(strip(o0) + Seq::<Offer>::empty() =~= strip(o0)); }
//@@ loop 0:
//@@ | invariant vx_i <= vx_ks@.len(), vx_ks@.no_duplicates(), vx_ks@.to_set() == m0.dom(), x == me.ctx(channel_kind, channel_id), x.delay == resend_delay, x.now == current_time, x.kind == channel_kind, x.channel == channel_id,
//@@ |   me == *old(self), m0 == me.pending@, o0 == old(output)@, self.same_but_pending(&me), self.pending@.dom() == m0.dom(),
//@@ |   forall|j: int| 0 <= j < vx_i ==> aged(m0[#[trigger] vx_ks@[j]], self.pending@[vx_ks@[j]], me.priority_multiplier),
//@@ |   forall|j: int| vx_i <= j < vx_ks@.len() ==> m0[#[trigger] vx_ks@[j]] == self.pending@[vx_ks@[j]],
//@@ |   strip(output@) == strip(o0) + all_offers(x, vx_ks@, m0, vx_i as int)
//@@ | decreases vx_ks@.len() - vx_i
//@@ loopbody 0: let ghost out0 = output@; let ghost i0 = vx_i; let ghost p0 = self.pending@; proof { assert(vx_ks@.to_set().contains(vx_ks@[vx_i as int])); assert forall|w: Seq<SendCandidate>| #[trigger] strip(out0 + w) == strip(out0) + strip(w) by { strip_add(out0, w); } assert forall|c: SendCandidate| #[trigger] strip(out0.push(c)) == strip(out0).push(offer(c)) by { strip_push(out0, c); } }
//@@ loopend 0: proof { let id = vx_ks@[i0 as int]; let add = offers(x, id, m0[id]); assert(all_offers(x, vx_ks@, m0, vx_i as int) == all_offers(x, vx_ks@, m0, i0 as int) + add); assert(strip(output@) =~= strip(out0) + add); assert(strip(output@) =~= strip(o0) + all_offers(x, vx_ks@, m0, vx_i as int)); }
//@@ afterloop 0: proof { assert forall|id: MessageId| #[trigger] m0.dom().contains(id) implies aged(m0[id], self.pending@[id], me.priority_multiplier) by { assert(vx_ks@.to_set().contains(id)); let j = choose|j: int| 0 <= j < vx_ks@.len() && vx_ks@[j] == id; assert(vx_ks@[j] == id); } offers_named(x, vx_ks@, m0, vx_ks@.len() as int); let ao = all_offers(x, vx_ks@, m0, vx_ks@.len() as int); assert forall|i: int| o0.len() <= i < output@.len() implies r_names(x, self.pending@, #[trigger] strip(output@)[i]) by { assert(strip(output@)[i] == ao[i - o0.len()]); assert(r_names(x, m0, ao[i - o0.len()])); } }
//@@ end
}
pub open spec fn shape(p: PendingReliableMessage, f: Option<FragmentIndex>) -> bool {
    match p.message { UnackedMessage::Single { .. } => f is None, UnackedMessage::Fragmented(v) => f matches Some(i) && i.0 < v@.len() && i.0 <= usize::MAX }
}
/// the message with its pieces replaced
pub open spec fn with_pieces(p: PendingReliableMessage, q: PendingReliableMessage, v: Seq<FragmentAck>) -> bool {
    q.message matches UnackedMessage::Fragmented(w) && w@ =~= v && q == PendingReliableMessage { message: q.message, ..p }
}
pub open spec fn all_acked(v: Seq<FragmentAck>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).acked }
impl ReliableSendState {
//@@ fn ReliableSendState::commit_send
//@@ spec:
//@@ | // the key is that of a pending piece
//@@ | requires match key { SendMessageKey::ReliableSingle(id) => old(self).pending@.dom().contains(id) && shape(old(self).pending@[id], None), SendMessageKey::ReliableFragment(id, f) => old(self).pending@.dom().contains(id) && shape(old(self).pending@[id], Some(f)), _ => false }
//@@ | // it is recorded as sent, nothing else changes
//@@ | ensures final(self).same_but_pending(old(self)),
//@@ |   match key {
//@@ |     SendMessageKey::ReliableSingle(id) => final(self).pending@ == old(self).pending@.insert(id, PendingReliableMessage { message: UnackedMessage::Single { bytes: old(self).pending@[id].message->bytes, last_sent: Some(sent_at) }, ..old(self).pending@[id] }),
//@@ |     SendMessageKey::ReliableFragment(id, f) => final(self).pending@ =~= old(self).pending@.insert(id, final(self).pending@[id]) && with_pieces(old(self).pending@[id], final(self).pending@[id], old(self).pending@[id].message->Fragmented_0@.update(f.0 as int, FragmentAck { last_sent: Some(sent_at), ..old(self).pending@[id].message->Fragmented_0@[f.0 as int] })),
//@@ |     _ => true }
//@@ end
//@@ closure ReliableSendState::receive_ack all
//@@ sig: fn vx_acked($0: &FragmentAck) -> bool
//@@ spec: ensures r == fragment.acked
//@@ end
    /// iter().all(..)
    fn vx_all_acked(v: &Vec<FragmentAck>) -> (r: bool) ensures r == all_acked(v@)
    {
        let mut i: usize = 0;
        while i < v.len()
            invariant i <= v@.len(), forall|j: int| 0 <= j < i ==> (#[trigger] v@[j]).acked
            decreases v@.len() - i
        { if !Self::vx_acked(&v[i]) { return false; } i += 1; }
        true
    }
//@@ fn ReliableSendState::receive_ack
//@@ hoist: all over fragments.iter() => Self::vx_all_acked(fragments)
//@@ spec:
//@@ | // acknowledgements come for pieces that were sent
//@@ | requires old(self).pending@.dom().contains(ack.message_id) ==> shape(old(self).pending@[ack.message_id], ack.fragment_id)
//@@ | ensures final(self).same_but_pending(old(self)),
//@@ |   ({ let id = ack.message_id; let m = old(self).pending@; let n = final(self).pending@;
//@@ |     if !m.dom().contains(id) { !r && n == m }
//@@ |     else { match m[id].message {
//@@ |       UnackedMessage::Single { .. } => r && n == m.remove(id),
//@@ |       UnackedMessage::Fragmented(v) => { let f = (ack.fragment_id->Some_0).0 as int; let w = v@.update(f, FragmentAck { acked: true, ..v@[f] });
//@@ |         // complete, and forgotten, when every piece is acknowledged; otherwise the acknowledged piece stays acknowledged
//@@ |         if !v@[f].acked && all_acked(w) { r && n =~= m.remove(id) } else { !r && n =~= m.insert(id, n[id]) && with_pieces(m[id], n[id], w) } } } } })
//@@ end
}
// ---------------------------------------------------------------- fragment acknowledgements
//@@ include fragack.inc
pub struct VxPending { pub send_order: u64, pub base_priority: F32, pub accumulated_priority: F32 }
/// a message handed in to a reliable channel is pending, whole or in all its pieces, under the next id
pub open spec fn r_queued(o: ReliableSendState, n: ReliableSendState, message: Bytes, priority: F32, size: int, r: MessageId) -> bool {
    &&& r == o.next_message_id && n.next_message_id.0 == (o.next_message_id.0 + 1) % 65536 && n.next_send_order == o.next_send_order + 1
    &&& n.settings == o.settings && n.current_time == o.current_time && n.current_rtt == o.current_rtt
    &&& exists|p: PendingReliableMessage| n.pending@ == #[trigger] o.pending@.insert(r, p) && fresh(p, r, message, size) && p.send_order == o.next_send_order && p.base_priority == priority && p.accumulated_priority == fzero()
}
/// a message handed in to an unreliable channel is queued once, whole or in all its pieces, behind what is there
pub open spec fn u_queued(o: UnreliableSendState, w: UnreliableSendState, message: Bytes, priority: F32, n: int, r: Option<MessageId>) -> bool {
    let id = o.next_message_id; let named = message@.len() > n || !(o.delivery is Unordered);
    &&& w.same_settings(o)
    &&& if message@.len() > n { w.singles == o.singles && exists|v: Seq<FragmentData>| pieces_of(v, id, message@, n) && w.fragments@ == o.fragments@ + #[trigger] queued(v, priority) }
        else { w.fragments == o.fragments && w.singles@ == o.singles@.push(pend(SendMessage { data: MessageData::Single(SingleData { id: if named { Some(id) } else { None }, bytes: message }), priority })) }
    &&& r == (if named { Some(id) } else { None }) && w.next_message_id.0 == (if named { (id.0 + 1) % 65536 } else { id.0 as int })
}
/// a message just handed in: whole, or in all its pieces, none of them sent or acknowledged
pub open spec fn fresh(p: PendingReliableMessage, id: MessageId, bytes: Bytes, n: int) -> bool {
    match p.message {
        UnackedMessage::Single { bytes: b, last_sent } => b == bytes && last_sent is None && bytes@.len() <= n,
        UnackedMessage::Fragmented(v) => bytes@.len() > n && pieces_of(datas(v@), id, bytes@, n) && forall|i: int| 0 <= i < v@.len() ==> !(#[trigger] v@[i]).acked && v@[i].last_sent is None,
    }
}
pub open spec fn datas(v: Seq<FragmentAck>) -> Seq<FragmentData> { v.map_values(|f: FragmentAck| f.data) }
// ---------------------------------------------------------------- unreliable channels
//@@ source crates/transport/transport/src/channel/send.rs
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@@ item enum SendFlushOutcome
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@@ item enum UnreliableDelivery
//@@ item struct PendingSendMessage
//@@ item struct UnreliableSendState
pub trait VxThen { spec fn yes(self) -> bool; fn vx_then_receiver(self) -> (r: Option<FragmentAckReceiver>) ensures self.yes() ==> (r matches Some(x) && x.wf() && x.fragment_messages@ == Map::<MessageId, FragmentAckTracker>::empty()), !self.yes() ==> r is None; }
impl VxThen for bool {
    open spec fn yes(self) -> bool { self }
    fn vx_then_receiver(self) -> (r: Option<FragmentAckReceiver>) { if self { Some(FragmentAckReceiver::new()) } else { None } }
}
pub exec const DISCARD_AFTER: Duration ensures DISCARD_AFTER.0 == 3000 { Duration(3000) }
pub open spec fn pend(m: SendMessage) -> PendingSendMessage { PendingSendMessage { message: m, committed: false, fragment_started: false } }
pub open spec fn fid(p: PendingSendMessage) -> Option<MessageId> { match p.message.data { MessageData::Fragment(f) => Some(f.message_id), _ => None } }
/// the messages still to be sent, in the order of the queue
pub open spec fn waiting(q: Seq<PendingSendMessage>) -> Seq<SendMessage> decreases q.len() {
    if q.len() == 0 { Seq::empty() } else if q.last().committed { waiting(q.drop_last()) } else { waiting(q.drop_last()).push(q.last().message) }
}
pub proof fn waiting_push(q: Seq<PendingSendMessage>, p: PendingSendMessage) ensures waiting(q.push(p)) == (if p.committed { waiting(q) } else { waiting(q).push(p.message) }) { assert(q.push(p).drop_last() =~= q); }
pub proof fn waiting_add(q: Seq<PendingSendMessage>, t: Seq<PendingSendMessage>) ensures waiting(q + t) == waiting(q) + waiting(t) decreases t.len() {
    if t.len() == 0 { assert(q + t =~= q); assert(waiting(q) + waiting(t) =~= waiting(q)); }
    else { waiting_add(q, t.drop_last()); assert((q + t).drop_last() =~= q + t.drop_last()); assert(waiting(q + t) =~= waiting(q) + waiting(t)); }
}
/// committing an entry takes exactly that message out of what is still to be sent
pub proof fn waiting_commit(q: Seq<PendingSendMessage>, q2: Seq<PendingSendMessage>, i: int)
    requires 0 <= i < q.len(), q2.len() == q.len(), q2[i].committed, forall|j: int| 0 <= j < q.len() ==> (#[trigger] q2[j]).message == q[j].message && (j != i ==> q2[j].committed == q[j].committed)
    ensures waiting(q2) == (if q[i].committed { waiting(q) } else { waiting(q).remove(waiting(q.take(i)).len() as int) }), 0 <= waiting(q.take(i)).len() <= waiting(q).len(), !q[i].committed ==> waiting(q.take(i)).len() < waiting(q).len() && waiting(q)[waiting(q.take(i)).len() as int] == q[i].message
{
    let a = q.take(i); let b = q.skip(i + 1); let a2 = q2.take(i); let b2 = q2.skip(i + 1);
    waiting_same(a, a2); waiting_same(b, b2);
    assert(q =~= a.push(q[i]) + b); assert(q2 =~= a2.push(q2[i]) + b2);
    waiting_add(a.push(q[i]), b); waiting_add(a2.push(q2[i]), b2); waiting_push(a, q[i]); waiting_push(a2, q2[i]);
    if !q[i].committed { assert(waiting(q2) =~= waiting(q).remove(waiting(a).len() as int)); }
}
pub proof fn waiting_same(q: Seq<PendingSendMessage>, q2: Seq<PendingSendMessage>)
    requires q.len() == q2.len(), forall|j: int| 0 <= j < q.len() ==> (#[trigger] q2[j]).message == q[j].message && q2[j].committed == q[j].committed
    ensures waiting(q) == waiting(q2)
    decreases q.len()
{ if q.len() > 0 { waiting_same(q.drop_last(), q2.drop_last()); } }
/// the three closures given to retain
pub open spec fn keeps(started_only: bool, p: PendingSendMessage) -> bool { !p.committed && (started_only ==> p.fragment_started) }
pub open spec fn kept(q: Seq<PendingSendMessage>, started_only: bool) -> Seq<PendingSendMessage> decreases q.len() {
    if q.len() == 0 { Seq::empty() } else if keeps(started_only, q.last()) { kept(q.drop_last(), started_only).push(q.last()) } else { kept(q.drop_last(), started_only) }
}
/// dropping what was sent leaves what is still to be sent
pub proof fn kept_waits(q: Seq<PendingSendMessage>)
    ensures waiting(kept(q, false)) == waiting(q), forall|i: int| 0 <= i < kept(q, false).len() ==> !(#[trigger] kept(q, false)[i]).committed
    decreases q.len()
{ if q.len() > 0 { kept_waits(q.drop_last()); waiting_push(kept(q.drop_last(), false), q.last()); } }
pub open spec fn fragments_only(q: Seq<PendingSendMessage>) -> bool { forall|i: int| 0 <= i < q.len() ==> is_piece((#[trigger] q[i]).message.data) }
pub open spec fn no_pieces(q: Seq<PendingSendMessage>) -> bool { forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).message.data is Single }
pub open spec fn is_piece(d: MessageData) -> bool { d matches MessageData::Fragment(f) && whole(f) }
pub proof fn kept_from(q: Seq<PendingSendMessage>, b: bool)
    ensures forall|i: int| 0 <= i < kept(q, b).len() ==> q.contains(#[trigger] kept(q, b)[i]) && keeps(b, kept(q, b)[i]), fragments_only(q) ==> fragments_only(kept(q, b)), no_pieces(q) ==> no_pieces(kept(q, b))
    decreases q.len()
{
    if q.len() > 0 {
        kept_from(q.drop_last(), b);
        let d = kept(q.drop_last(), b);
        assert forall|i: int| 0 <= i < kept(q, b).len() implies q.contains(#[trigger] kept(q, b)[i]) && keeps(b, kept(q, b)[i]) by {
            if i < d.len() { assert(q.drop_last().contains(d[i])); let k = choose|k: int| 0 <= k < q.drop_last().len() && q.drop_last()[k] == d[i]; assert(q[k] == d[i]); } else { assert(q[q.len() - 1] == q.last()); }
        }
        if no_pieces(q) { assert forall|i: int| 0 <= i < kept(q, b).len() implies (#[trigger] kept(q, b)[i]).message.data is Single by { let k = choose|k: int| 0 <= k < q.len() && q[k] == kept(q, b)[i]; assert(q[k].message.data is Single); } }
        if fragments_only(q) { assert forall|i: int| 0 <= i < kept(q, b).len() implies is_piece((#[trigger] kept(q, b)[i]).message.data) by { let k = choose|k: int| 0 <= k < q.len() && q[k] == kept(q, b)[i]; assert(is_piece(q[k].message.data)); } }
    }
}
pub open spec fn u_offer(kind: ChannelKind, channel: ChannelId, single: bool, i: int, p: PendingSendMessage) -> Offer { Offer { kind, channel, key: if single { SendMessageKey::UnreliableSingle(i as usize) } else { SendMessageKey::UnreliableFragment(i as usize) }, order: i as u64, data: p.message.data } }
/// what is offered of a queue: the entries still to be sent, in order
pub open spec fn u_offers(kind: ChannelKind, channel: ChannelId, single: bool, q: Seq<PendingSendMessage>, k: int) -> Seq<Offer> decreases k {
    if k <= 0 { Seq::empty() } else if !q[k - 1].committed { u_offers(kind, channel, single, q, k - 1).push(u_offer(kind, channel, single, k - 1, q[k - 1])) } else { u_offers(kind, channel, single, q, k - 1) }
}
/// as data, what is offered is what is still to be sent
pub proof fn offers_wait(kind: ChannelKind, channel: ChannelId, single: bool, q: Seq<PendingSendMessage>, k: int)
    requires 0 <= k <= q.len()
    ensures u_offers(kind, channel, single, q, k).len() == waiting(q.take(k)).len(), forall|i: int| 0 <= i < waiting(q.take(k)).len() ==> (#[trigger] u_offers(kind, channel, single, q, k)[i]).data == waiting(q.take(k))[i].data
    decreases k
{ if k > 0 { offers_wait(kind, channel, single, q, k - 1); assert(q.take(k).drop_last() =~= q.take(k - 1)); assert(q.take(k).last() == q[k - 1]); } }
impl PendingSendMessage {
//@@ fn PendingSendMessage::new
//@@ spec: ensures r == pend(message)
//@@ end
//@@ fn PendingSendMessage::fragment_message_id
//@@ spec: ensures r == fid(*self)
//@@ end
}
pub open spec fn fragment_message(f: FragmentData, priority: F32) -> SendMessage { SendMessage { data: MessageData::Fragment(f), priority } }
pub open spec fn queued(v: Seq<FragmentData>, priority: F32) -> Seq<PendingSendMessage> { v.map_values(|f: FragmentData| pend(fragment_message(f, priority))) }
impl UnreliableSendState {
    pub open spec fn wf(self) -> bool { fragments_only(self.fragments@) && no_pieces(self.singles@) && (self.fragment_acks matches Some(a) ==> a.wf()) && (self.fragment_acks is Some <==> self.delivery is UnorderedWithAcks) }
    pub open spec fn same_settings(self, o: Self) -> bool { self.delivery == o.delivery && self.retry_unsent_messages == o.retry_unsent_messages }
//@@ fn UnreliableSendState::new
//@@ rename: . then ( FragmentAckReceiver :: new ) => .vx_then_receiver()
//@@ spec: ensures r.wf(), r.delivery == delivery, r.retry_unsent_messages == retry_unsent_messages, r.singles@.len() == 0, r.fragments@.len() == 0, r.next_message_id.0 == 0
//@@ end
//@@ fn UnreliableSendState::update
//@@ rename: Time < Real > => Clock
//@@ spec: requires old(self).wf() ensures final(self).wf(), final(self).same_settings(*old(self)), final(self).singles == old(self).singles, final(self).fragments == old(self).fragments, final(self).next_message_id == old(self).next_message_id
//@@ end
//@@ closure UnreliableSendState::buffer_send map
//@@ sig: fn vx_pend($0: FragmentData, priority: F32) -> PendingSendMessage
//@@ rename: . into ( ) => .vx_into()
//@@ spec: ensures r == pend(fragment_message(fragment, priority))
//@@ end
    /// extend(into_iter().map(..))
    fn vx_extend_pending(q: &mut VecDeque<PendingSendMessage>, v: Vec<FragmentData>, priority: F32)
        ensures final(q)@ == old(q)@ + queued(v@, priority)
    {
        let mut v = v;
        let ghost v0 = v@;
        let ghost q0 = q@;
        let ghost mut n: int = 0;
        proof { assert(q0 + Seq::<PendingSendMessage>::empty() =~= q0); }
        while v.len() > 0
            invariant 0 <= n, n + v@.len() == v0.len(), v@ == v0.skip(n), q@ =~= q0 + queued(v0.take(n), priority)
            decreases v@.len()
        {
            let ghost v1 = v@;
            let x = v.remove(0);
            q.push_back(Self::vx_pend(x, priority));
            proof { assert(x == v1[0]); assert(x == v0[n]); n = n + 1; assert(v@ =~= v0.skip(n)); assert(v0.take(n) =~= v0.take(n - 1).push(x)); }
        }
        proof { assert(v0.take(n) =~= v0); }
    }
//@@ fn UnreliableSendState::buffer_send
//@@ hoist: map over fragments.into_iter() => fragments, priority
//@@ closures: then_some
//@@ rename: self . fragments . extend ( => Self::vx_extend_pending(&mut self.fragments, ;; . into ( ) => .vx_into() ;; f32 => F32
//@@ spec:
//@@ | requires old(self).wf(), old(fragmenter).fragment_size > 0
//@@ | ensures final(self).wf(), *final(fragmenter) == *old(fragmenter), u_queued(*old(self), *final(self), message, priority, old(fragmenter).fragment_size as int, r)
//@@ end
//@@ closure UnreliableSendState::collect_candidates filter#0
//@@ sig: fn vx_unsent_single(vx_p: &(usize, &PendingSendMessage)) -> bool
//@@ start: let $0 = vx_p;
//@@ spec: ensures r == !vx_p.1.committed
//@@ end
//@@ closure UnreliableSendState::collect_candidates map#0
//@@ sig: fn vx_offer_single(vx_p: (usize, &PendingSendMessage), channel_kind: ChannelKind, channel_id: ChannelId) -> SendCandidate
//@@ start: let $0 = vx_p;
//@@ spec: ensures offer(r) == u_offer(channel_kind, channel_id, true, vx_p.0 as int, *vx_p.1), r.message == vx_p.1.message
//@@ end
//@@ closure UnreliableSendState::collect_candidates filter#1
//@@ sig: fn vx_unsent_fragment(vx_p: &(usize, &PendingSendMessage)) -> bool
//@@ start: let $0 = vx_p;
//@@ spec: ensures r == !vx_p.1.committed
//@@ end
//@@ closure UnreliableSendState::collect_candidates map#1
//@@ sig: fn vx_offer_fragment(vx_p: (usize, &PendingSendMessage), channel_kind: ChannelKind, channel_id: ChannelId) -> SendCandidate
//@@ start: let $0 = vx_p;
//@@ spec: ensures offer(r) == u_offer(channel_kind, channel_id, false, vx_p.0 as int, *vx_p.1), r.message == vx_p.1.message
//@@ end
    /// iter().enumerate().filter(..).map(..)
    fn vx_offer_singles(q: &VecDeque<PendingSendMessage>, channel_kind: ChannelKind, channel_id: ChannelId) -> (r: Vec<SendCandidate>)
        ensures q@.len() <= usize::MAX, strip(r@) == u_offers(channel_kind, channel_id, true, q@, q@.len() as int)
    {
        let mut out: Vec<SendCandidate> = Vec::new();
        let mut i: usize = 0;
        proof { assert(strip(out@) =~= Seq::<Offer>::empty()); }
        while i < q.len()
            invariant i <= q@.len(), strip(out@) == u_offers(channel_kind, channel_id, true, q@, i as int)
            decreases q@.len() - i
        {
            if Self::vx_unsent_single(&(i, q.vx_at(i))) {
                let c = Self::vx_offer_single((i, q.vx_at(i)), channel_kind, channel_id);
                proof { strip_push(out@, c); }
                out.push(c);
            }
            i += 1;
        }
        out
    }
    fn vx_offer_fragments(q: &VecDeque<PendingSendMessage>, channel_kind: ChannelKind, channel_id: ChannelId) -> (r: Vec<SendCandidate>)
        ensures q@.len() <= usize::MAX, strip(r@) == u_offers(channel_kind, channel_id, false, q@, q@.len() as int)
    {
        let mut out: Vec<SendCandidate> = Vec::new();
        let mut i: usize = 0;
        proof { assert(strip(out@) =~= Seq::<Offer>::empty()); }
        while i < q.len()
            invariant i <= q@.len(), strip(out@) == u_offers(channel_kind, channel_id, false, q@, i as int)
            decreases q@.len() - i
        {
            if Self::vx_unsent_fragment(&(i, q.vx_at(i))) {
                let c = Self::vx_offer_fragment((i, q.vx_at(i)), channel_kind, channel_id);
                proof { strip_push(out@, c); }
                out.push(c);
            }
            i += 1;
        }
        out
    }
//@@ fn UnreliableSendState::collect_candidates
//@@ hoist: map over self.singles.iter().enumerate().filter($C) => Self::vx_offer_singles(&self.singles, channel_kind, channel_id)
//@@ hoist: map over self.fragments.iter().enumerate().filter($C) => Self::vx_offer_fragments(&self.fragments, channel_kind, channel_id)
//@@ rename: output . extend ( => vx_extend(output,
//@@ spec: ensures self.singles@.len() <= usize::MAX, self.fragments@.len() <= usize::MAX, strip(final(output)@) == strip(old(output)@) + u_offers(channel_kind, channel_id, true, self.singles@, self.singles@.len() as int) + u_offers(channel_kind, channel_id, false, self.fragments@, self.fragments@.len() as int)
//@@ start: let ghost o0 = output@; proof { assert forall|v: Seq<SendCandidate>, w: Seq<SendCandidate>| #[trigger] strip(v + w) == strip(v) + strip(w) by { strip_add(v, w); } }
//@@ end
}
impl UnreliableSendState {
//@@ fn UnreliableSendState::commit_send
//@@ rename: for pending in & mut self . fragments { => let mut vx_i: usize = 0; while vx_i < self.fragments.len() { let pending = self.fragments.get_mut(vx_i).unwrap(); vx_i += 1; ;; pending . fragment_message_id ( ) == Some ( message_id ) => vx_is(pending.fragment_message_id(), message_id)
//@@ spec:
//@@ | // the key is that of a queued entry
//@@ | requires old(self).wf(), match key { SendMessageKey::UnreliableSingle(i) => i < old(self).singles@.len(), SendMessageKey::UnreliableFragment(i) => i < old(self).fragments@.len(), _ => false }
//@@ | ensures final(self).wf(), final(self).same_settings(*old(self)), final(self).next_message_id == old(self).next_message_id, final(self).fragment_acks == old(self).fragment_acks,
//@@ |   // that entry is sent, and of the others nothing changes but that the rest of its message is now to follow
//@@ |   match key {
//@@ |     SendMessageKey::UnreliableSingle(i) => final(self).fragments == old(self).fragments && final(self).singles@ == old(self).singles@.update(i as int, PendingSendMessage { committed: true, ..old(self).singles@[i as int] }),
//@@ |     SendMessageKey::UnreliableFragment(i) => final(self).singles == old(self).singles && final(self).fragments@.len() == old(self).fragments@.len() && forall|j: int| 0 <= j < old(self).fragments@.len() ==> #[trigger] final(self).fragments@[j] == committed_at(old(self).fragments@, i as int, j),
//@@ |     _ => true }
//@@ start: let ghost f0 = self.fragments@; let ghost at = match key { SendMessageKey::UnreliableFragment(i) => i as int, _ => 0 };
//@@ loop 0:
//@@ | invariant vx_i <= self.fragments@.len(), self.fragments@.len() == f0.len(), 0 <= at < f0.len(), fid(f0[at]) == Some(message_id), !f0[at].fragment_started, f0 == old(self).fragments@,
//@@ |   self.same_settings(*old(self)), self.next_message_id == old(self).next_message_id, self.fragment_acks == old(self).fragment_acks, self.singles == old(self).singles,
//@@ |   forall|j: int| 0 <= j < vx_i ==> #[trigger] self.fragments@[j] == committed_at(f0, at, j),
//@@ |   forall|j: int| vx_i <= j < f0.len() ==> #[trigger] self.fragments@[j] == (PendingSendMessage { committed: f0[j].committed || j == at, ..f0[j] }),
//@@ | decreases self.fragments@.len() - vx_i
//@@ end
//@@ closure UnreliableSendState::finish_send filter
//@@ sig: fn vx_untouched($0: &PendingSendMessage) -> bool
//@@ spec: ensures r == (!pending.committed && !pending.fragment_started)
//@@ end
//@@ closure UnreliableSendState::finish_send retain#0
//@@ sig: fn vx_keep_started($0: &PendingSendMessage) -> bool
//@@ spec: ensures r == keeps(true, *pending)
//@@ end
//@@ closure UnreliableSendState::finish_send retain#1
//@@ sig: fn vx_keep_single($0: &PendingSendMessage) -> bool
//@@ spec: ensures r == keeps(false, *pending)
//@@ end
//@@ closure UnreliableSendState::finish_send retain#2
//@@ sig: fn vx_keep_fragment($0: &PendingSendMessage) -> bool
//@@ spec: ensures r == keeps(false, *pending)
//@@ end
    /// VecDeque::retain
    fn vx_retain(q: &mut VecDeque<PendingSendMessage>, which: u8)
        ensures final(q)@ == kept(old(q)@, which == 0)
    {
        let ghost q0 = q@;
        let total = q.len();
        let mut n: usize = 0;
        while n < total
            invariant n <= total == q0.len(), q@ =~= q0.skip(n as int) + kept(q0.take(n as int), which == 0)
            decreases total - n
        {
            let ghost qn = q@;
            let x = q.pop_front().unwrap();
            proof { assert(x == q0[n as int]); assert(q0.take(n + 1).drop_last() =~= q0.take(n as int)); }
            let keep = if which == 0 { Self::vx_keep_started(&x) } else if which == 1 { Self::vx_keep_single(&x) } else { Self::vx_keep_fragment(&x) };
            if keep { q.push_back(x); }
            n += 1;
        }
        proof { assert(q0.take(n as int) =~= q0); }
    }
//@@ fn UnreliableSendState::finish_send
//@@ hoist: filter over self.fragments.iter() => vx_the_untouched
//@@ hoist: retain over self.fragments => Self::vx_retain(&mut self.fragments, 0)
//@@ hoist: retain over self.singles => Self::vx_retain(&mut self.singles, 1)
//@@ hoist: retain over self.fragments => Self::vx_retain(&mut self.fragments, 2)
//@@ rename: for pending in vx_the_untouched { => let mut vx_i: usize = 0; while vx_i < self.fragments.len() { let pending = self.fragments.vx_at(vx_i); vx_i += 1; if !Self::vx_untouched(pending) { continue; }
//@@ spec:
//@@ | requires old(self).wf()
//@@ | ensures final(self).wf(), final(self).same_settings(*old(self)), final(self).next_message_id == old(self).next_message_id,
//@@ |   // only a channel told to discard what the bandwidth kept back discards anything that was not sent, and never the rest of a message that was started
//@@ |   ({ let discard = was_ready && !old(self).retry_unsent_messages && outcome is BandwidthLimited;
//@@ |     (if discard { final(self).singles@.len() == 0 } else { final(self).singles@ == kept(old(self).singles@, false) && final(self).fragment_acks == old(self).fragment_acks }) && final(self).fragments@ == kept(old(self).fragments@, discard) })
//@@ start: proof { kept_from(self.fragments@, true); kept_from(self.fragments@, false); kept_from(self.singles@, false); }
//@@ loop 0:
//@@ | invariant vx_i <= self.fragments@.len(), self.fragments == old(self).fragments, self.singles == old(self).singles, self.delivery == old(self).delivery, self.retry_unsent_messages == old(self).retry_unsent_messages, self.next_message_id == old(self).next_message_id, fragment_acks.wf()
//@@ | decreases self.fragments@.len() - vx_i
//@@ end
//@@ fn UnreliableSendState::receive_ack
//@@ closures: is_some_and
//@@ spec:
//@@ | // acknowledgements come for pieces that were sent
//@@ | requires old(self).wf(), old(self).ack_fits(*ack)
//@@ | ensures final(self).wf(), final(self).same_settings(*old(self)), final(self).singles == old(self).singles, final(self).fragments == old(self).fragments, final(self).next_message_id == old(self).next_message_id,
//@@ |   r ==> old(self).delivery is UnorderedWithAcks,
//@@ |   // a message in pieces is reported acknowledged when its last piece is, and forgotten
//@@ |   ack.fragment_id matches Some(f) ==> old(self).fragment_acks matches Some(a) ==> (r <==> a.fragment_messages@.dom().contains(ack.message_id) && a.all_but(ack.message_id, f.0 as int)) && (r ==> final(self).fragment_acks->Some_0.fragment_messages@ == a.fragment_messages@.remove(ack.message_id)),
//@@ |   ack.fragment_id is None ==> (r <==> old(self).delivery is UnorderedWithAcks)
//@@ end
//@@ fn UnreliableSendState::receive_nack
//@@ spec:
//@@ | requires old(self).wf()
//@@ | ensures final(self).wf(), final(self).same_settings(*old(self)), final(self).singles == old(self).singles, final(self).fragments == old(self).fragments, final(self).next_message_id == old(self).next_message_id,
//@@ |   // what lost a piece is never reported acknowledged
//@@ |   nack.fragment_id is Some && old(self).fragment_acks is Some ==> final(self).fragment_acks->Some_0.fragment_messages@ == old(self).fragment_acks->Some_0.fragment_messages@.remove(nack.message_id)
//@@ end
    pub open spec fn ack_fits(self, ack: MessageAck) -> bool { ack.fragment_id matches Some(f) ==> f.0 <= usize::MAX && (self.fragment_acks matches Some(a) ==> a.fragment_messages@.dom().contains(ack.message_id) ==> f.0 < a.fragment_messages@[ack.message_id].num_fragments) }
}
/// the entry j after the entry i was sent
pub open spec fn committed_at(q: Seq<PendingSendMessage>, i: int, j: int) -> PendingSendMessage {
    PendingSendMessage { message: q[j].message, committed: q[j].committed || j == i, fragment_started: q[j].fragment_started || (!q[i].fragment_started && fid(q[j]) == fid(q[i])) }
}
fn vx_is(a: Option<MessageId>, b: MessageId) -> (r: bool) ensures r == (a == Some(b)) { match a { Some(x) => x == b, None => false } }
// ---------------------------------------------------------------- the channel
//@@ source crates/transport/transport/src/channel/builder.rs
//@@ item enum ChannelMode
//@@ source crates/transport/transport/src/channel/send.rs
#[derive(Clone, Copy)]
pub struct DebugName { pub x: u64 }
//@@ item enum SendState
//@@ item struct ChannelSend
pub open spec fn ready(t: Option<Timer>) -> bool { match t { None => true, Some(t) => finished(t) } }
pub trait VxReady { spec fn vx_spec(self) -> bool; fn vx_none_or_finished(self) -> (r: bool) ensures r == self.vx_spec(); }
impl VxReady for Option<&Timer> {
    open spec fn vx_spec(self) -> bool { match self { None => true, Some(t) => finished(*t) } }
    fn vx_none_or_finished(self) -> (r: bool) { match self { None => true, Some(t) => t.is_finished() } }
}
//@@ fn is_ready_to_send
//@@ rename: . is_none_or ( Timer :: is_finished ) => .vx_none_or_finished()
//@@ spec: ensures r == (match timer { None => true, Some(t) => finished(*t) })
//@@ end
impl ChannelSend {
    pub open spec fn wf(self) -> bool { self.fragmenter.fragment_size > 0 && match self.state { SendState::Unreliable(u) => u.wf(), SendState::Reliable(r) => r.wf() } }
    pub open spec fn same_but_state(self, o: Self) -> bool { self.channel_kind == o.channel_kind && self.channel_id == o.channel_id && self.mode == o.mode && self.fragmenter == o.fragmenter && self.timer == o.timer && self.name == o.name && self.message_acks == o.message_acks && self.message_nacks == o.message_nacks && self.messages_sent == o.messages_sent && self.watches() == o.watches() }
    pub open spec fn watches(self) -> bool { match self.state { SendState::Reliable(_) => true, SendState::Unreliable(u) => u.delivery is UnorderedWithAcks } }
    /// the key is that of something waiting in this channel
    pub open spec fn waits(self, key: SendMessageKey) -> bool {
        match (self.state, key) {
            (SendState::Unreliable(u), SendMessageKey::UnreliableSingle(i)) => i < u.singles@.len(),
            (SendState::Unreliable(u), SendMessageKey::UnreliableFragment(i)) => i < u.fragments@.len(),
            (SendState::Reliable(s), SendMessageKey::ReliableSingle(id)) => s.pending@.dom().contains(id) && shape(s.pending@[id], None),
            (SendState::Reliable(s), SendMessageKey::ReliableFragment(id, f)) => s.pending@.dom().contains(id) && shape(s.pending@[id], Some(f)),
            _ => false,
        }
    }
//@@ fn ChannelSend::watches_acks
//@@ rename: matches ! ( & self . state , SendState :: Reliable ( _ ) | SendState :: Unreliable ( UnreliableSendState { delivery : UnreliableDelivery :: UnorderedWithAcks , .. } ) ) => (match &self.state { SendState::Reliable(_) | SendState::Unreliable(UnreliableSendState { delivery: UnreliableDelivery::UnorderedWithAcks, .. }) => true, _ => false })
//@@ spec: ensures r == self.watches()
//@@ end
//@@ fn ChannelSend::buffer_send_with_scratch
//@@ rename: f32 => F32
//@@ spec:
//@@ | requires old(self).wf(), old(self).state matches SendState::Reliable(s) ==> s.next_send_order < u64::MAX
//@@ | ensures final(self).wf(), final(self).same_but_state(*old(self)), 
//@@ |   match (old(self).state, final(self).state) {
//@@ |     (SendState::Unreliable(u), SendState::Unreliable(w)) => u_queued(u, w, message, priority, old(self).fragmenter.fragment_size as int, r),
//@@ |     (SendState::Reliable(u), SendState::Reliable(w)) => r matches Some(id) && r_queued(u, w, message, priority, old(self).fragmenter.fragment_size as int, id),
//@@ |     _ => false }
//@@ start: proof { assert forall|id: MessageId, p: PendingReliableMessage, n: int| #[trigger] fresh(p, id, message, n) implies numbered(id, p) by { fresh_numbered(id, p, message, n); } }
//@@ end
//@@ fn ChannelSend::collect_send_candidates
//@@ rename: self . timer . as_ref ( ) => vx_timer(&self.timer)
//@@ spec:
//@@ | requires old(self).wf()
//@@ | ensures final(self).wf(), final(self).same_but_state(*old(self)),
//@@ |   // what is offered is waiting, under this channel's name
//@@ |   strip(old(output)@).is_prefix_of(strip(final(output)@)), forall|i: int| old(output)@.len() <= i < final(output)@.len() ==> final(self).waits((#[trigger] strip(final(output)@)[i]).key) && (strip(final(output)@)[i].data matches MessageData::Fragment(f) ==> whole(f)) && strip(final(output)@)[i].kind == old(self).channel_kind && strip(final(output)@)[i].channel == old(self).channel_id,
//@@ |   // nothing is offered before the channel's time has come, and offering takes nothing out
//@@ |   !ready(old(self).timer) ==> *final(self) == *old(self) && final(output)@ == old(output)@,
//@@ |   match (old(self).state, final(self).state) {
//@@ |     (SendState::Unreliable(u), SendState::Unreliable(w)) => u == w && (ready(old(self).timer) ==> strip(final(output)@) == strip(old(output)@) + u_offers(old(self).channel_kind, old(self).channel_id, true, u.singles@, u.singles@.len() as int) + u_offers(old(self).channel_kind, old(self).channel_id, false, u.fragments@, u.fragments@.len() as int)),
//@@ |     (SendState::Reliable(u), SendState::Reliable(w)) => w.pending@.dom() == u.pending@.dom() && (ready(old(self).timer) ==> exists|ks: Seq<MessageId>| ks.no_duplicates() && ks.to_set() == u.pending@.dom() && strip(final(output)@) == strip(old(output)@) + #[trigger] all_offers(u.ctx(old(self).channel_kind, old(self).channel_id), ks, u.pending@, ks.len() as int)),
//@@ |     _ => false }
//@@ start: proof { if self.state is Unreliable { let u = self.state->Unreliable_0; if u.singles@.len() <= usize::MAX { u_offers_named(self.channel_kind, self.channel_id, true, u.singles@, u.singles@.len() as int); } if u.fragments@.len() <= usize::MAX { u_offers_named(self.channel_kind, self.channel_id, false, u.fragments@, u.fragments@.len() as int); } } }
//@@ end
//@@ fn ChannelSend::commit_send
//@@ spec:
//@@ | requires old(self).wf(), old(self).waits(key)
//@@ | ensures final(self).wf(), final(self).same_but_state(*old(self)), final(self).state is Reliable == old(self).state is Reliable,
//@@ |   // what else was offered is still there to be recorded
//@@ |   forall|k: SendMessageKey| old(self).waits(k) ==> #[trigger] final(self).waits(k)
//@@ end
//@@ fn ChannelSend::finish_send
//@@ rename: self . timer . as_ref ( ) => vx_timer(&self.timer)
//@@ spec:
//@@ | requires old(self).wf()
//@@ | ensures final(self).wf(), final(self).same_but_state(*old(self)),
//@@ |   // reliable messages outlive the flush
//@@ |   old(self).state is Reliable ==> final(self).state == old(self).state,
//@@ |   old(self).state matches SendState::Unreliable(u) ==> final(self).state matches SendState::Unreliable(w) && (!(outcome is BandwidthLimited) || u.retry_unsent_messages || !ready(old(self).timer) ==> waiting(w.singles@) == waiting(u.singles@) && waiting(w.fragments@) == waiting(u.fragments@))
//@@ start: proof { if self.state is Unreliable { kept_waits((self.state->Unreliable_0).singles@); kept_waits((self.state->Unreliable_0).fragments@); } }
//@@ end
//@@ fn ChannelSend::receive_ack
//@@ spec:
//@@ | requires old(self).wf(), match old(self).state { SendState::Unreliable(u) => u.ack_fits(*ack), SendState::Reliable(s) => s.pending@.dom().contains(ack.message_id) ==> shape(s.pending@[ack.message_id], ack.fragment_id) }
//@@ | ensures final(self).wf(), final(self).same_but_state(*old(self)), final(self).state is Reliable == old(self).state is Reliable,
//@@ |   // an acknowledged message is acknowledged once, and then no longer there
//@@ |   (r && old(self).state is Reliable) ==> !(final(self).state->Reliable_0).pending@.dom().contains(ack.message_id)
//@@ end
//@@ fn ChannelSend::receive_nack
//@@ spec:
//@@ | requires old(self).wf()
//@@ | ensures final(self).wf(), final(self).same_but_state(*old(self)), old(self).state is Reliable ==> final(self).state == old(self).state,
//@@ |   old(self).state matches SendState::Unreliable(u) ==> final(self).state matches SendState::Unreliable(w) && w.singles == u.singles && w.fragments == u.fragments
//@@ end
}
#[verifier::external_body]
fn vx_timer(t: &Option<Timer>) -> (r: Option<&Timer>) ensures match r { Some(x) => *t == Some(*x), None => *t is None } { t.as_ref() }
// ---------------------------------------------------------------- the properties, over the contracts
/// a piece of a reliable message is offered exactly when it is not acknowledged and due, and then once
pub proof fn piece_offered(x: Ctx, id: MessageId, n: u64, v: Seq<FragmentAck>, k: int, i: int)
    requires 0 <= i < v.len(), 0 <= k <= v.len(), forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j]).data.fragment_id.0 == j
    ensures
        fragment_offers(x, id, n, v, k).contains(fragment_offer(x, id, n, v[i].data)) <==> i < k && wanted(x, v[i]),
        fragment_offers(x, id, n, v, k).no_duplicates(),
        forall|o: Offer| #[trigger] fragment_offers(x, id, n, v, k).contains(o) ==> exists|j: int| 0 <= j < k && o == fragment_offer(x, id, n, #[trigger] v[j].data) && wanted(x, v[j]),
    decreases k
{
    if k > 0 {
        piece_offered(x, id, n, v, k - 1, i);
        let s = fragment_offers(x, id, n, v, k - 1); let o = fragment_offer(x, id, n, v[k - 1].data);
        if wanted(x, v[k - 1]) {
            let t = s.push(o);
            assert(!s.contains(o)) by { if s.contains(o) { let j = choose|j: int| 0 <= j < k - 1 && o == fragment_offer(x, id, n, #[trigger] v[j].data) && wanted(x, v[j]); assert(v[j].data.fragment_id.0 == j); assert(v[k - 1].data.fragment_id.0 == k - 1); } }
            assert forall|p: Offer| #[trigger] t.contains(p) <==> s.contains(p) || p == o by {
                if s.contains(p) { let j = choose|j: int| 0 <= j < s.len() && s[j] == p; assert(t[j] == p); }
                if p == o { assert(t[s.len() as int] == p); }
                if t.contains(p) { let j = choose|j: int| 0 <= j < t.len() && t[j] == p; if j < s.len() { assert(s[j] == p); } }
            }
            if i != k - 1 { assert(v[i].data.fragment_id.0 == i); assert(v[k - 1].data.fragment_id.0 == k - 1); }
            assert forall|p: Offer| t.contains(p) implies exists|j: int| 0 <= j < k && p == fragment_offer(x, id, n, #[trigger] v[j].data) && wanted(x, v[j]) by {
                if s.contains(p) { let j = choose|j: int| 0 <= j < k - 1 && p == fragment_offer(x, id, n, #[trigger] v[j].data) && wanted(x, v[j]); assert(v[j].data == v[j].data); } else { assert(p == fragment_offer(x, id, n, v[k - 1].data)); }
            }
        }
    }
}
/// T11: what a flush offers of all the messages is what it offers of each (so a message or piece that is not acknowledged and due is offered, an acknowledged one is not)
pub proof fn offered_of_each(x: Ctx, ks: Seq<MessageId>, m: Map<MessageId, PendingReliableMessage>, n: int, o: Offer)
    requires 0 <= n <= ks.len()
    ensures all_offers(x, ks, m, n).contains(o) <==> exists|i: int| 0 <= i < n && offers(x, #[trigger] ks[i], m[ks[i]]).contains(o)
    decreases n
{
    if n > 0 {
        offered_of_each(x, ks, m, n - 1, o);
        let s = all_offers(x, ks, m, n - 1); let t = offers(x, ks[n - 1], m[ks[n - 1]]);
        if s.contains(o) { let i = choose|i: int| 0 <= i < s.len() && s[i] == o; assert((s + t)[i] == o); let j = choose|i: int| 0 <= i < n - 1 && offers(x, #[trigger] ks[i], m[ks[i]]).contains(o); assert(0 <= j < n); }
        if t.contains(o) { let i = choose|i: int| 0 <= i < t.len() && t[i] == o; assert((s + t)[s.len() + i] == o); }
        if (s + t).contains(o) { let i = choose|i: int| 0 <= i < (s + t).len() && (s + t)[i] == o; if i < s.len() { assert(s[i] == o); } else { assert(t[i - s.len()] == o); } }
    }
}
/// T11: sending a piece and acknowledging another one leave an acknowledged piece acknowledged
pub proof fn acked_stays(v: Seq<FragmentAck>, f: int, t: Duration, i: int)
    requires 0 <= f < v.len(), 0 <= i < v.len(), v[i].acked
    ensures v.update(f, FragmentAck { last_sent: Some(t), ..v[f] })[i].acked, v.update(f, FragmentAck { acked: true, ..v[f] })[i].acked, forall|x: Ctx| !wanted(x, v[i])
{}
/// T12: an entry sent and then cleared is out of what is still to be sent, and nothing else is
pub proof fn sent_once(q: Seq<PendingSendMessage>, i: int)
    requires 0 <= i < q.len(), !q[i].committed
    ensures ({ let r = waiting(q.take(i)).len() as int; 0 <= r < waiting(q).len() && waiting(q)[r] == q[i].message && waiting(kept(q.update(i, PendingSendMessage { committed: true, ..q[i] }), false)) == waiting(q).remove(r) })
{
    let q2 = q.update(i, PendingSendMessage { committed: true, ..q[i] });
    waiting_commit(q, q2, i); kept_waits(q2);
}
/// T12: pieces handed in are all still to be sent
pub proof fn queued_waits(v: Seq<FragmentData>, p: F32)
    ensures waiting(queued(v, p)) == v.map_values(|f: FragmentData| fragment_message(f, p))
    decreases v.len()
{
    if v.len() > 0 { queued_waits(v.drop_last(), p); assert(queued(v, p).drop_last() =~= queued(v.drop_last(), p)); assert(waiting(queued(v, p)) =~= v.map_values(|f: FragmentData| fragment_message(f, p))); }
    else { assert(waiting(queued(v, p)) =~= v.map_values(|f: FragmentData| fragment_message(f, p))); }
}
} // verus!
fn main() {}

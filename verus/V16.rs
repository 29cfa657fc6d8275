// V16: packing messages into packets and reading them back (T13).
// Real code: crates/transport/transport/src/packet/{packet_builder,packet,packet_type,header,message,compression}.rs,
// crates/core/core/src/buffer_pool.rs, crates/transport/transport/src/plugin.rs.
//@@ features compression_lz4 std
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@@ include io.inc
//@@ include prims.inc
//@@ include frames.inc
pub type PacketError = SerializationError;
pub type ChannelId = u16;
/// f32: only compared
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F32 { x: f32 }
/// IEEE 754 total order
pub uninterp spec fn rank(a: F32) -> int;
impl F32 {
    #[verifier::external_body]
    pub fn total_cmp(&self, o: &F32) -> (r: Ordering) ensures (r is Equal) == (rank(*self) == rank(*o)) { unimplemented!() }
}
fn vx_same(o: Ordering) -> (r: bool) ensures r == (o is Equal) { match o { Ordering::Equal => true, _ => false } }
// ---------------------------------------------------------------- packet kinds and headers
//@@ source crates/transport/transport/src/packet/packet_type.rs
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
#[repr(u8)]
//@@ item enum PacketType
pub open spec fn kind(b: u8) -> Option<PacketType> { if b == 0 { Some(PacketType::Data) } else if b == 1 { Some(PacketType::DataFragment) } else if b == 2 { Some(PacketType::DataCompressed) } else if b == 3 { Some(PacketType::DataFragmentCompressed) } else if b == 4 { Some(PacketType::AckOnly) } else { None } }
pub open spec fn byte(k: PacketType) -> u8 { match k { PacketType::Data => 0, PacketType::DataFragment => 1, PacketType::DataCompressed => 2, PacketType::DataFragmentCompressed => 3, PacketType::AckOnly => 4 } }
pub open spec fn squeezed(k: PacketType) -> Option<PacketType> { match k { PacketType::Data => Some(PacketType::DataCompressed), PacketType::DataFragment => Some(PacketType::DataFragmentCompressed), _ => None } }
pub open spec fn plain(k: PacketType) -> PacketType { match k { PacketType::DataCompressed => PacketType::Data, PacketType::DataFragmentCompressed => PacketType::DataFragment, _ => k } }
impl PacketType {
//@@ fn TryFrom<u8> for PacketType::try_from
//@@ rename: Self :: Error => SerializationError ;; lightyear_serde :: SerializationError => SerializationError
//@@ spec: ensures match kind(value) { Some(k) => r == Ok::<PacketType, SerializationError>(k), None => r is Err }
//@@ end
//@@ fn PacketType::is_compressed
//@@ spec: ensures r == (plain(self) != self)
//@@ end
//@@ fn PacketType::compressed_variant
//@@ spec: ensures r == squeezed(self)
//@@ end
//@@ fn PacketType::uncompressed_variant
//@@ spec: ensures r == plain(self)
//@@ end
//@@ fn PacketType::is_ack_eliciting
//@@ spec: ensures r == (self != PacketType::AckOnly)
//@@ end
    pub fn into(self) -> (r: u8) ensures r == byte(self) { vx_from(self) }
}
//@@ fn From<PacketType> for u8::from
//@@ rename: fn from => fn vx_from
//@@ spec: ensures r == byte(packet_type)
//@@ end
#[derive(Clone, Copy)]
pub struct PacketId(pub u16);
#[derive(Clone, Copy)]
pub struct Tick(pub u32);
//@@ source crates/transport/transport/src/packet/header.rs
//@@ item struct PacketHeader
pub struct Head { pub kind: PacketType, pub id: u16, pub last: u16, pub bits: u32, pub tick: u32 }
pub open spec fn ids(h: Head) -> Seq<u8> { be2(h.id) + (be2(h.last) + (be4(h.bits) + be4(h.tick))) }
pub open spec fn d_ids(k: PacketType, s: Seq<u8>) -> Option<(Head, Seq<u8>)> {
    match d2(s) { None => None, Some((id, t)) => match d2(t) { None => None, Some((last, u)) => match d4(u) { None => None, Some((bits, v)) => match d4(v) { None => None, Some((tick, w)) => Some((Head { kind: k, id, last, bits, tick }, w)) } } } }
}
pub proof fn ids_exact(h: Head, rest: Seq<u8>) ensures d_ids(h.kind, ids(h) + rest) == Some((h, rest)), ids(h).len() == 12
{
    be();
    let (a, b, c, d) = (be2(h.id), be2(h.last), be4(h.bits), be4(h.tick));
    let s = ids(h) + rest;
    assert(s.take(2) =~= a); assert(s.skip(2) =~= b + (c + (d + rest)));
    let s = b + (c + (d + rest)); assert(s.take(2) =~= b); assert(s.skip(2) =~= c + (d + rest));
    let s = c + (d + rest); assert(s.take(4) =~= c); assert(s.skip(4) =~= d + rest);
    let s = d + rest; assert(s.take(4) =~= d); assert(s.skip(4) =~= rest);
}
impl ToBytes for PacketHeader {
    type M = Head;
    open spec fn m(&self) -> Head { Head { kind: self.packet_type, id: self.packet_id.0, last: self.last_ack_packet_id.0, bits: self.ack_bitfield, tick: self.tick.0 } }
    open spec fn wf(v: Head) -> bool { true }
    open spec fn enc(v: Head) -> Seq<u8> { seq![byte(v.kind)] + ids(v) }
    open spec fn dec(s: Seq<u8>) -> Option<(Head, Seq<u8>)> { match d1(s) { None => None, Some((b, t)) => match kind(b) { None => None, Some(k) => d_ids(k, t) } } }
    proof fn exact(v: Head, rest: Seq<u8>) { assert((Self::enc(v) + rest).skip(1) =~= ids(v) + rest); ids_exact(v, rest); }
    proof fn cut(v: Head, k: int) { be(); }
//@@ fn ToBytes for PacketHeader::bytes_len
//@@ rename: self . packet_id . bytes_len ( ) => 2 ;; self . last_ack_packet_id . bytes_len ( ) => 2 ;; self . tick . bytes_len ( ) => 4
//@@ start: proof { be(); }
//@@ end
//@@ fn ToBytes for PacketHeader::to_bytes
//@@ rename: & mut impl WriteInteger => &mut Writer ;; self . packet_type as u8 => self.packet_type.into()
//@@ start: let ghost b0 = buffer@; 
//@@ before "Ok(())": proof { assert(buffer@ =~= b0 + Self::enc(self.m())); }
//@@ end
//@@ fn ToBytes for PacketHeader::from_bytes
//@@ start: proof { be(); }
//@@ end
}
impl PacketHeader {
    pub const BYTES: usize = 13;
    pub const PACKET_TYPE_OFFSET: usize = 0;
//@@ fn PacketHeader::get_packet_type
//@@ spec: ensures r == self.m().kind
//@@ end
}
// ---------------------------------------------------------------- packets
#[derive(Clone, Copy)]
pub struct ChannelKind(pub u64);
//@@ source crates/transport/transport/src/packet/message.rs
#[derive(Clone, Copy)]
//@@ item enum SendMessageKey
//@@ item struct SendMessage f32=>F32
//@@ item struct SendCandidate f32=>F32
//@@ item enum MessageData
impl MessageData {
//@@ fn MessageData::bytes_len
//@@ spec:
//@@ | requires match *self { MessageData::Single(d) => SingleData::wf(d.m()) && SingleData::enc(d.m()).len() <= VMAX, MessageData::Fragment(d) => FragmentData::wf(d.m()) && FragmentData::enc(d.m()).len() <= VMAX }
//@@ | ensures r == (match *self { MessageData::Single(d) => SingleData::enc(d.m()).len(), MessageData::Fragment(d) => FragmentData::enc(d.m()).len() })
//@@ end
}
//@@ source crates/transport/transport/src/packet/packet.rs
//@@ item struct MessageMetadata
#[derive(Clone, Copy)]
//@@ item struct SendCommit
#[derive(Clone, Copy)]
//@@ item struct PacketCompressionInfo
//@@ item struct Packet
/// a growable buffer
pub type BytesMut = Writer;
impl Writer {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_mut(&mut self) -> (r: &mut Vec<u8>) ensures r@ == old(self)@, final(self)@ == final(r)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &Vec<u8>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize) ensures final(self)@ == (if n <= old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }) { unimplemented!() }
    /// extend_from_slice(&v[..n])
    #[verifier::external_body]
    pub fn vx_extend(&mut self, v: &Vec<u8>, n: usize) requires n <= v@.len() ensures final(self)@ == old(self)@ + v@.take(n as int) { unimplemented!() }
}
impl Packet {
//@@ fn Packet::num_messages
//@@ spec: ensures r == self.messages@.len()
//@@ end
//@@ fn Packet::record_message_metadata
//@@ spec: ensures final(self).messages@ == old(self).messages@.push(MessageMetadata { channel, message, fragment_index, commit }), final(self).payload == old(self).payload, final(self).packet_id == old(self).packet_id, final(self).compression == old(self).compression
//@@ end
}
// ---------------------------------------------------------------- compression
//@@ source crates/transport/transport/src/packet/compression.rs
#[derive(Clone, Copy)]
//@@ item enum CompressionAlgorithm
#[derive(Clone, Copy)]
//@@ item struct CompressionConfig
#[derive(Clone, Copy)]
//@@ item enum CompressionOutcome
#[verifier::external_body]
pub struct CompressionScratch { x: u64 }
pub const HEADER_BYTES: usize = PacketHeader::BYTES;
/// lz4 blocks, and blocks behind their plain length
pub uninterp spec fn block(z: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn le4(s: Seq<u8>) -> u32;
pub open spec fn unz(z: Seq<u8>) -> Option<Seq<u8>> { if z.len() < 4 { None } else { match block(z.skip(4)) { None => None, Some(v) => if v.len() == le4(z.take(4)) { Some(v) } else { None } } } }
pub struct Packed { pub n: usize }
impl Packed { pub fn len(&self) -> (r: usize) ensures r == self.n { self.n } }
/// what compress_into leaves at the front of the output decompresses to what it was given
#[verifier::external_body]
fn vx_compress(scratch: &mut CompressionScratch, payload: &Vec<u8>, from: usize, algorithm: CompressionAlgorithm, output: &mut Vec<u8>) -> (r: Result<Packed, PacketError>)
    requires from <= payload@.len()
    ensures match r { Ok(k) => k.n <= final(output)@.len() && k.n <= isize::MAX && unz(final(output)@.take(k.n as int)) == Some(payload@.skip(from as int)), Err(_) => true }
{ unimplemented!() }
impl CompressionConfig {
    pub const DISABLED: Self = CompressionConfig { algorithm: None, min_payload_size: 128, max_decompressed_payload_size: 64 * 1024 };
//@@ fn CompressionConfig::is_enabled
//@@ spec: ensures r == (self.algorithm is Some)
//@@ end
}
pub open spec fn squeezable(p: Seq<u8>) -> bool { p.len() > 13 && match kind(p[0]) { Some(k) => squeezed(k) is Some, None => false } }
//@@ fn evaluate_packet_compression
//@@ rename: & [ u8 ] => &Vec<u8> ;; scratch . compress_into ( & packet_payload [ HEADER_BYTES .. ] , algorithm , output ) => vx_compress(scratch, packet_payload, HEADER_BYTES, algorithm, output)
//@@ spec:
//@@ | ensures match r { Ok(CompressionOutcome::Compressed { original_len, compressed_len }) => squeezable(packet_payload@) && 13 <= compressed_len <= mtu && compressed_len - 13 <= final(output)@.len() && unz(final(output)@.take(compressed_len - 13)) == Some(packet_payload@.skip(13)), _ => true }
//@@ end
/// what a packet says once decompressed
pub open spec fn opened(p: Seq<u8>) -> Option<(Head, Seq<u8>)> {
    match PacketHeader::dec(p) { None => None, Some((h, t)) => if plain(h.kind) == h.kind { Some((h, t)) } else { match unz(t) { None => None, Some(u) => Some((Head { kind: plain(h.kind), ..h }, u)) } } }
}
pub proof fn squeeze(h: Head, t: Seq<u8>, z: Seq<u8>, k: PacketType)
    requires squeezed(h.kind) == Some(k), unz(z) == Some(t)
    ensures opened((PacketHeader::enc(h) + t).update(0, byte(k)).take(13) + z) == Some((h, t))
{
    ids_exact(h, Seq::empty());
    let g = Head { kind: k, ..h };
    assert(ids(g) == ids(h));
    assert((PacketHeader::enc(h) + t).update(0, byte(k)).take(13) + z =~= PacketHeader::enc(g) + z);
    PacketHeader::exact(g, z);
    assert(Head { kind: plain(k), ..g } == h);
}
/// a packet, compressed or not, that says the same as p
pub open spec fn says(q: Seq<u8>, h: Head, t: Seq<u8>) -> bool { opened(q) == Some((h, t)) }
//@@ fn compress_packet
//@@ rename: packet . payload . extend_from_slice ( & output [ .. compressed_payload_len ] ) => packet.payload.vx_extend(output, compressed_payload_len)
//@@ start: let ghost p0 = packet.payload@;
//@@ spec:
//@@ | ensures match r { Ok(CompressionOutcome::Compressed { original_len, compressed_len }) => final(packet).payload@.len() == compressed_len && compressed_len <= mtu && (forall|h: Head, t: Seq<u8>| plain(h.kind) == h.kind && old(packet).payload@ == #[trigger] (PacketHeader::enc(h) + t) ==> says(final(packet).payload@, h, t)),
//@@ |   Ok(_) => final(packet).payload@ == old(packet).payload@, Err(_) => true },
//@@ |   final(packet).messages@ == old(packet).messages@, final(packet).packet_id == old(packet).packet_id
//@@ before "packet.compression =": proof { assert forall|h: Head, t: Seq<u8>| plain(h.kind) == h.kind && p0 == #[trigger] (PacketHeader::enc(h) + t) implies says(packet.payload@, h, t) by { ids_exact(h, Seq::empty()); assert(p0[0] == byte(h.kind)); assert(p0.skip(13) =~= t); squeeze(h, t, output@.take(compressed_payload_len as int), compressed_packet_type); } }
//@@ end
// ---------------------------------------------------------------- what a packet's body says
pub type One = (Option<u16>, Seq<u8>);
/// messages of one channel behind its id and their number
pub struct Batch { pub ch: u16, pub l: Seq<One> }
pub open spec fn enc_batch(b: Batch) -> Seq<u8> { venc(b.ch as u64) + (seq![b.l.len() as u8] + enc_list::<SingleData>(b.l)) }
pub open spec fn enc_batches(bs: Seq<Batch>) -> Seq<u8> decreases bs.len() { if bs.len() == 0 { Seq::empty() } else { enc_batch(bs[0]) + enc_batches(bs.skip(1)) } }
pub open spec fn wf_batch(b: Batch) -> bool { 1 <= b.l.len() <= 255 && wf_list::<SingleData>(b.l) }
pub open spec fn wf_batches(bs: Seq<Batch>) -> bool { forall|i: int| 0 <= i < bs.len() ==> wf_batch(#[trigger] bs[i]) }
pub open spec fn on(ch: u16, l: Seq<One>) -> Seq<(u16, One)> { l.map_values(|o: One| (ch, o)) }
pub open spec fn flat(bs: Seq<Batch>) -> Seq<(u16, One)> decreases bs.len() { if bs.len() == 0 { Seq::empty() } else { on(bs[0].ch, bs[0].l) + flat(bs.skip(1)) } }
/// how the receiver reads it
pub open spec fn parse(s: Seq<u8>) -> Option<Seq<(u16, One)>> decreases s.len() {
    if s.len() == 0 { Some(Seq::empty()) } else { match u16::dec(s) { None => None, Some((ch, t)) => match d1(t) { None => None, Some((n, u)) => match dec_list::<SingleData>(u, n as nat) { None => None,
        Some((l, w)) => if w.len() < s.len() { match parse(w) { None => None, Some(r) => Some(on(ch, l) + r) } } else { None } } } } }
}
pub proof fn parse_exact(bs: Seq<Batch>) requires wf_batches(bs) ensures parse(enc_batches(bs)) == Some(flat(bs)) decreases bs.len()
{
    if bs.len() > 0 {
        let b = bs[0]; let t = bs.skip(1); let rest = enc_batches(t);
        assert forall|i: int| 0 <= i < t.len() implies wf_batch(#[trigger] t[i]) by { assert(t[i] == bs[i + 1]); }
        parse_exact(t);
        assert(wf_batch(bs[0]));
        let e = enc_list::<SingleData>(b.l); let n = seq![b.l.len() as u8];
        assert(enc_batch(b) + rest =~= venc(b.ch as u64) + (n + (e + rest)));
        u16::exact(b.ch, n + (e + rest));
        assert((n + (e + rest)).skip(1) =~= e + rest);
        exact_list::<SingleData>(b.l, rest);
    }
}
pub proof fn batches_push(bs: Seq<Batch>, b: Batch) ensures enc_batches(bs.push(b)) == enc_batches(bs) + enc_batch(b), flat(bs.push(b)) == flat(bs) + on(b.ch, b.l) decreases bs.len()
{
    let q = bs.push(b);
    if bs.len() == 0 { assert(q.skip(1) =~= bs); assert(enc_batches(q) =~= enc_batches(bs) + enc_batch(b)); assert(flat(q) =~= flat(bs) + on(b.ch, b.l)); }
    else { batches_push(bs.skip(1), b); assert(q.skip(1) =~= bs.skip(1).push(b)); assert(enc_batches(q) =~= enc_batches(bs) + enc_batch(b)); assert(flat(q) =~= flat(bs) + on(b.ch, b.l)); }
}
pub proof fn list_push(l: Seq<One>, o: One) ensures enc_list::<SingleData>(l.push(o)) == enc_list::<SingleData>(l) + SingleData::enc(o) decreases l.len()
{
    let q = l.push(o);
    assert(q[0] == (if l.len() == 0 { o } else { l[0] }));
    if l.len() == 0 { assert(q.skip(1) =~= l); assert(enc_list::<SingleData>(q.skip(1)) =~= Seq::empty()); assert(enc_list::<SingleData>(q) =~= enc_list::<SingleData>(l) + SingleData::enc(o)); }
    else { list_push(l.skip(1), o); assert(q.skip(1) =~= l.skip(1).push(o)); assert(enc_list::<SingleData>(q) =~= enc_list::<SingleData>(l) + SingleData::enc(o)); }
}
// ---------------------------------------------------------------- packing
//@@ source crates/transport/transport/src/packet/packet_builder.rs
//@@ item struct CandidateCursor
#[derive(Clone, Copy)]
//@@ item struct SingleBatchState
//@@ item const MAX_MESSAGES_PER_CHANNEL_BATCH
//@@ fn write_to_payload
//@@ rename: < T : ToBytes + ? Sized > => <T: ToBytes> ;; & mut PayloadWriter ( payload ) => payload
//@@ spec:
//@@ | requires T::wf(value.m())
//@@ | ensures r is Ok, final(payload)@ == old(payload)@ + T::enc(value.m())
//@@ end
pub open spec fn tail_ok(b: Option<SingleBatchState>, bs: Seq<Batch>, len: int) -> bool {
    match b { None => bs.len() == 0, Some(st) => bs.len() > 0 && st.channel_id == bs.last().ch && st.count as int == bs.last().l.len() && st.count_offset == len - enc_list::<SingleData>(bs.last().l).len() - 1 }
}
pub open spec fn laid_as(pre: Seq<u8>, payload: Seq<u8>, b: Option<SingleBatchState>, items: Seq<(u16, One)>, bs: Seq<Batch>) -> bool { payload == pre + enc_batches(bs) && flat(bs) == items && wf_batches(bs) && tail_ok(b, bs, payload.len() as int) }
/// after `pre`, the payload holds exactly these messages, in this order; b is the open batch
pub open spec fn laid(pre: Seq<u8>, payload: Seq<u8>, b: Option<SingleBatchState>, items: Seq<(u16, One)>) -> bool { exists|bs: Seq<Batch>| laid_as(pre, payload, b, items, bs) }
pub proof fn laid_reads(pre: Seq<u8>, payload: Seq<u8>, b: Option<SingleBatchState>, items: Seq<(u16, One)>)
    requires laid(pre, payload, b, items) ensures payload.len() >= pre.len(), payload == pre + payload.skip(pre.len() as int), parse(payload.skip(pre.len() as int)) == Some(items)
{ let bs = choose|bs: Seq<Batch>| laid_as(pre, payload, b, items, bs); parse_exact(bs); assert(payload.skip(pre.len() as int) =~= enc_batches(bs)); }
pub proof fn laid_none(pre: Seq<u8>) ensures laid(pre, pre, None, Seq::empty()) { let bs = Seq::<Batch>::empty(); assert(pre + enc_batches(bs) =~= pre); assert(laid_as(pre, pre, None, Seq::empty(), bs)); }
pub proof fn open_new(pre: Seq<u8>, payload: Seq<u8>, b: Option<SingleBatchState>, items: Seq<(u16, One)>, ch: u16, o: One, after: Seq<u8>)
    requires laid(pre, payload, b, items), SingleData::wf(o), after == payload + venc(ch as u64) + seq![1u8] + SingleData::enc(o)
    ensures laid(pre, after, Some(SingleBatchState { channel_id: ch, count_offset: (payload.len() + venc(ch as u64).len()) as usize, count: 1 }), items.push((ch, o))) || payload.len() + venc(ch as u64).len() > usize::MAX
{
    if payload.len() + venc(ch as u64).len() <= usize::MAX {
    let bs = choose|bs: Seq<Batch>| laid_as(pre, payload, b, items, bs);
    let l = seq![o]; let n = Batch { ch, l };
    batches_push(bs, n);
    assert(enc_list::<SingleData>(l) =~= SingleData::enc(o)) by { list_push(Seq::empty(), o); assert(Seq::<One>::empty().push(o) =~= l); assert(enc_list::<SingleData>(Seq::empty()) =~= Seq::empty()); }
    assert(after =~= pre + enc_batches(bs.push(n)));
    assert(items.push((ch, o)) =~= items + on(ch, l));
    assert(forall|i: int| 0 <= i < bs.len() ==> wf_batch(#[trigger] bs[i]));
    assert(bs.push(n).last() == n);
    assert(laid_as(pre, after, Some(SingleBatchState { channel_id: ch, count_offset: (payload.len() + venc(ch as u64).len()) as usize, count: 1 }), items.push((ch, o)), bs.push(n)));
    }
}
pub proof fn open_more(pre: Seq<u8>, payload: Seq<u8>, st: SingleBatchState, items: Seq<(u16, One)>, o: One, after: Seq<u8>)
    requires laid(pre, payload, Some(st), items), SingleData::wf(o), st.count < 255, after == payload.update(st.count_offset as int, (st.count + 1) as u8) + SingleData::enc(o)
    ensures st.count_offset < payload.len(), laid(pre, after, Some(SingleBatchState { count: (st.count + 1) as u8, ..st }), items.push((st.channel_id, o)))
{
    let bs = choose|bs: Seq<Batch>| laid_as(pre, payload, Some(st), items, bs);
    let b = bs.last(); let n = Batch { ch: b.ch, l: b.l.push(o) };
    let rest = bs.drop_last();
    let i0 = st.count_offset as int;
    batches_push(rest, b); batches_push(rest, n); list_push(b.l, o);
    assert(rest.push(b) =~= bs);
    assert(wf_batch(bs[bs.len() - 1]));
    let e = enc_list::<SingleData>(b.l);
    let head = pre + enc_batches(rest) + venc(b.ch as u64);
    assert(payload =~= head + (seq![b.l.len() as u8] + e));
    assert(head.len() == i0);
    assert(payload.update(i0, (st.count + 1) as u8) =~= head + (seq![(st.count + 1) as u8] + e));
    assert(after =~= pre + enc_batches(rest.push(n)));
    assert(on(b.ch, b.l.push(o)) =~= on(b.ch, b.l).push((b.ch, o)));
    assert(items.push((b.ch, o)) =~= flat(rest.push(n)));
    assert forall|i: int| 0 <= i < n.l.len() implies SingleData::wf(#[trigger] n.l[i]) by { if i < b.l.len() { assert(SingleData::wf(b.l[i])); } }
    assert forall|i: int| 0 <= i < rest.push(n).len() implies wf_batch(#[trigger] rest.push(n)[i]) by { if i < rest.len() { assert(wf_batch(bs[i])); } }
    assert(laid_as(pre, after, Some(SingleBatchState { count: (st.count + 1) as u8, ..st }), items.push((st.channel_id, o)), rest.push(n)));
}
pub proof fn laid_count(pre: Seq<u8>, payload: Seq<u8>, st: SingleBatchState, items: Seq<(u16, One)>) requires laid(pre, payload, Some(st), items) ensures st.count_offset < payload.len(), payload[st.count_offset as int] == st.count
{
    let bs = choose|bs: Seq<Batch>| laid_as(pre, payload, Some(st), items, bs);
    let b = bs.last(); let rest = bs.drop_last();
    batches_push(rest, b); assert(rest.push(b) =~= bs);
    assert(wf_batch(bs[bs.len() - 1]));
    let head = pre + enc_batches(rest) + venc(b.ch as u64);
    assert(payload =~= head + (seq![b.l.len() as u8] + enc_list::<SingleData>(b.l)));
}
pub open spec fn one(c: SendCandidate) -> (u16, One) { match c.message.data { MessageData::Single(d) => (c.channel_id, d.m()), MessageData::Fragment(d) => (c.channel_id, (Some(d.message_id.0), d.bytes@)) } }
pub open spec fn meta(c: SendCandidate) -> MessageMetadata {
    match c.message.data { MessageData::Single(d) => MessageMetadata { channel: c.channel_id, message: d.id, fragment_index: None, commit: SendCommit { channel_kind: c.channel_kind, key: c.key } },
        MessageData::Fragment(d) => MessageMetadata { channel: c.channel_id, message: Some(d.message_id), fragment_index: Some(d.fragment_id), commit: SendCommit { channel_kind: c.channel_kind, key: c.key } } }
}
pub open spec fn single(c: SendCandidate) -> bool { c.message.data is Single }
pub open spec fn sound(c: SendCandidate) -> bool { match c.message.data { MessageData::Single(d) => SingleData::wf(d.m()) && SingleData::enc(d.m()).len() < 0x1_0000_0000_0000, MessageData::Fragment(d) => FragmentData::wf(d.m()) && d.num_fragments.0 > 0 && FragmentData::enc(d.m()).len() < 0x1_0000_0000_0000 } }
#[verifier::external_body]
pub struct PacketHeaderManager { x: u64 }
impl PacketHeaderManager {
    /// T07 proves this on the real function
    #[verifier::external_body]
    pub fn preview_send_packet_header(&self, packet_type: PacketType, tick: Tick) -> (r: PacketHeader) ensures r.packet_type == packet_type, r.tick == tick { unimplemented!() }
}
impl Writer {
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Writer) ensures r@ == Seq::<u8>::empty(), room(r) >= n { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<u8>::empty(), room(*final(self)) == room(*old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize) ensures r == room(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn try_reclaim(&mut self, n: usize) -> (r: bool) ensures final(self)@ == old(self)@, r ==> room(*final(self)) >= n { unimplemented!() }
    #[verifier::external_body]
    pub fn split(&mut self) -> (r: Writer) ensures r@ == old(self)@, final(self)@ == Seq::<u8>::empty() { unimplemented!() }
}
/// the capacity of a buffer
pub uninterp spec fn room(w: Writer) -> nat;
//@@ source crates/core/core/src/buffer_pool.rs
//@@ item struct BufferPool
/// the buffers that are ready are large enough
pub open spec fn fit(p: BufferPool) -> bool { forall|i: int| 0 <= i < p.ready@.len() ==> room(#[trigger] p.ready@[i]) >= p.buffer_capacity }
impl BufferPool {
//@@ fn BufferPool::take
//@@ rename: self . misses += 1 ; => 
//@@ spec:
//@@ | requires fit(*old(self))
//@@ | ensures fit(*final(self)), r@ == Seq::<u8>::empty()
//@@ end
//@@ fn BufferPool::set_buffer_capacity
//@@ spec:
//@@ | requires fit(*old(self))
//@@ | ensures fit(*final(self))
//@@ end
//@@ fn BufferPool::retained_len
//@@ rename: self . ready . len ( ) + self . pending . len ( ) => vx_add(self.ready.len(), self.pending.len())
//@@ end
//@@ fn BufferPool::enqueue
//@@ spec:
//@@ | requires fit(*old(self))
//@@ | ensures fit(*final(self))
//@@ end
//@@ fn BufferPool::recycle
//@@ spec:
//@@ | requires fit(*old(self))
//@@ | ensures fit(*final(self))
//@@ end
//@@ fn BufferPool::split_for_handoff
//@@ spec:
//@@ | requires fit(*old(self))
//@@ | ensures fit(*final(self)), r@ == buffer@
//@@ end
//@@ fn BufferPool::reclaim_pending
//@@ spec:
//@@ | requires fit(*old(self))
//@@ | ensures fit(*final(self))
//@@ loop 0:
//@@ | invariant index <= self.pending@.len(), fit(*self)
//@@ | decreases self.pending@.len() - index
//@@ end
}
#[verifier::external_body]
fn vx_add(a: usize, b: usize) -> usize { unimplemented!() }
//@@ source crates/transport/transport/src/packet/packet_builder.rs
//@@ item struct PacketBufferPool
//@@ item struct PacketBuilder
//@@ item const MAX_RETAINED_MESSAGE_METADATA_CAPACITY
impl PacketBufferPool {
//@@ fn PacketBufferPool::take_payload
//@@ spec:
//@@ | requires fit(old(self).payloads)
//@@ | ensures fit(final(self).payloads), r@ == Seq::<u8>::empty()
//@@ end
//@@ fn PacketBufferPool::set_payload_capacity
//@@ spec:
//@@ | requires fit(old(self).payloads)
//@@ | ensures fit(final(self).payloads)
//@@ end
//@@ fn PacketBufferPool::reclaim_pending_payloads
//@@ spec:
//@@ | requires fit(old(self).payloads)
//@@ | ensures fit(final(self).payloads)
//@@ end
//@@ fn PacketBufferPool::take_message_metadata
//@@ closures: map
//@@ spec: ensures r@ == Seq::<MessageMetadata>::empty(), final(self).payloads == old(self).payloads
//@@ end
//@@ fn PacketBufferPool::recycle_message_metadata
//@@ spec: ensures final(self).payloads == old(self).payloads
//@@ rename: messages . capacity ( ) => vx_capacity(&messages) ;; ( 1 ..= MAX_RETAINED_MESSAGE_METADATA_CAPACITY ) . contains ( & capacity ) => vx_between(1, MAX_RETAINED_MESSAGE_METADATA_CAPACITY, capacity)
//@@ end
//@@ fn PacketBufferPool::recycle_packet
//@@ spec:
//@@ | requires fit(old(self).payloads)
//@@ | ensures fit(final(self).payloads)
//@@ end
}
/// core::mem::take
#[verifier::external_body]
fn vx_take(b: &mut Writer) -> (r: Writer) ensures r@ == old(b)@ { unimplemented!() }
fn vx_between(a: usize, b: usize, x: usize) -> (r: bool) ensures r == (a <= x <= b) { a <= x && x <= b }
#[verifier::external_body]
fn vx_capacity(m: &Vec<MessageMetadata>) -> usize { unimplemented!() }
fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { b } else { a }) { if a <= b { b } else { a } }
fn vx_get(c: &Vec<SendCandidate>, i: usize) -> (r: Option<&SendCandidate>) ensures match r { Some(x) => i < c@.len() <= usize::MAX && *x == c@[i as int], None => i >= c@.len() } { if i < c.len() { Some(&c[i]) } else { None } }
//@@ include packing.inc
pub open spec fn ones(l: Seq<SendCandidate>) -> Seq<(u16, One)> { l.map_values(|x: SendCandidate| one(x)) }
/// reading this packet body gives exactly these candidates, in this order, on their channels
pub open spec fn carries(h: Head, body: Seq<u8>, l: Seq<SendCandidate>) -> bool {
    if h.kind == PacketType::DataFragment {
        l.len() > 0 && match l[0].message.data { MessageData::Single(_) => false, MessageData::Fragment(f) =>
            exists|rest: Seq<u8>| body == u16::enc(l[0].channel_id) + (FragmentData::enc(f.m()) + rest) && #[trigger] parse(rest) == Some(ones(l.skip(1))) && forall|i: int| 1 <= i < l.len() ==> single(#[trigger] l[i]) }
    } else { h.kind == PacketType::Data && parse(body) == Some(ones(l)) && forall|i: int| 0 <= i < l.len() ==> single(#[trigger] l[i]) }
}
pub open spec fn packed(q: Seq<u8>, id: PacketId, tick: u32, l: Seq<SendCandidate>) -> bool { exists|h: Head, body: Seq<u8>| h.id == id.0 && h.tick == tick && says(q, h, body) && #[trigger] carries(h, body, l) }
/// the single candidates in lo..hi, in order
pub open spec fn picks(c: Seq<SendCandidate>, lo: int, hi: int) -> Seq<int> decreases hi - lo { if hi <= lo { Seq::empty() } else if single(c[hi - 1]) { picks(c, lo, hi - 1).push(hi - 1) } else { picks(c, lo, hi - 1) } }
pub proof fn picks_are(c: Seq<SendCandidate>, lo: int, hi: int)
    ensures increasing(picks(c, lo, hi)), forall|k: int| #[trigger] picks(c, lo, hi).contains(k) <==> lo <= k < hi && single(c[k]), forall|j: int| 0 <= j < picks(c, lo, hi).len() ==> lo <= #[trigger] picks(c, lo, hi)[j] < hi && single(c[picks(c, lo, hi)[j]])
    decreases hi - lo
{
    let s = picks(c, lo, hi);
    if hi > lo {
        let t = picks(c, lo, hi - 1);
        picks_are(c, lo, hi - 1);
        if single(c[hi - 1]) {
            assert forall|k: int| #[trigger] s.contains(k) <==> lo <= k < hi && single(c[k]) by {
                if k == hi - 1 { assert(s[t.len() as int] == k); assert(s.contains(k)); }
                if t.contains(k) { let j = choose|j: int| 0 <= j < t.len() && t[j] == k; assert(s[j] == k); assert(s.contains(k)); }
                if s.contains(k) && k != hi - 1 { let j = choose|j: int| 0 <= j < s.len() && s[j] == k; assert(t[j] == k); assert(t.contains(k)); }
            }
        } else {
            assert forall|k: int| #[trigger] s.contains(k) <==> lo <= k < hi && single(c[k]) by { if t.contains(k) {} }
        }
    }
}
pub proof fn push_all(c: Seq<SendCandidate>, s: Seq<int>, x: int)
    ensures metas(chosen(c, s.push(x))) == metas(chosen(c, s)).push(meta(c[x])), ones(chosen(c, s.push(x))) == ones(chosen(c, s)).push(one(c[x]))
{ assert(metas(chosen(c, s.push(x))) =~= metas(chosen(c, s)).push(meta(c[x]))); assert(ones(chosen(c, s.push(x))) =~= ones(chosen(c, s)).push(one(c[x]))); }
pub proof fn fragment_taken(c: Seq<SendCandidate>, a: CandidateCursor, b: CandidateCursor, i: int, sel: Seq<int>)
    requires a.index <= i < c.len(), !single(c[i]), forall|k: int| a.index <= k < i ==> k < a.single_index && single(#[trigger] c[k]), b.index == i + 1,
        (b.single_index == a.single_index && sel == seq![i]) || (b.single_index >= i + 1 && b.single_index >= a.single_index && sel == seq![i] + picks(c, if a.single_index > i + 1 { a.single_index as int } else { i + 1 }, b.single_index as int)),
        b.single_index <= c.len() || b.single_index == a.single_index
    ensures taken(c, a, b, sel), sel.len() > 0, sel[0] == i
{
    let m = if a.single_index > i + 1 { a.single_index as int } else { i + 1 };
    let hi = if b.single_index == a.single_index { m } else { b.single_index as int };
    let s = picks(c, m, hi);
    picks_are(c, m, hi);
    assert(sel =~= seq![i] + s);
    assert forall|k: int| #[trigger] sel.contains(k) <==> k == i || s.contains(k) by {
        assert(sel[0] == i);
        if sel.contains(k) && k != i { let j = choose|j: int| 0 <= j < sel.len() && sel[j] == k; assert(s[j - 1] == k); }
        if s.contains(k) { let j = choose|j: int| 0 <= j < s.len() && s[j] == k; assert(sel[j + 1] == k); }
    }
    assert forall|x: int, y: int| 0 <= x < y < sel.len() implies #[trigger] sel[x] < #[trigger] sel[y] by { assert(sel[y] == s[y - 1]); if x > 0 { assert(sel[x] == s[x - 1]); } }
    assert forall|k: int| 0 <= k < c.len() implies (#[trigger] used(b, c, k) <==> used(a, c, k) || sel.contains(k)) by { assert(sel.contains(k) <==> k == i || s.contains(k)); assert(s.contains(k) <==> m <= k < hi && single(c[k])); if a.index <= k < i { assert(single(c[k])); } }
}
pub proof fn singles_taken(c: Seq<SendCandidate>, a: CandidateCursor, b: CandidateCursor, i: int)
    requires a.index <= i < b.index <= c.len(), i >= a.single_index || !single(c[i]), forall|k: int| a.index <= k < i ==> k < a.single_index && single(#[trigger] c[k]), forall|k: int| i <= k < b.index ==> single(#[trigger] c[k]), b.single_index == (if a.single_index > b.index { a.single_index } else { b.index })
    ensures taken(c, a, b, picks(c, i, b.index as int))
{
    let s = picks(c, i, b.index as int);
    picks_are(c, i, b.index as int);
    assert(single(c[i]));
    assert(s.contains(i));
    assert forall|k: int| 0 <= k < c.len() implies (#[trigger] used(b, c, k) <==> used(a, c, k) || s.contains(k)) by { assert(s.contains(k) <==> i <= k < b.index && single(c[k])); if a.index <= k < i { assert(single(c[k])); } if i <= k < b.index { assert(single(c[k])); } }
}
impl PacketBuilder {
//@@ fn PacketBuilder::try_append_single_candidate
//@@ guards: merge
//@@ start: let ghost p0 = packet.payload@; let ghost m0 = packet.messages@; let ghost b0 = *batch; proof { if let Some(st) = b0 { let (pre, items) = choose|pre: Seq<u8>, items: Seq<(u16, One)>| laid(pre, p0, b0, items); laid_count(pre, p0, st, items); } } 
//@@ before "return Ok.true": proof {
//@@ | assert forall|pre: Seq<u8>, items: Seq<(u16, One)>| #[trigger] laid(pre, p0, b0, items) implies laid(pre, packet.payload@, *batch, items.push(one(*candidate))) by {
//@@ |   if let Some(st) = b0 { if st.channel_id == candidate.channel_id && st.count < 255 { open_more(pre, p0, st, items, message.m(), packet.payload@); } else { open_new(pre, p0, b0, items, candidate.channel_id, message.m(), packet.payload@); } }
//@@ |   else { open_new(pre, p0, b0, items, candidate.channel_id, message.m(), packet.payload@); }
//@@ | }
//@@ | }
//@@ before "packet.payload.truncate": let ghost p2 = packet.payload@;
//@@ after "batch = previous_batch": proof { assert(packet.payload@ =~= p0); assert(packet.messages@ =~= m0); }
//@@ spec:
//@@ | requires sound(*candidate), (*old(batch)) is Some ==> exists|pre: Seq<u8>, items: Seq<(u16, One)>| laid(pre, old(packet).payload@, *old(batch), items)
//@@ | ensures match r { Err(_) => true, Ok(false) => final(packet).payload@ == old(packet).payload@ && final(packet).messages@ == old(packet).messages@ && final(packet).packet_id == old(packet).packet_id && final(packet).compression == old(packet).compression && *final(batch) == *old(batch),
//@@ |   Ok(true) => single(*candidate) && final(packet).messages@ == old(packet).messages@.push(meta(*candidate)) && final(packet).packet_id == old(packet).packet_id && final(packet).compression == old(packet).compression && (*final(batch)) is Some
//@@ |     && (compression.algorithm is None ==> final(packet).payload@.len() <= mtu) && forall|pre: Seq<u8>, items: Seq<(u16, One)>| #[trigger] laid(pre, old(packet).payload@, *old(batch), items) ==> laid(pre, final(packet).payload@, *final(batch), items.push(one(*candidate))) }
//@@ end
//@@ fn PacketBuilder::new_staged_packet
//@@ spec:
//@@ | requires fit(old(self).buffer_pool.payloads)
//@@ | ensures final(self).header_manager == old(self).header_manager, r is Ok, fit(final(self).buffer_pool.payloads), match r { Ok(p) => p.messages@ == Seq::<MessageMetadata>::empty() && p.payload@.len() == 13 && exists|h: Head| h.kind == packet_type && h.id == p.packet_id.0 && h.tick == current_tick.0 && #[trigger] PacketHeader::enc(h) == p.payload@ && (plain(h.kind) == h.kind ==> says(p.payload@, h, Seq::empty())), Err(_) => true }
//@@ before "write_to_payload": proof { assert(Seq::<u8>::empty() + PacketHeader::enc(header.m()) =~= PacketHeader::enc(header.m())); assert(PacketHeader::enc(header.m()) + Seq::<u8>::empty() =~= PacketHeader::enc(header.m())); PacketHeader::exact(header.m(), Seq::empty()); ids_exact(header.m(), Seq::empty()); }
//@@ end
//@@ fn PacketBuilder::recycle_packet
//@@ spec:
//@@ | requires fit(old(self).buffer_pool.payloads)
//@@ | ensures fit(final(self).buffer_pool.payloads), final(self).header_manager == old(self).header_manager
//@@ end
//@@ fn PacketBuilder::recycle_message_metadata_list
//@@ spec:
//@@ | requires fit(old(self).buffer_pool.payloads)
//@@ | ensures fit(final(self).buffer_pool.payloads), final(self).header_manager == old(self).header_manager
//@@ end
//@@ fn PacketBuilder::begin_send
//@@ spec:
//@@ | requires fit(old(self).buffer_pool.payloads)
//@@ | ensures fit(final(self).buffer_pool.payloads), final(self).header_manager == old(self).header_manager
//@@ end
//@@ fn PacketBuilder::take_send_payload
//@@ rename: -> SendPayload => -> Writer ;; core :: mem :: take ( & mut packet . payload ) => vx_take(&mut packet.payload) ;; . freeze ( ) => 
//@@ spec:
//@@ | requires fit(old(self).buffer_pool.payloads)
//@@ | ensures fit(final(self).buffer_pool.payloads), final(self).header_manager == old(self).header_manager, r@ == old(packet).payload@, final(packet).messages@ == old(packet).messages@, final(packet).packet_id == old(packet).packet_id
//@@ end
//@@ fn PacketBuilder::trace_compression_outcome
//@@ end
//@@ fn PacketBuilder::finish_compression_aware_packet
//@@ start: let ghost p0 = packet.payload@; let ghost m0 = packet.messages@; proof { assert forall|h: Head, t: Seq<u8>| plain(h.kind) == h.kind && p0 == #[trigger] (PacketHeader::enc(h) + t) implies says(p0, h, t) by { PacketHeader::exact(h, t); } }
//@@ spec:
//@@ | requires fit(old(self).buffer_pool.payloads)
//@@ | ensures final(self).header_manager == old(self).header_manager, fit(final(self).buffer_pool.payloads), match r { Err(_) => true, Ok(p) => p.payload@.len() <= mtu && p.packet_id == packet.packet_id && p.messages@ == packet.messages@ && forall|h: Head, t: Seq<u8>| plain(h.kind) == h.kind && packet.payload@ == #[trigger] (PacketHeader::enc(h) + t) ==> says(p.payload@, h, t) }
//@@ end
//@@ fn PacketBuilder::build_ack_only_packet
//@@ start: proof { be(); }
//@@ spec:
//@@ | requires fit(old(self).buffer_pool.payloads)
//@@ | ensures final(self).header_manager == old(self).header_manager, fit(final(self).buffer_pool.payloads), match r { Err(_) => mtu < 13, Ok(p) => p.payload@.len() <= mtu && p.messages@.len() == 0 && exists|h: Head| h.kind == PacketType::AckOnly && #[trigger] says(p.payload@, h, Seq::empty()) }
//@@ end
//@@ fn PacketBuilder::build_next_packet
//@@ closures: is_some_and
//@@ rename: & [ SendCandidate ] => &Vec<SendCandidate> ;; cursor . single_index . max ( cursor . index ) => vx_max(cursor.single_index, cursor.index) ;; candidate . effective_priority . total_cmp ( & effective_priority ) != core :: cmp :: Ordering :: Equal => !vx_same(candidate.effective_priority.total_cmp(&effective_priority)) ;; candidates . get ( => vx_get(candidates, 
//@@ spec:
//@@ | requires fit(old(self).buffer_pool.payloads), forall|k: int| 0 <= k < candidates@.len() ==> sound(#[trigger] candidates@[k])
//@@ | ensures final(self).header_manager == old(self).header_manager, fit(final(self).buffer_pool.payloads), match r { Err(_) => true,
//@@ |   Ok(None) => forall|k: int| 0 <= k < candidates@.len() ==> #[trigger] used(*final(cursor), candidates@, k) && used(*old(cursor), candidates@, k),
//@@ |   Ok(Some(p)) => 0 < p.payload@.len() <= mtu && exists|sel: Seq<int>| #[trigger] taken(candidates@, *old(cursor), *final(cursor), sel) && packed(p.payload@, p.packet_id, current_tick.0, chosen(candidates@, sel)) && p.messages@ == metas(chosen(candidates@, sel)) && level(candidates@, *old(cursor), *final(cursor)) }
//@@ start: let ghost c = candidates@; let ghost a = *cursor;
//@@ loop 0:
//@@ | invariant self.header_manager == old(self).header_manager, c == candidates@, a == *old(cursor), cursor.single_index == a.single_index, a.index <= cursor.index, cursor.index > a.index ==> cursor.index <= c.len() && cursor.index <= a.single_index, forall|k: int| a.index <= k < cursor.index ==> single(#[trigger] c[k]), fit(self.buffer_pool.payloads)
//@@ | decreases c.len() - cursor.index
//@@ after "let mut packet = .*DataFragment": let ghost h = choose|h: Head| h.kind == PacketType::DataFragment && h.id == packet.packet_id.0 && h.tick == current_tick.0 && #[trigger] PacketHeader::enc(h) == packet.payload@; let ghost i = cursor.index as int;
//@@ before "if fragment.is_last_fragment": let ghost pre = packet.payload@; let ghost m = if a.single_index > i + 1 { a.single_index as int } else { i + 1 }; let ghost pid = packet.packet_id; let ghost mut sel = seq![i]; let ghost mut rest = Seq::<u8>::empty();
//@@ |  proof { laid_none(pre); assert(chosen(c, picks(c, m, m)) =~= Seq::<SendCandidate>::empty()); assert(ones(chosen(c, picks(c, m, m))) =~= Seq::empty()); assert(metas(chosen(c, seq![i])) =~= seq![meta(c[i])]); assert(seq![i] + picks(c, m, m) =~= seq![i]); assert(packet.messages@ =~= metas(chosen(c, seq![i]))); }
//@@ loop 1:
//@@ | invariant self.header_manager == old(self).header_manager, c == candidates@, a == *old(cursor), cursor.index == i + 1, cursor.single_index <= c.len() || cursor.single_index == m, packet.packet_id == pid, effective_priority == c[i].effective_priority, cursor.single_index == m || rank(c[cursor.single_index - 1].effective_priority) == rank(effective_priority), m <= cursor.single_index, m == (if a.single_index > i + 1 { a.single_index as int } else { i + 1 }), fit(self.buffer_pool.payloads), forall|k: int| 0 <= k < candidates@.len() ==> sound(#[trigger] candidates@[k]),
//@@ |   packet.messages@ == metas(chosen(c, seq![i] + picks(c, m, cursor.single_index as int))), laid(pre, packet.payload@, batch, ones(chosen(c, picks(c, m, cursor.single_index as int)))),
//@@ | decreases c.len() - cursor.single_index
//@@ loopbody 1: proof { let s = picks(c, m, cursor.single_index as int); push_all(c, s, cursor.single_index as int); push_all(c, seq![i] + s, cursor.single_index as int); assert((seq![i] + s).push(cursor.single_index as int) =~= seq![i] + s.push(cursor.single_index as int)); }
//@@ loop 2:
//@@ | invariant self.header_manager == old(self).header_manager, c == candidates@, a == *old(cursor), a.single_index == cursor.single_index, i <= cursor.index, packet.packet_id == pid, fit(self.buffer_pool.payloads), forall|k: int| 0 <= k < candidates@.len() ==> sound(#[trigger] candidates@[k]), forall|k: int| i <= k < cursor.index ==> k < c.len() && single(#[trigger] c[k]),
//@@ |   packet.messages@ == metas(chosen(c, picks(c, i, cursor.index as int))), laid(pre, packet.payload@, batch, ones(chosen(c, picks(c, i, cursor.index as int)))),
//@@ | decreases c.len() - cursor.index
//@@ before "let candidate = .candidates": proof { let s = picks(c, i, cursor.index as int); picks_are(c, i, cursor.index as int); assert(metas(chosen(c, s)).len() == s.len()); if cursor.index > i { assert(s.contains(i)); } v_exact(c[i].channel_id as u64, Seq::empty()); assert(venc(c[i].channel_id as u64) == u16::enc(c[i].channel_id)); }
//@@ before "if packet.payload.len.*> mtu": proof {
//@@ | fragment_taken(c, a, *cursor, i, sel); assert(taken(c, a, *cursor, sel));
//@@ | assert(packet.messages@ == metas(chosen(c, sel)));
//@@ | let body = u16::enc(first.channel_id) + (FragmentData::enc(fragment.m()) + rest);
//@@ | assert(packet.payload@ =~= PacketHeader::enc(h) + body); PacketHeader::exact(h, body); assert(says(packet.payload@, h, body));
//@@ | let l = chosen(c, sel);
//@@ | assert(l.skip(1) =~= chosen(c, sel.skip(1)));
//@@ | assert forall|j: int| 1 <= j < l.len() implies single(#[trigger] l[j]) by { assert(single(c[sel[j]])); }
//@@ | assert(l[0] == c[i]); assert(c[i] == *first); assert(parse(rest) == Some(ones(l.skip(1)))); assert(carries(h, body, l)); assert(packed(packet.payload@, packet.packet_id, current_tick.0, l));
//@@ | }
//@@ afterloop 1: proof { let s = picks(c, m, cursor.single_index as int); picks_are(c, m, cursor.single_index as int); sel = seq![i] + s; rest = packet.payload@.skip(pre.len() as int); laid_reads(pre, packet.payload@, batch, ones(chosen(c, s))); assert(sel.skip(1) =~= s); assert forall|j: int| 1 <= j < sel.len() implies single(c[#[trigger] sel[j]]) by { assert(sel[j] == s[j - 1]); } }
//@@ before "Ok.Some.self.finish": proof {
//@@ | let s = picks(c, i, cursor.index as int); picks_are(c, i, cursor.index as int); assert(metas(chosen(c, s)).len() == s.len()); 
//@@ | if s.len() > 0 { let z = s[0]; assert(i <= z < cursor.index); }
//@@ | assert forall|k: int| a.index <= k < i implies k < a.single_index && single(#[trigger] c[k]) by { }
//@@ | singles_taken(c, a, *cursor, i); laid_reads(pre, packet.payload@, batch, ones(chosen(c, s)));
//@@ | let body = packet.payload@.skip(pre.len() as int); assert(packet.payload@ == PacketHeader::enc(h) + body);
//@@ | assert forall|j: int| 0 <= j < s.len() implies single(#[trigger] chosen(c, s)[j]) by { assert(single(c[s[j]])); }
//@@ | assert(carries(h, body, chosen(c, s)));
//@@ | }
//@@ loopbody 2: proof { let s = picks(c, i, cursor.index as int); push_all(c, s, cursor.index as int); }
//@@ after "let mut packet = .*PacketType.{0,6}Data\b": let ghost h = choose|h: Head| h.kind == PacketType::Data && h.id == packet.packet_id.0 && h.tick == current_tick.0 && #[trigger] PacketHeader::enc(h) == packet.payload@; let ghost i = cursor.index as int; let ghost pid = packet.packet_id; let ghost pre = packet.payload@; proof { assert(forall|k: int| a.index <= k < i ==> k < a.single_index && single(#[trigger] c[k])); }
//@@ | proof { laid_none(pre); assert(chosen(c, picks(c, i, i)) =~= Seq::<SendCandidate>::empty()); assert(ones(chosen(c, picks(c, i, i))) =~= Seq::empty()); assert(metas(chosen(c, picks(c, i, i))) =~= Seq::empty()); }
//@@ end
}

// ---------------------------------------------------------------- reading packets back
pub type TransportError = SerializationError;
pub open spec fn sized(z: Seq<u8>) -> Option<(usize, Seq<u8>)> { if z.len() < 4 { None } else { Some((le4(z.take(4)) as usize, z.skip(4))) } }
/// lz4_flex::block::uncompressed_size
#[verifier::external_body]
fn vx_size(z: &Bytes) -> (r: Result<(usize, Bytes), PacketError>) ensures match r { Ok((n, b)) => sized(z@) == Some((n, b@)), Err(_) => sized(z@) is None } { unimplemented!() }
/// lz4_flex::block::decompress_into
#[verifier::external_body]
fn vx_decompress_into(z: Bytes, out: &mut Vec<u8>) -> (r: Result<usize, PacketError>)
    ensures final(out)@.len() == old(out)@.len(), match r { Ok(k) => k <= final(out)@.len() && block(z@) == Some(final(out)@.take(k as int)), Err(_) => match block(z@) { Some(v) => v.len() > old(out)@.len(), None => true } }
{ unimplemented!() }
#[verifier::external_body]
fn vx_zeros(n: usize) -> (r: Vec<u8>) ensures r@.len() == n { unimplemented!() }
/// what decompressing gives within the configured limit
pub open spec fn unz_within(z: Seq<u8>, config: CompressionConfig) -> Option<Seq<u8>> { if config.algorithm is None { None } else if z.len() >= 4 && le4(z.take(4)) > config.max_decompressed_payload_size { None } else { unz(z) } }
//@@ source crates/transport/transport/src/packet/compression.rs
//@@ fn decompress_lz4
//@@ closures: map_err
//@@ rename: & [ u8 ] => &Bytes ;; lz4_flex :: block :: uncompressed_size => vx_size ;; vec ! [ 0 ; uncompressed_size ] => vx_zeros(uncompressed_size) ;; lz4_flex :: block :: decompress_into => vx_decompress_into
//@@ spec:
//@@ | requires config.algorithm is Some
//@@ | ensures match r { Ok(v) => unz_within(compressed_payload@, config) == Some(v@), Err(_) => unz_within(compressed_payload@, config) is None }
//@@ before "Ok(decompressed)": proof { assert(decompressed@.take(decoded_size as int) =~= decompressed@); }
//@@ end
//@@ fn decompress_payload
//@@ rename: & [ u8 ] => &Bytes
//@@ spec:
//@@ | ensures match r { Ok(v) => unz_within(compressed_payload@, config) == Some(v@), Err(_) => unz_within(compressed_payload@, config) is None }
//@@ end
//@@ source crates/transport/transport/src/packet/message.rs
//@@ item struct ReceiveMessage
//@@ fn From<FragmentData> for MessageData::from
//@@ rename: fn from => fn vx_of_fragment ;; Self :: => MessageData :: ;; -> Self => -> MessageData
//@@ spec: ensures said(r) == Said::Piece(value.m())
//@@ end
//@@ fn From<SingleData> for MessageData::from
//@@ rename: fn from => fn vx_of_single ;; Self :: => MessageData :: ;; -> Self => -> MessageData
//@@ spec: ensures said(r) == Said::Whole(value.m())
//@@ end
impl FragmentData { pub fn into(self) -> (r: MessageData) ensures said(r) == Said::Piece(self.m()) { vx_of_fragment(self) } }
impl SingleData { pub fn into(self) -> (r: MessageData) ensures said(r) == Said::Whole(self.m()) { vx_of_single(self) } }
pub enum Said { Whole(One), Piece(Frag) }
pub open spec fn said(d: MessageData) -> Said { match d { MessageData::Single(s) => Said::Whole(s.m()), MessageData::Fragment(f) => Said::Piece(f.m()) } }
/// what a receiver was handed: channel, message, sender's tick, compression settings
pub struct Heard { pub ch: u16, pub what: Said, pub tick: Tick, pub compression: CompressionConfig }
/// the channel receivers: everything they were handed, and how often one refused or was missing
#[verifier::external_body]
pub struct Receivers { x: u64 }
impl Receivers {
    pub uninterp spec fn raw(self) -> Seq<(u16, ReceiveMessage)>;
    pub open spec fn log(self) -> Seq<Heard> { self.raw().map_values(|x: (u16, ReceiveMessage)| Heard { ch: x.0, what: said(x.1.data), tick: x.1.remote_sent_tick, compression: x.1.compression }) }
    pub uninterp spec fn refusals(self) -> nat;
    /// get_mut(channel).ok_or(..)?.buffer_recv(message)
    #[verifier::external_body]
    pub fn vx_recv(&mut self, channel: &u16, message: ReceiveMessage) -> (r: Result<(), TransportError>)
        ensures match r { Ok(_) => final(self).raw() == old(self).raw().push((*channel, message)) && final(self).refusals() == old(self).refusals(), Err(_) => final(self).refusals() == old(self).refusals() + 1 && final(self).raw() == old(self).raw() }
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Newly { x: u64 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { x: u64 }
impl PacketHeaderManager {
    #[verifier::external_body]
    pub fn process_recv_packet_header(&mut self, header: &PacketHeader, now: Duration) -> (r: Newly) ensures final(self).heard() == old(self).heard().push((header.m(), now)) { unimplemented!() }
    pub uninterp spec fn heard(self) -> Seq<(Head, Duration)>;
}
pub struct PacketManager { pub header_manager: PacketHeaderManager }
/// the channels' senders, and the packets awaiting acknowledgement
#[verifier::external_body]
pub struct Senders { x: u64 }
#[verifier::external_body]
pub struct Tracker { x: u64 }
pub struct Transport { pub packet_manager: PacketManager, pub receivers: Receivers, pub compression: CompressionConfig, pub senders: Senders, pub packet_message_acks: Tracker }
#[verifier::external_body]
pub struct Time { x: u64 }
impl Time {
    #[verifier::external_body]
    pub fn elapsed(&self) -> (r: Duration) ensures r == self.now() { unimplemented!() }
    pub uninterp spec fn now(self) -> Duration;
}
#[verifier::external_body]
pub struct ChannelRegistry { x: u64 }
impl ChannelRegistry {
    #[verifier::external_body]
    pub fn get_name_from_net_id(&self, id: u16) -> u64 { unimplemented!() }
}
/// Reader::from
#[verifier::external_body]
fn vx_reader(packet: Writer) -> (r: Reader) ensures r@ == packet@ { unimplemented!() }
#[verifier::external_body]
fn vx_reader_of(bytes: Vec<u8>) -> (r: Reader) ensures r@ == bytes@ { unimplemented!() }
/// the commands that trigger PacketAcked and PacketReceived
#[verifier::external_body]
fn vx_tell() { }
impl Reader {
    #[verifier::external_body]
    pub fn take_remaining(&mut self) -> (r: Bytes) ensures r@ == old(self)@, final(self)@ == Seq::<u8>::empty() { unimplemented!() }
}
pub open spec fn whole(l: Seq<(u16, One)>, tick: Tick, z: CompressionConfig) -> Seq<Heard> { l.map_values(|x: (u16, One)| Heard { ch: x.0, what: Said::Whole(x.1), tick, compression: z }) }
/// everything in a packet's body
pub open spec fn body_says(h: Head, body: Seq<u8>, z: CompressionConfig) -> Option<Seq<Heard>> {
    if h.kind == PacketType::DataFragment {
        match u16::dec(body) { None => None, Some((ch, t)) => match FragmentData::dec(t) { None => None, Some((f, u)) => match parse(u) { None => None, Some(l) => Some(seq![Heard { ch, what: Said::Piece(f), tick: Tick(h.tick), compression: z }] + whole(l, Tick(h.tick), z)) } } }
    } else { match parse(body) { None => None, Some(l) => Some(whole(l, Tick(h.tick), z)) } }
}
pub open spec fn opened_within(p: Seq<u8>, z: CompressionConfig) -> Option<(Head, Seq<u8>)> {
    match PacketHeader::dec(p) { None => None, Some((h, t)) => if plain(h.kind) == h.kind { Some((h, t)) } else { match unz_within(t, z) { None => None, Some(u) => Some((Head { kind: plain(h.kind), ..h }, u)) } } }
}
pub open spec fn packet_says(p: Seq<u8>, z: CompressionConfig) -> Option<Seq<Heard>> { match opened_within(p, z) { None => None, Some((h, t)) => body_says(h, t, z) } }
pub proof fn one_shrinks(s: Seq<u8>) ensures match SingleData::dec(s) { None => true, Some((o, t)) => t.len() < s.len() } {
    match Option::<MessageId>::dec(s) { None => {}, Some((a, t)) => { v_sound(t); } }
}
pub proof fn list_shrinks(s: Seq<u8>, n: nat) ensures match dec_list::<SingleData>(s, n) { None => true, Some((o, t)) => t.len() <= s.len() } decreases n {
    if n > 0 { one_shrinks(s); match SingleData::dec(s) { None => {}, Some((a, t)) => { list_shrinks(t, (n - 1) as nat); } } }
}
pub open spec fn piece(seen: Seq<(u16, One)>, rest: Option<Seq<(u16, One)>>) -> Option<Seq<(u16, One)>> { match rest { None => None, Some(r) => Some(seen + r) } }
//@@ source crates/transport/transport/src/plugin.rs
//@@ closure TransportPlugin::buffer_receive try_for_each
//@@ sig: fn receive_packet($0: Writer, transport: &mut Transport, time: &Time, channel_registry: &ChannelRegistry) -> Result<(), TransportError>
//@@ hoist: command_scope over par_commands => vx_tell()
//@@ rename: Reader :: from ( packet . freeze ( ) ) => vx_reader(packet) ;; Reader :: from ( decompressed_payload ) => vx_reader_of(decompressed_payload) ;; . map_err ( SerializationError :: from ) => ;; transport . receivers . get_mut ( & channel_id ) . ok_or ( PacketError :: ChannelNotFound ) ? . buffer_recv ( => transport.receivers.vx_recv(&channel_id, 
//@@ spec:
//@@ | ensures match packet_says(packet@, old(transport).compression) { Some(l) => (final(transport).receivers.refusals() == old(transport).receivers.refusals() ==> r is Ok) && (r is Ok ==> final(transport).receivers.log() == old(transport).receivers.log() + l), None => r is Err },
//@@ |   r is Ok ==> final(transport).receivers.refusals() == old(transport).receivers.refusals(),
//@@ |   // its header is processed once, if it has one
//@@ |   final(transport).packet_manager.header_manager.heard() == (match PacketHeader::dec(packet@) { Some((h, _)) => old(transport).packet_manager.header_manager.heard().push((h, time.now())), None => old(transport).packet_manager.header_manager.heard() }),
//@@ |   final(transport).senders == old(transport).senders, final(transport).packet_message_acks == old(transport).packet_message_acks
//@@ start: let ghost p0 = packet@; let ghost hm = transport.packet_manager.header_manager.heard(); let ghost a0 = *transport; let ghost h1 = match PacketHeader::dec(p0) { Some((h, _)) => hm.push((h, time.now())), None => hm }; let ghost z = transport.compression; let ghost n0 = transport.receivers.refusals(); let ghost log0 = transport.receivers.log();
//@@ before "while cursor.has_remaining": let ghost rest0 = cursor@; let ghost log1 = transport.receivers.log(); let ghost mut seen = Seq::<(u16, One)>::empty(); let ghost front = log1.skip(log0.len() as int); proof { assert(log1 =~= log0 + front); assert(whole(seen, tick, z) =~= Seq::empty()); assert(log1 + whole(seen, tick, z) =~= log1); match parse(rest0) { None => {}, Some(l) => { assert(seen + l =~= l); } } }
//@@ loop 0:
//@@ | invariant transport.packet_manager.header_manager.heard() == h1, a0 == *old(transport), h1 == (match PacketHeader::dec(packet@) { Some((h, _)) => old(transport).packet_manager.header_manager.heard().push((h, time.now())), None => old(transport).packet_manager.header_manager.heard() }), transport.senders == a0.senders, transport.packet_message_acks == a0.packet_message_acks, p0 == packet@, z == old(transport).compression, n0 == old(transport).receivers.refusals(), log0 == old(transport).receivers.log(), log1 == log0 + front, packet_says(p0, z) == (match parse(rest0) { None => None, Some(l) => Some(front + whole(l, tick, z)) }), transport.compression == z, transport.receivers.refusals() == n0, transport.receivers.log() == log1 + whole(seen, tick, z), parse(rest0) == piece(seen, parse(cursor@))
//@@ | decreases cursor@.len()
//@@ loopbody 0: let ghost s0 = cursor@; let ghost seen0 = seen; 
//@@ before "for _ in": let ghost u = cursor@; let ghost mut got = Seq::<One>::empty(); proof { v_sound(s0); list_shrinks(u, num_messages as nat); assert(seen0 + on(channel_id, got) =~= seen0); match dec_list::<SingleData>(u, num_messages as nat) { None => {}, Some((l, w)) => { assert(got + l =~= l); } } }
//@@ iter 1: it
//@@ loop 1:
//@@ | invariant transport.packet_manager.header_manager.heard() == h1, a0 == *old(transport), h1 == (match PacketHeader::dec(packet@) { Some((h, _)) => old(transport).packet_manager.header_manager.heard().push((h, time.now())), None => old(transport).packet_manager.header_manager.heard() }), transport.senders == a0.senders, transport.packet_message_acks == a0.packet_message_acks, p0 == packet@, z == old(transport).compression, n0 == old(transport).receivers.refusals(), log0 == old(transport).receivers.log(), log1 == log0 + front, packet_says(p0, z) == (match parse(rest0) { None => None, Some(l) => Some(front + whole(l, tick, z)) }), transport.compression == z, transport.receivers.refusals() == n0, parse(s0) == (match dec_list::<SingleData>(u, num_messages as nat) { None => None, Some((l, w)) => piece(on(channel_id, l), parse(w)) }), parse(rest0) == piece(seen0, parse(s0)), transport.receivers.log() == log1 + whole(seen0 + on(channel_id, got), tick, z), got.len() == it.index(), dec_list::<SingleData>(u, num_messages as nat) == (match dec_list::<SingleData>(cursor@, (num_messages - it.index()) as nat) { None => None, Some((l, w)) => Some((got + l, w)) })
//@@ before "let single_data": let ghost lb = transport.receivers.log();
//@@ loopend 1: proof { let now = transport.receivers.log(); assert(now =~= lb.push(now.last())); let o = (got.push(transport.receivers.log().last().what->Whole_0)).last(); assert(whole(seen0 + on(channel_id, got.push(o)), tick, z) =~= whole(seen0 + on(channel_id, got), tick, z).push(Heard { ch: channel_id, what: Said::Whole(o), tick, compression: z })); match dec_list::<SingleData>(cursor@, (num_messages - it.index() - 1) as nat) { None => {}, Some((l, w)) => { assert(got + (seq![o] + l) =~= got.push(o) + l); } } got = got.push(o); assert(transport.receivers.log() =~= log1 + whole(seen0 + on(channel_id, got), tick, z)); }
//@@ afterloop 1: proof { assert(got + Seq::<One>::empty() =~= got); seen = seen0 + on(channel_id, got); match parse(cursor@) { None => {}, Some(r) => { assert(seen0 + (on(channel_id, got) + r) =~= seen + r); } } }
//@@ afterloop 0: proof { assert(seen + Seq::<(u16, One)>::empty() =~= seen); assert(log1 + whole(seen, tick, z) =~= log0 + (front + whole(seen, tick, z))); }
//@@ end
pub open spec fn heard_as(l: Seq<SendCandidate>, tick: Tick, z: CompressionConfig) -> Seq<Heard> { l.map_values(|c: SendCandidate| Heard { ch: c.channel_id, what: said(c.message.data), tick, compression: z }) }
/// a packet of build_next_packet hands the other side exactly the candidates chosen for it, each once, on its channel, with the sender's tick
pub proof fn heard_as_sent(q: Seq<u8>, id: PacketId, tick: u32, l: Seq<SendCandidate>, z: CompressionConfig)
    requires packed(q, id, tick, l), opened_within(q, z) == opened(q), forall|i: int| 0 <= i < l.len() ==> sound(#[trigger] l[i])
    ensures packet_says(q, z) == Some(heard_as(l, Tick(tick), z))
{
    let (h, body) = choose|h: Head, body: Seq<u8>| h.id == id.0 && h.tick == tick && says(q, h, body) && #[trigger] carries(h, body, l);
    if h.kind == PacketType::DataFragment {
        match l[0].message.data { MessageData::Single(_) => {}, MessageData::Fragment(f) => {
            let rest = choose|rest: Seq<u8>| body == u16::enc(l[0].channel_id) + (FragmentData::enc(f.m()) + rest) && #[trigger] parse(rest) == Some(ones(l.skip(1)));
            assert(sound(l[0]));
            u16::exact(l[0].channel_id, FragmentData::enc(f.m()) + rest); FragmentData::exact(f.m(), rest);
            let w = whole(ones(l.skip(1)), Tick(tick), z);
            assert forall|i: int| 0 <= i < w.len() implies w[i] == #[trigger] heard_as(l, Tick(tick), z)[i + 1] by { assert(l.skip(1)[i] == l[i + 1]); assert(single(l[i + 1])); }
            assert(seq![Heard { ch: l[0].channel_id, what: Said::Piece(f.m()), tick: Tick(tick), compression: z }] + w =~= heard_as(l, Tick(tick), z)) by {
                let a = heard_as(l, Tick(tick), z);
                assert forall|j: int| 1 <= j < a.len() implies w[j - 1] == a[j] by { assert(a[(j - 1) + 1] == w[j - 1]); }
            }
        } }
    } else {
        let w = whole(ones(l), Tick(tick), z);
        assert forall|i: int| 0 <= i < w.len() implies w[i] == #[trigger] heard_as(l, Tick(tick), z)[i] by { assert(single(l[i])); }
        assert(w =~= heard_as(l, Tick(tick), z));
    }
}
}
fn main() {}

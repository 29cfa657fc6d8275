// ---------------------------------------------------------------- message and fragment frames
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct MessageId(pub u16);
//@@ source crates/core/utils/src/wrapping_id.rs
//@@ macro wrapping_id $struct_name=MessageId
impl ToBytes for MessageId {
    type M = u16;
    open spec fn m(&self) -> u16 { self.0 }
    open spec fn wf(v: u16) -> bool { true }
    open spec fn enc(v: u16) -> Seq<u8> { be2(v) }
    open spec fn dec(s: Seq<u8>) -> Option<(u16, Seq<u8>)> { d2(s) }
    proof fn exact(v: u16, rest: Seq<u8>) { be(); assert((be2(v) + rest).take(2) =~= be2(v)); assert((be2(v) + rest).skip(2) =~= rest); }
    proof fn cut(v: u16, k: int) { be(); }
//@@ fn ToBytes for MessageId::bytes_len
//@@ start: proof { be(); }
//@@ end
//@@ fn ToBytes for MessageId::to_bytes
//@@ rename: & mut impl WriteInteger => &mut Writer
//@@ end
//@@ fn ToBytes for MessageId::from_bytes
//@@ end
}
//@@ source crates/transport/transport/src/packet/message.rs
#[derive(Clone, Copy)]
//@@ item struct FragmentIndex
#[derive(Clone, Copy)]
//@@ item enum FragmentCompression
//@@ item struct SingleData
//@@ item struct FragmentData
impl ToBytes for FragmentIndex {
    type M = u64;
    open spec fn m(&self) -> u64 { self.0 }
    open spec fn wf(v: u64) -> bool { v <= VMAX }
    open spec fn enc(v: u64) -> Seq<u8> { venc(v) }
    open spec fn dec(s: Seq<u8>) -> Option<(u64, Seq<u8>)> { vdec(s) }
    proof fn exact(v: u64, rest: Seq<u8>) { v_exact(v, rest); }
    proof fn cut(v: u64, k: int) { v_cut(v, k); }
//@@ fn ToBytes for FragmentIndex::bytes_len
//@@ start: proof { v_exact(self.0, Seq::empty()); }
//@@ end
//@@ fn ToBytes for FragmentIndex::to_bytes
//@@ rename: & mut impl WriteInteger => &mut Writer
//@@ end
//@@ fn ToBytes for FragmentIndex::from_bytes
//@@ end
}
impl ToBytes for FragmentCompression {
    type M = FragmentCompression;
    open spec fn m(&self) -> FragmentCompression { *self }
    open spec fn wf(v: FragmentCompression) -> bool { true }
    open spec fn enc(v: FragmentCompression) -> Seq<u8> { seq![if v is None { 0u8 } else { 1u8 }] }
    open spec fn dec(s: Seq<u8>) -> Option<(FragmentCompression, Seq<u8>)> { match d1(s) { None => None, Some((b, t)) => if b == 0 { Some((FragmentCompression::None, t)) } else if b == 1 { Some((FragmentCompression::Lz4, t)) } else { None } } }
    proof fn exact(v: FragmentCompression, rest: Seq<u8>) { assert((Self::enc(v) + rest).skip(1) =~= rest); }
    proof fn cut(v: FragmentCompression, k: int) {}
//@@ fn ToBytes for FragmentCompression::bytes_len
//@@ end
//@@ fn ToBytes for FragmentCompression::to_bytes
//@@ rename: & mut impl WriteInteger => &mut Writer
//@@ end
//@@ fn ToBytes for FragmentCompression::from_bytes
//@@ end
}
impl ToBytes for SingleData {
    type M = (Option<u16>, Seq<u8>);
    open spec fn m(&self) -> (Option<u16>, Seq<u8>) { (self.id.m(), self.bytes@) }
    open spec fn wf(v: (Option<u16>, Seq<u8>)) -> bool { Bytes::wf(v.1) }
    open spec fn enc(v: (Option<u16>, Seq<u8>)) -> Seq<u8> { Option::<MessageId>::enc(v.0) + Bytes::enc(v.1) }
    open spec fn dec(s: Seq<u8>) -> Option<((Option<u16>, Seq<u8>), Seq<u8>)> { dec2::<Option<MessageId>, Bytes>(s) }
    proof fn exact(v: (Option<u16>, Seq<u8>), rest: Seq<u8>) { exact2::<Option<MessageId>, Bytes>(v.0, v.1, rest); }
    proof fn cut(v: (Option<u16>, Seq<u8>), k: int) { cut2::<Option<MessageId>, Bytes>(v.0, v.1, k); }
//@@ fn ToBytes for SingleData::bytes_len
//@@ end
//@@ fn ToBytes for SingleData::to_bytes
//@@ rename: & mut impl WriteInteger => &mut Writer
//@@ start: proof { let (a, b) = self.m(); assert(buffer@ + Self::enc(self.m()) =~= buffer@ + Option::<MessageId>::enc(a) + Bytes::enc(b)); }
//@@ end
//@@ fn ToBytes for SingleData::from_bytes
//@@ end
}
/// a fragment: message, index, count, compression (fragment 0 only), bytes
pub struct Frag { pub id: u16, pub index: u64, pub count: u64, pub compression: Option<FragmentCompression>, pub bytes: Seq<u8> }
impl Frag {
    /// the compression byte goes with fragment 0 only
    pub open spec fn tail(self) -> Seq<u8> { if self.index == 0 { FragmentCompression::enc(self.mode()) + Bytes::enc(self.bytes) } else { Bytes::enc(self.bytes) } }
    pub open spec fn mode(self) -> FragmentCompression { match self.compression { Some(c) => c, None => FragmentCompression::None } }
}
pub open spec fn dec_tail(index: u64, s: Seq<u8>) -> Option<((Option<FragmentCompression>, Seq<u8>), Seq<u8>)> {
    if index == 0 { match FragmentCompression::dec(s) { None => None, Some((c, t)) => match Bytes::dec(t) { None => None, Some((b, u)) => Some(((Some(c), b), u)) } } }
    else { match Bytes::dec(s) { None => None, Some((b, u)) => Some(((None, b), u)) } }
}
impl ToBytes for FragmentData {
    type M = Frag;
    open spec fn m(&self) -> Frag { Frag { id: self.message_id.0, index: self.fragment_id.0, count: self.num_fragments.0, compression: self.compression, bytes: self.bytes@ } }
    open spec fn wf(v: Frag) -> bool { v.index <= VMAX && v.count <= VMAX && Bytes::wf(v.bytes) && (v.compression is Some <==> v.index == 0) }
    open spec fn enc(v: Frag) -> Seq<u8> { MessageId::enc(v.id) + (FragmentIndex::enc(v.index) + (FragmentIndex::enc(v.count) + v.tail())) }
    open spec fn dec(s: Seq<u8>) -> Option<(Frag, Seq<u8>)> {
        match MessageId::dec(s) { None => None, Some((id, t)) => match FragmentIndex::dec(t) { None => None, Some((index, u)) => match FragmentIndex::dec(u) { None => None, Some((count, w)) =>
            match dec_tail(index, w) { None => None, Some(((compression, bytes), x)) => Some((Frag { id, index, count, compression, bytes }, x)) } } } }
    }
    proof fn exact(v: Frag, rest: Seq<u8>) {
        let (i, f, c, t) = (MessageId::enc(v.id), FragmentIndex::enc(v.index), FragmentIndex::enc(v.count), v.tail());
        assert(Self::enc(v) + rest =~= i + (f + (c + (t + rest))));
        MessageId::exact(v.id, f + (c + (t + rest))); FragmentIndex::exact(v.index, c + (t + rest)); FragmentIndex::exact(v.count, t + rest);
        if v.index == 0 { assert(t + rest =~= FragmentCompression::enc(v.mode()) + (Bytes::enc(v.bytes) + rest)); FragmentCompression::exact(v.mode(), Bytes::enc(v.bytes) + rest); }
        Bytes::exact(v.bytes, rest);
    }
    proof fn cut(v: Frag, k: int) {
        let (i, f, c, t) = (MessageId::enc(v.id), FragmentIndex::enc(v.index), FragmentIndex::enc(v.count), v.tail());
        step::<MessageId>(v.id, f + (c + t), k);
        if k >= i.len() { step::<FragmentIndex>(v.index, c + t, k - i.len());
            if k - i.len() >= f.len() { step::<FragmentIndex>(v.count, t, k - i.len() - f.len());
                let j = k - i.len() - f.len() - c.len();
                if j >= 0 {
                    if v.index == 0 { let n = FragmentCompression::enc(v.mode()).len(); step::<FragmentCompression>(v.mode(), Bytes::enc(v.bytes), j); if j >= n { Bytes::cut(v.bytes, j - n); } } else { Bytes::cut(v.bytes, j); }
                } } }
    }
//@@ fn ToBytes for FragmentData::bytes_len
//@@ end
//@@ fn ToBytes for FragmentData::to_bytes
//@@ rename: & mut impl WriteInteger => &mut Writer ;; . unwrap_or_default ( ) => .vx_or_default()
//@@ start: proof { let v = self.m(); let (i, f, c) = (MessageId::enc(v.id), FragmentIndex::enc(v.index), FragmentIndex::enc(v.count)); assert(buffer@ + Self::enc(v) =~= buffer@ + i + f + c + v.tail()); if v.index == 0 { assert(buffer@ + i + f + c + v.tail() =~= buffer@ + i + f + c + FragmentCompression::enc(v.mode()) + Bytes::enc(v.bytes)); } }
//@@ end
//@@ fn ToBytes for FragmentData::from_bytes
//@@ end
}
pub trait VxOr: Sized { spec fn or_default(self) -> FragmentCompression; fn vx_or_default(self) -> (r: FragmentCompression) ensures r == self.or_default(); }
impl VxOr for Option<FragmentCompression> {
    open spec fn or_default(self) -> FragmentCompression { match self { Some(c) => c, None => FragmentCompression::None } }
    fn vx_or_default(self) -> FragmentCompression { match self { Some(c) => c, None => FragmentCompression::None } }
}
impl FragmentData {
//@@ fn FragmentData::is_initial_fragment
//@@ spec: ensures r == (self.fragment_id.0 == 0)
//@@ end
//@@ fn FragmentData::is_last_fragment
//@@ spec:
//@@ | requires self.num_fragments.0 > 0
//@@ | ensures r == (self.fragment_id.0 + 1 == self.num_fragments.0)
//@@ end
}

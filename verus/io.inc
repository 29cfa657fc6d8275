// byte streams, and what it means to be a codec
#[verifier::external_body]
pub struct Reader { x: u64 }
/// the bytes that are left
impl View for Reader { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
pub struct Writer { x: u64 }
/// the bytes written so far
impl View for Writer { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
pub struct Bytes { x: Vec<u8> }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Bytes {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &Bytes) ensures r == self { unimplemented!() }
}
pub enum SerializationError { Io, InvalidPacketType, InvalidValue, SubtractionOverflow, Postcard, PacketTooLarge { actual: usize, mtu: usize }, CompressionFailed, UnsupportedCompression, DecompressionFailed, DecompressedPayloadTooLarge { actual: usize, limit: usize }, ChannelNotFound }
pub const VMAX: u64 = 4_611_686_018_427_387_903;
/// fixed-width big-endian integers
pub uninterp spec fn be2(n: u16) -> Seq<u8>;
pub uninterp spec fn be4(n: u32) -> Seq<u8>;
pub uninterp spec fn be8(n: u64) -> Seq<u8>;
pub uninterp spec fn un2(s: Seq<u8>) -> u16;
pub uninterp spec fn un4(s: Seq<u8>) -> u32;
pub uninterp spec fn un8(s: Seq<u8>) -> u64;
pub axiom fn be() ensures forall|n: u16| (#[trigger] be2(n)).len() == 2 && un2(be2(n)) == n, forall|n: u32| (#[trigger] be4(n)).len() == 4 && un4(be4(n)) == n, forall|n: u64| (#[trigger] be8(n)).len() == 8 && un8(be8(n)) == n;
pub open spec fn d1(s: Seq<u8>) -> Option<(u8, Seq<u8>)> { if s.len() >= 1 { Some((s[0], s.skip(1))) } else { None } }
pub open spec fn d2(s: Seq<u8>) -> Option<(u16, Seq<u8>)> { if s.len() >= 2 { Some((un2(s.take(2)), s.skip(2))) } else { None } }
pub open spec fn d4(s: Seq<u8>) -> Option<(u32, Seq<u8>)> { if s.len() >= 4 { Some((un4(s.take(4)), s.skip(4))) } else { None } }
pub open spec fn d8(s: Seq<u8>) -> Option<(u64, Seq<u8>)> { if s.len() >= 8 { Some((un8(s.take(8)), s.skip(8))) } else { None } }
/// variable-length integers: what S01 proves on the compiled code
pub uninterp spec fn venc(n: u64) -> Seq<u8>;
pub uninterp spec fn vdec(s: Seq<u8>) -> Option<(u64, Seq<u8>)>;
pub open spec fn vlen(n: u64) -> int { if n <= 63 { 1 } else if n <= 16383 { 2 } else if n <= 1_073_741_823 { 4 } else { 8 } }
pub axiom fn v_exact(n: u64, rest: Seq<u8>) requires n <= VMAX ensures vdec(venc(n) + rest) == Some((n, rest)), venc(n).len() == vlen(n);
pub axiom fn v_cut(n: u64, k: int) requires n <= VMAX, 0 <= k < venc(n).len() ensures vdec(venc(n).take(k)) is None;
pub axiom fn v_sound(s: Seq<u8>) ensures match vdec(s) { Some((n, rest)) => n <= VMAX && rest.len() < s.len() && rest == s.skip(s.len() - rest.len()), None => true };
pub open spec fn got<T>(r: Result<T, SerializationError>, d: Option<(T, Seq<u8>)>, left: Seq<u8>) -> bool {
    match d { Some((v, rest)) => r == Ok::<T, SerializationError>(v) && left == rest, None => r is Err }
}
impl Reader {
    #[verifier::external_body]
    pub fn read_u8(&mut self) -> (r: Result<u8, SerializationError>) ensures got(r, d1(old(self)@), final(self)@) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u16(&mut self) -> (r: Result<u16, SerializationError>) ensures got(r, d2(old(self)@), final(self)@) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u32(&mut self) -> (r: Result<u32, SerializationError>) ensures got(r, d4(old(self)@), final(self)@) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u64(&mut self) -> (r: Result<u64, SerializationError>) ensures got(r, d8(old(self)@), final(self)@) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_varint(&mut self) -> (r: Result<u64, SerializationError>) ensures got(r, vdec(old(self)@), final(self)@) { unimplemented!() }
    #[verifier::external_body]
    pub fn split_len(&mut self, len: usize) -> (r: Result<Bytes, SerializationError>)
        ensures len <= old(self)@.len() ==> r is Ok && r->Ok_0@ == old(self)@.take(len as int) && final(self)@ == old(self)@.skip(len as int), len > old(self)@.len() ==> r is Err
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remaining(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn has_remaining(&self) -> (r: bool) ensures r == (self@.len() > 0) { unimplemented!() }
}
impl Writer {
    #[verifier::external_body]
    pub fn write_u8(&mut self, n: u8) -> (r: Result<(), SerializationError>) ensures r is Ok, final(self)@ == old(self)@ + seq![n] { unimplemented!() }
    #[verifier::external_body]
    pub fn write_u16(&mut self, n: u16) -> (r: Result<(), SerializationError>) ensures r is Ok, final(self)@ == old(self)@ + be2(n) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_u32(&mut self, n: u32) -> (r: Result<(), SerializationError>) ensures r is Ok, final(self)@ == old(self)@ + be4(n) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_u64(&mut self, n: u64) -> (r: Result<(), SerializationError>) ensures r is Ok, final(self)@ == old(self)@ + be8(n) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_varint(&mut self, n: u64) -> (r: Result<(), SerializationError>) requires n <= VMAX ensures r is Ok, final(self)@ == old(self)@ + venc(n) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &Bytes) -> (r: Result<(), SerializationError>) ensures r is Ok, final(self)@ == old(self)@ + b@ { unimplemented!() }
}
#[verifier::external_body]
pub fn varint_len(n: u64) -> (r: usize) requires n <= VMAX ensures r == vlen(n) { unimplemented!() }
global size_of usize == 8;
/// A codec: M is the value as far as equality goes.
pub trait ToBytes: Sized {
    type M;
    spec fn m(&self) -> Self::M;
    /// values that can occur (lengths the encoding has room for)
    spec fn wf(v: Self::M) -> bool;
    spec fn enc(v: Self::M) -> Seq<u8>;
    /// the value at the front and what follows it
    spec fn dec(s: Seq<u8>) -> Option<(Self::M, Seq<u8>)>;
    /// what is written reads back, whatever follows
    proof fn exact(v: Self::M, rest: Seq<u8>) requires Self::wf(v) ensures Self::dec(Self::enc(v) + rest) == Some((v, rest));
    /// every strict prefix is rejected
    proof fn cut(v: Self::M, k: int) requires Self::wf(v), 0 <= k < Self::enc(v).len() ensures Self::dec(Self::enc(v).take(k)) is None;
    fn bytes_len(&self) -> (r: usize) requires Self::wf(self.m()), Self::enc(self.m()).len() <= VMAX ensures r == Self::enc(self.m()).len();
    fn to_bytes(&self, buffer: &mut Writer) -> (r: Result<(), SerializationError>) requires Self::wf(self.m()) ensures r is Ok, final(buffer)@ == old(buffer)@ + Self::enc(self.m());
    fn from_bytes(buffer: &mut Reader) -> (r: Result<Self, SerializationError>)
        ensures match Self::dec(old(buffer)@) { Some((v, rest)) => r is Ok && r->Ok_0.m() == v && final(buffer)@ == rest, None => r is Err };
}
/// one value, then another
pub open spec fn dec2<A: ToBytes, B: ToBytes>(s: Seq<u8>) -> Option<((A::M, B::M), Seq<u8>)> {
    match A::dec(s) { None => None, Some((a, t)) => match B::dec(t) { None => None, Some((b, u)) => Some(((a, b), u)) } }
}
pub proof fn exact2<A: ToBytes, B: ToBytes>(a: A::M, b: B::M, rest: Seq<u8>) requires A::wf(a), B::wf(b) ensures dec2::<A, B>(A::enc(a) + B::enc(b) + rest) == Some(((a, b), rest))
{ assert(A::enc(a) + B::enc(b) + rest =~= A::enc(a) + (B::enc(b) + rest)); A::exact(a, B::enc(b) + rest); B::exact(b, rest); }
pub proof fn cut2<A: ToBytes, B: ToBytes>(a: A::M, b: B::M, k: int) requires A::wf(a), B::wf(b), 0 <= k < (A::enc(a) + B::enc(b)).len() ensures dec2::<A, B>((A::enc(a) + B::enc(b)).take(k)) is None
{
    let n = A::enc(a).len();
    let p = (A::enc(a) + B::enc(b)).take(k);
    if k < n { assert(p =~= A::enc(a).take(k)); A::cut(a, k); }
    else { assert(p =~= A::enc(a) + B::enc(b).take(k - n)); A::exact(a, B::enc(b).take(k - n)); B::cut(b, k - n); }
}
/// values in a row
pub open spec fn enc_list<A: ToBytes>(l: Seq<A::M>) -> Seq<u8> decreases l.len() { if l.len() == 0 { Seq::empty() } else { A::enc(l[0]) + enc_list::<A>(l.skip(1)) } }
pub open spec fn dec_list<A: ToBytes>(s: Seq<u8>, n: nat) -> Option<(Seq<A::M>, Seq<u8>)> decreases n {
    if n == 0 { Some((Seq::empty(), s)) } else { match A::dec(s) { None => None, Some((a, t)) => match dec_list::<A>(t, (n - 1) as nat) { None => None, Some((l, u)) => Some((seq![a] + l, u)) } } }
}
pub open spec fn wf_list<A: ToBytes>(l: Seq<A::M>) -> bool { forall|i: int| 0 <= i < l.len() ==> A::wf(#[trigger] l[i]) }
pub proof fn exact_list<A: ToBytes>(l: Seq<A::M>, rest: Seq<u8>) requires wf_list::<A>(l) ensures dec_list::<A>(enc_list::<A>(l) + rest, l.len()) == Some((l, rest)) decreases l.len()
{
    if l.len() == 0 { assert(enc_list::<A>(l) + rest =~= rest); assert(l =~= Seq::empty()); }
    else {
        let t = l.skip(1);
        assert forall|i: int| 0 <= i < t.len() implies A::wf(#[trigger] t[i]) by { assert(t[i] == l[i + 1]); }
        exact_list::<A>(t, rest);
        assert(enc_list::<A>(l) + rest =~= A::enc(l[0]) + (enc_list::<A>(t) + rest));
        A::exact(l[0], enc_list::<A>(t) + rest);
        assert(seq![l[0]] + t =~= l);
    }
}
pub proof fn cut_list<A: ToBytes>(l: Seq<A::M>, k: int) requires wf_list::<A>(l), 0 <= k < enc_list::<A>(l).len() ensures dec_list::<A>(enc_list::<A>(l).take(k), l.len()) is None decreases l.len()
{
    if l.len() > 0 {
        let t = l.skip(1);
        assert forall|i: int| 0 <= i < t.len() implies A::wf(#[trigger] t[i]) by { assert(t[i] == l[i + 1]); }
        let n = A::enc(l[0]).len();
        let p = enc_list::<A>(l).take(k);
        if k < n { assert(p =~= A::enc(l[0]).take(k)); A::cut(l[0], k); }
        else { assert(p =~= A::enc(l[0]) + enc_list::<A>(t).take(k - n)); A::exact(l[0], enc_list::<A>(t).take(k - n)); cut_list::<A>(t, k - n); }
    }
}
pub open spec fn ms<A: ToBytes>(l: Seq<A>) -> Seq<A::M> { l.map_values(|a: A| a.m()) }
/// a list behind its length
pub open spec fn framed<A: ToBytes>(l: Seq<A::M>) -> Seq<u8> { venc(l.len() as u64) + enc_list::<A>(l) }
pub open spec fn dec_framed<A: ToBytes>(s: Seq<u8>) -> Option<(Seq<A::M>, Seq<u8>)> { match vdec(s) { None => None, Some((n, t)) => dec_list::<A>(t, n as nat) } }
pub proof fn exact_framed<A: ToBytes>(l: Seq<A::M>, rest: Seq<u8>) requires wf_list::<A>(l), l.len() <= VMAX ensures dec_framed::<A>(framed::<A>(l) + rest) == Some((l, rest))
{ assert(framed::<A>(l) + rest =~= venc(l.len() as u64) + (enc_list::<A>(l) + rest)); v_exact(l.len() as u64, enc_list::<A>(l) + rest); exact_list::<A>(l, rest); }
pub proof fn cut_framed<A: ToBytes>(l: Seq<A::M>, k: int) requires wf_list::<A>(l), l.len() <= VMAX, 0 <= k < framed::<A>(l).len() ensures dec_framed::<A>(framed::<A>(l).take(k)) is None
{
    let f = venc(l.len() as u64);
    let p = framed::<A>(l).take(k);
    if k < f.len() { assert(p =~= f.take(k)); v_cut(l.len() as u64, k); }
    else { assert(p =~= f + enc_list::<A>(l).take(k - f.len())); v_exact(l.len() as u64, enc_list::<A>(l).take(k - f.len())); cut_list::<A>(l, k - f.len()); }
}
pub proof fn step<A: ToBytes>(a: A::M, t: Seq<u8>, k: int)
    requires A::wf(a), 0 <= k <= (A::enc(a) + t).len()
    ensures k < A::enc(a).len() ==> A::dec((A::enc(a) + t).take(k)) is None, k >= A::enc(a).len() ==> A::dec((A::enc(a) + t).take(k)) == Some((a, t.take(k - A::enc(a).len())))
{
    let n = A::enc(a).len();
    if k < n { assert((A::enc(a) + t).take(k) =~= A::enc(a).take(k)); A::cut(a, k); }
    else { assert((A::enc(a) + t).take(k) =~= A::enc(a) + t.take(k - n)); A::exact(a, t.take(k - n)); }
}
pub open spec fn vx_prepend<A>(l: Seq<A>, o: Option<(Seq<A>, Seq<u8>)>) -> Option<(Seq<A>, Seq<u8>)> { match o { None => None, Some((t, r)) => Some((l + t, r)) } }
pub proof fn prepend_step<A: ToBytes>(l: Seq<A::M>, s: Seq<u8>, n: nat)
    requires n > 0
    ensures match A::dec(s) { None => vx_prepend(l, dec_list::<A>(s, n)) is None, Some((a, t)) => vx_prepend(l, dec_list::<A>(s, n)) == vx_prepend(l.push(a), dec_list::<A>(t, (n - 1) as nat)) }
{ if let Some((a, t)) = A::dec(s) { if let Some((k, u)) = dec_list::<A>(t, (n - 1) as nat) { assert(l + (seq![a] + k) =~= l.push(a) + k); } } }
/// reserves memory for n values, at most one per byte that is left

// V14: the codecs of the wire (S03): integers, options, byte strings, lists, inline lists, message and fragment frames.
// Real code: crates/transport/serde/src/lib.rs, crates/core/utils/src/wrapping_id.rs, crates/transport/transport/src/packet/message.rs.
use vstd::prelude::*;
verus! {
//@@ include io.inc
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
//@@ include prims.inc
fn vx_vec<A>(Ghost(left): Ghost<nat>, n: usize) -> (r: Vec<A>) requires n <= left ensures r@ == Seq::<A>::empty() { Vec::new() }

pub proof fn enc_take<A: ToBytes>(l: Seq<A::M>, i: int)
    requires 0 <= i < l.len()
    ensures enc_list::<A>(l.take(i + 1)) == enc_list::<A>(l.take(i)) + A::enc(l[i])
    decreases i
{
    if i == 0 { assert(l.take(1).skip(1) =~= Seq::empty()); assert(l.take(0) =~= Seq::empty()); assert(enc_list::<A>(l.take(1)) =~= A::enc(l[0]) + Seq::empty()); assert(enc_list::<A>(l.take(0)) + A::enc(l[0]) =~= A::enc(l[0]));}
    else {
        let t = l.skip(1);
        enc_take::<A>(t, i - 1);
        assert(l.take(i + 1).skip(1) =~= t.take(i)); assert(l.take(i).skip(1) =~= t.take(i - 1));
        assert(enc_list::<A>(l.take(i + 1)) =~= enc_list::<A>(l.take(i)) + A::enc(l[i]));
    }
}
pub proof fn enc_part<A: ToBytes>(l: Seq<A::M>, i: int) requires 0 <= i < l.len() ensures enc_list::<A>(l.take(i)).len() + A::enc(l[i]).len() <= enc_list::<A>(l).len() decreases l.len()
{
    if i == 0 { assert(l.take(0) =~= Seq::empty()); } else { let t = l.skip(1); enc_part::<A>(t, i - 1); assert(l.take(i).skip(1) =~= t.take(i - 1)); }
}
//@@ closure ToBytes for Vec<M>::to_bytes try_for_each
//@@ sig: fn vx_item<A: ToBytes>($0: &A, buffer: &mut Writer) -> Result<(), SerializationError>
//@@ spec:
//@@ | requires A::wf($0.m())
//@@ | ensures r is Ok, final(buffer)@ == old(buffer)@ + A::enc($0.m())
//@@ end
//@@ closure ToBytes for SmallVec<A>::to_bytes try_for_each
//@@ sig: fn vx_item_small<A: ToBytes>($0: &A, buffer: &mut Writer) -> Result<(), SerializationError>
//@@ spec:
//@@ | requires A::wf($0.m())
//@@ | ensures r is Ok, final(buffer)@ == old(buffer)@ + A::enc($0.m())
//@@ end
/// iter().map(bytes_len).sum()
fn vx_sum_of<A: ToBytes>(l: &Vec<A>) -> (r: usize) requires wf_list::<A>(ms(l@)), enc_list::<A>(ms(l@)).len() <= VMAX ensures r == enc_list::<A>(ms(l@)).len()
{
    let mut n: usize = 0;
    let mut i: usize = 0;
    proof { assert(ms(l@).take(0) =~= Seq::empty()); }
    while i < l.len() invariant 0 <= i <= l@.len(), n == enc_list::<A>(ms(l@).take(i as int)).len(), wf_list::<A>(ms(l@)), enc_list::<A>(ms(l@)).len() <= VMAX decreases l@.len() - i
    {
        proof { enc_take::<A>(ms(l@), i as int); enc_part::<A>(ms(l@), i as int); assert(A::wf(ms(l@)[i as int])); }
        n += l[i].bytes_len();
        i += 1;
    }
    proof { assert(ms(l@).take(l@.len() as int) =~= ms(l@)); }
    n
}
/// iter().try_for_each(vx_item)
fn vx_write_of<A: ToBytes>(l: &Vec<A>, small: bool, buffer: &mut Writer) -> (r: Result<(), SerializationError>) requires wf_list::<A>(ms(l@)) ensures r is Ok, final(buffer)@ == old(buffer)@ + enc_list::<A>(ms(l@))
{
    let mut i: usize = 0;
    proof { assert(ms(l@).take(0) =~= Seq::empty()); assert(buffer@ + enc_list::<A>(ms(l@).take(0)) =~= buffer@); }
    while i < l.len() invariant 0 <= i <= l@.len(), buffer@ == old(buffer)@ + enc_list::<A>(ms(l@).take(i as int)), wf_list::<A>(ms(l@)) decreases l@.len() - i
    {
        proof { enc_take::<A>(ms(l@), i as int); assert(A::wf(ms(l@)[i as int])); assert(old(buffer)@ + (enc_list::<A>(ms(l@).take(i as int)) + A::enc(ms(l@)[i as int])) =~= old(buffer)@ + enc_list::<A>(ms(l@).take(i as int)) + A::enc(ms(l@)[i as int])); }
        if small { vx_item_small(&l[i], buffer)?; } else { vx_item(&l[i], buffer)?; }
        i += 1;
    }
    proof { assert(ms(l@).take(l@.len() as int) =~= ms(l@)); }
    Ok(())
}
/// SmallVec<[A; N]>
pub struct SmallVec<A> { pub v: Vec<A> }
impl<A> View for SmallVec<A> { type V = Seq<A>; open spec fn view(&self) -> Seq<A> { self.v@ } }
impl<A> SmallVec<A> {
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn push(&mut self, a: A) ensures final(self)@ == old(self)@.push(a) { self.v.push(a) }
}
fn vx_small<A>(Ghost(left): Ghost<nat>, n: usize) -> (r: SmallVec<A>) requires n <= left ensures r@ == Seq::<A>::empty() { SmallVec { v: Vec::new() } }

impl<A: ToBytes> ToBytes for Vec<A> {
    type M = Seq<A::M>;
    open spec fn m(&self) -> Seq<A::M> { ms(self@) }
    open spec fn wf(v: Seq<A::M>) -> bool { wf_list::<A>(v) && v.len() <= VMAX }
    open spec fn enc(v: Seq<A::M>) -> Seq<u8> { framed::<A>(v) }
    open spec fn dec(s: Seq<u8>) -> Option<(Seq<A::M>, Seq<u8>)> { dec_framed::<A>(s) }
    proof fn exact(v: Seq<A::M>, rest: Seq<u8>) { exact_framed::<A>(v, rest); }
    proof fn cut(v: Seq<A::M>, k: int) { cut_framed::<A>(v, k); }
//@@ fn ToBytes for Vec<M>::bytes_len
//@@ rename: self . iter ( ) . map ( ToBytes :: bytes_len ) . sum :: < usize > ( ) => vx_sum_of(self)
//@@ start: proof { v_exact(self@.len() as u64, Seq::empty()); }
//@@ end
//@@ fn ToBytes for Vec<M>::to_bytes
//@@ rename: & mut impl WriteInteger => &mut Writer
//@@ hoist: try_for_each over self.iter() => vx_write_of(self, false, buffer)
//@@ start: let ghost b0 = buffer@; proof { let l = ms(self@); assert(b0 + framed::<A>(l) =~= b0 + venc(l.len() as u64) + enc_list::<A>(l)); }
//@@ end
//@@ fn ToBytes for Vec<M>::from_bytes
//@@ rename: M :: from_bytes => A::from_bytes ;; len . min ( => vx_min(len,  ;; Vec :: with_capacity ( => vx_vec(Ghost(buffer@.len()),
//@@ start: let ghost s0 = buffer@; proof { v_sound(s0); }
//@@ before "for _ in": let ghost t0 = buffer@; proof { assert(ms(vec@) =~= Seq::empty()); assert(vx_prepend(ms(vec@), dec_list::<A>(t0, len as nat)) == dec_list::<A>(t0, len as nat)) by { if let Some((l, u)) = dec_list::<A>(t0, len as nat) { assert(Seq::<A::M>::empty() + l =~= l); } } }
//@@ iter 0: it
//@@ loop 0:
//@@ | invariant dec_list::<A>(t0, len as nat) == vx_prepend(ms(vec@), dec_list::<A>(buffer@, (len - it.index()) as nat)), vec@.len() == it.index(), 0 <= it.index() <= len, s0 == old(buffer)@, dec_framed::<A>(s0) == dec_list::<A>(t0, len as nat)
//@@ loopbody 0: let ghost v0 = vec@; proof { prepend_step::<A>(ms(v0), buffer@, (len - it.index()) as nat); }
//@@ loopend 0: proof { assert(ms(vec@) =~= ms(v0).push(vec@.last().m())); }
//@@ end
}

impl<A: ToBytes> ToBytes for SmallVec<A> {
    type M = Seq<A::M>;
    open spec fn m(&self) -> Seq<A::M> { ms(self@) }
    open spec fn wf(v: Seq<A::M>) -> bool { wf_list::<A>(v) && v.len() <= VMAX }
    open spec fn enc(v: Seq<A::M>) -> Seq<u8> { framed::<A>(v) }
    open spec fn dec(s: Seq<u8>) -> Option<(Seq<A::M>, Seq<u8>)> { dec_framed::<A>(s) }
    proof fn exact(v: Seq<A::M>, rest: Seq<u8>) { exact_framed::<A>(v, rest); }
    proof fn cut(v: Seq<A::M>, k: int) { cut_framed::<A>(v, k); }
//@@ fn ToBytes for SmallVec<A>::bytes_len
//@@ rename: self . iter ( ) . map ( ToBytes :: bytes_len ) . sum :: < usize > ( ) => vx_sum_of(&self.v)
//@@ start: proof { v_exact(self@.len() as u64, Seq::empty()); }
//@@ end
//@@ fn ToBytes for SmallVec<A>::to_bytes
//@@ rename: & mut impl WriteInteger => &mut Writer
//@@ hoist: try_for_each over self.iter() => vx_write_of(&self.v, true, buffer)
//@@ start: let ghost b0 = buffer@; proof { let l = ms(self@); assert(b0 + framed::<A>(l) =~= b0 + venc(l.len() as u64) + enc_list::<A>(l)); }
//@@ end
//@@ fn ToBytes for SmallVec<A>::from_bytes
//@@ rename: A :: Item :: from_bytes => A::from_bytes ;; len . min ( => vx_min(len,  ;; SmallVec :: with_capacity ( => vx_small(Ghost(buffer@.len()),
//@@ start: let ghost s0 = buffer@; proof { v_sound(s0); }
//@@ before "for _ in": let ghost t0 = buffer@; proof { assert(ms(values@) =~= Seq::empty()); assert(vx_prepend(ms(values@), dec_list::<A>(t0, len as nat)) == dec_list::<A>(t0, len as nat)) by { if let Some((l, u)) = dec_list::<A>(t0, len as nat) { assert(Seq::<A::M>::empty() + l =~= l); } } }
//@@ iter 0: it
//@@ loop 0:
//@@ | invariant dec_list::<A>(t0, len as nat) == vx_prepend(ms(values@), dec_list::<A>(buffer@, (len - it.index()) as nat)), values@.len() == it.index(), 0 <= it.index() <= len, s0 == old(buffer)@, dec_framed::<A>(s0) == dec_list::<A>(t0, len as nat)
//@@ loopbody 0: let ghost v0 = values@; proof { prepend_step::<A>(ms(v0), buffer@, (len - it.index()) as nat); }
//@@ loopend 0: proof { assert(ms(values@) =~= ms(v0).push(values@.last().m())); }
//@@ end
}

//@@ include frames.inc

// ---------------------------------------------------------------- maps: the entries in iteration order behind their number
pub struct Entry<K, W> { pub k: K, pub w: W }
//@@ source crates/transport/serde/src/lib.rs
//@@ closure ToBytes for HashMap<K,V,S>::to_bytes try_for_each
//@@ sig: fn vx_entry<K: ToBytes, W: ToBytes>(vx_p: (&K, &W), buffer: &mut Writer) -> Result<(), SerializationError>
//@@ start: let $0 = vx_p; proof { assert(buffer@ + (K::enc(k.m()) + W::enc(v.m())) =~= buffer@ + K::enc(k.m()) + W::enc(v.m())); }
//@@ spec:
//@@ | requires K::wf(vx_p.0.m()), W::wf(vx_p.1.m())
//@@ | ensures r is Ok, final(buffer)@ == old(buffer)@ + (K::enc(vx_p.0.m()) + W::enc(vx_p.1.m()))
//@@ end
//@@ closure ToBytes for HashMap<K,V,S>::bytes_len map
//@@ sig: fn vx_entry_len<K: ToBytes, W: ToBytes>(vx_p: (&K, &W)) -> usize
//@@ start: let $0 = vx_p;
//@@ spec:
//@@ | requires K::wf(vx_p.0.m()), W::wf(vx_p.1.m()), K::enc(vx_p.0.m()).len() + W::enc(vx_p.1.m()).len() <= VMAX
//@@ | ensures r == K::enc(vx_p.0.m()).len() + W::enc(vx_p.1.m()).len()
//@@ end
impl<K: ToBytes, W: ToBytes> ToBytes for Entry<K, W> {
    type M = (K::M, W::M);
    open spec fn m(&self) -> (K::M, W::M) { (self.k.m(), self.w.m()) }
    open spec fn wf(v: (K::M, W::M)) -> bool { K::wf(v.0) && W::wf(v.1) }
    open spec fn enc(v: (K::M, W::M)) -> Seq<u8> { K::enc(v.0) + W::enc(v.1) }
    open spec fn dec(s: Seq<u8>) -> Option<((K::M, W::M), Seq<u8>)> { dec2::<K, W>(s) }
    proof fn exact(v: (K::M, W::M), rest: Seq<u8>) { exact2::<K, W>(v.0, v.1, rest); }
    proof fn cut(v: (K::M, W::M), k: int) { cut2::<K, W>(v.0, v.1, k); }
    fn bytes_len(&self) -> usize { vx_entry_len((&self.k, &self.w)) }
    fn to_bytes(&self, buffer: &mut Writer) -> Result<(), SerializationError> { vx_entry((&self.k, &self.w), buffer) }
    fn from_bytes(buffer: &mut Reader) -> Result<Self, SerializationError> { let k = K::from_bytes(buffer)?; let w = W::from_bytes(buffer)?; Ok(Entry { k, w }) }
}
/// the entries of a map, in the order it iterates them
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(W)]
pub struct HashMap<K, W> { x: Vec<(K, W)> }
/// what inserting these in turn leaves
pub open spec fn inserted<A, B>(m: Map<A, B>, l: Seq<(A, B)>) -> Map<A, B> decreases l.len() { if l.len() == 0 { m } else { inserted(m.insert(l[0].0, l[0].1), l.skip(1)) } }
impl<K: ToBytes, W: ToBytes> HashMap<K, W> {
    pub uninterp spec fn entries(&self) -> Seq<Entry<K, W>>;
    pub open spec fn map(&self) -> Map<K::M, W::M> { inserted(Map::empty(), ms(self.entries())) }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.entries().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: Vec<Entry<K, W>>) ensures r@ == self.entries() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, w: W) ensures final(self).map() == old(self).map().insert(k.m(), w.m()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_new(Ghost(left): Ghost<nat>, n: usize) -> (r: Self) requires n <= left ensures r.entries() == Seq::<Entry<K, W>>::empty() { unimplemented!() }
    /// a map reads back as the same map
    pub proof fn map_exact(&self, rest: Seq<u8>)
        requires wf_list::<Entry<K, W>>(ms(self.entries())), self.entries().len() <= VMAX
        ensures match dec_framed::<Entry<K, W>>(framed::<Entry<K, W>>(ms(self.entries())) + rest) { Some((l, t)) => inserted(Map::empty(), l) == self.map() && t == rest, None => false }
    { exact_framed::<Entry<K, W>>(ms(self.entries()), rest); }
//@@ fn ToBytes for HashMap<K,V,S>::bytes_len
//@@ hoist: map over self.iter() => vx_sum_of(&self.vx_iter())
//@@ rename: . sum :: < usize > ( ) => 
//@@ start: proof { v_exact(self.entries().len() as u64, Seq::empty()); }
//@@ spec:
//@@ | requires wf_list::<Entry<K, W>>(ms(self.entries())), self.entries().len() <= VMAX, framed::<Entry<K, W>>(ms(self.entries())).len() <= VMAX
//@@ | ensures r == framed::<Entry<K, W>>(ms(self.entries())).len()
//@@ end
//@@ fn ToBytes for HashMap<K,V,S>::to_bytes
//@@ rename: & mut impl WriteInteger => &mut Writer
//@@ hoist: try_for_each over self.iter() => vx_write_of(&self.vx_iter(), false, buffer)
//@@ start: proof { let l = ms(self.entries()); assert(buffer@ + framed::<Entry<K, W>>(l) =~= buffer@ + venc(l.len() as u64) + enc_list::<Entry<K, W>>(l)); }
//@@ spec:
//@@ | requires wf_list::<Entry<K, W>>(ms(self.entries())), self.entries().len() <= VMAX
//@@ | ensures r is Ok, final(buffer)@ == old(buffer)@ + framed::<Entry<K, W>>(ms(self.entries()))
//@@ end
//@@ fn ToBytes for HashMap<K,V,S>::from_bytes
//@@ rename: V :: from_bytes => W::from_bytes ;; len . min ( => vx_min(len,  ;; HashMap :: with_capacity_and_hasher ( => HashMap::vx_new(Ghost(buffer@.len()), ;; , S :: default ( ) => 
//@@ start: let ghost s0 = buffer@; proof { v_sound(s0); }
//@@ before "for _ in": let ghost t0 = buffer@; let ghost mut l0: Seq<(K::M, W::M)> = Seq::empty(); proof { assert(ms(res.entries()) =~= Seq::empty()); assert(vx_prepend(l0, dec_list::<Entry<K, W>>(t0, len as nat)) == dec_list::<Entry<K, W>>(t0, len as nat)) by { if let Some((l, u)) = dec_list::<Entry<K, W>>(t0, len as nat) { assert(l0 + l =~= l); } } }
//@@ iter 0: it
//@@ loop 0:
//@@ | invariant dec_list::<Entry<K, W>>(t0, len as nat) == vx_prepend(l0, dec_list::<Entry<K, W>>(buffer@, (len - it.index()) as nat)), res.map() == inserted(Map::empty(), l0), 0 <= it.index() <= len, s0 == old(buffer)@, dec_framed::<Entry<K, W>>(s0) == dec_list::<Entry<K, W>>(t0, len as nat)
//@@ loopbody 0: let ghost m0 = res.map(); proof { prepend_step::<Entry<K, W>>(l0, buffer@, (len - it.index()) as nat); }
//@@ loopend 0: proof { let e = (vx_k, vx_w); insert_last(Map::empty(), l0, e); l0 = l0.push(e); }
//@@ before "res.insert": let ghost vx_k = key.m(); let ghost vx_w = value.m();
//@@ afterloop 0: proof { assert(l0 + Seq::empty() =~= l0); }
//@@ spec:
//@@ | ensures match dec_framed::<Entry<K, W>>(old(buffer)@) { Some((l, rest)) => r is Ok && r->Ok_0.map() == inserted(Map::empty(), l) && final(buffer)@ == rest, None => r is Err }
//@@ end
}
pub proof fn insert_last<A, B>(m: Map<A, B>, l: Seq<(A, B)>, e: (A, B)) ensures inserted(m, l.push(e)) == inserted(m, l).insert(e.0, e.1) decreases l.len()
{ if l.len() == 0 { assert(l.push(e).skip(1) =~= Seq::empty()); assert(inserted(m, l.push(e)) == inserted(m.insert(e.0, e.1), l.push(e).skip(1))); } else { assert(l.push(e).skip(1) =~= l.skip(1).push(e)); insert_last(m.insert(l[0].0, l[0].1), l.skip(1), e); } }

// ---------------------------------------------------------------- the reader over a cursor
pub struct IoError;
fn vx_eof() -> IoError { IoError }
#[verifier::external_body]
pub struct Cursor { x: u64 }
impl Cursor {
    pub uninterp spec fn data(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> u64;
    #[verifier::external_body]
    fn position(&self) -> (r: u64) ensures r == self.pos() { unimplemented!() }
    #[verifier::external_body]
    fn set_position(&mut self, p: u64) ensures final(self).pos() == p, final(self).data() == old(self).data() { unimplemented!() }
    #[verifier::external_body]
    fn vx_len(&self) -> (r: usize) ensures r == self.data().len() { unimplemented!() }
    /// get_ref().slice(from..to)
    #[verifier::external_body]
    fn vx_slice(&self, from: usize, to: usize) -> (r: Bytes) requires from <= to <= self.data().len() ensures r@ == self.data().subrange(from as int, to as int) { unimplemented!() }
    /// get_mut().split_off(at)
    #[verifier::external_body]
    fn vx_split_off(&mut self, at: usize) -> (r: Bytes) requires at <= old(self).data().len() ensures r@ == old(self).data().skip(at as int), final(self).data() == old(self).data().take(at as int), final(self).pos() == old(self).pos() { unimplemented!() }
}
fn vx_usize(n: u64) -> (r: Result<usize, ()>) ensures r == Ok::<usize, ()>(n as usize) { Ok(n as usize) }
//@@ source crates/transport/serde/src/reader.rs
//@@ fn saturating_sub_usize_u64
//@@ rename: usize :: try_from => vx_usize
//@@ spec: ensures r == (if a >= b { a - b } else { 0 })
//@@ end
pub struct RealReader(pub Cursor);
impl RealReader {
    pub open spec fn left(&self) -> Seq<u8> { if self.0.pos() <= self.0.data().len() { self.0.data().skip(self.0.pos() as int) } else { Seq::empty() } }
//@@ fn Reader::len
//@@ rename: self . 0 . get_ref ( ) . len ( ) => self.0.vx_len()
//@@ spec: ensures r == self.0.data().len()
//@@ end
//@@ fn Reader::is_empty
//@@ spec: ensures r == (self.0.data().len() == 0)
//@@ end
//@@ fn Reader::position
//@@ spec: ensures r == self.0.pos()
//@@ end
//@@ fn Reader::set_position
//@@ spec: ensures final(self).0.pos() == pos, final(self).0.data() == old(self).0.data()
//@@ end
//@@ fn Reader::remaining
//@@ spec: ensures r == self.left().len()
//@@ end
//@@ fn Reader::has_remaining
//@@ spec: ensures r == (self.left().len() > 0)
//@@ end
//@@ fn Reader::split_len
//@@ rename: Result < Bytes > => Result<Bytes, IoError> ;; usize :: try_from => vx_usize ;; Error :: from ( ErrorKind :: UnexpectedEof ) => vx_eof() ;; self . 0 . get_ref ( ) . slice ( current_pos .. new_pos ) => self.0.vx_slice(current_pos, new_pos)
//@@ closures: map_err filter ok_or_else
//@@ start: let vx_n = self.len(); proof { let (d, p) = (self.0.data(), self.0.pos() as int); if p + len <= d.len() { assert(d.subrange(p, p + len) =~= d.skip(p).take(len as int)); assert(d.skip(p + len) =~= d.skip(p).skip(len as int)); } }
//@@ spec:
//@@ | requires old(self).0.pos() <= old(self).0.data().len()
//@@ | ensures len <= old(self).left().len() ==> r is Ok && r->Ok_0@ == old(self).left().take(len as int) && final(self).left() == old(self).left().skip(len as int),
//@@ |   len > old(self).left().len() ==> r is Err && *final(self) == *old(self), final(self).0.pos() <= final(self).0.data().len(), final(self).0.data() == old(self).0.data()
//@@ end
//@@ fn Reader::take_remaining
//@@ rename: self . 0 . get_mut ( ) . split_off => self.0.vx_split_off
//@@ spec:
//@@ | requires old(self).0.pos() <= old(self).0.data().len()
//@@ | ensures r@ == old(self).left(), final(self).left() == Seq::<u8>::empty()
//@@ end
}
}
fn main() {}

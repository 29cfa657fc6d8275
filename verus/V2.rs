// V2: reassembly of fragmented messages (T10) and fragment acknowledgements (T15).
// Real code: crates/transport/transport/src/channel/fragments/{receive,ack}.rs
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@@ include maps.inc
//@@ include btree.inc
//@@ include msgid.inc
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Tick(pub u32);
//@@ include dur.inc
#[derive(Clone, Copy)]
pub struct CompressionConfig { pub x: u64 }
#[verifier::external_body]
pub struct Bytes { b: Vec<u8> }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Bytes {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_vec(v: Vec<u8>) -> (r: Bytes) ensures r@ == v@ { unimplemented!() }
}
//@@ source crates/transport/transport/src/packet/message.rs
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@@ item enum FragmentCompression
impl FragmentCompression {
//@@ fn FragmentCompression::as_str
//@@ end
}
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@@ item struct FragmentIndex
//@@ item struct FragmentData
//@@ source crates/transport/transport/src/channel/receive.rs
//@@ item enum ChannelReceiveError
type Result<T> = core::result::Result<T, ChannelReceiveError>;
//@@ source crates/transport/transport/src/channel/fragments/receive.rs
//@@ item struct FragmentConstructor BTreeMap<usize, Vec<u8>> => BTreeMap<Vec<u8>>
//@@ item struct FragmentReceiver

pub uninterp spec fn inflated(c: FragmentCompression, b: Seq<u8>) -> Seq<u8>;
/// decompression is not under contract: uncompressed payloads pass through (checked by Kani/native), compressed ones inflate
#[verifier::external_body]
fn decompress_fragment_payload(compression: FragmentCompression, payload: Bytes, config: CompressionConfig) -> (r: Result<Bytes>)
    ensures compression is None ==> r == Ok::<Bytes, ChannelReceiveError>(payload), r matches Ok(b) ==> compression is Lz4 ==> b@ == inflated(compression, payload@)
{ unimplemented!() }

/// the concatenation of the first k fragments
pub open spec fn joined(m: Map<usize, Vec<u8>>, k: int) -> Seq<u8> decreases k {
    if k <= 0 { Seq::empty() } else { joined(m, k - 1) + m[(k - 1) as usize]@ }
}
impl FragmentConstructor {
    pub open spec fn wf(self) -> bool {
        &&& self.num_fragments > 0
        &&& self.num_fragments * self.fragment_size <= usize::MAX
        &&& forall|i: usize| #[trigger] self.fragments@.dom().contains(i) ==> i < self.num_fragments
            && (i != self.num_fragments - 1 ==> self.fragments@[i]@.len() == self.fragment_size)
            && (i == self.num_fragments - 1 ==> self.fragments@[i]@.len() <= self.fragment_size)
    }
    pub open spec fn size_ok(self, i: usize, len: nat) -> bool { if i == self.num_fragments - 1 { len <= self.fragment_size } else { len == self.fragment_size } }
    /// the pieces held after this one arrived: a piece that is already there is kept
    pub open spec fn with(self, i: usize, v: Seq<u8>, m: Map<usize, Vec<u8>>) -> bool {
        if self.fragments@.dom().contains(i) { m == self.fragments@ } else { m.dom() == self.fragments@.dom().insert(i) && m[i]@ == v && forall|j: usize| j != i && self.fragments@.dom().contains(j) ==> #[trigger] m[j] == self.fragments@[j] }
    }
//@@ fn FragmentConstructor::new
//@@ rename: num_fragments . checked_mul ( fragment_size ) => vx_checked_mul(num_fragments, fragment_size)
//@@ spec:
//@@ | requires num_fragments > 0
//@@ | ensures r is Ok <==> num_fragments * fragment_size <= usize::MAX,
//@@ |   r matches Ok(c) ==> c.wf() && c.num_fragments == num_fragments && c.fragment_size == fragment_size && c.tick == tick && c.compression is None
//@@ |     && c.fragments@ == Map::<usize, Vec<u8>>::empty() && c.last_received is None
//@@ end
//@@ fn FragmentConstructor::set_compression
//@@ spec:
//@@ | ensures final(self).fragments == old(self).fragments, final(self).num_fragments == old(self).num_fragments, final(self).fragment_size == old(self).fragment_size,
//@@ |   final(self).tick == old(self).tick, final(self).last_received == old(self).last_received,
//@@ |   r is Ok <==> (old(self).compression is None || old(self).compression == Some(compression)),
//@@ |   final(self).compression == (if old(self).compression is None { Some(compression) } else { old(self).compression }),
//@@ end
//@@ fn FragmentConstructor::receive_fragment
//@@ rename: payload . into ( ) => Bytes::from_vec(payload) ;; bytes . to_vec ( ) => vx_to_vec(bytes)
//@@ spec:
//@@ | requires old(self).wf(), fragment_index < old(self).num_fragments
//@@ | ensures
//@@ |   final(self).num_fragments == old(self).num_fragments, final(self).fragment_size == old(self).fragment_size, final(self).tick == old(self).tick,
//@@ |   final(self).compression == old(self).compression, final(self).last_received == received_time,
//@@ |   !old(self).size_ok(fragment_index, bytes@.len()) ==> r is Err && final(self).fragments == old(self).fragments,
//@@ |   old(self).size_ok(fragment_index, bytes@.len()) ==> r is Ok && exists|m: Map<usize, Vec<u8>>| old(self).with(fragment_index, bytes@, m) && {
//@@ |      // complete exactly when every piece is there, and then it is the concatenation of the pieces in order
//@@ |      &&& (r->Ok_0 is Some <==> m.dom().len() == old(self).num_fragments)
//@@ |      &&& (r->Ok_0 is None ==> final(self).fragments@ == m && final(self).wf())
//@@ |      &&& (r->Ok_0 matches Some((t, b)) ==> t == old(self).tick && b@ == joined(m, old(self).num_fragments as int)
//@@ |            && forall|j: usize| j < old(self).num_fragments ==> #[trigger] m.dom().contains(j))
//@@ |   },
//@@ loopkinds: loop
//@@ before "if self\.fragments\.len": let ghost mm = self.fragments@; proof { assert(mm.dom() =~= (if old(self).fragments@.dom().contains(fragment_index) { old(self).fragments@.dom() } else { old(self).fragments@.dom().insert(fragment_index) })); assert(old(self).with(fragment_index, bytes@, mm)); }
//@@ before "let mut payload": let ghost m0 = self.fragments@; let ghost n0 = self.num_fragments; let ghost mut k: int = 0; proof { full(m0, n0 as int); }
//@@ loop 0:
//@@ |   invariant
//@@ |     0 <= k <= n0, n0 == self.num_fragments,
//@@ |     forall|j: usize| j < n0 ==> #[trigger] m0.dom().contains(j),
//@@ |     forall|j: usize| #[trigger] m0.dom().contains(j) ==> j < n0,
//@@ |     forall|j: usize| #[trigger] self.fragments@.dom().contains(j) <==> k <= j < n0,
//@@ |     forall|j: usize| k <= j < n0 ==> #[trigger] self.fragments@[j] == m0[j],
//@@ |     payload@ == joined(m0, k),
//@@ |     self.fragment_size == old(self).fragment_size, self.num_fragments == old(self).num_fragments, self.tick == old(self).tick, self.compression == old(self).compression, self.last_received == received_time,
//@@ |   ensures payload@ == joined(m0, n0 as int)
//@@ |   decreases n0 - k
//@@ loopbody 0: proof { if k < n0 { assert(self.fragments@.dom().contains(k as usize)); } else { assert(self.fragments@.dom() =~= Set::<usize>::empty()); } }
//@@ after "payload\.extend_from_slice": proof { k = k + 1; }
//@@ end
}
/// the piece `i` of a message cut at `size`
pub open spec fn pieces(b: Seq<u8>, size: int) -> int { (b.len() + size - 1) / size }
pub open spec fn piece(b: Seq<u8>, size: int, i: int) -> Seq<u8> { b.subrange(i * size, if (i + 1) * size <= b.len() { (i + 1) * size } else { b.len() as int }) }
impl FragmentConstructor {
    /// everything held of this message is what the sender cut from `b`
    pub open spec fn holds(self, b: Seq<u8>) -> bool {
        self.num_fragments == pieces(b, self.fragment_size as int) && forall|i: usize| #[trigger] self.fragments@.dom().contains(i) ==> self.fragments@[i]@ == piece(b, self.fragment_size as int, i as int)
    }
}
impl FragmentConstructor {
    /// the compression is known from the moment the first piece (which carries it) is held
    pub open spec fn known_if_first(self) -> bool { self.fragments@.dom().contains(0) ==> self.compression is Some }
}
impl FragmentReceiver {
    pub open spec fn wf(self) -> bool { forall|id: MessageId| #[trigger] self.fragment_messages@.dom().contains(id) ==> self.fragment_messages@[id].wf() && self.fragment_messages@[id].known_if_first() }
    pub open spec fn same_others(self, o: FragmentReceiver, id: MessageId) -> bool {
        forall|j: MessageId| j != id ==> (#[trigger] self.fragment_messages@.dom().contains(j) <==> o.fragment_messages@.dom().contains(j)) && (o.fragment_messages@.dom().contains(j) ==> self.fragment_messages@[j] == o.fragment_messages@[j])
    }
    /// the entry of `id`, or the one a first fragment would create
    pub open spec fn entry_is(self, id: MessageId, tick: Tick, n: usize, c: FragmentConstructor) -> bool {
        if self.fragment_messages@.dom().contains(id) { c == self.fragment_messages@[id] }
        else { c.wf() && c.num_fragments == n && c.fragment_size == self.fragment_size && c.tick == tick && c.compression is None && c.fragments@ == Map::<usize, Vec<u8>>::empty() }
    }
//@@ fn FragmentReceiver::receive_fragment
//@@ closures: map_err map=result
//@@ before "if let Some\(fragment_compression\)": let ghost c0 = *fragment_message; proof { assert(old(self).entry_is(fragment.message_id, remote_sent_tick, num_fragments, c0)); }
//@@ before "if let Some\(payload\)": let ghost c1 = *fragment_message; proof { assert forall|m: Map<usize, Vec<u8>>| #[trigger] c1.with(fragment_index, fragment.bytes@, m) implies c0.with(fragment_index, fragment.bytes@, m) by {} }
//@@ before "let fragment_compression = fragment_message": proof { let m = choose|m: Map<usize, Vec<u8>>| #[trigger] c1.with(fragment_index, fragment.bytes@, m) && forall|j: usize| j < c1.num_fragments ==> #[trigger] m.dom().contains(j); assert(m.dom().contains(0usize)); assert(c1.fragments@.dom().contains(0usize) || fragment_index == 0); assert(c0.known_if_first()); assert(c1.compression is Some); }
//@@ spec:
//@@ | requires old(self).wf()
//@@ | ensures
//@@ |   final(self).wf(), final(self).fragment_size == old(self).fragment_size,
//@@ |   // frame: the other messages in reassembly are untouched
//@@ |   final(self).same_others(*old(self), fragment.message_id),
//@@ |   // hostile counts and indices are errors and change nothing
//@@ |   (fragment.num_fragments.0 == 0 || fragment.fragment_id.0 >= fragment.num_fragments.0 || fragment.num_fragments.0 > usize::MAX) ==> r is Err && *final(self) == *old(self),
//@@ |   r is Ok ==> exists|c: FragmentConstructor, m: Map<usize, Vec<u8>>| {
//@@ |     &&& old(self).entry_is(fragment.message_id, remote_sent_tick, fragment.num_fragments.0 as usize, c)
//@@ |     &&& c.num_fragments == fragment.num_fragments.0 && c.size_ok(fragment.fragment_id.0 as usize, fragment.bytes@.len())
//@@ |     &&& #[trigger] c.with(fragment.fragment_id.0 as usize, fragment.bytes@, m)
//@@ |     &&& (r->Ok_0 is Some <==> m.dom().len() == c.num_fragments)
//@@ |     &&& (r->Ok_0 is None ==> final(self).fragment_messages@.dom().contains(fragment.message_id) && final(self).fragment_messages@[fragment.message_id].fragments@ == m
//@@ |           && final(self).fragment_messages@[fragment.message_id].num_fragments == c.num_fragments && final(self).fragment_messages@[fragment.message_id].fragment_size == c.fragment_size
//@@ |           && final(self).fragment_messages@[fragment.message_id].last_received == current_time
//@@ |           && final(self).fragment_messages@[fragment.message_id].tick == c.tick)
//@@ |     &&& (r->Ok_0 matches Some((t, b)) ==> !final(self).fragment_messages@.dom().contains(fragment.message_id) && t == c.tick
//@@ |           && (forall|j: usize| j < c.num_fragments ==> #[trigger] m.dom().contains(j))
//@@ |           && (c.compression == Some(FragmentCompression::None) || (c.compression is None && fragment.compression == Some(FragmentCompression::None)) ==> b@ == joined(m, c.num_fragments as int)))
//@@ |   },
//@@ end
}
/// pieces cut from a message give back the message
pub proof fn rejoined(m: Map<usize, Vec<u8>>, b: Seq<u8>, size: int, k: int)
    requires size > 0, 0 <= k <= pieces(b, size), pieces(b, size) <= usize::MAX, forall|j: usize| j < pieces(b, size) ==> #[trigger] m[j]@ == piece(b, size, j as int),
    ensures joined(m, k) == b.take(if k * size <= b.len() { k * size } else { b.len() as int }), k == pieces(b, size) ==> joined(m, k) == b,
    decreases k
{
    if k > 0 {
        rejoined(m, b, size, k - 1);
        assert((k - 1) * size + size == k * size) by (nonlinear_arith);
        assert((k - 1) * size < b.len()) by (nonlinear_arith) requires size > 0, 1 <= k <= (b.len() + size - 1) / size;
        assert(m[(k - 1) as usize]@ == piece(b, size, k - 1));
        assert(joined(m, k) =~= b.take(if k * size <= b.len() { k * size } else { b.len() as int }));
    } else {
        assert(0 * size == 0) by (nonlinear_arith);
        assert(joined(m, 0) =~= b.take(0));
    }
    if k == pieces(b, size) {
        assert(k * size >= b.len()) by (nonlinear_arith) requires size > 0, k == (b.len() + size - 1) / size;
        assert(b.take(b.len() as int) =~= b);
    }
}
/// a genuine piece leaves genuine pieces, and a completed message is the message
pub proof fn reassembly_exact(c: FragmentConstructor, i: usize, v: Seq<u8>, m: Map<usize, Vec<u8>>, b: Seq<u8>)
    requires c.wf(), c.fragment_size > 0, c.holds(b), i < c.num_fragments, v == piece(b, c.fragment_size as int, i as int), c.with(i, v, m),
    ensures forall|j: usize| #[trigger] m.dom().contains(j) ==> m[j]@ == piece(b, c.fragment_size as int, j as int),
        (forall|j: usize| j < c.num_fragments ==> #[trigger] m.dom().contains(j)) ==> joined(m, c.num_fragments as int) == b,
{
    assert forall|j: usize| #[trigger] m.dom().contains(j) implies m[j]@ == piece(b, c.fragment_size as int, j as int) by { if j != i { assert(c.fragments@.dom().contains(j)); } }
    if forall|j: usize| j < c.num_fragments ==> #[trigger] m.dom().contains(j) {
        assert forall|j: usize| j < pieces(b, c.fragment_size as int) implies #[trigger] m[j]@ == piece(b, c.fragment_size as int, j as int) by { assert(m.dom().contains(j)); }
        rejoined(m, b, c.fragment_size as int, c.num_fragments as int);
    }
}
/// a genuine piece has an acceptable size
pub proof fn genuine_size(c: FragmentConstructor, i: usize, b: Seq<u8>)
    requires c.wf(), c.fragment_size > 0, c.num_fragments == pieces(b, c.fragment_size as int), i < c.num_fragments,
    ensures c.size_ok(i, piece(b, c.fragment_size as int, i as int).len()), i * c.fragment_size < b.len()
{
    let s = c.fragment_size as int; let n = b.len() as int;
    assert(i * s < n) by (nonlinear_arith) requires s > 0, 0 <= i < (n + s - 1) / s;
    assert((i + 1) * s == i * s + s) by (nonlinear_arith);
    if i < c.num_fragments - 1 { assert((i + 1) * s <= n) by (nonlinear_arith) requires s > 0, 0 <= i, i + 1 < (n + s - 1) / s; }
}

//@@ source crates/transport/transport/src/channel/fragments/receive.rs
//@@ include retain.inc OWNER=>FragmentReceiver VALUE=>FragmentConstructor KEPT=>reassembly_kept
//@@ include fragack.inc
fn vx_checked_mul(a: usize, b: usize) -> (r: Option<usize>) ensures r is Some <==> a * b <= usize::MAX, r matches Some(x) ==> x == a * b { a.checked_mul(b) }
#[verifier::external_body]
fn vx_to_vec(a: &[u8]) -> (r: Vec<u8>) ensures r@ == a@ { a.to_vec() }

/// n distinct keys below n are all keys below n
proof fn full(m: Map<usize, Vec<u8>>, n: int)
    requires m.dom().len() == n, 0 <= n <= usize::MAX, forall|j: usize| #[trigger] m.dom().contains(j) ==> j < n
    ensures forall|j: usize| j < n ==> #[trigger] m.dom().contains(j)
{
    below(m.dom(), n);
}
proof fn below(s: Set<usize>, n: int)
    requires 0 <= n <= usize::MAX, forall|j: usize| #[trigger] s.contains(j) ==> j < n
    ensures s.len() <= n, s.len() == n ==> forall|j: usize| j < n ==> #[trigger] s.contains(j)
    decreases n
{
    broadcast use vstd::set::group_set_lemmas;
    if n == 0 { assert(s =~= Set::<usize>::empty()); }
    else {
        let top = (n - 1) as usize;
        below(s.remove(top), n - 1);
        if s.len() == n { assert(s.contains(top)); assert forall|j: usize| j < n implies #[trigger] s.contains(j) by { if j != top { assert(s.remove(top).contains(j)); } } }
    }
}
}
fn main() {}

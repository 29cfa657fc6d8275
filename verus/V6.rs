// V6: ready buffer, sequence buffer, free list (C25).  Real code: crates/core/utils/src/{ready_buffer,sequence_buffer,free_list}.rs
use vstd::prelude::*;
use vstd::multiset::Multiset;
use core::cmp::Ordering;
verus! {
// ---------------------------------------------------------------- ready buffer
/// the stored item: nothing is known about it
#[verifier::external_body]
pub struct Val { x: u64 }
type T = Val;
/// keys are totally ordered: instantiated with the 64-bit integers
type K = u64;
//@@ source crates/core/utils/src/ready_buffer.rs
//@@ item struct ItemWithReadyKey
pub type It = ItemWithReadyKey<u64, Val>;
/// what the heap compares: the real `Ord` implementation, extracted
pub open spec fn item_cmp(a: It, b: It) -> Ordering { if b.key == a.key { Ordering::Equal } else if b.key < a.key { Ordering::Less } else { Ordering::Greater } }
//@@ fn Ord for ItemWithReadyKey::cmp
//@@ rename: fn cmp ( & self , other : & ItemWithReadyKey < K , T > ) -> Ordering => fn vx_cmp(this: &It, other: &It) -> Ordering ;; self . => this.
//@@ spec: ensures r == item_cmp(*this, *other)
//@@ end
/// alloc's BinaryHeap, a max-heap with respect to `Ord`
#[verifier::external_body]
#[verifier::accept_recursive_types(X)]
pub struct BinaryHeap<X> { m: Vec<X> }
impl<X> View for BinaryHeap<X> { type V = Multiset<X>; uninterp spec fn view(&self) -> Multiset<X>; }
pub open spec fn top(m: Multiset<It>, x: It) -> bool { m.contains(x) && forall|y: It| #[trigger] m.contains(y) ==> item_cmp(x, y) != Ordering::Less }
impl BinaryHeap<It> {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Multiset::<It>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: It) ensures final(self)@ == old(self)@.insert(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<&It>) ensures match r { Some(x) => top(self@, *x), None => self@ == Multiset::<It>::empty() } { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<It>)
        ensures match r { Some(x) => top(old(self)@, x) && final(self)@ == old(self)@.remove(x), None => old(self)@ == Multiset::<It>::empty() && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Multiset::<It>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Multiset::<It>::empty() { unimplemented!() }
    /// everything, in no particular order
    #[verifier::external_body]
    pub fn drain(&mut self) -> (r: Vec<It>) ensures final(self)@ == Multiset::<It>::empty(), r@.to_multiset() == old(self)@ { unimplemented!() }
}
pub open spec fn pair(x: It) -> (u64, Val) { (x.key, x.item) }
pub open spec fn item(p: (u64, Val)) -> It { ItemWithReadyKey { key: p.0, item: p.1 } }
/// a result list as a bag of items
pub open spec fn bag(s: Seq<(u64, Val)>) -> Multiset<It> { s.map_values(|p: (u64, Val)| item(p)).to_multiset() }
pub proof fn bag_push(s: Seq<(u64, Val)>, p: (u64, Val))
    ensures bag(s.push(p)) == bag(s).insert(item(p))
{
    let f = |p: (u64, Val)| item(p);
    assert(s.push(p).map_values(f) =~= s.map_values(f).push(item(p)));
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
}
pub proof fn bag_empty() ensures bag(Seq::empty()) == Multiset::<It>::empty() { 
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let f = |p: (u64, Val)| item(p);
    assert(Seq::<(u64, Val)>::empty().map_values(f) =~= Seq::<It>::empty());
    assert(Seq::<It>::empty().to_multiset() =~= Multiset::<It>::empty());
}
pub open spec fn sorted(s: Seq<(u64, Val)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 <= (#[trigger] s[j]).0 }
/// the items of `m` that are due at key `k` / those that are not
pub open spec fn due(m: Multiset<It>, k: u64) -> Multiset<It> { m.filter(|x: It| x.key <= k) }
pub open spec fn later(m: Multiset<It>, k: u64) -> Multiset<It> { m.filter(|x: It| x.key > k) }
pub open spec fn older(m: Multiset<It>, k: u64) -> Multiset<It> { m.filter(|x: It| x.key < k) }
pub open spec fn from(m: Multiset<It>, k: u64) -> Multiset<It> { m.filter(|x: It| x.key >= k) }
/// `x` is the item of `m` with the smallest key
pub open spec fn first(m: Multiset<It>, x: It) -> bool { m.contains(x) && forall|y: It| #[trigger] m.contains(y) ==> x.key <= y.key }
pub proof fn all_later(m: Multiset<It>, k: u64)
    requires forall|x: It| #[trigger] m.contains(x) ==> x.key > k
    ensures later(m, k) == m
{
    assert forall|x: It| #[trigger] later(m, k).count(x) == m.count(x) by { if m.count(x) > 0 { assert(m.contains(x)); } }
    assert(later(m, k) =~= m);
}
pub proof fn mset_push(s: Seq<It>, x: It) ensures s.push(x).to_multiset() == s.to_multiset().insert(x) { broadcast use vstd::seq_lib::group_to_multiset_ensures; }
pub proof fn mset_empty() ensures Seq::<It>::empty().to_multiset() == Multiset::<It>::empty() { broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(Seq::<It>::empty().to_multiset() =~= Multiset::<It>::empty()); }
pub proof fn mset_all(s: Seq<It>, k: u64)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).key < k
    ensures forall|x: It| #[trigger] s.to_multiset().contains(x) ==> x.key < k
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|x: It| #[trigger] s.to_multiset().contains(x) implies x.key < k by { assert(s.contains(x)); }
}
pub proof fn bag_append(s: Seq<(u64, Val)>, t: Seq<(u64, Val)>)
    ensures bag(s + t) == bag(s).add(bag(t)) decreases t.len()
{
    if t.len() == 0 { bag_empty(); assert(s + t =~= s); assert(t =~= Seq::<(u64, Val)>::empty()); assert(bag(s).add(Multiset::<It>::empty()) =~= bag(s)); }
    else { let t0 = t.drop_last(); let p = t.last(); bag_append(s, t0); assert(t =~= t0.push(p)); assert(s + t =~= (s + t0).push(p)); bag_push(s + t0, p); bag_push(t0, p); assert(bag(s + t) =~= bag(s).add(bag(t))); }
}
/// a split of `o` in what is before the key and what is from the key on is the only one
pub proof fn split(o: Multiset<It>, a: Multiset<It>, b: Multiset<It>, k: u64)
    requires a.add(b) == o, forall|x: It| #[trigger] a.contains(x) ==> x.key < k, forall|x: It| #[trigger] b.contains(x) ==> x.key >= k
    ensures older(o, k) == a, from(o, k) == b
{
    assert forall|x: It| #[trigger] older(o, k).count(x) == a.count(x) by { assert(o.count(x) == a.count(x) + b.count(x)); if a.count(x) > 0 { assert(a.contains(x)); } if b.count(x) > 0 { assert(b.contains(x)); } }
    assert forall|x: It| #[trigger] from(o, k).count(x) == b.count(x) by { assert(o.count(x) == a.count(x) + b.count(x)); if a.count(x) > 0 { assert(a.contains(x)); } if b.count(x) > 0 { assert(b.contains(x)); } }
    assert(older(o, k) =~= a); assert(from(o, k) =~= b);
}
#[verifier::external_body]
pub fn vx_extend(v: &mut Vec<(u64, Val)>, w: Vec<(u64, Val)>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
//@@ item struct ReadyBuffer
impl ReadyBuffer<u64, Val> {
//@@ fn ReadyBuffer::new
//@@ spec: ensures r.heap@ == Multiset::<It>::empty()
//@@ end
//@@ fn ReadyBuffer::push
//@@ spec: ensures final(self).heap@ == old(self).heap@.insert(ItemWithReadyKey { key, item })
//@@ end
//@@ fn ReadyBuffer::peek_max_item
//@@ closures: map
//@@ spec: ensures match r { Some((k, v)) => first(self.heap@, ItemWithReadyKey { key: k, item: *v }), None => self.heap@ == Multiset::<It>::empty() }
//@@ end
//@@ fn ReadyBuffer::has_item
//@@ spec: ensures r == (exists|x: It| #[trigger] self.heap@.contains(x) && x.key <= *current_key)
//@@ end
//@@ fn ReadyBuffer::peek_item
//@@ spec: ensures match r { Some((k, v)) => k <= *current_key && first(self.heap@, ItemWithReadyKey { key: k, item: *v }), None => forall|x: It| #[trigger] self.heap@.contains(x) ==> x.key > *current_key }
//@@ end
//@@ fn ReadyBuffer::pop_item
//@@ spec:
//@@ | // an item is released only when its key is reached, the lowest key first, and only once
//@@ | ensures match r {
//@@ |   Some(p) => p.0 <= *current_key && first(old(self).heap@, item(p)) && final(self).heap@ == old(self).heap@.remove(item(p)),
//@@ |   None => (forall|x: It| #[trigger] old(self).heap@.contains(x) ==> x.key > *current_key) && final(self).heap@ == old(self).heap@ }
//@@ end
//@@ fn ReadyBuffer::pop_until
//@@ rename: let mut val = None => let mut val: Option<(u64, Val)> = None
//@@ closures: map
//@@ spec:
//@@ | // everything up to the key is dropped, the latest of it is the answer
//@@ | ensures final(self).heap@ == later(old(self).heap@, *key),
//@@ |   match r { Some(p) => p.0 <= *key && old(self).heap@.contains(item(p)) && (forall|x: It| #[trigger] old(self).heap@.contains(x) && x.key <= *key ==> x.key <= p.0),
//@@ |     None => forall|x: It| #[trigger] old(self).heap@.contains(x) ==> x.key > *key }
//@@ start: let ghost o = self.heap@; proof { assert(o == Multiset::<It>::empty() ==> later(o, *key) =~= o); }
//@@ loop 0:
//@@ | invariant o == old(self).heap@, self.heap@.subset_of(o), later(self.heap@, *key) == later(o, *key),
//@@ |   match val { Some(p) => p.0 <= *key && o.contains(item(p)) && (forall|x: It| #[trigger] o.contains(x) && o.count(x) > self.heap@.count(x) ==> x.key <= p.0) && (forall|x: It| #[trigger] self.heap@.contains(x) ==> x.key >= p.0),
//@@ |     None => self.heap@ == o },
//@@ | ensures forall|x: It| #[trigger] self.heap@.contains(x) ==> x.key > *key,
//@@ | decreases self.heap@.len()
//@@ loopbody 0: let ghost m0 = self.heap@; let ghost v0 = val;
//@@ loopend 0: proof { let x = item(val->Some_0); assert(self.heap@ == m0.remove(x)); assert(later(self.heap@, *key) =~= later(m0, *key)); assert(self.heap@.len() < m0.len()); assert forall|y: It| #[trigger] o.contains(y) && o.count(y) > self.heap@.count(y) implies y.key <= x.key by { if y != x { assert(m0.count(y) == self.heap@.count(y)); } } assert forall|y: It| #[trigger] self.heap@.contains(y) implies y.key >= x.key by { assert(m0.contains(y)); } }
//@@ afterloop 0: proof { all_later(self.heap@, *key); }
//@@ end
//@@ fn ReadyBuffer::drain_until
//@@ rename: let mut val = Vec :: new ( ) => let mut val: Vec<(u64, Val)> = Vec::new()
//@@ closures: map
//@@ spec:
//@@ | ensures final(self).heap@ == later(old(self).heap@, *key), bag(r@) == due(old(self).heap@, *key), sorted(r@)
//@@ start: let ghost o = self.heap@; proof { bag_empty(); assert(o == Multiset::<It>::empty() ==> later(o, *key) =~= o && due(o, *key) =~= o); }
//@@ loop 0:
//@@ | invariant o == old(self).heap@, later(self.heap@, *key) == later(o, *key), due(self.heap@, *key).add(bag(val@)) == due(o, *key), sorted(val@),
//@@ |   forall|x: It, i: int| #[trigger] self.heap@.contains(x) && 0 <= i < val@.len() ==> (#[trigger] val@[i]).0 <= x.key,
//@@ | ensures forall|x: It| #[trigger] self.heap@.contains(x) ==> x.key > *key,
//@@ | decreases self.heap@.len()
//@@ before "while|loop": proof { assert(due(self.heap@, *key).add(bag(val@)) =~= due(o, *key)); }
//@@ loopbody 0: let ghost m0 = self.heap@; let ghost v0 = val@;
//@@ loopend 0: proof { let p = val@.last(); let x = item(p); assert(val@ == v0.push(p)); bag_push(v0, p); assert(self.heap@ == m0.remove(x)); assert(m0.contains(x)); assert(later(self.heap@, *key) =~= later(m0, *key)); assert(due(self.heap@, *key).add(bag(val@)) =~= due(m0, *key).add(bag(v0))); assert(self.heap@.len() < m0.len());
//@@ |   assert forall|y: It, i: int| #[trigger] self.heap@.contains(y) && 0 <= i < val@.len() implies (#[trigger] val@[i]).0 <= y.key by { assert(m0.contains(y)); if i < v0.len() { assert(v0[i] == val@[i]); } }
//@@ |   assert forall|i: int, j: int| 0 <= i < j < val@.len() implies (#[trigger] val@[i]).0 <= (#[trigger] val@[j]).0 by { assert(v0[i] == val@[i]); if j < v0.len() { assert(v0[j] == val@[j]); } } }
//@@ afterloop 0: proof { all_later(self.heap@, *key); assert(due(self.heap@, *key) =~= Multiset::<It>::empty()); assert(bag(val@) =~= due(o, *key)); }
//@@ end
//@@ closure ReadyBuffer::drain_after map
//@@ sig: fn vx_pair($0: It) -> (u64, Val)
//@@ spec: ensures r == pair(item)
//@@ end
//@@ closure ReadyBuffer::drain_after for_each
//@@ sig: fn vx_put_back(&mut self, $0: It)
//@@ spec: ensures final(self).heap@ == old(self).heap@.insert(item)
//@@ end
    /// Iterator::map over a list, collected
    fn vx_map_pair(v: Vec<It>) -> (r: Vec<(u64, Val)>)
        ensures bag(r@) == v@.to_multiset(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == pair(v@[i]), r@.len() == v@.len()
    {
        proof { mset_empty(); }
        let mut v = v;
        let ghost v0 = v@;
        let mut out: Vec<(u64, Val)> = Vec::new();
        let ghost mut n: int = 0;
        proof { bag_empty(); assert(v0.take(0) =~= Seq::<It>::empty()); assert(v0.skip(0) =~= v0); assert(Seq::<It>::empty().to_multiset() =~= Multiset::<It>::empty()); }
        while v.len() > 0
            invariant 0 <= n, n + v@.len() == v0.len(), v@ == v0.skip(n), out@.len() == n, bag(out@) == v0.take(n).to_multiset(), forall|i: int| 0 <= i < out@.len() ==> #[trigger] out@[i] == pair(v0[i])
            decreases v@.len()
        {
            let ghost before = v@;
            let x = v.remove(0);
            let ghost o0 = out@;
            let y = Self::vx_pair(x);
            out.push(y);
            proof { assert(x == v0[n]); bag_push(o0, y); assert(item(pair(x)) == x); assert(v0.take(n + 1) =~= v0.take(n).push(x)); mset_push(v0.take(n), x); assert(v@ =~= v0.skip(n + 1)); assert(bag(out@) =~= v0.take(n + 1).to_multiset()); }
            proof { n = n + 1; }
        }
        proof { assert(v0.take(n) =~= v0); }
        out
    }
    /// Iterator::for_each over a list
    fn vx_put_all(&mut self, v: Vec<It>)
        ensures final(self).heap@ == old(self).heap@.add(v@.to_multiset())
    {
        proof { mset_empty(); }
        let mut v = v;
        let ghost v0 = v@;
        let ghost h0 = self.heap@;
        let ghost mut n: int = 0;
        proof { assert(v0.take(0) =~= Seq::<It>::empty()); assert(v0.skip(0) =~= v0); assert(Seq::<It>::empty().to_multiset() =~= Multiset::<It>::empty()); assert(h0.add(Multiset::<It>::empty()) =~= h0); }
        while v.len() > 0
            invariant 0 <= n, n + v@.len() == v0.len(), v@ == v0.skip(n), self.heap@ == h0.add(v0.take(n).to_multiset())
            decreases v@.len()
        {
            let ghost v1 = v@;
            let x = v.remove(0);
            self.vx_put_back(x);
            proof { assert(x == v1[0]); assert(x == v0[n]); assert(v0.take(n + 1) =~= v0.take(n).push(x)); mset_push(v0.take(n), x); assert(v@ =~= v0.skip(n + 1)); assert(self.heap@ =~= h0.add(v0.take(n + 1).to_multiset())); }
            proof { n = n + 1; }
        }
        proof { assert(v0.take(n) =~= v0); }
    }
//@@ fn ReadyBuffer::drain_after
//@@ hoist: map => Self::vx_map_pair($R)
//@@ hoist: for_each => self.vx_put_all($R)
//@@ rename: . collect :: < Vec < _ > > ( ) => ;; newer . extend ( => vx_extend(&mut newer, ;; older . into_iter ( ) => older ;; let mut older = vec ! [ ] => let mut older: Vec<It> = Vec::new() ;; let mut newer = vec ! [ ] => let mut newer: Vec<(u64, Val)> = Vec::new() ;; return vec ! [ ] => return Vec::new()
//@@ spec:
//@@ | // exactly the items from the key on are returned, exactly the older ones stay
//@@ | ensures final(self).heap@ == older(old(self).heap@, *key), bag(r@) == from(old(self).heap@, *key)
//@@ start: let ghost o = self.heap@; proof { bag_empty(); mset_empty(); assert(o == Multiset::<It>::empty() ==> older(o, *key) =~= o && from(o, *key) =~= o); }
//@@ loop 0:
//@@ | invariant_except_break newer@ == Seq::<(u64, Val)>::empty(), self.heap@.add(older@.to_multiset()) == o,
//@@ | invariant o == old(self).heap@, forall|i: int| 0 <= i < older@.len() ==> (#[trigger] older@[i]).key < *key,
//@@ | ensures forall|i: int| 0 <= i < older@.len() ==> (#[trigger] older@[i]).key < *key, self.heap@.add(older@.to_multiset()).add(bag(newer@)) == o,
//@@ |   forall|x: It| #[trigger] self.heap@.contains(x) ==> x.key >= *key, newer@.len() <= 1, newer@.len() == 1 ==> newer@[0].0 >= *key
//@@ | decreases self.heap@.len()
//@@ before "while|loop": proof { assert(self.heap@.add(older@.to_multiset()) =~= o); assert(older@ =~= Seq::<It>::empty()); }
//@@ loopbody 0: let ghost m0 = self.heap@; let ghost old0 = older@; let ghost new0 = newer@; proof { mset_empty(); bag_empty();
//@@ |   assert forall|x: It| #[trigger] m0.remove(x).add(old0.push(x).to_multiset()) == m0.add(old0.to_multiset()) || !m0.contains(x) by { mset_push(old0, x); if m0.contains(x) { assert(m0.remove(x).add(old0.push(x).to_multiset()) =~= m0.add(old0.to_multiset())); } }
//@@ |   assert forall|x: It, y: It| #[trigger] m0.remove(x).contains(y) implies m0.contains(y) by {}
//@@ |   assert forall|p: (u64, Val)| #[trigger] bag(new0.push(p)) == bag(new0).insert(item(p)) by { bag_push(new0, p); }
//@@ |   assert forall|x: It| m0.contains(x) ==> #[trigger] m0.remove(x).add(old0.to_multiset()).add(bag(new0).insert(x)) == m0.add(old0.to_multiset()) by { if m0.contains(x) { assert(m0.remove(x).add(old0.to_multiset()).add(bag(new0).insert(x)) =~= m0.add(old0.to_multiset())); } } }
//@@ afterloop 0: let ghost h1 = self.heap@; let ghost n1 = newer@; let ghost o1 = older@; proof { mset_all(o1, *key); bag_empty();
//@@ |   if n1.len() == 0 { assert(n1 =~= Seq::<(u64, Val)>::empty()); } else { let p = n1[0]; assert(n1 =~= Seq::<(u64, Val)>::empty().push(p)); bag_push(Seq::<(u64, Val)>::empty(), p); }
//@@ |   assert forall|x: It| #[trigger] h1.add(bag(n1)).contains(x) implies x.key >= *key by { if h1.count(x) > 0 { assert(h1.contains(x)); } }
//@@ |   assert(o1.to_multiset().add(h1.add(bag(n1))) =~= o); split(o, o1.to_multiset(), h1.add(bag(n1)), *key);
//@@ |   assert forall|w: Seq<(u64, Val)>| bag(w) == h1 implies #[trigger] bag(n1 + w) == from(o, *key) by { bag_append(n1, w); assert(bag(n1).add(h1) =~= h1.add(bag(n1))); }
//@@ |   assert(Multiset::<It>::empty().add(o1.to_multiset()) =~= o1.to_multiset()); }
//@@ end
//@@ fn ReadyBuffer::len
//@@ spec: ensures r == self.heap@.len()
//@@ end
//@@ fn ReadyBuffer::is_empty
//@@ spec: ensures r == (self.heap@ == Multiset::<It>::empty())
//@@ end
//@@ fn ReadyBuffer::clear
//@@ spec: ensures final(self).heap@ == Multiset::<It>::empty()
//@@ end
}
// ---------------------------------------------------------------- sequence buffer
pub struct PingId(pub u16);
//@@ include seqbuf.inc
// ---------------------------------------------------------------- free list
//@@ source crates/core/utils/src/free_list.rs
//@@ item struct FreeList
/// number of occupied slots
pub open spec fn occupied<T>(s: Seq<Option<T>>) -> int decreases s.len() { if s.len() == 0 { 0 } else { occupied(s.drop_last()) + (if s.last() is Some { 1int } else { 0 }) } }
pub proof fn occupied_update<T>(s: Seq<Option<T>>, i: int, v: Option<T>)
    requires 0 <= i < s.len()
    ensures occupied(s.update(i, v)) == occupied(s) - (if s[i] is Some { 1int } else { 0 }) + (if v is Some { 1int } else { 0 })
    decreases s.len()
{
    let u = s.update(i, v);
    if i == s.len() - 1 { assert(u.drop_last() =~= s.drop_last()); } else { occupied_update(s.drop_last(), i, v); assert(u.drop_last() =~= s.drop_last().update(i, v)); }
}
pub proof fn occupied_none<T>(s: Seq<Option<T>>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is None
    ensures occupied(s) == 0 decreases s.len()
{ if s.len() > 0 { occupied_none(s.drop_last()); } }
pub proof fn occupied_full<T>(s: Seq<Option<T>>)
    ensures 0 <= occupied(s) <= s.len(), occupied(s) == s.len() ==> forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is Some,
        (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is Some) ==> occupied(s) == s.len(),
        (exists|i: int| 0 <= i < s.len() && #[trigger] s[i] is Some) ==> occupied(s) > 0
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        occupied_full(d);
        if occupied(s) == s.len() { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] is Some by { if i < d.len() { assert(d[i] is Some); } } }
        if forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is Some { assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] is Some by { assert(s[i] is Some); } }
        if exists|i: int| 0 <= i < s.len() && #[trigger] s[i] is Some { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] is Some; if i < d.len() { assert(d[i] is Some); } }
    }
}
impl<T: Copy, const N: usize> FreeList<T, N> {
//@@ fn FreeList::new
//@@ rename: [ None ; N ] => vx_none_array()
//@@ spec: ensures r.wf(), forall|i: int| 0 <= i < N ==> #[trigger] r.inner@[i] is None
//@@ start: proof { assert forall|s: Seq<Option<T>>| (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is None) implies #[trigger] occupied(s) == 0 by { occupied_none(s); } }
//@@ end
}
impl<T, const N: usize> FreeList<T, N> {
    /// the recorded length is the number of occupied slots
    pub open spec fn wf(&self) -> bool { self.len == occupied(self.inner@) }
//@@ closure FreeList::insert position
//@@ sig: fn vx_is_free($0: &Option<T>) -> bool
//@@ spec: ensures r == (*x is None)
//@@ end
    /// Iterator::position over the slots: the first one the closure accepts
    fn vx_position(s: &[Option<T>; N]) -> (r: Option<usize>)
        ensures match r { Some(i) => i < N && s@[i as int] is None && forall|j: int| 0 <= j < i ==> #[trigger] s@[j] is Some, None => forall|j: int| 0 <= j < N ==> #[trigger] s@[j] is Some }
    {
        let mut i: usize = 0;
        while i < N
            invariant i <= N, forall|j: int| 0 <= j < i ==> #[trigger] s@[j] is Some
            decreases N - i
        {
            if Self::vx_is_free(&s[i]) { return Some(i); }
            i += 1;
        }
        None
    }
//@@ fn FreeList::len
//@@ spec: requires self.wf() ensures r == occupied(self.inner@)
//@@ end
//@@ fn FreeList::insert
//@@ hoist: position over self.inner.iter() => Self::vx_position(&self.inner)
//@@ spec:
//@@ | // the first free slot is taken, every other slot is as it was
//@@ | requires old(self).wf(), exists|i: int| 0 <= i < N && old(self).inner@[i] is None
//@@ | ensures final(self).wf(), r < N, old(self).inner@[r as int] is None, forall|j: int| 0 <= j < r ==> #[trigger] old(self).inner@[j] is Some, final(self).inner@ == old(self).inner@.update(r as int, Some(value))
//@@ start: proof { let s = self.inner@; occupied_full(s); assert forall|i: int| 0 <= i < N implies #[trigger] occupied(s.update(i, Some(value))) == occupied(s) - (if s[i] is Some { 1int } else { 0 }) + 1 by { occupied_update(s, i, Some(value)); } }
//@@ end
//@@ fn FreeList::remove
//@@ spec:
//@@ | requires old(self).wf(), index < N
//@@ | ensures final(self).wf(), final(self).inner@ == old(self).inner@.update(index as int, None)
//@@ start: proof { occupied_full(self.inner@); occupied_update(self.inner@, index as int, None); }
//@@ end
//@@ fn FreeList::get
//@@ spec: ensures match r { Some(x) => index < N && self.inner@[index as int] == Some(*x), None => index < N ==> self.inner@[index as int] is None }
//@@ closures: and_then
//@@ end
//@@ fn FreeList::get_mut
//@@ closures: and_then
//@@ spec: ensures match r { Some(x) => index < N && old(self).inner@[index as int] == Some(*x) && final(self).inner@ == old(self).inner@.update(index as int, Some(*final(x))), None => (index < N ==> old(self).inner@[index as int] is None) && final(self).inner@ == old(self).inner@ }
//@@ end
}
impl<T: Copy, const N: usize> FreeList<T, N> {
//@@ fn FreeList::iter
//@@ spec: ensures r.index == 0, r.free_list == self
//@@ end
}
/// positions before `to` yielded from `from` on are exactly the occupied ones
//@@ item struct FreeListIter
impl<'a, T: Copy, const N: usize> FreeListIter<'a, T, N> {
//@@ fn Iterator for FreeListIter::next
//@@ rename: Self :: Item => (usize, T)
//@@ spec:
//@@ | // the next occupied slot: nothing occupied is skipped, nothing is yielded twice
//@@ | ensures final(self).free_list == old(self).free_list, old(self).index <= N ==> final(self).index <= N,
//@@ |   match r { Some(p) => old(self).index <= p.0 < N && final(self).index == p.0 + 1 && old(self).free_list.inner@[p.0 as int] == Some(p.1) && (forall|j: int| old(self).index <= j < p.0 ==> #[trigger] old(self).free_list.inner@[j] is None),
//@@ |     None => forall|j: int| old(self).index <= j < N ==> #[trigger] old(self).free_list.inner@[j] is None }
//@@ loop 0:
//@@ | invariant self.free_list == old(self).free_list, old(self).index <= self.index, old(self).index <= N ==> self.index <= N, forall|j: int| old(self).index <= j < self.index && j < N ==> #[trigger] old(self).free_list.inner@[j] is None
//@@ | decreases N - self.index
//@@ end
}
} // verus!
fn main() {}

// V10: targets denote sets of recipients (C23).  Real code: crates/connection/connection/src/network_target.rs
use vstd::prelude::*;
verus! {
//@@ include maps.inc
/// a peer: only equality matters (instantiated with 64-bit numbers)
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct PeerId(pub u64);
type T = PeerId;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Entity(pub u64);
impl Entity { pub const PLACEHOLDER: Entity = Entity(u64::MAX); }
// ---------------------------------------------------------------- containers and iterators
/// SmallVec (and slices of it)
pub struct TargetList<X> { pub v: Vec<X> }
impl<X> View for TargetList<X> { type V = Seq<X>; open spec fn view(&self) -> Seq<X> { self.v@ } }
/// an iterator, as the sequence it still yields
pub struct It<X> { pub v: Vec<X> }
impl<X> View for It<X> { type V = Seq<X>; open spec fn view(&self) -> Seq<X> { self.v@ } }
/// what can be iterated over
pub trait Source<X>: Sized {
    spec fn items(self) -> Seq<X>;
    fn into_iter(self) -> (r: It<X>) ensures r@ == self.items();
}
impl<X> Source<X> for It<X> { open spec fn items(self) -> Seq<X> { self@ } fn into_iter(self) -> (r: It<X>) { self } }
impl<'a, X: Copy> Source<X> for It<&'a X> { open spec fn items(self) -> Seq<X> { deref(self@) } fn into_iter(self) -> (r: It<X>) { self.copied() } }
impl<X> Source<X> for TargetList<X> { open spec fn items(self) -> Seq<X> { self@ } fn into_iter(self) -> (r: It<X>) { It { v: self.v } } }
impl<X> Source<X> for [X; 2] { open spec fn items(self) -> Seq<X> { two(self@[0], self@[1]) } #[verifier::external_body] fn into_iter(self) -> (r: It<X>) { unimplemented!() } }
pub open spec fn deref<'a, X>(s: Seq<&'a X>) -> Seq<X> { s.map_values(|x: &'a X| *x) }
impl<'a, X: Copy> It<&'a X> {
    #[verifier::external_body]
    pub fn copied(self) -> (r: It<X>) ensures r@ == deref(self@) { unimplemented!() }
}
pub open spec fn hits<X>(s: Seq<Option<X>>, y: X) -> bool { s.contains(Some(y)) }
impl<X> It<X> {
    #[verifier::external_body]
    pub fn map<Y, F: Fn(X) -> Y>(self, f: F) -> (r: It<Y>)
        requires forall|x: X| #![auto] call_requires(f, (x,))
        ensures r@.len() == self@.len(), forall|i: int| #![auto] 0 <= i < r@.len() ==> call_ensures(f, (self@[i],), r@[i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_map<Y, F: Fn(X) -> Option<Y>>(self, f: F) -> (r: It<Y>)
        requires forall|x: X| #![auto] call_requires(f, (x,))
        ensures exists|g: Seq<Option<Y>>| g.len() == self@.len() && (forall|i: int| #![auto] 0 <= i < g.len() ==> call_ensures(f, (self@[i],), g[i])) && forall|y: Y| #[trigger] r@.contains(y) <==> hits(g, y) { unimplemented!() }
    /// filter(|id| id != x)
    #[verifier::external_body]
    pub fn vx_without(self, x: X) -> (r: It<X>) ensures forall|p: X| #[trigger] r@.contains(p) <==> self@.contains(p) && p != x { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_collect(self) -> (r: TargetList<X>) ensures r@ == self@ { unimplemented!() }
    /// func called on each element, in order
    #[verifier::external_body]
    pub fn vx_each(self, log: &mut Vec<X>) ensures final(log)@ == old(log)@ + self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<X>)
        ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn size_hint(&self) -> (usize, Option<usize>) { unimplemented!() }
    #[verifier::external_body]
    pub fn chain(self, o: It<X>) -> (r: It<X>) ensures r@ == self@ + o@ { unimplemented!() }
    /// the elements the closure accepts, in order
    #[verifier::external_body]
    pub fn filter<F: Fn(&X) -> bool>(self, f: F) -> (r: It<X>)
        requires forall|x: X| #![auto] call_requires(f, (&x,))
        ensures exists|keep: Set<X>| #![auto] r@ == sel(self@, keep) && forall|x: X| #![auto] self@.contains(x) ==> call_ensures(f, (&x,), keep.contains(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn find<F: Fn(&X) -> bool>(self, f: F) -> (r: Option<X>)
        requires forall|x: X| #![auto] call_requires(f, (&x,))
        ensures match r { Some(x) => self@.contains(x) && call_ensures(f, (&x,), true), None => forall|x: X| #![auto] self@.contains(x) ==> call_ensures(f, (&x,), false) } { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_once<X>(x: X) -> (r: It<X>) ensures r@ == one(x) { unimplemented!() }
impl<X> TargetList<X> {
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<X>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: It<&X>) ensures deref(r@) == self@ { unimplemented!() }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    pub fn push(&mut self, x: X) ensures final(self)@ == old(self)@.push(x) { self.v.push(x) }
    pub fn pop(&mut self) -> (r: Option<X>)
        ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@.last() && final(self)@ == old(self)@.drop_last(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { self.v.pop() }
    pub fn remove(&mut self, i: usize) -> (r: X) requires i < old(self)@.len() ensures r == old(self)@[i as int], final(self)@ == old(self)@.remove(i as int) { self.v.remove(i) }
    pub open spec fn vx_contains(&self, x: &X) -> bool { self@.contains(*x) }
    #[verifier::external_body]
    #[verifier::when_used_as_spec(vx_contains)]
    pub fn contains(&self, x: &X) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_prefix_contains(&self, n: usize) -> (r: bool) requires n < self@.len() ensures r == self@.take(n as int).contains(self@[n as int]) { unimplemented!() }
    #[verifier::external_body]
    pub fn extend<S: Source<X>>(&mut self, s: S) ensures final(self)@ == old(self)@ + s.items() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    pub fn from_vec(v: Vec<X>) -> (r: Self) ensures r@ == v@ { TargetList { v } }
    #[verifier::external_body]
    pub fn vx_pair(a: X, b: X) -> (r: Self) ensures r@ == two(a, b) { unimplemented!() }
    /// the elements the closure accepts, in order
    #[verifier::external_body]
    pub fn retain<F: Fn(&X) -> bool>(&mut self, f: F)
        requires forall|x: X| #![auto] call_requires(f, (&x,))
        ensures exists|keep: Set<X>| #![auto] final(self)@ == sel(old(self)@, keep) && forall|x: X| #![auto] old(self)@.contains(x) ==> call_ensures(f, (&x,), keep.contains(x)) { unimplemented!() }
}
impl HashMap<PeerId, Entity> {
    pub open spec fn spec_vx_get(&self, k: &PeerId) -> Option<Entity> { if self@.dom().contains(*k) { Some(self@[*k]) } else { None } }
    pub open spec fn spec_or_nobody(&self, k: &PeerId) -> Entity { if self@.dom().contains(*k) { self@[*k] } else { Entity::PLACEHOLDER } }
    /// the entity, or the placeholder
    #[verifier::when_used_as_spec(spec_or_nobody)]
    pub fn vx_or_nobody(&self, k: &PeerId) -> (r: Entity) ensures r == self.spec_or_nobody(k) { match self.get(k) { Some(e) => *e, None => Entity::PLACEHOLDER } }
    /// get, copied
    #[verifier::when_used_as_spec(spec_vx_get)]
    pub fn vx_get(&self, k: &PeerId) -> (r: Option<Entity>) ensures r == self.spec_vx_get(k) { match self.get(k) { Some(e) => Some(*e), None => None } }
}
impl<X> HashSet<X> {
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Set::<X>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Set::<X>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn extend<S: Source<X>>(&mut self, s: S) ensures final(self)@ == old(self)@.union(s.items().to_set()) { unimplemented!() }
}
pub open spec fn sel<X>(s: Seq<X>, keep: Set<X>) -> Seq<X> { s.filter(|x: X| keep.contains(x)) }
pub proof fn sel_sees<X>(s: Seq<X>, keep: Set<X>)
    ensures forall|x: X| #[trigger] sel(s, keep).contains(x) <==> s.contains(x) && keep.contains(x), sel(s, keep).len() <= s.len(), s.no_duplicates() ==> sel(s, keep).no_duplicates()
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        sel_sees(d, keep);
        assert forall|x: X| s.contains(x) <==> d.contains(x) || x == s.last() by { if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < d.len() { assert(d[i] == x); } } if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(s[i] == x); } assert(s[s.len() - 1] == s.last()); }
        let f = sel(d, keep);
        if keep.contains(s.last()) {
            assert(sel(s, keep) == f.push(s.last()));
            assert forall|x: X| f.push(s.last()).contains(x) <==> f.contains(x) || x == s.last() by { if f.contains(x) { let i = choose|i: int| 0 <= i < f.len() && f[i] == x; assert(f.push(s.last())[i] == x); } assert(f.push(s.last())[f.len() as int] == s.last()); }
            if s.no_duplicates() { assert(d.no_duplicates()); assert(!d.contains(s.last())); assert(!f.contains(s.last())); }
        } else { assert(sel(s, keep) == f); if s.no_duplicates() { assert(d.no_duplicates()); } }
        assert forall|x: X| #[trigger] sel(s, keep).contains(x) <==> s.contains(x) && keep.contains(x) by {
            assert(f.contains(x) <==> d.contains(x) && keep.contains(x)); assert(s.contains(x) <==> d.contains(x) || x == s.last()); }
    }
}
/// removing an element that occurs before changes no membership
pub proof fn drop_dup<X>(s: Seq<X>, i: int)
    requires 0 <= i < s.len()
    ensures s.take(i).contains(s[i]) ==> s.remove(i).to_set() == s.to_set()
{
    if s.take(i).contains(s[i]) {
        let k = choose|k: int| 0 <= k < i && s.take(i)[k] == s[i];
        assert(s[k] == s[i] && s.remove(i)[k] == s[i]);
        assert forall|x: X| s.remove(i).contains(x) <==> s.contains(x) by {
            if s.contains(x) { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; if j < i { assert(s.remove(i)[j] == x); } else if j > i { assert(s.remove(i)[j - 1] == x); } else { assert(s.remove(i)[k] == x); } }
            if s.remove(i).contains(x) { let j = choose|j: int| 0 <= j < s.remove(i).len() && s.remove(i)[j] == x; if j < i { assert(s[j] == x); } else { assert(s[j + 1] == x); } }
        }
        assert(s.remove(i).to_set() =~= s.to_set());
    }
}
/// what a target denotes
impl Target<T> {
    pub open spec fn den(self, p: T) -> bool {
        match self { Target::None => false, Target::All => true, Target::Single(x) => p == x, Target::AllExceptSingle(x) => p != x, Target::Only(l) => l@.contains(p), Target::AllExcept(l) => !l@.contains(p) }
    }
    /// one of the shapes that name their members
    pub open spec fn names(self, s: Set<T>) -> bool {
        (self is None || self is Single || self is Only) && forall|p: T| #[trigger] self.den(p) <==> s.contains(p)
    }
    /// the same, with each shape spelled out
    pub open spec fn spelled(self, s: Set<T>) -> bool {
        match self { Target::None => forall|p: T| !#[trigger] s.contains(p), Target::Single(x) => forall|p: T| #[trigger] s.contains(p) <==> p == x, Target::Only(l) => (forall|p: T| #[trigger] s.contains(p) <==> l@.contains(p)) && (forall|p: T| s.contains(p) <==> #[trigger] l@.contains(p)), _ => false }
    }
    pub open spec fn names_not(self, s: Set<T>) -> bool {
        (self is All || self is AllExceptSingle || self is AllExcept) && forall|p: T| #[trigger] self.den(p) <==> !s.contains(p)
    }
    pub fn default() -> (r: Self) ensures r is None { Target::None }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub proof fn push_set<X>(s: Seq<X>, x: X)
    ensures s.push(x).to_set() == s.to_set().insert(x)
{
    assert forall|y: X| s.push(x).contains(y) <==> s.contains(y) || x == y by {
        if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); }
        assert(s.push(x)[s.len() as int] == x);
        if s.push(x).contains(y) { let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == y; if i < s.len() { assert(s[i] == y); } } }
    assert forall|y: X| s.push(x).to_set().contains(y) <==> s.to_set().insert(x).contains(y) by { assert(s.push(x).contains(y) <==> s.contains(y) || x == y); }
    assert(s.push(x).to_set() =~= s.to_set().insert(x));
}
/// membership in a sequence and in its set are the same thing
pub proof fn set_facts<X>()
    ensures forall|s: Seq<X>, y: X| #[trigger] s.contains(y) <==> s.to_set().contains(y), Seq::<X>::empty().to_set() == Set::<X>::empty()
{ assert(Seq::<X>::empty().to_set() =~= Set::<X>::empty()); }
pub proof fn facts_set<X>()
    ensures forall|s: Seq<X>, t: Set<X>, p: X| s.to_set() == t ==> (#[trigger] s.contains(p) <==> #[trigger] t.contains(p))
{
    assert forall|s: Seq<X>, t: Set<X>, p: X| s.to_set() == t implies (#[trigger] s.contains(p) <==> #[trigger] t.contains(p)) by { assert(s.to_set().contains(p) <==> s.contains(p)) by { seq_facts::<X>(); } }
}
pub fn vx_max(a: usize, b: usize) -> (r: usize) { if a < b { b } else { a } }
pub fn vx_take(t: &mut Target<T>) -> (r: Target<T>) ensures r == *old(t), *final(t) is None { let mut n = Target::None; core::mem::swap(t, &mut n); n }
pub fn vx_unreachable() -> (r: Target<T>) requires false { Target::None }
pub open spec fn one<X>(x: X) -> Seq<X> { seq![x] }
pub open spec fn two<X>(x: X, y: X) -> Seq<X> { seq![x, y] }
pub proof fn seq_facts<X>()
    ensures forall|s: Seq<X>, x: X, y: X| #[trigger] s.push(x).contains(y) <==> s.contains(y) || x == y,
        forall|s: Seq<X>, t: Seq<X>, y: X| #[trigger] (s + t).contains(y) <==> s.contains(y) || t.contains(y),
        forall|s: Seq<X>, y: X| #[trigger] s.to_set().contains(y) <==> s.contains(y),
        forall|x: X, y: X| #[trigger] one(x).contains(y) <==> x == y,
        forall|x: X, z: X, y: X| #[trigger] two(x, z).contains(y) <==> x == y || z == y,
        forall|s: Seq<X>, k: Set<X>, y: X| #[trigger] sel(s, k).contains(y) <==> s.contains(y) && k.contains(y),
        forall|s: Seq<X>, k: Set<X>| s.no_duplicates() ==> (#[trigger] sel(s, k)).no_duplicates(),
        forall|s: Seq<X>, y: X| s.len() == 0 ==> !#[trigger] s.contains(y),
        forall|s: Seq<X>, y: X| s.len() == 1 ==> (#[trigger] s.contains(y) <==> y == s[0]),
{
    assert forall|s: Seq<X>, x: X, y: X| #[trigger] s.push(x).contains(y) <==> s.contains(y) || x == y by { if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(s.push(x)[i] == y); } assert(s.push(x)[s.len() as int] == x); if s.push(x).contains(y) { let i = choose|i: int| 0 <= i < s.push(x).len() && s.push(x)[i] == y; if i < s.len() { assert(s[i] == y); } } }
    assert forall|s: Seq<X>, t: Seq<X>, y: X| #[trigger] (s + t).contains(y) <==> s.contains(y) || t.contains(y) by {
        if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert((s + t)[i] == y); }
        if t.contains(y) { let i = choose|i: int| 0 <= i < t.len() && t[i] == y; assert((s + t)[s.len() + i] == y); }
        if (s + t).contains(y) { let i = choose|i: int| 0 <= i < (s + t).len() && (s + t)[i] == y; if i < s.len() { assert(s[i] == y); } else { assert(t[i - s.len()] == y); } } }
    assert forall|x: X, y: X| #[trigger] one(x).contains(y) <==> x == y by { assert(one(x)[0] == x); }
    assert forall|x: X, z: X, y: X| #[trigger] two(x, z).contains(y) <==> x == y || z == y by { assert(two(x, z)[0] == x); assert(two(x, z)[1] == z); }
    assert forall|s: Seq<X>, k: Set<X>, y: X| #[trigger] sel(s, k).contains(y) <==> s.contains(y) && k.contains(y) by { sel_sees(s, k); }
    assert forall|s: Seq<X>, k: Set<X>| s.no_duplicates() implies (#[trigger] sel(s, k)).no_duplicates() by { sel_sees(s, k); }
    assert forall|s: Seq<X>, y: X| s.len() == 1 implies (#[trigger] s.contains(y) <==> y == s[0]) by {}
}
//@@ source crates/connection/connection/src/network_target.rs
//@@ item const INLINE_TARGET_CAPACITY
//@@ item enum Target
impl Target<T> {
//@@ fn From<TargetList<T>> for Target<T>::from
//@@ spec: ensures r.names(value@.to_set()), r.spelled(value@.to_set())
//@@ start: proof { seq_facts::<T>(); }
//@@ end
//@@ fn Target::is_empty
//@@ spec: ensures r == (self is None || (self is Only && self->Only_0@.len() == 0))
//@@ end
//@@ fn Target::targets
//@@ spec: ensures r == self.den(*client_id)
//@@ end
//@@ fn Target::insert
//@@ rename: extend ( [ * existing , client_id ] ) => extend([*existing, client_id])
//@@ pure: retain=&T
//@@ spec: ensures forall|p: T| #[trigger] final(self).den(p) <==> old(self).den(p) || p == client_id
//@@ start: proof { seq_facts::<T>(); }
//@@ end
//@@ fn Target::all_except_from_list
//@@ spec: ensures r.names_not(client_ids@.to_set())
//@@ start: proof { seq_facts::<T>(); }
//@@ end
//@@ fn Target::deduplicate
//@@ hoist: retain over client_ids => Self::vx_retain_dedup(client_ids, &mut seen)
//@@ rename: client_ids [ .. index ] . contains ( & client_ids [ index ] ) => client_ids.vx_prefix_contains(index) ;; & mut TargetList < T > => &mut TargetList<T> ;; HashSet :: with_capacity => HashSet::<T>::with_capacity
//@@ spec:
//@@ | ensures final(client_ids)@.no_duplicates(), final(client_ids)@.to_set() == old(client_ids)@.to_set(), final(client_ids)@.len() <= old(client_ids)@.len(), forall|p: T| #[trigger] final(client_ids)@.contains(p) <==> old(client_ids)@.contains(p), forall|p: T| final(client_ids)@.contains(p) <==> #[trigger] old(client_ids)@.contains(p)
//@@ start: let ghost o = client_ids@; proof { seq_facts::<T>(); set_facts::<T>(); }
//@@ loop 0:
//@@ | invariant 1 <= index, client_ids@.to_set() == o.to_set(), client_ids@.len() <= o.len(), forall|i: int, j: int| 0 <= i < j < index && j < client_ids@.len() ==> client_ids@[i] != client_ids@[j]
//@@ | decreases client_ids@.len() - index
//@@ loopbody 0: proof { seq_facts::<T>(); set_facts::<T>(); drop_dup(client_ids@, index as int); if !client_ids@.take(index as int).contains(client_ids@[index as int]) { assert forall|i: int| 0 <= i < index implies client_ids@[i] != client_ids@[index as int] by { assert(client_ids@.take(index as int)[i] == client_ids@[i]); } } }
//@@ end
//@@ include retseen.inc KEEP=>vx_keep_dedup RETAIN=>vx_retain_dedup NTH=>0 METHOD=>deduplicate SETVAR=>seen
//@@ fn Target::only_unique
//@@ rename: impl IntoIterator < Item = T > => impl Source<T>
//@@ spec: ensures r.names(client_ids.items().to_set()), r.spelled(client_ids.items().to_set())
//@@ start: let ghost all = client_ids.items(); proof { seq_facts::<T>(); }
//@@ after "client_ids ?. ?extend ?\( ?iter ?\)": proof { assert(client_ids@ =~= all); }
//@@ end
//@@ fn Target::all_except_unique
//@@ rename: impl IntoIterator < Item = T > => impl Source<T> ;; unreachable ! ( "only_unique only constructs inclusive targets" ) => vx_unreachable()
//@@ spec: ensures r.names_not(client_ids.items().to_set())
//@@ start: let ghost all = client_ids.items().to_set(); proof { seq_facts::<T>(); }
//@@ end
//@@ fn Target::normalize
//@@ rename: core :: mem :: take ( self ) => vx_take(self)
//@@ spec: ensures forall|p: T| #[trigger] final(self).den(p) <==> old(self).den(p)
//@@ start: proof { seq_facts::<T>(); assert forall|s: Seq<T>, t: Seq<T>, p: T| s.to_set() == t.to_set() implies (#[trigger] s.contains(p) <==> #[trigger] t.contains(p)) by { assert(s.to_set().contains(p) <==> t.to_set().contains(p)); } }
//@@ end
//@@ fn Target::compact
//@@ rename: core :: mem :: take ( self ) => vx_take(self)
//@@ spec: ensures forall|p: T| #[trigger] final(self).den(p) <==> old(self).den(p)
//@@ start: proof { seq_facts::<T>(); }
//@@ end
//@@ include retseen.inc KEEP=>vx_keep_append RETAIN=>vx_retain_append NTH=>0 METHOD=>append_unique SETVAR=>seen
//@@ fn Target::append_unique
//@@ hoist: retain over client_ids => Self::vx_retain_append(client_ids, &mut seen)
//@@ rename: & [ T ] => &TargetList<T> ;; in extra => in extra.v.iter() ;; HashSet :: with_capacity => HashSet::<T>::with_capacity
//@@ spec: ensures forall|p: T| #[trigger] final(client_ids)@.contains(p) <==> old(client_ids)@.contains(p) || extra@.contains(p)
//@@ start: let ghost o = client_ids@; proof { assert(extra@.take(0) =~= Seq::<T>::empty()); assert(extra@.take(extra@.len() as int) =~= extra@); set_facts::<T>(); }
//@@ iter 0: vx_it
//@@ loop 0:
//@@ | invariant vx_it.seq() == extra@.map_values(|x: T| &x), client_ids@.to_set() == o.to_set().union(extra@.take(vx_it.index() as int).to_set())
//@@ loopbody 0: proof { let n = vx_it.index() as int; assert(extra@.take(n + 1) =~= extra@.take(n).push(extra@[n])); push_set(extra@.take(n), extra@[n]); push_set(client_ids@, extra@[n]); set_facts::<T>(); }
//@@ iter 1: vx_it
//@@ loop 1:
//@@ | invariant vx_it.seq() == extra@.map_values(|x: T| &x), seen@ == o.to_set().union(extra@.take(vx_it.index() as int).to_set()), client_ids@.to_set() == seen@
//@@ loopbody 1: proof { let n = vx_it.index() as int; assert(extra@.take(n + 1) =~= extra@.take(n).push(extra@[n])); push_set(extra@.take(n), extra@[n]); push_set(client_ids@, extra@[n]); }
//@@ end
//@@ closure Target::retain_membership retain#1
//@@ sig: fn vx_take_member($0: &T, remaining: &mut HashSet<T>) -> bool
//@@ spec: ensures r == old(remaining)@.contains(*$0), final(remaining)@ == old(remaining)@.remove(*$0)
//@@ end
    /// retain with that closure: the elements of the set, each once
    fn vx_retain_taking(client_ids: &mut TargetList<T>, s: &mut HashSet<T>)
        ensures final(client_ids)@.no_duplicates(), final(client_ids)@.to_set() == old(client_ids)@.to_set().intersect(old(s)@), forall|p: T| #[trigger] final(client_ids)@.contains(p) <==> old(client_ids)@.contains(p) && old(s)@.contains(p)
    {
        let ghost o = client_ids@;
        let ghost s0 = s@;
        let mut out: Vec<T> = Vec::new();
        let mut i: usize = 0;
        proof { assert(o.take(0) =~= Seq::<T>::empty()); assert(out@.to_set() =~= o.take(0).to_set().intersect(s0)); assert(s@ =~= s0.difference(o.take(0).to_set())); }
        while i < client_ids.v.len()
            invariant i <= client_ids@.len(), client_ids@ == o, out@.no_duplicates(), out@.to_set() == o.take(i as int).to_set().intersect(s0), s@ == s0.difference(o.take(i as int).to_set())
            decreases client_ids@.len() - i
        {
            let x = client_ids.v[i];
            let ghost out0 = out@;
            let ghost t0 = o.take(i as int);
            if Self::vx_take_member(&x, s) { out.push(x); }
            i += 1;
            proof {
                assert(o.take(i as int) =~= t0.push(x));
                push_set(t0, x);
                push_set(out0, x);
                assert(out0.to_set().contains(x) <==> out0.contains(x));
                assert(out@.to_set() =~= o.take(i as int).to_set().intersect(s0));
                assert(s@ =~= s0.difference(o.take(i as int).to_set()));
            }
        }
        client_ids.v = out;
        proof { assert(o.take(o.len() as int) =~= o); assert forall|p: T| #[trigger] client_ids@.contains(p) <==> o.contains(p) && s0.contains(p) by { assert(client_ids@.to_set().contains(p) <==> o.to_set().contains(p) && s0.contains(p)); } }
    }
//@@ include retseen.inc KEEP=>vx_keep_member RETAIN=>vx_retain_member NTH=>2 METHOD=>retain_membership SETVAR=>excluded_or_seen
//@@ fn Target::retain_membership
//@@ hoist: retain#2 over client_ids => Self::vx_retain_member(client_ids, &mut excluded_or_seen)
//@@ hoist: retain#1 over client_ids => Self::vx_retain_taking(client_ids, &mut remaining)
//@@ pure: retain=&T
//@@ rename: & [ T ] => &TargetList<T> ;; HashSet :: with_capacity => HashSet::<T>::with_capacity
//@@ spec: ensures forall|p: T| #[trigger] final(client_ids)@.contains(p) <==> old(client_ids)@.contains(p) && other@.contains(p) == keep_present
//@@ start: let ghost o = client_ids@; proof { seq_facts::<T>(); facts_set::<T>(); }
//@@ end
//@@ closure Target::only_difference filter#1
//@@ sig: fn vx_keep_diff($0: &T, excluded_or_seen: &mut HashSet<T>) -> bool
//@@ spec: ensures r == !old(excluded_or_seen)@.contains(*$0), final(excluded_or_seen)@ == old(excluded_or_seen)@.insert(*$0)
//@@ end
//@@ include retseen0.inc KEEP0=>vx_keep_diff RETAIN0=>vx_retain_diff
    /// filter with that closure, over copies of the elements
    fn vx_filter_diff(l: &TargetList<T>, s: &mut HashSet<T>) -> (r: It<T>)
        ensures r@.no_duplicates(), r@.to_set() == l@.to_set().difference(old(s)@), forall|p: T| #[trigger] r@.contains(p) <==> l@.contains(p) && !old(s)@.contains(p)
    {
        let mut l = l.clone();
        Self::vx_retain_diff(&mut l, s);
        It { v: l.v }
    }
//@@ fn Target::only_difference
//@@ hoist: filter#1 over left . iter ( ) . copied ( ) => Self::vx_filter_diff(left, &mut excluded_or_seen)
//@@ pure: filter=&T
//@@ rename: & [ T ] => &TargetList<T> ;; HashSet :: with_capacity => HashSet::<T>::with_capacity
//@@ spec: ensures forall|p: T| #[trigger] r.den(p) <==> left@.contains(p) && !right@.contains(p), r.spelled(left@.to_set().difference(right@.to_set()))
//@@ start: let ghost dif = left@.to_set().difference(right@.to_set()); proof { seq_facts::<T>(); facts_set::<T>(); assert forall|s: Seq<T>| (forall|p: T| s.contains(p) <==> left@.contains(p) && !right@.contains(p)) implies #[trigger] s.to_set() == dif by { assert forall|p: T| s.to_set().contains(p) <==> dif.contains(p) by { assert(s.contains(p) <==> left@.contains(p) && !right@.contains(p)); } assert(s.to_set() =~= dif); } }
//@@ after "result . extend|result\.extend": proof { assert(result@ =~= result@); }
//@@ end
//@@ fn Target::all_except_difference
//@@ rename: & [ T ] => &TargetList<T> ;; unreachable ! ( "only_difference only constructs inclusive targets" ) => vx_unreachable()
//@@ spec: ensures forall|p: T| #[trigger] r.den(p) <==> !(left@.contains(p) && !right@.contains(p))
//@@ start: proof { assert forall|p: T| #[trigger] left@.to_set().difference(right@.to_set()).contains(p) <==> left@.contains(p) && !right@.contains(p) by {} let d = left@.to_set().difference(right@.to_set()); assert forall|p: T| d.contains(p) <==> #[trigger] left@.contains(p) && !right@.contains(p) by {} }
//@@ end
//@@ fn Target::intersection
//@@ pure: retain=&T filter=&T
//@@ rename: core :: iter :: once => vx_once
//@@ spec: ensures forall|p: T| #[trigger] final(self).den(p) <==> old(self).den(p) && target.den(p)
//@@ start: proof { seq_facts::<T>(); facts_set::<T>(); }
//@@ end
//@@ fn Target::union
//@@ pure: retain=&T filter=&T
//@@ rename: core :: iter :: once => vx_once ;; smallvec ! [ * existing_client_id , * target_client_id ] => TargetList::vx_pair(*existing_client_id, *target_client_id) ;; filter ( | id | id != existing_client_id ) => vx_without(*existing_client_id) ;; if existing_client_id == target_client_id => if *existing_client_id == *target_client_id ;; if existing_client_id != target_client_id => if *existing_client_id != *target_client_id
//@@ spec: ensures forall|p: T| #[trigger] final(self).den(p) <==> old(self).den(p) || target.den(p)
//@@ start: proof { seq_facts::<T>(); facts_set::<T>(); set_facts::<T>(); }
//@@ end
//@@ fn Target::inverse
//@@ rename: core :: mem :: take ( self ) => vx_take(self)
//@@ spec: ensures forall|p: T| #[trigger] final(self).den(p) <==> !old(self).den(p)
//@@ end
//@@ fn Target::exclude
//@@ pure: retain=&T filter=&T
//@@ rename: core :: iter :: once => vx_once
//@@ spec: ensures forall|p: T| #[trigger] final(self).den(p) <==> old(self).den(p) && !target.den(p)
//@@ start: proof { seq_facts::<T>(); facts_set::<T>(); }
//@@ end
//@@ closure Extend<T> for Target<T>::extend for_each
//@@ sig: fn vx_insert_one(&mut self, $0: T, capacity: usize)
//@@ spec: ensures forall|p: T| #[trigger] final(self).den(p) <==> old(self).den(p) || p == $0
//@@ end
    /// for_each with that closure
    fn vx_insert_each(&mut self, it: It<T>, capacity: usize)
        ensures forall|p: T| #[trigger] final(self).den(p) <==> old(self).den(p) || it@.contains(p)
    {
        let ghost all = it@;
        let mut it = it;
        let ghost o = *self;
        let ghost mut n: int = 0;
        proof { assert(all.skip(0) =~= all); assert(all.take(0) =~= Seq::<T>::empty()); }
        loop
            invariant 0 <= n <= all.len(), it@ == all.skip(n), forall|p: T| #[trigger] self.den(p) <==> o.den(p) || all.take(n).contains(p)
            ensures n == all.len(), forall|p: T| #[trigger] self.den(p) <==> o.den(p) || all.take(n).contains(p)
            decreases all.len() - n
        {
            match it.next() {
                Some(x) => {
                    self.vx_insert_one(x, capacity);
                    proof { assert(all.skip(n).skip(1) =~= all.skip(n + 1)); assert(all.take(n + 1) =~= all.take(n).push(x)); n = n + 1; seq_facts::<T>(); }
                }
                None => { break; }
            }
        }
        proof { assert(all.take(n) =~= all); }
    }
//@@ fn Extend<T> for Target<T>::extend
//@@ hoist: for_each over iter => self.vx_insert_each(iter, capacity)
//@@ rename: IntoIterator < Item = T > => Source<T> ;; existing_len . saturating_add ( iter . size_hint ( ) . 0 ) . max ( 2 ) => vx_max(existing_len.saturating_add(iter.size_hint().0), 2)
//@@ spec: ensures forall|p: T| #[trigger] final(self).den(p) <==> old(self).den(p) || iter.items().contains(p)
//@@ start: let ghost o = *self; let ghost all = iter.items();
//@@ before "let iter": let ghost o1 = *self; proof { assert(forall|p: T| #[trigger] o1.den(p) <==> o.den(p)); }
//@@ before "self ?. ?vx_insert_each": proof { assert(*self == o1 || (o1 is Only && (*self) is Only && (*self)->Only_0@ == o1->Only_0@)); assert(forall|p: T| #[trigger] self.den(p) <==> o1.den(p)); }
//@@ after "self ?. ?vx_insert_each": proof { assert(forall|p: T| #[trigger] self.den(p) <==> o.den(p) || all.contains(p)); }
//@@ end
//@@ fn Target::from_exclude
//@@ rename: impl IntoIterator < Item = T > => impl Source<T>
//@@ spec: ensures forall|p: T| #[trigger] r.den(p) <==> !client_ids.items().contains(p)
//@@ end
//@@ fn FromIterator<T> for Target<T>::from_iter
//@@ rename: IntoIterator < Item = T > => Source<T>
//@@ spec: ensures forall|p: T| #[trigger] r.den(p) <==> iter.items().contains(p)
//@@ start: let ghost all = iter.items(); proof { seq_facts::<T>(); }
//@@ after "clients ?. ?extend ?\( ?iter ?\)": proof { assert(clients@ =~= all); }
//@@ end
//@@ fn From<Vec<T>> for Target<T>::from
//@@ rename: fn from => fn from_vec ;; Target :: from => Self::from
//@@ spec: ensures r.names(value@.to_set())
//@@ end
}
// ---------------------------------------------------------------- the connected clients a target reaches
type NetworkTarget = Target<T>;
type EntityHashSet = HashSet<Entity>;
//@@ item struct NetworkTargetResolver
/// whether the target selects an entity: what the peers it names are mapped to
pub open spec fn selects(t: Target<T>, m: Map<T, Entity>, e: Entity) -> bool {
    match t {
        Target::None => false, Target::All => true,
        Target::Single(p) => at(m, p, e), Target::AllExceptSingle(p) => !at(m, p, e),
        Target::Only(l) => among(l@, m, e), Target::AllExcept(l) => !among(l@, m, e) }
}
pub open spec fn at(m: Map<T, Entity>, p: T, e: Entity) -> bool { m.dom().contains(p) && m[p] == e }
pub open spec fn among(l: Seq<T>, m: Map<T, Entity>, e: Entity) -> bool { exists|i: int| 0 <= i < l.len() && #[trigger] at(m, l[i], e) }
/// when every client is one peer's, that is the denotation
proof fn selects_is_den(t: Target<T>, m: Map<T, Entity>, p: T)
    requires m.dom().contains(p), forall|a: T, b: T| m.dom().contains(a) && m.dom().contains(b) && m[a] == m[b] ==> a == b
    ensures selects(t, m, m[p]) == t.den(p)
{
    match t { Target::Only(l) | Target::AllExcept(l) => {
        if l@.contains(p) { let i = choose|i: int| 0 <= i < l@.len() && l@[i] == p; assert(at(m, l@[i], m[p])); }
        if among(l@, m, m[p]) { let i = choose|i: int| 0 <= i < l@.len() && #[trigger] at(m, l@[i], m[p]); assert(l@[i] == p); }
    } _ => {} }
}
proof fn among_next(l: Seq<T>, n: int, m: Map<T, Entity>)
    requires 0 <= n < l.len()
    ensures forall|e: Entity| #[trigger] among(l.take(n + 1), m, e) <==> among(l.take(n), m, e) || at(m, l[n], e), forall|e: Entity| among(l.take(n + 1), m, e) <==> #[trigger] among(l.take(n), m, e) || at(m, l[n], e)
{
    assert forall|e: Entity| among(l.take(n + 1), m, e) == (among(l.take(n), m, e) || at(m, l[n], e)) by {
        if among(l.take(n), m, e) { let i = choose|i: int| 0 <= i < n && #[trigger] at(m, l.take(n)[i], e); assert(at(m, l.take(n + 1)[i], e)); }
        if at(m, l[n], e) { assert(at(m, l.take(n + 1)[n], e)); }
        if among(l.take(n + 1), m, e) { let i = choose|i: int| 0 <= i < n + 1 && #[trigger] at(m, l.take(n + 1)[i], e); if i < n { assert(at(m, l.take(n)[i], e)); } }
    }
}
proof fn deref_facts<X>()
    ensures forall|s: Seq<&X>, e: X| #[trigger] deref(s).contains(e) <==> s.contains(&e)
{
    assert forall|s: Seq<&X>, e: X| #[trigger] deref(s).contains(e) <==> s.contains(&e) by {
        if deref(s).contains(e) { let i = choose|i: int| 0 <= i < deref(s).len() && deref(s)[i] == e; assert(s[i] == &e); }
        if s.contains(&e) { let i = choose|i: int| 0 <= i < s.len() && s[i] == &e; assert(deref(s)[i] == e); }
    }
}
/// what the mapped peers of a list are
proof fn hit_facts(m: Map<T, Entity>)
    ensures forall|l: Seq<&T>, g: Seq<Option<Entity>>, e: Entity| #![trigger deref(l), hits(g, e)] g.len() == l.len() && (forall|i: int| 0 <= i < g.len() ==> #[trigger] g[i] == (if m.dom().contains(*l[i]) { Some(m[*l[i]]) } else { None })) ==> (hits(g, e) <==> among(deref(l), m, e))
{
    assert forall|l: Seq<&T>, g: Seq<Option<Entity>>, e: Entity| g.len() == l.len() && (forall|i: int| 0 <= i < g.len() ==> #[trigger] g[i] == (if m.dom().contains(*l[i]) { Some(m[*l[i]]) } else { None })) implies (#[trigger] hits(g, e) <==> #[trigger] among(deref(l), m, e)) by {
        if hits(g, e) { let i = choose|i: int| 0 <= i < g.len() && g[i] == Some(e); assert(at(m, deref(l)[i], e)); }
        if among(deref(l), m, e) { let i = choose|i: int| 0 <= i < deref(l).len() && #[trigger] at(m, deref(l)[i], e); assert(g[i] == Some(e)); }
    }
}
impl NetworkTargetResolver {
    /// filter with that closure, over the clients
    fn vx_connected<'a>(&self, clients: &'a TargetList<Entity>) -> (r: It<&'a Entity>)
        ensures forall|e: Entity| #[trigger] deref(r@).contains(e) <==> clients@.contains(e) && self.requested@.contains(e)
    {
        let mut out: Vec<&'a Entity> = Vec::new();
        let mut i: usize = 0;
        proof { assert(clients@.take(0) =~= Seq::<Entity>::empty()); assert(deref(out@) =~= Seq::<Entity>::empty()); }
        while i < clients.v.len()
            invariant i <= clients@.len(), forall|e: Entity| #[trigger] deref(out@).contains(e) <==> clients@.take(i as int).contains(e) && self.requested@.contains(e)
            decreases clients@.len() - i
        {
            let x: &'a Entity = &clients.v[i];
            let ghost out0 = out@;
            if self.vx_requested(&x) { out.push(x); }
            proof { assert(clients@.take(i + 1) =~= clients@.take(i as int).push(*x)); assert(deref(out0.push(x)) =~= deref(out0).push(*x)); seq_facts::<Entity>(); }
            i += 1;
        }
        proof { assert(clients@.take(clients@.len() as int) =~= clients@); }
        It { v: out }
    }
//@@ closure NetworkTargetResolver::resolve filter#1
//@@ sig: fn vx_requested(&self, $0: &&Entity) -> bool
//@@ spec: ensures r == self.requested@.contains(**$0)
//@@ end
//@@ fn NetworkTargetResolver::resolve
//@@ hoist: filter#1 over clients . iter ( ) => self.vx_connected(clients)
//@@ pure: filter=&&Entity filter_map=&PeerId->Option<Entity>
//@@ rename: & self . targets => ;; -> & EntityHashSet => ;; & [ Entity ] => &TargetList<Entity> ;; in peer_ids => in peer_ids.v.iter() ;; mapping . get ( peer_id ) . copied ( ) => mapping.vx_get(peer_id) ;; | peer_id | mapping . get ( peer_id ) => |peer_id| mapping.vx_get(peer_id) ;; collect :: < SmallVec < [ Entity ; INLINE_TARGET_CAPACITY ] > > => vx_collect
//@@ spec: ensures forall|e: Entity| #[trigger] final(self).targets@.contains(e) <==> clients@.contains(e) && selects(*target, mapping@, e)
//@@ start: proof { seq_facts::<Entity>(); seq_facts::<&Entity>(); set_facts::<Entity>(); hit_facts(mapping@); deref_facts::<Entity>(); assert(!(exists|e: Entity| among(Seq::<T>::empty(), mapping@, e))); assert forall|l: Seq<T>| l.take(0) =~= #[trigger] l.take(0).take(0) by {}; }
//@@ iter 0: vx_it
//@@ loop 0:
//@@ | invariant vx_it.seq() == peer_ids@.map_values(|x: T| &x), forall|e: Entity| #[trigger] self.targets@.contains(e) <==> clients@.contains(e) && !among(peer_ids@.take(vx_it.index() as int), mapping@, e)
//@@ loopbody 0: proof { let n = vx_it.index() as int; among_next(peer_ids@, n, mapping@); }
//@@ afterloop 0: proof { assert(peer_ids@.take(peer_ids@.len() as int) =~= peer_ids@); }
//@@ end
}
pub open spec fn chosen(l: Seq<Entity>, t: Target<T>, m: Map<T, Entity>) -> Set<Entity> { l.to_set().filter(|e: Entity| selects(t, m, e)) }
proof fn sel_same<X>(s: Seq<X>, a: Set<X>, b: Set<X>)
    requires forall|x: X| s.contains(x) ==> (a.contains(x) <==> b.contains(x))
    ensures sel(s, a) == sel(s, b)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert forall|x: X| s.drop_last().contains(x) implies (a.contains(x) <==> b.contains(x)) by { let i = choose|i: int| 0 <= i < s.drop_last().len() && s.drop_last()[i] == x; assert(s[i] == x); assert(s.contains(x)); }
        sel_same(s.drop_last(), a, b);
        assert(s.contains(s[s.len() - 1]));
    }
}
/// everything, nothing, or the only one
proof fn sel_facts<X>(s: Seq<X>, k: Set<X>)
    requires s.no_duplicates()
    ensures (forall|x: X| s.contains(x) ==> k.contains(x)) ==> sel(s, k) == s, (forall|x: X| s.contains(x) ==> !k.contains(x)) ==> sel(s, k) == Seq::<X>::empty(),
        forall|y: X| #![trigger s.contains(y)] s.contains(y) && (forall|x: X| s.contains(x) ==> (k.contains(x) <==> x == y)) ==> sel(s, k) == one(y)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        sel_facts(d, k);
        assert forall|x: X| s.contains(x) <==> d.contains(x) || x == s.last() by { if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < d.len() { assert(d[i] == x); } } if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(s[i] == x); } assert(s[s.len() - 1] == s.last()); }
        assert(!d.contains(s.last()));
        assert(d.push(s.last()) =~= s);
        assert forall|y: X| #![trigger s.contains(y)] s.contains(y) && (forall|x: X| s.contains(x) ==> (k.contains(x) <==> x == y)) implies sel(s, k) == one(y) by {
            if y == s.last() { assert(sel(d, k) == Seq::<X>::empty()); assert(sel(s, k) =~= one(y)); } else { assert(d.contains(y)); assert(sel(d, k) == one(y)); assert(!k.contains(s.last())); }
        }
    } else { assert(sel(s, k) =~= Seq::<X>::empty()); assert(s =~= Seq::<X>::empty()); }
}
/// an entity is among the entities of the peers listed exactly when one of them has it
proof fn among_values(m: Map<T, Entity>)
    ensures forall|l: Seq<&T>, g: Seq<Entity>, e: Entity| #![trigger deref(l), g.contains(e)] g.len() == l.len() && (forall|i: int| 0 <= i < g.len() ==> #[trigger] g[i] == (if m.dom().contains(*l[i]) { m[*l[i]] } else { Entity::PLACEHOLDER })) && e != Entity::PLACEHOLDER ==> (g.contains(e) <==> among(deref(l), m, e))
{
    assert forall|l: Seq<&T>, g: Seq<Entity>, e: Entity| #![trigger deref(l), g.contains(e)] g.len() == l.len() && (forall|i: int| 0 <= i < g.len() ==> #[trigger] g[i] == (if m.dom().contains(*l[i]) { m[*l[i]] } else { Entity::PLACEHOLDER })) && e != Entity::PLACEHOLDER implies (g.contains(e) <==> among(deref(l), m, e)) by {
        if g.contains(e) { let i = choose|i: int| 0 <= i < g.len() && g[i] == e; assert(at(m, deref(l)[i], e)); }
        if among(deref(l), m, e) { let i = choose|i: int| 0 <= i < deref(l).len() && #[trigger] at(m, deref(l)[i], e); assert(g[i] == e); }
    }
}
impl Target<T> {
//@@ fn NetworkTarget::apply_targets
//@@ pure: filter=&Entity find=&Entity map=&PeerId->Entity
//@@ rename: mapping . get ( client_id ) . unwrap_or ( & Entity :: PLACEHOLDER ) => &mapping.vx_or_nobody(client_id) ;; impl Iterator < Item = Entity > => It<Entity> ;; & mut impl FnMut ( Entity ) => &mut Vec<Entity> ;; for_each ( func ) => vx_each(func) ;; func ( e ) => func.push(e) ;; * mapping . get ( p ) . unwrap_or ( & Entity :: PLACEHOLDER ) => mapping.vx_or_nobody(p) ;; collect :: < SmallVec < [ Entity ; INLINE_TARGET_CAPACITY ] > > => vx_collect
//@@ spec:
//@@ | requires clients@.no_duplicates(), !clients@.contains(Entity::PLACEHOLDER)
//@@ | ensures final(func)@ == old(func)@ + sel(clients@, chosen(clients@, *self, mapping@))
//@@ start: proof { let l = clients@; let want = chosen(clients@, *self, mapping@); sel_facts(l, want); assert forall|k: Set<Entity>| (forall|e: Entity| l.contains(e) ==> (k.contains(e) <==> want.contains(e))) implies #[trigger] sel(l, k) == sel(l, want) by { sel_same(l, k, want); } among_values(mapping@); }
//@@ end
}
}
fn main() {}

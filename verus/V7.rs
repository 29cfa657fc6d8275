// V7: entity maps (C24).  Real code: crates/transport/serde/src/entity_map.rs
use vstd::prelude::*;
verus! {
//@@ include maps.inc
pub assume_specification<'a, T: Copy> [std::option::Option::<&T>::copied] (o: Option<&'a T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None::<T> });
/// bevy_ecs's Entity: a 64-bit value, some low halves of which are not entities (the reserved index)
#[derive(Clone, Copy)]
pub struct Entity { pub bits: u64 }
pub uninterp spec fn valid_index(low: u32) -> bool;
pub open spec fn valid(bits: u64) -> bool { valid_index(bits as u32) }
/// an entity of a world: its generation does not reach the top bit
pub open spec fn plain(e: Entity) -> bool { valid(e.bits) && e.bits & (1u64 << 63) == 0 }
impl Entity {
    #[verifier::external_body]
    pub const fn to_bits(self) -> (r: u64) ensures r == self.bits { self.bits }
    /// panics on a value which is not an entity
    #[verifier::external_body]
    pub const fn from_bits(bits: u64) -> (r: Entity) requires valid(bits) ensures r.bits == bits { Entity { bits } }
    #[verifier::external_body]
    pub fn PLACEHOLDER() -> (r: Entity) ensures r == placeholder() { unimplemented!() }
}
pub uninterp spec fn placeholder() -> Entity;
/// Entity is never built from a value which is not an entity (its type guarantees it)
#[verifier::external_body]
pub proof fn entity_valid(e: Entity) ensures valid(e.bits) {}
pub type EntityHashMap<X> = HashMap<Entity, X>;
pub open spec fn marked(e: Entity) -> bool { e.bits & (1u64 << 63) != 0 }
pub open spec fn mark(e: Entity) -> Entity { Entity { bits: e.bits | (1u64 << 63) } }
pub open spec fn unmark(e: Entity) -> Entity { Entity { bits: e.bits & !(1u64 << 63) } }
pub proof fn marks(e: Entity)
    ensures marked(mark(e)), !marked(unmark(e)), unmark(mark(e)) == unmark(e), !marked(e) ==> unmark(e) == e, marked(e) ==> mark(e) == e,
        (e.bits | (1u64 << 63)) as u32 == e.bits as u32, (e.bits & !(1u64 << 63)) as u32 == e.bits as u32, !(1u64 << 63) == 0x7fff_ffff_ffff_ffffu64, (1u64 << 63) == 0x8000_0000_0000_0000u64
{
    let b = e.bits;
    assert((b | (1u64 << 63)) & (1u64 << 63) != 0) by (bit_vector);
    assert((b & !(1u64 << 63)) & (1u64 << 63) == 0) by (bit_vector);
    assert((b | (1u64 << 63)) & !(1u64 << 63) == b & !(1u64 << 63)) by (bit_vector);
    assert(b & (1u64 << 63) == 0 ==> b & !(1u64 << 63) == b) by (bit_vector);
    assert(b & (1u64 << 63) != 0 ==> b | (1u64 << 63) == b) by (bit_vector);
    assert((b | (1u64 << 63)) as u32 == b as u32) by (bit_vector);
    assert((b & !(1u64 << 63)) as u32 == b as u32) by (bit_vector);
    assert(!(1u64 << 63) == 0x7fff_ffff_ffff_ffffu64) by (bit_vector);
    assert((1u64 << 63) == 0x8000_0000_0000_0000u64) by (bit_vector);
}
//@@ source crates/transport/serde/src/entity_map.rs
//@@ item const MARKED
//@@ item struct EntityMap
//@@ item struct SendEntityMap
//@@ item struct ReceiveEntityMap
//@@ item struct RemoteEntityMap
pub open spec fn map_or(m: Map<Entity, Entity>, e: Entity, d: Entity) -> Entity { if m.dom().contains(e) { m[e] } else { d } }
/// what a peer writes for one of its entities, and what a peer reads from it
pub open spec fn sent(m: Map<Entity, Entity>, e: Entity) -> Entity { if m.dom().contains(e) { mark(m[e]) } else { e } }
pub open spec fn read(m: Map<Entity, Entity>, e: Entity) -> Option<Entity> { if marked(e) { Some(unmark(e)) } else if m.dom().contains(e) { Some(m[e]) } else { None } }
impl EntityMap {
//@@ fn EntityMapper for EntityMap::get_mapped
//@@ closures: unwrap_or_else
//@@ spec: ensures r == map_or(old(self).0@, entity, entity), final(self).0@ == old(self).0@
//@@ end
//@@ fn EntityMapper for EntityMap::set_mapped
//@@ rename: self . 0 . set_mapped => self.0.insert
//@@ spec: ensures final(self).0@ == old(self).0@.insert(source, target)
//@@ end
}
impl SendEntityMap {
//@@ fn EntityMapper for SendEntityMap::get_mapped
//@@ spec: ensures r == sent(old(self).0@, entity), final(self).0@ == old(self).0@
//@@ end
//@@ fn EntityMapper for SendEntityMap::set_mapped
//@@ spec: ensures final(self).0@ == old(self).0@.insert(source, target)
//@@ end
}
impl ReceiveEntityMap {
//@@ fn EntityMapper for ReceiveEntityMap::get_mapped
//@@ rename: Entity :: PLACEHOLDER => Entity::PLACEHOLDER()
//@@ spec: ensures r == (match read(old(self).0@, entity) { Some(x) => x, None => placeholder() }), final(self).0@ == old(self).0@
//@@ start: proof { marks(entity); }
//@@ end
//@@ fn EntityMapper for ReceiveEntityMap::set_mapped
//@@ spec: ensures final(self).0@ == old(self).0@.insert(source, target)
//@@ end
}
pub open spec fn inverse(f: Map<Entity, Entity>, b: Map<Entity, Entity>) -> bool {
    &&& forall|x: Entity| #[trigger] f.dom().contains(x) ==> b.dom().contains(f[x]) && b[f[x]] == x && plain(x)
    &&& forall|y: Entity| #[trigger] b.dom().contains(y) ==> f.dom().contains(b[y]) && f[b[y]] == y && plain(y)
}
pub proof fn inverse_remove(f: Map<Entity, Entity>, b: Map<Entity, Entity>, x: Entity)
    requires inverse(f, b), f.dom().contains(x)
    ensures inverse(f.remove(x), b.remove(f[x]))
{
    let (f1, b1) = (f.remove(x), b.remove(f[x]));
    assert forall|z: Entity| #[trigger] f1.dom().contains(z) implies b1.dom().contains(f1[z]) && b1[f1[z]] == z && plain(z) by { assert(f.dom().contains(z)); }
    assert forall|y: Entity| #[trigger] b1.dom().contains(y) implies f1.dom().contains(b1[y]) && f1[b1[y]] == y && plain(y) by { assert(b.dom().contains(y)); }
}
impl RemoteEntityMap {
    pub open spec fn fwd(&self) -> Map<Entity, Entity> { self.remote_to_local.0@ }
    pub open spec fn bwd(&self) -> Map<Entity, Entity> { self.local_to_remote.0@ }
    /// the two directions are inverse of each other, and name entities of a world
    pub open spec fn wf(&self) -> bool { inverse(self.remote_to_local.0@, self.local_to_remote.0@) }
//@@ fn RemoteEntityMap::mark_mapped
//@@ spec: ensures r == mark(entity)
//@@ start: proof { marks(entity); entity_valid(entity); }
//@@ end
//@@ fn RemoteEntityMap::mark_unmapped
//@@ spec: ensures r == unmark(entity)
//@@ start: proof { marks(entity); entity_valid(entity); }
//@@ end
//@@ fn RemoteEntityMap::is_mapped
//@@ spec: ensures r == marked(entity)
//@@ end
//@@ fn RemoteEntityMap::insert
//@@ rename: . remote_to_local . insert => .remote_to_local.0.insert ;; . local_to_remote . insert => .local_to_remote.0.insert
//@@ spec:
//@@ | ensures final(self).fwd() == old(self).fwd().insert(remote_entity, local_entity), final(self).bwd() == old(self).bwd().insert(local_entity, remote_entity),
//@@ |   // a pair of entities not yet paired with others keeps the mapping one-to-one
//@@ |   old(self).wf() && plain(remote_entity) && plain(local_entity) && ((!old(self).fwd().dom().contains(remote_entity) && !old(self).bwd().dom().contains(local_entity)) || (old(self).fwd().dom().contains(remote_entity) && old(self).fwd()[remote_entity] == local_entity)) ==> final(self).wf(),
//@@ end
//@@ fn RemoteEntityMap::get_local
//@@ rename: . remote_to_local . get => .remote_to_local.0.get
//@@ spec: ensures r == read(self.fwd(), remote_entity)
//@@ start: proof { marks(remote_entity); }
//@@ end
//@@ fn RemoteEntityMap::to_remote
//@@ rename: . local_to_remote . get => .local_to_remote.0.get
//@@ spec: ensures r == sent(self.bwd(), local_entity)
//@@ end
//@@ fn RemoteEntityMap::get_remote
//@@ rename: . local_to_remote . get => .local_to_remote.0.get
//@@ spec: ensures r == (if self.bwd().dom().contains(local_entity) { Some(self.bwd()[local_entity]) } else { None })
//@@ end
//@@ fn RemoteEntityMap::remove_by_remote
//@@ rename: . remote_to_local . remove => .remote_to_local.0.remove ;; . local_to_remote . remove => .local_to_remote.0.remove
//@@ spec:
//@@ | requires old(self).wf()
//@@ | ensures final(self).wf(), r == read(old(self).fwd(), remote_entity),
//@@ |   // the pair is removed, no other
//@@ |   match r {
//@@ |     Some(l) => final(self).bwd() =~= old(self).bwd().remove(l) && final(self).fwd() =~= (if old(self).bwd().dom().contains(l) { old(self).fwd().remove(old(self).bwd()[l]) } else { old(self).fwd() }),
//@@ |     None => final(self).fwd() == old(self).fwd() && final(self).bwd() == old(self).bwd() }
//@@ start: proof { marks(remote_entity); let (f, b) = (self.fwd(), self.bwd());
//@@ |   if f.dom().contains(remote_entity) { inverse_remove(f, b, remote_entity); }
//@@ |   if b.dom().contains(unmark(remote_entity)) { inverse_remove(f, b, b[unmark(remote_entity)]); } }
//@@ end
//@@ fn RemoteEntityMap::is_empty
//@@ rename: . remote_to_local . is_empty => .remote_to_local.0.is_empty ;; . local_to_remote . is_empty => .local_to_remote.0.is_empty
//@@ spec: ensures r == (self.fwd().dom().is_empty() && self.bwd().dom().is_empty())
//@@ end
//@@ fn RemoteEntityMap::clear
//@@ rename: . remote_to_local . clear => .remote_to_local.0.clear ;; . local_to_remote . clear => .local_to_remote.0.clear
//@@ spec: ensures final(self).wf(), final(self).fwd() == Map::<Entity, Entity>::empty(), final(self).bwd() == Map::<Entity, Entity>::empty()
//@@ end
}
/// what a map means for references: its receiver paired x (the sender's name) with y (its own name)
pub open spec fn paired(b: RemoteEntityMap, x: Entity, y: Entity) -> bool { b.wf() && b.fwd().dom().contains(x) && b.fwd()[x] == y }
/// a reference denotes the same entity at the other end, whoever sends it, whoever recorded the pair
pub proof fn same_entity(a: RemoteEntityMap, b: RemoteEntityMap, x: Entity, y: Entity)
    requires a.wf(), b.wf(), plain(x), plain(y), paired(b, x, y), a.bwd().dom().contains(x) ==> paired(a, y, x), a.fwd().dom().contains(y) ==> paired(a, y, x)
    ensures
        read(b.fwd(), sent(a.bwd(), x)) == Some(y), // A's reference, read by B
        read(a.fwd(), sent(b.bwd(), y)) == Some(x), // B's reference, read by A
{
    marks(x); marks(y);
    if a.bwd().dom().contains(x) { assert(a.fwd().dom().contains(y)); assert(a.bwd()[x] == y); }
    assert(b.bwd().dom().contains(y) && b.bwd()[y] == x);
}
/// a reference neither side knows is never taken for another entity
pub proof fn unknown_entity(a: RemoteEntityMap, b: RemoteEntityMap, z: Entity)
    requires a.wf(), b.wf(), plain(z), !a.bwd().dom().contains(z), !b.fwd().dom().contains(z)
    ensures read(b.fwd(), sent(a.bwd(), z)) == None::<Entity>
{ marks(z); }
} // verus!
fn main() {}

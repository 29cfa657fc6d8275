// V17: which messages go out first, and how much of them (T14).
// Real code: crates/transport/transport/src/packet/{priority_manager,message}.rs.
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@@ include f32.inc
/// IEEE 754 total order
pub uninterp spec fn rank(a: F32) -> int;
pub open spec fn icmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
impl F32 {
    #[verifier::external_body]
    pub fn total_cmp(&self, o: &F32) -> (r: Ordering) ensures r == icmp(rank(*self), rank(*o)) { unimplemented!() }
}
pub type ChannelId = u16;
#[derive(Clone, Copy)]
pub struct ChannelKind(pub u64);
#[derive(Clone, Copy)]
pub struct MessageId(pub u16);
#[derive(Clone, Copy)]
pub struct FragmentIndex(pub u64);
#[verifier::external_body]
pub struct SingleData { x: u64 }
#[verifier::external_body]
pub struct FragmentData { x: u64 }
pub uninterp spec fn size(d: SingleData) -> usize;
impl SingleData {
    #[verifier::external_body]
    pub fn bytes_len(&self) -> (r: usize) ensures r == size(*self) { unimplemented!() }
}
//@@ source crates/transport/transport/src/packet/message.rs
#[derive(Clone, Copy)]
//@@ item enum SendMessageKey
//@@ item struct SendMessage f32=>F32
//@@ item struct SendCandidate f32=>F32
//@@ item enum MessageData
pub open spec fn tie(k: SendMessageKey) -> u64 { match k { SendMessageKey::ReliableFragment(_, f) => f.0, _ => 0 } }
impl SendMessageKey {
//@@ fn SendMessageKey::packing_tiebreaker
//@@ spec: ensures r == tie(self)
//@@ end
}
fn vx_cmp_usize(a: usize, b: usize) -> (r: Ordering) ensures r == icmp(a as int, b as int) { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
//@@ source crates/transport/transport/src/packet/priority_manager.rs
pub struct ChannelSettings { pub priority: F32 }
#[verifier::external_body]
pub struct ChannelRegistry { x: u64 }
impl ChannelRegistry {
    pub uninterp spec fn settings(self, id: u16) -> Option<ChannelSettings>;
    #[verifier::external_body]
    pub fn settings_from_net_id(&self, id: u16) -> (r: Option<&ChannelSettings>) ensures match r { Some(x) => self.settings(id) == Some(*x), None => self.settings(id) is None } { unimplemented!() }
}
pub open spec fn single(c: SendCandidate) -> bool { c.message.data is Single }
pub open spec fn lex(a: Ordering, b: Ordering) -> Ordering { match a { Ordering::Equal => b, o => o } }
/// fragments first, small messages before large ones, then in the order they were handed in
pub open spec fn packing(a: SendCandidate, b: SendCandidate) -> Ordering {
    lex(lex(match (a.message.data, b.message.data) {
        (MessageData::Fragment(_), MessageData::Single(_)) => Ordering::Less,
        (MessageData::Single(_), MessageData::Fragment(_)) => Ordering::Greater,
        (MessageData::Single(x), MessageData::Single(y)) => lex(icmp(size(x) as int, size(y) as int), icmp(a.send_order as int, b.send_order as int)),
        (MessageData::Fragment(_), MessageData::Fragment(_)) => icmp(a.send_order as int, b.send_order as int),
    }, icmp(a.channel_id as int, b.channel_id as int)), icmp(tie(a.key) as int, tie(b.key) as int))
}
pub open spec fn urgency(a: SendCandidate, b: SendCandidate) -> Ordering { lex(icmp(rank(b.effective_priority), rank(a.effective_priority)), packing(a, b)) }
pub open spec fn total(f: spec_fn(SendCandidate, SendCandidate) -> Ordering) -> bool {
    &&& forall|a: SendCandidate| #[trigger] f(a, a) is Equal
    &&& forall|a: SendCandidate, b: SendCandidate| (#[trigger] f(a, b) is Less) == (f(b, a) is Greater)
    &&& forall|a: SendCandidate, b: SendCandidate, c: SendCandidate| !(#[trigger] f(a, b) is Greater) && !(#[trigger] f(b, c) is Greater) ==> !(f(a, c) is Greater)
}
pub proof fn orders() ensures total(|a: SendCandidate, b: SendCandidate| packing(a, b)), total(|a: SendCandidate, b: SendCandidate| urgency(a, b)) {}
pub open spec fn priced(c: SendCandidate, p: F32) -> SendCandidate { SendCandidate { effective_priority: p, ..c } }
pub open spec fn price(c: SendCandidate, reg: ChannelRegistry, enabled: bool) -> F32 { if enabled { fmul(c.message.priority, reg.settings(c.channel_id)->Some_0.priority) } else { flit(0) } }
pub open spec fn priced_all(l: Seq<SendCandidate>, reg: ChannelRegistry, enabled: bool) -> Seq<SendCandidate> { l.map_values(|c: SendCandidate| priced(c, price(c, reg, enabled))) }
/// nothing comes before something more urgent
pub open spec fn ranked(c: Seq<SendCandidate>) -> bool { forall|i: int, j: int| 0 <= i < j < c.len() ==> rank(#[trigger] c[j].effective_priority) <= rank(#[trigger] c[i].effective_priority) }
pub proof fn level(c: Seq<SendCandidate>, l: Seq<SendCandidate>, reg: ChannelRegistry) requires c.to_multiset() == priced_all(l, reg, false).to_multiset() ensures ranked(c)
{
    let q = priced_all(l, reg, false);
    c.to_multiset_ensures(); q.to_multiset_ensures();
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i].effective_priority == flit(0) by { assert(c.contains(c[i])); assert(c.to_multiset().count(c[i]) > 0); assert(q.contains(c[i])); let j = choose|j: int| 0 <= j < q.len() && q[j] == c[i]; assert(q[j].effective_priority == flit(0)); }
}
pub proof fn urgent(c: Seq<SendCandidate>) requires forall|i: int, j: int| 0 <= i < j < c.len() ==> !(urgency(#[trigger] c[i], #[trigger] c[j]) is Greater) ensures ranked(c)
{ assert forall|i: int, j: int| 0 <= i < j < c.len() implies rank(#[trigger] c[j].effective_priority) <= rank(#[trigger] c[i].effective_priority) by { assert(!(urgency(c[i], c[j]) is Greater)); } }
pub struct PriorityConfig { pub enabled: bool }
//@@ item struct PriorityManager
impl PriorityManager {
//@@ fn PriorityManager::packing_order
//@@ closures: then_with
//@@ rename: match ( & a . message . data => (match ( & a . message . data ;; } . then_with ( || a . channel_id => }) . then_with ( || a . channel_id
//@@ spec: ensures r == packing(*a, *b)
//@@ end
//@@ closure PriorityManager::prioritize sort_unstable_by
//@@ sig: fn vx_urgency($0: &SendCandidate, $1: &SendCandidate) -> core::cmp::Ordering
//@@ closures: then_with
//@@ spec: ensures r == urgency(*$0, *$1)
//@@ end
    /// sort_unstable_by with that closure
    #[verifier::external_body]
    fn vx_sort_urgency(v: &mut Vec<SendCandidate>)
        requires total(|a: SendCandidate, b: SendCandidate| urgency(a, b))
        ensures final(v)@.to_multiset() == old(v)@.to_multiset(), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> !(urgency(#[trigger] final(v)@[i], #[trigger] final(v)@[j]) is Greater)
    { unimplemented!() }
    /// sort_unstable_by(Self::packing_order)
    #[verifier::external_body]
    fn vx_sort_packing(v: &mut Vec<SendCandidate>)
        requires total(|a: SendCandidate, b: SendCandidate| packing(a, b))
        ensures final(v)@.to_multiset() == old(v)@.to_multiset(), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> !(packing(#[trigger] final(v)@[i], #[trigger] final(v)@[j]) is Greater)
    { unimplemented!() }
//@@ fn PriorityManager::prioritize
//@@ hoist: sort_unstable_by over self.candidates => Self::vx_sort_urgency(&mut self.candidates)
//@@ rename: self . candidates . sort_unstable_by ( Self :: packing_order ) => Self::vx_sort_packing(&mut self.candidates) ;; for candidate in & mut self . candidates { => let vx_n = self.candidates.len(); for vx_i in 0..vx_n { let candidate = &mut self.candidates[vx_i]; ;; 0.0 => F32::lit(0)
//@@ start: let ghost c = self.candidates@; proof { orders(); }
//@@ afterloop 0: proof { assert(self.candidates@ =~= priced_all(c, *channel_registry, false)); }
//@@ before "return": proof { level(self.candidates@, c, *channel_registry); }
//@@ afterloop 1: proof { assert(self.candidates@ =~= priced_all(c, *channel_registry, true)); }
//@@ iter 0: it
//@@ loop 0:
//@@ | invariant self.candidates@.len() == c.len(), vx_n == c.len(), self.config == old(self).config, forall|i: int| 0 <= i < it.index() ==> self.candidates@[i] == priced(c[i], flit(0)), forall|i: int| it.index() <= i < c.len() ==> self.candidates@[i] == c[i]
//@@ iter 1: it
//@@ loop 1:
//@@ | invariant self.candidates@.len() == c.len(), vx_n == c.len(), self.config == old(self).config, self.config.enabled, forall|i: int| 0 <= i < it.index() ==> self.candidates@[i] == priced(c[i], price(c[i], *channel_registry, true)), forall|i: int| it.index() <= i < c.len() ==> self.candidates@[i] == c[i], forall|i: int| 0 <= i < c.len() ==> channel_registry.settings((#[trigger] c[i]).channel_id) is Some
//@@ spec:
//@@ | requires forall|i: int| 0 <= i < old(self).candidates@.len() ==> channel_registry.settings((#[trigger] old(self).candidates@[i]).channel_id) is Some
//@@ | ensures final(self).config == old(self).config, ranked(final(self).candidates@),
//@@ |   final(self).candidates@.to_multiset() == priced_all(old(self).candidates@, *channel_registry, old(self).config.enabled).to_multiset(),
//@@ |   forall|i: int, j: int| 0 <= i < j < final(self).candidates@.len() ==> !((if old(self).config.enabled { urgency(#[trigger] final(self).candidates@[i], #[trigger] final(self).candidates@[j]) } else { packing(final(self).candidates@[i], final(self).candidates@[j]) }) is Greater)
//@@ end
}
/// governor's limiter: the bytes it let through so far
#[verifier::external_body]
pub struct DefaultDirectRateLimiter { x: u64 }
pub struct NotUntil {}
pub struct InsufficientCapacity {}
#[derive(Clone, Copy)]
pub struct NonZeroU32 { pub n: u32 }
impl NonZeroU32 { pub fn try_from(n: u32) -> (r: Result<NonZeroU32, ()>) ensures n != 0 ==> r == Ok::<NonZeroU32, ()>(NonZeroU32 { n }), n == 0 ==> r is Err { if n != 0 { Ok(NonZeroU32 { n }) } else { Err(()) } } }
fn vx_u32(n: usize) -> (r: Result<u32, ()>) ensures n <= u32::MAX ==> r == Ok::<u32, ()>(n as u32), n > u32::MAX ==> r is Err { if n <= u32::MAX as usize { Ok(n as u32) } else { Err(()) } }
impl DefaultDirectRateLimiter {
    pub uninterp spec fn granted(self) -> nat;
    #[verifier::external_body]
    pub fn check_n(&mut self, n: NonZeroU32) -> (r: Result<Result<(), NotUntil>, InsufficientCapacity>)
        ensures final(self).granted() == old(self).granted() + (if r is Ok && r->Ok_0 is Ok { n.n as nat } else { 0 })
    { unimplemented!() }
}
//@@ item struct BandwidthLimiter
impl BandwidthLimiter {
//@@ fn BandwidthLimiter::consume_packet_quota
//@@ rename: u32 :: try_from ( packet_bytes ) => vx_u32(packet_bytes)
//@@ spec:
//@@ | requires packet_bytes > 0
//@@ | ensures final(self).enabled == old(self).enabled, !old(self).enabled ==> r, old(self).enabled && r ==> final(self).limiter.granted() == old(self).limiter.granted() + packet_bytes, !r ==> final(self).limiter.granted() == old(self).limiter.granted()
//@@ end
}
}
fn main() {}

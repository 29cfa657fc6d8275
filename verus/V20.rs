// V20: links: queues, MTU, conditioner, lifecycle markers, the links of a server (N20).
// Real code: crates/io/link/src/{lib,mtu,conditioner,server}.rs.
use vstd::prelude::*;
use vstd::multiset::Multiset;
use core::cmp::Ordering;
use core::ops::Range;
verus! {
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Entity { pub index: u32, pub generation: u32 }
//@@ include vecdeque.inc
//@@ include f32.inc
/// a packet's bytes: nothing is known about them
#[verifier::external_body]
pub struct RecvPayload { x: u64 }
#[verifier::external_body]
pub struct SendPayload { x: u64 }
type P = RecvPayload;
/// everything a drained queue held, in its order (the iterator's remaining items)
pub struct Drain<T> { pub l: Vec<T> }
impl<T> Drain<T> { pub fn collect(self) -> (r: Vec<T>) ensures r@ == self.l@ { self.l } }
impl<T> VecDeque<T> {
    /// drain(..)
    #[verifier::external_body]
    pub fn vx_drain(&mut self) -> (r: Drain<T>) ensures r.l@ == old(self)@, final(self)@ == Seq::<T>::empty() { unimplemented!() }
}

// ---------------------------------------------------------------- the size limit never falls below its minimum
//@@ source crates/io/link/src/mtu.rs
//@@ item const DEFAULT_MTU
#[derive(Clone, Copy)]
//@@ item struct LinkMtu
//@@ item struct MtuTooSmall
impl LinkMtu {
pub open spec fn wf(self) -> bool { self.mtu >= self.min_mtu }
//@@ fn LinkMtu::new
//@@ rename: const fn => fn
//@@ spec: ensures r.wf(), r.min_mtu == min_mtu, r.mtu == min_mtu
//@@ end
//@@ fn LinkMtu::min_mtu
//@@ rename: const fn => fn
//@@ spec: ensures r == self.min_mtu
//@@ end
//@@ fn LinkMtu::mtu
//@@ rename: const fn => fn
//@@ spec: ensures r == self.mtu
//@@ end
//@@ fn LinkMtu::set_mtu
//@@ rename: const fn => fn
//@@ spec:
//@@ | requires old(self).wf()
//@@ | ensures final(self).wf(), final(self).min_mtu == old(self).min_mtu,
//@@ |   match r { Ok(_) => mtu >= old(self).min_mtu && final(self).mtu == mtu, Err(e) => mtu < old(self).min_mtu && e.mtu == mtu && e.min == old(self).min_mtu && *final(self) == *old(self) }
//@@ end
//@@ fn Default for LinkMtu::default
//@@ spec: ensures r.wf(), r.min_mtu == 1200
//@@ end
}

// ---------------------------------------------------------------- time, and chance
/// milliseconds
#[derive(Clone, Copy)]
pub struct Duration { pub ns: u64 }
impl Duration {
    #[verifier::external_body]
    pub fn as_millis(&self) -> (r: u128) ensures r == ms(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_millis(n: u64) -> (r: Duration) ensures r == millis(n as int) { unimplemented!() }
}
pub uninterp spec fn millis(n: int) -> Duration;
/// its whole milliseconds
pub uninterp spec fn ms(d: Duration) -> nat;
//@@ include op.inc TRAIT=>Div SPECTRAIT=>DivSpecImpl METH=>div OBEYS=>obeys_div_spec REQ=>div_req SPEC=>div_spec LHS=>Duration RHS=>u32 OUT=>Duration FN=>dpart
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Instant { pub t: u64 }
//@@ include op.inc TRAIT=>Add SPECTRAIT=>AddSpecImpl METH=>add OBEYS=>obeys_add_spec REQ=>add_req SPEC=>add_spec LHS=>Instant RHS=>Duration OUT=>Instant FN=>after
impl Instant {
    #[verifier::external_body]
    pub fn now() -> Instant { unimplemented!() }
}
/// the random numbers drawn so far
pub struct Rng { pub f: Ghost<Seq<F32>>, pub i: Ghost<Seq<int>> }
pub trait Draw: Sized { spec fn within(self, a: Self, b: Self) -> bool; spec fn some(a: Self, b: Self) -> bool; spec fn logged(self, r0: Rng, r1: Rng) -> bool; }
impl Draw for F32 {
    open spec fn within(self, a: F32, b: F32) -> bool { fcmp(self, a) != Some(Ordering::Less) && fcmp(self, b) == Some(Ordering::Less) }
    open spec fn some(a: F32, b: F32) -> bool { true }
    open spec fn logged(self, r0: Rng, r1: Rng) -> bool { r1.f@ == r0.f@.push(self) && r1.i == r0.i }
}
impl Draw for i32 {
    open spec fn within(self, a: i32, b: i32) -> bool { a <= self < b }
    /// an empty range panics
    open spec fn some(a: i32, b: i32) -> bool { a < b }
    open spec fn logged(self, r0: Rng, r1: Rng) -> bool { r1.i@ == r0.i@.push(self as int) && r1.f == r0.f }
}
impl Rng {
    #[verifier::external_body]
    pub fn random_range<T: Draw>(&mut self, r: Range<T>) -> (v: T)
        requires T::some(r.start, r.end)
        ensures v.within(r.start, r.end), v.logged(*old(self), *final(self)) { unimplemented!() }
}
/// alloc's heap behind it is under contract in V6, where these clauses are proved of the real buffer
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(T)]
pub struct ReadyBuffer<K, T> { x: Vec<(K, T)> }
impl<K, T> View for ReadyBuffer<K, T> { type V = Multiset<(K, T)>; uninterp spec fn view(&self) -> Multiset<(K, T)>; }
pub uninterp spec fn by(a: Instant, b: Instant) -> bool;
impl ReadyBuffer<Instant, RecvPayload> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Multiset::<(Instant, RecvPayload)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, key: Instant, item: RecvPayload) ensures final(self)@ == old(self)@.insert((key, item)) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_item(&mut self, now: &Instant) -> (r: Option<(Instant, RecvPayload)>)
        ensures match r {
            Some(p) => by(p.0, *now) && old(self)@.contains((p.0, p.1)) && final(self)@ == old(self)@.remove((p.0, p.1)),
            None => (forall|p: (Instant, RecvPayload)| #[trigger] old(self)@.contains(p) ==> !by(p.0, *now)) && final(self)@ == old(self)@ } { unimplemented!() }
}

// ---------------------------------------------------------------- the conditioner
//@@ source crates/io/link/src/conditioner.rs
#[derive(Clone, Copy)]
//@@ item enum LinkConditionerState
//@@ item struct LinkConditionerConfig f32=>F32
//@@ item struct LinkConditioner P : Eq=>P
impl LinkConditionerState { pub fn default() -> (r: Self) ensures r is Good { LinkConditionerState::Good } }
pub open spec fn other(s: LinkConditionerState) -> LinkConditionerState { match s { LinkConditionerState::Good => LinkConditionerState::Bad, LinkConditionerState::Bad => LinkConditionerState::Good } }
pub open spec fn loss(c: LinkConditionerConfig, s: LinkConditionerState) -> F32 { match s { LinkConditionerState::Good => c.good_loss, LinkConditionerState::Bad => c.bad_loss } }
pub open spec fn turn(c: LinkConditionerConfig, s: LinkConditionerState) -> F32 { match s { LinkConditionerState::Good => c.good_to_bad, LinkConditionerState::Bad => c.bad_to_good } }
pub open spec fn lt(a: F32, b: F32) -> bool { fcmp(a, b) == Some(Ordering::Less) }
/// a number drawn from [0, 1)
pub open spec fn chance(x: F32) -> bool { x.within(flit(0), flit(1000)) }
/// the delays fit the 32-bit millisecond arithmetic (24 days)
pub open spec fn sane(c: LinkConditionerConfig) -> bool { ms(c.incoming_latency) + ms(c.incoming_jitter) <= i32::MAX }
/// when a packet that arrived at `t` with this offset is due: never before it arrived
pub open spec fn due(c: LinkConditionerConfig, t: Instant, off: int) -> Instant { if ms(c.incoming_latency) + off > 0 { after(t, millis(ms(c.incoming_latency) + off)) } else { t } }
pub open spec fn offset(c: LinkConditionerConfig, off: int) -> bool { if ms(c.incoming_jitter) == 0 { off == 0 } else { -ms(c.incoming_jitter) <= off < ms(c.incoming_jitter) } }
pub type Cond = LinkConditioner<RecvPayload>;
/// what conditioning one packet does, for the numbers drawn: x against the loss and y against the change of state, both
/// of the state it was in; the offset is within the jitter
pub open spec fn conditioned(a: Cond, p: RecvPayload, t: Instant, b: Cond, x: F32, y: F32, off: int) -> bool {
    &&& chance(x) && chance(y) && offset(a.config, off)
    &&& b.config == a.config
    &&& b.state == if lt(y, turn(a.config, a.state)) { other(a.state) } else { a.state }
    &&& b.time_queue@ == if lt(x, loss(a.config, a.state)) { a.time_queue@ } else { a.time_queue@.insert((due(a.config, t, off), p)) }
}
pub open spec fn cond(a: Cond, p: RecvPayload, t: Instant, b: Cond) -> bool { exists|x: F32, y: F32, off: int| conditioned(a, p, t, b, x, y, off) }
/// the two draws are different ones
pub open spec fn drawn(a: Cond, p: RecvPayload, t: Instant, b: Cond, r0: Rng, r1: Rng) -> bool {
    exists|j: int, k: int, off: int| r0.f@.len() <= j < r1.f@.len() && r0.f@.len() <= k < r1.f@.len() && j != k && #[trigger] conditioned(a, p, t, b, r1.f@[j], r1.f@[k], off)
}
/// whatever happens, a packet is lost or is held once, due within the bounds; at loss 0 it is held, at loss 1 it is lost
pub proof fn bounds(a: Cond, p: RecvPayload, t: Instant, b: Cond)
    requires cond(a, p, t, b)
    ensures b.time_queue@ == a.time_queue@ || exists|off: int| offset(a.config, off) && b.time_queue@ == a.time_queue@.insert((#[trigger] due(a.config, t, off), p)),
        loss(a.config, a.state) == flit(0) ==> b.time_queue@ != a.time_queue@,
        loss(a.config, a.state) == flit(1000) ==> b.time_queue@ == a.time_queue@,
        turn(a.config, a.state) == flit(0) ==> b.state == a.state,
        turn(a.config, a.state) == flit(1000) ==> b.state == other(a.state)
{
    let (x, y, off) = choose|x: F32, y: F32, off: int| conditioned(a, p, t, b, x, y, off);
    let q = (due(a.config, t, off), p);
    assert(a.time_queue@.insert(q).count(q) == a.time_queue@.count(q) + 1);
}
/// packets conditioned one after the other
pub open spec fn all_cond(a: Cond, s: Seq<RecvPayload>, b: Cond) -> bool decreases s.len() {
    if s.len() == 0 { b == a } else { exists|m: Cond, t: Instant| all_cond(a, s.drop_last(), m) && #[trigger] cond(m, s.last(), t, b) }
}
pub open spec fn same_settings(a: LinkConditionerConfig, b: LinkConditionerConfig) -> bool { a.incoming_latency == b.incoming_latency && a.incoming_jitter == b.incoming_jitter }
/// a probability
pub uninterp spec fn unit(p: F32) -> bool;
#[verifier::external_body]
fn vx_unit(p: &F32) -> (r: bool) ensures r == unit(*p) { unimplemented!() }
impl LinkConditioner<RecvPayload> {
//@@ fn LinkConditioner::new
//@@ spec: ensures r.config == config, r.state is Good, r.time_queue@ == Multiset::<(Instant, RecvPayload)>::empty()
//@@ end
//@@ fn LinkConditioner::condition_packet
//@@ rename: instant : Instant ) => instant: Instant, rng: &mut Rng) ;; let mut rng = rand :: rng ( ) ; =>  ;; 0.0 => F32::lit(0) ;; 1.0 => F32::lit(1000) ;; packet_timestamp += => packet_timestamp = packet_timestamp +
//@@ before "return": proof { let n = rng.f@.len(); let (x, y) = (rng.f@[n - 1], rng.f@[n - 2]); assert(conditioned(*old(self), packet, instant, *self, x, y, 0) || conditioned(*old(self), packet, instant, *self, y, x, 0)); }
//@@ after "self ?. ?time_queue": proof { let n = rng.f@.len(); let (x, y) = (rng.f@[n - 1], rng.f@[n - 2]); let m = rng.i@.len(); let off = if ms(self.config.incoming_jitter) == 0 { 0 } else { rng.i@[m - 1] }; assert(conditioned(*old(self), packet, instant, *self, x, y, off) || conditioned(*old(self), packet, instant, *self, y, x, off)); }
//@@ spec:
//@@ | requires sane(old(self).config)
//@@ | ensures drawn(*old(self), packet, instant, *final(self), *old(rng), *final(rng)), cond(*old(self), packet, instant, *final(self))
//@@ end
//@@ fn LinkConditioner::pop_packet
//@@ closures: map
//@@ spec:
//@@ | // only a packet that is due, and it is gone; none only if none is due
//@@ | ensures final(self).config == old(self).config, final(self).state == old(self).state, match r {
//@@ |   Some(p) => exists|t: Instant| #[trigger] by(t, instant) && old(self).time_queue@.contains((t, p)) && final(self).time_queue@ == old(self).time_queue@.remove((t, p)),
//@@ |   None => final(self).time_queue@ == old(self).time_queue@ && none_due(old(self).time_queue@, instant) }
//@@ end
}
impl LinkConditionerConfig {
//@@ fn LinkConditionerConfig::with_incoming_latency
//@@ rename: mut self => mut me: Self ;; self => me
//@@ spec: ensures r == (LinkConditionerConfig { incoming_latency, ..me })
//@@ end
//@@ fn LinkConditionerConfig::with_incoming_jitter
//@@ rename: mut self => mut me: Self ;; self => me
//@@ spec: ensures r == (LinkConditionerConfig { incoming_jitter, ..me })
//@@ end
//@@ fn LinkConditionerConfig::with_fixed_loss
//@@ rename: mut self => mut me: Self ;; self => me ;; ( 0.0 ..= 1.0 ) . contains => vx_unit ;; 0.0 => F32::lit(0) ;; f32 => F32
//@@ spec:
//@@ | requires unit(loss_probability)
//@@ | ensures same_settings(r, me), r.good_loss == loss_probability, r.bad_loss == loss_probability, r.good_to_bad == flit(0), r.bad_to_good == flit(0)
//@@ end
//@@ fn LinkConditionerConfig::half
//@@ rename: 2.0 => F32::lit(2000)
//@@ spec:
//@@ | // delays and losses; not how the state changes
//@@ | ensures r.incoming_latency == dpart(self.incoming_latency, 2), r.incoming_jitter == dpart(self.incoming_jitter, 2), r.good_to_bad == self.good_to_bad, r.bad_to_good == self.bad_to_good,
//@@ |   r.good_loss == fdiv(self.good_loss, flit(2000)), r.bad_loss == fdiv(self.bad_loss, flit(2000))
//@@ end
}
/// with a fixed loss the two states lose alike, and the state never changes
pub proof fn fixed(a: Cond, p: RecvPayload, t: Instant, b: Cond, l: F32)
    requires cond(a, p, t, b), a.config.good_loss == l, a.config.bad_loss == l, a.config.good_to_bad == flit(0), a.config.bad_to_good == flit(0)
    ensures b.state == a.state, loss(b.config, b.state) == l
{ bounds(a, p, t, b); }

// ---------------------------------------------------------------- the queues
//@@ source crates/io/link/src/lib.rs
//@@ item enum LinkState
//@@ item struct LinkReceiver
//@@ item struct LinkSender
pub struct LinkStats { pub x: u64 }
//@@ item struct Link
impl LinkReceiver {
//@@ fn LinkReceiver::drain
//@@ rename: Drain < '_ , RecvPayload > => Drain<RecvPayload> ;; . drain ( .. ) => .vx_drain()
//@@ spec: ensures r.l@ == old(self).buffer@, final(self).buffer@ == Seq::<RecvPayload>::empty(), final(self).conditioner == old(self).conditioner
//@@ end
//@@ fn LinkReceiver::pop
//@@ spec: ensures final(self).conditioner == old(self).conditioner, match r { Some(p) => old(self).buffer@.len() > 0 && p == old(self).buffer@[0] && final(self).buffer@ == old(self).buffer@.skip(1), None => old(self).buffer@.len() == 0 && final(self).buffer@ == old(self).buffer@ }
//@@ end
//@@ fn LinkReceiver::push_raw
//@@ spec: ensures final(self).buffer@ == old(self).buffer@.push(value), final(self).conditioner == old(self).conditioner
//@@ end
//@@ fn LinkReceiver::push
//@@ rename: instant : Instant ) => instant: Instant, rng: &mut Rng) ;; condition_packet ( value , instant ) => condition_packet(value, instant, rng)
//@@ spec:
//@@ | requires old(self).conditioner is Some ==> sane(old(self).conditioner->Some_0.config)
//@@ | ensures match old(self).conditioner {
//@@ |   Some(c) => final(self).buffer@ == old(self).buffer@ && final(self).conditioner is Some && cond(c, value, instant, final(self).conditioner->Some_0),
//@@ |   None => final(self).buffer@ == old(self).buffer@.push(value) && final(self).conditioner is None }
//@@ end
//@@ fn LinkReceiver::len
//@@ spec: ensures r == self.buffer@.len()
//@@ end
}
impl LinkSender {
//@@ fn LinkSender::drain
//@@ rename: Drain < '_ , SendPayload > => Drain<SendPayload> ;; . drain ( .. ) => .vx_drain()
//@@ spec: ensures r.l@ == old(self).0@, final(self).0@ == Seq::<SendPayload>::empty()
//@@ end
//@@ fn LinkSender::pop
//@@ spec: ensures match r { Some(p) => old(self).0@.len() > 0 && p == old(self).0@[0] && final(self).0@ == old(self).0@.skip(1), None => old(self).0@.len() == 0 && final(self).0@ == old(self).0@ }
//@@ end
//@@ fn LinkSender::push
//@@ spec: ensures final(self).0@ == old(self).0@.push(value)
//@@ end
//@@ fn LinkSender::push_front
//@@ spec: ensures final(self).0@ == seq![value] + old(self).0@
//@@ end
//@@ fn LinkSender::len
//@@ spec: ensures r == self.0@.len()
//@@ end
}
/// taking a packet and putting it back changes nothing
pub proof fn put_back(s: Seq<SendPayload>) requires s.len() > 0 ensures seq![s[0]] + s.skip(1) == s { assert(seq![s[0]] + s.skip(1) =~= s); }
impl Link {
//@@ fn Link::with_mtu
//@@ rename: mut self => mut me: Self ;; self => me
//@@ spec: ensures r == (Link { mtu, ..me })
//@@ end
//@@ fn Link::with_conditioner
//@@ rename: mut self => mut me: Self ;; self => me ;; recv_conditioner : impl Into < Option < RecvLinkConditioner > > => recv_conditioner: Option<Cond> ;; recv_conditioner . into ( ) => recv_conditioner
//@@ spec: ensures r.recv.conditioner == recv_conditioner, r == (Link { recv: LinkReceiver { conditioner: r.recv.conditioner, ..me.recv }, ..me })
//@@ end
//@@ fn Link::mtu
//@@ rename: const fn => fn
//@@ spec: ensures r == self.mtu.mtu
//@@ end
//@@ fn Link::min_mtu
//@@ rename: const fn => fn
//@@ spec: ensures r == self.mtu.min_mtu
//@@ end
//@@ fn Link::set_mtu
//@@ rename: const fn => fn
//@@ spec:
//@@ | requires old(self).mtu.wf()
//@@ | ensures final(self).mtu.wf(), *final(self) == (Link { mtu: final(self).mtu, ..*old(self) }), final(self).mtu.min_mtu == old(self).mtu.min_mtu,
//@@ |   match r { Ok(_) => final(self).mtu.mtu == mtu, Err(_) => mtu < old(self).mtu.min_mtu && final(self).mtu == old(self).mtu }
//@@ end
//@@ fn Link::send
//@@ spec: ensures final(self).send.0@ == old(self).send.0@.push(payload), *final(self) == (Link { send: final(self).send, ..*old(self) })
//@@ end
}
pub type Held = Multiset<(Instant, RecvPayload)>;
pub proof fn mset_empty() ensures Seq::<(Instant, RecvPayload)>::empty().to_multiset() == Multiset::<(Instant, RecvPayload)>::empty() { broadcast use vstd::seq_lib::group_to_multiset_ensures; assert(Seq::<(Instant, RecvPayload)>::empty().to_multiset() =~= Multiset::empty()); }
pub proof fn mset_push(s: Seq<(Instant, RecvPayload)>, x: (Instant, RecvPayload)) ensures s.push(x).to_multiset() == s.to_multiset().insert(x) { broadcast use vstd::seq_lib::group_to_multiset_ensures; }
pub open spec fn outs(s: Seq<(Instant, RecvPayload)>) -> Seq<RecvPayload> { s.map_values(|p: (Instant, RecvPayload)| p.1) }
pub proof fn outs_push(s: Seq<(Instant, RecvPayload)>, x: (Instant, RecvPayload)) ensures outs(s.push(x)) == outs(s).push(x.1) { assert(outs(s.push(x)) =~= outs(s).push(x.1)); }
pub open spec fn none_due(m: Held, now: Instant) -> bool { forall|q: (Instant, RecvPayload)| #[trigger] m.contains(q) ==> !by(q.0, now) }
/// some held packets, each once, joined the queue at its end; what is left is not due
pub open spec fn released(b0: Seq<RecvPayload>, q0: Held, b1: Seq<RecvPayload>, q1: Held) -> bool {
    (exists|ts: Seq<(Instant, RecvPayload)>| q0 == q1.add(#[trigger] ts.to_multiset()) && b1 == b0 + outs(ts)) && exists|now: Instant| none_due(q1, now)
}
pub struct LinkPlugin;
impl LinkPlugin {
//@@ closure LinkPlugin::apply_link_conditioner for_each
//@@ sig: fn vx_apply($0: &mut Link)
//@@ start: let ghost mut ts: Seq<(Instant, RecvPayload)> = Seq::empty(); let ghost r0 = old(link).recv; proof { mset_empty(); assert(r0.buffer@ + outs(ts) =~= r0.buffer@); if r0.conditioner is Some { let q = r0.conditioner->Some_0.time_queue@; assert(q.add(Multiset::<(Instant, RecvPayload)>::empty()) =~= q); } }
//@@ loop 0:
//@@ | invariant r0.conditioner is Some, conditioner.config == r0.conditioner->Some_0.config, conditioner.state == r0.conditioner->Some_0.state,
//@@ |   r0.conditioner->Some_0.time_queue@ == conditioner.time_queue@.add(ts.to_multiset()), recv.buffer@ == r0.buffer@ + outs(ts)
//@@ | ensures exists|now: Instant| none_due(conditioner.time_queue@, now)
//@@ | decreases conditioner.time_queue@.len()
//@@ loopbody 0: let ghost q0 = conditioner.time_queue@; let ghost b0 = recv.buffer@;
//@@ loopend 0: proof { let t = choose|t: Instant| #[trigger] q0.contains((t, recv.buffer@.last())) && conditioner.time_queue@ == q0.remove((t, recv.buffer@.last())); mset_push(ts, (t, recv.buffer@.last())); outs_push(ts, (t, recv.buffer@.last())); let ts1 = ts.push((t, recv.buffer@.last())); assert(conditioner.time_queue@.add(ts1.to_multiset()) =~= q0.add(ts.to_multiset())); assert(recv.buffer@ =~= r0.buffer@ + outs(ts1)); ts = ts1; }
//@@ spec:
//@@ | // released packets join the queue at its end, each once; those not due stay
//@@ | ensures *final(link) == (Link { recv: final(link).recv, ..*old(link) }), match old(link).recv.conditioner {
//@@ |   Some(c) => final(link).recv.conditioner is Some && final(link).recv.conditioner->Some_0.config == c.config && final(link).recv.conditioner->Some_0.state == c.state
//@@ |     && released(old(link).recv.buffer@, c.time_queue@, final(link).recv.buffer@, final(link).recv.conditioner->Some_0.time_queue@),
//@@ |   None => final(link).recv == old(link).recv }
//@@ end
}

// ---------------------------------------------------------------- the lifecycle markers
#[derive(Clone, Copy)]
pub struct HookContext { pub entity: Entity }
pub enum Marker { Linked, Linking, Unlinked }
pub trait One { spec fn marker() -> Marker; }
pub trait Bundle { spec fn markers() -> Set<Marker>; }
impl<A: Bundle> Bundle for (A,) { open spec fn markers() -> Set<Marker> { A::markers() } }
impl<A: Bundle, B: Bundle> Bundle for (A, B) { open spec fn markers() -> Set<Marker> { A::markers().union(B::markers()) } }
pub struct Linked;
pub struct Linking;
impl One for Linked { open spec fn marker() -> Marker { Marker::Linked } }
impl Bundle for Linked { open spec fn markers() -> Set<Marker> { set![Marker::Linked] } }
impl One for Linking { open spec fn marker() -> Marker { Marker::Linking } }
impl Bundle for Linking { open spec fn markers() -> Set<Marker> { set![Marker::Linking] } }
impl One for Unlinked { open spec fn marker() -> Marker { Marker::Unlinked } }
impl Bundle for Unlinked { open spec fn markers() -> Set<Marker> { set![Marker::Unlinked] } }
/// text
#[verifier::external_body]
pub struct String { x: u64 }
//@@ source crates/io/link/src/lib.rs
//@@ item enum UnlinkReason
//@@ item struct Unlinked
//@@ item struct Unlink
impl UnlinkReason { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// core::mem::take
#[verifier::external_body]
fn vx_take(r: &mut UnlinkReason) -> (x: UnlinkReason) ensures x == *old(r), *final(r) is Initial { unimplemented!() }
pub enum Op { Unlinked(Entity, UnlinkReason), Unlink(Entity, UnlinkReason), Despawn(Entity), Server(Entity, Server), NoLinkOf(Entity) }
/// the queued commands; `cur` is the entity the chain is on
#[verifier::external_body]
pub struct Commands { x: u64 }
impl Commands {
    /// markers that will be gone
    pub uninterp spec fn removed(&self) -> Set<(Entity, Marker)>;
    pub uninterp spec fn ops(&self) -> Seq<Op>;
    pub uninterp spec fn cur(&self) -> Entity;
    /// the entity exists
    pub uninterp spec fn alive(&self, e: Entity) -> bool;
    #[verifier::external_body]
    pub fn entity(&mut self, e: Entity) -> (r: &mut Commands)
        ensures r.cur() == e, r.removed() == old(self).removed(), r.ops() == old(self).ops(), *final(self) == *final(r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_entity(&mut self, e: Entity) -> (r: Result<&mut Commands, ()>)
        ensures match r {
            Ok(c) => old(self).alive(e) && c.cur() == e && c.removed() == old(self).removed() && c.ops() == old(self).ops() && (forall|x: Entity| c.alive(x) == old(self).alive(x)) && *final(self) == *final(c),
            Err(_) => !old(self).alive(e) && *final(self) == *old(self) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<B: Bundle>(&mut self) -> (r: &mut Commands)
        ensures r.cur() == old(self).cur(), forall|x: Entity, m: Marker| #[trigger] r.removed().contains((x, m)) <==> old(self).removed().contains((x, m)) || (x == old(self).cur() && B::markers().contains(m)), r.ops() == old(self).ops(), *final(self) == *final(r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_remove_link_of(&mut self)
        ensures final(self).removed() == old(self).removed(), final(self).ops() == old(self).ops().push(Op::NoLinkOf(old(self).cur()))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert<C: Added>(&mut self, c: C)
        ensures final(self).removed() == old(self).removed(), final(self).ops() == old(self).ops().push(c.op(old(self).cur())), forall|x: Entity| final(self).alive(x) == old(self).alive(x)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_despawn(&mut self)
        ensures final(self).removed() == old(self).removed(), final(self).ops() == old(self).ops().push(Op::Despawn(old(self).cur())), forall|x: Entity| final(self).alive(x) == old(self).alive(x)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn trigger(&mut self, u: Unlink)
        ensures final(self).removed() == old(self).removed(), final(self).ops() == old(self).ops().push(Op::Unlink(u.entity, u.reason)), forall|x: Entity| final(self).alive(x) == old(self).alive(x)
    { unimplemented!() }
}
pub trait Added: Sized { spec fn op(self, e: Entity) -> Op; }
impl Added for Unlinked { open spec fn op(self, e: Entity) -> Op { Op::Unlinked(e, self.reason) } }
impl Added for Server { open spec fn op(self, e: Entity) -> Op { Op::Server(e, self) } }
/// what the hooks see: which markers are there, the links, the servers, what the links name, which entities exist
pub struct DeferredWorld { pub has: Ghost<Set<(Entity, Marker)>>, pub links: Ghost<Map<Entity, Link>>, pub servers: Ghost<Map<Entity, Option<Server>>>, pub names: Ghost<Map<Entity, LinkOf>>, pub cmd: Commands }
impl DeferredWorld {
    pub fn commands(&mut self) -> (r: &mut Commands)
        ensures *r == old(self).cmd, *final(self) == (DeferredWorld { cmd: *final(r), ..*old(self) })
    { &mut self.cmd }
    #[verifier::external_body]
    pub fn vx_has<B: One>(&self, e: Entity) -> (r: Option<&B>)
        ensures r is Some <==> self.has@.contains((e, B::marker())) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_link(&mut self, e: Entity) -> (r: Option<&mut Link>)
        ensures match r {
            Some(l) => old(self).links@.contains_key(e) && *l == old(self).links@[e] && *final(self) == (DeferredWorld { links: Ghost(old(self).links@.insert(e, *final(l))), ..*old(self) }),
            None => !old(self).links@.contains_key(e) && *final(self) == *old(self) } { unimplemented!() }
    #[verifier::external_body]
    pub fn entity(&self, e: Entity) -> (r: EntityRef) ensures r.e == e, r.has == self.has, self.names@.contains_key(e) ==> r.name == Some(self.names@[e]), !self.names@.contains_key(e) ==> r.name is None { unimplemented!() }
    /// Ok: the entity exists; its Server component, if any
    #[verifier::external_body]
    pub fn get_entity_mut(&mut self, e: Entity) -> (r: Result<&mut Option<Server>, ()>)
        ensures match r {
            Ok(m) => old(self).servers@.contains_key(e) && *m == old(self).servers@[e] && *final(self) == (DeferredWorld { servers: Ghost(old(self).servers@.insert(e, *final(m))), ..*old(self) }),
            Err(_) => !old(self).servers@.contains_key(e) && *final(self) == *old(self) } { unimplemented!() }
}
pub struct EntityRef { pub e: Entity, pub has: Ghost<Set<(Entity, Marker)>>, pub name: Option<LinkOf> }
impl EntityRef {
    #[verifier::external_body]
    pub fn contains<B: One>(&self) -> (r: bool) ensures r == self.has@.contains((self.e, B::marker())) { unimplemented!() }
    pub fn vx_link_of(&self) -> (r: Option<LinkOf>) ensures r == self.name { self.name }
}
/// the markers that go, and the new state of the link; nothing else
pub open spec fn linked_as(w0: DeferredWorld, w1: DeferredWorld, e: Entity, s: LinkState, gone: Set<Marker>) -> bool {
    &&& w1.cmd.ops() == w0.cmd.ops() && w1.has == w0.has && w1.servers == w0.servers && w1.names == w0.names
    &&& forall|x: Entity, m: Marker| #[trigger] w1.cmd.removed().contains((x, m)) <==> w0.cmd.removed().contains((x, m)) || (x == e && gone.contains(m))
    &&& w1.links@ == if w0.links@.contains_key(e) { w0.links@.insert(e, Link { state: s, ..w0.links@[e] }) } else { w0.links@ }
}
impl Linking {
//@@ fn Linking::on_insert
//@@ rename: mut world : DeferredWorld => world: &mut DeferredWorld ;; world . get :: < Linked > => world.vx_has::<Linked> ;; world . get_mut :: < Link > => world.vx_link ;; Some ( mut link ) => Some(link)
//@@ spec:
//@@ | // an established link is left as it is, and the mark goes again
//@@ | ensures if old(world).has@.contains((context.entity, Marker::Linked)) {
//@@ |     final(world).links == old(world).links && final(world).cmd.ops() == old(world).cmd.ops() && final(world).servers == old(world).servers
//@@ |       && forall|x: Entity, m: Marker| #[trigger] final(world).cmd.removed().contains((x, m)) <==> old(world).cmd.removed().contains((x, m)) || (x == context.entity && m is Linking)
//@@ |   } else { linked_as(*old(world), *final(world), context.entity, LinkState::Linking, set![Marker::Linked, Marker::Unlinked]) }
//@@ end
}
impl Linked {
//@@ fn Linked::on_insert
//@@ rename: mut world : DeferredWorld => world: &mut DeferredWorld ;; world . get_mut :: < Link > => world.vx_link ;; Some ( mut link ) => Some(link)
//@@ spec: ensures linked_as(*old(world), *final(world), context.entity, LinkState::Linked, set![Marker::Linking, Marker::Unlinked])
//@@ end
}
impl Unlinked {
//@@ fn Unlinked::on_insert
//@@ rename: mut world : DeferredWorld => world: &mut DeferredWorld ;; world . get_mut :: < Link > => world.vx_link ;; Some ( mut link ) => Some(link)
//@@ spec: ensures linked_as(*old(world), *final(world), context.entity, LinkState::Unlinked, set![Marker::Linking, Marker::Linked])
//@@ end
}
impl LinkPlugin {
//@@ fn LinkPlugin::unlink
//@@ rename: mut unlink : On < Unlink > => unlink: &mut Unlink ;; mut commands : Commands => commands: &mut Commands ;; Ok ( mut c ) => Ok(c) ;; core :: mem :: take => vx_take
//@@ spec:
//@@ | // with the reason that was given
//@@ | ensures final(commands).removed() == old(commands).removed(), final(commands).ops() == if old(commands).alive(old(unlink).entity) { old(commands).ops().push(Op::Unlinked(old(unlink).entity, old(unlink).reason)) } else { old(commands).ops() }
//@@ end
}
// ---------------------------------------------------------------- a server and its links
/// Vec<Entity> as bevy's RelationshipSourceCollection
pub struct Links { pub l: Vec<Entity> }
impl View for Links { type V = Seq<Entity>; open spec fn view(&self) -> Seq<Entity> { self.l@ } }
impl Links {
    pub fn new() -> (r: Links) ensures r@ == Seq::<Entity>::empty() { Links { l: Vec::new() } }
    #[verifier::external_body]
    pub fn add(&mut self, e: Entity) -> (r: bool) ensures final(self)@ == old(self)@.push(e) { unimplemented!() }
    /// the first entry of that entity
    #[verifier::external_body]
    pub fn remove(&mut self, e: Entity) -> (r: bool) ensures final(self)@ == without(old(self)@, e) { unimplemented!() }
}
pub open spec fn without(s: Seq<Entity>, e: Entity) -> Seq<Entity> { if s.contains(e) { s.remove(s.index_of_first(e)->Some_0) } else { s } }
pub enum RelationshipHookMode { Run, RunIfNotLinked, Skip }
type RecvLinkConditioner = Cond;
//@@ source crates/io/link/src/server.rs
//@@ item struct Server Vec < Entity >=>Links
#[derive(Clone, Copy)]
//@@ item struct LinkOf
impl Server {
    /// linked_spawn: despawning the server despawns its links
    pub const LINKED_SPAWN: bool = true;
    pub fn collection(&self) -> (r: &Links) ensures *r == self.links { &self.links }
    pub fn collection_mut_risky(&mut self) -> (r: &mut Links) ensures *r == old(self).links, *final(self) == (Server { links: *final(r), ..*old(self) }) { &mut self.links }
    pub fn vx_with_capacity(n: usize) -> (r: Server) ensures r.links@ == Seq::<Entity>::empty(), r.conditioner is None { Server { links: Links::new(), conditioner: None } }
}
/// get_mut::<Server>()
fn vx_server(m: &mut Option<Server>) -> (r: Option<&mut Server>)
    ensures match r { Some(s) => *old(m) == Some(*s) && *final(m) == Some(*final(s)), None => *old(m) is None && *final(m) is None }
{ match m { Some(s) => Some(s), None => None } }
impl LinkOf {
    fn get(&self) -> (r: Entity) ensures r == self.server { self.server }
//@@ fn LinkOf::on_insert_hook
//@@ rename: mut world : DeferredWorld => world: &mut DeferredWorld ;; HookContext { entity , caller , relationship_hook_mode , .. } : HookContext => entity: Entity, relationship_hook_mode: RelationshipHookMode ;; . get :: < Self > ( ) => .vx_link_of() ;; . remove :: < Self > ( ) => .vx_remove_link_of() ;; Ok ( mut target_entity_mut ) => Ok(target_entity_mut) ;; Some ( mut relationship_target ) => Some(relationship_target) ;; target_entity_mut . get_mut :: < Server > ( ) => vx_server(target_entity_mut) ;; < Server as RelationshipTarget > :: with_capacity => Server::vx_with_capacity
//@@ spec:
//@@ | requires old(world).names@.contains_key(entity)
//@@ | ensures final(world).links == old(world).links, final(world).cmd.removed() == old(world).cmd.removed(), final(world).has == old(world).has, ({
//@@ |   let t = old(world).names@[entity].server; let s0 = old(world).servers@; let s1 = final(world).servers@; let o0 = old(world).cmd.ops(); let o1 = final(world).cmd.ops();
//@@ |   match relationship_hook_mode {
//@@ |     // a link naming itself, or an entity that does not exist, is none; otherwise it joins the server's links
//@@ |     RelationshipHookMode::Run => if t == entity || !s0.contains_key(t) { o1 == o0.push(Op::NoLinkOf(entity)) && s1 =~= s0 }
//@@ |       else { match s0[t] {
//@@ |         Some(s) => o1 == o0 && s1.dom() =~= s0.dom() && (forall|x: Entity| x != t && s0.contains_key(x) ==> #[trigger] s1[x] == s0[x]) && s1[t] is Some && s1[t]->Some_0.links@ == s.links@.push(entity) && s1[t]->Some_0.conditioner == s.conditioner,
//@@ |         None => s1 =~= s0 && o1.len() == o0.len() + 1 && o1.take(o0.len() as int) =~= o0 && o1.last() is Server && o1.last()->Server_0 == t && o1.last()->Server_1.links@ == seq![entity] && o1.last()->Server_1.conditioner is None } },
//@@ |     _ => o1 == o0 && s1 =~= s0 } })
//@@ end
//@@ fn LinkOf::on_discard
//@@ rename: mut world : DeferredWorld => world: &mut DeferredWorld ;; HookContext { entity , relationship_hook_mode , .. } : HookContext => entity: Entity, relationship_hook_mode: RelationshipHookMode ;; . get :: < Self > ( ) => .vx_link_of() ;; Ok ( mut target_entity_mut ) => Ok(target_entity_mut) ;; Some ( mut relationship_target ) => Some(relationship_target) ;; target_entity_mut . get_mut :: < Server > ( ) => vx_server(target_entity_mut) ;; < Server as RelationshipTarget > :: LINKED_SPAWN => Server::LINKED_SPAWN ;; RelationshipSourceCollection :: remove ( relationship_target . collection_mut_risky ( ) , entity , ) => relationship_target.collection_mut_risky().remove(entity)
//@@ spec:
//@@ | requires old(world).names@.contains_key(entity)
//@@ | ensures final(world).links == old(world).links, final(world).cmd == old(world).cmd, ({
//@@ |   let t = old(world).names@[entity].server; let s0 = old(world).servers@; let s1 = final(world).servers@;
//@@ |   if relationship_hook_mode is Run && s0.contains_key(t) && s0[t] is Some { s1.dom() =~= s0.dom() && (forall|x: Entity| x != t && s0.contains_key(x) ==> #[trigger] s1[x] == s0[x]) && s1[t] is Some && s1[t]->Some_0.links@ == without(s0[t]->Some_0.links@, entity) && s1[t]->Some_0.conditioner == s0[t]->Some_0.conditioner }
//@@ |   else { s1 =~= s0 } })
//@@ end
}
/// a link joins once and leaves again: the server's links are as before
pub proof fn joined_and_left(s: Seq<Entity>, e: Entity)
    requires !s.contains(e)
    ensures s.push(e).contains(e), s.push(e).no_duplicates() <==> s.no_duplicates(), without(s.push(e), e) == s
{
    broadcast use vstd::seq_lib::group_seq_properties;
    let p = s.push(e);
    assert(p[s.len() as int] == e); assert(p.contains(e));
    assert forall|i: int| 0 <= i < s.len() implies p[i] != e by { assert(s[i] == p[i]); assert(s.contains(s[i])); }
    p.index_of_first_ensures(e);
    let i = p.index_of_first(e)->Some_0;
    assert(i == s.len());
    assert(p.remove(i) =~= s);
    assert(p.no_duplicates() ==> s.no_duplicates()) by { assert(forall|i: int| 0 <= i < s.len() ==> s[i] == p[i]); }
    assert(s.no_duplicates() ==> p.no_duplicates());
}
/// servers and the reason they were unlinked for
#[verifier::external_body]
pub struct UnlinkedServers { x: u64 }
impl UnlinkedServers {
    pub uninterp spec fn all(&self) -> Map<Entity, (Server, Unlinked)>;
    #[verifier::external_body]
    pub fn get_mut(&self, e: Entity) -> (r: Result<(&Server, &Unlinked), ()>) ensures self.all().contains_key(e) ==> r is Ok && *(r->Ok_0.0) == self.all()[e].0 && *(r->Ok_0.1) == self.all()[e].1, !self.all().contains_key(e) ==> r is Err { unimplemented!() }
}
/// each link is told, with this reason, and goes if it is there
pub open spec fn close_all(c: Commands, s: Seq<Entity>, why: UnlinkReason) -> Seq<Op> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { let a = close_all(c, s.drop_last(), why).push(Op::Unlink(s.last(), why)); if c.alive(s.last()) { a.push(Op::Despawn(s.last())) } else { a } }
}
impl Server {
//@@ fn Server::new
//@@ rename: Vec :: new ( ) => Links::new()
//@@ spec: ensures r.links@ == Seq::<Entity>::empty(), r.conditioner == conditioner
//@@ end
//@@ fn Server::on_add
//@@ rename: mut world : DeferredWorld => world: &mut DeferredWorld
//@@ spec:
//@@ | // unlinked from the start, unless it says otherwise
//@@ | ensures final(world).links == old(world).links, final(world).servers == old(world).servers, final(world).cmd.removed() == old(world).cmd.removed(), final(world).cmd.ops() == if (exists|m: Marker| old(world).has@.contains((context.entity, m))) { old(world).cmd.ops() } else { old(world).cmd.ops().push(Op::Unlinked(context.entity, UnlinkReason::Initial)) }
//@@ start: proof { let h = world.has@; let e = context.entity; assert((exists|m: Marker| h.contains((e, m))) <==> h.contains((e, Marker::Linked)) || h.contains((e, Marker::Linking)) || h.contains((e, Marker::Unlinked))) by { assert forall|m: Marker| #[trigger] h.contains((e, m)) implies h.contains((e, Marker::Linked)) || h.contains((e, Marker::Linking)) || h.contains((e, Marker::Unlinked)) by { match m { Marker::Linked => {} Marker::Linking => {} Marker::Unlinked => {} } } } }
//@@ end
//@@ fn Server::unlinked
//@@ rename: trigger : On < Add , Unlinked > => trigger: HookContext ;; mut query : Query < ( & Server , & Unlinked ) > => query: &UnlinkedServers ;; mut commands : Commands => commands: &mut Commands ;; Ok ( mut c ) => Ok(c) ;; in server_link . collection ( ) => in &server_link.collection().l
//@@ iter 0: it
//@@ loop 0:
//@@ | invariant it.seq().map_values(|x: &Entity| *x) =~= server_link.links@, commands.removed() == old(commands).removed(), forall|x: Entity| commands.alive(x) == old(commands).alive(x), commands.ops() == old(commands).ops() + close_all(*old(commands), server_link.links@.take(it.index@), unlinked.reason)
//@@ loopend 0: proof { let t = server_link.links@.take(it.index@ + 1); assert(t.drop_last() =~= server_link.links@.take(it.index@)); assert(it.seq().map_values(|x: &Entity| *x)[it.index@ as int] == t.last()); }
//@@ afterloop 0: proof { assert(server_link.links@.take(server_link.links@.len() as int) =~= server_link.links@); }
//@@ spec:
//@@ | ensures final(commands).removed() == old(commands).removed(), final(commands).ops() == if query.all().contains_key(trigger.entity) { let q = query.all()[trigger.entity]; old(commands).ops() + close_all(*old(commands), q.0.links@, q.1.reason) } else { old(commands).ops() }
//@@ end
}
/// the links that name a server
#[verifier::external_body]
pub struct NamingLinks { x: u64 }
impl NamingLinks {
    pub uninterp spec fn all(&self) -> Map<Entity, (LinkOf, Link)>;
    #[verifier::external_body]
    pub fn get_mut(&mut self, e: Entity) -> (r: Result<(&LinkOf, &mut Link), ()>)
        ensures match r {
            Ok(x) => old(self).all().contains_key(e) && *x.0 == old(self).all()[e].0 && *x.1 == old(self).all()[e].1 && final(self).all() == old(self).all().insert(e, (old(self).all()[e].0, *final(x.1))),
            Err(_) => !old(self).all().contains_key(e) && final(self).all() == old(self).all() } { unimplemented!() }
}
#[verifier::external_body]
pub struct AllServers { x: u64 }
impl AllServers {
    pub uninterp spec fn all(&self) -> Map<Entity, Server>;
    #[verifier::external_body]
    pub fn get(&self, e: Entity) -> (r: Result<&Server, ()>) ensures self.all().contains_key(e) ==> r is Ok && *(r->Ok_0) == self.all()[e], !self.all().contains_key(e) ==> r is Err { unimplemented!() }
}
impl LinkConditioner<RecvPayload> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// it inherits the server's conditioner when it has none of its own, and what it had received passes through it too
pub open spec fn inherits(a: Link, s: Server, b: Link) -> bool {
    if s.conditioner is Some && a.recv.conditioner is None {
        &&& b == (Link { recv: b.recv, ..a })
        &&& b.recv.buffer@ == Seq::<RecvPayload>::empty()
        &&& b.recv.conditioner is Some && all_cond(s.conditioner->Some_0, a.recv.buffer@, b.recv.conditioner->Some_0)
    } else { b == a }
}
//@@ fn add_server_link_conditioner
//@@ rename: trigger : On < Add , LinkOf > => trigger: HookContext ;; mut links : Query < ( & LinkOf , & mut Link ) > => links: &mut NamingLinks ;; servers : Query < & Server > , => servers: &AllServers, rng: &mut Rng ;; Ok ( ( link_of , mut link ) ) => Ok((link_of, link)) ;; Instant :: now ( ) ) => Instant::now(), rng)
//@@ iter 0: it
//@@ start: let ghost l0 = links.all(); let ghost e = trigger.entity;
//@@ loop 0:
//@@ | invariant link.recv.conditioner is Some, sane(conditioner.config), link.recv.conditioner->Some_0.config == conditioner.config, *link == (Link { recv: link.recv, ..l0[e].1 }), link.recv.buffer@ == Seq::<RecvPayload>::empty(),
//@@ |   it.seq() == l0[e].1.recv.buffer@, all_cond(*conditioner, it.seq().take(it.index@), link.recv.conditioner->Some_0)
//@@ loopbody 0: let ghost c0 = link.recv.conditioner->Some_0;
//@@ loopend 0: proof { let s = it.seq().take(it.index@ + 1); assert(s.drop_last() =~= it.seq().take(it.index@)); let t = choose|t: Instant| cond(c0, s.last(), t, link.recv.conditioner->Some_0); }
//@@ afterloop 0: proof { assert(l0[e].1.recv.buffer@.take(l0[e].1.recv.buffer@.len() as int) =~= l0[e].1.recv.buffer@); }
//@@ spec:
//@@ | requires forall|x: Entity| #[trigger] servers.all().contains_key(x) && servers.all()[x].conditioner is Some ==> sane(servers.all()[x].conditioner->Some_0.config)
//@@ | ensures final(links).all().dom() =~= old(links).all().dom(), forall|x: Entity| x != trigger.entity && old(links).all().contains_key(x) ==> #[trigger] final(links).all()[x] == old(links).all()[x],
//@@ |   old(links).all().contains_key(trigger.entity) ==> ({ let (n, a) = old(links).all()[trigger.entity]; let (m, b) = final(links).all()[trigger.entity]; m == n && if servers.all().contains_key(n.server) { inherits(a, servers.all()[n.server], b) } else { b == a } })
//@@ end
}
fn main() {}

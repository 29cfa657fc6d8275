// V9: pings and their answers (Y26).  Real code: crates/core/sync/src/ping/{store,manager}.rs, crates/core/utils/src/sequence_buffer.rs
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@@ include msgid.inc MessageId=>PingId
//@@ include seqbuf.inc
//@@ include dur.inc
impl Duration {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Duration) ensures r == *self { unimplemented!() }
}
/// std's Instant as a number
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Instant(pub u64);
impl Instant {
    #[verifier::external_body]
    pub fn saturating_duration_since(&self, earlier: Instant) -> (r: Duration) ensures r == passed(earlier, *self) { unimplemented!() }
}
pub open spec fn passed(from: Instant, to: Instant) -> Duration { Duration((if to.0 >= from.0 { to.0 - from.0 } else { 0 }) as u64) }
/// bevy_time's Stopwatch: time since the last reset
#[verifier::external_body]
pub struct Stopwatch { x: u64 }
impl View for Stopwatch { type V = u64; uninterp spec fn view(&self) -> u64; }
impl Stopwatch {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&mut self) ensures final(self)@ == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn elapsed(&self) -> (r: Duration) ensures r.0 == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn tick(&mut self, d: Duration) requires old(self)@ + d.0 <= u64::MAX ensures final(self)@ == old(self)@ + d.0 { unimplemented!() }
}
/// bevy_time's Time<Real>
#[verifier::external_body]
pub struct RealTime { x: u64 }
impl RealTime {
    pub uninterp spec fn passed(&self) -> u64;
    #[verifier::external_body]
    pub fn delta(&self) -> (r: Duration) ensures r.0 == self.passed() { unimplemented!() }
}
/// the moving averages: which sample they got, not their (floating-point) values
#[verifier::external_body]
pub struct RttEstimatorEwma { x: u64 }
impl View for RttEstimatorEwma { type V = Seq<Duration>; uninterp spec fn view(&self) -> Seq<Duration>; }
impl RttEstimatorEwma {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Seq::<Duration>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&mut self) ensures final(self)@ == Seq::<Duration>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update_with_new_sample(&mut self, s: Duration) ensures final(self)@ == old(self)@.push(s) { unimplemented!() }
}
/// the time the peer says it kept the ping (S06: never panics, never negative)
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct PositiveTickDelta { x: u64 }
pub uninterp spec fn claimed(d: PositiveTickDelta, tick: Duration) -> Duration;
pub uninterp spec fn no_delta() -> PositiveTickDelta;
pub fn vx_default() -> (r: PositiveTickDelta) ensures r == no_delta() { vx_no_delta() }
#[verifier::external_body]
pub fn vx_no_delta() -> (r: PositiveTickDelta) ensures r == no_delta() { unimplemented!() }
impl PositiveTickDelta {
    #[verifier::external_body]
    pub fn to_duration(&self, tick: Duration) -> (r: Duration) ensures r == claimed(*self, tick) { unimplemented!() }
}
pub fn vx_take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty() { let mut n = Vec::new(); core::mem::swap(v, &mut n); n }
//@@ source crates/core/sync/src/ping/message.rs
//@@ item struct Ping
//@@ item struct Pong
//@@ source crates/core/sync/src/ping/store.rs
//@@ item const PING_BUFFER_SIZE
//@@ item struct PingStore
impl PingStore {
    /// the time of the ping with this identifier, if it is still waiting for its answer
    pub open spec fn pending(self, id: PingId) -> Option<Instant> {
        match self.buffer.buffer@[id.0 as int % 128] { Some((k, t)) => if k == id { Some(t) } else { None }, None => None }
    }
    /// only the last 128 pings wait
    pub open spec fn wf(self) -> bool {
        forall|i: int| 0 <= i < 128 && (#[trigger] self.buffer.buffer@[i]) is Some ==> (self.buffer.buffer@[i]->0).0.0 as int % 128 == i && 1 <= fwd((self.buffer.buffer@[i]->0).0, self.latest_ping_id) <= 128
    }
    pub open spec fn fresh(self) -> bool { self.latest_ping_id == PingId(0) && self.wf() && forall|id: PingId| #[trigger] self.pending(id) is None }
    pub proof fn only_recent(self, id: PingId)
        requires self.wf(), self.pending(id) is Some
        ensures 1 <= fwd(id, self.latest_ping_id) <= 128
    { assert(self.buffer.buffer@[id.0 as int % 128] is Some); }
//@@ fn PingStore::new
//@@ spec: ensures r.fresh()
//@@ end
//@@ fn PingStore::push_new
//@@ spec:
//@@ | requires old(self).wf()
//@@ | ensures final(self).wf(), r == old(self).latest_ping_id, final(self).latest_ping_id.0 == (r.0 + 1) % 65536,
//@@ |   // the new ping waits, all others keep waiting, but the one sent 128 pings before
//@@ |   forall|id: PingId| #[trigger] final(self).pending(id) == (if id == r { Some(now) } else if fwd(id, r) == 128 { None } else { old(self).pending(id) })
//@@ start: let ghost o = *self; proof { assert forall|id: PingId| #[trigger] o.pending(id) is Some implies 1 <= fwd(id, o.latest_ping_id) <= 128 by { o.only_recent(id); }
//@@ |   assert forall|i: int| 0 <= i < 128 implies (#[trigger] o.buffer.buffer@[i]) is Some ==> (o.buffer.buffer@[i]->0).0.0 as int % 128 == i && 1 <= fwd((o.buffer.buffer@[i]->0).0, o.latest_ping_id) <= 128 by {} }
//@@ end
//@@ fn PingStore::remove
//@@ ret: vx_r
//@@ spec:
//@@ | requires old(self).wf()
//@@ | ensures final(self).wf(), vx_r == old(self).pending(ping_id), final(self).latest_ping_id == old(self).latest_ping_id,
//@@ |   forall|id: PingId| #[trigger] final(self).pending(id) == (if id == ping_id { None } else { old(self).pending(id) })
//@@ closures: map
//@@ end
//@@ fn PingStore::reset
//@@ spec: ensures final(self).fresh()
//@@ end
}
//@@ source crates/core/sync/src/ping/manager.rs
//@@ item struct PingConfig
//@@ item struct PingManager
/// the ping is newer than the newest one sampled (identifiers half the circle apart count as newer)
pub open spec fn newest(seen: Option<PingId>, id: PingId) -> bool { match seen { Some(l) => 1 <= fwd(l, id) <= 32768, None => true } }
impl PingManager {
    pub open spec fn wf(self) -> bool { self.ping_store.wf() && self.latency_samples_recv <= self.pongs_recv }
    pub open spec fn same_but_pings(self, o: PingManager) -> bool {
        self.config == o.config && self.most_recent_received_ping == o.most_recent_received_ping && self.pongs_to_send == o.pongs_to_send
        && self.rtt_estimator_ewma == o.rtt_estimator_ewma && self.pongs_recv == o.pongs_recv && self.latency_samples_recv == o.latency_samples_recv }
    /// nothing is left of an earlier session
    pub open spec fn fresh(self) -> bool {
        self.ping_timer@ == 0 && self.ping_store.fresh() && self.most_recent_received_ping is None && self.pongs_to_send@.len() == 0
        && self.rtt_estimator_ewma@.len() == 0 && self.pings_sent == 0 && self.pongs_recv == 0 && self.latency_samples_recv == 0 }
//@@ fn PingManager::new
//@@ rename: vec ! [ ] => Vec::new()
//@@ spec: ensures r.fresh(), r.wf(), r.config == config
//@@ end
//@@ fn PingManager::reset
//@@ spec: ensures final(self).fresh(), final(self).wf(), final(self).config == old(self).config
//@@ end
//@@ fn PingManager::latency_samples_recv
//@@ spec: ensures r == self.latency_samples_recv
//@@ end
//@@ fn PingManager::update
//@@ rename: Time < Real > => RealTime
//@@ spec: requires old(self).ping_timer@ + time.passed() <= u64::MAX ensures final(self).ping_timer@ == old(self).ping_timer@ + time.passed(), *final(self) == (PingManager { ping_timer: final(self).ping_timer, ..*old(self) })
//@@ end
//@@ fn PingManager::record_rtt_sample
//@@ spec:
//@@ | requires old(self).latency_samples_recv < u32::MAX
//@@ | ensures final(self).rtt_estimator_ewma@ == old(self).rtt_estimator_ewma@.push(rtt_sample), final(self).latency_samples_recv == old(self).latency_samples_recv + 1,
//@@ |   *final(self) == (PingManager { rtt_estimator_ewma: final(self).rtt_estimator_ewma, latency_samples_recv: final(self).latency_samples_recv, ..*old(self) })
//@@ end
//@@ fn PingManager::maybe_prepare_ping
//@@ ret: vx_r
//@@ spec:
//@@ | requires old(self).wf(), old(self).pings_sent < u32::MAX
//@@ | ensures final(self).wf(), final(self).same_but_pings(*old(self)),
//@@ |   // a ping is due exactly when the interval is over; the next one is then an interval away
//@@ |   match vx_r {
//@@ |     Some(p) => old(self).ping_timer@ >= old(self).config.ping_interval.0 && final(self).ping_timer@ == 0 && final(self).pings_sent == old(self).pings_sent + 1
//@@ |       && p.id == old(self).ping_store.latest_ping_id && final(self).ping_store.latest_ping_id.0 == (p.id.0 + 1) % 65536
//@@ |       && forall|id: PingId| #[trigger] final(self).ping_store.pending(id) == (if id == p.id { Some(now) } else if fwd(id, p.id) == 128 { None } else { old(self).ping_store.pending(id) }),
//@@ |     None => old(self).ping_timer@ < old(self).config.ping_interval.0 && *final(self) == *old(self) }
//@@ end
//@@ fn PingManager::process_pong
//@@ closures: is_none_or
//@@ spec:
//@@ | requires old(self).wf(), old(self).pongs_recv < u32::MAX
//@@ | ensures final(self).wf(), final(self).pongs_recv == old(self).pongs_recv + 1,
//@@ |   final(self).config == old(self).config, final(self).ping_timer == old(self).ping_timer, final(self).pongs_to_send == old(self).pongs_to_send,
//@@ |   final(self).pings_sent == old(self).pings_sent, final(self).ping_store.latest_ping_id == old(self).ping_store.latest_ping_id,
//@@ |   // the ping is answered
//@@ |   forall|id: PingId| #[trigger] final(self).ping_store.pending(id) == (if id == pong.ping_id { None } else { old(self).ping_store.pending(id) }),
//@@ |   // it yields a sample only if it was waiting, and is newer than all sampled ones
//@@ |   match old(self).ping_store.pending(pong.ping_id) {
//@@ |     Some(sent) => if newest(old(self).most_recent_received_ping, pong.ping_id) {
//@@ |         final(self).most_recent_received_ping == Some(pong.ping_id)
//@@ |         && final(self).rtt_estimator_ewma@ == old(self).rtt_estimator_ewma@.push(since(passed(sent, now), claimed(pong.frame_time, tick_duration)))
//@@ |         && final(self).latency_samples_recv == old(self).latency_samples_recv + 1
//@@ |       } else { final(self).most_recent_received_ping == old(self).most_recent_received_ping && final(self).rtt_estimator_ewma == old(self).rtt_estimator_ewma && final(self).latency_samples_recv == old(self).latency_samples_recv },
//@@ |     None => final(self).most_recent_received_ping == old(self).most_recent_received_ping && final(self).rtt_estimator_ewma == old(self).rtt_estimator_ewma && final(self).latency_samples_recv == old(self).latency_samples_recv }
//@@ end
//@@ fn PingManager::buffer_pending_pong
//@@ rename: Default :: default ( ) => vx_default()
//@@ spec:
//@@ | ensures final(self).pongs_to_send@ == old(self).pongs_to_send@.push((Pong { ping_id: ping.id, frame_time: no_delta() }, now)), *final(self) == (PingManager { pongs_to_send: final(self).pongs_to_send, ..*old(self) })
//@@ end
//@@ fn PingManager::drain_pending_pongs
//@@ rename: impl Iterator < Item = ( Pong , Instant ) > + '_ => Vec<(Pong, Instant)> ;; self . pongs_to_send . drain ( .. ) => vx_take(&mut self.pongs_to_send)
//@@ spec:
//@@ | // every received ping is answered once, in order
//@@ | ensures r@ == old(self).pongs_to_send@, final(self).pongs_to_send@.len() == 0, *final(self) == (PingManager { pongs_to_send: final(self).pongs_to_send, ..*old(self) })
//@@ end
}
// ---------------------------------------------------------------- a session, by induction over the contracts
/// what happened to a manager since its session began
pub enum Step { Nothing, Sent { id: PingId, at: Instant }, Answered { id: PingId, sample: Option<Duration> } }
/// state of a session: number of pings sent, times of sending, which were sampled (by absolute number)
pub struct Session { pub n: nat, pub sent: Seq<Instant>, pub sampled: Seq<nat> }
pub open spec fn id_of(n: nat) -> PingId { PingId((n % 65536) as u16) }
/// the manager's bookkeeping is about the pings of this session
pub open spec fn agrees(m: PingManager, s: Session) -> bool {
    &&& m.wf() && s.sent.len() == s.n && m.ping_store.latest_ping_id == id_of(s.n)
    // whatever waits was sent in this session, among the last 128, at the recorded time, and was not sampled
    &&& forall|k: nat| k < s.n && s.n <= k + 128 && (#[trigger] m.ping_store.pending(id_of(k))) is Some ==> m.ping_store.pending(id_of(k)) == Some(s.sent[k as int]) && !s.sampled.contains(k)
    &&& forall|id: PingId| (#[trigger] m.ping_store.pending(id)) is Some ==> exists|k: nat| #![trigger id_of(k)] k < s.n && s.n <= k + 128 && id == id_of(k)
    // the samples are about distinct pings, each newer than the ones before
    &&& forall|i: int, j: int| 0 <= i < j < s.sampled.len() ==> s.sampled[i] < s.sampled[j]
    &&& forall|i: int| 0 <= i < s.sampled.len() ==> #[trigger] s.sampled[i] < s.n
    &&& m.rtt_estimator_ewma@.len() == s.sampled.len()
    &&& match m.most_recent_received_ping { Some(l) => s.sampled.len() > 0 && l == id_of(s.sampled.last()), None => s.sampled.len() == 0 }
}
/// the answers come often enough for the 16-bit identifiers to be compared
pub open spec fn in_reach(s: Session) -> bool { s.sampled.len() > 0 ==> s.n - s.sampled.last() < 32768 }
pub proof fn start(m: PingManager) requires m.fresh(), m.wf() ensures agrees(m, Session { n: 0, sent: Seq::empty(), sampled: Seq::empty() }) {}
/// sending a ping
pub proof fn send_step(m: PingManager, s: Session, m2: PingManager, id: PingId, now: Instant)
    requires agrees(m, s), m2.wf(), m2.same_but_pings(m), id == m.ping_store.latest_ping_id, m2.ping_store.latest_ping_id.0 == (id.0 + 1) % 65536,
        forall|x: PingId| #[trigger] m2.ping_store.pending(x) == (if x == id { Some(now) } else if fwd(x, id) == 128 { None } else { m.ping_store.pending(x) })
    ensures agrees(m2, Session { n: s.n + 1, sent: s.sent.push(now), sampled: s.sampled })
{
    let t = Session { n: s.n + 1, sent: s.sent.push(now), sampled: s.sampled };
    assert forall|x: PingId| (#[trigger] m2.ping_store.pending(x)) is Some implies exists|k: nat| #![trigger id_of(k)] k < t.n && t.n <= k + 128 && x == id_of(k) by {
        if x == id { assert(x == id_of(s.n)); } else {
            let k = choose|k: nat| #![trigger id_of(k)] k < s.n && s.n <= k + 128 && x == id_of(k);
            assert(id_of(k) == x); assert(fwd(x, id) == s.n - k);
        }
    }
    assert forall|k: nat| k < t.n && t.n <= k + 128 && (#[trigger] m2.ping_store.pending(id_of(k))) is Some implies m2.ping_store.pending(id_of(k)) == Some(t.sent[k as int]) && !t.sampled.contains(k) by {
        if k == s.n { assert(id_of(k) == id); if t.sampled.contains(k) { let i = choose|i: int| 0 <= i < s.sampled.len() && s.sampled[i] == k; assert(s.sampled[i] < s.n); } }
        else { assert(id_of(k) != id); assert(m.ping_store.pending(id_of(k)) is Some); }
    }
}
/// circular order of the identifiers is the order of sending, within reach
pub proof fn later(l: nat, k: nat, n: nat)
    requires l < n, k < n, n <= k + 128, n - l < 32768
    ensures newest(Some(id_of(l)), id_of(k)) ==> l < k
{
    assert(fwd(id_of(l), id_of(k)) == (k - l) % 65536);
    if k < l { assert((k - l) % 65536 == 65536 + k - l); }
}
/// receiving an answer, whatever it claims: at most one sample, about a ping of this session that waited, newer than all sampled before
pub proof fn answer_step(m: PingManager, s: Session, m2: PingManager, id: PingId, now: Instant, held: Duration) -> (r: Session)
    requires agrees(m, s), in_reach(s), m2.wf(), m2.ping_store.latest_ping_id == m.ping_store.latest_ping_id,
        forall|x: PingId| #[trigger] m2.ping_store.pending(x) == (if x == id { None } else { m.ping_store.pending(x) }),
        match m.ping_store.pending(id) {
            Some(sent) => if newest(m.most_recent_received_ping, id) { m2.most_recent_received_ping == Some(id) && m2.rtt_estimator_ewma@ == m.rtt_estimator_ewma@.push(since(passed(sent, now), held)) }
                else { m2.most_recent_received_ping == m.most_recent_received_ping && m2.rtt_estimator_ewma == m.rtt_estimator_ewma },
            None => m2.most_recent_received_ping == m.most_recent_received_ping && m2.rtt_estimator_ewma == m.rtt_estimator_ewma }
    ensures agrees(m2, r), r.n == s.n, r.sent == s.sent,
        // either nothing is learned, or one sample: the time since that ping was sent, minus what the peer kept it
        (r.sampled == s.sampled && m2.rtt_estimator_ewma@ == m.rtt_estimator_ewma@)
        || (exists|k: nat| #![trigger id_of(k)] k < s.n && s.n <= k + 128 && id == id_of(k) && r.sampled == s.sampled.push(k) && !s.sampled.contains(k)
              && (forall|i: int| 0 <= i < s.sampled.len() ==> #[trigger] s.sampled[i] < k)
              && m2.rtt_estimator_ewma@ == m.rtt_estimator_ewma@.push(since(passed(s.sent[k as int], now), held)))
{
    if m.ping_store.pending(id) is Some && newest(m.most_recent_received_ping, id) {
        let k = choose|k: nat| #![trigger id_of(k)] k < s.n && s.n <= k + 128 && id == id_of(k);
        let r = Session { n: s.n, sent: s.sent, sampled: s.sampled.push(k) };
        assert(m.ping_store.pending(id_of(k)) is Some);
        if s.sampled.len() > 0 { later(s.sampled.last(), k, s.n); }
        assert forall|i: int| 0 <= i < s.sampled.len() implies #[trigger] s.sampled[i] < k by { assert(s.sampled[i] <= s.sampled.last()); }
        assert forall|j: nat| j < r.n && r.n <= j + 128 && (#[trigger] m2.ping_store.pending(id_of(j))) is Some implies m2.ping_store.pending(id_of(j)) == Some(r.sent[j as int]) && !r.sampled.contains(j) by {
            assert(id_of(j) != id);
            assert(m.ping_store.pending(id_of(j)) is Some);
            if r.sampled.contains(j) { let i = choose|i: int| 0 <= i < r.sampled.len() && r.sampled[i] == j; if i == s.sampled.len() { assert(j == k); } else { assert(s.sampled.contains(j)) by { assert(s.sampled[i] == j); } } }
        }
        assert forall|x: PingId| (#[trigger] m2.ping_store.pending(x)) is Some implies exists|j: nat| #![trigger id_of(j)] j < r.n && r.n <= j + 128 && x == id_of(j) by { assert(m.ping_store.pending(x) is Some); }
        assert(r.sampled.last() == k);
        r
    } else {
        assert forall|j: nat| j < s.n && s.n <= j + 128 && (#[trigger] m2.ping_store.pending(id_of(j))) is Some implies m2.ping_store.pending(id_of(j)) == Some(s.sent[j as int]) && !s.sampled.contains(j) by { assert(m.ping_store.pending(id_of(j)) is Some); }
        assert forall|x: PingId| (#[trigger] m2.ping_store.pending(x)) is Some implies exists|j: nat| #![trigger id_of(j)] j < s.n && s.n <= j + 128 && x == id_of(j) by { assert(m.ping_store.pending(x) is Some); }
        s
    }
}
}
fn main() {}
